"""C09: tags name exactly one snapshot per graph name until moved on purpose."""
from vf import backend, engine


def run(check):
    backend.exhaustive(check, "tags, 2 names, 2 tags", groups='"tags"', tags='{"t", "u"}')
    backend.exhaustive(check, "tags, 2 backends", groups='"tags"', backends="{1, 2}")
    backend.exhaustive(check, "tags, 3 snapshots", groups='"tags"', ids="{1, 2, 3}", names='{"g"}', tags='{"t", "u"}')
    backend.exhaustive(check, "tags and pickled backends", groups='"tags", "clone"', backends="{1, 2}", ids="{1, 2}", names='{"g"}')
    backend.simulated(check, "everything", num=check.pick(150, 3000), depth=check.pick(60, 120), backends="{1, 2}",
                      tags='{"t", "u", "v"}', ids="{1, 2, 3}", parts="P4", arts="ThreeStorages", filters="F2")
    # tags through whole histories
    engine.campaign(check, what="histories", n=check.pick(80, 800), ops=8, old=0.5, decoy=0.5, fresh=0.0, tag="C05")
