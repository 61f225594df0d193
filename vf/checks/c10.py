"""C10: the metadata backend returns what was recorded, kept apart by key."""
from vf import backend


def run(check):
    backend.exhaustive(check, "graphs", groups='"graphs"', backends="{1, 2}")
    backend.exhaustive(check, "snapshots", groups='"snaps"', backends="{1, 2}")
    backend.exhaustive(check, "links by graph and key", groups='"links"', parts="P2", ids="{1}", limit=check.pick(150, None))
    backend.exhaustive(check, "links by snapshot and key", groups='"links"', parts="P2", names='{"g"}', limit=check.pick(150, None))
    backend.exhaustive(check, "links by graph and snapshot", groups='"links"', parts="P2", keys='{"k1"}', limit=check.pick(150, None))
    backend.exhaustive(check, "storage partitions", groups='"parts"', limit=check.pick(150, None))
    backend.exhaustive(check, "inputs of several keys", groups='"parts"', parts="P5", arts='OneArtifact', filters="F2", limit=check.pick(150, None))
    backend.exhaustive(check, "raw storage partitions", groups='"parts"', parts="P0", arts="RawStorage", filters="F0", limit=check.pick(150, None))
    backend.exhaustive(check, "rewritten partitions", groups='"parts", "both", "links"', parts="P2", names='{"g"}', ids="{1}", keys='{"k1"}',
                       limit=check.pick(150, None))
    backend.exhaustive(check, "pickled backends", groups='"parts", "clone"', parts="P2", backends="{1, 2}", limit=check.pick(150, None))
    backend.simulated(check, "everything", num=check.pick(200, 4000), depth=check.pick(60, 120), backends="{1, 2}",
                      tags='{"t", "u"}', parts="P4", arts="ThreeStorages", filters="F2")
