"""C04: failed or interrupted builds leave nothing wrong and can be retried."""
from vf import engine


def run(check):
    engine.model_check(check, ops=check.pick(2, 4), inv="TriedIsSound KnownIsStored BuiltIsFresh NoRepeat", extra=check.pick(2, 12))
    engine.spec_campaign(check, what="spec_histories", num=check.pick(25, 300), ops=10, fault_odds=6,
                         limit=check.pick(120, 1500), pad=0.7)
    engine.campaign(check, what="random_faults", n=check.pick(300, 5000), ops=check.pick(6, 12), faults=0.6, pad=0.7,
                    fresh=0.15, values=(1, 2))
    engine.campaign(check, what="torn_writes", n=check.pick(120, 2000), ops=5, faults=0.7, pad=1.0, fresh=0.2, lit=0.15,
                    kinds=("fsize", "crash", "unser"), part=0.8)
    engine.campaign(check, what="backend_faults", n=check.pick(120, 2000), ops=5, faults=0.7, pad=0.0, fresh=0.1, lit=0.3,
                    kinds=("backend",), size=(4, 8))
