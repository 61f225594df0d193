"""C05: snapshots stay bound to the data they were built with."""
from vf import engine


def run(check):
    engine.model_check(check, ops=check.pick(2, 4), inv="BuiltIsFresh", extra=check.pick(2, 8))
    engine.spec_campaign(check, what="spec_histories", num=check.pick(25, 300), ops=12, fault_odds=20,
                         limit=check.pick(100, 1500))
    engine.campaign(check, what="random_histories", n=check.pick(300, 5000), ops=check.pick(9, 18), faults=0.15, vers=0.2,
                    fresh=0.02, old=0.5, lit=0.35, values=(1, 2, 3))
