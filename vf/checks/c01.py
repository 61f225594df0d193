"""C01: a build yields what evaluating the graph from scratch yields."""
from vf import engine


def run(check):
    engine.model_check(check, ops=check.pick(2, 4), inv="BuiltIsFresh Deterministic KnownIsStored", extra=check.pick(2, 12))
    engine.spec_campaign(check, what="spec_histories", num=check.pick(25, 300), ops=10, fault_odds=0,
                         limit=check.pick(100, 1500))
    engine.campaign(check, what="random_histories", n=check.pick(250, 4000), ops=check.pick(6, 14), swap=0.2, vers=0.1,
                    values=(1, 2))
    engine.campaign(check, what="partition_histories", n=check.pick(100, 2000), ops=6, part=1.0, lit=0.1, swap=0.1,
                    values=(1, 2, 3), rebuild=0.05)
    engine.campaign(check, what="rewired_graphs", n=check.pick(100, 1500), ops=5, rewired=1.0, fresh=0.15, lit=0.1)
    engine.campaign(check, what="replaced_producers", n=check.pick(60, 1000), ops=5, replaced=1.0, fresh=0.15, lit=0.1)
    check.assumptions += [
        "producers are deterministic functions of their inputs and version (as the library requires)",
        "data is one row per partition; partition keys are Int64"]
