"""C02: finished work is reused and only affected work is redone."""
from vf import engine


def run(check):
    engine.model_check(check, ops=check.pick(2, 4), inv="NoRepeat", extra=check.pick(2, 12))
    engine.spec_campaign(check, what="spec_histories", num=check.pick(25, 300), ops=12, fault_odds=0,
                         limit=check.pick(100, 1500))
    engine.campaign(check, what="random_histories", n=check.pick(250, 4000), ops=check.pick(8, 16), swap=0.1, vers=0.2,
                    fresh=0.03, rebuild=0.2, old=0.4, values=(1, 2), fns=("par", "par", "con", "lin"))
    engine.campaign(check, what="restarts", n=check.pick(80, 1500), ops=6, fresh=0.3, lit=0.05, rebuild=0.2, vers=0.05)
