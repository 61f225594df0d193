"""C31: builds that overlap are as good as builds one after the other."""
import json
import tempfile

from vf import engine, overlap, tlc

CFG = """SPECIFICATION Spec
CONSTANTS
 Programs <- {programs}
 MaxSwitch = {switches}
 Losses = {losses}
 Emitting = {emit}
INVARIANTS {inv}
{rest}
CHECK_DEADLOCK FALSE
"""
INV = "BuiltIsFresh TriedIsSound Deterministic KnownIsStored NeverStuck"


def style(rng, i=0):
    return {"seed": rng.randint(0, 10**6), "pad": rng.random() < 0.2}


def run(check):
    rng = check.rng
    check.spec(tlc.run("MCOverlap", workers=8, heap="12g", cfg_text=CFG.format(programs="MCPrograms", switches=99, losses=check.pick(1, 2), emit="FALSE", inv=INV, rest="PROPERTIES Stable\nVIEW OverlapView")),
               what="Overlap: 3 programs, two builders, any order, any loss")
    # every schedule with up to two switches
    r = tlc.run("MCOverlap", workers=8, heap="12g", cfg_text=CFG.format(programs="MCPrograms", switches=2, losses=1, emit="TRUE", inv="EmitSched", rest=""))
    check.spec(r, what="Overlap: schedules with up to two switches")
    found = r.get("S")
    check.count("schedules_of_the_specification", len(found))
    some = rng.sample(found, check.pick(4000, 40000))
    items = []
    for x in some:
        x["prog"] = engine.normalise(x["prog"])
        items.append((x["prog"], overlap.from_schedule(x, rng, rng.choice([1, 1, 2, 3])), style(rng)))
    check.sample({"schedule": some[0]})
    overlap.judge(check, overlap.run_all(check, items), what="spec_schedules")
    # other programs, more builders, more switches
    items = []
    for _ in range(check.pick(2500, 30000)):
        p = engine.random_program(rng, size=rng.randint(2, 6), part=0.6)
        items.append((p, overlap.random_plan(rng, p, builders=rng.choice([2, 2, 3]), switches=rng.randint(3, 14)), style(rng)))
    overlap.judge(check, overlap.run_all(check, items), what="random_schedules")
