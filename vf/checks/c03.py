"""C03: declared versions decide exactly when code changes invalidate data."""
import copy
import os
import pickle
import subprocess
from datetime import UTC, datetime, timedelta, timezone
from typing import Annotated

from arti import Artifact, Graph, Producer, Type, Version, producer
from arti.formats.json import JSON
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Int64
from arti.versions import GitCommit, SemVer, String, Timestamp

from vf import elsewhere, engine, tables, tlc
from vf.core import Scratch
from vf.replay import LTS, Adapter, key, replay_lts


class Num(Artifact):
    type: Type = Int64()


TIMES = [datetime(2024, 1, 1, tzinfo=UTC), datetime(2024, 1, 1, 0, 0, 0, 1, tzinfo=UTC), datetime(2024, 1, 2, tzinfo=UTC),
         datetime(2024, 1, 1, tzinfo=timezone(timedelta(hours=5)))]


def version(v):
    if v["kind"] == "semver":
        return SemVer(major=v["major"], minor=v["minor"], patch=v["patch"])
    if v["kind"] == "string":
        return String(value=v["value"])
    if v["kind"] == "git":
        return GitCommit(sha=v["value"])
    return Timestamp(dt=TIMES[v["value"]])


def fingerprint(c):
    v = version(c["v"])
    if c["made"] == "copied":
        v.fingerprint
        v = v.model_copy()
    if c["made"] == "updated":
        others = {"semver": [{"major": 0, "minor": 7, "patch": 8}, {"major": 5, "minor": 7, "patch": 8}],
                  "string": [{"value": "x"}], "git": [{"value": "x"}], "timestamp": [{"value": 2}]}[c["v"]["kind"]]
        got = set()
        for o in others:
            w = version({"kind": c["v"]["kind"], **o})
            w.fingerprint
            got.add(w.model_copy(update={k: getattr(v, k) for k in type(v).model_fields}).fingerprint)
            got.add(version({"kind": c["v"]["kind"], **o}).model_copy(
                update={k: getattr(v, k) for k in type(v).model_fields}).fingerprint)
        return str(int(got.pop())) if len(got) == 1 else tables.Wrong({"several": sorted(map(str, got))})
    if c["made"] == "pickled":
        v = pickle.loads(pickle.dumps(v))
    if c["made"] == "deepcopied":
        v.fingerprint
        v = copy.deepcopy(v)
    if c["made"] == "used":
        hash(v), repr(v), v.model_dump(), v == version(c["v"])
    return str(int(v.fingerprint))


RAN = []


def build(x):
    RAN.append(1)
    return x + 1


build.__annotations__ = {"x": Annotated[int, Num], "return": Annotated[int, Num]}
_CLS = {}


def producer_with(v, how):
    """The producer class at a version; always the same qualified name."""
    k = key([v, how])
    if k not in _CLS:
        if how == "decorator":
            cls = producer(name="Versioned", version=version(v))(build)
        else:
            body = {"__annotations__": {"x": Num, "version": Version}, "__module__": __name__, "build": staticmethod(build)}
            if how == "class":
                body["version"] = version(v)
            else:
                del body["__annotations__"]["version"]
            cls = type("Versioned", (Producer,), body)
        _CLS[k] = cls
    return _CLS[k]


class Builds(Adapter):
    def __init__(self):
        self.scratch = Scratch()
        self.dir = self.scratch.__enter__()
        self.backend = engine.spy_backend()

    def close(self):
        self.scratch.__exit__()

    def apply(self, a):
        if a["op"] == "restart":
            self.backend = engine.spy_backend()
            return True
        v, how = a["v"], a["how"]
        engine.LOG = engine.Log()
        with Graph(name="g", backend=self.backend) as g:
            g.artifacts.x = Num(format=JSON(), storage=StringLiteral(value="4"))
            kw = {"version": version(v)} if how == "instance" else {}
            cls = producer_with(v, how)
            # Where the class was declared is part of its identity, how is not.
            cls._arti_type_key_ = "vf.Versioned"
            g.artifacts.y = cls(x=g.artifacts.x, **kw).out(Num(format=JSON(), storage=LocalFile.rooted_at(self.dir)))
        RAN.clear()
        g.build()
        got = g.read(g.artifacts.y, annotation=int)
        return {"ran": bool(RAN)} if got == 5 and len(RAN) < 2 else {"ran": len(RAN), "read": got}


def defaults(check):
    """Unset versions resolve to the commit or moment they are created at."""
    env = {**os.environ, "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_SYSTEM": "/dev/null"}
    with Scratch() as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            subprocess.run(["git", "init", "-q"], check=True, env=env)
            seen = []
            for i in range(3):
                subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-q", "--allow-empty", "-m", str(i)],
                               check=True, env=env)
                sha = subprocess.check_output(["git", "rev-parse", "HEAD"], text=True, env=env).strip()
                if GitCommit().fingerprint != GitCommit(sha=sha).fingerprint:
                    check.violation("GitCommit() is not the checked out commit", {"sha": sha, "got": repr(GitCommit())})
                seen.append(GitCommit().fingerprint)
            if len(set(seen)) != 3:
                check.violation("GitCommit() does not follow commits", {"seen": list(map(str, seen))})
        finally:
            os.chdir(cwd)
    a, t0 = Timestamp(), datetime.now(tz=UTC)
    b = Timestamp()
    if not (a.dt <= t0 <= b.dt) or a.dt.tzinfo is None or (a.dt != b.dt and a.fingerprint == b.fingerprint):
        check.violation("Timestamp() is not the current moment", {"a": repr(a), "b": repr(b)})
    try:
        Timestamp(dt=datetime(2024, 1, 1))
        check.violation("a timestamp without a time zone was accepted", {})
    except ValueError:
        pass
    check.count("defaults", 5)


def run(check):
    r = tlc.run("Versions", workers=2, cfg_text="INIT TInit\nNEXT TNext\nCONSTANTS Few = {}\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n")
    check.spec(r, what="Versions: table")
    items = r.get("C")
    tables.classes(check, items, fingerprint, what="versions")
    some = [x["c"] for x in items if x["c"]["made"] in ("new", "pickled")]
    elsewhere.compare(check, "vf.checks.c03", "fingerprint", some, tables._pmap(fingerprint, some), what="versions")
    for few in ("SemVerFew", "OtherFew"):
        h = tlc.run("Versions", workers=4, cfg_text=f"INIT HInit\nNEXT HNext\nINVARIANTS HLaws\nCONSTANTS Few <- {few}\nCHECK_DEADLOCK FALSE\n")
        check.spec(h, what=f"Versions: rebuilding, {few}")
        replay_lts(check, LTS(h.get("E")), [key({"done": [], "disk": [], "cold": True})], Builds, what=f"rebuilding_{few}",
                   max_len=40, limit=check.pick(150, None))
    defaults(check)
    engine.campaign(check, what="version_histories", n=check.pick(120, 2000), ops=7, vers=0.5, fresh=0.1, decoy=0.1, tag="C02")
