"""C14: discovering partitions inverts writing them (spec/Templates.tla)."""
import os

from arti import Artifact, InputFingerprints
from arti.formats.json import JSON
from arti.storage.local import LocalFile

from vf import storages, tables
from vf.core import Scratch
from vf.replay import key


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def discover(c):
    with Scratch() as d:
        root = str(d / "r[1]")
        s = Artifact(type=storages.type_of(c["fields"]), format=JSON(), storage=LocalFile(path=f"{root}/{c['tpl']}")).storage
        wrote = {}
        for f in c["files"]:
            p = s.generate_partition(partition_key=storages.pkey(f["k"]), input_fingerprint=storages.fingerprint(f["fp"]))
            if p.path != f"{root}/{f['at']}":
                return {"written to": p.path, "not to": f["at"]}
            put(p.path, key(f))
            wrote[p.path] = p.compute_content_fingerprint()
        for n in c["noise"]:
            put(f"{root}/{n}", "junk")
        if c["noise"]:
            for other in ("r1", "R[1]", "r[1]r"):
                for f in c["files"]:
                    put(f"{d}/{other}/{f['at']}", "other")
        ask = InputFingerprints({storages.pkey(a["k"]): storages.fingerprint(a["fp"]) for a in c["ask"]})
        out = []
        for x in s.discover_partitions(ask) if c["ask"] else s.discover_partitions():
            p = x.storage_partition
            if x.content_fingerprint != wrote.get(p.path) or p.storage != s:
                return {"wrong content or storage": repr(x)}
            out.append({"k": storages.unkey(p.partition_key), "at": p.path.removeprefix(root + "/"),
                        "fp": str(int(p.input_fingerprint)) if p.input_fingerprint is not None else ""})
        return sorted(out, key=key)


def run(check):
    items = tables.cases(check, "Templates", inv="FindLaws", init="FindInit", emit="FindEmit", heap="12g",
                         consts=f"Deep = {check.pick('FALSE', 'TRUE')}", what="Templates: finding")
    tables.compare(check, items, discover, what="discoveries", same=lambda w, g: key(sorted(w, key=key)) == key(g),
                   name=lambda c: c["tpl"])
