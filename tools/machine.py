"""Exhaustive runs of the small models, and the replay of their vectors on the real library."""
import json
import os
import re

from common import Doc, SPEC, ToolError, counts, execute, pts, tlc
from xmldoc import Texts, events

MODES = ["e164", "international", "national", "rfc3966"]

INVARIANTS = {
    "C01": ["C01_Formattable", "C01_Errors"],
    "C02": ["C02_RegionFree", "C02_Spelling", "C02_Source"],
    "C03": ["C03_Keeps", "C03_Suffix", "C03_NoPrefixKeepsAll", "C03_Prefix"],
    "C04": ["C04_Punctuation", "C04_Wide", "C04_Around"],
    "C05": ["C05_Split", "C05_Digits"],
    "C06": ["C06_RoundTrip"],
    "C07": ["C07_E164", "C07_Heads"],
    "C08": ["C08_Types", "C08_General"],
    "C09": ["C09_Territory", "C09_Alone"],
    "C11": ["C11_Limits", "C11_Viable"],
}


def model_doc(name):
    path = os.path.join(SPEC, "models", name + ".xml")
    return Doc("parse", open(path, encoding="utf-8").read())


def run(doc, tokens, most, regions, prop, work, emit=True, stages=True, live=False, timeout=880, workers=8):
    """Vectors (one per finished request), distinct states, transitions."""
    texts = Texts()
    evs = [events(doc.xml, texts)]
    with open(os.path.join(work, "run.json"), "w") as f:
        json.dump({"docs": evs, "texts": texts.rows, "tokens": [pts(t) for t in tokens], "max": most,
                   "regions": regions, "emit": emit}, f)
    cfg = ["CONSTANT Run <- ModelFile", "SPECIFICATION Spec"]
    cfg += ["INVARIANT " + n for n in INVARIANTS.get(prop, [])]
    if stages:
        cfg.append("INVARIANT StagesAreParse")
    if live:
        cfg.append("PROPERTY C01_Live")
    with open(os.path.join(work, "Machine.run.cfg"), "w") as f:
        f.write("\n".join(cfg) + "\n")
    rc, out = tlc("Machine.tla", "Machine.run.cfg", work, timeout=timeout, workers=workers)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("the model does not hold:\n" + "\n".join(l for l in out.split("\n") if "VECTOR" not in l and "Linting" not in l and "Semantic proc" not in l and "Parsing file" not in l)[-2500:])
    vectors = [json.loads(json.loads(l)[7:]) for l in out.split("\n") if l.startswith('"VECTOR ')]
    gen, dist = counts(out)
    return vectors, dist, gen


def _outcome(e, o, tag):
    """Expected e (a number or an error) against observed o."""
    if o["t"] == "panic":
        return {"panic"}
    if "err" in e:
        if o["t"] != "err":
            return {tag + ".accepted"}
        return set() if o["e"] == e["err"] else {tag + ".error"}
    if o["t"] != "ok":
        return {tag + ".rejected"}
    bad = set()
    for mine, theirs, name in (("code", "code", "code"), ("src", "src", "source"), ("nsn", "nsn", "national"),
                               ("ext", "ext", "extension"), ("carrier", "car", "carrier")):
        if e[mine] != o[theirs]:
            bad.add(tag + "." + name)
    return bad


def compare(v, o):
    """The aspects in which the real run differs from the vector."""
    if o.get("t") in ("hang", "crash"):
        return {o["t"]}
    if o.get("t") == "nodb":
        return {"load.rejected"}
    bad = _outcome(v["p"], o["p"], "parse")
    if bad & {"parse.accepted", "parse.rejected", "panic", "parse.code", "parse.national", "parse.extension",
              "parse.carrier"} or "err" in v["p"]:
        return bad                                   # what follows is about another number
    x = o["x"]
    if x["type"] == "panic" or x["valid"] == "panic" or x["meta"][0] == "panic":
        return bad | {"panic"}
    if x["type"] != v["type"]:
        bad.add("class.type")
    if x["valid"] != ("false" if v["type"] == "unknown" else "true"):
        bad.add("class.valid")
    if x["meta"] != list(v["meta"]):
        bad.add("class.metadata")
    for m in MODES:
        e = v["f"][m]
        got = x["f"][m]
        if got["t"] == "panic":
            bad.add("panic")
        elif (got["t"] == "ok") != bool(e):
            bad.add("format.failure")
        elif e and got["s"] != e[0]:
            bad.add("format." + m)
        elif e:
            bad |= _outcome(v["rt"][m], o["rt"][m], "reparse." + m)
    for a in o.get("api", []):
        bad.add("api." + a)
    return bad


def replay(doc, vectors, work):
    return replay_mixed([doc], [(1, v) for v in vectors], work)


def replay_mixed(docs, vectors, work):
    """Each vector with the database that goes with it."""
    ops = [{"op": "parse", "db": db, "region": v["region"], "s": v["s"]} for db, v in vectors]
    seen = [json.loads(l) for l in execute(docs, ops, work)]
    bad = {}
    for i, ((_, v), o) in enumerate(zip(vectors, seen)):
        d = compare(v, o)
        if d:
            bad[i] = sorted(d)
    return bad, ops, seen
