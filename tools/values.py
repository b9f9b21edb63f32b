"""The phone books of spec/Values.tla: exploration by TLC and replay on the real type."""
import json
import os

import machine
from common import ToolError, counts, execute, pts, tlc
from xmldoc import Texts, events

INVARIANTS = ["V_Equivalence", "V_Found", "V_Packing", "V_Refusal"]


def make(code, src, z, v, ext=None, car=None, stored=False):
    return {"op": "make", "db": 1, "code": code, "src": src, "z": z, "v": pts(v), "stored": stored,
            "ext": [] if ext is None else [pts(ext)], "car": [] if car is None else [pts(car)]}


def parse(region, s, stored=False):
    return {"op": "parse", "db": 1, "region": region, "s": pts(s), "stored": stored}


NUMBERS = [make(1, "plus", 0, "2200"), make(1, "default", 0, "2200"), parse("", "+12200"), parse("US", "2200", True),
           make(1, "plus", 0, "2200", ext="1"), parse("", "+12200 x1", True), make(1, "plus", 0, "2200", ext="01"),
           make(1, "plus", 0, "2200", car="1"), make(1, "plus", 1, "2200"), make(1, "plus", 0, "22001"),
           make(12, "plus", 0, "200"), make(1, "plus", 0, "2200", ext=""), make(29, "number", 1, "12"), parse("IT", "012"),
           parse("", "+29012", True), make(29, "plus", 0, "12")]


def run(numbers, most, work, timeout=880, workers=8):
    texts = Texts()
    evs = [events(machine.model_doc("small").xml, texts)]
    with open(os.path.join(work, "run.json"), "w") as f:
        json.dump({"docs": evs, "texts": texts.rows, "numbers": numbers, "max": most, "bits": 5, "zerobits": 3}, f)
    with open(os.path.join(work, "Values.run.cfg"), "w") as f:
        f.write("\n".join(["CONSTANT Run <- ModelFile", "SPECIFICATION Spec"] + ["INVARIANT " + n for n in INVARIANTS]) + "\n")
    rc, out = tlc("Values.tla", "Values.run.cfg", work, timeout=timeout, workers=workers)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("the model does not hold:\n" + "\n".join(
            l for l in out.split("\n") if "VECTOR" not in l and "Parsing" not in l and "Semantic" not in l)[-2500:])
    vectors = [json.loads(json.loads(l)[7:]) for l in sorted(set(out.split("\n"))) if l.startswith('"VECTOR ')]
    gen, dist = counts(out)
    return vectors, dist, gen


def replay(numbers, vectors, work):
    ops = [{"op": "book", "db": 1, "acts": [[a, numbers[i - 1]] for a, i, _ in v["done"]]} for v in vectors]
    seen = [json.loads(l) for l in execute([machine.model_doc("small")], ops, work)]
    bad = {}
    for k, (v, o) in enumerate(zip(vectors, seen)):
        if o["t"] != "ok":
            bad[k] = [o["t"] if o["t"] != "err" else "value.missing"]
            continue
        d = set()
        for (_, _, want), (mapped, listed) in zip(v["done"], o["answers"]):
            if listed != want:
                d.add("value.eq")
            elif mapped != want:
                d.add("value.hash")
        if not d and o["size"] != [v["size"], v["size"]]:
            d.add("value.hash")
        if d:
            bad[k] = sorted(d)
    return bad, ops, seen
