"""What each property's check explores."""
import hashlib
import itertools
import json
import os
import random
import re
import time

import docs as random_docs
import documents
import gen
import history
import machine
import values
from common import REPO, SPEC, Doc, ToolError, builtin, counts, execute, pts, tlc, txt, validate

ASSUMPTIONS = [
    "TLC and the JSON modules evaluate the specification as TLA+ defines it",
    "the tokenizer in tools/xmldoc.py and Python's regular expression parser give the structure of documents and patterns",
    "patterns are in the subset described in spec/Regex.tla (all of the metadata's are)",
    "Unicode classes are those of spec/data/unicode.json (generated from the regex crate the library uses)",
]

PARSE = ["parse.code", "parse.source", "parse.national", "parse.extension", "parse.carrier", "parse.rejected",
         "parse.accepted", "parse.missing"]
CLASS = ["class."]
ASPECTS = {
    "C01": ["format.failure", "api.debug"],
    "C02": PARSE, "C03": PARSE, "C04": PARSE, "C05": PARSE,
    "C06": ["reparse.", "law.e164", "law.international", "law.rfc3966"],
    "C07": ["format.", "api.format", "api.default_mode", "api.display"],
    "C08": ["class.type", "class.fits", "api.number_type"],
    "C09": ["class.valid", "class.metadata", "class.region", "law.valid_iff_typed", "law.region_has_code",
            "api.metadata_code", "api.is_valid"],
    "C10": ["load."],
    "C11": ["parse.rejected", "parse.accepted", "parse.error", "parse.missing", "viable"],
    "C12": ["value.", "api.clone", "api.serde", "api.national", "api.extension", "api.carrier", "api.country_code"],
    "C13": ["history."],
    "C14": PARSE + ["class.type", "class.valid", "class.metadata", "format.", "reparse.", "api."],
}


class Result:
    def __init__(self, name):
        self.name, self.bad, self.samples, self.notes = name, [], [], {}
        self.states = self.transitions = self.traces = self.calls = self.distinct = 0
        self.wall = 0.0


def show(op):
    o = dict(op)
    for k in ("s", "v", "head", "piece", "tail"):
        if isinstance(o.get(k), list):
            o[k] = txt(o[k])
    for k in ("a", "b"):
        if isinstance(o.get(k), dict):
            o[k] = show(o[k])
    return json.dumps(o, ensure_ascii=False)


def key(op):
    return json.dumps(op, sort_keys=True, separators=(",", ":"))


# ---------------------------------------------------------------------------
# Parts

def recorded(name, docs, ops, extra=None):
    """Run ops on the real library and check the recording against the specification."""
    def job(work, workers):
        t = time.time()
        res = Result(name)
        ds = (docs(work) if docs.__code__.co_argcount else docs()) if callable(docs) else docs
        os_ = ops(ds) if callable(ops) else ops
        seen = execute(ds, os_, work)
        bad, states, trans = validate(ds, os_, seen, work, workers=workers)
        for i, aspects in sorted(bad.items()):
            res.bad.append({"aspects": aspects, "key": key(os_[i]), "show": show(os_[i]), "call": os_[i],
                            "observed": json.loads(seen[i]),
                            "database": ds[os_[i].get("db", os_[i].get("doc", 1)) - 1].name})
        res.notes = {"outcomes": outcomes(ds, os_, seen)}
        res.states, res.transitions, res.calls = states, trans, len(os_)
        res.traces = min(64, len(os_))
        res.distinct = len({key(o) for o in os_})
        step = max(1, len(os_) // 4)
        res.samples = [{"part": name, "call": show(os_[i])[:300]} for i in range(0, len(os_), step)][:4]
        res.wall = time.time() - t
        return res
    return job


def outcomes(ds, ops, seen):
    """How many calls of each database came to what."""
    out = {}
    for o, l in zip(ops, seen):
        d = json.loads(l)
        p = d.get("p", d)
        name = ds[o["db"] - 1].name if "db" in o else "-"
        what = "rejected" if p.get("t") == "err" else str(p.get("t", d.get("v")))
        out.setdefault(name, {}).setdefault(what, 0)
        out[name][what] += 1
    return out


def modelled(name, doc, tokens, most, regions, prop, live=False):
    """Explore the small model exhaustively and replay every behaviour on the real library."""
    def job(work, workers):
        t = time.time()
        res = Result(name)
        d = machine.model_doc(doc)
        vectors, states, trans = machine.run(d, tokens, most, regions, prop, work, live=live, workers=workers)
        bad, ops, seen = machine.replay(d, vectors, work)
        for i, aspects in sorted(bad.items()):
            res.bad.append({"aspects": aspects, "key": key(ops[i]), "show": show(ops[i]), "call": ops[i],
                            "observed": seen[i], "expected": vectors[i], "database": "spec/models/%s.xml" % doc})
        res.states, res.transitions, res.calls, res.traces = states, trans, len(ops), len(vectors)
        res.distinct = len(vectors)
        res.notes = {"exhaustive": True, "tokens": tokens, "up_to": most, "regions": regions,
                     "accepted": sum("err" not in v["p"] for v in vectors)}
        step = max(1, len(ops) // 3)
        res.samples = [{"part": name, "vector": {"region": v["region"], "text": txt(v["s"]), "result": v["p"]}}
                       for v in vectors[step // 2::step]][:3]
        res.wall = time.time() - t
        return res
    return job


def side_by_side(name, models, tokens, most, regions):
    """Explore several small models, and replay all their behaviours in one process, in between one another."""
    def job(work, workers):
        t = time.time()
        res = Result(name)
        ds, mixed = [builtin()], []
        for m in models:
            d = machine.model_doc(m)
            w = os.path.join(work, m)
            os.makedirs(w)
            vectors, states, trans = machine.run(d, tokens, most, regions, "", w, workers=workers)
            ds.append(d)
            res.states, res.transitions = res.states + states, res.transitions + trans
            mixed += [(k, len(ds), v) for k, v in enumerate(vectors)]
        mixed.sort(key=lambda x: (x[0], x[1]))
        bad, ops, seen = machine.replay_mixed(ds, [(db, v) for _, db, v in mixed], work)
        for i, aspects in sorted(bad.items()):
            res.bad.append({"aspects": aspects, "key": key(ops[i]), "show": show(ops[i]), "call": ops[i], "observed": seen[i],
                            "expected": mixed[i][2], "database": "spec/models/%s.xml" % models[mixed[i][1] - 2]})
        res.calls = res.traces = res.distinct = len(mixed)
        res.notes = {"exhaustive": True, "models": models, "tokens": tokens, "up_to": most, "regions": regions,
                     "answers_that_differ_between_models":
                     sum(a[0] == b[0] and a[1] < b[1] and a[2]["p"] != b[2]["p"] for a, b in zip(mixed, mixed[1:]))}
        res.wall = time.time() - t
        return res
    return job


def loaded(name, docs):
    """Load documents with the real loader, and compare what is in the databases with the specification."""
    def job(work, workers):
        t = time.time()
        res = Result(name)
        ds = docs()
        ops = [{"op": "load", "doc": i + 1} for i in range(len(ds))]
        seen = execute(ds, ops, work)
        bad, states, trans = validate(ds, ops, seen, work, workers=workers)
        for i, aspects in sorted(bad.items()):
            res.bad.append(load_case(aspects, ds[i], json.loads(seen[i])))
        res.states, res.transitions, res.calls, res.traces = states, trans, len(ops), len(ops)
        res.distinct = len({d.xml for d in ds})
        res.notes = {"accepted": sum('"t":"ok"' in s for s in seen), "documents": [d.name for d in ds if d.path][:10]}
        res.samples = [{"part": name, "document": d.xml[:300]} for d in ds[-2:]]
        res.wall = time.time() - t
        return res
    return job


def load_case(aspects, d, o):
    return {"aspects": aspects, "key": hashlib.sha256(d.xml.encode()).hexdigest()[:16], "document": d.xml[:20000],
            "show": "%s: %s" % (d.path or d.kind, d.xml[:300].replace("\n", " ")), "observed": str(o)[:5000]}


def edited(name, templates, edits, focus=documents.FOCUS, live=False):
    """Explore all edits of the template documents and give every one to the real loader."""
    def job(work, workers):
        t = time.time()
        res = Result(name)
        vectors, rows, states, trans = documents.run(templates, edits, focus, work, live=live, workers=workers, timeout=3000)
        bad, ds, seen = documents.replay(vectors, rows, work)
        for i, aspects in sorted(bad.items()):
            res.bad.append(load_case(aspects, ds[i], seen[i]))
        res.states, res.transitions, res.calls, res.traces = states, trans, len(vectors), len(vectors)
        res.distinct = len(vectors)
        res.notes = {"exhaustive": True, "templates": templates, "edits": edits, "kinds_of_edits": focus,
                     "accepted": sum(v["ok"] for v in vectors)}
        res.samples = [{"part": name, "document": d.xml[:400], "accepted": v["ok"]}
                       for d, v in list(zip(ds, vectors))[::max(1, len(ds) // 3)]][:3]
        res.wall = time.time() - t
        return res
    return job


def books(name, numbers, most):
    """Explore all short histories of a phone book and replay them on the real type."""
    def job(work, workers):
        t = time.time()
        res = Result(name)
        vectors, states, trans = values.run(numbers, most, work, workers=workers, timeout=3000)
        bad, ops, seen = values.replay(numbers, vectors, work)
        for i, aspects in sorted(bad.items()):
            res.bad.append({"aspects": aspects, "key": key(ops[i]), "call": ops[i], "observed": seen[i],
                            "expected": vectors[i], "show": json.dumps(vectors[i]["done"])})
        res.states, res.transitions, res.calls, res.traces = states, trans, len(vectors), len(vectors)
        res.distinct = len(vectors)
        res.notes = {"exhaustive": True, "operations": most, "numbers": [show(n) for n in numbers]}
        res.samples = [{"part": name, "history": v["done"]} for v in vectors[::max(1, len(vectors) // 3)]][:3]
        res.wall = time.time() - t
        return res
    return job


def interleavings(name):
    """All interleavings of the design."""
    def job(work, workers):
        t = time.time()
        res = Result(name)
        rc, out = tlc("SharedModel.tla", "SharedModel.cfg", work, workers=workers)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("the model does not hold:\n" + out[-2500:])
        res.transitions, res.states = counts(out)
        res.notes = {"exhaustive": True, "threads": 4, "calls": 3}
        res.wall = time.time() - t
        return res
    return job


def histories(name, seed, clusters, tried, steps, starts, burst):
    """Record processes with one and many threads; all must answer as one call alone does."""
    def job(work, workers):
        t = time.time()
        res = Result(name)
        r = random.Random("/".join(map(str, (seed, name))))
        ds = two() + [small_doc()]
        plans = gen.Plans(ds[0].xml)
        kinds = history.families(plans, r)
        still = [{"op": "fits", "db": 1, "id": i, "s": pts("2")} for i in ("GB", "JP", "ZA")]     # reads the database and no more
        ops = history.unique([o for k in range(clusters) for o in history.cluster(plans, r, 3 if k % 8 == 0 else 2)] +
                             [o for k in kinds for o in k] + still)
        n = len(ops)
        # Many calls that nothing is known of, between those that are.
        bursts = []
        for k in range(4):
            texts = [list(w_any(plans, p, s, r)) for p, s in Source(seed, name, k).numbers(plans, 400)]
            bursts.append({"op": "burst", "db": 1 + k % 2, "n": burst, "texts": [[a, pts(b)] for a, b in texts]})
        calls_ = ops + bursts
        answers = history.alone(work, ds, ops, sorted(r.sample(range(n), min(n, tried))))

        runs = []
        order = list(range(n))
        runs.append(history.sequence(work, ds, calls_, order, "forth"))
        runs.append(history.sequence(work, ds, calls_, order[::-1], "back"))
        mixed = order * 2
        r.shuffle(mixed)
        runs.append(history.sequence(work, ds, calls_, mixed, "mixed"))
        part = [order[i] for i in sorted(r.sample(range(n), min(n, 200)))]
        long = list(part)
        for k in range(4):
            long += [n + k] + part
        runs.append(history.sequence(work, ds, calls_, long, "long"))
        for k, threads in enumerate((8, 16, 3)):
            runs.append(history.together(work, ds, ops, threads, seed + k, steps, 4 + 2 * k, "many%d" % k))
        # The first calls of a process, from several threads at once.
        for k in range(starts):
            first = [o for o in r.sample(ops, min(n, 24)) if o.get("db") == 1] or ops[:4]
            runs.append((8, [(th, ops.index(first[i]), b, e, s)
                             for th, i, b, e, s in history.together(work, ds, first, 8, seed + k, 12, 3, "start%d" % k)[1]]))
        # The first calls of every kind, in an order of its own, from several threads in step.
        place = {json.dumps(o, sort_keys=True): i for i, o in enumerate(ops)}
        for k in range(8 * starts):
            some = [kinds[k % len(kinds)]] + r.sample(kinds, 4)
            first = (still if k % 3 else []) + [o for x in some for o in x]
            runs.append((6, [(th, place[json.dumps(first[i], sort_keys=True)], b, e, s) for th, i, b, e, s in
                             history.together(work, ds[:1], first, 6, seed + k, len(first) // 3, 3, "step%d" % k, step=True)[1]]))
        bad, logs, states, trans = history.validate(calls_, answers, runs, work, workers=workers)
        for run, at in bad[:200]:
            _, th, c, o = logs[run]["events"][at]
            o = calls_[c - 1]
            before = [e[2] - 1 for e in logs[run]["events"][:at + 1] if e[0] == 1][-40:]
            res.bad.append({"aspects": ["history.answer"], "key": key(o), "show": "run %d, event %d, thread %d: %s" % (run, at, th, show(o)[:400]),
                            "call": o, "calls_before": [show(calls_[i])[:300] for i in before], "alone": answers.get(c - 1),
                            "databases": [d.name for d in ds]})
        res.states, res.transitions = states, trans
        res.calls = sum(len(x) for _, x in runs) + len(answers)
        res.traces, res.distinct = len(runs) + len(answers), n
        res.notes = {"processes": len(runs) + len(answers), "calls_tried_alone": len(answers), "threads": [x for x, _ in runs],
                     "calls_in_bursts": 4 * burst}
        res.samples = [{"part": name, "call": show(o)[:200], "alone": (answers.get(i) or "")[:200]} for i, o in list(enumerate(ops))[::max(1, n // 3)]][:3]
        res.wall = time.time() - t
        return res
    return job


# ---------------------------------------------------------------------------
# Inputs

def small_doc(name="small"):
    d = machine.model_doc(name)
    d.name = "spec/models/%s.xml" % name
    return d


def pairs(seed, prop, batch, n):
    """Pairs of numbers that differ in few parts, or only in how they came about."""
    def make_pairs(docs):
        r = random.Random("/".join(map(str, (seed, prop, batch, "pairs"))))
        some = {"code": [1, 29, 12, 0, 65535], "src": ["plus", "idd", "number", "default"], "z": [0, 1, 2, 255],
                "v": ["2200", "0", "200", "22001", "72057594037927935"], "ext": [None, "1", "01", "", "12"],
                "car": [None, "15", "", "1"], "stored": [False, True]}
        out = []
        for _ in range(n):
            a = {k: r.choice(v[:3] if r.random() < 0.8 else v) for k, v in some.items()}
            b = dict(a)
            for k in r.sample(sorted(some), r.choice([0, 1, 1, 1, 2, 3])):
                b[k] = r.choice(some[k])
            if r.random() < 0.3:
                b["src"] = r.choice(some["src"])
            if r.random() < 0.08:                           # digits that move between the parts
                b.update(code=12, v="200", z=a["z"])
                a.update(code=1, v="2200")
            out.append({"op": "eq", "db": 1, "a": values.make(**a), "b": values.make(**b)})
        texts = [("", "+12200"), ("US", "2200"), ("US", "12200"), ("BB", "2200"), ("US", "0912200"), ("", "+1 22-00 x1"), ("", "+12200;ext=01"),
                 ("IT", "012"), ("", "+29012"), ("", "+2912"), ("", "tel:2200;phone-context=+1"), ("US", "9123"), ("AR", "0921234")]
        for a in texts:
            for b in texts:
                out.append({"op": "eq", "db": 1, "a": values.parse(*a), "b": values.parse(*b, r.random() < 0.5)})
        return out
    return make_pairs


def nationals(seed, prop, batch, n):
    """National numbers from values and from text, around every limit; identifiers and names."""
    def make_nationals(docs):
        r = random.Random("/".join(map(str, (seed, prop, batch, "nationals"))))
        edge = [0, 1, 9, 10, 2 ** 24, 2 ** 48, 2 ** 56 - 2, 2 ** 56 - 1, 2 ** 56, 2 ** 56 + 1, 2 ** 57, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1]
        out = [{"op": "names"}]
        for k in range(n):
            v = r.choice(edge) if r.random() < 0.3 else r.randrange(1 << r.randint(1, 64)) if r.random() < 0.3 else r.randrange(1 << r.randint(1, 56))
            z = r.choice([0, 0, 1, 2, r.randint(0, 255), 127, 128, 254, 255])
            if r.random() < 0.5:
                out.append({"op": "nn", "v": pts(str(v)), "z": z})
            else:
                zeros = "0" * (z if r.random() < 0.8 else r.choice([255, 256, 257, 511, 512, 600]))
                t = r.choice([str(v), str(v), str(v), str(v), "", "+" + str(v), str(v) + r.choice(["x", " ", "٣", "-", "１"]),
                              " " + str(v), "-" + str(v), str(2 ** 64 + r.randint(0, 9)), str(v) + "0" * r.randint(0, 30), "+", "+0", "++1"])
                out.append({"op": "nnstr", "s": pts(zeros + t)})
        ids = json.load(open(os.path.join(SPEC, "data/regions.json")))
        for i in ids:
            out.append({"op": "id", "s": i})
        for _ in range(len(ids)):
            i = r.choice(ids)
            out.append({"op": "id", "s": r.choice([i.lower(), i + " ", " " + i, i[:1], i + i, i[::-1], "", "001", i[0] + chr(0x391 + r.randrange(24)),
                                                   chr(65 + r.randrange(26)) + chr(65 + r.randrange(26))])})
        return out
    return make_nationals


def real_docs():
    """The repository's own metadata, and files of its that are no such metadata."""
    out = [builtin(), testing()]
    for n in ("PhoneNumberMetadataForTesting.xml", "ShortNumberMetadata.xml", "PhoneNumberAlternateFormats.xml"):
        path = os.path.join(REPO, "assets", n)
        out.append(Doc("load", open(path, encoding="utf-8").read(), path, n))
    return out


def accepted(docs, work):
    """Those that load."""
    seen = execute(docs, [{"op": "load", "doc": i + 1} for i in range(len(docs))], work)
    return [d for d, o in zip(docs, seen) if o.startswith('{"codes"') or '"t":"ok"' in o]


def many_dbs(seed, batch, n):
    """The real databases, the models, and n made of exchanged parts."""
    def make(work):
        r = random.Random("/".join(map(str, (seed, "exchanged", batch))))
        bank = random_docs.Bank(builtin().xml, testing().xml)
        own = [Doc(r.choice(["parse", "from", "stream", "file"]), random_docs.exchanged(bank, r), name="exchanged %d" % k) for k in range(n)]
        own = [d for d in accepted(own, work) if gen.Plans(d.xml).regions]
        return two() + [small_doc(), small_doc("other")] + own
    return make


def variants(seed, prop, batch, n=10):
    """Databases like the real ones, and like none."""
    def make(work):
        return [builtin()] + many_dbs(seed, "%s/%s" % (prop, batch), n)(work)[2:]
    return make


def across(seed, prop, batch, n):
    """The same calls with several databases, in any order."""
    def make(docs):
        r = random.Random("/".join(map(str, (seed, prop, batch))))
        plans = [gen.Plans(d.xml) for d in docs]
        sources = [Source(seed, prop, batch, k).numbers(p, 10 * n) for k, p in enumerate(plans)]
        out = []
        while len(out) < n:
            k = r.randrange(len(docs)) if r.random() < 0.7 else r.randrange(2)
            p, s = next(sources[k])
            region, t = r.choice([w_any, w_roundtrip, w_plain, w_national])(plans[k], p, s, r)
            made_ = make_op(r, p, s)
            x, moved = r.random(), r.random() < 0.5             # all databases in the same place
            for db in {k, *r.sample(range(len(docs)), 1), 0 if r.random() < 0.3 else k}:
                if x < 0.7:
                    out.append(op(region, t, db + 1))
                    if r.random() < 0.04:
                        out[-1]["fresh"] = True
                    if moved:
                        out[-1].update(moved=True, cloned=r.random() < 0.1)     # or a copy of it from then on
                elif x < 0.85:
                    out.append(dict(made_, db=db + 1))
                else:
                    have = [q for q in plans[db].all if q.formats and q.id in plans[db].regions]
                    if have:
                        q = r.choice(have)
                        out.append({"op": "custom", "db": db + 1, "region": region, "s": pts(t), "from": q.id,
                                    "k": r.randint(1, q.formats), "intl": r.random() < 0.4})
        for i in range(0, len(out), 40):                    # close together, but not in turn
            part = out[i:i + 40]
            r.shuffle(part)
            out[i:i + 40] = part
        return out
    return make


def some_docs(seed, batch, n):
    def make():
        r = random.Random("/".join(map(str, (seed, "documents", batch))))
        bank = random_docs.Bank(builtin().xml, testing().xml)
        return [Doc(r.choice(["parse", "from", "stream", "file"]), random_docs.document(bank, r)) for _ in range(n)]
    return make


TESTING = os.path.join(REPO, "assets/PhoneNumberMetadataForTesting.xml")


def testing():
    """The testing metadata, less two descriptors without a pattern for which it is rejected as a whole."""
    xml = re.sub(r"<(\w+)>(?:\s*<(?:possibleLengths|exampleNumber)\b(?:[^<]|</exampleNumber>)*)+</\1>", "",
                 open(TESTING, encoding="utf-8").read())
    return Doc("parse", xml, name="PhoneNumberMetadataForTesting.xml, reduced")


def two():
    return [builtin(), testing()]


def op(region, s, db=1, kind="parse"):
    return {"op": kind, "db": db, "region": region, "s": pts(s)}


class Source:
    """Numbers for one batch."""

    def __init__(self, seed, *names):
        self.r = random.Random("/".join(map(str, (seed,) + names)))

    def numbers(self, plans, n, nearby=0.35, fitting=0.15):
        r, w = self.r, plans.walk(self.r)
        for _ in range(n):
            p, c = next(w)
            s = p.fitting(r) if r.random() < fitting else p.number(r, c)
            if r.random() < nearby:
                s = gen.disturb(s, p, r)
            yield p, s


def per_db(docs, n, f, share=0.15):
    """n calls, most of them for the first of two databases, none for the first of many."""
    out = []
    for k, d in enumerate(docs):
        m = int(n * (share if k else 1 - share)) if len(docs) <= 2 else n // (len(docs) - 1) if k else 0
        m = n if len(docs) == 1 else m
        out += f(gen.Plans(d.xml), k + 1, m)
    return out


def calls(seed, prop, batch, n, write, kind="parse", **kw):
    """Operations that parse what write(plans, plan, number, random) makes: a region and a text."""
    def make(docs):
        src = Source(seed, prop, batch)

        def f(plans, db, m):
            out = []
            for p, s in src.numbers(plans, m, **kw):
                region, t = write(plans, p, s, src.r)
                out.append(op(region, t, db, kind))
            return out
        ops = per_db(docs, n, f)
        src.r.shuffle(ops)
        return ops
    return make


def w_any(plans, p, s, r):
    k = r.randrange(10)
    if k <= 3:
        return gen.prefixed(plans, p, s, r)
    if k <= 6 and p.id in plans.regions:
        return p.id, gen.national(plans, p, s, r)
    if k == 7:
        return plans.region(r, p), gen.extended("+" + p.cc + s, r)
    if k == 8:
        return plans.region(r, p), gen.presented("+" + p.cc + s, r)
    return plans.region(r, p), "+" + p.cc + s


def w_international(plans, p, s, r):
    region, t = gen.prefixed(plans, p, s, r)
    if r.random() < 0.15:
        t = gen.spread(t, r, 0.15, gen.PLAIN)
    return region, t


def w_national(plans, p, s, r):
    if p.id not in plans.regions:
        p = plans.geo(r)
        s = p.number(r)
    k = r.random()
    if k < 0.06:
        return plans.region(r, p), s
    if k < 0.14:                                   # prefixes of the plan behind a calling code
        return plans.region(r, p), "+" + p.cc + gen.national(plans, p, s, r)
    t = gen.national(plans, p, s, r)
    if r.random() < 0.2:
        t = gen.grouped(t, r)
    return p.id, t


def w_presented(plans, p, s, r):
    if r.random() < 0.06:                          # extensions in any digits there are
        return plans.region(r, p), gen.extended("+" + p.cc + s, r)
    if r.random() < 0.06:
        return plans.region(r, p), crowded("+" + p.cc + s, r)
    if r.random() < 0.5 or p.id not in plans.regions:
        return plans.region(r, p), gen.presented("+" + p.cc + s, r)
    return p.id, gen.presented(gen.national(plans, p, s, r), r)


def w_extended(plans, p, s, r):
    if r.random() < 0.1:
        return plans.region(r, p), gen.uri(plans, p, s, r)
    if r.random() < 0.5 or p.id not in plans.regions:
        base = gen.prefixed(plans, p, s, r)[1] if r.random() < 0.3 else "+" + p.cc + s
        region = plans.region(r, p)
    else:
        base, region = gen.national(plans, p, s, r), p.id
    if r.random() < 0.3:
        base = gen.grouped(base, r) if base[:1] != "+" else "+" + gen.grouped(base[1:], r)
    return region, gen.extended(base, r)


def w_roundtrip(plans, p, s, r):
    k = r.random()
    if r.random() < 0.1:
        s = ("0" * r.randint(1, 17) + s)[:17]
    if k < 0.45 or p.id not in plans.regions:
        t, region = "+" + p.cc + s, plans.region(r, p)
    else:
        t, region = gen.national(plans, p, s, r), p.id
    if r.random() < 0.4:
        t += r.choice([" x", ";ext=", " ext. ", ","]) + gen.digits(r, 1, 7)
    return region, t


def w_plain(plans, p, s, r):
    k = r.random()
    if k < 0.75 or p.id not in plans.regions:
        return r.choice(["", plans.region(r, p)]), "+" + p.cc + s
    return p.id, gen.national(plans, p, s, r)


def crowded(t, r):
    """Very much punctuation."""
    i = r.randint(min(1, len(t)), len(t))
    return t[:i] + r.choice(gen.PUNCT) * int(2 ** r.uniform(3, 7.3)) + t[i:]


def w_limits(plans, p, s, r):
    k = r.randrange(13)
    region = plans.region(r, p)
    if k <= 2:
        return region, gen.anything(r)
    if k == 3:
        return region, gen.mutated(w_any(plans, p, s, r)[1], r)
    if k == 4:
        n = r.choice([20] * 12 + [40, 300, 1000])
        return region, r.choice(["+" + p.cc, "+" + p.cc, "", "00"]) + gen.digits(r, 0 if n == 20 else 17, n)
    if k == 5:
        return region, r.choice(["+", "", "+" + p.cc]) + "0" * r.randint(0, 19) + gen.digits(r, 0, 3)
    if k == 6:
        return region, "+" + p.cc + r.choice(["7205759403792793", "7205759403792794", "72057594037927935",
                                              "72057594037927936", "99999999999999999", "72057594037927934"])
    if k == 7:
        return region, "+" + gen.digits(r, 1, 4) + s
    if k == 8:
        q = plans.geo(r)
        return q.id, gen.digits(r, 1, 3)
    if k == 9:
        t = w_any(plans, p, s, r)[1]
        return region, t[:r.randint(0, len(t))]
    if k == 12:
        return region, crowded(w_any(plans, p, s, r)[1], r)
    if k == 10:
        return region, s + ";phone-context=" + r.choice(["", "+", "+0", "+" + p.cc, p.cc, "abc", "+" + p.cc + "0", "+x"])
    q = plans.geo(r)
    return q.id, (gen.sample(q.idd, r) if q.idd is not None else "00") + gen.digits(r, 0, 9)


LONG = [(a, p, z) for p in "0123456789" for a in ("+1", "", "+", "+1650", "tel:+1-", "00") for z in ("", " x12", ";ext=5", "#")] \
    + [(a, p, z) for p in (" ", "-", "(", "a", "A", ".", "/", "*", "\u0661", "\uff10", "\u00e9", "1 ", "(2)", "-3", "+", "\U0001d7cf", "\u3000", "\u2067")
       for a in ("+1 650 253 0000", "+1650253", "", "Tel. ", "1") for z in ("", "0000", "1")] \
    + [(a, p, z) for p in ("5", "0", "\u0665") for a in ("+1 650 253 0000 x", "+1 650 253 0000;ext=", "+1 650 253 0000 ", "650-253-0000 ext. ") for z in ("", "#", "/x1")] \
    + [("tel:", p, z) for p in ("7", "a", "-", "tel:") for z in (";phone-context=+1", ";ext=1", "")] \
    + [("tel:+1-650-253-0000", p, z) for p in (";a=b", ";ext=7", ";isub=1") for z in ("", ";ext=3", ";phone-context=+44")] \
    + [("tel:650-253-0000;phone-context=+", p, "") for p in ("1", "0", "4", "a", "-")]
MANY = [40, 53, 100, 127, 128, 200, 253, 254, 255, 256, 257, 258, 260, 266, 270, 510, 512, 520, 1000, 4096, 32770, 65530, 65535, 65536,
        65537, 65540, 65546, 65552, 70000, 131080, 200000]


def huge(seed, prop, batch, n):
    """Texts of any length."""
    def make(docs):
        r = random.Random("/".join(map(str, (seed, prop, batch, "huge"))))
        pool = [(a, p, z, k) for a, p, z in LONG for k in MANY]
        r.shuffle(pool)
        first = {(a, p, z): k for a, p, z, k in pool}
        return [{"op": "huge", "db": 1, "region": r.choice(["", "US", "US", "IT", "AR"]), "head": pts(a), "piece": pts(p), "tail": pts(z), "n": k}
                for a, p, z, k in ([(*x, k) for x, k in first.items()] + pool)[:n]]
    return make


def viables(seed, prop, batch, n):
    def make(docs):
        src = Source(seed, prop, batch, "viable")
        plans, r = gen.Plans(docs[0].xml), src.r
        out = []
        for p, s in src.numbers(plans, n):
            k = r.randrange(6)
            t = [lambda: gen.anything(r), lambda: gen.presented("+" + p.cc + s, r), lambda: gen.mutated(s, r),
                 lambda: s[:r.randint(0, 4)] + "".join(r.choice("0123456789 -x*+AZaz(") for _ in range(r.randint(0, 5))),
                 lambda: gen.extended(s, r), lambda: crowded(s, r)][k]()
            out.append({"op": "viable", "s": pts(t)})
        return out
    return make


def shapes(seed, prop, batch, n):
    """All short texts of the kinds of character that viability tells apart."""
    def make(docs):
        r = random.Random("/".join(map(str, (seed, prop, batch, "shapes"))))
        kind = {"5": list("0123456789"), "*": ["*"], "-": [p for p in gen.PUNCT if len(p) == 1], "a": list("abxyzABXYZ"),
                "+": ["+", "\uff0b"], "?": ["?", ",", "\u0665", "\u00e9", "\n", ";", "\uff0a", "#"]}
        all_ = [t for k in range(6 if n < 20000 else 7) for t in itertools.product("5*-a+?", repeat=k)]
        all_ += [t for k in (6, 7) for t in itertools.product("5*-", repeat=k)] + [t for k in (6, 7) for t in itertools.product("5a-", repeat=k) if t[:3] == ("5",) * 3]
        return [{"op": "viable", "s": pts("".join(r.choice(kind[c]) for c in t))} for t in all_]
    return make


ENDINGS = ["x", "/", "#", ";ext=", "12", "7", " ", "a", "-", "*", ",", ".", "ext", "\\", "1234567"]


def endings(seed, prop, batch, n):
    """A number with every short ending."""
    def make(docs):
        r = random.Random("/".join(map(str, (seed, prop, batch, "endings"))))
        out = [op(r.choice(["US", "", "IT"]), r.choice(["+1 650 253 0000", "+1 650-253-0000", "+3906698"]) + "".join(t), 1, "quick")
               for k in range(4) for t in itertools.product(ENDINGS, repeat=k)]
        r.shuffle(out)
        more = [op("US", "650 253 0000" + "".join(r.choice(ENDINGS) for _ in range(r.randint(4, 8))), 1, "quick") for _ in range(max(0, n - len(out)))]
        return out[:n] + more
    return make


def characters(seed, prop, batch, n):
    """Every character there is a rule for, and others, in every place of a number."""
    places = ["+1650%s2530000", "+%s1 650 253 0000", "%s+1 650 253 0000", "+1 650 253 0000%s", "+1 650 253 0000%s1", "+1 650 253 0000 x%s",
              "+1 650 253 0000;ext=%s2", "+1 650 2%s%s0000", "%s1 650 253 0000", "+1 650 253 0000 ext%s 12", "650 25%s 0000", "%s", "%s12",
              "+1 650 %s53 00%s0 a", "tel:+1-650%s253-0000", "tel:650-253-0000;phone-context=%s1", "tel:650-253-0000;%s=1", "+1 650 253 0000/%s1"]

    def make(docs):
        r = random.Random("/".join(map(str, (seed, prop, batch, "characters"))))
        named = sorted({c for x in gen.PUNCT + gen.EXT_WORDS + gen.SCRIPTS for c in x} | set(map(chr, range(0x100))))
        some = named + [chr(r.choice([r.randrange(0x100, 0x3000), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x20000)])) for _ in named]
        pairs = [(c, t) for c in some for t in places]
        r.shuffle(pairs)
        first = {c: t for c, t in pairs if c in set(named)}       # each in some place at the least
        out = [op(r.choice(["US", "US", "", "IT"]), t.replace("%s", c), 1, "quick") for c, t in list(first.items()) + pairs]
        scripts = []
        for z in gen.ZEROS:                                 # every digit of every script in an extension
            for lo, hi in ((0, 7), (3, 10)):
                t = r.choice([" ext. %s", ";ext=%s", "x%s", " - int: %s#"]) % "".join(chr(z + i) for i in range(lo, hi))
                scripts.append(op(r.choice(["US", "", "IT"]), "+1 650 253 0000" + t, 1, "quick"))
        return out[:n] + scripts
    return make


def uris(seed, prop, batch, n):
    """Every character in every place of an RFC 3966 URI."""
    places = ["tel:+1-650-253-0000;isub=a%sb;ext=12", "tel:650-253-0000;a=%s;phone-context=+1", "tel:+1-650-253-0000;a%sb=1;ext=12",
              "tel:650-253-0000;%s=;phone-context=+1", "tel:650-253-0000;phone-context=+%s1", "tel:650-253-0000;phone-context=+1%s",
              "tel:+1-650-253-0000;ext=1%s2", "tel:+1-650-253-0000;ext=%s;isub=2", "tel:+1%s650-253-0000;ext=3", "tel:+1-650-253-00%s00;ext=3",
              "tel:+1-650-253-0000%s;ext=3", "tel:%s650-253-0000;phone-context=+1", "te%sl:+1-650-253-0000;ext=3", "tel%s+1-650-253-0000;ext=3",
              "tel:650-253-0000;phone%scontext=+1", "tel:650-253-0000;phone-context%s+1", "tel:+1-650-253-0000%sext=3"]

    def make(docs):
        r = random.Random("/".join(map(str, (seed, prop, batch, "uris"))))
        some = [chr(c) for c in range(0x20, 0x7f)] + ["", "\t", "\u00e9", "\u0661", "\uff11", "\uff0b", "\uff1b", "\u2010", "\u00a0", "\U0001d7cf"]
        out = [op(r.choice(["", "US", "GB"]), t.replace("%s", c), 1, "quick") for c in some for t in places]
        r.shuffle(out)
        return out[:n]
    return make


KINDS = ["premiumRate", "tollFree", "sharedCost", "voip", "personalNumber", "pager", "uan", "voicemail", "fixedLine", "mobile"]


def kinds_doc():
    """Plans in which a number is of any set of kinds: the k-th digit says whether it is of the k-th."""
    def desc(name, pattern, lengths=None):
        return "<%s>%s<nationalNumberPattern>%s</nationalNumberPattern></%s>" % (
            name, '<possibleLengths national="%s"/>' % lengths if lengths else "", pattern, name)

    def territory(attrs, general, f, skip=()):
        order = [k for k in KINDS if k not in skip]
        return "<territory %s>%s%s</territory>" % (attrs, desc("generalDesc", *general), "".join(desc(k, *f(KINDS.index(k))) for k in order))

    def bit(k):
        return "2\\d{%d}1\\d{%d}" % (k, 9 - k)
    ts = [territory('id="US" countryCode="1"', ("[26]\\d{10}",), lambda k: (bit(k),)),
          territory('id="CA" countryCode="1"', ("6[01]{10}",), lambda k: (bit(k).replace("2", "6", 1),), ["fixedLine"]),
          territory('id="GB" countryCode="44"', ("2\\d{10}",), lambda k: (bit(min(k, 8)),)),
          territory('id="FR" countryCode="33"', ("2\\d{10,12}", "[12-13],11"), lambda k: (bit(k) + "\\d{0,2}", ["11", "13,11", "[12-13],11", "11,12", "12,11,13"][k % 5])),
          territory('id="IT" countryCode="39"', ("20\\d{9}|21\\d*0",), lambda k: (bit(k) + "|" + bit((k + 3) % 10),)),
          territory('id="001" countryCode="979"', ("2\\d{10}",), lambda k: (bit(k),), ["mobile", "uan"])]
    return Doc("parse", "<phoneNumberMetadata><territories>%s</territories></phoneNumberMetadata>" % "".join(ts), name="kinds")


def kinds(seed, prop, batch, n):
    """Numbers of every set of kinds."""
    def make(docs):
        r = random.Random("/".join(map(str, (seed, prop, batch, "kinds"))))
        bits = [format(i, "010b") for i in range(1024)]
        first = [op("", "+12" + b, 2) for b in bits]
        rest = [op("", t % b, 2) for b in bits for t in ("+16%s", "+442%s", "+332%s", "+332%s0", "+332%s00", "+392%s", "+9792%s", "+332%s000")]
        r.shuffle(rest)
        out = first + rest[:n]
        r.shuffle(out)
        return out
    return make


def rules_doc():
    """Plans whose rules overlap in every way."""
    def rule(k, pattern, leading, form, intl=None, np=None, cc=None):
        return "<numberFormat pattern=\"%s\"%s%s>%s<format>%s</format>%s</numberFormat>" % (
            pattern, ' nationalPrefixFormattingRule="%s"' % np if np else "", ' carrierCodeFormattingRule="%s"' % cc if cc else "",
            "".join("<leadingDigits>%s</leadingDigits>" % x for x in leading), form, "".join("<intlFormat>%s</intlFormat>" % x for x in intl or []))
    rules = [rule(0, "(\\d)(\\d{6})", ["2\\d{0}1"], "a $1 $2", None, "$NP$FG"),
             rule(1, "(\\d{2})(\\d{5,6})", ["2", "2\\d{1}1"], "b$1-$2", ["B $1 $2"], "($FG)"),
             rule(2, "(\\d{3})(\\d)(\\d{3})", ["2\\d{2}1"], "c$1.$2/$3", ["NA"], "$NP $FG", "$NP$CC $FG"),
             rule(3, "(\\d{3})(\\d{4})", ["2\\d\\d\\d1", "21"], "d$1-$2", ["D$2 $1", "E$1"], None, "$CC:$FG"),
             rule(4, "(\\d*)(\\d)", ["2\\d{4}1|20"], "e$2-$1", None, "$FG$NP"),
             rule(5, "(\\d{4})(\\d+)", [], "f $1 $2", ["F$1"])]
    general = "<generalDesc><nationalNumberPattern>\\d{3,9}</nationalNumberPattern></generalDesc>"

    def territory(attrs, rules):
        return '<territory %s><availableFormats>%s</availableFormats>%s</territory>' % (attrs, "".join(rules), general)
    ts = [territory('id="US" countryCode="1" nationalPrefix="1"', rules), territory('id="CA" countryCode="1" nationalPrefix="0" leadingDigits="3"', rules[:1]),
          territory('id="GB" countryCode="44" nationalPrefix="0" nationalPrefixFormattingRule="[$NP]$FG"', rules[::-1]),
          territory('id="FR" countryCode="33" nationalPrefix="8" carrierCodeFormattingRule="$NP-$CC-$FG"', rules[3:] + rules[:3]),
          territory('id="IT" countryCode="39" nationalPrefixOptionalWhenFormatting="true" nationalPrefixFormattingRule="$NP $FG" nationalPrefix="0"', rules[1:5]),
          territory('id="001" countryCode="979"', rules[2:])]
    return Doc("parse", "<phoneNumberMetadata><territories>%s</territories></phoneNumberMetadata>" % "".join(ts), name="rules")


def rules(seed, prop, batch, n):
    """Numbers that any set of rules would fit, with and without a carrier."""
    def make(docs):
        r = random.Random("/".join(map(str, (seed, prop, batch, "rules"))))
        bits = ["2" + format(i, "0%db" % k) for k in (5, 6, 7) for i in range(1 << k)]
        pool = [(cc, b, car) for cc in (1, 44, 33, 39, 979) for b in bits for car in ([], [pts("77")])]
        r.shuffle(pool)
        return [{"op": "make", "db": 2, "code": cc, "src": r.choice(["plus", "default"]), "v": pts(b), "z": r.choice([0, 0, 0, 1]),
                 "ext": r.choice([[], [pts("5")]]), "car": car} for cc, b, car in pool[:n]]
    return make


def fits(seed, prop, batch, n):
    """National numbers, and what is almost one, against every description of a territory."""
    def make(docs):
        src = Source(seed, prop, batch, "fits")

        def f(plans, db, m):
            out = []
            for p, s in src.numbers(plans, m, nearby=0.4):
                if src.r.random() < 0.15:
                    s = src.r.choice([s + "\n", "\n" + s, s + s, "", s + "a", " " + s, s + "\r\n", "0" + s, s[::-1], s + "\u0000"])
                out.append({"op": "fits", "db": db, "id": p.id if src.r.random() < 0.95 else src.r.choice(["ZZ", "001", ""]), "s": pts(s)})
            return out
        return per_db(docs, n, f, 0.3)
    return make


def customs(seed, prop, batch, n):
    """Formats of one territory applied to numbers of another."""
    def make(docs):
        src = Source(seed, prop, batch, "custom")
        r, out = src.r, []
        for db, d in enumerate(docs, 1):
            plans = gen.Plans(d.xml)
            have = [p for p in plans.all if p.formats and p.id in plans.regions]
            for p, s in src.numbers(plans, n // len(docs)):
                q = p if p in have and r.random() < 0.5 else r.choice(have)
                region, t = w_roundtrip(plans, p, s, r)
                out.append({"op": "custom", "db": db, "region": region, "s": pts(t), "from": q.id,
                            "k": r.randint(1, q.formats), "intl": r.random() < 0.4})
        return out
    return make


def made(seed, prop, batch, n):
    """Numbers put together rather than parsed."""
    def make(docs):
        src = Source(seed, prop, batch, "made")
        r, out = src.r, []
        for db, d in enumerate(docs, 1):
            plans = gen.Plans(d.xml)
            for p, s in src.numbers(plans, n // len(docs)):
                out.append(make_op(r, p, s, db))
        return out
    return make


def make_op(r, p, s, db=1):
    s = re.sub("[^0-9]", "", s)
    z = len(s) - len(s.lstrip("0"))
    v = s.lstrip("0") or "0"
    if r.random() < 0.2:
        v = r.choice(["0", "1", "72057594037927935", "72057594037927934", str(r.randrange(1 << r.randint(1, 56)))])
    if int(v) >= 1 << 56:
        v = v[:16]
    if r.random() < 0.3:
        z = r.choice([0, 1, 2, 3, r.randint(0, 20), r.randint(0, 255)])
    code = int(p.cc) if r.random() < 0.85 else r.choice([0, 999, 65535, r.randrange(65536)])

    def opt(pool):
        return [] if r.random() < 0.6 else [pts(r.choice(pool)())]
    return {"op": "make", "db": db, "code": code, "src": r.choice(["plus", "idd", "number", "default"]), "v": pts(v), "z": z,
            "ext": opt([lambda: gen.digits(r, 1, 7), lambda: gen.digits(r, 0, 12), lambda: gen.anything(r)]),
            "car": opt([lambda: gen.digits(r, 1, 4), lambda: "", lambda: "$1", lambda: "1$0$2", lambda: gen.anything(r)])}


# ---------------------------------------------------------------------------

SMALL = ["", "US", "BB", "AR", "IT", "BR"]
DIGITS = ["+", "0", "1", "2", "9"]


def jobs(prop, tier, seed):
    quick = tier == "quick"

    def rec(name, docs, n, *args, **kw):
        """One batch in the quick tier, many in the thorough one."""
        f = kw.pop("f", calls)
        if quick:
            return [recorded(name, docs, f(seed, prop, name, n, *args, **kw))]
        return [recorded("%s-%d" % (name, b), docs, f(seed, prop, "%s/%d" % (name, b), 30000, *args, **kw)) for b in range(8)]

    def var(n, *args, **kw):
        """The same for databases that nobody has."""
        f = kw.pop("f", calls)
        return [recorded("variants-%d" % b, variants(seed, prop, b), f(seed, prop, "variants/%d" % b, n if quick else 20000, *args, **kw))
                for b in range(1 if quick else 4)]

    def mod(name, tokens, most, regions=SMALL, doc="small", live=False):
        return [modelled(name, doc, tokens, most if quick else most + 1, regions, prop, live=live)]

    if prop == "C01":
        return ([loaded("documents", some_docs(seed, "C01", 300 if quick else 5000)), edited("edited", ["doc2"], 1)]
                + rec("nationals", lambda: [builtin()], 1500, f=nationals) + rec("texts", two, 5000, lambda pl, p, s, r: w_limits(pl, p, s, r) if r.random() < .7 else w_any(pl, p, s, r))
                + rec("stored", two, 1500, f=made) + rec("characters", lambda: [builtin()], 1500, f=characters)
                + rec("huge", lambda: [builtin()], 700, f=huge) + mod("model", ["+", "0", "1", "2", ";ext=", "x"], 3, live=True))
    if prop == "C02":
        return rec("international", two, 6000, w_international, kind="quick") + rec("uris", lambda: [builtin()], 2000, f=uris) + var(2500, w_international, kind="quick") + mod("model", DIGITS, 4) + mod("other", DIGITS, 4, SMALL, "other")
    if prop == "C03":
        return (rec("national", two, 6000, w_national, kind="quick") + var(2500, w_national, kind="quick") + mod("model", ["0", "1", "2", "9"], 5, SMALL[1:])
                + mod("other", ["0", "1", "2", "9"], 5, SMALL[1:], "other"))
    if prop == "C04":
        return rec("presented", two, 6000, w_presented, kind="quick") + var(1500, w_presented, kind="quick") + rec("characters", lambda: [builtin()], 3000, f=characters) + rec("endings", lambda: [builtin()], 1500, f=endings) + mod("model", ["+", "0", "1", "2", " ", "-", "A"], 4, ["", "US", "AR"])
    if prop == "C05":
        return rec("extended", two, 6000, w_extended, kind="quick") + rec("uris", lambda: [builtin()], 2000, f=uris) + rec("endings", lambda: [builtin()], 4000, f=endings) + var(1500, w_extended, kind="quick") + mod("model", ["+1", "22", "x", ";ext=", " ", "#", "0"], 4, ["", "US", "AR"])
    if prop == "C06":
        return rec("roundtrip", two, 6000, w_roundtrip, nearby=0.2) + var(2000, w_roundtrip, nearby=0.2) + mod("model", ["+", "0", "1", "2", "9", "x1"], 4, ["", "US", "AR", "IT"])
    if prop == "C07":
        return (rec("formatted", two, 5000, w_roundtrip, nearby=0.15, fitting=0.5) + rec("custom", two, 2000, f=customs) + rec("rules", lambda: [builtin(), rules_doc()], 1200, f=rules) + var(2000, w_roundtrip, nearby=0.15, fitting=0.5)
                + rec("stored", two, 1500, f=made) + mod("model", ["+", "0", "1", "2", "9", "x1"], 4, ["", "US", "AR", "BR"]))
    if prop == "C08":
        return rec("typed", two, 7000, w_plain, nearby=0.4) + rec("kinds", lambda: [builtin(), kinds_doc()], 2000, f=kinds) + rec("fits", two, 1500, f=fits) + var(4000, w_plain, nearby=0.5) + rec("stored", two, 1000, f=made) + mod("model", DIGITS, 4) + mod("other", DIGITS, 4, SMALL, "other")
    if prop == "C09":
        return rec("placed", two, 7000, w_plain, nearby=0.4) + rec("kinds", lambda: [builtin(), kinds_doc()], 500, f=kinds) + var(4000, w_plain, nearby=0.5) + rec("stored", two, 1000, f=made) + mod("model", DIGITS, 4) + mod("other", DIGITS, 4, SMALL, "other")
    if prop == "C11":
        return (rec("limits", two, 6000, w_limits, kind="quick") + var(2500, w_limits, kind="quick") + rec("viable", [builtin()], 3000, f=viables) + rec("shapes", [builtin()], 5000, f=shapes) + rec("huge", lambda: [builtin()], 700, f=huge)
                + mod("model", ["+", "0", "1", "2", "x", "A"], 4, ["", "US", "IT"]))
    if prop == "C10":
        parts = [loaded("real", real_docs), edited("lookup", ["doc2"], 1), edited("formats", ["doc1"], 1, live=True)]
        if quick:
            return parts + [loaded("altered", some_docs(seed, 0, 400)),
                            edited("pairs", ["doc3"], 2, ["remove", "exchange", "attribute"]), edited("attributes", ["doc4"], 2, ["attribute"])]
        return (parts + [edited("attributes", ["doc4"], 2, ["attribute"])] + [loaded("altered-%d" % b, some_docs(seed, b, 2500)) for b in range(6)]
                + [edited("pairs", ["doc3"], 2), edited("pairs-order", ["doc2"], 2, ["exchange", "double", "remove"])])
    if prop == "C12":
        return (rec("parsed", two, 2500, w_roundtrip) + rec("stored", two, 2000, f=made)
                + rec("pairs", lambda: [small_doc()], 6000, f=pairs) + rec("nationals", lambda: [builtin()], 4000, f=nationals)
                + [books("books", values.NUMBERS, 3) if quick else books("books", values.NUMBERS[:10], 4)])
    if prop == "C13":
        if quick:
            return [interleavings("design"), histories("histories", seed, 80, 60, 2000, 4, 30000)]
        return [interleavings("design")] + [histories("histories-%d" % k, seed, 200, 250, 8000, 20, 400000) for k in range(4)]
    if prop == "C14":
        both = side_by_side("models", ["small", "other"], ["+", "0", "1", "2", "9"], 4 if quick else 5, SMALL)
        if quick:
            return [recorded("across", many_dbs(seed, 0, 12), across(seed, prop, 0, 6000)), both]
        return [recorded("across-%d" % b, many_dbs(seed, b, 40), across(seed, prop, b, 30000)) for b in range(8)] + [both]
    raise KeyError(prop)
