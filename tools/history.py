"""Histories of calls: recorded from processes with one or many threads, checked against spec/SharedTrace.tla."""
import concurrent.futures
import json
import os
import random
import re
import subprocess
import tempfile

import gen
from common import BIN, ToolError, counts, pts, tlc


def cluster(plans, r, dbs):
    """Calls that are easily taken for one another."""
    p, c = next(plans.walk(r))
    s = p.number(r, c)
    q = plans.geo(r)
    other = plans.region(r, p)
    home = p.id if p.id in plans.regions else q.id
    texts = [("", "+" + p.cc + s), (other, "+" + p.cc + s), (home, s), (q.id, s), (home, "0" + s), (q.id, p.cc + s),
             ("", "+" + p.cc + s + " x12"), ("", "+" + p.cc + s + ";ext=3"), ("", "+" + p.cc + "0" + s), ("", "+" + p.cc + s[:-1]),
             ("", "+" + p.cc + s + "1"), ("", "+" + q.cc + s), (home, gen.national(plans, p if p.id in plans.regions else q, s, r)),
             ("", "+" + p.cc + s[:-1] + r.choice("0123456789")), (home, s[:1]), ("", "+999" + s), (q.id, "tel:" + s + ";phone-context=+" + p.cc)]
    r.shuffle(texts)
    out = []
    for region, t in texts[:r.randint(4, 8)]:
        k = r.random()
        for db in ([r.randint(1, dbs)] if k < 0.6 else r.sample(range(1, dbs + 1), 2)):
            out.append({"op": "parse" if r.random() < 0.25 else "quick", "db": db, "region": region, "s": pts(t)})
    if r.random() < 0.5:
        have = [x for x in plans.all if x.formats and x.id in plans.regions]
        x = r.choice(have)
        out.append({"op": "custom", "db": 1, "region": "", "s": pts("+" + p.cc + s), "from": x.id, "k": r.randint(1, x.formats), "intl": False})
    if r.random() < 0.5:
        out.append({"op": "viable", "s": pts(s)})
    r.shuffle(out)
    return out


def families(plans, r):
    """Calls by what they are the first to need: three of each kind, with the built-in database."""
    def some(make):
        out = []
        for _ in range(3):
            p, c = next(plans.walk(r))
            while p.id not in plans.regions:
                p, c = next(plans.walk(r))
            region, t = make(p, p.number(r, c))
            out.append({"op": "parse" if r.random() < 0.5 else "quick", "db": 1, "region": region, "s": pts(t)})
        return out

    def spelt(t, zero):
        return "".join(chr(zero + int(c)) if c.isdigit() and c.isascii() else c for c in t)
    x = lambda form: lambda p, s: ("", ("+" + p.cc + s + form) % gen.digits(r, 1, 5))
    kinds = [
        lambda p, s: ("", "+" + p.cc + s), lambda p, s: (p.id, gen.national(plans, p, s, r)), lambda p, s: ("", "00" + p.cc + s),
        lambda p, s: (p.id, p.cc + s), lambda p, s: ("US", "011" + p.cc + s), lambda p, s: ("", "tel:+%s-%s" % (p.cc, s)),
        lambda p, s: ("", "tel:%s;phone-context=+%s" % (s, p.cc)), x(";ext=%s"), x(" ext. %s"), x(" x%s"), x("#%s"), x(" - %s#"),
        lambda p, s: ("US", "1-8" + r.choice("0678") * 2 + "-" + r.choice(["FLOWERS", "PICKUPS", "GOTMILK", "pizza4u", "CALLNOW", "matters"])),
        lambda p, s: (p.id, s[:4] + "".join(r.choice("ADGJMPTWadgjmptw") for _ in s[4:])),
        lambda p, s: ("", spelt("+" + p.cc + s, 0xff10)), lambda p, s: ("", spelt("+" + p.cc + s, r.choice([0x660, 0x966, 0xe50]))),
        lambda p, s: ("", spelt("+" + p.cc + s, r.choice([0x1d7ce, 0x1040, 0xa620]))), lambda p, s: ("", "\uff0b" + p.cc + " " + s),
        lambda p, s: ("", "+" + p.cc + gen.grouped(s, r)), lambda p, s: ("", "Tel. +" + p.cc + s + "..."), lambda p, s: ("", "+" + p.cc + s + "/x" + s),
        lambda p, s: ("", "+39" + "0" * r.randint(1, 3) + s[:9]), lambda p, s: ("", "+1" + r.choice(["242", "876", "416", "787", "650"]) + gen.digits(r, 7, 7)),
        lambda p, s: ("", "+" + p.cc + "1"), lambda p, s: ("", "+999" + s), lambda p, s: ("", "no number"),
        lambda p, s: ("AR", "0 11 15 " + gen.digits(r, 8, 8)), lambda p, s: ("BR", "0 15 11 9" + gen.digits(r, 8, 8)),
    ]
    out = [some(k) for k in kinds]
    out.append([{"op": "viable", "s": o["s"]} for o in r.choice(out[:20])])
    have = [q for q in plans.all if q.formats and q.id in plans.regions]
    custom = []
    for q in r.sample(have, 3):
        custom.append({"op": "custom", "db": 1, "region": "", "s": pts("+" + q.cc + q.number(r)), "from": q.id, "k": r.randint(1, q.formats), "intl": False})
    return out + [custom]


def unique(ops):
    seen, out = set(), []
    for o in ops:
        k = json.dumps(o, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(o)
    return out


def write(work, docs, ops, name):
    d, o = os.path.join(work, "docs.json"), os.path.join(work, name)
    with open(d, "w") as f:
        json.dump([x.harness() for x in docs], f)
    with open(o, "w") as f:
        for x in ops:
            f.write(json.dumps(x, separators=(",", ":")) + "\n")
    return d, o


def sequence(work, docs, ops, order, name):
    """One process, one thread, the calls of `order': [(call, observation)]."""
    d, o = write(work, docs, [ops[i] for i in order], name)
    r = subprocess.run([BIN, "run", d, o, "0"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    seen = [l for l in r.stdout.decode().split("\n") if l.endswith("}")]
    if b"harness:" in r.stderr:
        raise ToolError("harness: " + r.stderr.decode()[-500:])
    if len(seen) < len(order):
        seen.append('{"t":"crash"}')
    return 1, [(1, i, 2 * k + 1, 2 * k + 2, s) for k, (i, s) in enumerate(zip(order, seen))]


def together(work, docs, ops, threads, seed, steps, window, name, step=False):
    """One process, many threads: [(thread, call, begin, end, observation)]."""
    d, o = write(work, docs, ops, name)
    try:
        r = subprocess.run([BIN, "many", d, o, str(threads), str(seed), str(steps), str(window), "step" if step else ""], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300)
    except subprocess.TimeoutExpired:
        return threads, [(1, 0, 1, 2, '{"t":"hang"}')]
    if b"harness:" in r.stderr:
        raise ToolError("harness: " + r.stderr.decode()[-500:])
    if r.returncode != 0:
        return threads, [(1, 0, 1, 2, '{"t":"crash"}')]
    texts, out = {}, []
    rows = [json.loads(l) for l in r.stdout.decode().split("\n") if l]
    for x in rows:
        if "o" in x:
            texts[x["th"], x["h"]] = x["o"]
    for x in rows:
        if "b" in x:
            out.append((x["th"], x["i"] - 1, x["b"], x["e"], texts[x["th"], x["h"]]))
    return threads, out


def alone(work, docs, ops, which):
    def one(i):
        w = tempfile.mkdtemp(dir=work)
        return i, sequence(w, docs, ops, [i], "ops")[1][0][4]
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        return dict(pool.map(one, which))


MIS = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+)\s*>>')


def validate(ops, answers, runs, work, workers=8, timeout=880):
    """answers: call -> what it returns alone.  {(run, event)}, the events, states, transitions."""
    ids = {}

    def obs(s):
        return ids.setdefault(s, len(ids) + 1)
    table = [obs(answers[i]) if i in answers else None for i in range(len(ops))]
    logs = []
    for threads, rows in runs:
        events = []
        for th, i, b, e, s in rows:
            o = obs(s)
            if table[i] is None:
                table[i] = o                                # not tried alone: all histories must agree
            events.append((b, [1, th, i + 1, 0]))
            events.append((e, [2, th, i + 1, o]))
        logs.append({"threads": threads, "events": [x for _, x in sorted(events, key=lambda x: x[0])]})
    with open(os.path.join(work, "run.json"), "w") as f:
        json.dump({"answers": [t or 0 for t in table], "needs": [o.get("db", 2) == 1 for o in ops], "runs": logs,
                   "threads": max(t for t, _ in runs)}, f, separators=(",", ":"))
    rc, out = tlc("SharedTrace.tla", "SharedTrace.cfg", work, timeout=timeout, workers=workers)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("TLC failed on the histories:\n" + out[-3000:])
    gen_, dist = counts(out)
    bad = sorted({(int(a) - 1, int(b) - 1) for a, b in MIS.findall(out)})
    return bad, logs, dist, gen_
