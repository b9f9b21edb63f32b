"""Inputs: numbers of all kinds for all territories, and the ways to write them.

Everything here is a generator; what the answers should be is for the
specification to say.
"""
import json
import os
import random
import re
import re._constants as sc
import re._parser as sp
import warnings
import xml.etree.ElementTree as ET

warnings.simplefilter("ignore")

NAMES = set(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../spec/data/regions.json"))))
CLASSES = ["fixedLine", "mobile", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "pager", "uan",
           "voicemail", "emergency", "noInternationalDialling", "generalDesc"]


def sample(ast, r):
    out = []
    for op, av in ast:
        if op is sc.LITERAL:
            out.append(chr(av))
        elif op is sc.IN:
            pool = []
            for o, a in av:
                if o is sc.LITERAL:
                    pool.append(chr(a))
                elif o is sc.RANGE:
                    pool += map(chr, range(a[0], a[1] + 1))
                elif o is sc.CATEGORY:
                    pool += "0123456789"
            out.append(r.choice(pool or ["0"]))
        elif op is sc.BRANCH:
            out.append(sample(r.choice(av[1]), r))
        elif op is sc.SUBPATTERN:
            out.append(sample(av[3], r))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            hi = av[0] + 3 if av[1] is sc.MAXREPEAT else av[1]
            for _ in range(r.randint(av[0], hi)):
                out.append(sample(av[2], r))
    return "".join(out)


def parsed(pattern):
    try:
        return sp.parse(pattern, re.X)
    except Exception:
        return None


def lengths(text):
    out = []
    for part in (text or "").split(","):
        m = re.match(r"\s*\[(\d+)-(\d+)\]\s*$", part)
        if m:
            out += range(int(m[1]), int(m[2]) + 1)
        elif part.strip().isdigit():
            out.append(int(part))
    return out


class Plan:
    def __init__(self, t):
        self.id, self.cc = t.get("id"), t.get("countryCode")
        self.np = t.get("nationalPrefix")
        self.npp = parsed(t.get("nationalPrefixForParsing")) if t.get("nationalPrefixForParsing") else None
        self.transform = t.get("nationalPrefixTransformRule")
        self.idd = parsed(t.get("internationalPrefix")) if t.get("internationalPrefix") else None
        self.lead = parsed(t.get("leadingDigits")) if t.get("leadingDigits") else None
        self.classes = {}
        self.formats = 0
        for d in t:
            if d.tag in CLASSES and d.findtext("nationalNumberPattern") is not None:
                pl = d.find("possibleLengths")
                self.classes[d.tag] = (parsed(d.findtext("nationalNumberPattern")),
                                       lengths(pl.get("national")) if pl is not None else [],
                                       d.findtext("exampleNumber"))
            if d.tag == "availableFormats":
                self.formats = len(d)
                self.fpats = [(parsed(f.get("pattern") or ""), [parsed(l.text or "") for l in f.findall("leadingDigits")])
                              for f in d]
        if not self.formats:
            self.fpats = []

    def number(self, r, name=None):
        """A national number, mostly of the class."""
        name = name or r.choice([c for c in self.classes])
        ast, lens, ex = self.classes[name]
        if ex and r.random() < 0.1:
            return ex
        if ast is None:
            return "".join(r.choice("0123456789") for _ in range(r.randint(2, 12)))
        s = ""
        for _ in range(12):
            s = sample(ast, r)
            if not lens or len(s) in lens:
                return s
        return s

    def fitting(self, r):
        """A national number made to fit one of the formats."""
        if not self.fpats:
            return self.number(r)
        pat, leads = r.choice(self.fpats)
        s = sample(pat, r) if pat else self.number(r)
        if leads and leads[-1]:
            h = sample(leads[-1], r)
            s = h + s[len(h):] if len(h) < len(s) else s
        return s[:16]


class Plans:
    def __init__(self, xml):
        t = ET.fromstring(xml).find("territories")
        self.all = [Plan(x) for x in (t if t is not None else []) if x.tag == "territory"]
        self.byid = {p.id: p for p in self.all}
        self.ccs = {}
        for p in self.all:
            self.ccs.setdefault(p.cc, []).append(p)
        self.regions = sorted(i for i in self.byid if i in NAMES)
        self.shared = [l for l in self.ccs.values() if len(l) > 1]

    def walk(self, r):
        """Every plan and class in turn, in random order, for ever."""
        while True:
            pairs = [(p, c) for p in self.all for c in p.classes]
            r.shuffle(pairs)
            yield from pairs

    def plan(self, r):
        return r.choice(r.choice(self.shared)) if self.shared and r.random() < 0.25 else r.choice(self.all)

    def region(self, r, near=None):
        """A reference region: none, the plan's own, one that shares its code, or any."""
        k = r.random()
        if k < 0.2:
            return ""
        if near and k < 0.5 and near.id in self.regions:
            return near.id
        if near and k < 0.65:
            l = [p.id for p in self.ccs[near.cc] if p.id in self.regions]
            if l:
                return r.choice(l)
        return r.choice(self.regions)

    def geo(self, r):
        while True:
            p = self.plan(r)
            if p.id in self.regions:
                return p


def digits(r, lo, hi):
    return "".join(r.choice("0123456789") for _ in range(r.randint(lo, hi)))


def disturb(s, plan, r):
    """A number near s: often not quite a number of the plan."""
    k = r.randrange(12)
    if k == 0:
        return s[:-1]
    if k == 1:
        return s + r.choice("0123456789")
    if k == 2:
        return r.choice("0123456789") + s[1:]
    if k == 3:
        return "0" * r.randint(1, 4) + s
    if k == 4:
        return (plan.np or "0") + s
    if k == 5:
        return plan.cc + s
    if k == 6 and s:
        i = r.randrange(len(s))
        return s[:i] + r.choice("0123456789") + s[i + 1:]
    if k == 7:
        return s + digits(r, 1, 8)
    if k == 8:
        return s[:r.randint(0, len(s))]
    if k == 9:
        return s[1:]
    if k == 10 and plan.npp is not None:
        return sample(plan.npp, r) + s
    if k == 11:
        return s + digits(r, 1, 1) * r.randint(1, 9)
    return s


PLUSES = ["+", "\uff0b"]
PUNCT = [" ", "-", ".", "/", "(", ")", "[", "]", "\u2010", "\u2011", "\u2013", "\u2014", "\u2015", "\u2212", "\u30fc",
         "\uff0d", "\uff0e", "\uff0f", "\u3000", "\u2060", "\u00a0", "\u00ad", "\u200b", "\uff08", "\uff09", "\uff3b",
         "\uff3d", "\u2053", "\u223c", "\u2012", "~", "\uff5e", "x"]
PLAIN = [" ", "-", ".", " - ", "  ", ". "]


def spread(s, r, rate=0.2, pool=PUNCT):
    out = []
    for i, c in enumerate(s):
        if i and r.random() < rate:
            out.append(r.choice(pool))
        out.append(c)
    return "".join(out)


def grouped(s, r):
    """The way people write it: groups and one kind of separator."""
    sep, out, i = r.choice([" ", "-", ".", "/", "\u2013", " "]), [], 0
    while i < len(s):
        n = r.randint(1, 4)
        out.append(s[i:i + n])
        i += n
    t = sep.join(out)
    if r.random() < 0.2 and len(out) > 1:
        t = "(" + out[0] + ")" + sep + sep.join(out[1:])
    return t


def prefixed(plans, p, s, r):
    """s of plan p written internationally: a reference region and a text."""
    k = r.randrange(16)
    region = plans.region(r, p)
    if k >= 14:
        return region, uri(plans, p, s, r)
    if k <= 4:
        head = r.choice(PLUSES) * (1 if r.random() < 0.9 else r.randint(2, 3))
        return region, head + p.cc + r.choice(["", "", " ", "-"]) + s
    if k <= 6:
        q = plans.geo(r)
        idd = sample(q.idd, r) if q.idd is not None else "00"
        return q.id, idd + r.choice(["", " ", "-"]) + p.cc + r.choice(["", " ", "-"]) + s
    if k == 7:
        return "", "00" + p.cc + s
    if k == 8:
        q = plans.geo(r)
        idd = sample(q.idd, r) if q.idd is not None else "00"
        return r.choice([q.id, region]), "+" + idd + r.choice(["", " "]) + p.cc + s
    if k == 9:
        return region, r.choice(["tel:", "TEL:", "Tel:", ""]) + "+" + p.cc + "-" + grouped(s, r).replace(" ", "-")
    if k == 10:
        ctx = r.choice(["+" + p.cc] * 4 + [p.cc, "+" + p.cc + s[:2], "+0" + p.cc, "+", "example.com", "+999", context(plans, p, s, r)])
        return region, r.choice(["tel:", ""]) + s + ";phone-context=" + ctx
    if k == 11 and p.id in plans.regions:
        return p.id, p.cc + s
    if k == 12:
        i = r.randint(0, len(s))
        return region, "+" + p.cc + s[:i] + "-" + s[i:]
    return region, "+" + digits(r, 0, 3) + s


def context(plans, p, s, r):
    """A calling code and what may have got between its digits."""
    q = plans.plan(r)
    return "".join(r.choice(["+", "+", "", "-", " ", ".", p.cc, p.cc, q.cc, s[:2], "0", "00", "a"]) for _ in range(r.randint(1, 4)))


def uri(plans, p, s, r):
    """An RFC 3966 URI, with parameters of all kinds."""
    q = plans.plan(r)
    t = r.choice(["tel:", "tel:", "TEL:", "tEl:", "", "tel", "tel: ", "sip:"])
    t += r.choice(["+" + p.cc, "+" + p.cc, "+" + p.cc, "", "", p.cc, "+", "++" + p.cc, "+" + p.cc + s[:1]])
    t += r.choice(["-", "", ".", "(", "-("])
    t += r.choice([s, s, grouped(s, r).replace(" ", "-"), spread(s, r, 0.2, ["-", ".", "(", ")"]), s[1:], s + "a", s + "A"])
    some = [lambda: "phone-context=+" + p.cc, lambda: "phone-context=+" + q.cc, lambda: "ext=" + digits(r, 0, 8),
            lambda: "isub=" + digits(r, 1, 4), lambda: "phone-context=" + r.choice(["example.com", "+", "", q.cc, "+1-650", "+" + p.cc + s[:3], "a+1", context(plans, p, s, r)]),
            lambda: r.choice(["tsp=a.b", "x-y=1", "postd=pp22", "a=%41", "a=b=c", "phone_context=+1", "Phone-Context=+1", "EXT=1", "=", "a", "ext", "a= b"]),
            lambda: "ext=" + ext_digits(r)]
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        t += ";" + r.choice(some)()
    return t


def national(plans, p, s, r):
    k = r.randrange(8)
    if k <= 1:
        return s
    if k <= 3:
        return (p.np or "") + s
    if k <= 5 and p.npp is not None:
        return sample(p.npp, r) + s
    if k == 6 and p.npp is not None:
        return sample(p.npp, r) + s[r.randint(0, min(3, len(s))):]
    return p.cc + s


EXT_WORDS = ["ext", "ext.", "Ext", "EXT.", "extn", "Extn.", "xtn", "xt", "extension", "Extension", "extensi\u00f3n",
             "extensio\u0301n", "EXTENSI\u00d3N", "int", "INT", "Int.", "anexo", "ANEXO", "x", "X", "#", ",", ";", "~",
             "\uff58", "\uff38", "\uff03", "\uff5e", "\uff45\uff58\uff54", "\uff45\uff58\uff54\uff4e", "\uff58\uff54",
             "\uff29\uff4e\uff54", "\uff49\uff4e\uff54", "e\u0445t", "doxx", "extensions", "x:", "ext:", "ext\uff0e",
             "\uff25\uff38\uff34", "EX\u0164", "e x t", "extensio", "anex", "in", "lxt", "eXtN", ",,", ";;", "xx", "x."]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../spec/data/unicode.json")) as f:
    ZEROS = [z for lo, hi in json.load(f)["nd"][1:] for z in range(lo, hi, 10)]
SCRIPTS = ["0123456789"] * 40 + ["".join(chr(z + i) for i in range(10)) for z in ZEROS] \
    + ["".join(chr(z + i) for i in range(10)) for z in (0xff10, 0x660, 0x6f0, 0x966)] * 4


def ext_digits(r):
    d = digits(r, 0, 9) if r.random() < 0.3 else digits(r, 1, 7)
    if r.random() < 0.2:
        d = "0" + d[1:]
    z = r.choice(SCRIPTS)
    return "".join(z[int(c)] for c in d)


def extended(base, r):
    k = r.randrange(12)
    d = ext_digits(r)
    if k <= 1:
        return base + r.choice([";ext=", ";EXT=", ";Ext=", "; ext=", ";ext:", ";extn="]) + d
    if k == 2:
        return base + r.choice([" ", "-", "  ", " - ", ""]) + d[:r.choice([5, 5, 6])] + "#"
    if k == 3:
        return base + " " + r.choice(EXT_WORDS) + d + r.choice(["/x" + digits(r, 1, 4), " / x12", "#", " ", ".", ")", "!"])
    if k == 4:
        return base + ";" + r.choice(["isub=12", "foo=bar", "ext=1"]) + ";ext=" + d + r.choice(["", ";x=1", ";isub=1", ";ext=77"])
    blank = r.choice(["", " ", "  ", "\u00a0", "\t", ", ", " ,", "-"])
    tail = r.choice(["", "", "", "#", "."])
    return base + blank + r.choice(EXT_WORDS) + r.choice(["", ":", ".", "\uff0e"]) * (r.random() < 0.3) \
        + r.choice(["", " ", "-", " - ", ": ", ", "]) + d + tail


AROUND = ["Tel. ", "Tel: ", "call me at ", "(", "((", "[", "# ", "\u2709 ", "\u00a3", "a", "...", "/", ")", "x", "~", "-- "]
AFTER = [" ", ".", ")", "]", "!", " -", "\u3002", ";", ",", "?", "/", "\u2014", " ()", "*"]
LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def vanity(s, r):
    """Some trailing digits spelled with letters."""
    keys = {"2": "ABC", "3": "DEF", "4": "GHI", "5": "JKL", "6": "MNO", "7": "PQRS", "8": "TUV", "9": "WXYZ"}
    n = r.randint(1, 8)
    out = list(s)
    for i in range(max(0, len(s) - n), len(s)):
        if s[i] in keys and r.random() < 0.9:
            c = r.choice(keys[s[i]])
            out[i] = c if r.random() < 0.7 else c.lower()
    return "".join(out)


def presented(s, r):
    """s, written in some other way."""
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(12)
        if k <= 1:
            s = s[:1] + spread(s[1:], r, r.choice([0.1, 0.3, 0.6]))
        elif k == 2:
            s = grouped(s, r) if s[:1] != "+" else "+" + grouped(s[1:], r)
        elif k == 3:
            s = r.choice(AROUND) + s
        elif k == 4:
            s = s + r.choice(AFTER) * r.randint(1, 2)
        elif k == 5:
            s = s.replace("+", "\uff0b")
        elif k == 6:
            s = s + r.choice(["/x", " / x", "\\x", "/ x", "/X", "/  x", " /y", "/"]) + digits(r, 0, 4)
        elif k == 7:
            s = vanity(s, r)
        elif k == 8:
            i = r.randint(min(1, len(s)), len(s))
            s = s[:i] + "".join(r.choice(LETTERS) for _ in range(r.randint(1, 5))) + s[i:]
        elif k == 9:
            i = r.randint(0, len(s))
            s = s[:i] + r.choice(["*", "**", "(0)", "\u200b", "\u00ad", "x", "xx", "~"]) + s[i:]
        elif k == 10:
            s = spread(s, r, 0.3, PLAIN)
        else:
            s = s + " " + "".join(r.choice("!?.,;:'\"\u3001\u2026") for _ in range(2))
    return s


INTERESTING = "0123456789" * 3 + "+++---...  ()/\\#x*~;=,:tel:ext" + "\uff0b\uff10\u0661\u00b2\u2167\u00bd\u3007\u4e00\U0001f4de\u0301\u00df\u0130\u017f\u212a\x00\n\t\r%$_"


def anything(r):
    k = r.randrange(6)
    if k == 0:
        return "".join(chr(r.choice([r.randrange(0x20, 0x7f), r.randrange(0x80, 0xd800), r.randrange(0xe000, 0x110000)]))
                       for _ in range(r.randint(0, 12)))
    if k == 1:
        return "".join(r.choice(INTERESTING) for _ in range(r.randint(0, 25)))
    if k == 2:
        return "".join(r.choice("0123456789+- x;=") for _ in range(r.randint(0, 14)))
    if k == 3:
        return r.choice(["", "+"]) + digits(r, 0, 24)
    if k == 4:
        return "".join(r.choice(["tel:", "+", "1", "44", "0", "-", ";phone-context=", "+1", ";ext=", "5", "(", ")", "example.com",
                                 ";", "=", "650", "2530000", ".", " ", "isub=1", "%20", "ABC", "\uff0b", "\u00e9"])
                       for _ in range(r.randint(1, 8)))
    return "".join(r.choice(["00", "+", "011", "1", "7", "39", "0", "800", "979", "12", "345", "x", "#", " ", "A", "z", "*", "/", "\\"])
                   for _ in range(r.randint(1, 9)))


def mutated(s, r):
    """Edit a text anywhere."""
    for _ in range(r.randint(1, 3)):
        i = r.randint(0, len(s))
        k = r.randrange(4)
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + r.choice(INTERESTING) + s[i:]
        elif k == 2:
            s = s[:i] + r.choice(INTERESTING) + s[i + 1:]
        else:
            j = r.randint(0, len(s))
            s = s[:min(i, j)] + s[max(i, j):]
    return s
