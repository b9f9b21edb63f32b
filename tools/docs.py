"""Random metadata documents: made of territories of real ones, and altered."""
import re

TERRITORY = re.compile(r"<territory\b.*?</territory>", re.S)
TOKEN = re.compile(r"<!--.*?-->|<[^>]*>|[^<]+", re.S)


class Bank:
    """Territories of real documents, as lists of tokens."""

    def __init__(self, *xmls):
        self.territories = []
        for x in xmls:
            x = re.sub(r"<!--.*?-->", "", x, flags=re.S)
            for m in TERRITORY.finditer(x):
                t = TOKEN.findall(m.group())
                if len(t) < 400:
                    self.territories.append(t)
        self.tokens = [t for ts in self.territories for t in ts if t.strip()]
        self.attributes = sorted({a for t in self.tokens if t[0] == "<" for a in re.findall(r'\s[\w]+="[^"]*"', t)})
        self.texts = sorted({t for t in self.tokens if t[0] != "<"})


HEAD = ['<?xml version="1.0"?>', "<!DOCTYPE phoneNumberMetadata>", "<!-- a comment -->"]


def compose(bank, r, most=4):
    """A few territories, some of them renamed to share codes and names."""
    out, ids, codes = [], [], []
    for _ in range(r.randint(1, most)):
        t = list(r.choice(bank.territories))
        head = t[0]
        if codes and r.random() < 0.5:
            head = re.sub(r'countryCode="\d+"', 'countryCode="%s"' % r.choice(codes), head)
        if ids and r.random() < 0.15:
            head = re.sub(r'\bid="\w+"', 'id="%s"' % r.choice(ids), head)
        if r.random() < 0.3:
            head = re.sub(r'\s+mainCountryForCode="\w+"', "", head)
            if r.random() < 0.6:
                head = head[:-1] + ' mainCountryForCode="true">'
        ids += re.findall(r'\bid="(\w+)"', head)
        codes += re.findall(r'countryCode="(\d+)"', head)
        out += [head] + t[1:]
    return ["<phoneNumberMetadata>", "\n", "<territories>", "\n"] + out + ["</territories>", "</phoneNumberMetadata>"]


def alter(tokens, bank, r):
    """One random change."""
    t = list(tokens)
    if not [x for x in t if x[0] == "<" and x[1] not in "!/?"]:
        return t
    i = r.randrange(len(t))
    k = r.randrange(15)
    tags = [j for j, x in enumerate(t) if x[0] == "<" and x[1] not in "!/?"]
    texts = [j for j, x in enumerate(t) if x[0] != "<" and x.strip()]
    if k == 0:
        del t[i]
    elif k == 1:
        t.insert(i, r.choice(bank.tokens))
    elif k == 2:
        t.insert(i, t[i])
    elif k == 3:
        j = r.randrange(len(t))
        t[i], t[j] = t[j], t[i]
    elif k == 4 and texts:
        t[r.choice(texts)] = r.choice(bank.texts)
    elif k in (5, 6):
        j = r.choice(tags)
        end = "/>" if t[j].endswith("/>") else ">"
        t[j] = t[j][:-len(end)].rstrip() + r.choice(bank.attributes) + end
    elif k == 7:
        j = r.choice(tags)
        at = re.findall(r'\s[\w]+="[^"]*"', t[j])
        if at:
            t[j] = t[j].replace(r.choice(at), "", 1)
    elif k == 8:
        j = r.choice(tags)
        at = re.findall(r'(\s[\w]+=)("[^"]*")', t[j])
        if at:
            n, v = r.choice(at)
            t[j] = t[j].replace(n + v, n + r.choice(VALUES), 1)
    elif k == 9:
        j = r.choice(tags)
        t[j] = re.sub(r"^<\w+", lambda m: r.choice([m.group() + "s", m.group().lower(), "<mobile", "<unknown"]), t[j])
    elif k == 10:
        t.insert(i, r.choice(["<!-- c -->", "<!---->", "<?pi?>", "<![CDATA[1]]>", "<!DOCTYPE x>", "text", "<a/>", "<a></a>", "&amp;"]))
    elif k == 11:
        t = t[:i]
    elif k == 14:
        j = r.choice(tags)                                  # a slip inside a tag
        p = r.randrange(1, len(t[j]))
        t[j] = t[j][:p] + r.choice(["", "a", '"', "=", " ", "/", "<", ">", "'"]) + t[j][p + r.randint(0, 1):]
    elif k == 12:
        lens = [j for j in tags if t[j].startswith("<possibleLengths")]
        if lens:
            j = r.choice(lens)
            t[j] = re.sub(r'="[^"]*"', lambda m: '="%s"' % lengths(r), t[j])
    else:
        # two neighbouring elements of a territory change places
        j = next((j for j in tags if j > i and t[j].startswith(("<fixedLine", "<mobile", "<generalDesc"))), None)
        if j:
            e = t.index("</" + t[j][1:-1].split()[0] + ">", j) if "</" + t[j][1:-1].split()[0] + ">" in t[j:] else j
            t = t[:j] + t[e + 1:] + t[j:e + 1] if r.random() < 0.2 else t[:e + 1] + t[j:e + 1] + t[e + 1:]
    return t


def lengths(r):
    def part():
        k = r.randrange(8)
        if k <= 3:
            return str(r.choice([r.randint(1, 17), r.randint(0, 70000)]))
        if k <= 5:
            a = r.randint(1, 15)
            return "[%d-%d]" % (a, a + r.randint(-2, 5))
        return r.choice([" %d " % r.randint(1, 9), "[3-]", "[-4]", "[5]", "", "-1", "[1-2-3]", "[4-6", "4-6", "x"])
    return ",".join(part() for _ in range(r.randint(1, 3)))


def listed(r):
    """Lengths that mean something, in order more often than not."""
    some = r.sample(range(3, 14), r.randint(1, 5))
    if r.random() < 0.6:
        some.sort()
    if r.random() < 0.2:
        a = r.randint(3, 10)
        some.insert(r.randint(0, len(some)), "[%d-%d]" % (a, a + r.randint(1, 3)))
    return ",".join(map(str, some))


VALUES = ['"true"', '"false"', '"1"', '"x"', '""', '"("', '"65536"', '"044"', "'0'", '"\\d"', '"$1"', '" true"']


def document(bank, r):
    t = compose(bank, r) if r.random() < 0.6 else TOKEN.findall(exchanged(bank, r, 3))
    for _ in range(r.choice([0, 0, 1, 1, 1, 2, 2, 3])):
        t = alter(t, bank, r)
    head = "".join(r.choice(HEAD[1:]) for _ in range(r.choice([0, 0, 1, 2]))) if r.random() < 0.95 else HEAD[0]
    return head + "".join(t)


def exchanged(bank, r, most=8):
    """Territories that have taken each other's names, codes and parts: like real ones, and like none."""
    ts = [list(r.choice(bank.territories)) for _ in range(r.randint(2, most))]
    heads = [dict(re.findall(r'([\w]+)="([^"]*)"', re.sub(r"\s+", " ", t[0]))) for t in ts]
    for name, rate in (("countryCode", 0.5), ("internationalPrefix", 0.3), ("nationalPrefix", 0.3), ("preferredExtnPrefix", 0.3)):
        at = [i for i, h in enumerate(heads) if name in h and r.random() < rate]
        vs = [heads[i][name] for i in at]
        r.shuffle(vs)
        for i, v in zip(at, vs):
            heads[i][name] = v
    if r.random() < 0.4:
        a, b = r.choice(heads), r.choice(heads)
        a["countryCode"] = b["countryCode"]
    if r.random() < 0.4:                                    # names that are nobody's
        for h in r.sample(heads, r.randint(1, 2)):
            h["id"] = r.choice(["QQ", "QZ", "ZZ", "us", "A1", "XAA", "U", "002"])
            if r.random() < 0.6:
                h["countryCode"] = r.choice(heads)["countryCode"]
    if r.random() < 0.5:                                    # plans of no region, with rules of one
        h = r.choice(heads)
        h["id"] = "001"
        if r.random() < 0.8:
            h["countryCode"] = r.choice(["800", "808", "870", "878", "881", "882", "883", "888", "979"])
        if "nationalPrefixForParsing" not in h and r.random() < 0.6:
            h["nationalPrefix"] = r.choice("0123456789")
    used, out = set(), []
    for h, t in zip(heads, ts):
        if h.get("id") in used:
            continue                                        # later entries would hide earlier ones
        used.add(h.get("id"))
        if h.get("mainCountryForCode") and r.random() < 0.3:
            del h["mainCountryForCode"]
        for _ in range(r.choice([0, 1, 2, 4, 6])):
            blend(h, t, r)
        out += ["<territory%s>" % "".join(' %s="%s"' % kv for kv in h.items())] + t[1:]
    return "".join(["<phoneNumberMetadata><territories>"] + out + ["</territories></phoneNumberMetadata>"])


def blend(h, t, r):
    """One change of a territory's rules to others that mean something."""
    lens = [i for i, x in enumerate(t) if x.startswith("<possibleLengths")]
    pats = [i + 1 for i, x in enumerate(t) if x == "<nationalNumberPattern>"]
    formats = [i for i, x in enumerate(t) if x.startswith("<numberFormat ")]
    k = r.randrange(14)
    shapes = [i + 1 for i, x in enumerate(t) if x in ("<format>", "<intlFormat>") and "$" in t[i + 1]]
    one, other = [next((i + 1 for i, x in enumerate(t) if n in t and i > t.index(n) and x == "<nationalNumberPattern>"), None)
                  for n in ("<fixedLine>", "<mobile>")]
    if k in (10, 11) and shapes:                            # other punctuation between the groups
        i = r.choice(shapes)
        groups = re.findall(r"\$\d", t[i])
        if r.random() < 0.2:
            r.shuffle(groups)
        t[i] = r.choice(["", "", "(", "0", "-"]) + "".join(
            g + (r.choice(["", " ", "-", ") ", " - ", "--", "/", ".", " (", ")-(", "\u2013", " 15-", "  "]) if j + 1 < len(groups) else r.choice(["", "", ")", " "]))
            for j, g in enumerate(groups))
    elif k == 12 and one and other:                         # fixed lines and mobiles by one pattern, or nearly
        t[one] = t[other] if r.random() < 0.8 else t[other] + " "
        i = next((i for i in lens if t.index("<mobile>") < i < other), None)
        if i and r.random() < 0.7:
            t[i] = '<possibleLengths national="%s"/>' % ",".join(map(str, sorted(r.sample(range(5, 12), r.randint(1, 4)))))
    elif k == 13:
        name, pool = "nationalPrefixOptionalWhenFormatting", ["true", "false"]
        h.pop(name, None)
        h[name] = r.choice(pool)
        for i in formats[:2]:
            t[i] = re.sub(r'\s+%s="[^"]*"' % name, "", t[i])
            t[i] = "<numberFormat " + '%s="%s"' % (name, r.choice(pool)) + t[i][len("<numberFormat"):]
    elif k <= 1 and lens:
        i = r.choice(lens)
        t[i] = re.sub(r'national="[^"]*"', 'national="%s"' % listed(r), t[i])
    elif k == 2:
        at = next((i for i, x in enumerate(t) if x == "</generalDesc>"), None)
        if at and "<generalDesc>" in t and not any(x.startswith("<possibleLengths") for x in t[t.index("<generalDesc>"):at]):
            t.insert(at, '<possibleLengths national="%s"/>' % listed(r))
    elif k <= 4 and pats:
        i, j = r.choice(pats), r.choice(pats)
        t[i] = r.choice([t[j], t[j], "\\d+", "[2-9]\\d{4,9}", "\\d{%d}" % r.randint(3, 11), t[i] + "|" + t[j]])
    elif k <= 6 and formats:
        i = r.choice(formats)
        name, pool = r.choice([("nationalPrefixFormattingRule", ["$NP$FG", "($NP$FG)", "$NP $FG", "$FG", "$NP-$FG", "($FG)", "$NP-$NP $FG", "$FG/$FG", "$NP"]),
                               ("carrierCodeFormattingRule", ["$NP $CC $FG", "$CC-$FG", "$NP$FG $CC", "$FG ($CC)", "$CC $CC-$FG", "$NP$NP $CC $FG"]),
                               ("nationalPrefixOptionalWhenFormatting", ["true", "false"])])
        t[i] = re.sub(r'\s+%s="[^"]*"' % name, "", t[i])
        if r.random() < 0.8:
            t[i] = "<numberFormat " + '%s="%s"' % (name, r.choice(pool)) + t[i][len("<numberFormat"):]
    elif k == 7:
        h.pop("leadingDigits", None)
        if r.random() < 0.5:
            h["leadingDigits"] = r.choice(["[2-5]", "[13579]", "2|7[0-4]", "8[0-9]{2}", "[1-9]0"])
    elif k == 8:
        name, pool = r.choice([("nationalPrefix", ["0", "1", "8", "06", "02"]), ("internationalPrefix", ["00", "011", "0(?:0|11)", "810", "00[1-9]{2}"]),
                               ("preferredExtnPrefix", [" x", " #", ";ext=", " int "]), ("nationalPrefixForParsing", ["0", "0?1", "(?:0(1[0-4])?)?", "0(11|3[45])?(15)?", "[0-2]"]),
                               ("nationalPrefixTransformRule", ["$1", "9$1", "$2$1"]), ("nationalPrefixFormattingRule", ["$NP$FG", "($FG)"]),
                               ("carrierCodeFormattingRule", ["$NP $CC $FG", "$CC $FG"])])
        h.pop(name, None)
        if r.random() < 0.8:
            h[name] = r.choice(pool)
    elif lens:
        t.pop(r.choice(lens))
