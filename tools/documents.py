"""The documents of spec/Documents.tla: exploration by TLC and replay on the real loader."""
import json
import os

from common import SPEC, Doc, ToolError, counts, execute, tlc
from xmldoc import Texts, events

# What may be inserted: text of the document, as an XML reader takes it apart.
POOL = ["<unknown></unknown>", "<unknown/>", "<possibleLengths national=\"3\"/>", "<possibleLengths localOnly=\"[1-3]\"/>",
        "<!--c-->", "<!DOCTYPE d>", "<?pi?>", "<![CDATA[1]]>", " \n", "x",
        "<references><a><b/></a></references>", "<areaCodeOptional></areaCodeOptional>",
        "<fixedLine><nationalNumberPattern>5</nationalNumberPattern></fixedLine>", "<pager></pager>",
        "<noInternationalDialling><nationalNumberPattern>9</nationalNumberPattern></noInternationalDialling>",
        "<shortCode><nationalNumberPattern>9</nationalNumberPattern></shortCode>",
        "<nationalNumberPattern></nationalNumberPattern>", "<exampleNumber>8</exampleNumber>",
        "<leadingDigits>6</leadingDigits>", "<format>$1</format>", "<intlFormat>NA</intlFormat>", "<intlFormat>$1 $1</intlFormat>",
        "<availableFormats></availableFormats>",
        "<numberFormat pattern=\"(\\d+)\"><format>$1</format></numberFormat>", "<territories></territories>",
        "<territory id=\"CC\" countryCode=\"8\"><generalDesc><nationalNumberPattern>4</nationalNumberPattern></generalDesc></territory>"]
NAMES = ["generalDesc", "fixedLine", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "pager", "uan",
         "emergency", "voicemail", "noInternationalDialling", "mobile", "shortCode", "standardRate", "carrierSpecific",
         "references", "territory", "territories", "phoneNumberMetadata", "numberFormat", "intlFormat", "format",
         "leadingDigits", "exampleNumber", "possibleLengths", "nationalNumberPattern", "GeneralDesc"]
VALUES = ["", "true", "false", "1", "007", "65535", "65536", "+5", "-1", "NA", "NA ", "(", "[1-2]", "2,3", "3,[5-4],", " 4 , [6-7] ",
          "[8", "[9]", "[1-2-3]", "\\d{2,}", "TRUE", "$1"]
ATTRIBUTES = [["id", "DD"], ["countryCode", "3"], ["pattern", "2"], ["preferredInternationalPrefix", "00"],
              ["nationalPrefix", "0"], ["preferredExtnPrefix", " ext "], ["nationalPrefixForParsing", "0(1)"],
              ["nationalPrefixTransformRule", "$1"], ["mainCountryForCode", "true"], ["leadingDigits", "1"],
              ["mobileNumberPortableRegion", "false"], ["nationalPrefixFormattingRule", "$NP"],
              ["nationalPrefixOptionalWhenFormatting", "true"], ["nationalPrefixOptionalWhenFormatting", "false"],
              ["carrierCodeFormattingRule", "$CC"], ["unknown", "1"], ["national", "1"], ["localOnly", "x"]]
FOCUS = ["remove", "insert", "double", "exchange", "rename", "retext", "attribute"]
INVARIANTS = ["D_Territories", "D_Formats", "D_Descriptors", "D_Known", "D_Complete", "D_Closed", "D_Errors", "D_Lookup",
              "D_Stack", "D_Fold"]


def model(name):
    return open(os.path.join(SPEC, "models", name + ".xml"), encoding="utf-8").read()


def render(doc, rows):
    out = []
    for e in doc:
        k = e["k"]
        if k in ("start", "empty"):
            attrs = "".join(' %s="%s"' % (n, rows[t - 1]["s"]) for n, t in e["a"])
            out.append("<" + e["n"] + attrs + ("/>" if k == "empty" else ">"))
        elif k == "end":
            out.append("</" + e["n"] + ">")
        elif k == "text":
            out.append(rows[e["t"] - 1]["s"])
        elif k == "comment":
            out.append("<!--c-->")
        elif k == "doctype":
            out.append("<!DOCTYPE d>")
        elif k == "other":
            out.append("<?pi?>")
    return "".join(out)


def run(templates, edits, focus, work, live=False, timeout=880, workers=8):
    texts = Texts()
    docs = [events(model(t), texts) for t in templates]
    pool = [events(p, texts)[:-1] if "<![" not in p and "<?" not in p else [{"k": "other"}] for p in POOL]
    cfg = {"docs": docs, "pool": pool, "names": NAMES, "values": [texts.id(v) for v in VALUES],
           "attributes": [[n, texts.id(v)] for n, v in ATTRIBUTES], "edits": edits, "focus": focus, "texts": texts.rows}
    with open(os.path.join(work, "run.json"), "w") as f:
        json.dump(cfg, f)
    lines = ["CONSTANT Run <- ModelFile", "SPECIFICATION Spec", "CHECK_DEADLOCK FALSE"]
    lines += ["INVARIANT " + n for n in INVARIANTS]
    if live:
        lines.append("PROPERTY D_Live")
    with open(os.path.join(work, "Documents.run.cfg"), "w") as f:
        f.write("\n".join(lines) + "\n")
    rc, out = tlc("Documents.tla", "Documents.run.cfg", work, timeout=timeout, workers=workers)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("the model does not hold:\n" + "\n".join(
            l for l in out.split("\n") if "VECTOR" not in l and "Linting" not in l and "Semantic proc" not in l and "Parsing file" not in l)[-2500:])
    vectors = [json.loads(json.loads(l)[7:]) for l in sorted(set(out.split("\n"))) if l.startswith('"VECTOR ')]
    gen, dist = counts(out)
    return vectors, texts.rows, dist, gen


def entry(e, o):
    return {"load." + k for k in e if k not in o or o[k] != e[k]}


def compare(v, o):
    if o["t"] in ("hang", "crash", "panic"):
        return {o["t"]}
    if o["t"] == "err":
        return {"load.rejected"} if v["ok"] else set()
    if not v["ok"]:
        return {"load.accepted"}
    bad, es = set(), v["entries"]
    if [c["code"] for c in v["codes"]] != [c["code"] for c in o["codes"]]:
        bad.add("load.codes")
    for c, d in zip(v["codes"], o["codes"]):
        if len(c["list"]) != len(d["list"]):
            bad.add("load.entries")
        for i, m in zip(c["list"], d["list"]):
            bad |= entry(es[i - 1], m)
        if d["regions"] != [es[i - 1]["id"] for i in c["list"]]:
            bad.add("load.regions")
    if {i["id"] for i in o["ids"]} != set(v["ids"]):
        bad.add("load.ids")
    for i in o["ids"]:
        if i["id"] in v["ids"]:
            if not i["m"]:
                bad.add("load.by_id")
            else:
                bad |= entry(es[v["ids"][i["id"]] - 1], i["m"][0])
    if sorted(map(list, o["iter"])) != sorted([e["cc"], e["id"]] for e in es):
        bad.add("load.iter")
    if o["none"]:
        bad.add("load.by_id")
    return bad


def replay(vectors, rows, work, kinds=("parse", "from", "stream", "file")):
    docs, ops = [], []
    for i, v in enumerate(vectors):
        docs.append(Doc(kinds[i % len(kinds)], render(v["doc"], rows)))
        ops.append({"op": "load", "doc": i + 1})
    seen = [json.loads(l) for l in execute(docs, ops, work)]
    bad = {}
    for i, (v, o) in enumerate(zip(vectors, seen)):
        d = compare(v, o)
        if d:
            bad[i] = sorted(d)
    return bad, docs, seen
