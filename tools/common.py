"""Running the harness and TLC."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
BIN = os.path.join(HARNESS, "target/release/pnexec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, os.path.join(VERIF, "tools"))
from xmldoc import Texts, events  # noqa: E402


class ToolError(Exception):
    pass


def build():
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=HARNESS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stdout[-3000:])


def pts(s):
    return [ord(c) for c in s]


def txt(p):
    return "".join(map(chr, p))


class Doc:
    """A metadata document: how the harness opens it, and its text for the specification."""

    def __init__(self, kind, xml, path=None, name=None):
        self.kind, self.xml, self.path, self.name = kind, xml, path, name or kind

    def harness(self):
        return {"k": self.kind, "xml": self.xml if self.kind != "load" and self.kind != "default" else "", "path": self.path or ""}


def builtin():
    return Doc("default", open(os.path.join(REPO, "assets/PhoneNumberMetadata.xml"), encoding="utf-8").read(),
               name="built-in")


def execute(docs, ops, work, limit=20):
    """Observations of ops, in order; operations that end the process are observations too."""
    dpath, opath = os.path.join(work, "docs.json"), os.path.join(work, "ops.ndjson")
    with open(dpath, "w") as f:
        json.dump([d.harness() for d in docs], f)
    with open(opath, "w") as f:
        for o in ops:
            f.write(json.dumps(o, separators=(",", ":")) + "\n")
    seen, lost = [], 0
    while len(seen) < len(ops):
        r = subprocess.run([BIN, "run", dpath, opath, str(len(seen))], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=dict(os.environ, PN_LIMIT=str(limit)))
        seen += [l for l in r.stdout.decode().split("\n") if l.endswith("}")]
        if len(seen) < len(ops):
            if r.returncode == 0 or b"harness:" in r.stderr:
                raise ToolError("harness: " + r.stderr.decode()[-2000:])
            seen.append(json.dumps({"t": "hang" if r.returncode == 77 else "crash"}))
            lost += 1
            if lost > 20:
                # enough seen; the rest is not explored
                seen += [json.dumps({"t": "crash"})] * (len(ops) - len(seen))
    return seen


def tlc(module, cfg, work, workers=8, timeout=880, extra=(), env=None, heap=None):
    """Run TLC on a copy of the specification, in work, next to the files that it reads."""
    meta = tempfile.mkdtemp(dir=work)
    for name in os.listdir(SPEC):
        if name.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, name), work)
    os.makedirs(os.path.join(work, "data"), exist_ok=True)
    for name in os.listdir(os.path.join(SPEC, "data")):
        shutil.copy(os.path.join(SPEC, "data", name), os.path.join(work, "data"))
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-Xss256m", "-Xmx%s" % (heap or "12g"), "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    e = dict(os.environ, **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        raise ToolError("no state count from TLC:\n" + out[-3000:])
    return tuple(int(x.replace(",", "")) for x in m[-1])


MIS = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*\{([^}]*)\}', re.S)


def write_run(docs, work, lanes):
    texts = Texts()
    evs = [events(d.xml, texts) for d in docs]
    with open(os.path.join(work, "run.json"), "w") as f:
        json.dump({"docs": evs, "texts": texts.rows, "lanes": lanes}, f, separators=(",", ":"))


def validate(docs, ops, seen, work, lanes=64, timeout=880, workers=8):
    """Check the recording against the specification: {index: aspects}, states, transitions."""
    lanes = max(1, min(lanes, len(ops)))
    write_run(docs, work, lanes)
    with open(os.path.join(work, "obs.ndjson"), "w") as f:
        f.write("\n".join(seen) + "\n")
    rc, out = tlc("Trace.tla", "Trace.cfg", work, timeout=timeout, workers=workers)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("TLC failed on the recording:\n" + out[-4000:])
    gen, dist = counts(out)
    if dist != len(ops) + lanes:
        raise ToolError("TLC consumed %d of %d calls" % (dist - lanes, len(ops)))
    bad = {}
    for i, names in MIS.findall(out):
        bad[int(i) - 1] = sorted(re.findall(r'"([^"]+)"', names))
    if out.count("MISMATCH") != len(bad):
        raise ToolError("mismatch lines not understood")
    return bad, dist, gen
