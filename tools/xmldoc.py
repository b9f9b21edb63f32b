"""XML documents -> the event lists and text tables of spec/Loader.tla.

A plain tokenizer, independent of the one the crate uses.  It keeps what the
documents say: no loading rules here.
"""
import re
import warnings

from regex_ast import regex

warnings.simplefilter("ignore")


class Texts:
    """The table of strings; index 1 is the empty string."""

    def __init__(self):
        self.rows, self.index = [], {}
        self.id("")

    def id(self, s):
        if s not in self.index:
            self.index[s] = len(self.rows) + 1
            try:
                ast = [regex(s)]
            except Exception:
                ast = []
            self.rows.append({"s": s, "w": "".join(s.split()), "p": [ord(c) for c in s], "re": ast})
        return self.index[s]


NAME = re.compile(r"\S+")
ATTR = re.compile(r"\s+([^\s/>=]+)\s*=\s*(\"[^\"]*\"|'[^']*')")


def tag(body):
    """Name, attributes, malformed?"""
    m = NAME.match(body)
    if not m:
        return None
    name, rest = m.group(), body[m.end():]
    attrs, pos, bad = [], 0, False
    while rest[pos:].strip():
        a = ATTR.match(rest, pos)
        if not a:
            bad = True
            break
        if a.group(1) in [k for k, _ in attrs]:
            bad = True
        attrs.append((a.group(1), a.group(2)[1:-1]))
        pos = a.end()
    return name, attrs, bad


def tag_end(s, i):
    """The index of the > that closes the tag opened before i, outside quotes."""
    quote = None
    while i < len(s):
        c = s[i]
        if quote:
            if c == quote:
                quote = None
        elif c in "\"'":
            quote = c
        elif c == ">":
            return i
        i += 1
    return -1


def events(doc, texts):
    out, stack, i = [], [], 0

    def other():
        out.append({"k": "other"})

    while i < len(doc):
        if doc[i] != "<":
            j = doc.find("<", i)
            j = len(doc) if j < 0 else j
            run = doc[i:j]
            if "&" in run:
                other()
                return out
            out.append({"k": "text", "t": texts.id(run)})
            i = j
            continue
        if doc.startswith("<!--", i):
            j = doc.find("-->", i + 4)
            if j < 0:
                other()
                return out
            out.append({"k": "comment"})
            i = j + 3
        elif doc.startswith("<![CDATA[", i):
            other()
            return out
        elif doc.startswith("<!DOCTYPE", i):
            j = i
            depth = 0
            while j < len(doc):
                if doc[j] == "[":
                    depth += 1
                elif doc[j] == "]":
                    depth -= 1
                elif doc[j] == ">" and depth <= 0:
                    break
                j += 1
            if j >= len(doc):
                other()
                return out
            out.append({"k": "doctype"})
            # the subset may hold a > of its own
            i = j + 1
        elif doc.startswith("<?", i) or doc.startswith("<!", i):
            other()
            return out
        elif doc.startswith("</", i):
            j = doc.find(">", i)
            name = doc[i + 2:j].rstrip() if j >= 0 else None
            if name is None or not stack or stack[-1] != name:
                other()
                return out
            stack.pop()
            out.append({"k": "end", "n": name})
            i = j + 1
        else:
            j = tag_end(doc, i + 1)
            if j < 0:
                other()
                return out
            body = doc[i + 1:j]
            empty = body.endswith("/")
            t = tag(body[:-1] if empty else body)
            if t is None:
                other()
                return out
            name, attrs, bad = t
            out.append({"k": "empty" if empty else "start", "n": name, "x": bad,
                        "a": [[k, texts.id(v)] for k, v in attrs]})
            if not empty:
                stack.append(name)
            i = j + 1
    out.append({"k": "eof"})
    return out
