"""Regular expression syntax -> the syntax trees of spec/Regex.tla.

Only syntax: Python's own parser splits the pattern, this file rewrites its
tree.  No matching is done here.
"""
import re
import re._parser as sp
import re._constants as sc

DIGITS = range(48, 58)


def _ranges(items):
    out = []
    for op, av in items:
        if op is sc.LITERAL:
            out.append((av, av))
        elif op is sc.RANGE:
            out.append((av[0], av[1]))
        elif op is sc.CATEGORY and av is sc.CATEGORY_DIGIT:
            out.append((48, 57))
        else:
            raise ValueError((op, av))
    return out


def _fold(rs):
    """Simple case folding, as far as the patterns used here need it."""
    out = list(rs)
    for lo, hi in rs:
        for c in range(lo, min(hi, lo + 400) + 1):
            for v in (chr(c).lower(), chr(c).upper(), chr(c).swapcase()):
                if len(v) == 1 and ord(v) != c:
                    out.append((ord(v), ord(v)))
            if chr(c) in "sS":
                out.append((0x17F, 0x17F))
            if chr(c) in "kK":
                out.append((0x212A, 0x212A))
    return sorted(set(out))


def _set(rs, fold):
    if fold:
        rs = _fold(rs)
    rs = sorted(set(rs))
    if len(rs) == 1 and rs[0][0] == rs[0][1]:
        return {"k": "c", "c": rs[0][0]}
    if all(lo >= 48 and hi <= 57 for lo, hi in rs):
        return {"k": "d", "d": [any(lo <= c <= hi for lo, hi in rs) for c in DIGITS]}
    return {"k": "s", "r": [list(r) for r in rs]}


def _seq(ast, fold):
    out = []
    for op, av in ast:
        if op is sc.LITERAL:
            out.append(_set([(av, av)], fold))
        elif op is sc.IN:
            if av[0][0] is sc.NEGATE:
                rs = sorted(_ranges(av[1:]))
                neg, nxt = [], 0
                for lo, hi in rs:
                    if lo > nxt:
                        neg.append((nxt, lo - 1))
                    nxt = max(nxt, hi + 1)
                neg.append((nxt, 0x10FFFF))
                out.append({"k": "s", "r": [list(r) for r in neg]})
            else:
                out.append(_set(_ranges(av), fold))
        elif op is sc.ANY:
            out.append({"k": "s", "r": [[0, 9], [11, 0x10FFFF]]})
        elif op is sc.BRANCH:
            out.append({"k": "a", "o": [_seq(b, fold) for b in av[1]]})
        elif op is sc.SUBPATTERN:
            out.append({"k": "g", "n": av[0] or 0, "b": _seq(av[3], fold)})
        elif op is sc.MAX_REPEAT:
            hi = -1 if av[1] is sc.MAXREPEAT else av[1]
            out.append({"k": "r", "lo": av[0], "hi": hi, "b": _seq(av[2], fold)})
        elif op is sc.AT and av is sc.AT_END:
            out.append({"k": "$"})
        else:
            raise ValueError((op, av))
    return out


def regex(src, fold=False, verbose=True):
    """verbose: the metadata patterns are written with insignificant blanks."""
    if verbose:
        src = re.sub(r"\{[\d,\s]*\}", lambda m: "".join(m.group().split()), src)
    plain = re.sub(r"\\.|\[[^\]]*\]", "", src, flags=re.S)
    if re.search(r"\{(?!\d+(,\d*)?\})", plain):             # Python reads such a brace as itself
        raise ValueError("repetition")
    tree = sp.parse(src, re.X if verbose else 0)
    return {"b": _seq(tree, fold), "g": tree.state.groups - 1}
