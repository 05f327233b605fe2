"""seeded generator of valid YANG modules with typedef chains of integer and
decimal types, together with the value space RFC 7950 gives each leaf"""
import os
import random
from fractions import Fraction

from pyvc import loader

INTS = {
    "int8": (-(2**7), 2**7 - 1), "int16": (-(2**15), 2**15 - 1), "int32": (-(2**31), 2**31 - 1), "int64": (-(2**63), 2**63 - 1),
    "uint8": (0, 2**8 - 1), "uint16": (0, 2**16 - 1), "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1),
}


def pick_points(r, lo, hi, n):
    pts = set()
    for _ in range(200):
        if len(pts) >= n:
            break
        k = r.random()
        if k < 0.25:
            v = r.choice([lo, hi, lo + 1, hi - 1])
        elif k < 0.6:
            v = r.randint(-120, 300)
        else:
            v = r.randint(lo, hi)
        if lo <= v <= hi:
            pts.add(v)
    return sorted(pts)


def rand_ranges(r, spans, lo, hi):
    """a YANG range expression inside the given spans, and its spans (disjoint, ascending)"""
    out, text = [], []
    spans = list(spans)
    keep = [s for s in spans if r.random() < 0.75] or [r.choice(spans)]
    for a, b in keep:
        pts = pick_points(r, a, b, r.choice([2, 2, 4, 1]))
        if not pts:
            continue
        i = 0
        while i < len(pts):
            if i + 1 < len(pts) and r.random() < 0.7:
                out.append((pts[i], pts[i + 1]))
                i += 2
            else:
                out.append((pts[i], pts[i]))
                i += 1
    if not out:
        out = [spans[0]]
    mins, maxs = spans[0][0], spans[-1][1]
    return out, mins, maxs


def range_text(r, out, mins, maxs, f=str):
    text = []
    for i, (a, b) in enumerate(out):
        at, bt = f(a), f(b)
        if a == mins and i == 0 and r.random() < 0.5 and a != b:
            at = "min"
        if b == maxs and i == len(out) - 1 and r.random() < 0.5 and a != b:
            bt = "max"
        text.append(at if a == b else "%s%s..%s%s" % (at, space(r), space(r), bt))
    return joined(r, text)


def space(r):
    """optional whitespace between the parts of a range or length"""
    return r.choice(["", "", "", " ", " ", "  ", "\t", "\n    "])


def joined(r, text):
    out = text[0]
    for t in text[1:]:
        out += space(r) + "|" + space(r) + t
    return out


def int_module(name, seed, count):
    r = random.Random("intmod/%s" % seed)
    tds, leaves, spec = [], [], {}
    types = []  # (name, base, spans)
    for b in INTS:
        types.append((b, b, [INTS[b]], 0))
    for i in range(count):
        t, base, spans, depth = r.choice(types)
        body = ""
        out = spans
        if r.random() < 0.8:
            out, mins, maxs = rand_ranges(r, spans, *INTS[base])
            body = ' { range "%s"; }' % range_text(r, out, mins, maxs)
        if depth < 2 and r.random() < 0.45:
            n = "t%d" % i
            tds.append("  typedef %s { type %s%s }" % (n, t, body or ";"))
            types.append((n, base, out, depth + 1))
        else:
            n = "l%d" % i
            leaves.append("    leaf %s { type %s%s }" % (n, t, body or ";"))
            spec[n] = (base, out)
    txt = "module %s {\n  yang-version 1.1;\n  namespace \"urn:%s\"; prefix %s;\n%s\n  container c {\n%s\n  }\n}\n" % (name, name, name, "\n".join(tds), "\n".join(leaves))
    return txt, spec


def fdtext(n, k):
    s = "-" if n < 0 else ""
    d = str(abs(n)).rjust(k + 1, "0")
    return "%s%s.%s" % (s, d[:-k], d[-k:])


def dec_module(name, seed, count):
    r = random.Random("decmod/%s" % seed)
    leaves, tds, spec = [], [], {}
    types = []
    for i in range(count):
        if types and r.random() < 0.4:
            t, k, spans = r.choice(types)
            head = t
            opts = []
        else:
            k = r.randint(1, 6)
            spans = None
            head = "decimal64"
            opts = ["fraction-digits %d;" % k]
        out = spans
        lo, hi = -(10 ** (k + 3)), 10 ** (k + 3)
        if spans is not None or r.random() < 0.8:
            out, mins, maxs = rand_ranges(r, spans or [(lo, hi)], lo, hi)
            opts.append('range "%s";' % range_text(r, out, None, None, lambda n: fdtext(n, k)))
        if r.random() < 0.4 and out is not None:
            n = "t%d" % i
            tds.append("  typedef %s { type %s { %s } }" % (n, head, " ".join(opts)))
            types.append((n, k, out))
        else:
            n = "l%d" % i
            leaves.append("    leaf %s { type %s { %s } }" % (n, head, " ".join(opts)) if opts else "    leaf %s { type %s; }" % (n, head))
            spec[n] = (k, out)
    txt = "module %s {\n  yang-version 1.1;\n  namespace \"urn:%s\"; prefix %s;\n%s\n  container c {\n%s\n  }\n}\n" % (name, name, name, "\n".join(tds), "\n".join(leaves))
    return txt, spec


PATTERNS = [
    "[a-z]+", "[a-z0-9]*", "a|bc", "(a|b)*c?", "[a-c]{2,4}", ".*x.*", "[0-9]+(\\.[0-9]+)?", "[^x]*", "ab|cd|e+", "[A-Za-z][A-Za-z0-9_-]*",
    "x?y?z?", "(ab)+|c", "[a-z]{1,3}-[0-9]{1,3}", "|ab", "[0-9a-fA-F]{2}(:[0-9a-fA-F]{2})*",
    "[a-z]+[$]", "[$][0-9]+|x", "[0-9]+[%$]?", "a[.]b[$]", "[ab$]*", "[a-z^]+", "\\^[a-z]", "(a|b[$])",
]
ALPHABET = "abcxyz01-.AB:$^"


def sample(pattern, r):
    """a text that the pattern matches (or nearly)"""
    import re._parser as P

    def cls(items):
        neg, out = False, []
        for op, a in items:
            if str(op) == "NEGATE":
                neg = True
            elif str(op) == "LITERAL":
                out.append(chr(a))
            elif str(op) == "RANGE":
                out += [chr(a[0]), chr(a[1]), chr(r.randint(*a))]
        if neg:
            return r.choice([c for c in ALPHABET if c not in out])
        return r.choice(out)

    def go(tree):
        out = ""
        for op, a in tree:
            o = str(op)
            if o == "LITERAL":
                out += chr(a)
            elif o == "NOT_LITERAL":
                out += r.choice([c for c in ALPHABET if c != chr(a)])
            elif o == "ANY":
                out += r.choice(ALPHABET)
            elif o == "IN":
                out += cls(a)
            elif o in ("MAX_REPEAT", "MIN_REPEAT"):
                for _ in range(r.randint(a[0], min(int(a[1]), a[0] + 3))):
                    out += go(a[2])
            elif o == "SUBPATTERN":
                out += go(a[3])
            elif o == "BRANCH":
                out += go(r.choice(a[1]))
        return out

    s = go(P.parse(pattern))
    k = r.random()
    if k < 0.1:
        s = s[:-1]
    elif k < 0.2:
        s += r.choice(ALPHABET + "\n")
    elif k < 0.3:
        s = s[1:]
    return s


def rand_lengths(r, spans, cap=12):
    pts = sorted(set(r.randint(max(spans[0][0], 0), min(spans[-1][1], cap)) for _ in range(r.choice([1, 2, 2, 4]))))
    pts = [p for p in pts if any(a <= p <= b for a, b in spans)]
    out, i = [], 0
    while i < len(pts):
        if i + 1 < len(pts) and r.random() < 0.6 and any(a <= pts[i] and pts[i + 1] <= b for a, b in spans):
            out.append((pts[i], pts[i + 1]))
            i += 2
        else:
            out.append((pts[i], pts[i]))
            i += 1
    return out or list(spans)


def len_text(r, out):
    t = []
    for i, (a, b) in enumerate(out):
        t.append(str(a) if a == b else "%d%s..%s%s" % (a, space(r), space(r), "max" if b >= 10**9 else b))
    return joined(r, t)


def str_module(name, seed, count):
    """leaves of (restricted) string and binary types: spec = (kind, [length spans per level], [patterns, or (pattern,) where it is inverted])"""
    r = random.Random("strmod/%s" % seed)
    tds, leaves, spec = [], [], {}
    types = []
    INF = [(0, 10**9)]
    for i in range(count):
        if types and r.random() < 0.5:
            t, kind, lens, pats, depth = r.choice(types)
        else:
            kind = r.choice(["string", "string", "string", "binary"])
            t, lens, pats, depth = kind, [], [], 0
        opts, nl, np = [], lens, pats
        if r.random() < 0.7:
            spans = rand_lengths(r, lens[-1] if lens else INF)
            opts.append('length "%s";' % len_text(r, spans))
            nl = lens + [spans]
        if kind == "string":
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                p = r.choice(PATTERNS)
                inverted = r.random() < 0.25
                opts.append("pattern '%s'%s" % (p, " { modifier invert-match; }" if inverted else ";"))
                np = np + [(p,) if inverted else p]
        body = " { %s }" % " ".join(opts) if opts else ";"
        if depth < 2 and r.random() < 0.45:
            n = "t%d" % i
            tds.append("  typedef %s { type %s%s }" % (n, t, body))
            types.append((n, kind, nl, np, depth + 1))
        else:
            n = "l%d" % i
            leaves.append("    leaf %s { type %s%s }" % (n, t, body))
            spec[n] = (kind, nl, np)
    txt = "module %s {\n  yang-version 1.1;\n  namespace \"urn:%s\"; prefix %s;\n%s\n  container c {\n%s\n  }\n}\n" % (name, name, name, "\n".join(tds), "\n".join(leaves))
    return txt, spec


def build(tmp, name, texts, flags=("--presence",), main=None):
    """texts: {module name: YANG text}, or one text for module `name`"""
    if isinstance(texts, str):
        texts = {name: texts}
    d = os.path.join(tmp, name)
    os.makedirs(d, exist_ok=True)
    fs = []
    for n, t in texts.items():
        f = os.path.join(d, n + ".yang")
        with open(f, "w") as fh:
            fh.write(t)
        if main is None or n in main:
            fs.append(f)
    if main is not None:
        fs.sort(key=lambda f: main.index(os.path.basename(f)[:-5]))
    return loader.generate(fs, list(flags), d, name + ".py", path=d)


def modules(prefix, maker, seed, n, count):
    """n small modules made by maker -> (texts, {(module, leaf): spec})"""
    texts, spec = {}, {}
    for i in range(n):
        m = "%s%d" % (prefix, i)
        texts[m], sp = maker(m, "%s/%d" % (seed, i), count)
        for k, v in sp.items():
            spec[m, k] = v
    return texts, spec


ENUMS = ["up", "down", "UP", "on-hold", "a.b", "10g", "x_y", "none", "all", "auto", "low", "true", "zero", "a b", "é", "0", "7", "up1", "u", "@up", "@", "@module", "a:b", "x[1]", "1", "-", "a/b", "TRUE"]
BITS = ["zulu", "alpha", "mike", "bravo", "yank", "b-1", "b.2", "echo", "alph", "Zulu"]


def named_module(name, seed, count):
    """leaves and leaf-lists of enumeration, bits, boolean and identityref types, direct or through typedefs:
    spec = (kind, names (bits: in order of position; identities: (module, name)), is a leaf-list, value numbers)"""
    r = random.Random("namedmod/%s" % seed)
    tds, leaves, spec, types = [], [], {}, []
    ids = []
    for i in range(r.randint(4, 8)):
        bases = r.sample([x for x, _ in ids], min(len(ids), r.choice([0, 1, 1, 1, 2])))
        ids.append(("id%d" % i, bases))
    r.shuffle(ids)
    derived = {}
    for n, _ in ids:
        out, more = set(), True
        while more:
            more = False
            for m, bs in ids:
                if m not in out and any(b == n or b in out for b in bs):
                    out.add(m)
                    more = True
        derived[n] = sorted(out)
    for i in range(count):
        if types and r.random() < 0.4:
            head, kind, names, nums = r.choice(types)
            if kind in ("enumeration", "bits") and r.random() < 0.5:
                # YANG 1.1: some of the names of the typedef, with the same numbers
                st, names, some = [], list(names), r.sample(names, r.randint(1, len(names)))
                for k in some:
                    number = " { %s %d; }" % ("value" if kind == "enumeration" else "position", nums[k])
                    st.append('%s "%s"%s' % ("enum" if kind == "enumeration" else "bit", k, number if r.random() < 0.3 else ";"))
                names = some if kind == "enumeration" else [k for k in names if k in some]
                head = "%s { %s }" % (head, " ".join(st))
                if kind == "enumeration":
                    nums = {k: nums[k] for k in some}
                if r.random() < 0.4:
                    n = "t%d" % i
                    tds.append("  typedef %s { type %s }" % (n, head))
                    types.append((n, kind, names, nums))
                    head = n
        else:
            kind = r.choice(["enumeration", "bits", "bits", "boolean", "identityref"])
            nums = None
            if kind == "enumeration":
                names = r.sample(ENUMS, r.randint(1, 6))
                nums, st, nxt = {}, [], 0
                for n in names:
                    if r.random() < 0.3:
                        v = r.choice([x for x in range(-3, 60) if x not in nums.values()])
                        st.append('enum "%s" { value %d; }' % (n, v))
                    else:
                        v = nxt
                        st.append('enum "%s";' % n)
                    nums[n] = v
                    nxt = max(nums.values()) + 1
                head = "enumeration { %s }" % " ".join(st)
            elif kind == "bits":
                ns = r.sample(BITS, r.randint(1, 7))
                pos, st, nxt = {}, [], 0
                for n in ns:
                    if r.random() < 0.4:
                        q = r.choice([x for x in range(120) if x not in pos.values()])
                        st.append("bit %s { position %d; }" % (n, q))
                    else:
                        q = nxt
                        st.append("bit %s;" % n)
                    pos[n] = q
                    nxt = max(pos.values()) + 1
                names = sorted(ns, key=lambda n: pos[n])
                nums = pos
                head = "bits { %s }" % " ".join(st)
            elif kind == "boolean":
                names, head = [], "boolean"
            else:
                base = r.choice(sorted(derived))
                names = [(name, x) for x in derived[base]]
                head = "identityref { base %s; }" % base
            if r.random() < 0.4:
                n = "t%d" % i
                tds.append("  typedef %s { type %s%s }" % (n, head, "" if head.endswith("}") else ";"))
                types.append((n, kind, names, nums))
                head = n
        ll = r.random() < 0.35
        n = "l%d" % i
        leaves.append("    %s %s { type %s%s }" % ("leaf-list" if ll else "leaf", n, head, "" if head.endswith("}") else ";"))
        spec[n] = (kind, names, ll, nums)
    idt = "\n".join("  identity %s { %s }" % (n, " ".join("base %s;" % b for b in bs)) if bs else "  identity %s;" % n for n, bs in ids)
    txt = "module %s {\n  yang-version 1.1;\n  namespace \"urn:%s\"; prefix %s;\n%s\n%s\n  container c {\n%s\n  }\n}\n" % (name, name, name, idt, "\n".join(tds), "\n".join(leaves))
    return txt, spec
