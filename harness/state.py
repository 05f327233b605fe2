"""What a user can see of a tree: values, changed flags, presence, entries, and the results of path lookups."""


def kind(x):
    g = getattr(x, "_pybind_generated_by", "")
    if g == "container" or getattr(x, "_yang_type", None) == "container":
        return "container"
    if g == "YANGListType":
        return "list"
    if g == "TypedListType":
        return "leaf-list"
    return "leaf"


def freeze(x):
    """the value of a leaf, safe from later modification"""
    if getattr(x, "_pybind_generated_by", "") == "YANGBits" or type(x).__name__ == "YANGBits" or isinstance(x, set):
        return frozenset(x)
    return x


def snap(o, path=""):
    """[(path, kind, observation ...)] in order"""
    out = []
    for n in o._pyangbind_elements:
        x = getattr(o, n)
        p = path + "/" + n
        k = kind(x)
        if k == "leaf":
            out.append((p, k, x._changed(), freeze(x)))
        elif k == "leaf-list":
            out.append((p, k, x._changed(), [freeze(v) for v in x]))
        elif k == "container":
            out.append((p, k, x._changed(), x._present()))
            out += snap(x, p)
        else:
            es = list(x.items())
            out.append((p, k, x._changed(), [kk for kk, _ in es]))
            for i, (kk, e) in enumerate(es):
                out.append(("%s[%d]" % (p, i), "entry", e._changed(), e._present()))
                out += snap(e, "%s[%d]" % (p, i))
    return out


def same(E, a, b, skip=()):
    """a condition: two snapshots are equal (elements under the paths in skip excepted)"""
    if skip:
        a = [x for x in a if not any(x[0] == s or x[0].startswith(s + "/") or x[0].startswith(s + "[") for s in skip)]
        b = [x for x in b if not any(x[0] == s or x[0].startswith(s + "/") or x[0].startswith(s + "[") for s in skip)]
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if x[:2] != y[:2]:
            return False
        for p, q in zip(x[2:], y[2:]):
            if isinstance(p, list):
                if len(p) != len(q):
                    return False
                cs += [eq(E, u, v) for u, v in zip(p, q)]
            else:
                cs.append(eq(E, p, q))
    cs = [c for c in cs if c is not True]
    if not cs:
        return True
    return E.And(*cs)


def eq(E, u, v):
    if u is v:
        return True
    if isinstance(u, bool) and isinstance(v, bool):
        return u == v
    if not E.symbolic and type(u).__mro__[1:2] != type(v).__mro__[1:2] and str(type(u)) != str(type(v)):
        return False
    return u == v


def first_difference(a, b):
    for x, y in zip(a, b):
        if x != y:
            return x, y
    return a[len(b):][:1], b[len(a):][:1]


def lookups(ph, children, prefix=()):
    """every path of the schema, without predicates -> the objects found (kept alive for comparison by identity)"""
    from harness.schema import flatten

    out = {}
    for c, _ in flatten(children):
        p = prefix + (c.name,)
        if c.kind != "list":
            out["/" + "/".join(p)] = ph.get("/" + "/".join(p))
        if c.kind in ("container", "list"):
            if c.kind == "list" and not c.keys:
                continue
            if c.kind == "list":
                out["/" + "/".join(p)] = ph.get("/" + "/".join(p))
            out.update(lookups(ph, c.children, p))
    return out


def same_lookups(a, b):
    return a.keys() == b.keys() and all(len(a[k]) == len(b[k]) and all(x is y for x, y in zip(a[k], b[k])) for k in a)
