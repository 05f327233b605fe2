"""C15: the path helper returns exactly the elements that are currently in the tree."""
import random

from pyvc.runner import H
from harness import gen, history, schema as S, state
from harness.common import attempt
from harness.trees import Sets

LEVEL = "proof"
ASSUME = [
    "lxml: Element/SubElement/set/get/iter/remove/xpath as documented (the proof uses the contract in pyvc/xmlghost.py, the sweeps the real library)",
    "induction over histories: a list of up to two entries with any keys, then one operation (sweeps: any number of both)",
    "the entries of keyless lists, and what is below them, have no path and are not registered",
    "keys have no quotes and no brackets (statement); in the proof they are of printable ASCII without digits, numbered, or integers",
]
SETS = Sets("sp", n=6, size=16, feat=("topleaf",), flags=("--presence", "--use-xpathhelper"))


PP = """module pp { yang-version 1.1; namespace "urn:pp"; prefix pp;
  container c {
    leaf x { type int32; }
    container d { leaf y { type int32; } leaf-list z { type int32; } container e { leaf f { type string; } } }
    list one { key k; leaf k { type int32; } leaf w { type int32; }
      container in { leaf u { type int32; } list sub { key n; leaf n { type string; } leaf v { type int32; } } } }
    list sk { key name; leaf name { type string; } leaf v { type int32; } container in { leaf u { type int32; } } }
    list two { key "a b-c"; leaf a { type string; } leaf b-c { type int32; } leaf v { type int32; } container in { leaf u { type int32; } } }
    list uo { key name; ordered-by user; leaf name { type string; } leaf v { type int32; } }
    choice ch { case p { leaf pl { type int32; } container pc { leaf r { type int32; } } } case q { container qc { leaf r { type int32; } } } }
  }
  leaf top { type int32; }
}"""
# the elements of the module: (name, key leaves or None for what is no list, elements below)
SCHEMA = [
    ("c", None, [
        ("x", None, None),
        ("d", None, [("y", None, None), ("z", None, None), ("e", None, [("f", None, None)])]),
        ("one", ["k"], [("k", None, None), ("w", None, None), ("in", None, [("u", None, None), ("sub", ["n"], [("n", None, None), ("v", None, None)])])]),
        ("sk", ["name"], [("name", None, None), ("v", None, None), ("in", None, [("u", None, None)])]),
        ("two", ["a", "b-c"], [("a", None, None), ("b-c", None, None), ("v", None, None), ("in", None, [("u", None, None)])]),
        ("uo", ["name"], [("name", None, None), ("v", None, None)]),
        ("pl", None, None), ("pc", None, [("r", None, None)]), ("qc", None, [("r", None, None)]),
    ]),
    ("top", None, None),
]
RC = """module rc { yang-version 1.1; namespace "urn:rc"; prefix rc;
  grouping g { leaf x { type int32; } leaf-list ll { type string; } leaf ref { type leafref { path "/rc:target"; } }
    container c { leaf y { type int32; } }
    choice ch { case one { leaf y { type int32; } container z { leaf w { type int32; } choice deep { leaf v { type int32; } } } } leaf short { type int32; } }
    list l { key k; leaf k { type string; } leaf v { type int32; } container d { leaf e { type int32; } } }
    list two { key "k n"; leaf k { type string; } leaf n { type int32; } } }
  grouping loose { list loose { leaf v { type int32; } } }
  leaf target { type int32; }
  rpc op { input { uses g; uses loose; } output { uses g; uses loose; } }
  notification event { uses g; uses loose; }
}"""
# data elements with the names of the RPC and the notification
RD = """module rd { yang-version 1.1; namespace "urn:rd"; prefix rd; import rc { prefix rc; }
  container op { container input { uses rc:g; } container output { uses rc:g; } }
  container rc_rpc { container op { container input { uses rc:g; } } }
  container event { uses rc:g; }
}"""
RC_IN = ["x", "ll", "ref", "c", "c/y", "y", "z", "z/w", "z/v", "short", "l", "l/k", "l/v", "l/d", "l/d/e", "two", "two/k", "two/n", "loose", "loose/v"]
TEXT = "".join(chr(i) for i in range(32, 127) if chr(i) not in "'\"[](){}")


def prepare(tmp, seed, thorough):
    return dict(SETS.prepare(tmp, seed, thorough), pp=gen.build(tmp, "pp", PP, flags=("--use-xpathhelper", "--presence")),
                rc=gen.build(tmp, "rc", {"rc": RC, "rd": RD}, main=["rc", "rd"], flags=("--use-xpathhelper", "--build-rpcs", "--build-notifications")))


# ---------------------------------------------------------------- one operation, any keys


def safe(n):
    return {"in": "in_", "b-c": "b_c"}.get(n, n)


def elements(E, M, o, schema, prefix=()):
    """[(path as pairs of a name and keys, object)] of what is in the tree"""
    out = []
    for n, keys, below in schema:
        x = getattr(o, safe(n))
        if keys is None:
            out.append((prefix + ((n, ()),), x))
            if below:
                out += elements(E, M, x, below, prefix + ((n, ()),))
            continue
        for e in x.values():
            p = prefix + ((n, tuple((k, text(E, M, getattr(e, safe(k)))) for k in keys)),)
            out.append((p, e))
            out += elements(E, M, e, below, p)
    return out


def text(E, M, v):
    return v if M.is_str(M.builtin("str")(v)) and isinstance(v, (str, M.builtin("str"))) else E.numeral(v)


def lookup(E, ph, path, preds=True):
    parts = [""]
    for n, keys in path:
        for i, (k, v) in enumerate(keys if preds else ()):
            n = E.fmt("{}[{}='{}'", n, k, v) if i == 0 else E.fmt("{} and {}='{}'", n, k, v)
        parts.append(E.fmt("{}]", n) if preds and keys else n)
    found = ph.get(parts)
    if not E.symbolic:
        # the other forms of the path: text, text with double quotes, one predicate per key
        for quote, between in (("'", " and "), ('"', " and "), ("'", "][")):
            t = "".join("/" + n + ("[" + between.join("%s=%s%s%s" % (k, quote, v, quote) for k, v in keys) + "]" if preds and keys else "") for n, keys in path)
            E.prove("the-path-as-text", identical(ph.get(t), found))
        if len(found) == 1:
            E.prove("get-unique", ph.get_unique(t) is found[0])
        else:
            try:
                ph.get_unique(t)
                E.prove("get-unique-of-none-or-several", False)
            except Exception as e:
                E.prove("get-unique-of-none-or-several", type(e).__name__ == "YANGPathHelperException")
    return found


def schema_names(schema, prefix=()):
    for n, keys, below in schema:
        yield prefix + (n,)
        yield from schema_names(below or [], prefix + (n,))


def lists_of(x):
    for n in getattr(x, "_pyangbind_elements", ()):
        l = getattr(x, n)
        if state.kind(l) == "list":
            yield l.yang_name(), l


def same_path(p, q):
    return len(p) == len(q) and all(a == b and all(bool(u == v) for (_, u), (_, v) in zip(ka, kb)) for (a, ka), (b, kb) in zip(p, q))


def names(p):
    return tuple(n for n, _ in p)


def exact(E, M, ph, o, before):
    now = elements(E, M, o, SCHEMA)
    by = {}
    for p, x in now:
        by.setdefault(names(p), []).append(x)
        E.prove("the-current-object:" + "/".join(names(p)), identical(lookup(E, ph, p), [x]))
    if not E.symbolic:
        for p, x in now:
            for n, l in lists_of(x):
                E.prove("get-list", ph.get_list("".join("/" + m + ("[" + " and ".join("%s='%s'" % q for q in keys) + "]" if keys else "") for m, keys in p) + "/" + n) is l)
    for sp in schema_names(SCHEMA):
        found = lookup(E, ph, [(n, ()) for n in sp])
        E.prove("all-entries:" + "/".join(sp), identical(sorted(found, key=id), sorted(by.get(sp, []), key=id)))
    for p, _ in before:
        if not any(same_path(p, q) for q, _ in now):
            E.prove("nothing-for-what-is-gone:" + "/".join(names(p)), lookup(E, ph, p) == [])
            E.reach("something-is-gone")
    return now


def string(E, n):
    # a number is tried as such first: where it is symbolic the text has no digits
    return E.text(n, "".join(ch for ch in TEXT if not ch.isdigit()) if E.symbolic else TEXT, ["a", "b", "ab", "a b", "eth0/1", "x and", "7", "a=b", "and ", "..", "@k", "k=5", "/a", "/", "a/", "//b", "a/b/c", "\\g<1>"])


def key(E, kind, n):
    if kind == "one":
        return E.int(n, lo=-(2**31), hi=2**31 - 1)
    if kind == "two" and E.choose("text", ["numbered"] if E.symbolic else ["numbered", "any"]) == "numbered":
        return E.fmt("n{}", E.int(n, lo=0, hi=10**6))
    return string(E, n)


def add(E, c, kind, k, n):
    l = getattr(c, kind)
    if kind == "two":
        return l.add(a=k, b_c=n)
    return l.add(k)


def operations(E, M):
    """any list of up to two entries, any operation with any key"""
    b = M.b("pp")
    ph = M.mod("xpathhelper").YANGPathHelper()
    o = b.pp(path_helper=ph)
    c = o.c
    op = E.choose("op", ["add", "delete", "set", "set-item", "unset", "replace", "unset-container", "replace-container", "choice", "leaf", "inner"])
    kind = E.choose("list", ["one", "sk", "two", "uo"])
    l = getattr(c, kind)
    ks, ns = [], []
    for i in range(E.choose("entries", [1, 2] if E.symbolic else [1, 2, 0, 3])):
        k, n = key(E, kind, "key"), E.int("second", lo=0, hi=10)
        E.assume(E.And(*[E.Not(k == q) for q in ks]))
        e = add(E, c, kind, k, n)
        ks.append(k)
        ns.append(n)
    inner = kind == "one" and ks and (op == "inner" or E.choose("inner", [False, True]))
    if inner:
        sub = l[ks[0]].in_.sub
        sub.add(string(E, "inner-key"))
    c.pc.r = 1
    before = exact(E, M, ph, o, [])
    donor = None
    if op in ("replace", "replace-container", "leaf"):
        donor = b.pp(path_helper=M.mod("xpathhelper").YANGPathHelper()) if E.choose("donor", ["plain", "helper"]) == "helper" else b.pp()
    if op == "add":
        k, n = key(E, kind, "new"), E.int("second", lo=0, hi=10)
        ok, _ = attempt(add, E, c, kind, k, n, exc=(KeyError,))
        if kind != "two":
            E.prove("added-iff-absent", E.Iff(ok, E.And(*[E.Not(k == q) for q in ks])))
        if ok:
            E.reach("added")
    elif op in ("delete", "set-item"):
        E.assume(len(ks) > 0)
        i = E.choose("which", [0, 1])
        E.assume(i < len(ks))
        if op == "delete":
            if kind == "two":
                l.delete(a=ks[i], b_c=ns[i])
            else:
                del l[ks[i]]
            E.reach("deleted")
        else:
            E.assume(kind != "two")
            v = l._new_item()
            if kind != "uo":
                v.in_.u = 3 if kind == "one" else 4
            l[ks[i]] = v
    elif op == "set":
        E.assume(len(ks) > 0)
        e = list(l.values())[0]
        setattr(e, "w" if kind == "one" else "v", E.int("value", lo=0, hi=9))
    elif op == "unset":
        getattr(c, "_unset_" + kind)()
    elif op == "replace":
        k, n = key(E, kind, "new"), E.int("second", lo=0, hi=10)
        add(E, donor.c, kind, k, n)
        setattr(c, kind, getattr(donor.c, kind))
        E.reach("replaced")
    elif op == "unset-container":
        o._unset_c()
    elif op == "replace-container":
        k, n = key(E, kind, "new"), E.int("second", lo=0, hi=10)
        add(E, donor.c, kind, k, n)
        donor.c.d.e.f = "f"
        o.c = donor.c
        E.reach("replaced")
    elif op == "choice":
        c.qc.r = 1
    elif op == "leaf":
        c.x = c.d.y = o.top = E.int("value", lo=0, hi=9)
        c.d.z.append(4)
        c.d.e.f = "g"
        c._unset_x()
        c.d = donor.c.d
    else:
        E.assume(bool(inner))
        sub = l[ks[0]].in_.sub
        k = string(E, "inner-new")
        if E.choose("inner-op", ["add", "unset", "unset-in"]) == "add":
            attempt(sub.add, k, exc=(KeyError,))
        else:
            l[ks[0]]._unset_in_()
    exact(E, M, ph, o, before)


def fill(E, o, i, used):
    """sets something in the contents of the grouping of the module `rc`"""
    what = E.choose("what", ["list", "leaves", "choice", "two", "leaf-list", "containers", "gone", "replaced"])
    v = E.int("value", lo=0, hi=9)
    if what == "leaves":
        o.x = v
        o.ref = 7
    elif what == "choice":
        o.z.w = v
        o.z.v = v
        o.y = v
        if i:
            o.short = v
    elif what == "containers":
        o.c.y = v
        o.loose[o.loose.add()].v = v
    elif what == "leaf-list":
        o.ll = ["a", "b"]
        o.ll.append("c")
        o.ll.remove("a")
    elif what == "two":
        k = fresh(E, used)
        o.two.add(k=k, n=v)
        if i:
            o.two.delete(k=k, n=v)
    else:
        k = fresh(E, used)
        e = o.l.add(k)
        e.v = e.d.e = v
        if what == "gone":
            del o.l[k]
        if what == "replaced":
            n = o.l._new_item()
            n.d.e = v
            o.l[k] = n
            o._unset_c()
            if i:
                o._unset_l()


def fresh(E, used):
    k = string(E, "key")
    E.assume(E.And(*[E.Not(k == q) for q in used]))
    used.append(k)
    return k


def operation_data(E, M):
    """what is done to the contents of RPCs and notifications succeeds as in the data tree, and the lookups don't see it"""
    b = M.b("rc")
    ph = M.mod("xpathhelper").YANGPathHelper()
    b.rc(path_helper=ph).target = 7
    o = b.rd(path_helper=ph)
    data = {("op", "input"): o.op.input, ("op", "output"): o.op.output, ("rc_rpc", "op", "input"): o.rc_rpc.op.input, ("event",): o.event}
    if E.choose("data", [False, True]):
        o.op.input.l.add("a").d.e = 3
        o.rc_rpc.op.input.l.add("a").v = 3
        o.event.two.add(k="a", n=1)
    before = lookups(ph)
    for at, x in data.items():
        for n in ("x", "ll", "c", "y", "z", "short"):
            E.prove("the-data", identical(before["/".join(("",) + at + (n,))], [getattr(x, n)]))
        E.prove("the-data", identical(before["/".join(("",) + at + ("l",))], list(x.l.values())))
    op, event = b.yc_op_rc__rc_rpc_op(path_helper=ph), b.yc_event_rc__rc_notification_event(path_helper=ph)
    used = []
    for i in range(E.choose("steps", [1] if E.symbolic else [1, 2, 4])):
        fill(E, {"input": op.input, "output": op.output, "event": event}[E.choose("where", ["input", "output", "event"])], i or E.choose("second", [0, 1]), used)
        E.reach("filled")
    after = lookups(ph)
    for p, found in before.items():
        E.prove("the-same-elements", identical(after[p], found))


def lookups(ph):
    out = {}
    for at in ("", "/op", "/op/input", "/op/output", "/input", "/output", "/event", "/rc_rpc", "/rc_rpc/op", "/rc_rpc/op/input", "/rc_rpc/op/output", "/rc_rpc/input", "/rc_notification", "/rc_notification/event"):
        if at:
            out[at] = ph.get(at)
        for n in RC_IN:
            out[at + "/" + n] = ph.get(at + "/" + n)
    return out


def walk(o, children, prefix=(), schema=(), out=None):
    """[(path with predicates or None below a keyless list, path of names, node, object)] in document order"""
    out = [] if out is None else out
    for c, _ in S.flatten(children):
        x = getattr(o, c.safe)
        sp = schema + (c.name,)
        ip = None if prefix is None else prefix + (c.name,)
        if c.kind == "list" and not c.keys:
            continue  # nothing identifies these entries
        if c.kind == "list":
            for k, e in x.items():
                ep = None
                if c.keys and ip is not None:
                    ts = [keytext(getattr(e, q.safe)) for q in c.keys]
                    if not any(ch in t for t in ts for ch in "'\"[]()"):
                        ep = ip[:-1] + (c.name + "[" + " and ".join("%s='%s'" % (q.name, t) for q, t in zip(c.keys, ts)) + "]",)
                out.append((ep, sp, c, e))
                walk(e, c.children, ep, sp, out)
        else:
            out.append((ip, sp, c, x))
            if c.kind == "container":
                walk(x, c.children, ip, sp, out)
    return out


def keytext(v):
    return str(v)


def schema_paths(children, prefix=()):
    for c, _ in S.flatten(children):
        if c.kind == "list" and not c.keys:
            continue
        p = prefix + (c.name,)
        yield p
        if c.kind in ("container", "list"):
            yield from schema_paths(c.children, p)


def identical(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def check(E, ph, o, g, seen, r, log):
    els = walk(o, g.root.children)
    by = {}
    for ip, sp, c, x in els:
        by.setdefault(sp, []).append(x)
    bad = None
    for sp in schema_paths(g.root.children):
        got = ph.get("/" + "/".join(sp))
        if not identical(sorted(got, key=id), sorted(by.get(sp, []), key=id)):
            bad = "/%s: %d found, %d exist" % ("/".join(sp), len(got), len(by.get(sp, [])))
            break
    E.prove("all-entries" if bad is None else "all-entries: %s after %s" % (bad, log[-5:]), bad is None)
    root = ph.get("/")
    E.prove("the-root", len(root) == 1 and all(getattr(root[0], "_get_" + c.safe)() is getattr(o, c.safe) for c, _ in S.flatten(g.root.children) if c.kind != "list"))
    now = {}
    for ip, sp, c, x in els:
        if ip is not None:
            now["/" + "/".join(ip)] = x
    for p, x in now.items():
        got = ph.get(p)
        if not identical(got, [x]):
            bad = "%s: %d found, current: %s" % (p, len(got), [x is q for q in got])
            break
        if r.random() < 0.2:
            if ph.get_unique(p) is not x:
                bad = "%s: get_unique" % p
                break
            if ph.get([""] + [q for q in split(p)]) != [x] and not identical(ph.get(split(p)), [x]):
                bad = "%s: path in parts" % p
                break
    E.prove("the-current-object" if bad is None else "the-current-object: %s after %s" % (bad, log[-5:]), bad is None)
    for p in seen:
        if p not in now:
            got = ph.get(p)
            if got:
                bad = "%s: %d found" % (p, len(got))
                break
    E.prove("nothing-for-what-is-gone" if bad is None else "nothing-for-what-is-gone: %s after %s" % (bad, log[-5:]), bad is None)
    seen.update(now)


def split(p):
    out, depth = [""], 0
    for ch in p[1:]:
        depth += {"[": 1, "]": -1}.get(ch, 0)
        if ch == "/" and not depth:
            out.append("")
        else:
            out[-1] += ch
    return out


def generated(E, M):
    """random histories on random modules: every path, of the schema and of each element, before and after each step"""
    b, g, t, _, r = SETS.draw(E, M, build=False)
    ph = M.mod("xpathhelper").YANGPathHelper()
    o = getattr(b, g.p)(path_helper=ph)
    h = history.History(r, g, o)
    if E.choose("donor", [False, True]):
        h.make = lambda: getattr(b, g.p)()
    seen = {}
    check(E, ph, o, g, seen, r, [])
    for i in range(E.choose("steps", [4, 10, 20])):
        h.step()
        check(E, ph, o, g, seen, r, h.log)


HARNESSES = [
    H(operations, conc=600, models=[], covers=["added", "deleted", "replaced", "something-is-gone"], sym_s=160, shards=16),
    H(operation_data, conc=300, models=[], covers=["filled"], sym_s=60, shards=8),
    H(generated, sym=False, conc=900),
]
