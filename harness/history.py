"""Random histories of operations on a tree of generated bindings, with a model of what the tree must then hold.

The model of the data is that of harness.schema: {node: V | [V] | {..} | [{..}]}; a write to a member of a case
removes the data of the other cases of that choice, of all choices that enclose it and of those of each ancestor."""
import copy

from harness import schema as S


class Ctx:
    """a container, list entry or the top: the object and where its data is in the model"""

    def __init__(self, obj, children, parent=None, node=None, choices=(), entry=None, root=None, name=""):
        self.obj, self.children, self.parent, self.node, self.choices, self.entry, self.root = obj, children, parent, node, choices, entry, root
        self.name = name

    def d(self):
        if self.root is not None:
            return self.root
        if self.entry is not None:
            return self.entry
        return self.parent.d().get(self.node, {})

    def touch(self):
        if self.root is not None:
            return self.root
        t = self.parent.write(self.node, self.choices)
        if self.entry is not None:
            return self.entry
        return t.setdefault(self.node, {})

    def write(self, node, choices):
        """something was written at or below this child"""
        t = self.touch()
        for ch, case in choices:
            for other in ch.children:
                if other is not case:
                    for c, _ in S.flatten(other.children):
                        t.pop(c, None)
        return t

    def all(self):
        """this one and those below"""
        out = [self]
        for c, choices in S.flatten(self.children):
            x = getattr(self.obj, c.safe)
            n = "%s/%s" % (self.name, c.name)
            if c.kind == "container":
                out += Ctx(x, c.children, self, c, choices, name=n).all()
            elif c.kind == "list":
                for i, (e, m) in enumerate(zip(x.values(), self.d().get(c, []))):
                    out += Ctx(e, c.children, self, c, choices, entry=m, name="%s[%d]" % (n, i)).all()
        return out


class History:
    def __init__(self, r, g, obj, weights=None, state=True):
        self.r, self.g, self.o, self.tree = r, g, obj, {}
        self.log = []
        self.state = state
        self.weights = weights or {}

    def top(self):
        return Ctx(self.o, self.g.root.children, root=self.tree)

    def step(self):
        """one operation -> its description"""
        r = self.r
        for _ in range(50):
            cx = r.choice(self.top().all())
            nodes = [(c, ch) for c, ch in S.flatten(cx.children) if not c.iskey and (self.state or c.config)]
            if not nodes:
                continue
            c, choices = r.choice(nodes)
            w = self.weights.get(c.kind, 1.0)
            if r.random() > w:
                continue
            what = getattr(self, c.kind.replace("-", "_"))(cx, c, choices)
            if what:
                self.log.append("%s/%s %s" % (cx.name, c.name, what))
                return self.log[-1]
        return None

    # ---- leaves
    def leaf(self, cx, c, choices):
        r = self.r
        if r.random() < 0.2:
            getattr(cx.obj, "_unset_" + c.safe)()
            cx.d().pop(c, None)
            return "unset"
        v = c.default if c.default is not None and r.random() < 0.3 and c.t.accepts(c.default.val) and c.default.tag not in ("id",) else c.t.value(r)
        if v is None:
            return None
        S.setleaf(c, cx.obj, S.form(v, r))
        cx.write(c, choices)[c] = v
        return "= %r" % (v,)

    def leaf_list(self, cx, c, choices):
        r = self.r
        cur = cx.d().get(c, [])
        x = getattr(cx.obj, c.safe)
        fresh = []
        for _ in range(3):
            v = c.t.value(r)
            if v is not None and not any(S.same_val(v, q) for q in cur + fresh):
                fresh.append(v)
        op = r.choice(["assign", "append", "append", "extend", "insert", "remove", "pop", "unset", "again"])
        if op == "unset":
            getattr(cx.obj, "_unset_" + c.safe)()
            cx.d().pop(c, None)
            return op
        if op in ("assign", "append", "extend", "insert") and not fresh:
            return None
        if op in ("remove", "pop", "again") and not cur:
            return None
        if op == "assign":
            S.setleaf(c, cx.obj, [S.form(v, r) for v in fresh])
            new = fresh
        elif op == "append":
            x.append(S.form(fresh[0], r))
            new = cur + fresh[:1]
        elif op == "again":
            if c.t.kind == "union":
                return None
            x.append(S.form(r.choice(cur), r))
            new = list(cur)
        elif op == "extend":
            x.extend([S.form(v, r) for v in fresh])
            new = cur + fresh
        elif op == "insert":
            i = r.randrange(len(cur) + 1)
            x.insert(i, S.form(fresh[0], r))
            new = cur[:i] + fresh[:1] + cur[i:]
        elif op == "remove":
            i = r.randrange(len(cur))
            x.remove(list(x)[i])
            new = cur[:i] + cur[i + 1:]
        else:
            i = r.randrange(len(cur))
            x.pop(i)
            new = cur[:i] + cur[i + 1:]
        t = cx.write(c, choices)
        if new:
            t[c] = new
        else:
            t.pop(c, None)
        return "%s -> %r" % (op, new)

    # ---- containers
    def container(self, cx, c, choices):
        r = self.r
        op = r.choice(["unset", "present", "assign"])
        if op == "unset" and r.random() < 0.5:
            getattr(cx.obj, "_unset_" + c.safe)()
            cx.d().pop(c, None)
            return op
        if op == "present" and c.presence:
            getattr(cx.obj, c.safe)._set_present()
            cx.write(c, choices).setdefault(c, {})
            return op
        if op == "assign":
            src = self.donor(cx, c)
            if src is None:
                return None
            o, t = src
            S.setleaf(c, cx.obj, o)
            cx.write(c, choices)[c] = t
            return "assign another"
        return None

    def donor(self, cx, c):
        """an instance of the same element in another tree, with random data -> (object, data)"""
        r = self.r
        if self.make is None:
            return None
        o = self.make()
        path = []
        q = cx
        while q.node is not None:
            path.append(q)
            q = q.parent
        for q in reversed(path):
            if q.node.kind == "container":
                o = getattr(o, q.node.safe)
            else:
                l = getattr(o, q.node.safe)
                o = S.add_entry(q.node, q.entry, l)
        t = S.rand_tree(r, c.children, r.choice([0.3, 0.7]), self.state) if c.kind == "container" else S.rand_node(r, c, 0.5, self.state)
        if t is None:
            return None
        if c.kind == "container":
            o = getattr(o, c.safe)
            if c.presence:
                o._set_present()
            S.apply(t, o, r)
        else:
            S.apply_node(c, t, o, r)
            o = getattr(o, c.safe)
        return o, t

    make = None

    # ---- lists
    def list(self, cx, c, choices):
        r = self.r
        cur = cx.d().get(c, [])
        x = getattr(cx.obj, c.safe)
        op = r.choice(["add", "add", "add", "delete", "del", "unset", "assign", "again", "absent", "put", "put"])
        if op == "unset":
            if r.random() < 0.5:
                return None
            getattr(cx.obj, "_unset_" + c.safe)()
            cx.d().pop(c, None)
            return op
        if op == "assign":
            src = self.donor(cx, c)
            if src is None or not c.keys:
                return None
            S.setleaf(c, cx.obj, src[0])
            cx.write(c, choices)[c] = src[1]
            return "assign another of %d" % len(src[1])
        if op == "put":
            # an entry of a list of another tree: appended, or in the place of the one with its key
            src = self.donor(cx, c)
            if src is None or not c.keys:
                return None
            i = r.randrange(len(src[1]))
            o, e = list(src[0].values())[i], src[1][i]
            if cur and r.random() < 0.6:
                j = r.randrange(len(cur))
                k = list(x.keys())[j]
                if " " in str(k):
                    return None
                if len(c.keys) > 1:
                    return None
                x[k] = o
                n = {q: v for q, v in e.items() if q not in c.keys}
                n.update({q: cur[j][q] for q in c.keys})
                new = cur[:j] + [n] + cur[j + 1:]
                op = "replace entry %d" % j
            else:
                at = [j for j, q in enumerate(cur) if self.key(c, q) == self.key(c, e)]
                if len(c.keys) > 1 and any(" " in S.keytext(e[k]) for k in c.keys):
                    return None
                x.append(o)
                new = cur[:at[0]] + [e] + cur[at[0] + 1:] if at else cur + [e]
                op = "append"
            cx.write(c, choices)[c] = new
            return op
        if op == "add":
            es = S.rand_node(r, c, 0.4, self.state)
            if not es:
                return None
            e = es[0]
            if c.keys and any(self.key(c, e) == self.key(c, q) for q in cur):
                return None
            o = S.add_entry(c, e, x, r)
            S.apply(e, o, r)
            cx.write(c, choices)[c] = cur + [e]
            return "add"
        if op in ("again", "absent"):
            if not c.keys:
                return None
            if op == "again":
                if not cur:
                    return None
                k = r.choice(list(x.keys()))
                try:
                    x.add(k)
                except KeyError:
                    return "add again is refused"
                raise AssertionError("a second add of the key %r was accepted" % (k,))
            try:
                x.delete("no such key")
            except KeyError:
                return "delete of an absent key is refused"
            raise AssertionError("deleting an absent key was accepted")
        if not cur:
            return None
        i = r.randrange(len(cur))
        k = list(x.keys())[i]
        if op == "del" or not c.keys:
            del x[k]
        else:
            x.delete(k)
        new = cur[:i] + cur[i + 1:]
        t = cx.d()
        if new:
            t[c] = new
        else:
            t.pop(c, None)
        return "%s entry %d" % (op, i)

    @staticmethod
    def key(c, e):
        return " ".join(S.keytext(e[k]) for k in c.keys)


def prune(tree):
    """the data without empty non-presence containers, lists and leaf-lists"""
    out = {}
    for c, x in tree.items():
        if c.kind == "container":
            y = prune(x)
            if y or c.presence:
                out[c] = y
        elif c.kind == "list":
            if x:
                out[c] = [prune(e) for e in x]
        elif c.kind == "leaf-list":
            if x:
                out[c] = x
        else:
            out[c] = x
    return out


def changed_above(o, tree, children, path=""):
    """None, or an element that is above data and does not report itself as changed"""
    for c, x in tree.items():
        e = getattr(o, c.safe)
        if not e._changed():
            return path + "/" + c.name
        if c.kind == "container":
            p = changed_above(e, x, c.children, path + "/" + c.name)
            if p:
                return p
        elif c.kind == "list":
            for q, y in zip(e.values(), x):
                if c.keys and not q._changed():
                    return path + "/" + c.name + "[]"
                p = changed_above(q, y, c.children, path + "/" + c.name + "[]")
                if p:
                    return p
    return None


def get_filtered(d, tree, children, path=""):
    """None, or where get(filter=True) differs from the model"""
    want = {c.name: c for c in tree}
    if set(d) != set(want):
        return "%s: members %s, should be %s" % (path, sorted(d), sorted(want))
    for n, c in want.items():
        x, p = tree[c], path + "/" + n
        if c.kind == "leaf":
            if not S.same(d[n], x):
                return "%s: %r, should be %r" % (p, d[n], x)
        elif c.kind == "leaf-list":
            if len(d[n]) != len(x) or not all(S.same(a, b) for a, b in zip(d[n], x)):
                return "%s: %r, should be %r" % (p, d[n], x)
        elif c.kind == "container":
            q = get_filtered(d[n], x, c.children, p)
            if q:
                return q
        else:
            if len(d[n]) != len(x):
                return "%s: %d entries, should be %d" % (p, len(d[n]), len(x))
            for a, b in zip(d[n].values(), x):
                q = get_filtered(a, b, c.children, p + "[]")
                if q:
                    return q
    return None


def get_all(d, tree, children, obj, path=""):
    """None, or where get() differs: every leaf of each container with its value or else its default"""
    names = {c.name: c for c, _ in S.flatten(children)}
    if set(d) != set(names):
        return "%s: members %s, should be %s" % (path, sorted(d), sorted(names))
    for n, c in names.items():
        x, p = tree.get(c), path + "/" + n
        if c.kind == "leaf":
            if x is not None:
                if not S.same(d[n], x):
                    return "%s: %r, should be %r" % (p, d[n], x)
            elif c.default is not None and c.default.tag not in ("id",):
                if not S.same(d[n], c.default) and str(d[n]) != str(c.default.val):
                    return "%s: %r, should be the default %r" % (p, d[n], c.default)
        elif c.kind == "leaf-list":
            if len(d[n]) != len(x or []) or not all(S.same(a, b) for a, b in zip(d[n], x or [])):
                return "%s: %r, should be %r" % (p, d[n], x)
        elif c.kind == "container":
            q = get_all(d[n], x or {}, c.children, getattr(obj, c.safe), p)
            if q:
                return q
        else:
            if len(d[n]) != len(x or []):
                return "%s: %d entries, should be %d" % (p, len(d[n]), len(x or []))
            for a, b, o in zip(d[n].values(), x or [], getattr(obj, c.safe).values()):
                q = get_all(a, b, c.children, o, p + "[]")
                if q:
                    return q
    return None
