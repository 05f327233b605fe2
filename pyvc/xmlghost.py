"""Assumed contract on lxml for the symbolic runs: elements with a namespace, a local
name, text and children.  Only the calls below are specified; anything else is
outside the subset.  The contract is exercised against the real lxml by the bounded
sweeps of the same properties."""
import types

from .engine import Unsupported


def split_tag(tag):
    if tag.startswith("{"):
        ns, _, n = tag[1:].partition("}")
        return ns, n
    return None, tag


class Element:
    def __init__(self, ns, name, nsmap=None):
        self.ghost_ns, self.ghost_name, self.ghost_nsmap = ns, name, dict(nsmap or {})
        self.ghost_children, self.ghost_text, self.ghost_parent = [], None, None

    # -- building
    def append(self, el):
        # lxml drops declarations of namespaces that the new parent has in scope
        scope = set(self.nsmap.values())
        el.ghost_nsmap = {p: n for p, n in el.ghost_nsmap.items() if n not in scope}
        self.ghost_adopt(el)

    def ghost_adopt(self, el):
        el.ghost_parent = self
        self.ghost_children.append(el)

    def _setText(self, text):
        self.ghost_text = text

    # -- reading
    @property
    def nsmap(self):
        m = dict(self.ghost_parent.nsmap) if self.ghost_parent is not None else {}
        m.update(self.ghost_nsmap)
        return m

    @property
    def tag(self):
        return "{%s}%s" % (self.ghost_ns, self.ghost_name) if self.ghost_ns else self.ghost_name

    @property
    def text(self):
        # the parser reports no text for an empty element
        if self.ghost_text is None or self.ghost_text == "":
            return None
        return self.ghost_text

    def getchildren(self):
        return list(self.ghost_children)

    def iterchildren(self):
        return iter(list(self.ghost_children))

    def __getitem__(self, k):
        if type(k) is not str:
            raise Unsupported("lxml element index")
        ns, n = split_tag(k)
        for c in self.ghost_children:
            if c.ghost_name == n and c.ghost_ns == (ns or self.ghost_ns):
                return c
        raise AttributeError("no such child: %s" % k)

    def find(self, k):
        ns, n = split_tag(k)
        for c in self.ghost_children:
            if c.ghost_name == n and c.ghost_ns == ns:
                return c
        return None

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("lxml element attribute %s" % k)


class ElementMaker:
    def __init__(self, annotate=True, namespace=None, nsmap=None, **kw):
        if kw:
            raise Unsupported("ElementMaker options")
        self.ghost_ns, self.ghost_nsmap = namespace, dict(nsmap or {})

    def __call__(self, tag, *children):
        el = Element(self.ghost_ns, tag, self.ghost_nsmap)
        for c in children:
            if isinstance(c, Element):
                el.append(c)
            else:
                el.ghost_text = c if el.ghost_text is None else el.ghost_text + c
        return el


class QName:
    def __init__(self, el, tag=None):
        if tag is not None or not isinstance(el, Element):
            raise Unsupported("QName of something else than an element")
        self.namespace, self.localname, self.text = el.ghost_ns, el.ghost_name, el.tag


def SubElement(parent, tag, attrib=None, nsmap=None, **extra):
    if attrib or extra:
        raise Unsupported("attributes")
    ns, n = split_tag(tag)
    el = Element(ns, n, nsmap)
    parent.ghost_adopt(el)
    return el


class Node:
    """etree.Element as the path helper uses it: a tag, attributes, children, and XPath with steps of
    names, `.` and `..`, and predicates that compare attributes with quoted text"""

    def __init__(self, tag, attrib=None, **extra):
        if attrib:
            raise Unsupported("attributes of an element in a dict")
        self.tag, self.ghost_attrs, self.ghost_children, self.ghost_parent = ghost_str(tag), dict(extra), [], None

    def set(self, k, v):
        self.ghost_attrs[ghost_str(k)] = v

    def get(self, k, default=None):
        return self.ghost_attrs.get(ghost_str(k), default)

    def getparent(self):
        return self.ghost_parent

    def remove(self, el):
        for i, c in enumerate(self.ghost_children):
            if c is el:
                del self.ghost_children[i]
                el.ghost_parent = None
                return
        raise ValueError("Element is not a child of this node.")

    def append(self, el):
        if el.ghost_parent is not None:
            el.ghost_parent.remove(el)
        el.ghost_parent = self
        self.ghost_children.append(el)

    def __iter__(self):
        return iter(list(self.ghost_children))

    def __len__(self):
        return len(self.ghost_children)

    def getchildren(self):
        return list(self.ghost_children)

    def iterchildren(self):
        return iter(list(self.ghost_children))

    def iter(self):
        yield self
        for c in list(self.ghost_children):
            yield from c.iter()

    def xpath(self, expr):
        steps = ghost_steps(expr)
        if steps is None:
            return []
        cur = [self]
        for name, preds in steps:
            nxt = []
            for n in cur:
                if name == ".":
                    found = [n]
                elif name == "..":
                    found = [n.ghost_parent] if n.ghost_parent is not None else []
                else:
                    found = [c for c in n.ghost_children if c.tag == name]
                for f in found:
                    if all(ghost_has(f, k, v) for k, v in preds) and not any(f is x for x in nxt):
                        nxt.append(f)
            cur = nxt
        if any(name == ".." for name, _ in steps):
            order = {id(n): i for i, n in enumerate(ghost_root(self).iter())}
            cur.sort(key=lambda n: order[id(n)])
        return cur

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("lxml element attribute %s" % k)


def ghost_root(n):
    while n.ghost_parent is not None:
        n = n.ghost_parent
    return n


def ghost_str(k):
    from . import models

    k = models.lower(k)
    if not isinstance(k, str):
        raise Unsupported("symbolic name of an attribute")
    return k


def ghost_has(node, k, parts):
    from . import models

    return k in node.ghost_attrs and bool(node.ghost_attrs[k] == models.mkstr(parts))


def ghost_steps(expr):
    """[(name, [(attribute, parts of the text)])]"""
    from . import models

    items = []
    for p in models.str_parts(expr):
        items.extend(p if isinstance(p, str) else [[p]])  # a list: equal to no character
    if items == ["/"]:
        return None  # lxml: the document is no element
    if items[:1] != ["."]:
        raise Unsupported("an XPath that does not begin with .")
    steps, name, i, n = [], "", 0, len(items)
    preds = []

    def flush():
        if not name:
            raise Unsupported("an empty step in an XPath")
        steps.append((name, preds))

    while i < n:
        c = items[i]
        if not isinstance(c, str):
            raise Unsupported("a symbolic step in an XPath")
        if c == "/":
            flush()
            name, preds = "", []
        elif c == "[":
            i += 1
            more = True
            while more:
                while items[i] == " ":
                    i += 1
                if items[i] != "@":
                    raise Unsupported("a predicate that does not compare an attribute")
                i, k = i + 1, ""
                while isinstance(items[i], str) and (items[i].isalnum() or items[i] in "-_."):
                    k += items[i]
                    i += 1
                if not k or items[i] != "=" or items[i + 1] not in ("'", '"'):
                    raise Unsupported("a predicate that does not compare an attribute with text")
                q, v = items[i + 1], []
                i += 2
                while items[i] != q:
                    x = items[i]
                    if not isinstance(x, str):
                        x = x[0]
                        if not models._part_lacks(x, q):
                            raise Unsupported("a key that may have quotes")
                    v.append(x)
                    i += 1
                    if i >= n:
                        raise Unsupported("an unterminated text in an XPath")
                preds.append((k, v))
                i += 1
                while items[i] == " ":
                    i += 1
                more = items[i:i + 3] == list("and")
                i += 3 if more else 0
            if items[i] != "]":
                raise Unsupported("an XPath predicate")
        elif c.isalnum() or c in "-_.":
            name += c
        else:
            raise Unsupported("%r in an XPath" % c)
        i += 1
    flush()
    return steps


def ENodeSub(parent, tag, attrib=None, **extra):
    if not isinstance(parent, Node):
        return SubElement(parent, tag, attrib, **extra)
    el = Node(tag, attrib, **extra)
    parent.append(el)
    return el


def modules():
    def missing(k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("lxml.%s" % k)

    o = types.ModuleType("lxml.objectify")
    o.ElementMaker, o.SubElement, o.ObjectifiedElement, o.__getattr__ = ElementMaker, SubElement, Element, missing
    e = types.ModuleType("lxml.etree")
    e.QName, e.Element, e.SubElement, e.__getattr__ = QName, Node, ENodeSub, missing
    p = types.ModuleType("lxml")
    p.__path__ = []
    p.objectify, p.etree = o, e
    return {"lxml": p, "lxml.objectify": o, "lxml.etree": e}
