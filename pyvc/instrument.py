"""AST instrumentation of /repo source (and of bindings generated from it).

The *text* that is verified is the text that runs: the module's source file is
parsed on every run and only the operators whose C implementation cannot accept
a symbolic operand are rerouted through the engine's hooks:

  f(...)            -> __vc__.call(f, ...)          (models for C callables)
  a in b, a is b    -> __vc__.contains / is_        (no forced bool coercion)
  a % b             -> __vc__.mod                   (str % symbolic)
  f"..."            -> __vc__.fstring
  o[k] / o[k]=v/del -> __vc__.getitem / setitem / delitem
  {...}             -> __vc__.mkdict / mkset
  for x in it       -> for x in __vc__.iter(it, ...)
  [e for x in it]   -> __vc__.listcomp(it, lambda x: e)
  except:           -> except Exception:            (engine signals are BaseException)
  def f             -> a first statement __vc__.enter(qualname)

Everything else (classes, MRO, descriptors, exceptions, closures, generators,
name mangling, slots ...) is CPython itself.  What the rewriting drops: nothing
is removed; the mapping above is the complete list.
"""
import ast

VC = "__vc__"


def _hook(name):
    return ast.Attribute(value=ast.Name(id=VC, ctx=ast.Load()), attr=name, ctx=ast.Load())


def _callh(name, *args):
    return ast.Call(func=_hook(name), args=list(args), keywords=[])


DIRECT = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}


def assigned_names(stmts):
    """Names (plain locals) bound anywhere in a statement list (not in nested defs)."""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    v = V()
    for s in stmts:
        v.visit(s)
    return out


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.functions = []
        self.loops = 0

    # -- functions -------------------------------------------------------
    def _qual(self, name):
        return ".".join([self.modname] + self.stack + [name])

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        q = self._qual(node.name)
        self.functions.append(q)
        self.stack.append(node.name)
        doc = ast.get_docstring(node, clean=False)
        self.generic_visit(node)
        self.stack.pop()
        enter = ast.Expr(_callh("enter", ast.Constant(q)))
        if doc is not None:
            node.body.insert(1, enter)
        else:
            node.body.insert(0, enter)
        return node

    # -- calls -----------------------------------------------------------
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in DIRECT and (f.id != "dir" or not node.args):
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
            return node
        self.generic_visit(node)
        return ast.Call(func=_hook("call"), args=[node.func] + node.args, keywords=node.keywords)

    # -- comparisons -------------------------------------------------------
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            a, b = node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return _callh("contains", a, b)
            if isinstance(op, ast.NotIn):
                return _callh("not_contains", a, b)
            if isinstance(op, ast.Is):
                return _callh("is_", a, b)
            if isinstance(op, ast.IsNot):
                return _callh("is_not", a, b)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return _callh("not_", node.operand)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _callh("mod", node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                e = self.visit(v.value)
                conv = ast.Constant(chr(v.conversion) if v.conversion != -1 else "")
                spec = v.format_spec
                spec = ast.Constant("") if spec is None else spec
                parts.append(ast.Tuple(elts=[e, conv, spec], ctx=ast.Load()))
        return _callh("fstring", *parts)

    # -- subscripts --------------------------------------------------------
    def _index(self, s):
        if isinstance(s, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            return _callh("mkslice", none(s.lower), none(s.upper), none(s.step))
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _callh("getitem", node.value, self._index(node.slice))
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(_callh("setitem", t.value, self._index(t.slice), node.value))
        return node

    def visit_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Name):
            load = ast.Name(id=t.id, ctx=ast.Load())
            return self.visit(
                ast.Assign(targets=[t], value=ast.BinOp(left=load, op=node.op, right=node.value))
            ) if isinstance(node.op, ast.Mod) else self.generic_visit(node)
        self.generic_visit(node)
        if isinstance(t, ast.Subscript):
            # o[k] op= v   (o and k evaluated once)
            return ast.Expr(
                ast.Call(
                    func=_hook("augitem"),
                    args=[node.target.value, self._index(node.target.slice), node.value, ast.Constant(type(node.op).__name__)],
                    keywords=[],
                )
            )
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_callh("delitem", t.value, self._index(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    # -- displays ----------------------------------------------------------
    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[ast.Constant(None), v, ast.Constant(1)], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return _callh("mkdict", *items)

    def visit_Set(self, node):
        self.generic_visit(node)
        return _callh("mkset", *node.elts)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators
        )
        return _callh("mkdict_from", gen)

    # -- loops -------------------------------------------------------------
    def visit_For(self, node):
        names = []
        for n in assigned_names(node.body):
            if n not in names:
                names.append(n)
        tgt = assigned_names([ast.Assign(targets=[node.target], value=ast.Constant(0))])
        self.generic_visit(node)
        self.loops += 1
        lid = "%s#loop%d" % (".".join([self.modname] + self.stack), self.loops)
        node.iter = _callh(
            "iter", node.iter, ast.Constant(lid), ast.Constant(tuple(n for n in names if n not in tgt)), ast.Constant(tuple(tgt))
        )
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators[0]
        simple = len(node.generators) == 1 and isinstance(g.target, ast.Name) and not g.is_async and not g.ifs
        if simple:
            arg = ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
            return _callh("listcomp", g.iter, ast.Lambda(args=arg, body=node.elt))
        for g in node.generators:
            g.iter = _callh("compiter", g.iter)
        return node

    def _comp(self, node):
        self.generic_visit(node)
        for g in node.generators:
            g.iter = _callh("compiter", g.iter)
        return node

    visit_GeneratorExp = _comp
    visit_SetComp = _comp

    # -- except: -----------------------------------------------------------
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name(id="Exception", ctx=ast.Load())
        return node


def instrument(src, filename, modname):
    tree = ast.parse(src, filename)
    t = Instrument(modname)
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec"), t.functions
