"""Loads /repo's modules (and bindings generated by /repo's plugin) twice:
natively, and instrumented over the symbolic models."""
import builtins
import importlib
import os
import subprocess
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
VENVPY = "/opt/venv/bin/python"

INSTRUMENTED = {
    "pyangbind": None,
    "pyangbind.lib": None,
    "pyangbind.helpers": None,
    "pyangbind.lib.base": "pyangbind/lib/base.py",
    "pyangbind.lib.yangtypes": "pyangbind/lib/yangtypes.py",
    "pyangbind.lib.serialise": "pyangbind/lib/serialise.py",
    "pyangbind.lib.pybindJSON": "pyangbind/lib/pybindJSON.py",
    "pyangbind.lib.xpathhelper": "pyangbind/lib/xpathhelper.py",
    "pyangbind.helpers.identity": "pyangbind/helpers/identity.py",
    "pyangbind.helpers.misc": "pyangbind/helpers/misc.py",
    "pyangbind.plugin": None,
    "pyangbind.plugin.pybind": "pyangbind/plugin/pybind.py",
}


def native(name):
    """the real module, imported from REPO"""
    if REPO not in sys.path or sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    m = importlib.import_module(name)
    f = getattr(m, "__file__", "") or ""
    if not f.startswith(REPO):
        raise RuntimeError("%s imported from %s, not from %s" % (name, f, REPO))
    return m


class GhostText:
    """assumed contract of json.dumps: the text is that of the tree, encoded by cls"""

    def __init__(self, tree, cls=None, indent=None):
        self.tree, self.cls, self.indent = tree, cls, indent


class SymWorld:
    """namespace of instrumented modules over the models"""

    def __init__(self):
        from . import models as m

        self.m = m
        self.mods = {}
        self.packages = {}  # bindings in a directory: name -> its directory
        self.functions = []
        self.builtins = m.make_builtins(self._import)
        self.hooks = m.make_hooks()
        self.shims = self._shims()
        self.sources = {}

    def _shims(self):
        m = self.m
        import collections, decimal, base64, uuid, regex, re, copy

        col = types.ModuleType("collections")
        col.__dict__.update(vars(collections))
        col.OrderedDict = m.VODict
        dec = types.ModuleType("decimal")
        dec.__dict__.update(vars(decimal))
        dec.Decimal = m.VDecimal
        b64 = types.ModuleType("base64")
        b64.__dict__.update(vars(base64))
        b64.b64encode = m.b64encode
        b64.b64decode = m.b64decode
        uu = types.ModuleType("uuid")
        uu.__dict__.update(vars(uuid))
        uu.uuid1 = m.UUIDStub
        uu.uuid4 = m.UUIDStub
        import json

        js = types.ModuleType("json")
        js.__dict__.update(vars(json))
        js.dumps = GhostText  # the text that json.dumps writes of a tree stands for the tree
        from . import xmlghost

        return {
            **xmlghost.modules(),
            "json": js,
            "collections": col, "decimal": dec, "base64": b64, "uuid": uu,
            "regex": m.regex_shim(regex), "re": m.regex_shim(re),
        }

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            name = base + ("." + name if name else "")
            if base in self.packages and name == base:
                for f in fromlist:
                    if base + "." + f not in self.mods:  # as the import system does
                        self.load(base + "." + f, os.path.join(self.packages[base], f, "__init__.py"))
                return self.mods[base]
        if name in self.shims:
            return self.shims[name]
        if name.startswith("pyangbind"):
            if name in INSTRUMENTED:
                mod = self.module(name)
                parts = name.split(".")
                for i in range(1, len(parts)):  # as the import system does
                    setattr(self.module(".".join(parts[:i])), parts[i], self.module(".".join(parts[: i + 1])))
                if not fromlist:
                    return self.module(name.split(".")[0])
                for f in fromlist:
                    sub = name + "." + f
                    if sub in INSTRUMENTED and not hasattr(mod, f):
                        setattr(mod, f, self.module(sub))
                return mod
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = INSTRUMENTED[name]
        if rel is None:
            mod = types.ModuleType(name)
            mod.__path__ = []
            self.mods[name] = mod
            return mod
        path = os.path.join(REPO, rel)
        return self.load(name, path)

    def load(self, name, path, src=None):
        from .instrument import instrument

        if src is None:
            src = open(path).read()
        code, fns = instrument(src, path, name)
        self.functions += fns
        mod = types.ModuleType(name)
        mod.__dict__["__builtins__"] = self.builtins
        mod.__dict__["__vc__"] = self.hooks
        mod.__file__ = path
        mod.__package__ = name.rsplit(".", 1)[0] if "." in name else ""
        if os.path.basename(path) == "__init__.py":
            mod.__package__ = name
            self.packages[name] = os.path.dirname(path)
        self.mods[name] = mod
        exec(code, mod.__dict__)
        if "." in name:
            p, c = name.rsplit(".", 1)
            if p in self.mods:
                setattr(self.mods[p], c, mod)
        return mod


class NativeWorld:
    def __init__(self):
        self.mods = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        return native(name)

    def load(self, name, path, src=None):
        if src is None:
            src = open(path).read()
        native("pyangbind.lib.yangtypes")
        if os.path.basename(path) == "__init__.py":
            return self.package(name, path)
        mod = types.ModuleType(name)
        mod.__file__ = path
        self.mods[name] = mod
        exec(compile(src, path, "exec"), mod.__dict__)
        return mod


    def package(self, name, path):
        import importlib.util

        spec = importlib.util.spec_from_file_location("vcbindings_" + name, path, submodule_search_locations=[os.path.dirname(path)])
        mod = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = mod
        self.mods[name] = mod
        spec.loader.exec_module(mod)
        return mod


class GenError(Exception):
    pass


def generate(yang_files, flags=(), outdir=None, out="bindings.py", path=None, timeout=120):
    """run the real plugin from REPO; returns the path of the bindings"""
    out = os.path.join(outdir, out)
    cmd = [VENVPY, "-B", os.path.join(os.path.dirname(VENVPY), "pyang"), "--plugindir", os.path.join(REPO, "pyangbind/plugin"), "-f", "pybind"]
    if path:
        cmd += ["-p", path]
    if "--split-class-dir" in flags:
        out = os.path.join(out[:-3], "__init__.py")
        flags = [f for f in flags if f != "--split-class-dir"]
        cmd += flags + ["--split-class-dir", os.path.dirname(out)]
    else:
        cmd += ["-o", out] + list(flags)
    cmd += list(yang_files)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=timeout, cwd=outdir)
    if r.returncode != 0 or not os.path.exists(out):
        raise GenError("binding generation failed (%d): %s" % (r.returncode, (r.stderr or r.stdout)[-3000:]))
    return out


class World:
    """what a harness sees as M: .mod(name), .bindings(name) in either world"""

    def __init__(self, symbolic):
        self.symbolic = symbolic
        self.w = SymWorld() if symbolic else NativeWorld()
        self._b = {}

    def mod(self, short):
        full = {
            "yangtypes": "pyangbind.lib.yangtypes", "base": "pyangbind.lib.base", "serialise": "pyangbind.lib.serialise",
            "pybindJSON": "pyangbind.lib.pybindJSON", "xpathhelper": "pyangbind.lib.xpathhelper",
            "identity": "pyangbind.helpers.identity", "misc": "pyangbind.helpers.misc", "pybind": "pyangbind.plugin.pybind",
        }[short]
        return self.w.module(full)

    @property
    def yt(self):
        return self.mod("yangtypes")

    @property
    def ser(self):
        return self.mod("serialise")

    @property
    def pj(self):
        return self.mod("pybindJSON")

    def builtin(self, n):
        if self.symbolic:
            m = self.w.m
            return {"int": m.VInt, "str": m.VStr, "bytes": m.VBytes, "Decimal": m.VDecimal, "dict": m.VDict, "OrderedDict": m.VODict, "bool": m.VBoolType}[n]
        import decimal, collections

        return {"int": int, "str": str, "bytes": bytes, "Decimal": decimal.Decimal, "dict": dict, "OrderedDict": collections.OrderedDict, "bool": bool}[n]

    # -- what the oracles ask of a value, in either world
    def is_int(self, x):
        if self.symbolic:
            m = self.w.m
            return not isinstance(x, bool) and type(x) is not m.VBool and (type(x) is int or type(x) is m.VInt)
        return type(x) is int

    def is_str(self, x):
        if self.symbolic:
            m = self.w.m
            return type(x) is str or type(x) is m.VStr
        return type(x) is str

    def b64decode(self, x):
        import base64

        return self.w.m.b64decode(x) if self.symbolic else base64.b64decode(x, validate=True)

    def decimal_text(self, x, d):
        """x is the text, without exponent, of the decimal d"""
        import re
        from decimal import Decimal

        if self.symbolic:
            m = self.w.m
            p = m.str_parts(x)
            if len(p) == 1 and type(p[0]) is m.DecText:
                return m.mkbool(p[0].value() == m.real_term(d))
            if len(p) == 1 and type(p[0]) is m.Num:
                return m.mkbool(m.real_term(m.mkint(p[0].t)) == m.real_term(d))
            x = m.lower(x)
            return bool(re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", x)) and d == Decimal(x)
        return bool(re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", x)) and Decimal(x) == d

    def bindings(self, name, path):
        k = (name, path)
        if k not in self._b:
            self._b[k] = self.w.load(name, path)
        return self._b[k]


def preload():
    """make sure the real modules come from REPO"""
    for n in ("pyangbind.lib.yangtypes", "pyangbind.lib.serialise", "pyangbind.lib.pybindJSON", "pyangbind.lib.xpathhelper"):
        native(n)
