"""Restores the mutable module-level state of the code under test before every
path, so that a path is a function of its decisions only."""
import importlib
import re
import sys
import types

_CONT = (dict, list, set)
_NAMES = re.compile(r"""\bmod\(\s*["'](mahjong[\w.]*)["']""")


def preload():
    """imports the modules of the project that the loaded harnesses name, so that their state at the
    start of every path is the one right after loading them"""
    for name, mod in sorted(sys.modules.items()):
        if name.split(".")[0] == "props" and getattr(mod, "__file__", None):
            with open(mod.__file__, encoding="utf-8") as f:
                for n in sorted(set(_NAMES.findall(f.read()))):
                    try:
                        importlib.import_module(n)
                    except Exception:
                        pass        # the path that needs it reports it


class State:
    def __init__(self):
        self.saved = []
        self.caches = []

    def capture(self, roots=("mahjong", "props")):
        self.saved = []
        self.caches = []
        seen = {}        # id -> object: kept alive, so that no id is used twice
        for name, mod in list(sys.modules.items()):
            if mod is None or name.split(".")[0] not in roots:
                continue
            self._dict(mod.__dict__, seen, roots, module=True)

    def _dict(self, d, seen, roots, module=False):
        if id(d) in seen:
            return
        seen[id(d)] = d
        self.saved.append((_Mod(d), dict(d)))
        for k, v in list(d.items()):
            if module and k.startswith("__"):
                continue
            self._obj(v, seen, roots)

    def _obj(self, v, seen, roots):
        if isinstance(v, (int, str, float, bytes, type(None), types.ModuleType)):
            return
        if id(v) in seen:
            return
        t = type(v)
        if isinstance(v, dict):
            seen[id(v)] = v
            try:
                self.saved.append((v, dict(v)))
            except Exception:
                return
            for k, x in list(v.items()):
                self._obj(x, seen, roots)
            if t is not dict:
                self._inst(v, seen, roots)
            return
        if isinstance(v, list):
            seen[id(v)] = v
            self.saved.append((v, list(v)))
            for x in list(v):
                self._obj(x, seen, roots)
            return
        if isinstance(v, set):
            seen[id(v)] = v
            self.saved.append((v, list(v)))
            return
        if isinstance(v, tuple):
            seen[id(v)] = v
            for x in v:
                self._obj(x, seen, roots)
            return
        if hasattr(v, "cache_clear"):
            seen[id(v)] = v
            if not (getattr(v, "__module__", None) or "").startswith("props"):
                self.caches.append(v)       # caches of the harnesses hold pure functions of plain values
            w = getattr(v, "__wrapped__", None)
            if w is not None:
                self._obj(w, seen, roots)
            return
        if isinstance(v, types.FunctionType):
            if (v.__module__ or "").split(".")[0] not in roots:
                # closures of helpers defined elsewhere (wraps) may still hold project objects
                if not v.__closure__:
                    return
            seen[id(v)] = v
            for x in (v.__defaults__ or ()):
                self._obj(x, seen, roots)
            for c in (v.__closure__ or ()):
                try:
                    self._obj(c.cell_contents, seen, roots)
                except ValueError:
                    pass
            if v.__dict__:
                self._dict(v.__dict__, seen, roots)
            return
        if isinstance(v, (staticmethod, classmethod)):
            self._obj(v.__func__, seen, roots)
            return
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                if f is not None:
                    self._obj(f, seen, roots)
            return
        if isinstance(v, type):
            if v.__module__.split(".")[0] not in roots:
                return
            seen[id(v)] = v
            snap = {}
            for k, x in list(vars(v).items()):
                if k.startswith("__") and k not in ("__init__", "__new__", "__hash__", "__eq__", "__lt__", "__str__"):
                    continue
                snap[k] = x
                self._obj(x, seen, roots)
            self.saved.append((v, snap))
            return
        if isinstance(v, types.MethodType):
            self._obj(v.__self__, seen, roots)
            self._obj(v.__func__, seen, roots)
            return
        if t.__module__.split(".")[0] in roots:
            seen[id(v)] = v
            self._inst(v, seen, roots)

    def _inst(self, v, seen, roots):
        d = getattr(v, "__dict__", None)
        if isinstance(d, dict) and id(d) not in seen:
            seen[id(d)] = d
            self.saved.append((_Inst(v), dict(d)))
            for x in list(d.values()):
                self._obj(x, seen, roots)

    def restore(self):
        for c in self.caches:
            c.cache_clear()
        for obj, snap in self.saved:
            if isinstance(obj, dict):
                _restore_dict(obj, snap)
            elif isinstance(obj, list):
                if len(obj) != len(snap) or any(a is not b for a, b in zip(obj, snap)):
                    obj[:] = snap
            elif isinstance(obj, set):
                obj.clear()
                obj.update(snap)
            elif isinstance(obj, _Mod):
                _restore_keys(obj.v, snap)
            elif isinstance(obj, _Inst):
                _restore_dict(obj.v.__dict__, snap)
            else:
                cur = vars(obj)
                for k, x in snap.items():
                    if cur.get(k) is not x:
                        try:
                            setattr(obj, k, x)
                        except (AttributeError, TypeError):
                            pass
                for k in list(cur):
                    if k not in snap and not k.startswith("__") and not k.startswith("_abc"):
                        try:
                            delattr(obj, k)
                        except (AttributeError, TypeError):
                            pass


class _Inst:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def _restore_dict(d, snap):
    if len(d) == len(snap):
        same = True
        for (k, v), (k2, v2) in zip(dict.items(d), snap.items()):
            if k is not k2 or v is not v2:
                same = False
                break
        if same:
            return
    dict.clear(d)
    dict.update(d, snap)


class _Mod(_Inst):
    pass


def _restore_keys(d, snap):
    for k, v in snap.items():
        if d.get(k, _MISSING) is not v:
            d[k] = v
    if len(d) != len(snap):
        for k in [k for k in d if k not in snap]:
            del d[k]


_MISSING = object()
