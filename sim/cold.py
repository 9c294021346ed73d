"""Cold start: puts philtorch's module-level mutable state (globals, containers,
caches, function and class attributes) back to what it was right after import,
so that a run is a function of its plan alone and first-time paths are met in
every run and not once per process."""
import collections.abc, functools, sys, threading, types
import torch

_SNAP = None


def _ours(name):
    return isinstance(name, str) and (name == "philtorch" or name.startswith("philtorch.")) and not name.endswith("._C")


def _walk():
    """every philtorch-owned object that can hold state, once each"""
    seen, todo = set(), []
    for n in sorted(sys.modules):
        m = sys.modules[n]
        if _ours(n) and isinstance(m, types.ModuleType):
            todo.append(m)
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        yield o
        if isinstance(o, types.ModuleType):
            todo += [v for k, v in list(vars(o).items()) if not (k.startswith("__") and k != "__all__") and not isinstance(v, types.ModuleType)]
        elif isinstance(o, (types.FunctionType, type)) or hasattr(o, "__wrapped__"):
            if not _ours(getattr(o, "__module__", None)):
                continue
            if isinstance(o, types.FunctionType):
                todo += list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values())
                for c in o.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
                todo += list(vars(o).values())
            elif isinstance(o, type):
                todo += [v for k, v in list(vars(o).items()) if k not in ("__dict__", "__weakref__", "__doc__")]
            else:
                todo.append(o.__wrapped__)
        elif isinstance(o, (staticmethod, classmethod)):
            todo.append(o.__func__)
        elif isinstance(o, property):
            todo += [f for f in (o.fget, o.fset, o.fdel) if f is not None]
        elif isinstance(o, functools.partial):
            todo += [o.func, *o.args, *o.keywords.values()]
        elif _ours(getattr(type(o), "__module__", None)):
            todo += list(getattr(o, "__dict__", {}).values())


_SKIP = {"__builtins__", "__cached__", "__spec__", "__loader__", "__doc__", "__file__", "__path__", "__package__", "__name__",
         "__weakref__", "__dict__", "__module__", "__qualname__"}


def _take(o):
    """-> restore function or None"""
    if isinstance(o, types.ModuleType):
        d = {k: v for k, v in vars(o).items() if k not in _SKIP}

        def back():
            cur = vars(o)
            for k in [k for k in cur if k not in d and k not in _SKIP and not isinstance(cur[k], types.ModuleType)]:
                del cur[k]
            for k, v in d.items():
                if cur.get(k, back) is not v:
                    cur[k] = v
        return back
    if isinstance(o, torch.Tensor):
        if o.numel() > 1 << 20:
            return None
        c = o.detach().clone()

        def back():
            with torch.no_grad():
                if o.shape != c.shape or not torch.equal(torch.view_as_real(o) if o.is_complex() else o, torch.view_as_real(c) if c.is_complex() else c):
                    o.set_(c.clone())
        return back
    if isinstance(o, dict):
        d = dict(o)

        def back():
            if len(o) != len(d) or any(k not in d or d[k] is not v for k, v in o.items()):
                o.clear()
                o.update(d)
        return back
    if isinstance(o, list):
        d = list(o)

        def back():
            if len(o) != len(d) or any(x is not y for x, y in zip(o, d)):
                o[:] = d
        return back
    if isinstance(o, set):
        d = set(o)

        def back():
            if o != d:
                o.clear()
                o.update(d)
        return back
    if isinstance(o, (collections.abc.MutableMapping, collections.abc.MutableSet)):
        d = list(o.items()) if isinstance(o, collections.abc.MutableMapping) else list(o)

        def back():
            o.clear()
            for x in d:
                if isinstance(o, collections.abc.MutableMapping):
                    o[x[0]] = x[1]
                else:
                    o.add(x)
        return back
    if hasattr(o, "cache_clear") and _ours(getattr(o, "__module__", None)):
        return o.cache_clear
    if isinstance(o, threading.local):
        d = dict(vars(o))

        def back():
            vars(o).clear()
            vars(o).update(d)
        return back
    if isinstance(o, types.FunctionType) and _ours(o.__module__):
        d, df, kd = dict(vars(o)), o.__defaults__, o.__kwdefaults__
        cells = []
        for c in o.__closure__ or ():
            try:
                cells.append((c, c.cell_contents))
            except ValueError:
                pass

        def back():
            if vars(o) != d:
                vars(o).clear()
                vars(o).update(d)
            o.__defaults__, o.__kwdefaults__ = df, kd
            for c, v in cells:
                if c.cell_contents is not v:
                    c.cell_contents = v
        return back
    if isinstance(o, type) and _ours(o.__module__):
        d = {k: v for k, v in vars(o).items() if k not in _SKIP}

        def back():
            for k in [k for k in vars(o) if k not in d and k not in _SKIP and not k.startswith("_abc")]:
                try:
                    delattr(o, k)
                except (AttributeError, TypeError):
                    pass
            for k, v in d.items():
                if vars(o).get(k, back) is not v:
                    try:
                        setattr(o, k, v)
                    except (AttributeError, TypeError):
                        pass
        return back
    if _ours(getattr(type(o), "__module__", None)) and hasattr(o, "__dict__"):
        d = dict(vars(o))

        def back():
            vars(o).clear()
            vars(o).update(d)
        return back
    return None


def snapshot():
    global _SNAP
    _SNAP = [f for f in map(_take, list(_walk())) if f is not None]


def reset():
    if _SNAP is not None:
        for f in _SNAP:
            f()
