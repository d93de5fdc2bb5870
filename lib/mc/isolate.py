"""Putting the library's own module and class level state back to what it was right
after import, so that each execution starts as in a fresh process."""
import sys
import types

SCALARS = (int, long, float, bool, str, unicode, tuple, type(None))
CONTAINERS = (list, dict, set)


class Snapshot(object):
    def __init__(self, prefix='pyogp'):
        self.values = []       # (owner, {attribute: value})
        self.contents = []     # (container, copy)
        seen = set()
        for name in sorted(sys.modules):
            m = sys.modules[name]
            if m is None or not name.startswith(prefix):
                continue
            self.owner(m, seen)
            for v in vars(m).values():
                if isinstance(v, (type, types.ClassType)) and getattr(v, '__module__', None) == name:
                    self.owner(v, seen)
                    for f in vars(v).values():
                        self.function(f, seen)
                else:
                    self.function(v, seen)

    def owner(self, o, seen):
        d = {}
        for k, v in vars(o).items():
            if k.startswith('__') and k.endswith('__'):
                continue
            if isinstance(v, SCALARS + CONTAINERS):
                d[k] = v
                self.content(v, seen)
        self.values.append((o, d))

    def function(self, f, seen):
        f = getattr(f, '__func__', f)
        if isinstance(f, types.FunctionType):
            for v in f.func_defaults or ():
                self.content(v, seen)

    def content(self, v, seen):
        if isinstance(v, CONTAINERS) and id(v) not in seen:
            seen.add(id(v))
            self.contents.append((v, type(v)(v)))
            for x in (v.values() if isinstance(v, dict) else v):
                self.content(x, seen)

    def restore(self):
        for o, d in self.values:
            for k, v in vars(o).items():
                if k.startswith('__') or not isinstance(v, SCALARS + CONTAINERS):
                    continue
                if k not in d:
                    delattr(o, k)
            for k, v in d.items():
                if vars(o).get(k) is not v:
                    setattr(o, k, v)
        for v, c in self.contents:
            if v != c:
                if isinstance(v, list):
                    v[:] = c
                else:
                    v.clear()
                    v.update(c)
