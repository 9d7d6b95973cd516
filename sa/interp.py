"""Abstract interpreter: Python AST -> value graph (see terms.py).

One abstract state per program point.  Branches are joined with `ite` nodes,
loops over unknown ranges are summarised by recurrence nodes, calls inside the
package are inlined context-sensitively, library calls are uninterpreted unless
listed in libmodel.py.  Nothing of the analysed program is imported or executed.
"""
import ast
import builtins
import os

from . import terms as T
from .terms import N, NONE, TRUE, FALSE, ZERO, ONE, IX, mk, num, string, sym

UNROLL = 400


class AnalysisError(Exception):
    pass


class Missing(AnalysisError):
    """a public anchor is gone"""


# ---- values -------------------------------------------------------------
class V:
    __slots__ = ()


class ArrV(V):
    """immutable array value: content as a node over index symbols"""
    __slots__ = ("content", "lens")

    def __init__(self, content, lens):
        self.content, self.lens = content, tuple(lens)

    def __repr__(self):
        return "Arr<%s | %s>" % (self.content, self.lens)


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, id_):
        self.id = id_

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "Ref#%s" % (self.id,)


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class NtV(Tup):
    """named tuple"""
    __slots__ = ("cls",)

    def __init__(self, cls, items):
        self.cls, self.items = cls, tuple(items)


class PyV(V):
    """immutable library object computed from constants (path, compiled pattern, match)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, PyV) and self.v == o.v

    def __hash__(self):
        return hash(("py", self.v))

    def __repr__(self):
        return "Py(%r)" % (self.v,)


class CmV(V):
    """pending @contextmanager call"""
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class SupV(V):
    """contextlib.suppress(...)"""
    __slots__ = ("types",)

    def __init__(self, types):
        self.types = types


class FuncV(V):
    __slots__ = ("node", "mod", "cls", "closure", "defaults", "name", "kind", "frame", "setter", "deleter", "cm", "cached")

    def __init__(self, node, mod, cls=None, closure=None, kind=None):
        self.node, self.mod, self.cls, self.closure = node, mod, cls, closure
        self.defaults = None
        self.name = getattr(node, "name", "<lambda>")
        self.kind = kind
        self.frame = None       # activation of the function the definition is nested in
        self.setter = self.deleter = None
        self.cm = self.cached = False

    def like(self):
        f = FuncV(self.node, self.mod, self.cls, self.closure, self.kind)
        for k in ("defaults", "name", "frame", "setter", "deleter", "cm", "cached"):
            setattr(f, k, getattr(self, k))
        return f

    def __repr__(self):
        return "Func(%s)" % self.qual()

    def qual(self):
        return "%s.%s%s" % (self.mod.name, self.cls.name + "." if self.cls else "", self.name)


class BoundV(V):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class ClassV(V):
    def __init__(self, name, mod, bases, node):
        self.name, self.mod, self.bases, self.node = name, mod, bases, node
        self.attrs = {}
        self.fields = None              # dataclass fields: [(name, default AST or None, factory?)]
        self.nt = None                  # named tuple: field names
        self.ntdef = {}
        self.members = None             # enum: member names
        self.ns = self.eng = None       # heap object holding the class attributes, once one is rebound

    def own(self, name):
        """class attribute, as last rebound in the current state"""
        if self.ns is not None:
            o = self.eng.st.heap.get(self.ns.id)
            if o is not None and name in o.attrs:
                return o.attrs[name]
        return self.attrs.get(name)

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            v = c.own(name)
            if v is not None:
                return v
        return None

    def __repr__(self):
        return "Class(%s.%s)" % (self.mod.name, self.name)


def bindings(nodes, deep):
    """names bound in the statements; without `deep` only those of the outermost scope (and `global` ones)"""
    out = set()
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            if not deep:
                out |= {x for y in ast.walk(n) if isinstance(y, ast.Global) for x in y.names}
                continue
        elif isinstance(n, ast.Lambda) and not deep:
            continue
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split(".")[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            out |= set(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        todo += list(ast.iter_child_nodes(n))
    return out | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__class__"}


class ModV(V):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.env = {}
        self.loaded = False
        self.ns = None
        self.tree = self.bound = None

    def __repr__(self):
        return "Mod(%s)" % self.name


class ExtV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class PartialV(V):
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class VecV(V):
    def __init__(self, func):
        self.func = func


class MethV(V):
    """method of a built-in/unknown object"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "Meth(%r.%s)" % (self.obj, self.name)


class Indexer(V):
    def __init__(self, obj, kind):
        self.obj, self.kind = obj, kind


class FileV(V):
    """an open file"""
    def __init__(self, path, raw, mode):
        self.path, self.raw, self.mode, self.pos = path, raw, mode, 0

    def __repr__(self):
        return "File(%s)" % (self.path,)


class PoolV(V):
    """concurrent.futures executor"""
    def __init__(self, process):
        self.process = process


class FutureV(V):
    """submitted call: its value, or the fact that it raised"""
    def __init__(self, value, failed, names=None):
        self.value, self.failed, self.names = value, failed, names


class RandV(V):
    """random number source: quasi-random sampler of dimension d, or a generator (d None)"""
    def __init__(self, d=None, seed=None):
        self.d, self.seed, self.count = d, seed, 0


class SliceV(V):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV(V):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class ViewV(V):
    """dict view / enumerate / zip / itertuples ... : lazily iterated"""
    def __init__(self, kind, obj, extra=None):
        self.kind, self.obj, self.extra = kind, obj, extra


class CompV(V):
    """comprehension over a symbolic domain: elements `val` for `var` in dom if cond"""
    def __init__(self, dom, val, cond):
        self.dom, self.val, self.cond = dom, val, cond


class SuperV(V):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


LOGGING = ("debug", "info", "warning", "error", "critical", "exception", "log", "warn", "print")


class Watch(list):
    """argument list that knows which positions were looked at"""

    def __init__(self, items):
        list.__init__(self, items)
        self.seen = set()

    def unread(self):
        return [i for i in range(len(self)) if i not in self.seen]

    def all(self):
        self.seen.update(range(len(self)))
        return list(list.__iter__(self))

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.seen.update(range(*i.indices(len(self))))
        else:
            self.seen.add(i % len(self) if self else 0)
        return list.__getitem__(self, i)

    def __iter__(self):
        return iter(self.all())

    def __add__(self, o):
        return self.all() + list(o)

    def __radd__(self, o):
        return list(o) + self.all()

    def __eq__(self, o):
        return self.all() == list(o)

    def __ne__(self, o):
        return self.all() != list(o)

    def __contains__(self, x):
        return x in self.all()

    def pop(self, *i):
        raise TypeError("arguments are read only")


class WatchK(dict):
    """keyword arguments that know which names were looked at"""

    def __init__(self, d):
        dict.__init__(self, d)
        self.seen = set()

    def unread(self):
        return [k for k in dict.keys(self) if k not in self.seen]

    def all(self):
        self.seen.update(dict.keys(self))
        return {k: dict.__getitem__(self, k) for k in dict.keys(self)}

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.seen.add(k)
        return dict.get(self, k, d)

    def pop(self, k, *d):
        self.seen.add(k)
        return dict.pop(self, k, *d)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def __iter__(self):
        return iter(self.all())

    def keys(self):
        return self.all().keys()

    def values(self):
        return self.all().values()

    def items(self):
        return self.all().items()

    def copy(self):
        return self.all()

    def __or__(self, o):
        return {**self.all(), **o}

    def __ror__(self, o):
        return {**o, **self.all()}


class IteV(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Ite(%r,%r,%r)" % (self.c, self.a, self.b)


class Dom:
    """iteration domain: kind range(n nodes, element = start+var*step) or keys(obj)"""
    def __init__(self, kind, node, var, elem, contains=None):
        self.kind, self.node, self.var, self.elem = kind, node, var, elem
        self.contains = contains


# ---- heap ---------------------------------------------------------------
class Obj:
    __slots__ = ("kind", "cls", "attrs", "items", "base", "n", "arr", "origin", "extra")

    def __init__(self, kind, cls=None, attrs=None, items=(), base=None, n=None, arr=None, origin=None, extra=()):
        self.kind, self.cls, self.attrs, self.items = kind, cls, attrs or {}, items
        self.base, self.n, self.arr, self.origin, self.extra = base, n, arr, origin, extra

    def w(self, **kw):
        o = Obj(self.kind, self.cls, self.attrs, self.items, self.base, self.n, self.arr, self.origin, self.extra)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class Entry:
    __slots__ = ("key", "val", "guard", "var", "dom")

    def __init__(self, key, val, guard=TRUE, var=None, dom=None):
        self.key, self.val, self.guard, self.var, self.dom = key, val, guard, var, dom


DEL = mk("deleted")
UNDEF = mk("undef")


class State:
    __slots__ = ("env", "heap", "pc", "assume", "alive")

    def __init__(self, env=None, heap=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = TRUE
        self.assume = {}
        self.alive = True

    def copy(self):
        s = State(dict(self.env), dict(self.heap))
        s.pc, s.assume, s.alive = self.pc, dict(self.assume), self.alive
        return s

    def take(self, o):
        self.env, self.heap, self.pc, self.assume, self.alive = o.env, o.heap, o.pc, o.assume, o.alive


class Frame:
    def __init__(self, func):
        self.func = func
        self.returns = []
        self.loops = []
        self.outer = None       # state of the caller, suspended
        self.cells = None       # heap object with the variables nested functions rebind
        self.cellnames = ()
        self.closures = False
        self.final = None       # variables at the end of the activation
        self.yields = None
        self.ydepth = 0
        self.on_yield = None
        self.yielded = False


class Event:
    __slots__ = ("kind", "obj", "key", "val", "site", "func", "pc", "stack", "extra")

    def __init__(self, kind, obj, key, val, site, func, pc, stack, extra=None):
        self.kind, self.obj, self.key, self.val = kind, obj, key, val
        self.site, self.func, self.pc, self.stack, self.extra = site, func, pc, stack, extra

    def where(self):
        return "%s:%s" % (self.func, self.site)


class Engine:
    def __init__(self, root, pkg="ciceroscm"):
        self.tries = []
        self.handling = []
        self.may_refuse = False
        self.root, self.pkg = root, pkg
        self.mods = {}
        self.next = 0
        self.st = State()
        self.frames = []
        self.viewed = {}
        self.events = []
        self.notes = {}
        self.types = {}       # N -> ClassV for symbolic instances
        self.mutable_defaults = {}
        self.recording = True
        self.stats = {"functions": set(), "calls": 0, "branches": 0, "loops": 0, "stmts": 0}
        self.loopctx = []
        self.no_inline = set()
        self.opaque_calls = {}
        self.hooks = {}
        self.scopes = {}
        self.maxdepth = 40
        self.symstr = {}
        from . import libmodel
        self.lib = libmodel.Lib(self)
        from . import frames
        self.fr = frames.Frames(self)

    # -- loading
    def module(self, name):
        """name relative to package, e.g. 'thermal_model.two_layer_ocean'"""
        full = self.pkg if not name else self.pkg + "." + name
        if full in self.mods:
            return self.mods[full]
        p = os.path.join(self.root, *full.split("."))
        path = None
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            path = os.path.join(p, "__init__.py")
        elif os.path.exists(p + ".py"):
            path = p + ".py"
        if path is None:
            return None
        m = ModV(full, path)
        self.mods[full] = m
        m.ispkg = path.endswith("__init__.py")
        with open(path, encoding="utf-8") as f:
            m.tree = ast.parse(f.read(), path)
        m.env["__name__"] = string(full)
        m.env["__file__"] = string(path)
        # execute module body in isolation
        st, self.st = self.st, State(m.env, self.st.heap)
        frames, self.frames = self.frames, [Frame(None)]
        self.frames[0].mod = m
        self.frames[0].func = FuncV(ast.parse("def module(): pass").body[0], m)
        loopctx, self.loopctx = self.loopctx, []
        self.origin_tag = "module"
        self.exec_block(m.tree.body)
        m.env = self.st.env
        heap = self.st.heap
        self.st = st
        self.st.heap = heap
        self.frames = frames
        self.loopctx = loopctx
        m.loaded = True
        # module names that functions rebind live in the heap, so that branches and calls see the stores
        names = {n for x in ast.walk(m.tree) if isinstance(x, ast.Global) for n in x.names}
        m.ns = self.alloc("ns", attrs={n: m.env.get(n, UNDEF) for n in names})
        return m

    def get(self, modname, name):
        m = self.module(modname)
        if m is None:
            raise Missing("module %s not found" % modname)
        v = m.env.get(name)
        if v is None:
            raise Missing("%s.%s not found" % (modname, name))
        return v

    # -- utilities
    def note(self, kind, what):
        self.notes[(kind, what)] = self.notes.get((kind, what), 0) + 1

    def site(self, node):
        return getattr(node, "lineno", 0)

    def curfunc(self):
        return self.frames[-1].func.qual() if self.frames and self.frames[-1].func else "<top>"

    def curfile(self):
        f = self.frames[-1].func if self.frames else None
        return f.mod.path if f else "?"

    def event(self, kind, obj, key, val, node, extra=None):
        if self.recording:
            self.events.append(Event(kind, obj, key, val, self.site(node), self.curfunc(), self.st.pc,
                                     tuple(f.func.qual() for f in self.frames if f.func), extra))

    ERRS = {"keyerror": "KeyError", "indexerror": "IndexError", "nameerror": "NameError", "valueerror": "ValueError",
            "typeerror": "TypeError", "attributeerror": "AttributeError", "stopiteration": "StopIteration", "oserror": "OSError"}

    def err(self, kind, *args, node=None):
        """an operation that fails whenever it is reached"""
        if not self.st.alive:
            return T.app("err:" + kind, *args)
        names = self.excnames(ExtV("builtins." + self.ERRS.get(kind, "Exception")))
        if self.tries and self.catching(*names):
            self.throw(names, string(kind), node, args, "error")
        else:
            self.event("error", None, string(kind), args, node)
        return T.app("err:" + kind, *args)

    def unsupported(self, what, node=None, *args):
        self.note("unsupported", what)
        self.unsure("any")
        fr = [self.freeze(a) for a in args]
        return T.app("?" + what, *fr)

    def alloc(self, kind, **kw):
        self.next += 1
        org = kw.pop("origin", None) or self.curfunc()
        if self.frames and self.frames[-1].func and self.frames[-1].func.name == "module":
            org = "module:" + self.frames[-1].func.mod.name
        self.st.heap[self.next] = Obj(kind, origin=org, **kw)
        return Ref(self.next)

    def obj(self, v):
        """heap object for Ref or unknown atom (created lazily)"""
        key = v.id if isinstance(v, Ref) else v
        o = self.st.heap.get(key)
        if o is None:
            o = Obj("unk", base=v)
        elif o.extra and o.kind == "arr":
            _, parent, k = o.extra[0]
            pa = self.obj(parent).arr
            hit = self.viewed.get(key)
            if hit is None or hit[0] is not pa:
                hit = self.viewed[key] = (pa, self.index_arr(pa, k))
            if isinstance(hit[1], ArrV):
                o = o.w(arr=hit[1])
        return o

    def put(self, v, o):
        key = v.id if isinstance(v, Ref) else v
        if o.extra and o.kind == "arr":
            _, parent, k = o.extra[0]
            po = self.obj(parent)
            self.put(parent, po.w(arr=self.store_arr(po.arr, k, o.arr)))
            return
        self.st.heap[key] = o

    def view(self, o, k):
        """numpy basic indexing of an array object: an array sharing its storage"""
        ks = k.items if isinstance(k, Tup) else [k]
        ob = self.obj(o)
        if not all(isinstance(x, SliceV) or isinstance(x, N) and x.op not in ("app", "none") for x in ks) or any(isinstance(x, N) and self.as_arr(x) is not None for x in ks):
            return None
        r = self.index_arr(ob.arr, k)
        if not isinstance(r, ArrV):
            return r
        return self.alloc("arr", arr=r, origin=ob.origin, extra=(("view", o, k),))

    # -- containers
    def new_dict(self, pairs=(), **kw):
        return self.alloc("dict", items=tuple(Entry(k, v) for k, v in pairs), **kw)

    def new_list(self, elems, **kw):
        elems = list(elems)
        return self.alloc("list", items=tuple(Entry(num(i), v) for i, v in enumerate(elems)), n=len(elems), **kw)

    def new_arr(self, content, lens):
        return self.alloc("arr", arr=ArrV(content, lens))

    def list_elems(self, v):
        """python list of element values, or None if not fully known"""
        if isinstance(v, Tup):
            return list(v.items)
        el = self.fr.elems(v.arr if isinstance(v, Obj) else (self.obj(v).arr if isinstance(v, Ref) and self.obj(v).kind == "arr" else v))
        if el is not None:
            return el
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ("list", "set") and o.n is not None:
                d = {}
                for e in o.items:
                    if e.guard is not TRUE or not T.is_num(e.key) or e.var is not None:
                        return None
                    d[int(e.key.args[0])] = e.val
                if set(d) != set(range(o.n)):
                    return None
                return [d[i] for i in range(o.n)]
            if o.kind == "row":
                return list(o.attrs.values())
            if o.kind == "arr" and len(o.arr.lens) == 1 and o.arr.lens[0] is not None and T.is_num(o.arr.lens[0]) and o.arr.lens[0].args[0] <= 64:
                return [T.subst(o.arr.content, {IX[0]: num(i)}) for i in range(int(o.arr.lens[0].args[0]))]
        if isinstance(v, ArrV) and len(v.lens) == 1 and v.lens[0] is not None and T.is_num(v.lens[0]) and v.lens[0].args[0] <= 64:
            return [T.subst(v.content, {IX[0]: num(i)}) for i in range(int(v.lens[0].args[0]))]
        if isinstance(v, RangeV) and T.is_num(v.lo) and T.is_num(v.hi) and T.is_num(v.step):
            r = range(int(v.lo.args[0]), int(v.hi.args[0]), int(v.step.args[0]))
            if len(r) <= UNROLL:
                return [num(i) for i in r]
        if isinstance(v, N) and v.op == "str":
            return [string(c) for c in v.args[0]]
        return None

    def dict_keys(self, v):
        """[(key, present_cond)] for dicts whose key set is finite, else None"""
        if not isinstance(v, Ref):
            return None
        o = self.obj(v)
        if o.kind not in ("dict", "df", "set") or o.base is not None:
            return None
        if o.kind == "set" and o.n is not None:
            el = self.list_elems(v)
            return [(x, TRUE) for x in el] if el is not None else None
        out, seen = [], set()
        for e in o.items:
            if e.var is not None or not T.is_const(e.key):
                return None
            if e.key in seen:
                continue
            seen.add(e.key)
            p = self.has_item(v, e.key)
            if p is not FALSE:
                out.append((e.key, p))
        return out

    def keymatch(self, e, k):
        """condition under which entry e addresses key k, and its value"""
        if e.var is None:
            if not isinstance(k, N) or not isinstance(e.key, N):
                return (TRUE if e.key == k else mk("app", "?keyeq", self.freeze(e.key), self.freeze(k))), e.val, e.guard
            return T.eq(e.key, k), e.val, e.guard
        sol = self.solve(e.key, e.var, k)
        if sol is None:
            return mk("exists", self.freeze(e.key), self.freeze(k)), e.val, e.guard
        m = {e.var: sol}
        cond = e.dom.contains(sol) if e.dom is not None else TRUE
        return cond, self.subst_val(e.val, m), T.subst(e.guard, m)

    def solve(self, key, var, k):
        if key is var:
            return k
        if not isinstance(k, N) or not isinstance(key, N):
            return None
        c, d = T._lin(key)
        if var in d and all(var not in T.frees(x) for x in d if x is not var):
            a = d[var]
            rest = T.sub(key, T.scale(a, var))
            return T.scale(1 / a, T.sub(k, rest))
        return None

    def subst_val(self, v, m):
        if isinstance(v, N):
            return T.subst(v, m)
        if isinstance(v, ArrV):
            return ArrV(T.subst(v.content, m), [T.subst(x, m) if x is not None else None for x in v.lens])
        if isinstance(v, Tup):
            return Tup([self.subst_val(x, m) for x in v.items])
        if isinstance(v, IteV):
            return self.merge_val(T.subst(v.c, m), self.subst_val(v.a, m), self.subst_val(v.b, m))
        return v

    def base_item(self, o, k):
        if o.base is None:
            return T.MISSING
        if isinstance(o.base, N) and o.base.op == "dictsnap":
            for kk, vv in zip(o.base.args[0::2], o.base.args[1::2]):
                if kk is k:
                    return vv
        return T.item(o.base, self.freeze(k))

    def read_item(self, v, k):
        o = self.obj(v)
        if o.kind == "arr":
            return self.index_arr(o.arr, k)
        ents = o.items
        res = None
        acc = []
        for e in reversed(ents):
            cond, val, guard = self.keymatch(e, k)
            c = T.band(cond, guard)
            if c is FALSE:
                continue
            if c is TRUE:
                res = val
                break
            acc.append((c, val))
        if res is None:
            res = self.base_item(o, k)
        for c, val in reversed(acc):
            if val is DEL:
                val = T.MISSING
            if res is T.MISSING:
                res = val if val is not T.MISSING else res
                continue
            if val is T.MISSING:
                continue
            res = self.merge_val(c, val, res)
        return T.MISSING if res is DEL else res

    def has_item(self, v, k):
        o = self.obj(v)
        if o.kind == "arr":
            return mk("exists", self.freeze(v), self.freeze(k))
        res = None
        acc = []
        for e in reversed(o.items):
            cond, val, guard = self.keymatch(e, k)
            c = T.band(cond, guard)
            if c is FALSE:
                continue
            present = FALSE if val is DEL else TRUE
            if c is TRUE:
                res = present
                break
            acc.append((c, present))
        if res is None:
            if o.base is None:
                res = FALSE
            elif isinstance(o.base, N) and o.base.op == "dictsnap":
                res = TRUE if k in o.base.args[0::2] else FALSE
            else:
                res = mk("has", o.base, self.freeze(k))
        for c, p in reversed(acc):
            res = T.ite(c, p, res)
        return res

    def store_item(self, v, k, val, node=None, guard=TRUE):
        self.event("store", v, k, val, node)
        o = self.obj(v)
        if o.kind == "arr":
            self.put(v, o.w(arr=self.store_arr(o.arr, k, val)))
            return
        ents = list(o.items)
        if isinstance(k, N) and T.is_const(k) and guard is TRUE:
            # replace in place if nothing symbolic was stored after it
            for i in range(len(ents) - 1, -1, -1):
                e = ents[i]
                if e.var is not None or not T.is_const(e.key):
                    break
                if e.key is k:
                    if val is DEL and o.base is None and all(x.key is not k for j, x in enumerate(ents) if j != i):
                        del ents[i]
                    else:
                        ents[i] = Entry(k, val)
                    self.put(v, o.w(items=tuple(ents)))
                    return
            if val is DEL and o.base is None and not any(e.var is not None or not T.is_const(e.key) for e in ents):
                return
        ents.append(Entry(k if isinstance(k, N) else self.freeze(k), val, guard))
        n = o.n
        if o.kind == "list" and o.n is not None and T.is_num(k) and k.args[0] < 0:
            ents[-1] = Entry(num(o.n + k.args[0]), val, guard)
        self.put(v, o.w(items=tuple(ents), n=n))

    # -- arrays
    def length(self, v):
        f = self.dunder(v, "__len__") if isinstance(v, Ref) else None
        if f is not None:
            return self.call(f, [], {}, None)
        el = self.fr.elems(v)
        if el is not None:
            return num(len(el))
        if isinstance(v, Ref) and self.fr.is_df(v):
            return num(len(self.fr.df_index(v).labels))
        if isinstance(v, ArrV):
            return v.lens[0] if v.lens and v.lens[0] is not None else mk("len", self.freeze(v))
        if isinstance(v, Tup):
            return num(len(v.items))
        if isinstance(v, RangeV):
            if v.step is ONE:
                return T.sub(v.hi, v.lo)
            return T.fn("ceil", T.div(T.sub(v.hi, v.lo), v.step))
        if isinstance(v, CompV):
            if v.cond is TRUE and v.dom.kind == "range":
                return v.dom.node
            return mk("len", self.freeze(v))
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "arr":
                return self.length(o.arr)
            if o.kind in ("list", "set") and o.n is not None:
                return num(o.n)
            ks = self.dict_keys(v)
            if ks is not None and o.kind == "dict":
                return T.add(ZERO, *[p for _, p in ks])
        if isinstance(v, N):
            if v.op == "str":
                return num(len(v.args[0]))
            if v.op == "item" and v.args[0].op == "app" and v.args[0].args[0].startswith("ax"):
                pass
        if isinstance(v, ViewV):
            return self.length(v.obj)
        if isinstance(v, IteV):
            return self.merge_val(v.c, self.length(v.a), self.length(v.b))
        return mk("len", self.freeze(v))

    def as_arr(self, v):
        """ArrV view of an array-like value, or None for scalars"""
        if self.fr.explicitish(v):
            return self.fr.xarr(v)
        if isinstance(v, ArrV):
            return v
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == "arr":
                return o.arr
            if o.kind in ("list", "set"):
                el = self.list_elems(v)
                if el is not None:
                    return self.arr_from_elems(el)
        if isinstance(v, IteV):
            a, b = self.as_arr(v.a), self.as_arr(v.b)
            if a is not None and b is not None and len(a.lens) == len(b.lens):
                return self.merge_val(v.c, a, b)
            return None
        if isinstance(v, Tup):
            return self.arr_from_elems(list(v.items))
        if isinstance(v, RangeV):
            return ArrV(T.add(v.lo, T.mul(IX[0], v.step)), [self.length(v)])
        if isinstance(v, CompV) and v.cond is TRUE and v.dom.kind == "range" and isinstance(v.val, N):
            return ArrV(T.subst(v.val, {v.dom.var: IX[0]}), [v.dom.node])
        return None

    def arr_from_elems(self, el):
        if self.fr.on:
            x = self.fr.from_elems(el)
            if x is not NotImplemented:
                return x
        if not el:
            return ArrV(ZERO, [ZERO])
        subs = [self.as_arr(e) for e in el]
        if all(s is not None for s in subs):
            d = len(subs[0].lens)
            c = None
            up = {IX[i]: IX[i + 1] for i in range(d)}
            for i in range(len(el) - 1, -1, -1):
                ci = T.subst(subs[i].content, up)
                c = ci if c is None else T.ite(T.eq(IX[0], num(i)), ci, c)
            return ArrV(c, [num(len(el))] + list(subs[0].lens))
        if all(isinstance(e, N) for e in el):
            c = el[-1]
            for i in range(len(el) - 2, -1, -1):
                c = T.ite(T.eq(IX[0], num(i)), el[i], c)
            return ArrV(c, [num(len(el))])
        return None

    def norm_index(self, k, length):
        if T.is_num(k) and k.args[0] < 0:
            return T.add(length, k) if length is not None else T.add(mk("len?"), k)
        return k

    def index_arr(self, a, k):
        if hasattr(a, "cells"):
            r = self.fr.index_arr(a, k)
            if r is not NotImplemented:
                return r
        ks = list(k.items) if isinstance(k, Tup) else [k]
        m = {}
        lens = []
        out = 0
        nd = len(a.lens)
        ks = [x for x in ks if not (isinstance(x, N) and x.op == "none")]
        if len(ks) > nd:
            return T.item(self.freeze(a), self.freeze(k))
        ks += [SliceV(None, None, None)] * (nd - len(ks))
        for i, x in enumerate(ks):
            L = a.lens[i]
            if isinstance(x, SliceV):
                lo = self.norm_index(x.lo, L) if x.lo is not None else ZERO
                hi = self.norm_index(x.hi, L) if x.hi is not None else L
                if x.step is not None and x.step is not ONE:
                    if x.step is num(-1) and x.lo is None and x.hi is None and L is not None:
                        m[IX[i]] = T.sub(T.sub(L, ONE), IX[out])
                        lens.append(L)
                        out += 1
                        continue
                    return T.item(self.freeze(a), T.app("slice", *[self.freeze(z) for z in (x.lo, x.hi, x.step)]))
                m[IX[i]] = T.add(IX[out], lo)
                lens.append(T.sub(hi, lo) if hi is not None else None)
                out += 1
            elif isinstance(x, N):
                ax = self.as_arr(x)
                m[IX[i]] = self.norm_index(x, L)
            else:
                ax = self.as_arr(x)
                if ax is not None and len(ax.lens) == 1:
                    m[IX[i]] = T.subst(ax.content, {IX[0]: IX[out]})
                    lens.append(ax.lens[0])
                    out += 1
                else:
                    return T.item(self.freeze(a), self.freeze(k))
        # simultaneous substitution through temporaries
        tmp = {IX[i]: sym("$t%d" % i, "int") for i in range(3)}
        c = T.subst(a.content, tmp)
        c = T.subst(c, {tmp[kx]: vx for kx, vx in m.items()})
        if out == 0:
            return c
        return ArrV(c, lens)

    def store_arr(self, a, k, val):
        if hasattr(a, "cells"):
            r = self.fr.store_arr(a, k, val)
            if r is not NotImplemented:
                return r
        ks = list(k.items) if isinstance(k, Tup) else [k]
        nd = len(a.lens)
        ks += [SliceV(None, None, None)] * (nd - len(ks))
        cond = TRUE
        m = {}
        out = 0
        for i, x in enumerate(ks[:nd]):
            L = a.lens[i]
            if isinstance(x, SliceV):
                if x.step is not None and x.step is not ONE:
                    return ArrV(T.app("?strided-store", self.freeze(a), self.freeze(val), IX[0]), a.lens)
                lo = self.norm_index(x.lo, L) if x.lo is not None else None
                hi = self.norm_index(x.hi, L) if x.hi is not None else None
                if lo is not None and lo is not ZERO:
                    cond = T.band(cond, T.le(lo, IX[i]))
                if hi is not None and hi is not L:
                    cond = T.band(cond, T.lt(IX[i], hi))
                m[IX[out]] = T.sub(IX[i], lo) if lo is not None else IX[i]
                out += 1
            elif isinstance(x, N):
                cond = T.band(cond, T.eq(IX[i], self.norm_index(x, L)))
            else:
                return ArrV(T.app("?fancy-store", self.freeze(a), self.freeze(x), self.freeze(val), IX[0]), a.lens)
        av = self.as_arr(val)
        if av is not None:
            tmp = {IX[i]: sym("$t%d" % i, "int") for i in range(3)}
            c = T.subst(av.content, tmp)
            # align trailing dims
            off = out - len(av.lens)
            mm = {}
            for j in range(len(av.lens)):
                if off + j >= 0:
                    mm[tmp[IX[j]]] = m.get(IX[off + j], IX[off + j])
            c = T.subst(c, mm)
        elif isinstance(val, N):
            c = val
        else:
            c = self.freeze(val)
        return ArrV(T.ite(cond, c, a.content), a.lens)

    def elementwise(self, f, *vs):
        for i, v in enumerate(vs):
            if isinstance(v, IteV) and any(self.fr.explicitish(x) for x in vs if x is not v):
                return self.merge_val(v.c, self.elementwise(f, *vs[:i], v.a, *vs[i + 1:]), self.elementwise(f, *vs[:i], v.b, *vs[i + 1:]))
        r = self.fr.elementwise(f, vs)
        if r is not NotImplemented:
            return r
        arrs = [self.as_arr(v) if not isinstance(v, N) else None for v in vs]
        if all(a is None for a in arrs):
            return f(*[v if isinstance(v, N) else self.freeze(v) for v in vs])
        nd = max(len(a.lens) for a in arrs if a is not None)
        contents = []
        lens = [None] * nd
        for v, a in zip(vs, arrs):
            if a is None:
                contents.append(v if isinstance(v, N) else self.freeze(v))
            else:
                off = nd - len(a.lens)
                c = a.content
                if off:
                    c = T.subst(c, {IX[i]: IX[i + off] for i in range(len(a.lens))})
                contents.append(c)
                for i, L in enumerate(a.lens):
                    if lens[i + off] is None or lens[i + off] is ONE:
                        lens[i + off] = L
        return ArrV(f(*contents), lens)

    # -- freezing arbitrary values to nodes
    def freeze(self, v, depth=0):
        if isinstance(v, N):
            o = self.st.heap.get(v)
            if o is not None and (o.items or o.attrs) and depth < 6:
                # unknown object with updates
                return self.snap(v, o, depth)
            return v
        r = self.fr.freeze(v, depth)
        if r is not NotImplemented:
            return r
        if isinstance(v, FileV):
            return T.app("file", v.path if isinstance(v.path, N) else self.freeze(v.path, depth + 1))
        if isinstance(v, ArrV):
            return mk("lam", v.content, v.lens[0] if v.lens and v.lens[0] is not None else NONE, tuple(IX[:len(v.lens)]))
        if isinstance(v, Tup):
            return mk("tup", *[self.freeze(x, depth + 1) for x in v.items])
        if isinstance(v, Ref):
            o = self.obj(v)
            if depth > 6:
                return T.app("deep", string(o.kind))
            if o.kind == "arr":
                return self.freeze(o.arr)
            if o.kind in ("list", "set"):
                el = self.list_elems(v)
                if el is not None:
                    return mk("tup", *[self.freeze(x, depth + 1) for x in el])
            if o.kind in ("dict", "df"):
                return self.snap(v, o, depth)
            if o.kind == "inst":
                return mk("inst", o.cls.name if o.cls else "?", *[mk("fld", k, self.freeze(x, depth + 1)) for k, x in sorted(o.attrs.items())])
            return self.snap(v, o, depth)
        if isinstance(v, IteV):
            return T.ite(v.c, self.freeze(v.a, depth), self.freeze(v.b, depth))
        if isinstance(v, SliceV):
            return T.app("slice", *[self.freeze(x) if x is not None else NONE for x in (v.lo, v.hi, v.step)])
        if isinstance(v, RangeV):
            return T.app("range", v.lo, v.hi, v.step)
        if isinstance(v, PyV):
            return T.app("py", string(str(v.v)))
        if isinstance(v, (FuncV, ClassV, ModV, ExtV)):
            return T.app("ref:" + (v.qual() if isinstance(v, FuncV) else v.name))
        if isinstance(v, BoundV):
            return T.app("bound:" + v.func.qual())
        if isinstance(v, MethV):
            return T.app("meth:" + v.name, self.freeze(v.obj, depth + 1))
        if isinstance(v, CompV):
            return T.app("comp", v.dom.node, v.dom.var, self.freeze(v.val, depth + 1), v.cond)
        if isinstance(v, ViewV):
            return T.app("view:" + v.kind, self.freeze(v.obj, depth + 1))
        if isinstance(v, Indexer):
            return T.app("ix:" + v.kind, self.freeze(v.obj, depth + 1))
        if isinstance(v, PartialV):
            return T.app("partial", self.freeze(v.func), *[self.freeze(x, depth + 1) for x in v.args], *[mk("fld", k, self.freeze(x, depth + 1)) for k, x in sorted(v.kwargs.items())])
        if isinstance(v, VecV):
            return T.app("vec", self.freeze(v.func))
        return T.app("?val:" + type(v).__name__)

    def snap(self, v, o, depth):
        pairs = []
        plain = o.base is None
        for e in o.items:
            if e.var is not None or e.guard is not TRUE or not T.is_const(e.key):
                plain = False
        if plain and not o.attrs and not o.extra:
            for e in sorted(o.items, key=lambda e: e.key.uid):
                if e.val is not DEL:
                    pairs += [e.key, self.freeze(e.val, depth + 1)]
            return mk("dictsnap", *pairs)
        parts = []
        for e in o.items:
            parts.append(mk("upd", self.freeze(e.key), self.freeze(e.val, depth + 1), e.guard))
        for k, x in sorted(o.attrs.items()):
            parts.append(mk("fld", k, self.freeze(x, depth + 1)))
        for x in o.extra:
            parts.append(mk("ext", *[self.freeze(y, depth + 1) if isinstance(y, (N, V)) else string(str(y)) for y in x]))
        if o.base is not None:
            return mk("snap", o.base, *parts) if parts else o.base
        return mk("snap", NONE, *parts)

    # -- joins
    def merge_val(self, c, a, b):
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, N) and isinstance(b, N):
            return T.ite(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return a
        r = self.fr.merge(c, a, b)
        if r is not NotImplemented:
            return r
        if isinstance(a, PyV) and a == b:
            return a
        if isinstance(a, NtV) and isinstance(b, NtV) and a.cls is b.cls:
            return NtV(a.cls, [self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if type(a) is Tup and type(b) is Tup and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.lens) == len(b.lens):
            return ArrV(T.ite(c, a.content, b.content), [x if x is y else (T.ite(c, x, y) if x is not None and y is not None else None) for x, y in zip(a.lens, b.lens)])
        if isinstance(a, ArrV) and isinstance(b, N) and (T.is_num(b)):
            return ArrV(T.ite(c, a.content, b), a.lens)
        if isinstance(b, ArrV) and isinstance(a, N) and T.is_num(a):
            return ArrV(T.ite(c, a, b.content), b.lens)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(a), self.obj(b)
            if oa.kind == "arr" and ob.kind == "arr":
                m = self.merge_val(c, oa.arr, ob.arr)
                if isinstance(m, ArrV):
                    return IteV(c, a, b)
        if isinstance(a, (FuncV, ClassV, ExtV, ModV)) and type(a) is type(b):
            if isinstance(a, ExtV) and a.name == b.name:
                return a
            if isinstance(a, FuncV) and a.node is b.node:
                return a
        if a is UNDEF:
            return IteV(c, a, b)
        if isinstance(b, IteV) and b.c is c:
            b = b.b
        if isinstance(a, IteV) and a.c is c:
            a = a.a
        if type(a) is type(b) and a == b:
            return a
        return IteV(c, a, b)

    def merge_obj(self, c, a, b):
        if a is b:
            return a
        attrs = {}
        for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
            x = a.attrs.get(k, UNDEF)
            y = b.attrs.get(k, UNDEF)
            if x is UNDEF or y is UNDEF:
                base = b.base if x is UNDEF else a.base
                if base is not None and isinstance(base, N):
                    if x is UNDEF:
                        x = T.attr(base, k)
                    else:
                        y = T.attr(base, k)
            attrs[k] = x if x is y else self.merge_val(c, x, y)
        arr = a.arr
        if a.arr is not b.arr and a.arr is not None and b.arr is not None:
            arr = self.merge_val(c, a.arr, b.arr)
        items = a.items
        if a.items != b.items:
            i = 0
            while i < len(a.items) and i < len(b.items) and a.items[i] is b.items[i]:
                i += 1
            pre = list(a.items[:i])
            ra, rb = list(a.items[i:]), list(b.items[i:])
            const = all(e.var is None and T.is_const(e.key) for e in ra + rb)
            if const:
                ka = {}
                for e in ra:
                    ka.setdefault(e.key, []).append(e)
                kb = {}
                for e in rb:
                    kb.setdefault(e.key, []).append(e)
                out = []
                nb = T.bnot(c)
                for k in list(ka) + [k for k in kb if k not in ka]:
                    la, lb = ka.get(k, []), kb.get(k, [])
                    if len(la) == 1 and len(lb) == 1 and la[0].guard is TRUE and lb[0].guard is TRUE:
                        x, y = la[0].val, lb[0].val
                        if x is DEL or y is DEL:
                            if x is y:
                                out.append(Entry(k, DEL))
                            elif x is DEL:
                                out += [Entry(k, DEL, c), Entry(k, y, nb)]
                            else:
                                out += [Entry(k, x, c), Entry(k, DEL, nb)]
                        else:
                            out.append(Entry(k, x if x is y else self.merge_val(c, x, y)))
                    elif len(la) == 1 and len(lb) == 1 and la[0].val is lb[0].val and la[0].guard is lb[0].guard:
                        out.append(la[0])
                    else:
                        for e in la:
                            out.append(Entry(k, e.val, T.band(c, e.guard)))
                        for e in lb:
                            out.append(Entry(k, e.val, T.band(nb, e.guard)))
                items = tuple(pre + out)
            else:
                ga = [Entry(e.key, e.val, T.band(c, e.guard), e.var, e.dom) for e in ra]
                gb = [Entry(e.key, e.val, T.band(T.bnot(c), e.guard), e.var, e.dom) for e in rb]
                items = tuple(pre + ga + gb)
        n = a.n if a.n == b.n else None
        extra = a.extra if a.extra == b.extra else tuple(a.extra) + tuple(x for x in b.extra if x not in a.extra)
        base = a.base
        if a.base is not b.base:
            base = T.ite(c, a.base if a.base is not None else mk("empty"), b.base if b.base is not None else mk("empty"))
        return a.w(attrs=attrs, items=items, arr=arr, n=n, extra=extra, base=base)

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = dict(h2)
        for k, o in h1.items():
            p = h2.get(k)
            if p is None:
                if isinstance(k, N):
                    out[k] = self.merge_obj(c, o, Obj("unk", base=k))
                else:
                    out[k] = o
            elif p is not o:
                out[k] = self.merge_obj(c, o, p)
        for k, p in h2.items():
            if k not in h1 and isinstance(k, N):
                out[k] = self.merge_obj(c, Obj("unk", base=k), p)
        return out

    def merge_states(self, c, s1, s2, pc):
        """join: s1 under c, s2 under not c; result into a fresh State"""
        if not s1.alive and not s2.alive:
            s1.alive = False
            return s1
        if not s1.alive:
            return s2
        if not s2.alive:
            return s1
        r = State()
        savest = self.st
        # merging array refs needs a heap view: use s1's then s2's
        self.st = State(None, {**s2.heap, **s1.heap})
        env = {}
        for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
            a, b = s1.env.get(k, UNDEF), s2.env.get(k, UNDEF)
            env[k] = a if a is b else self.merge_val(c, a, b)
        r.heap = self.merge_heap(c, s1.heap, s2.heap)
        self.st = savest
        r.env = env
        if s1.pc is T.band(pc, c) and s2.pc is T.band(pc, T.bnot(c)):
            r.pc = pc
        else:
            r.pc = T.bor(s1.pc, s2.pc)
        r.assume = {k: v for k, v in s1.assume.items() if s2.assume.get(k) == v}
        return r

    # -- conditions
    def simp(self, c):
        A = self.st.assume
        if not A:
            return c
        if c in A:
            return A[c]
        if c.op == "not":
            return T.bnot(self.simp(c.args[0]))
        if c.op == "and":
            return T.band(*[self.simp(x) for x in c.args])
        return c

    def assume(self, st, c, val):
        if c.op == "not":
            self.assume(st, c.args[0], not val)
            return
        if c.op == "and" and val:
            for x in c.args:
                self.assume(st, x, True)
            return
        st.assume[c] = TRUE if val else FALSE

    def truth(self, v):
        if isinstance(v, N):
            o = self.st.heap.get(v)
            return self.simp(T.truth(v))
        if isinstance(v, IteV):
            return T.ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, (Tup,)):
            return TRUE if v.items else FALSE
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ("list", "set") and o.n is not None:
                return TRUE if o.n else FALSE
            if o.kind == "dict":
                ks = self.dict_keys(v)
                if ks is not None:
                    return T.bor(*[p for _, p in ks]) if ks else FALSE
                return T.truth(self.freeze(v))
            if o.kind == "inst":
                for nm in ("__bool__", "__len__"):
                    f = self.dunder(v, nm)
                    if f is not None:
                        return self.truth(self.call(f, [], {}, None))
                return TRUE
            return T.truth(self.freeze(v))
        if isinstance(v, PyV):
            return TRUE if v.v else FALSE
        if isinstance(v, (FuncV, ClassV, ModV, ExtV, BoundV)):
            return TRUE
        return T.truth(self.freeze(v))

    # -- statements
    def exec_block(self, stmts):
        for s in stmts:
            if not self.st.alive:
                return
            self.stats["stmts"] += 1
            m = getattr(self, "x_" + type(s).__name__, None)
            if m is None:
                self.note("unsupported", "stmt:" + type(s).__name__)
                continue
            m(s)

    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Assert(self, s):
        if self.simp(self.cond(s.test)) is FALSE:
            self.throw(self.excnames(ExtV("builtins.AssertionError")), string("assertion"), s)

    # match
    def x_Match(self, s):
        v = self.eval(s.subject)

        def go(i):
            if i == len(s.cases):
                return
            c = s.cases[i]
            m = self.pattern(c.pattern, v)
            if m is None:
                self.note("unsupported", "match:" + ast.unparse(c.pattern))
                m = (T.truth(T.app("?match", self.freeze(v))), {})
            cond, binds = m

            def take():
                for k, x in binds.items():
                    self.bindname(k, x)
                if c.guard is None:
                    self.exec_block(c.body)
                else:
                    g = self.simp(self.cond(c.guard))
                    self.branch(g, lambda: self.exec_block(c.body), lambda: go(i + 1))
            self.branch(self.simp(cond), take, lambda: go(i + 1))
        go(0)

    def pattern(self, p, v):
        """(condition, bindings) of a match, None if not decidable"""
        if isinstance(v, IteV):
            return None if not isinstance(p, ast.MatchAs) else (TRUE, {p.name: v} if p.name else {}) if p.pattern is None else None
        if isinstance(p, ast.MatchValue):
            return self.compare(ast.Eq(), v, self.eval(p.value), p), {}
        if isinstance(p, ast.MatchSingleton):
            return self.compare(ast.Is(), v, self.const(p.value), p), {}
        if isinstance(p, ast.MatchAs):
            m = (TRUE, {}) if p.pattern is None else self.pattern(p.pattern, v)
            return None if m is None else (m[0], {**m[1], **({p.name: v} if p.name else {})})
        if isinstance(p, ast.MatchOr):
            ms = [self.pattern(x, v) for x in p.patterns]
            if any(m is None or m[1] for m in ms):
                return None
            return T.bor(*[m[0] for m in ms]), {}
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, N) and T.is_const(v) or isinstance(v, Ref) and self.obj(v).kind in ("dict", "inst"):
                return FALSE, {}
            el = self.list_elems(v) if isinstance(v, (Tup, Ref)) else None
            if el is None:
                return None
            st = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            n = len(p.patterns)
            if not st and len(el) != n or st and len(el) < n - 1:
                return FALSE, {}
            if st:
                i, tail = st[0], n - 1 - st[0]
                el = el[:i] + [self.new_list(el[i:len(el) - tail])] + el[len(el) - tail:]
            cond, b = TRUE, {}
            for q, x in zip(p.patterns, el):
                m = (TRUE, {q.name: x} if q.name else {}) if isinstance(q, ast.MatchStar) else self.pattern(q, x)
                if m is None:
                    return None
                cond = T.band(cond, m[0])
                b.update(m[1])
            return cond, b
        if isinstance(p, ast.MatchMapping) and not p.rest:
            if not (isinstance(v, Ref) and self.obj(v).kind == "dict"):
                return None
            cond, b = TRUE, {}
            for k, q in zip(p.keys, p.patterns):
                kk = self.eval(k)
                h = self.has_item(v, kk)
                if h is FALSE:
                    return FALSE, {}
                m = self.pattern(q, self.read_item(v, kk))
                if m is None:
                    return None
                cond = T.band(cond, h, m[0])
                b.update(m[1])
            return cond, b
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls)
            cond, b = self.lib.b_isinstance([v, c], {}, p), {}
            if cond is FALSE:
                return FALSE, {}
            if p.patterns and isinstance(c, ExtV) and len(p.patterns) == 1:
                m = self.pattern(p.patterns[0], v)
                return None if m is None else (T.band(cond, m[0]), m[1])
            names = list(p.kwd_attrs)
            if p.patterns:
                ma = c.nt or [x[0] for x in c.fields or ()] if isinstance(c, ClassV) else []
                if len(ma) < len(p.patterns):
                    return None
                names = list(ma[:len(p.patterns)]) + names
            for nm, q in zip(names, list(p.patterns) + list(p.kwd_patterns)):
                m = self.pattern(q, self.getattr(v, nm, p))
                if m is None:
                    return None
                cond = T.band(cond, m[0])
                b.update(m[1])
            return cond, b
        return None

    def x_Global(self, s):
        fr = self.frames[-1]
        fr.globals = getattr(fr, "globals", set()) | set(s.names)

    def x_Nonlocal(self, s):
        fr = self.frames[-1]
        fr.nonlocals = getattr(fr, "nonlocals", set()) | set(s.names)

    def x_Import(self, s):
        for a in s.names:
            nm = a.name
            v = self.import_mod(nm)
            if a.asname:
                self.st.env[a.asname] = v
            else:
                top = nm.split(".")[0]
                self.st.env[top] = self.import_mod(top)

    def import_mod(self, nm):
        if nm == self.pkg or nm.startswith(self.pkg + "."):
            m = self.module(nm[len(self.pkg) + 1:])
            if m is not None:
                return m
        self.unsure("import")
        return ExtV({"np": "numpy"}.get(nm, nm))

    def x_ImportFrom(self, s):
        base = s.module or ""
        if s.level:
            cur = self.frames[-1].func.mod
            parts = cur.name.split(".")
            if not getattr(cur, "ispkg", False):
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            nm = a.asname or a.name
            if base == self.pkg or base.startswith(self.pkg + "."):
                m = self.module(base[len(self.pkg) + 1:])
                sub = self.module((base + "." + a.name)[len(self.pkg) + 1:]) if not (m and a.name in m.env) else None
                if m is not None and a.name in m.env:
                    self.st.env[nm] = m.env[a.name]
                    continue
                if sub is not None:
                    self.st.env[nm] = sub
                    continue
                self.note("unresolved-import", base + "." + a.name)
                self.st.env[nm] = ExtV(base + "." + a.name)
            else:
                self.st.env[nm] = ExtV(base + "." + a.name)

    def x_FunctionDef(self, s):
        fr = self.frames[-1]
        f = FuncV(s, fr.func.mod, getattr(fr, "cls", None))
        self.nest(f)
        self.eval_defaults(f)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f)
        self.bindname(s.name, f)

    PLAIN = ("functools.lru_cache", "functools.cache", "functools.wraps", "typing.override", "typing.final", "typing.no_type_check",
             "functools.total_ordering", "builtins.object")

    def decorate(self, d, f):
        """value of the definition after one decorator"""
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter") and isinstance(f, FuncV):
            p = self.eval(d.value)
            if isinstance(p, FuncV) and p.kind == "property":
                p = p.like()
                if d.attr == "getter":
                    f.kind, f.setter, f.deleter = "property", p.setter, p.deleter
                    return f
                setattr(p, d.attr, f)
                return p
        fn = self.eval(d.func) if isinstance(d, ast.Call) else self.eval(d)
        nm = fn.name if isinstance(fn, ExtV) else None
        if nm is not None:
            short = nm.rsplit(".", 1)[-1]
            if isinstance(f, FuncV) and short in ("classmethod", "staticmethod", "property", "abstractmethod", "abstractproperty", "cached_property", "contextmanager"):
                if short == "abstractmethod":
                    f.kind = f.kind or "abstract"
                elif short == "contextmanager":
                    f.cm = True
                elif short == "cached_property":
                    f.kind, f.cached = "property", True
                else:
                    f.kind = {"abstractproperty": "property"}.get(short, short)
                return f
            if nm in self.PLAIN or short in ("overload",):
                return f
            if nm == "numpy.vectorize":
                return VecV(f)
        if isinstance(fn, (FuncV, ClassV, BoundV, PartialV)):
            if isinstance(d, ast.Call):
                fn = self.eval(d)
            if isinstance(fn, (FuncV, ClassV, BoundV, PartialV)):
                return self.call(fn, [f], {}, d)
        self.note("decorated", f.qual() if isinstance(f, FuncV) else getattr(f, "name", "?"))
        return f

    x_AsyncFunctionDef = x_FunctionDef

    def eval_defaults(self, f):
        a = f.node.args
        d = {}
        pos = a.posonlyargs + a.args
        for p, e in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = self.eval(e)
        for p, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                d[p.arg] = self.eval(e)
        for k, v in d.items():
            if isinstance(v, Ref):
                self.mutable_defaults[v.id] = "%s(%s=)" % (f.qual(), k)
        f.defaults = d

    def x_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        fr = self.frames[-1]
        c = ClassV(s.name, fr.func.mod, bases, s)
        outer, self.st.env = self.st.env, dict(self.st.env)
        before = dict(self.st.env)
        old = getattr(fr, "cls", None)
        fr.cls = c
        self.exec_block(s.body)
        fr.cls = old
        for k, v in self.st.env.items():
            if k not in before or before[k] is not v:
                c.attrs[k] = v
        self.st.env = outer
        self.lib.special_class(c, s)
        c.ns, c.eng = self.alloc("ns", attrs={k: v for k, v in c.attrs.items() if not isinstance(v, FuncV)}), self
        for d in reversed(s.decorator_list):
            fn = self.eval(d.func) if isinstance(d, ast.Call) else self.eval(d)
            nm = fn.name if isinstance(fn, ExtV) else ""
            if nm in ("dataclasses.dataclass",):
                self.lib.dataclass(c, s)
            elif nm in self.PLAIN or nm in ("enum.unique",):
                pass
            elif isinstance(fn, FuncV):
                if isinstance(d, ast.Call):
                    fn = self.eval(d)
                r = self.call(fn, [c], {}, d)
                if r is not c:
                    self.note("decorated", c.name)
            else:
                self.note("decorated", c.name)
        self.bindname(s.name, c)

    def bindname(self, name, v):
        fr = self.frames[-1]
        if name in getattr(fr, "globals", ()):
            self.setattr(fr.func.mod, name, v, None)
            return
        ref = fr.cells if name in fr.cellnames else None
        if ref is None and name in getattr(fr, "nonlocals", ()):
            d = fr.func.frame
            while d is not None and name not in d.cellnames:
                d = d.func.frame
            if d is None:
                self.note("nonlocal", self.curfunc())
            else:
                ref = d.cells
        if ref is not None:
            self.put(ref, self.obj(ref).w(attrs={**self.obj(ref).attrs, name: v}))
            return
        self.st.env[name] = v

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.st.alive:
            self.frames[-1].returns.append((self.st.pc, v, self.st.heap, self.st.env))
        self.st.alive = False

    def x_Raise(self, s):
        exc, names = None, None
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            exc = e.id if isinstance(e, ast.Name) else ast.unparse(e)
            v = self.eval(e) if isinstance(e, (ast.Name, ast.Attribute)) else None
            names = self.excnames(v)
            if isinstance(s.exc, ast.Call):
                for a in s.exc.args:
                    self.eval(a)
            if names is None and isinstance(v, N) and self.handling and v is self.handling[-1][1]:
                names = self.handling[-1][0]
        elif self.handling:
            names = self.handling[-1][0]
        self.throw(names, string(exc or "reraise"), s)

    def excnames(self, v):
        """names of an exception class and its bases; None if unknown"""
        if isinstance(v, ExtV) and v.name.startswith("builtins."):
            c = getattr(builtins, v.name[9:], None)
            if isinstance(c, type) and issubclass(c, BaseException):
                return [x.__name__ for x in c.__mro__]
        if isinstance(v, ExtV) and v.name.rsplit(".", 1)[-1].endswith(("Error", "Exception")):
            return [v.name.rsplit(".", 1)[-1], "Exception", "BaseException", "object"]
        if isinstance(v, ClassV):
            out = []
            for c in v.mro():
                out.append(c.name)
                for b in c.bases:
                    if not isinstance(b, ClassV):
                        out += self.excnames(b) or []
            return out if "BaseException" in out else None
        return None

    def throw(self, names, label, node, args=None, kind="raise"):
        """the current path ends in an exception: to the handler that takes it, or out of the analysed call"""
        ev = kind
        if self.st.alive:
            for t in reversed(self.tries):
                m = True if names and (t["types"] is None or any(n in t["types"] for n in names)) else \
                    False if names and t["known"] else None
                if m is None and t["all"]:
                    m = True
                if m is False:
                    continue
                ev = kind + "-in-try"
                if m and len(self.loopctx) == t["depth"]:
                    pc, env = self.st.pc, self.st.env
                    for i in range(len(self.frames) - 1, t["frame"], -1):
                        o = self.frames[i].outer
                        pc, env = T.band(o.pc, pc), o.env
                    t["caught"].append((pc, dict(env), dict(self.st.heap), names))
                else:
                    t["kinds"].add("any")
                break
        self.event(ev, None, label, args, node)
        self.st.alive = False

    def unsure(self, kind):
        """an operation that may raise in a way the models do not decide"""
        for t in self.tries:
            t["kinds"].add(kind)

    def catching(self, *names):
        return any(t["types"] is None or any(n in t["types"] for n in names) for t in self.tries)

    def x_If(self, s):
        c = self.simp(self.cond(s.test))
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, f, g):
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        self.stats["branches"] += 1
        st = self.st
        pc = st.pc
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = T.band(pc, c), T.band(pc, T.bnot(c))
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        self.st = s1
        if s1.pc is FALSE:
            s1.alive = False
        r1 = f() if s1.alive else None
        self.st = s2
        if s2.pc is FALSE:
            s2.alive = False
        r2 = g() if s2.alive else None
        m = self.merge_states(c, s1, s2, pc)
        if m.alive:
            m.assume = {k: v for k, v in m.assume.items() if k in st.assume} if (s1.alive and s2.alive) else m.assume
        self.st = st
        st.take(m)
        if r1 is None and r2 is None:
            return None
        if not s1.alive:
            return r2
        if not s2.alive:
            return r1
        return self.merge_val(c, r1, r2)

    def cond(self, e):
        return self.truth(self.eval(e))

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        load = ast.copy_location(ast.Name(s.target.id, ast.Load()), s) if isinstance(s.target, ast.Name) else s.target
        if isinstance(s.target, ast.Name):
            cur = self.eval(load)
            new = self.binop(s.op, cur, self.eval(s.value), s)
            # in-place on mutable objects
            if isinstance(cur, Ref) and self.obj(cur).kind == "arr":
                av = self.as_arr(new)
                self.event("store", cur, string("<inplace>"), new, s)
                self.put(cur, self.obj(cur).w(arr=av if av is not None else self.obj(cur).arr))
                return
            if self.inplace(cur, new, s):
                return
            if isinstance(cur, N) and cur.op in ("sym", "item", "attr") and cur.op != "num" and not (cur.op == "sym" and cur.args[1] in ("num", "int", "bool", "str")):
                self.event("inplace", cur, string("<augassign>"), new, s)
            self.assign(s.target, new)
            return
        if isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value)
            cur = self.getattr(o, s.target.attr, s.target)
            new = self.binop(s.op, cur, self.eval(s.value), s)
            if self.inplace(cur, new, s):
                return
            self.setattr(o, s.target.attr, new, s)
            return
        if isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value)
            k = self.eval(s.target.slice)
            cur = self.getitem(o, k, s.target)
            new = self.binop(s.op, cur, self.eval(s.value), s)
            if isinstance(s.target.value, ast.Attribute) and s.target.value.attr == "flat":
                return self.store_flat(self.eval(s.target.value.value), k, new, s.target)
            if self.inplace(cur, new, s):
                return
            self.setitem(o, k, new, s.target)
            return
        self.note("unsupported", "augassign")

    def inplace(self, cur, new, s):
        """+= and |= on lists, dicts and sets change the object itself"""
        k = self.obj(cur).kind if isinstance(cur, Ref) else None
        if not (k == "list" and isinstance(s.op, ast.Add) or k in ("dict", "set") and isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub))):
            return False
        o = self.obj(cur)
        self.event("store", cur, string("<extend>" if k == "list" else "<update>"), new, s)
        if isinstance(new, Ref):
            n = self.obj(new)
            self.put(cur, o.w(items=n.items, n=n.n, base=n.base))
        else:
            self.put(cur, o.w(n=None, items=(), base=self.freeze(new)))
        return True

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bindname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not st and isinstance(v, Ref) and self.obj(v).kind == "inst":
                el = self.lib.elems(v)
                v = v if el is None else Tup(el)
            if st:
                el = self.lib.elems(v)
                if el is not None and len(el) >= n - 1:
                    i, tail = st[0], n - 1 - st[0]
                    for e, x in zip(t.elts, el[:i] + [self.new_list(el[i:len(el) - tail])] + el[len(el) - tail:]):
                        self.assign(e, x)
                    return
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.unsupported("star-unpack", t, v))
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.unpack(v, i, n))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Attribute) and t.value.attr == "flat":
                return self.store_flat(self.eval(t.value.value), self.eval(t.slice), v, t)
            o = self.eval(t.value)
            k = self.eval(t.slice)
            self.setitem(o, k, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def store_flat(self, o, k, v, node):
        """array.flat[k] = v"""
        x = self.fr.xarr(o)
        whole = SliceV(None, None, None)
        if x is not None and len(x.shape) == 2 and isinstance(k, N) and T.is_num(k):
            i = int(k.args[0])
            k = Tup([num(i // x.shape[1]), num(i % x.shape[1])])
        elif not (x is not None and (len(x.shape) == 1 or isinstance(k, SliceV) and k.lo is None and k.hi is None and k.step is None and isinstance(v, N))):
            k, v = whole, self.unsupported("flat", node, o, k)
        self.setitem(o, k, v, node)

    def unpack(self, v, i, n):
        if isinstance(v, IteV):
            return self.merge_val(v.c, self.unpack(v.a, i, n), self.unpack(v.b, i, n))
        if isinstance(v, Ref) and self.obj(v).kind == "arr" and len(self.obj(v).arr.lens) > 1:
            return self.view(v, num(i))
        el = self.list_elems(v)
        if el is not None and i < len(el):
            return el[i]
        a = self.as_arr(v)
        if a is not None:
            return self.index_arr(a, num(i))
        if isinstance(v, N) and v.op == "tup" and i < len(v.args):
            return v.args[i]
        if isinstance(v, N) and v.op == "ite":
            return self.merge_val(v.args[0], self.unpack(v.args[1], i, n), self.unpack(v.args[2], i, n))
        return T.item(self.freeze(v), num(i))

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                self.store_item_any(o, self.eval(t.slice), DEL, t)
            elif isinstance(t, ast.Attribute):
                self.setattr(self.eval(t.value), t.attr, UNDEF, t)

    def store_item_any(self, o, k, v, node):
        if isinstance(o, IteV):
            self.branch(o.c, lambda: self.store_item_any(o.a, k, v, node), lambda: self.store_item_any(o.b, k, v, node))
            return
        f = self.dunder(o, "__delitem__") if v is DEL else None
        if f is not None:
            self.call(f, [k], {}, node)
            return
        if v is DEL and isinstance(o, Ref) and self.obj(o).kind == "list":
            el = self.list_elems(o)
            kk = k
            if isinstance(k, SliceV) and all(x is None or T.is_num(x) for x in (k.lo, k.hi, k.step)):
                kk = slice(*[None if x is None else int(x.args[0]) for x in (k.lo, k.hi, k.step)])
            elif T.is_num(k):
                kk = int(k.args[0])
            if el is not None and isinstance(kk, (int, slice)):
                self.event("store", o, self.freeze(k), v, node)
                try:
                    del el[kk]
                except IndexError:
                    self.err("indexerror", k, node=node)
                    return
                self.put(o, self.obj(o).w(items=tuple(Entry(num(i), x) for i, x in enumerate(el)), n=len(el)))
                return
        if isinstance(o, (Ref, N)):
            self.store_item(o, k, v, node)

    def x_With(self, s, i=0):
        if i == len(s.items):
            self.exec_block(s.body)
            return
        it = s.items[i]
        v = self.eval(it.context_expr)
        if not self.st.alive:
            return

        def body(x):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, x)
            self.x_With(s, i + 1)
        if isinstance(v, CmV):
            fr = self.frames[-1]
            n0 = len(fr.returns)
            self.call_func(v.func, v.args, v.kwargs, s, on_yield=body)
            if len(fr.returns) > n0:
                new = fr.returns[n0:]
                if len(new) == 1 and not self.st.alive:
                    pc, r, h, env = new[0]
                    fr.returns[n0:] = [(pc, r, self.st.heap, env)]
                else:
                    self.note("cm-return", self.curfunc())
            return
        if isinstance(v, SupV):
            self.guarded(lambda: body(NONE), [(v.types, lambda: None, None)], s)
            return
        cls = self.class_of(v) if isinstance(v, Ref) else None
        if cls is not None and isinstance(cls.lookup("__exit__"), FuncV):
            x = self.call(self.getattr(v, "__enter__", s), [], {}, s)
            self.finally_(lambda: body(x), lambda: self.call(self.getattr(v, "__exit__", s), [NONE, NONE, NONE], {}, s))
            return
        if isinstance(v, ExtV) or isinstance(v, N) and v.op == "app" and "ExitStack" in str(v.args[0]):
            self.note("unsupported", "with:" + str(v))
        body(v)

    x_AsyncWith = x_With

    def finally_(self, body, final):
        """run body, then final on every way out of it"""
        fr = self.frames[-1]
        n0 = len(fr.returns)
        loops = [(ctx, k, len(ctx[k])) for ctx in fr.loops[-1:] for k in ("break", "continue")]
        entry = self.try_entry(None)
        self.tries.append(entry)
        body()
        self.tries.pop()

        def on(st):
            cur, self.st = self.st, st
            final()
            self.st = cur
            return st
        for i in range(n0, len(fr.returns)):
            pc, v, h, env = fr.returns[i]
            st = State(dict(env), dict(h))
            st.pc = pc
            m = len(fr.returns)
            on(st)
            del fr.returns[m:]
            fr.returns[i] = (pc, v, st.heap, st.env)
        for ctx, k, n in loops:
            for i in range(n, len(ctx[k])):
                on(ctx[k][i])
        done = self.st.copy()
        for pc, env, h, names in entry["caught"]:
            self.st.take(State(env, h))
            self.st.pc = pc
            final()
            if self.st.alive:
                self.throw(names, string("reraise"), None)
        for k in entry["kinds"]:
            self.unsure(k)
        self.st.take(done)
        if self.st.alive:
            final()

    def x_Try(self, s):
        self.event("try", None, string(",".join(ast.unparse(h.type) if h.type else "*" for h in s.handlers)), None, s,
                   extra=s)

        def main():
            if not s.handlers:
                self.exec_block(s.body)
                self.exec_block(s.orelse)
                return
            self.guarded(lambda: self.exec_block(s.body),
                         [(self.eval(h.type) if h.type is not None else None, lambda h=h: self.exec_block(h.body), h.name) for h in s.handlers],
                         s, lambda: self.exec_block(s.orelse))
        if s.finalbody:
            self.finally_(main, lambda: self.exec_block(s.finalbody))
        else:
            main()

    def try_entry(self, types):
        """types: list of handler values, None for a bare handler"""
        known, names = True, set()
        for v in types if types is not None else ():
            if v is None:
                names.add("BaseException")
                continue
            for x in (v.items if isinstance(v, Tup) else [v]):
                n = self.excnames(x)
                if n is None:
                    known = False
                else:
                    names.add(n[0])
        return {"types": names if types is not None else None, "known": known, "depth": len(self.loopctx), "frame": len(self.frames) - 1,
                "all": types is None or bool({"Exception", "BaseException"} & names), "caught": [], "kinds": set()}

    HANDLED = {"KeyError": "lookup", "IndexError": "lookup", "LookupError": "lookup", "AttributeError": "attr", "ValueError": "value",
               "TypeError": "type", "ZeroDivisionError": "zero", "ArithmeticError": "zero", "FloatingPointError": "none",
               "ImportError": "import", "ModuleNotFoundError": "import", "OSError": "os", "FileNotFoundError": "os", "IOError": "os",
               "StopIteration": "stop", "NameError": "none", "AssertionError": "none", "KeyboardInterrupt": "none"}

    def guarded(self, body, handlers, node, orelse=None):
        """try: body, with handlers [(type value, action, name)]"""
        pre = self.st.copy()
        entry = self.try_entry([t for t, _, _ in handlers])
        self.tries.append(entry)
        body()
        self.tries.pop()
        if orelse is not None and self.st.alive:
            orelse()
        done = self.st
        res = done.copy()

        def handle(st, h, names):
            self.st = st
            t, act, name = h
            exc = T.app("exception")
            if name:
                self.bindname(name, exc)
            self.handling.append((names, exc))
            act()
            self.handling.pop()
            return self.st
        for pc, env, h, names in entry["caught"]:
            st = State(env, h)
            st.pc, st.assume = pc, dict(pre.assume)
            self.assume(st, pc, True)
            sel = next((x for x in handlers if self.takes(x[0], names)), handlers[-1])
            hs = handle(st, sel, names)
            c = self.relative(pc, pre.pc)
            if c is TRUE:
                res = hs
            else:
                res = self.merge_states(c, hs, res, pre.pc)
        kinds = entry["kinds"]
        for i, h in enumerate(handlers):
            one = self.try_entry([h[0]])
            want = {self.HANDLED.get(n, "*") for n in one["types"]}
            if not kinds or not ("*" in want or not one["known"] or "any" in kinds or kinds & want):
                continue
            cb = T.truth(mk("app", "exc@%s:%s" % (self.curfunc(), getattr(node, "lineno", 0)) + ("" if i == 0 else "#%d" % i)))
            st2 = pre.copy()
            st2.pc = T.band(pre.pc, cb)
            # state at the point of the exception is unknown between pre and done
            hs = handle(st2, h, sorted(one["types"])[:1] if len(one["types"]) == 1 and one["known"] else None)
            if res.alive or hs.alive:
                res = self.merge_states(cb, hs, res, pre.pc)
        self.st = done
        done.take(res)

    def takes(self, t, names):
        if t is None or names is None:
            return True
        e = self.try_entry([t])
        return any(n in e["types"] for n in names) or not e["known"] or e["all"]

    def relative(self, pc, pre):
        if pre is TRUE:
            return pc
        if pc is pre:
            return TRUE
        drop = set(pre.args) if pre.op == "and" else {pre}
        return T.band(*[x for x in (pc.args if pc.op == "and" else [pc]) if x not in drop])

    x_TryStar = x_Try

    def x_Break(self, s):
        if self.frames[-1].loops:
            self.frames[-1].loops[-1]["break"].append(self.st.copy())
        self.st.alive = False

    def x_Continue(self, s):
        if self.frames[-1].loops:
            self.frames[-1].loops[-1]["continue"].append(self.st.copy())
        self.st.alive = False

    def join_extra(self, states, base_pc):
        """join current state with recorded continue states"""
        for s2 in states:
            if not self.st.alive:
                self.st.take(s2.copy())
                continue
            cur = self.st.copy()
            c = s2.pc
            m = self.merge_states(c, s2, cur, base_pc)
            m.pc = T.bor(s2.pc, cur.pc)
            self.st.take(m)

    def x_For(self, s):
        it = self.eval(s.iter)
        self.for_value(it, s.target, s.body, s, s.orelse)

    def for_value(self, it, target, body, node, orelse=()):
        if isinstance(it, IteV):
            self.branch(it.c, lambda: self.for_value(it.a, target, body, node, orelse), lambda: self.for_value(it.b, target, body, node, orelse))
            return
        if isinstance(it, N) and it.op == "ite":
            self.branch(it.args[0], lambda: self.for_value(it.args[1], target, body, node, orelse), lambda: self.for_value(it.args[2], target, body, node, orelse))
            return
        self.stats["loops"] += 1
        seq = self.iter_elems(it)
        if seq is not None:
            if isinstance(it, Ref) and ("iterator", TRUE) in self.obj(it).extra:
                self.put(it, self.obj(it).w(items=(), n=0))
                if isinstance(getattr(node, "iter", None), ast.Name) and any(isinstance(x, ast.Break) for b in body for x in ast.walk(b)):
                    self.note("unsupported", "iterator left in a loop")
            self.for_unrolled(seq, target, body, node, orelse)
            return
        self.for_symbolic(self.domain(it, node), target, body, node)
        if orelse and self.st.alive:
            if any(isinstance(x, ast.Break) for b in body for x in ast.walk(b)):
                self.note("unsupported", "for-else")
            self.exec_block(orelse)

    def for_unrolled(self, seq, target, body, node, orelse=()):
        fr = self.frames[-1]
        breaks = []
        for v, p in seq:
            if not self.st.alive:
                break
            ctx = {"break": [], "continue": []}
            pc = self.st.pc

            def once():
                fr.loops.append(ctx)
                before = self.st.pc
                self.assign(target, v)
                self.exec_block(body)
                fr.loops.pop()
                self.join_extra(ctx["continue"], before)
                return None

            before = self.st.pc
            p = self.simp(p)
            self.branch(p, once, lambda: None)
            breaks += ctx["break"]
        if orelse and self.st.alive:
            self.exec_block(orelse)
        if breaks:
            self.join_extra(breaks, self.st.pc)

    def iter_elems(self, it):
        """[(value, present)] if the iteration sequence is statically finite"""
        if isinstance(it, Ref) and self.obj(it).kind == "arr":
            ls = self.obj(it).arr.lens
            if len(ls) > 1 and ls[0] is not None and T.is_num(ls[0]) and ls[0].args[0] <= UNROLL:
                return [(self.view(it, num(i)), TRUE) for i in range(int(ls[0].args[0]))]
        el = self.list_elems(it)
        if el is not None:
            return [(x, TRUE) for x in el] if len(el) <= UNROLL else None
        if isinstance(it, Ref):
            if self.fr.is_df(it):
                return [(k, TRUE) for k, _ in self.fr.cols(it)]
            ks = self.dict_keys(it)
            if ks is not None:
                return ks
            o = self.obj(it)
            if o.kind == "inst":
                f = self.dunder(it, "__iter__")
                if f is not None:
                    r = self.call(f, [], {}, None)
                    return self.iter_elems(r) if not (isinstance(r, Ref) and r.id == it.id) else None
                return None
            if o.kind == "list" and o.n is None and o.base is None and o.extra == () and o.items and all(e.var is None and T.is_num(e.key) for e in o.items):
                # conditional appends recorded with guards
                return [(e.val, e.guard) for e in o.items]
        if isinstance(it, ClassV) and it.members is not None:
            return [(it.lookup(m), TRUE) for m in it.members]
        if isinstance(it, ViewV):
            if it.kind in ("keys", "values", "items"):
                ks = self.dict_keys(it.obj)
                if ks is None:
                    return None
                if it.kind == "keys":
                    return ks
                if it.kind == "values":
                    return [(self.read_item(it.obj, k), p) for k, p in ks]
                return [(Tup([k, self.read_item(it.obj, k)]), p) for k, p in ks]
            if it.kind == "enumerate":
                sub = self.iter_elems(it.obj)
                if sub is None or any(p is not TRUE for _, p in sub):
                    return None
                st = it.extra if it.extra is not None else ZERO
                return [(Tup([T.add(st, num(i)), x]), TRUE) for i, (x, _) in enumerate(sub)]
            if it.kind == "zip":
                cnt = [isinstance(o, ViewV) and o.kind == "count" for o in it.obj]
                subs = [None if c else self.iter_elems(o) for o, c in zip(it.obj, cnt)]
                if all(cnt) or any(not c and (s is None or any(p is not TRUE for _, p in s)) for s, c in zip(subs, cnt)):
                    return None
                n = min(len(s) for s in subs if s is not None)
                subs = [[(T.add(o.obj, T.mul(num(i), o.extra)), TRUE) for i in range(n)] if s is None else s for s, o in zip(subs, it.obj)]
                return [(Tup([x for x, _ in row]), TRUE) for row in zip(*subs)]
            if it.kind == "product":
                subs = [self.iter_elems(o) for o in it.obj]
                if any(s is None for s in subs):
                    return None
                out = [((), TRUE)]
                for s in subs:
                    out = [(a + (x,), T.band(p, q)) for a, p in out for x, q in s]
                return [(Tup(a), p) for a, p in out]
            if it.kind in ("list", "reversed", "sorted"):
                sub = self.iter_elems(it.obj)
                if sub is None:
                    return None
                if it.kind == "reversed":
                    return sub[::-1]
                if it.kind == "sorted":
                    if all(T.is_const(x) and x.op in ("str", "num") for x, _ in sub):
                        try:
                            return sorted(sub, key=lambda t: t[0].args[0])
                        except TypeError:
                            return None
                    return None
                return sub
        return None

    def loop_var(self, node, kind):
        d = len(self.loopctx)
        return sym("$L%d:%s:%s" % (d, self.curfunc().split(".")[-1], getattr(node, "lineno", 0)), kind)

    def domain(self, it, node):
        if isinstance(it, RangeV):
            var = self.loop_var(node, "int")
            n = self.length(it)
            return Dom("range", n, var, T.add(it.lo, T.mul(var, it.step)),
                       lambda x: T.band(T.le(ZERO, x), T.lt(x, n)))
        if isinstance(it, ArrV) or (isinstance(it, Ref) and self.obj(it).kind == "arr"):
            a = self.as_arr(it)
            var = self.loop_var(node, "int")
            n = self.length(a)
            return Dom("range", n, var, self.index_arr(a, var), lambda x: T.band(T.le(ZERO, x), T.lt(x, n)))
        if isinstance(it, ViewV) and it.kind == "enumerate":
            st = it.extra if it.extra is not None else ZERO
            d = self.domain(it.obj, node)
            if d.kind == "range":
                return Dom("range", d.node, d.var, Tup([T.add(st, d.var), d.elem]), d.contains)
            var = self.loop_var(node, "int")
            fo = self.freeze(it.obj)
            n = mk("len", fo)
            return Dom("range", n, var, Tup([T.add(st, var), self.elem_at(it.obj, var)]), lambda x: T.band(T.le(ZERO, x), T.lt(x, n)))
        if isinstance(it, ViewV) and it.kind == "zip":
            counts = [isinstance(o, ViewV) and o.kind == "count" for o in it.obj]
            if any(counts) and not all(counts):
                d = self.domain(ViewV("enumerate", ViewV("zip", [o for o, c in zip(it.obj, counts) if not c])), node)
                xs = iter(d.elem.items[1].items)
                return Dom(d.kind, d.node, d.var, Tup([T.add(o.obj, T.mul(d.var, o.extra)) if c else next(xs) for o, c in zip(it.obj, counts)]), d.contains)
            ds = [self.domain(o, node) for o in it.obj]
            rd = [d for d in ds if d.kind == "range"]
            if len(rd) == len(ds):
                return Dom("range", rd[0].node, rd[0].var, Tup([d.elem for d in ds]), rd[0].contains)
            var = self.loop_var(node, "int")
            n = mk("len", self.freeze(it.obj[0]))
            return Dom("range", n, var, Tup([self.elem_at(o, var) for o in it.obj]), lambda x: T.band(T.le(ZERO, x), T.lt(x, n)))
        if isinstance(it, ViewV) and it.kind in ("keys", "values", "items"):
            snapd = self.obj(it.obj)
            var = self.loop_var(node, "any")
            o = it.obj
            st = self.st

            def contains(x, o=o, snap_=snapd):
                return self.has_in_snapshot(o, snap_, x)

            val = None
            if it.kind != "keys":
                val = self.read_item(o, var)
            elem = {"keys": var, "values": val, "items": Tup([var, val])}[it.kind]
            return Dom("keys", self.freeze(o), var, elem, contains)
        if isinstance(it, ViewV) and it.kind == "itertuples":
            var = self.loop_var(node, "any")
            fo = self.freeze(it.obj)
            return Dom("keys", T.app("rows", fo), var, var, lambda x: mk("has", fo, x))
        if isinstance(it, ViewV) and it.kind == "iterrows":
            var = self.loop_var(node, "any")
            fo = self.freeze(it.obj)
            return Dom("keys", T.app("rows", fo), var, Tup([var, T.app("row", fo, var)]), lambda x: mk("has", fo, x))
        if isinstance(it, ViewV) and it.kind in ("list", "sorted", "reversed"):
            return self.domain(it.obj, node)
        if isinstance(it, CompV) and it.cond is TRUE and it.dom.kind == "range":
            var = self.loop_var(node, "int")
            return Dom("range", it.dom.node, var, self.subst_val(it.val, {it.dom.var: var}), it.dom.contains)
        if isinstance(it, Ref) and self.obj(it).kind in ("dict", "df"):
            return self.domain(ViewV("keys", it), node)
        var = self.loop_var(node, "any")
        fo = self.freeze(it)
        return Dom("keys", fo, var, var, lambda x: mk("has", fo, x))

    def elem_at(self, o, i):
        a = self.as_arr(o)
        if a is not None:
            return self.index_arr(a, i)
        return T.item(self.freeze(o), i)

    def has_in_snapshot(self, o, snap_, x):
        key = o.id if isinstance(o, Ref) else o
        old = self.st.heap.get(key)
        self.st.heap[key] = snap_
        r = self.has_item(o, x)
        if old is None:
            self.st.heap.pop(key, None)
        else:
            self.st.heap[key] = old
        return r

    # symbolic loops ------------------------------------------------------
    def shape_mu(self, name, v, pre):
        """symbol standing for the loop-carried value v (shape of pre)"""
        if isinstance(pre, N) or pre is UNDEF:
            kind = "any"
            if isinstance(pre, N):
                if pre.op == "num" or pre.op in ("sum", "prod", "fn") or (pre.op == "sym" and pre.args[1] in ("num", "int")):
                    kind = "num"
                    if pre.op == "num" and pre.args[0].denominator == 1 or (pre.op == "sym" and pre.args[1] == "int"):
                        kind = "num"
                elif T.is_bool(pre):
                    kind = "bool"
            return sym(name, kind)
        if isinstance(pre, ArrV):
            return ArrV(self.mu_arr(name, len(pre.lens)), pre.lens)
        if isinstance(pre, Tup) and isinstance(v, Tup) and len(v.items) == len(pre.items):
            return Tup([self.shape_mu("%s.%d" % (name, i), y, x) for i, (x, y) in enumerate(zip(pre.items, v.items))])
        return sym(name, "any")

    def mu_arr(self, name, nd):
        m = sym(name, "any")
        return T.item(m, IX[0]) if nd == 1 else mk("item2", m, *IX[:nd])

    def for_symbolic(self, dom, target, body, node, while_cond=None):
        fr = self.frames[-1]
        site = "%d:%s:%s" % (len(self.loopctx), self.curfunc().split(".")[-1], getattr(node, "lineno", 0))
        pre = self.st.copy()
        self.loopctx.append(site)

        def run(state):
            self.st = state
            ctx = {"break": [], "continue": []}
            fr.loops.append(ctx)
            pc = self.st.pc
            if while_cond is not None:
                c = self.simp(self.cond(while_cond))
            else:
                c = TRUE
                self.assign(target, dom.elem)
            self.exec_block(body)
            fr.loops.pop()
            self.join_extra(ctx["continue"], pc)
            return ctx, c

        rec = self.recording
        st_obj = self.st
        # discover what the body changes
        changed_env, changed_heap = set(), {}
        cur = pre
        nret = len(fr.returns)
        for _ in range(4):
            s = self.havoc(pre, changed_env, changed_heap, site)
            run(s[0])
            after = self.st
            ce, ch = self.diff(s[0] if False else s[1], after)
            new = (ce - changed_env) or any(k not in changed_heap or (v - changed_heap[k]) for k, v in ch.items())
            changed_env |= ce
            for k, v in ch.items():
                changed_heap[k] = changed_heap.get(k, set()) | v
            del fr.returns[nret:]
            self.recording = rec and False
            if not new:
                break
        self.recording = rec
        # final pass
        start, snapshot, mus = self.havoc(pre, changed_env, changed_heap, site, want=True)
        ev0 = len(self.events)
        ctx, wc = run(start)
        after = self.st
        self.loopctx.pop()
        early = fr.returns[nret:]
        self.st = st_obj
        if not after.alive and not ctx["break"] and not early:
            # body never completes normally
            st_obj.take(pre)
            return
        if early or ctx["break"]:
            self.note("loop-exit", "%s:%s" % (self.curfunc(), getattr(node, "lineno", 0)))
        if not after.alive:
            after = ctx["break"][0] if ctx["break"] else snapshot
        self.close(pre, after, mus, dom, changed_env, changed_heap, wc if while_cond is not None else None,
                   bool(early or ctx["break"]), site)
        if early:
            # search loops: the return may or may not have been taken
            c = T.truth(T.app("loopexit:" + site, *( [self.freeze(dom.node)] if dom else []), *[r[0] for r in early]))
            del fr.returns[nret:]
            pc0 = self.st.pc
            for pc, v, h, env in early:
                fr.returns.append((T.band(pc0, c, pc) if pc is not TRUE else T.band(pc0, c), v, h, env))
            self.st.pc = T.band(pc0, T.bnot(c))

    def diff(self, a, b):
        ce = {k for k in b.env if k not in a.env or a.env[k] is not b.env[k]}
        ch = {}
        for k, o in b.heap.items():
            p = a.heap.get(k)
            if p is o:
                continue
            if p is None:
                if isinstance(k, N):
                    p = Obj("unk", base=k)
                else:
                    continue  # allocated inside the loop
            locs = set()
            for at in o.attrs:
                if o.attrs[at] is not p.attrs.get(at):
                    locs.add(("attr", at))
            if o.arr is not p.arr:
                locs.add(("arr",))
            if o.items != p.items:
                if all(e.var is None and T.is_const(e.key) and e.guard is TRUE for e in o.items) and all(e.var is None and T.is_const(e.key) and e.guard is TRUE for e in p.items) and o.kind != "list":
                    pk = {e.key: e.val for e in p.items}
                    for e in o.items:
                        if e.key not in pk or pk[e.key] is not e.val:
                            locs.add(("item", e.key))
                else:
                    locs.add(("items",))
            if o.n != p.n or o.extra != p.extra:
                locs.add(("items",))
            if locs:
                ch[k] = locs
        return ce, ch

    def havoc(self, pre, cenv, cheap, site, want=False):
        s = pre.copy()
        mus = {}
        for k in sorted(cenv):
            if k in pre.env:
                v = self.shape_mu("$m:%s:%s" % (site, k), None, pre.env[k])
                if isinstance(pre.env[k], Ref):
                    v = self.mu_ref("$m:%s:%s" % (site, k), s, pre.env[k])
                s.env[k] = v
                mus[("env", k)] = v
            else:
                s.env.pop(k, None)
        for k, locs in cheap.items():
            o = pre.heap.get(k)
            if o is None:
                o = Obj("unk", base=k)
            nm = "$m:%s:h%s" % (site, self.objname(k, pre))
            if ("items",) in locs:
                m = sym(nm + "[]", "any")
                keep = ()
                o = o.w(items=keep, base=m, n=None, extra=())
                mus[("heap", k, ("items",))] = m
            for l in sorted(locs, key=str):
                if l[0] == "attr":
                    old = o.attrs.get(l[1], UNDEF)
                    if old is UNDEF and o.base is not None and isinstance(o.base, N):
                        old = T.attr(o.base, l[1])
                    v = self.shape_mu(nm + "." + l[1], None, old)
                    if isinstance(old, Ref):
                        v = self.mu_ref(nm + "." + l[1], s, old)
                    at = dict(o.attrs)
                    at[l[1]] = v
                    o = o.w(attrs=at)
                    mus[("heap", k, l)] = v
                elif l[0] == "item" and ("items",) not in locs:
                    old = UNDEF
                    for e in o.items:
                        if e.key is l[1]:
                            old = e.val
                    if old is UNDEF:
                        if o.base is None:
                            continue
                        old = T.item(o.base, l[1])
                    v = self.shape_mu(nm + "[%s]" % (l[1],), None, old)
                    if isinstance(old, Ref):
                        v = self.mu_ref(nm + "[%s]" % (l[1],), s, old)
                    o = o.w(items=tuple(Entry(e.key, v) if e.key is l[1] else e for e in o.items) if any(e.key is l[1] for e in o.items) else o.items + (Entry(l[1], v),))
                    mus[("heap", k, l)] = v
                elif l[0] == "arr":
                    v = ArrV(self.mu_arr(nm, len(o.arr.lens)), o.arr.lens)
                    o = o.w(arr=v)
                    mus[("heap", k, l)] = v
            s.heap[k] = o
        s.assume = {}
        if want:
            return s, s.copy(), mus
        return s, s.copy()

    def mu_ref(self, name, s, pre):
        o = s.heap.get(pre.id)
        if o is not None and o.kind == "arr":
            return ArrV(self.mu_arr(name, len(o.arr.lens)), o.arr.lens)
        return sym(name, "any")

    def objname(self, k, st):
        if isinstance(k, N):
            return T.show(k, 4)
        # name by a path if reachable from env/self, else id
        return self.paths(st).get(k, "#%s" % k)

    def paths(self, st):
        out = {}
        todo = [(n, v) for n, v in sorted(st.env.items()) if isinstance(v, Ref)]
        d = 0
        while todo and d < 4000:
            d += 1
            p, v = todo.pop(0)
            if v.id in out:
                continue
            out[v.id] = p
            o = st.heap.get(v.id)
            if o is None:
                continue
            for a, x in o.attrs.items():
                if isinstance(x, Ref):
                    todo.append((p + "." + a, x))
            for e in o.items:
                if isinstance(e.val, Ref) and e.var is None:
                    todo.append(("%s[%s]" % (p, e.key), e.val))
        return out

    def close(self, pre, after, mus, dom, cenv, cheap, wcond, irregular, site):
        """turn the single abstract iteration into the effect of the whole loop"""
        st = self.st
        st.take(pre)
        self_heap_after = after.heap
        # collect recurrence system
        sysm = []  # (mu sym, init node, step node)
        allmu = []

        def pair(mu, init, step, heap_init, heap_step):
            h = st.heap
            if isinstance(mu, ArrV):
                m = [x for x in T.frees(mu.content) if x.args[0].startswith("$m:")]
                m = [x for x in m if T.walk(mu.content) and (T.item(x, IX[0]) is mu.content or mu.content.op == "item2")]
                msym = m[0] if m else None
                st.heap = heap_init
                ai = self.as_arr(init)
                st.heap = heap_step
                as_ = self.as_arr(step)
                if as_ is None and isinstance(step, N):
                    as_ = ArrV(step, mu.lens)
                if ai is None and isinstance(init, N):
                    ai = ArrV(init, mu.lens)
                st.heap = h
                if msym is None or ai is None or as_ is None:
                    return None
                return msym, mk("lam", ai.content, NONE, tuple(IX[:len(mu.lens)])), mk("lam", as_.content, NONE, tuple(IX[:len(mu.lens)])), mu
            if isinstance(mu, Tup):
                return None
            st.heap = heap_init
            i = self.freeze(init) if init is not UNDEF else UNDEF
            st.heap = heap_step
            s_ = self.freeze(step)
            st.heap = h
            return mu, i, s_, mu

        entries = {}
        for loc, mu in mus.items():
            if loc[0] == "env":
                init, step = pre.env[loc[1]], after.env.get(loc[1], UNDEF)
            else:
                po = pre.heap.get(loc[1]) or Obj("unk", base=loc[1])
                ao = after.heap.get(loc[1])
                l = loc[2]
                if l[0] == "attr":
                    init = po.attrs.get(l[1], UNDEF)
                    if init is UNDEF and isinstance(po.base, N):
                        init = T.attr(po.base, l[1])
                    step = ao.attrs[l[1]]
                elif l[0] == "item":
                    init = next((e.val for e in po.items if e.key is l[1]), None)
                    if init is None:
                        init = T.item(po.base, l[1])
                    step = next((e.val for e in ao.items if e.key is l[1]), None)
                elif l[0] == "arr":
                    init, step = po.arr, ao.arr
                else:
                    continue
            if isinstance(mu, Tup):
                st.env.setdefault("$", NONE)
            p = pair(mu, init, step, pre.heap, after.heap)
            entries[loc] = (mu, init, step, p)
            if p:
                sysm.append(p)
        musyms = {p[0] for p in sysm} | {m for m in mus.values() if isinstance(m, N)}
        for loc, m in mus.items():
            if isinstance(m, Tup):
                for x in m.items:
                    if isinstance(x, N):
                        musyms.add(x)
        bysym = {p[0]: p for p in sysm}

        def reach(node):
            seen, todo = [], [m for m in T.frees(node) if m in musyms]
            while todo:
                m = todo.pop()
                if m in seen:
                    continue
                seen.append(m)
                if m in bysym:
                    todo += [x for x in T.frees(bysym[m][2]) if x in musyms and x not in seen]
            return seen

        kind = dom.kind if dom else "while"
        dnode = wcond if wcond is not None else dom.node
        var = dom.var if dom else sym("$w", "int")

        def loopnode(p):
            r = reach(p[2])
            if wcond is not None:
                r = list(dict.fromkeys(r + reach(wcond)))
            ms = sorted([m for m in set(r) | {p[0]} if m in bysym], key=lambda m: m.args[0])
            if irregular:
                return T.app("?loop", p[0], *[bysym[m][1] for m in ms], *[bysym[m][2] for m in ms], dnode)
            return mk("loop", kind, dnode, var, p[0], mk("muset", tuple(ms), *[bysym[m][1] for m in ms], *[bysym[m][2] for m in ms]))

        def final(p, init, step, mu):
            msym, i, s_, _ = p
            if isinstance(mu, ArrV):
                c = s_.args[0]
                muc = mu.content
                ic = i.args[0]
                if c is muc:
                    return ArrV(ic, mu.lens)
                # point-wise store at a loop-dependent index, independent of carried values
                if not irregular and kind == "range" and c.op == "ite" and c.args[2] is muc and not reach(c.args[1]) and not reach(c.args[0]):
                    sol = self.solve_cond(c.args[0], var, IX[0])
                    if sol is not None:
                        inv, extra = sol
                        cc = T.band(dom.contains(inv), T.subst(extra, {var: inv}))
                        return ArrV(T.ite(cc, T.subst(c.args[1], {var: inv}), ic), mu.lens)
                if not reach(c) and var not in T.frees(c) and not irregular and wcond is None:
                    return ArrV(T.ite(T.lt(ZERO, self.count(dom)), c, ic), mu.lens)
                ln = loopnode(p)
                return ArrV(T.item(ln, IX[0]) if len(mu.lens) == 1 else mk("item2", ln, *IX[:len(mu.lens)]), mu.lens)
            if s_ is msym:
                return init
            if not irregular and wcond is None:
                g = T.sub(s_, msym) if s_.op in ("sum", "sym", "num", "prod", "fn", "ite", "item", "sumover") else None
                if s_.op == "ite":
                    # conditional accumulation
                    g = self.acc_ite(s_, msym)
                if g is not None and not reach(g) and msym not in T.frees(g):
                    if kind == "range":
                        return T.add(self.freeze(init), T.sumover("range", dnode, var, g)) if init is not UNDEF else UNDEF
                    return T.add(self.freeze(init), T.sumover("keys", dnode, var, g)) if init is not UNDEF else UNDEF
                if not reach(s_) and var not in T.frees(s_):
                    if isinstance(init, N) and init is not UNDEF:
                        return T.ite(T.lt(ZERO, self.count(dom)), s_, init)
            return loopnode(p)

        # env
        for k in sorted(cenv):
            loc = ("env", k)
            if loc in entries:
                mu, init, step, p = entries[loc]
                if p is None:
                    if isinstance(mu, Tup) and isinstance(step, Tup):
                        st.env[k] = self.unsupported("loop-tuple", None, step)
                    else:
                        st.env[k] = self.unsupported("loop-carried", None)
                    continue
                st.env[k] = final(p, init, step, mu)
            else:
                # first assigned in the loop: value of last iteration
                v = after.env.get(k)
                if v is None:
                    continue
                if isinstance(v, N):
                    r = reach(v)
                    if not r and var not in T.frees(v):
                        st.env[k] = v
                    else:
                        m = sym("$m:%s:last:%s" % (site, k), "any")
                        bysym[m] = (m, UNDEF, v, m)
                        musyms.add(m)
                        st.env[k] = loopnode(bysym[m])
                elif isinstance(v, Ref) and v.id not in pre.heap:
                    st.heap[v.id] = after.heap[v.id]
                    st.env[k] = v
                else:
                    st.env[k] = v
        # heap
        for k, locs in cheap.items():
            po = pre.heap.get(k) or Obj("unk", base=k)
            ao = after.heap.get(k)
            o = po
            if ("items",) in locs:
                o = self.close_items(po, ao, mus.get(("heap", k, ("items",))), dom, reach, irregular or wcond is not None, site)
            for l in locs:
                loc = ("heap", k, l)
                if l[0] == "attr":
                    mu, init, step, p = entries[loc]
                    at = dict(o.attrs)
                    at[l[1]] = final(p, init, step, mu) if p else self.unsupported("loop-carried", None)
                    o = o.w(attrs=at)
                elif l[0] == "item" and ("items",) not in locs:
                    if loc in entries:
                        mu, init, step, p = entries[loc]
                        v = final(p, init, step, mu) if p else self.unsupported("loop-carried", None)
                    else:
                        v = next(e.val for e in ao.items if e.key is l[1])
                        if isinstance(v, N) and (reach(v) or var in T.frees(v)):
                            m = sym("$m:%s:last:%s%s" % (site, self.objname(k, pre), l[1]), "any")
                            bysym[m] = (m, UNDEF, v, m)
                            musyms.add(m)
                            v = loopnode(bysym[m])
                    if any(e.key is l[1] for e in o.items):
                        o = o.w(items=tuple(Entry(e.key, v) if e.key is l[1] else e for e in o.items))
                    else:
                        o = o.w(items=o.items + (Entry(l[1], v),))
                elif l[0] == "arr":
                    mu, init, step, p = entries[loc]
                    o = o.w(arr=final(p, init, step, mu) if p else ArrV(self.unsupported("loop-arr", None), po.arr.lens))
            st.heap[k] = o
        # objects allocated inside the loop stay visible (values of the last iteration)
        for k, o in after.heap.items():
            if k not in st.heap and not isinstance(k, N):
                st.heap[k] = o
        st.pc = pre.pc

    def count(self, dom):
        return dom.node if dom.kind == "range" else mk("len", dom.node)

    def acc_ite(self, s, m):
        if s is m:
            return ZERO
        if s.op == "ite":
            a, b = self.acc_ite(s.args[1], m), self.acc_ite(s.args[2], m)
            if a is None or b is None or m in T.frees(s.args[0]):
                return None
            return T.ite(s.args[0], a, b)
        g = T.sub(s, m)
        return None if m in T.frees(g) else g

    def solve_cond(self, c, var, ix):
        """c contains eq(ix, f(var)): return (inverse in ix, remaining condition)"""
        parts = list(c.args) if c.op == "and" else [c]
        for i, x in enumerate(parts):
            if x.op == "eq":
                d = T.sub(x.args[0], x.args[1]) if T.maybe_num(x.args[0]) and T.maybe_num(x.args[1]) else None
                if d is None:
                    continue
                cc, dd = T._lin(d)
                if var in dd and ix in T.frees(d) and all(var not in T.frees(y) for y in dd if y is not var):
                    inv = T.scale(-1 / dd[var], T.sub(d, T.scale(dd[var], var)))
                    rest = parts[:i] + parts[i + 1:]
                    if any(ix in T.frees(r) for r in rest):
                        return None
                    return inv, T.band(*rest)
        return None

    def close_items(self, po, ao, mu, dom, reach, irregular, site):
        ents = list(po.items)
        extra = list(po.extra)
        base, n = po.base, po.n
        for e in ao.items:
            val = e.val
            frozen = val if isinstance(val, N) else None
            carried = bool(reach(self.freeze_in(val, ao)) if not isinstance(val, Ref) else False) or bool(reach(e.guard))
            var = dom.var if dom else None
            if e.var is None and dom is not None and not irregular and not carried:
                if var in T.frees(e.key):
                    consts = self.finite_guard(e.guard, var) if e.key is var else None
                    if consts is not None:
                        for c in consts:
                            m = {var: c}
                            g = T.band(dom.contains(c), T.subst(e.guard, m))
                            if g is not FALSE:
                                ents.append(Entry(c, self.subst_val(val, m), g))
                        continue
                    ents.append(Entry(e.key, val, e.guard, var, dom))
                    continue
                if var not in T.frees(e.guard) and not (frozen is not None and var in T.frees(frozen)):
                    ents.append(Entry(e.key, val, T.band(e.guard, T.lt(ZERO, self.count(dom))) if po.kind != "list" else e.guard, None, None))
                    continue
            # loop-carried store: keep as quantified entry with an opaque value
            self.note("loop-store", site)
            key = e.key
            v = T.app("loopval", mk("sym", site, "any"), self.freeze_in(val, ao), dom.node if dom else NONE)
            if dom is not None and var in T.frees(key):
                ents.append(Entry(key, v, e.guard, var, dom))
            else:
                ents.append(Entry(key, v, e.guard, None, None))
        for x in ao.extra:
            if x not in extra:
                extra.append(x + (("dom", dom),) if dom else x)
        return po.w(items=tuple(ents), extra=tuple(extra), n=None if ao.n is None else po.n)

    def freeze_in(self, v, ao):
        return self.freeze(v) if not isinstance(v, Ref) or v.id in self.st.heap else T.app("newobj")

    def finite_guard(self, g, var):
        parts = list(g.args) if g.op == "and" else [g]
        for p in parts:
            if p.op == "in" and p.args[0] is var:
                return p.args[1]
            if p.op == "eq" and var in p.args:
                o = p.args[0] if p.args[1] is var else p.args[1]
                if T.is_const(o):
                    return (o,)
        return None

    def x_While(self, s):
        # try unrolling with constant conditions
        for i in range(UNROLL):
            c = self.simp(self.cond(s.test))
            if c is FALSE:
                if s.orelse and self.st.alive:
                    self.exec_block(s.orelse)
                return
            if c is not TRUE:
                break
            if i == 0:
                saved = self.st.copy()
            ctx = {"break": [], "continue": []}
            self.frames[-1].loops.append(ctx)
            self.exec_block(s.body)
            self.frames[-1].loops.pop()
            self.join_extra(ctx["continue"], self.st.pc)
            if ctx["break"] or not self.st.alive:
                if not self.st.alive and len(ctx["break"]) == 1:
                    self.st.take(ctx["break"][0])
                    return
                self.st.take(saved)
                break
        self.stats["loops"] += 1
        self.for_symbolic(None, None, s.body, s, while_cond=s.test)
        if s.orelse and self.st.alive:
            if any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)):
                self.note("unsupported", "while-else")
            self.exec_block(s.orelse)

    # -- expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unsupported("expr:" + type(e).__name__, e)
        return m(e)

    def const(self, v):
        if v is None:
            return NONE
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return T.app("ellipsis")
        return T.app("const", string(repr(v)))

    def e_Constant(self, e):
        return self.const(e.value)

    def lookup(self, name):
        if name in self.st.env:
            return self.st.env[name]
        fr = self.frames[-1]
        f = fr.func
        if name in fr.cellnames:
            return self.obj(fr.cells).attrs.get(name, UNDEF)
        v = self.lookup_outer(f, name)
        if v is not None:
            return v
        m = f.mod
        if m.ns is not None:
            o = self.st.heap.get(m.ns.id)
            if o is not None and name in o.attrs and o.attrs[name] is not UNDEF:
                return o.attrs[name]
        env = m.env
        if not m.loaded and self.frames and getattr(self.frames[0], "mod", None) is m:
            env = self.frame_env(self.frames[0])
        if name in env:
            return env[name]
        return None

    def frame_env(self, d):
        """variables of an activation as they are now"""
        for i, fr in enumerate(self.frames):
            if fr is d:
                return self.st.env if i == len(self.frames) - 1 else self.frames[i + 1].outer.env
        return d.final

    def lookup_outer(self, f, name):
        """variable of the functions the definition is nested in"""
        d = f.frame
        if d is None:
            return None
        if name in d.cellnames:
            return self.obj(d.cells).attrs.get(name, UNDEF)
        env = self.frame_env(d)
        if env is not None and name in env:
            return env[name]
        if f.closure is not None and name in f.closure:
            return f.closure[name]
        return self.lookup_outer(d.func, name)

    def nowhere(self, name):
        """no binding of the name can exist: not in the function, the functions around it, the module or the builtins"""
        f = self.frames[-1].func
        m = f.mod
        if hasattr(builtins, name) or getattr(m, "tree", None) is None:
            return False
        if m.bound is None:
            m.bound = bindings(m.tree.body, False), bindings(m.tree.body, True)
        if name in m.bound[0] or "*" in m.bound[0] or f.frame is not None and name in m.bound[1]:
            return False
        return name not in bindings([f.node], True)

    def e_Name(self, e):
        v = self.lookup(e.id)
        if v is None:
            if self.nowhere(e.id):
                return self.err("nameerror", string(e.id), node=e)
            return ExtV("builtins." + e.id)
        if v is UNDEF:
            return self.err("nameerror", string(e.id), node=e)
        if isinstance(v, IteV) and (v.a is UNDEF or v.b is UNDEF):
            return v.b if v.a is UNDEF else v.a
        return v

    def e_Tuple(self, e):
        return Tup(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                el = self.list_elems(v)
                if el is None:
                    se = self.iter_elems(v)
                    el = [a for a, p in se] if se is not None and all(p is TRUE for _, p in se) else None
                if el is None:
                    out.append(self.unsupported("star", x, v))
                else:
                    out += el
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        return self.new_list(self.elts(e.elts))

    def e_Set(self, e):
        el = self.elts(e.elts)
        return self.alloc("set", items=tuple(Entry(num(i), v) for i, v in enumerate(el)), n=len(el))

    def e_Dict(self, e):
        r = self.alloc("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.eval(v), e, silent=True)
            else:
                kk = self.eval(k)
                vv = self.eval(v)
                rec, self.recording = self.recording, False
                self.store_item(r, kk if isinstance(kk, N) else self.freeze(kk), vv, e)
                self.recording = rec
        return r

    def dict_update(self, d, src, node, silent=False):
        if silent:
            rec, self.recording = self.recording, False
        try:
            if isinstance(src, IteV):
                self.branch(src.c, lambda: self.dict_update(d, src.a, node), lambda: self.dict_update(d, src.b, node))
                return
            ks = self.dict_keys(src)
            if ks is not None:
                for k, p in ks:
                    v = self.read_item(src, k)
                    if p is TRUE:
                        self.store_item(d, k, v, node)
                    else:
                        self.branch(p, lambda: self.store_item(d, k, v, node), lambda: None)
                return
            el = self.iter_elems(src)
            if el is not None:
                prs = [(self.lib.elems(x), p) for x, p in el]
                if all(x is not None and len(x) == 2 for x, _ in prs):
                    for (k, v), p in prs:
                        self.branch(p, lambda: self.store_item(d, self.freeze(k), v, node), lambda: None)
                    return
            var = sym("$u%d" % (node.lineno if node is not None else 0), "any")
            if isinstance(src, (Ref, N)):
                so = self.obj(src)
                v = self.read_item(src, var) if isinstance(src, Ref) or src in self.st.heap else T.item(src, var)
                o = self.obj(d)
                self.event("store", d, var, v, node)
                dom = Dom("keys", self.freeze(src), var, var, lambda x, so=so, src=src: self.has_in_snapshot(src, so, x))
                if isinstance(src, Ref) and so.base is not None and not so.items and False:
                    pass
                self.put(d, o.w(items=o.items + (Entry(var, v, TRUE, var, dom),)))
                return
            self.event("store", d, string("<update>"), None, node)
            o = self.obj(d)
            self.put(d, o.w(base=T.app("?update", o.base or NONE, self.freeze(src))))
        finally:
            if silent:
                self.recording = rec

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
                continue
            x = self.eval(v.value)
            spec = self.eval(v.format_spec) if v.format_spec is not None else string("")
            parts.append(self.lib.fmt(x, spec, {-1: "", 115: "s", 114: "r", 97: "a"}[v.conversion]))
        return self.lib.cat(parts)

    def e_FormattedValue(self, e):
        return self.eval(e.value)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Lambda(self, e):
        f = FuncV(e, self.frames[-1].func.mod)
        self.nest(f)
        self.eval_defaults(f)
        return f

    def nest(self, f):
        fr = self.frames[-1]
        if not hasattr(fr, "mod"):
            f.frame, f.closure = fr, dict(self.st.env)
            fr.closures = True

    def e_IfExp(self, e):
        c = self.simp(self.cond(e.test))
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if c is TRUE:
                return go(i + 1) if isand else v
            if c is FALSE:
                return v if isand else go(i + 1)
            if isand:
                r = self.branch(c, lambda: go(i + 1), lambda: v if not isinstance(v, N) or not T.is_bool(v) else FALSE)
            else:
                r = self.branch(c, lambda: v if not isinstance(v, N) or not T.is_bool(v) else TRUE, lambda: go(i + 1))
            return r

        return go(0)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return T.bnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Ref) and self.dunder(v, "__neg__") is not None:
                return self.call(self.dunder(v, "__neg__"), [], {}, e)
            return self.elementwise(T.neg, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if self.fr.explicitish(v) and getattr(v, "b", False):
            return self.fr.mark(self.elementwise(lambda x: T.bnot(T.truth(x)), v))
        if isinstance(v, Ref) and self.dunder(v, "__invert__") is not None:
            return self.call(self.dunder(v, "__invert__"), [], {}, e)
        return self.elementwise(lambda x: T.bnot(x) if T.is_bool(x) and not isinstance(v, N) else T.app("invert", x), v)

    def e_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right), e)

    def binop(self, op, a, b, node):
        if isinstance(a, IteV):
            return self.branch(a.c, lambda: self.binop(op, a.a, b, node), lambda: self.binop(op, a.b, b, node))
        if isinstance(b, IteV):
            return self.branch(b.c, lambda: self.binop(op, a, b.a, node), lambda: self.binop(op, a, b.b, node))
        nm = type(op).__name__
        if self.types or isinstance(a, (Ref, NtV)) or isinstance(b, (Ref, NtV)):
            for x, y, pre in ((a, b, "__"), (b, a, "__r")):
                f = self.dunder(x, pre + self.BINOPS[nm] + "__")
                if f is not None:
                    return self.call(f, [y], {}, node)
        if isinstance(a, PyV) or isinstance(b, PyV):
            return self.lib.py_binop(nm, a, b, node)
        if nm in ("Div", "FloorDiv", "Mod", "Pow") and not (T.is_num(b) and b.args[0] != 0):
            self.unsure("zero")
        if nm in ("BitOr", "BitAnd", "Sub", "BitXor") and isinstance(a, (ViewV, Ref)) and isinstance(b, (ViewV, Ref)):
            r = self.lib.set_op(nm, a, b, node)
            if r is not None:
                return r
        if nm == "MatMult":
            r = self.lib.call_ext("numpy.matmul", [a, b], {}, node)
            return r
        if nm == "Add":
            la = a if isinstance(a, Ref) and self.obj(a).kind == "list" else None
            lb = b if isinstance(b, Ref) and self.obj(b).kind == "list" else None
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if la is not None and lb is not None:
                ea, eb = self.list_elems(a), self.list_elems(b)
                if ea is not None and eb is not None:
                    return self.new_list(ea + eb)
                return T.app("concat", self.freeze(a), self.freeze(b))
            if (la is not None or lb is not None) and (isinstance(a, (CompV, N)) or isinstance(b, (CompV, N))):
                return T.app("concat", self.freeze(a), self.freeze(b))
            if isinstance(a, CompV) or isinstance(b, CompV):
                return T.app("concat", self.freeze(a), self.freeze(b))
            if T.is_str(a) and T.is_str(b):
                return string(a.args[0] + b.args[0])
            text = lambda x: T.is_str(x) or isinstance(x, N) and (x.op == "app" and x.args[0] in ("strcat", "str", "fmtspec") or x.op == "sym" and x.args[1] == "str")
            if text(a) or text(b):
                return self.lib.cat([self.freeze(a), self.freeze(b)])
            return self.elementwise(T.add, a, b)
        if nm == "Sub":
            return self.elementwise(T.sub, a, b)
        if nm == "Mult":
            for x, y in ((a, b), (b, a)):
                if T.is_str(x) and T.is_num(y):
                    return string(x.args[0] * int(y.args[0]))
                if isinstance(x, Tup) and T.is_num(y):
                    return Tup(list(x.items) * int(y.args[0]))
                if isinstance(x, Ref) and self.obj(x).kind == "list":
                    el = self.list_elems(x)
                    if el is not None and T.is_num(y) and y.args[0] < 200:
                        return self.new_list(el * int(y.args[0]))
                    if el is not None and len(el) == 1:
                        r = self.alloc("list", n=None, base=None)
                        self.put(r, self.obj(r).w(base=T.app("replist", self.freeze(el[0]), self.freeze(y)), extra=(("len", self.freeze(y)),)))
                        return r
            return self.elementwise(T.mul, a, b)
        if nm == "Div":
            return self.elementwise(T.div, a, b)
        if nm == "Pow":
            return self.elementwise(T.power, a, b)
        if nm == "Mod":
            if T.is_str(a):
                return self.lib.percent(a, b)
            return self.elementwise(lambda x, y: T.fn("mod", x, y), a, b)
        if nm == "FloorDiv":
            return self.elementwise(lambda x, y: T.fn("floordiv", x, y), a, b)
        if nm in ("BitAnd", "BitOr"):
            f = T.band if nm == "BitAnd" else T.bor
            return self.fr.mark(self.elementwise(lambda x, y: f(T.truth(x), T.truth(y)), a, b))
        return self.elementwise(lambda x, y: T.app("op" + nm, x, y), a, b)

    def dunder(self, v, name):
        """bound special method of an instance of an analysed class"""
        if isinstance(v, Ref) and self.obj(v).kind == "inst" or isinstance(v, (NtV, N)):
            c = self.class_of(v)
            f = c.lookup(name) if c is not None else None
            if isinstance(f, FuncV):
                return f if f.kind == "staticmethod" else BoundV(f, v)
        return None

    BINOPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
              "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "MatMult": "matmul", "LShift": "lshift", "RShift": "rshift"}

    def setlike(self, v):
        if isinstance(v, Ref) and self.obj(v).kind == "set":
            return self.list_elems(v)
        return None

    def e_Compare(self, e):
        l = self.eval(e.left)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r)
            c = self.compare(op, l, rv, e)
            res = c if res is TRUE else (T.band(res, c) if isinstance(res, N) and isinstance(c, N) else self.elementwise(T.band, res, c))
            l = rv
        return res

    def compare(self, op, a, b, node):
        nm = type(op).__name__
        if nm in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if nm == "In" else T.bnot(r)
        if isinstance(a, IteV):
            return T.ite(a.c, self.compare(op, a.a, b, node), self.compare(op, a.b, b, node))
        if isinstance(b, IteV):
            return T.ite(b.c, self.compare(op, a, b.a, node), self.compare(op, a, b.b, node))
        if nm not in ("Is", "IsNot"):
            a, b = self.lib.enum_value(a, b), self.lib.enum_value(b, a)
            dn = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[nm]
            sw = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}
            f = self.dunder(a, dn)
            if f is not None:
                return self.call(f, [b], {}, node)
            if nm == "NotEq" and self.dunder(a, "__eq__") is not None:
                return T.bnot(self.truth(self.call(self.dunder(a, "__eq__"), [b], {}, node)))
            f = self.dunder(b, sw.get(dn, dn))
            if f is not None:
                return self.call(f, [a], {}, node)
            if isinstance(a, PyV) or isinstance(b, PyV):
                if isinstance(a, PyV) and isinstance(b, PyV):
                    r = TRUE if a == b else FALSE
                    return r if nm == "Eq" else T.bnot(r)
            if isinstance(a, (Ref, ViewV)) and isinstance(b, (Ref, ViewV)):
                r = self.lib.container_compare(nm, a, b, node)
                if r is not None:
                    return r
        if nm in ("Is", "IsNot"):
            if isinstance(b, N) and b.op == "none":
                r = T.isnone(a) if isinstance(a, N) else FALSE
            elif isinstance(a, N) and a.op == "none":
                r = T.isnone(b) if isinstance(b, N) else FALSE
            elif isinstance(a, N) and isinstance(b, N):
                r = T.eq(a, b)
            elif isinstance(a, ExtV) and isinstance(b, ExtV):
                r = TRUE if a.name == b.name else FALSE
            else:
                r = TRUE if a == b or a is b else FALSE
            return r if nm == "Is" else T.bnot(r)
        if nm in ("Eq", "NotEq"):
            if isinstance(a, N) and isinstance(b, N):
                r = T.eq(a, b)
            elif isinstance(a, (ExtV, ClassV)) and isinstance(b, (ExtV, ClassV)):
                r = TRUE if a is b or isinstance(a, ExtV) and isinstance(b, ExtV) and a.name == b.name else FALSE
            elif isinstance(a, Tup) and isinstance(b, Tup):
                if len(a.items) != len(b.items):
                    r = FALSE
                else:
                    r = T.band(*[self.compare(ast.Eq(), x, y, node) for x, y in zip(a.items, b.items)])
            elif self.as_arr(a) is not None or self.as_arr(b) is not None:
                if self.isliteral_list(a) and self.isliteral_list(b):
                    ea, eb = self.list_elems(a), self.list_elems(b)
                    if len(ea) != len(eb):
                        return FALSE if nm == "Eq" else TRUE
                    r = T.band(*[self.compare(ast.Eq(), x, y, node) for x, y in zip(ea, eb)]) if ea else TRUE
                    return r if nm == "Eq" else T.bnot(r)
                r = self.elementwise(T.eq, a, b)
                if not isinstance(r, N):
                    r = self.fr.mark(r)
                    return r if nm == "Eq" else self.fr.mark(self.elementwise(T.bnot, r))
            else:
                r = TRUE if a is b or (type(a) is type(b) and a == b) else mk("eq", self.freeze(a), self.freeze(b))
                if r.op == "eq" and r.args[0] is r.args[1]:
                    r = TRUE
            return r if nm == "Eq" else T.bnot(r)
        f = {"Lt": T.lt, "LtE": T.le, "Gt": lambda x, y: T.lt(y, x), "GtE": lambda x, y: T.le(y, x)}[nm]
        return self.fr.mark(self.elementwise(f, a, b))

    def isliteral_list(self, v):
        return isinstance(v, Ref) and self.obj(v).kind in ("list", "set") and self.list_elems(v) is not None

    def contains(self, cont, x):
        r = self.fr.contains(self.obj(cont).arr if isinstance(cont, Ref) and self.obj(cont).kind == "arr" else cont, x)
        if r is not NotImplemented:
            return r
        if isinstance(cont, IteV):
            return T.ite(cont.c, self.contains(cont.a, x), self.contains(cont.b, x))
        if isinstance(x, IteV):
            return T.ite(x.c, self.contains(cont, x.a), self.contains(cont, x.b))
        f = self.dunder(cont, "__contains__")
        if f is not None:
            return self.truth(self.call(f, [x], {}, None))
        if isinstance(cont, (ClassV,)) and cont.members is not None:
            return self.contains(Tup(self.lib.elems(cont)), x)
        if isinstance(cont, Ref) and self.obj(cont).kind == "inst":
            el = self.lib.elems(cont)
            if el is not None:
                cont = Tup(el)
        if isinstance(cont, ViewV) and cont.kind == "keys":
            return self.contains(cont.obj, x)
        if isinstance(cont, ViewV) and cont.kind in ("values", "enumerate", "zip", "product", "reversed"):
            el = self.lib.elems(cont)
            if el is not None:
                cont = Tup(el)
        if isinstance(cont, ViewV) and cont.kind == "items" and isinstance(x, Tup):
            k, v = x.items
            return T.band(self.has_item(cont.obj, k), self.compare(ast.Eq(), self.read_item(cont.obj, k), v, None))
        if isinstance(cont, ViewV) and cont.kind in ("list", "sorted"):
            return self.contains(cont.obj, x)
        if isinstance(cont, (FuncV, ClassV, ExtV)):
            return mk("exists", self.freeze(cont), self.freeze(x))
        el = self.list_elems(cont)
        if T.is_str(cont):
            if T.is_str(x):
                return TRUE if x.args[0] in cont.args[0] else FALSE
            return T.truth(T.fn("substr", cont, self.freeze(x)))
        if el is not None:
            if isinstance(x, N) and all(isinstance(y, N) and T.is_const(y) for y in el):
                return T.member(x, tuple(el))
            if isinstance(x, N):
                return T.bor(*[T.eq(x, y) if isinstance(y, N) else FALSE for y in el]) if el else FALSE
            return T.bor(*[self.compare(ast.Eq(), x, y, None) for y in el]) if el else FALSE
        if isinstance(cont, Ref):
            o = self.obj(cont)
            if o.kind in ("dict", "df"):
                ks = self.dict_keys(cont)
                if ks is not None and isinstance(x, N) and all(p is TRUE for _, p in ks):
                    return T.member(x, tuple(k for k, _ in ks))
                return self.has_item(cont, x)
            if o.kind == "arr":
                return mk("exists", self.freeze(cont), self.freeze(x))
            if o.kind == "unk":
                return self.has_item(cont, x)
            if o.kind == "list" and o.n is None and o.base is None and all(e.var is None for e in o.items):
                return T.bor(*[T.band(e.guard, self.compare(ast.Eq(), x, e.val, None)) for e in o.items]) if o.items else FALSE
        if isinstance(cont, N):
            if isinstance(x, N) and T.is_str(x) and cont.op in ("sym",) and cont.args[1] == "str":
                return T.truth(T.fn("substr", cont, x))
            if cont.op == "attr" and cont.args[1] in ("index", "columns"):
                b = cont.args[0]
                if cont.args[1] == "columns":
                    return self.contains(b, x)
            if cont.op == "ite":
                return T.ite(cont.args[0], self.contains(cont.args[1], x), self.contains(cont.args[2], x))
            return self.has_item(cont, x)
        return mk("has", self.freeze(cont), self.freeze(x))

    def e_Slice(self, e):
        g = lambda x: self.eval(x) if x is not None else None
        f = lambda x: None if x is None or (isinstance(x, N) and x.op == "none") else x
        return SliceV(f(g(e.lower)), f(g(e.upper)), f(g(e.step)))

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval(e.slice)
        if isinstance(o, Ref) and self.obj(o).kind == "arr":
            r = self.view(o, k)
            if r is not None:
                return r
        return self.getitem(o, k, e)

    def getitem(self, o, k, node):
        if isinstance(o, IteV):
            if o.a is UNDEF or (isinstance(o.a, N) and o.a.op == "none"):
                return self.getitem(o.b, k, node)
            if o.b is UNDEF or (isinstance(o.b, N) and o.b.op == "none"):
                return self.getitem(o.a, k, node)
            return self.merge_val(o.c, self.getitem(o.a, k, node), self.getitem(o.b, k, node))
        if isinstance(k, IteV):
            return self.merge_val(k.c, self.getitem(o, k.a, node), self.getitem(o, k.b, node))
        if self.fr.explicitish(o):
            r = self.fr.getitem(o, k, node) if not (isinstance(o, Ref) and self.obj(o).kind == "arr") else NotImplemented
            if r is not NotImplemented:
                return r
        if isinstance(o, Tup) or (isinstance(o, Ref) and self.obj(o).kind == "list"):
            el = self.list_elems(o)
            if el is not None:
                if T.is_num(k) and -len(el) <= int(k.args[0]) < len(el):
                    return el[int(k.args[0])]
                if T.is_num(k):
                    return self.err("indexerror", k)
                if isinstance(k, SliceV) and all(x is None or T.is_num(x) for x in (k.lo, k.hi, k.step)):
                    sl = slice(*[None if x is None else int(x.args[0]) for x in (k.lo, k.hi, k.step)])
                    return Tup(el[sl]) if isinstance(o, Tup) else self.new_list(el[sl])
                if isinstance(k, N) and not T.is_num(k):
                    a = self.arr_from_elems(el)
                    if a is not None and len(a.lens) == 1:
                        return self.index_arr(a, k)
            elif isinstance(o, Ref) and isinstance(k, N):
                ob = self.obj(o)
                if T.is_num(k) and k.args[0] < 0:
                    return T.app("listitem", self.freeze(o), k)
                return self.read_item(o, k)
            if isinstance(k, SliceV):
                return T.app("slice-of", self.freeze(o), self.freeze(k))
        if isinstance(o, RangeV):
            if isinstance(k, N):
                return T.add(o.lo, T.mul(k, o.step))
        if isinstance(o, CompV) and isinstance(k, N):
            a = self.as_arr(o)
            if a is not None:
                return self.index_arr(a, k)
        if isinstance(o, ArrV):
            r = self.index_arr(o, k)
            return r
        if isinstance(o, Indexer):
            return self.lib.index_get(o, k, node)
        if isinstance(o, Ref):
            ob = self.obj(o)
            if ob.kind == "arr":
                return self.index_arr(ob.arr, k)
            if ob.kind == "df" and not isinstance(k, N):
                return self.lib.df_select(o, k, node)
            if ob.kind == "inst":
                f = ob.cls.lookup("__getitem__") if ob.cls else None
                if isinstance(f, FuncV):
                    return self.call_func(f, [o, k], {}, node)
            dflt = dict(x for x in ob.extra if isinstance(x, tuple) and len(x) == 2).get("default") if ob.kind == "dict" else None
            if dflt is not None and isinstance(k, N):
                p = self.simp(self.has_item(o, k))

                def fresh():
                    v = self.call(dflt, [], {}, node)
                    self.store_item(o, k, v, node)
                    return v
                if p is not TRUE:
                    return self.branch(p, lambda: self.read_item(o, k), fresh)
            self.lookup_guard(o, k, node)
            r = self.read_item(o, k)
            if r is T.MISSING:
                self.event("missing-key", o, k, None, node)
                if ob.kind == "dict" and ob.base is None and isinstance(k, N) and T.is_const(k) and self.dict_keys(o) is not None and all(T.is_const(x) for x, _ in self.dict_keys(o)):
                    return self.err("keyerror", k)
                return T.app("?missing", self.freeze(k))
            return r
        if isinstance(o, N):
            self.lookup_guard(o, k, node)
            if o.op == "str":
                if T.is_num(k):
                    try:
                        return string(o.args[0][int(k.args[0])])
                    except IndexError:
                        return self.err("indexerror", k)
                if isinstance(k, SliceV) and all(x is None or T.is_num(x) for x in (k.lo, k.hi, k.step)):
                    return string(o.args[0][slice(*[None if x is None else int(x.args[0]) for x in (k.lo, k.hi, k.step)])])
            if isinstance(k, SliceV):
                if o.op == "sym" and o.args[1] in ("str", "any") and all(x is None or T.is_num(x) for x in (k.lo, k.hi)) and k.step is None:
                    return mk("fn", "strslice", o, k.lo if k.lo is not None else NONE, k.hi if k.hi is not None else NONE)
                return self.lib.unknown_slice(o, k)
            if o.op == "ite":
                return self.merge_val(o.args[0], self.getitem(o.args[1], k, node), self.getitem(o.args[2], k, node))
            if o.op == "tup" and T.is_num(k) and int(k.args[0]) < len(o.args):
                return o.args[int(k.args[0])]
            if o.op in ("sum", "prod"):
                return self.distribute_index(o, k)
            if not isinstance(k, N):
                ka = self.as_arr(k)
                if ka is not None and len(ka.lens) == 1 and isinstance(k, (ArrV, Ref)) and not T.is_str(ka.content):
                    el = self.list_elems(k)
                    if not (el and all(T.is_str(x) for x in el)):
                        return ArrV(T.item(o, ka.content), ka.lens)
                return T.item(o, self.freeze(k))
            r = self.read_item(o, k)
            return r
        if isinstance(o, ClassV):
            if o.members is not None and T.is_str(k):
                return o.lookup(k.args[0]) or self.err("keyerror", k, node=node)
            return o
        if isinstance(o, NtV) or isinstance(o, PyV):
            r = self.lib.py_item(o, k, node)
            if r is not None:
                return r
        if isinstance(o, ViewV) and o.kind in ("list", "sorted"):
            se = self.iter_elems(o)
            if se is not None and T.is_num(k) and all(p is TRUE for _, p in se):
                return se[int(k.args[0])][0]
        return T.item(self.freeze(o), self.freeze(k))

    def lookup_guard(self, o, k, node):
        """inside `try`: the path on which the key is missing goes to the handler"""
        if not self.tries or not self.st.alive:
            return
        isdict = isinstance(o, Ref) and self.obj(o).kind in ("dict", "df") or isinstance(o, N) and (T.is_str(k) or self.obj(o).kind == "dict")
        if not isdict or not isinstance(k, N) or not self.catching("KeyError", "LookupError", "Exception", "BaseException"):
            self.unsure("lookup")
            return
        p = self.simp(self.contains(o, k))
        if p is TRUE:
            return
        names = self.excnames(ExtV("builtins.KeyError"))
        self.branch(p, lambda: None, lambda: self.throw(names, string("keyerror"), node, (k,), "error"))

    def distribute_index(self, o, k):
        kk = self.freeze(k)
        leaves = {}

        def f(x):
            if x.op in ("sum", "prod", "fn", "ite") and not (x.op == "fn" and x.args[0] == "strslice"):
                return T.rebuild(x.op, x, f)
            if self.arrayish(x):
                if x not in leaves:
                    leaves[x] = self.getitem(x, k, None)
                r = leaves[x]
                return r if isinstance(r, N) else self.freeze(r)
            return x

        r = f(o)
        if not leaves:
            return T.item(o, kk)
        return r

    def arrayish(self, x):
        return x.op in ("item", "attr", "app") or (x.op == "sym" and x.args[1] in ("any", "obj"))

    def setitem(self, o, k, v, node):
        if isinstance(o, IteV):
            self.branch(o.c, lambda: self.setitem(o.a, k, v, node), lambda: self.setitem(o.b, k, v, node))
            return
        if isinstance(o, Indexer):
            self.lib.index_set(o, k, v, node)
            return
        if isinstance(o, Ref) and self.fr.is_df(o) and self.fr.setitem(o, k, v, node):
            return
        if type(o).__name__ == "SerV":
            r = self.fr.ser_set(o, k, v)
            if r is not NotImplemented and isinstance(node, ast.Subscript):
                if not o.own or sum(x is o for x in self.st.env.values()) > 1:
                    self.note("series-store", self.curfunc())
                self.writeback(node.value, r)
                return
        f = self.dunder(o, "__setitem__")
        if f is not None:
            self.call(f, [k, v], {}, node)
            return
        if isinstance(o, Ref) and isinstance(k, SliceV) and self.obj(o).kind == "list":
            el, new = self.list_elems(o), self.lib.elems(v)
            if el is not None and new is not None and all(x is None or T.is_num(x) for x in (k.lo, k.hi, k.step)):
                self.event("store", o, self.freeze(k), v, node)
                try:
                    el[slice(*[None if x is None else int(x.args[0]) for x in (k.lo, k.hi, k.step)])] = new
                except ValueError:
                    self.err("valueerror", k, node=node)
                    return
                self.put(o, self.obj(o).w(items=tuple(Entry(num(i), x) for i, x in enumerate(el)), n=len(el)))
                return
        if isinstance(o, Ref):
            if isinstance(k, (Tup, SliceV)) and self.obj(o).kind != "arr":
                if isinstance(k, Tup) and self.obj(o).kind == "dict":
                    self.store_item(o, self.freeze(k), v, node)
                    return
                self.event("store", o, self.freeze(k), v, node)
                ob = self.obj(o)
                self.put(o, ob.w(items=ob.items + (Entry(self.freeze(k), v),)))
                return
            self.store_item(o, k, v, node)
            return
        if isinstance(o, N) and o.op == "ite":
            self.branch(o.args[0], lambda: self.setitem(o.args[1], k, v, node), lambda: self.setitem(o.args[2], k, v, node))
            return
        if isinstance(o, N) and self.arrayish(o):
            if isinstance(k, (SliceV, Tup)):
                self.event("store", o, self.freeze(k), v, node)
                ob = self.obj(o)
                self.put(o, ob.w(items=ob.items + (Entry(self.freeze(k), v),)))
                return
            self.store_item(o, k, v, node)
            return
        # arithmetic array value: functional update written back to the target expression
        a = self.as_arr(o)
        if a is None and isinstance(o, N):
            a = ArrV(o, [mk("len", o)])
        if a is not None and isinstance(node, ast.Subscript):
            r = self.alloc("arr", arr=self.store_arr(a, k, v))
            self.writeback(node.value, r)
            return
        self.note("unsupported", "setitem")

    def writeback(self, target, v):
        if isinstance(target, ast.Name):
            self.st.env[target.id] = v
        elif isinstance(target, ast.Attribute):
            o = self.eval(target.value)
            self.setattr(o, target.attr, v, target)
        elif isinstance(target, ast.Subscript):
            self.setitem(self.eval(target.value), self.eval(target.slice), v, target)

    def e_Attribute(self, e):
        o = self.eval(e.value)
        return self.getattr(o, e.attr, e)

    def getattr(self, o, name, node):
        if isinstance(o, IteV):
            if o.a is UNDEF or (isinstance(o.a, N) and o.a.op == "none"):
                return self.getattr(o.b, name, node)
            if o.b is UNDEF or (isinstance(o.b, N) and o.b.op == "none"):
                return self.getattr(o.a, name, node)
            return self.merge_val(o.c, self.getattr(o.a, name, node), self.getattr(o.b, name, node))
        if isinstance(o, ModV):
            if o.ns is not None and o.ns.id in self.st.heap and self.st.heap[o.ns.id].attrs.get(name, UNDEF) is not UNDEF:
                return self.st.heap[o.ns.id].attrs[name]
            if name in o.env:
                return o.env[name]
            sub = self.module((o.name + "." + name)[len(self.pkg) + 1:])
            return sub if sub is not None else ExtV(o.name + "." + name)
        if isinstance(o, ExtV):
            return self.lib.ext_attr(o, name)
        if isinstance(o, ClassV):
            v = o.lookup(name)
            if v is None:
                if name in ("__name__", "__qualname__"):
                    return string(o.name)
                return self.unsupported("classattr:" + name, node)
            if isinstance(v, FuncV) and v.kind == "classmethod":
                return BoundV(v, o)
            return v
        if isinstance(o, NtV):
            if name in o.cls.nt:
                return o.items[o.cls.nt.index(name)]
            v = o.cls.lookup(name)
            if isinstance(v, FuncV):
                return self.call_func(v, [o], {}, node) if v.kind == "property" else v if v.kind == "staticmethod" else BoundV(v, o.cls if v.kind == "classmethod" else o)
            if v is not None:
                return v
            return MethV(o, name)
        if isinstance(o, SuperV):
            base = self.class_of(o.obj)
            v = (base or o.cls).lookup(name, after=o.cls)
            if isinstance(v, FuncV):
                if v.kind == "classmethod":
                    return BoundV(v, base)
                return BoundV(v, o.obj)
            if v is not None:
                return v
            return ExtV("object." + name)
        if isinstance(o, (Ref, N)):
            ob = self.obj(o)
            if name in ob.attrs and ob.attrs[name] is not UNDEF:
                v = ob.attrs[name]
                if isinstance(v, IteV) and (v.a is UNDEF or v.b is UNDEF):
                    return v.b if v.a is UNDEF else v.a
                return v
            cls = self.class_of(o)
            if cls is not None:
                v = cls.lookup(name)
                if isinstance(v, FuncV):
                    if v.kind == "staticmethod":
                        return v
                    if v.kind == "classmethod":
                        return BoundV(v, cls)
                    if v.kind == "property":
                        r = self.call_func(v, [o], {}, node)
                        if v.cached and self.st.alive:
                            ob = self.obj(o)
                            self.put(o, ob.w(attrs={**ob.attrs, name: r}))
                        return r
                    return BoundV(v, o)
                if v is not None:
                    if isinstance(v, Ref) and self.obj(v).kind == "inst":
                        g = self.dunder(v, "__get__")
                        if g is not None:
                            return self.call(g, [o, cls], {}, node)
                    return v
                if name == "__class__":
                    return cls
                if name == "__dict__":
                    return self.new_dict([(string(k), x) for k, x in ob.attrs.items() if x is not UNDEF])
                g = self.dunder(o, "__getattr__")
                if g is not None:
                    return self.call(g, [string(name)], {}, node)
                if isinstance(o, Ref) and ob.base is None and all(isinstance(b, ClassV) for c in cls.mro() for b in c.bases if not (isinstance(b, ExtV) and b.name in ("builtins.object", "abc.ABC"))):
                    if self.tries and self.catching("AttributeError", "Exception", "BaseException"):
                        return self.err("attributeerror", string(name), node=node)
                if isinstance(o, N) or ob.base is not None:
                    return T.attr(ob.base if ob.base is not None else o, name)
                return self.unsupported("attr:" + name, node, )
            if isinstance(o, N) and o.op == "ite":
                return self.merge_val(o.args[0], self.getattr(o.args[1], name, node), self.getattr(o.args[2], name, node))
        return self.lib.obj_attr(o, name, node)

    def class_of(self, o):
        if isinstance(o, ClassV):
            return o
        if isinstance(o, Ref):
            return self.obj(o).cls
        if isinstance(o, NtV):
            return o.cls
        if isinstance(o, N):
            return self.types.get(o)
        return None

    def setattr(self, o, name, v, node):
        if isinstance(o, IteV):
            self.branch(o.c, lambda: self.setattr(o.a, name, v, node), lambda: self.setattr(o.b, name, v, node))
            return
        if isinstance(o, (Ref, N)):
            cls = self.class_of(o)
            p = cls.lookup(name) if cls is not None else None
            if isinstance(p, FuncV) and p.kind == "property" and not p.cached:
                if p.setter is None:
                    self.err("attributeerror", string(name), node=node)
                else:
                    self.call_func(p.setter, [o, v], {}, node)
                return
            if cls is not None:
                g = self.dunder(o, "__setattr__")
                if g is not None and not any(x.func is g.func for x in self.frames):
                    self.call(g, [string(name), v], {}, node)
                    return
            self.event("setattr", o, string(name), v, node)
            if isinstance(o, Ref) and self.fr.is_df(o) and self.fr.setattr(o, name, v, node):
                return
            ob = self.obj(o)
            at = dict(ob.attrs)
            at[name] = v
            self.put(o, ob.w(attrs=at))
            return
        if isinstance(o, ClassV):
            self.event("class-store", o, string(name), v, node)
            self.put(o.ns, self.obj(o.ns).w(attrs={**self.obj(o.ns).attrs, name: v}))
            return
        if isinstance(o, ModV):
            self.event("global-store", o, string(name), v, node)
            if o.ns is not None:
                self.put(o.ns, self.obj(o.ns).w(attrs={**self.obj(o.ns).attrs, name: v}))
            else:
                o.env[name] = v
            return
        if type(o).__name__ == "SerV" and name == "index" and self.fr.keylist(v) is not None and len(self.fr.keylist(v)) == len(o.labels):
            o.labels = tuple(self.fr.keylist(v))
            return
        if type(o).__name__ in ("SerV", "IdxV") and name == "name":
            o.name = v if isinstance(v, N) and v.op != "none" else None
            return
        self.note("unsupported", "setattr")

    # comprehensions
    def over(self, e, f):
        """comprehension over a sequence chosen by a condition: one of each"""
        def go(it):
            if isinstance(it, IteV) and not any(x is UNDEF or isinstance(x, N) and x.op == "none" for x in (it.a, it.b)):
                return self.branch(it.c, lambda: go(it.a), lambda: go(it.b))
            return f(e, it)
        return go(self.eval(e.generators[0].iter))

    def comp(self, e, build, it):
        """returns list of (value(s), cond) when finite, or CompV-like (dom, val, cond)"""
        saved = dict(self.st.env)
        if len(e.generators) == 1 and isinstance(it, IteV):
            return self.merge_comp(it, e, build)
        try:
            return self._comp_gen(e.generators, 0, it, build, TRUE)
        finally:
            keep = self.st.env
            env = dict(saved)
            self.st.env = env

    def merge_comp(self, it, e, build):
        if isinstance(it.a, N) and it.a.op == "none":
            it = it.b
        elif isinstance(it.b, N) and it.b.op == "none":
            it = it.a
        if isinstance(it, IteV):
            return ("sym", None, self.unsupported("comp-over-ite", e, it), TRUE)
        return self._comp_gen(e.generators, 0, it, build, TRUE)

    def _comp_gen(self, gens, i, it, build, cond):
        g = gens[i]
        seq = self.iter_elems(it)
        if seq is not None:
            out = []
            for v, p in seq:
                self.assign(g.target, v)
                c = T.band(cond, p)
                for t in g.ifs:
                    c = T.band(c, self.simp(self.cond(t)))
                if c is FALSE:
                    continue
                if i + 1 < len(gens):
                    sub = self._comp_gen(gens, i + 1, self.eval(gens[i + 1].iter), build, c)
                    if sub[0] != "fin":
                        return ("sym", None, self.unsupported("nested-comp", None), TRUE)
                    out += sub[1]
                else:
                    A = dict(self.st.assume)
                    if c is not TRUE:
                        self.assume(self.st, c, True)
                    out.append((build(), c))
                    self.st.assume = A
            return ("fin", out)
        dom = self.domain(it, g.iter)
        self.loopctx.append("comp")
        self.assign(g.target, dom.elem)
        c = cond
        for t in g.ifs:
            c = T.band(c, self.simp(self.cond(t)))
        if i + 1 < len(gens):
            self.loopctx.pop()
            return ("sym", dom, self.unsupported("nested-comp", None), TRUE)
        v = build()
        self.loopctx.pop()
        return ("sym", dom, v, c)

    def e_ListComp(self, e):
        return self.over(e, self.listcomp)

    def listcomp(self, e, it):
        r = self.comp(e, lambda: self.eval(e.elt), it)
        if r[0] == "fin":
            if all(c is TRUE for _, c in r[1]):
                return self.new_list([v for v, _ in r[1]])
            return self.alloc("list", items=tuple(Entry(num(i), v, c) for i, (v, c) in enumerate(r[1])), n=None)
        _, dom, v, c = r
        if dom is None:
            return v
        return CompV(dom, v, c)

    def e_GeneratorExp(self, e):
        return self.over(e, self.genexp)

    def genexp(self, e, it):
        v = self.listcomp(e, it)
        if isinstance(v, Ref) and self.obj(v).n is not None:
            self.put(v, self.obj(v).w(extra=(("iterator", TRUE),)))
        return v

    def e_SetComp(self, e):
        return self.over(e, self.setcomp)

    def setcomp(self, e, it):
        v = self.listcomp(e, it)
        if isinstance(v, Ref) and self.list_elems(v) is not None:
            return self.lib.b_set([v], {}, e)
        return v

    def e_DictComp(self, e):
        return self.over(e, self.dictcomp)

    def dictcomp(self, e, it):
        r = self.comp(e, lambda: Tup([self.eval(e.key), self.eval(e.value)]), it)
        d = self.alloc("dict")
        if r[0] == "fin":
            ents = []
            for kv, c in r[1]:
                ents.append(Entry(self.freeze(kv.items[0]), kv.items[1], c))
            self.put(d, self.obj(d).w(items=tuple(ents)))
            return d
        _, dom, kv, c = r
        if dom is None or not isinstance(kv, Tup):
            return self.unsupported("dictcomp", e)
        self.put(d, self.obj(d).w(items=(Entry(self.freeze(kv.items[0]), kv.items[1], c, dom.var, dom),)))
        return d

    # -- calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.lookup("super") is None:
            fr = self.frames[-1]
            cls = fr.func.cls
            first = fr.func.node.args.args[0].arg if fr.func.node.args.args else None
            if e.args:
                return SuperV(self.eval(e.args[0]), self.eval(e.args[1]))
            return SuperV(cls, self.st.env.get(first))
        f = self.eval(e.func)
        args, kwargs = [], {}
        star = False
        if not self.st.alive:
            return NONE
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                el = self.lib.elems(v)
                if el is None:
                    star = True
                    args.append(self.unsupported("starargs", e, v))
                else:
                    args += el
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                ks = self.dict_keys(v) if isinstance(v, Ref) else None
                if ks is not None and all(T.is_str(x) for x, _ in ks):
                    for x, p in ks:
                        kwargs[x.args[0]] = self.read_item(v, x)
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = self.eval(k.value)
        if not self.st.alive:
            return NONE
        return self.call(f, args, kwargs, e)

    def call(self, f, args, kwargs, node):
        self.stats["calls"] += 1
        if isinstance(f, IteV):
            if f.a is UNDEF:
                return self.call(f.b, args, kwargs, node)
            if f.b is UNDEF:
                return self.call(f.a, args, kwargs, node)
            return self.branch(f.c, lambda: self.call(f.a, args, kwargs, node), lambda: self.call(f.b, args, kwargs, node))
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.self] + args, kwargs, node)
        if isinstance(f, ClassV):
            return self.construct(f, args, kwargs, node)
        if isinstance(f, Ref):
            g = self.dunder(f, "__call__")
            if g is not None:
                return self.call(g, args, kwargs, node)
        if isinstance(f, self.lib.Getter):
            return self.lib.call_getter(f, args, kwargs, node)
        if isinstance(f, PartialV):
            return self.call(f.func, list(f.args) + args, {**f.kwargs, **kwargs}, node)
        if isinstance(f, VecV):
            return self.call_vec(f, args, kwargs, node)
        if isinstance(f, MethV):
            return self.modelled(f.name, lambda a, k: self.lib.method(f.obj, f.name, a, k, node), args, kwargs, node)
        if isinstance(f, ExtV):
            return self.modelled(f.name, lambda a, k: self.lib.call_ext(f.name, a, k, node), args, kwargs, node)
        if isinstance(f, N):
            self.unsure("any")
            self.event("opaque-call", f, string("?"), Tup(args), node)
            return T.app("call", f, *[self.freeze(a) for a in args], *[mk("fld", k, self.freeze(v)) for k, v in sorted(kwargs.items())])
        return self.unsupported("call:" + type(f).__name__, node, *args)

    def modelled(self, name, f, args, kwargs, node):
        """call a library model; an argument the model never looked at leaves the result unknown"""
        if not args and not kwargs:
            return f(args, kwargs)
        a, k = Watch(args), WatchK(kwargs)
        r = f(a, k)
        left = a.unread() + k.unread()
        if left and self.st.alive and r is not NONE and not self.logs(name):
            return self.unsupported("argument %s of %s" % (left[0], name), node, r)
        return r

    def logs(self, name):
        mod, _, fn = name.rpartition(".")
        return fn in LOGGING and (not mod or mod.split(".")[0] in ("logging", "builtins", "warnings"))

    def call_vec(self, f, args, kwargs, node):
        arrs = [self.as_arr(a) for a in args]
        lens = next((a.lens for a in arrs if a is not None), None)
        ka = {k: self.as_arr(v) for k, v in kwargs.items()}
        for k, a in ka.items():
            if a is not None and lens is None:
                lens = a.lens
        r = self.call(f.func, [a.content if a is not None else v for a, v in zip(arrs, args)],
                      {k: (ka[k].content if ka[k] is not None else v) for k, v in kwargs.items()}, node)
        if lens is None:
            return r
        return ArrV(r if isinstance(r, N) else self.freeze(r), lens)

    def construct(self, cls, args, kwargs, node):
        self.stats["functions"].add(cls.mod.name + "." + cls.name)
        r = self.lib.construct_special(cls, args, kwargs, node)
        if r is not None:
            return r
        r = self.alloc("inst", cls=cls)
        init = cls.lookup("__init__")
        if isinstance(init, FuncV):
            self.call_func(init, [r] + args, kwargs, node)
        return r

    def scope(self, f):
        """(variables nested functions rebind, is a generator)"""
        r = self.scopes.get(f.node)
        if r is None:
            cells, gen = set(), False
            todo = list(ast.iter_child_nodes(f.node)) if isinstance(f.node, ast.Lambda) else list(f.node.body)
            deep = []
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    deep.append(n)
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    gen = True
                todo += list(ast.iter_child_nodes(n))
            for n in deep:
                cells |= {x for y in ast.walk(n) if isinstance(y, ast.Nonlocal) for x in y.names}
            if cells:
                cells &= bindings([f.node], True)
                own = {x for y in f.node.body if isinstance(y, ast.Nonlocal) for x in y.names}
                cells -= own
            r = self.scopes[f.node] = (frozenset(cells), gen)
        return r

    def call_func(self, f, args, kwargs, node, on_yield=None):
        if not self.st.alive:
            return NONE
        q = f.qual()
        hook = self.hooks.get(q) or self.hooks.get(f.name)
        if hook is not None:
            r = hook(self, f, args, kwargs, node)
            if r is not None:
                return r
        if q in self.no_inline or len(self.frames) > self.maxdepth or sum(1 for x in self.frames if x.func is f) > 2:
            self.unsure("any")
            return T.app("?noinline:" + q, *[self.freeze(a) for a in args])
        if f.cm and on_yield is None:
            return CmV(f, args, kwargs)
        self.stats["functions"].add(q)
        cells, gen = self.scope(f)
        env = self.bind(f, args, kwargs)
        outer = self.st
        st = State(env, outer.heap)
        st.assume = dict(outer.assume)
        fr = Frame(f)
        fr.outer, fr.on_yield = outer, on_yield
        self.frames.append(fr)
        self.st = st
        if cells:
            fr.cells, fr.cellnames = self.alloc("ns", attrs={k: env.pop(k) if k in env else UNDEF for k in sorted(cells)}), cells
        if gen:
            fr.yields, fr.ydepth = [], len(self.loopctx)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                outer.heap = self.st.heap
                if not self.st.alive:
                    outer.alive, outer.pc = False, FALSE
                if fr.closures:
                    fr.final = self.st.env
                return v
            self.exec_block(f.node.body)
            if self.st.alive:
                fr.returns.append((self.st.pc, NONE, self.st.heap, self.st.env))
        finally:
            self.frames.pop()
            fin = self.st
            self.st = outer
        if on_yield is not None and not fr.yielded:
            outer.alive = False
        if not fr.returns:
            outer.alive = False
            outer.pc = FALSE
            return NONE
        pc, v, h, env = fr.returns[-1]
        for pc2, v2, h2, env2 in reversed(fr.returns[:-1]):
            self.st.heap = {**h, **h2}
            v = self.merge_val(pc2, v2, v)
            if fr.closures:
                env = {k: self.merge_val(pc2, env2.get(k, UNDEF), env.get(k, UNDEF)) for k in list(env) + [k for k in env2 if k not in env]}
            h = self.merge_heap(pc2, h2, h)
        outer.heap = h
        if fr.closures:
            fr.final = env
        if gen and on_yield is None:
            if fr.yields is None:
                return T.app("?generator:" + q)
            if all(g is TRUE for _, g in fr.yields):
                return self.new_list([x for x, _ in fr.yields], extra=(("iterator", TRUE),))
            return self.alloc("list", items=tuple(Entry(num(i), x, g) for i, (x, g) in enumerate(fr.yields)), n=None)
        return v

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        fr = self.frames[-1]
        if fr.on_yield is not None:
            if self.st.pc is not TRUE or fr.yielded or len(self.loopctx) != fr.ydepth:
                self.note("unsupported", "yield:" + self.curfunc())
                return NONE
            fr.yielded = True
            frames, mine, outer = self.frames, self.st, fr.outer
            self.frames, self.st = frames[:-1], outer
            outer.heap = mine.heap
            fr.on_yield(v)
            mine.heap = outer.heap
            self.frames, self.st = frames, mine
        elif fr.yields is not None:
            if len(self.loopctx) != fr.ydepth:
                self.note("unsupported", "generator:" + self.curfunc())
                fr.yields = None
            elif self.st.alive:
                fr.yields.append((v, self.st.pc))
        return NONE

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        fr = self.frames[-1]
        el = self.iter_elems(v)
        if el is None or fr.on_yield is not None or fr.yields is None or len(self.loopctx) != fr.ydepth:
            self.note("unsupported", "yield-from:" + self.curfunc())
            fr.yields = None
        else:
            fr.yields += [(x, T.band(self.st.pc, p)) for x, p in el]
        return NONE

    def e_Await(self, e):
        return self.eval(e.value)

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = {}
        pos = a.posonlyargs + a.args
        rest = list(args)
        for p in pos:
            if rest:
                env[p.arg] = rest.pop(0)
        if a.vararg:
            env[a.vararg.arg] = Tup(rest)
        names = {p.arg for p in pos + a.kwonlyargs}
        extra = {}
        for k, v in kwargs.items():
            if k == "**":
                for p in pos + a.kwonlyargs:
                    if p.arg not in env and p.arg not in kwargs:
                        env[p.arg] = self.getitem(v, string(p.arg), None)
                if a.kwarg:
                    extra["**"] = v
                continue
            if k in names:
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            d = self.new_dict([(string(k), v) for k, v in extra.items() if k != "**"])
            if "**" in extra:
                self.dict_update(d, extra["**"], None, silent=True)
            env[a.kwarg.arg] = d
        for p in pos + a.kwonlyargs:
            if p.arg not in env:
                if f.defaults and p.arg in f.defaults:
                    env[p.arg] = f.defaults[p.arg]
                else:
                    env[p.arg] = UNDEF
        return env
