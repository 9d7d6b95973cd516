"""Models of the builtins / numpy / pandas operations the package uses.

Anything not listed becomes an uninterpreted application node of its frozen
arguments (a sound congruence: equal inputs give equal outputs), never a guess.
"""
import zlib
import itertools
import os

from . import terms as T
from .terms import N, NONE, TRUE, FALSE, ZERO, ONE, IX, mk, num, string, sym
from . import interp as I
from . import pylib
from . import mpl

ELEM1 = {"exp": "exp", "log": "log", "sqrt": "sqrt", "abs": "abs", "absolute": "abs", "fabs": "abs",
         "sign": "sign", "ceil": "ceil", "floor": "floor", "square": "square", "sin": "sin", "cos": "cos",
         "tanh": "tanh", "log10": "log10", "log2": "log2", "log1p": "log1p", "expm1": "expm1"}

MUTATORS = {"update", "pop", "popitem", "setdefault", "clear", "append", "extend", "insert", "remove", "sort",
            "reverse", "add", "discard", "fill", "put", "resize", "itemset", "difference_update",
            "intersection_update", "partition"}
# pandas methods that write their receiver only with inplace=True
PURE_STR = {"startswith", "endswith"}
CWD = "/cwd"
RANDOM_ROOTS = ("numpy.random", "random.", "scipy.stats", "secrets.", "uuid.")


class Lib(mpl.MplLib, pylib.PyLib):
    def __init__(self, eng):
        self.e = eng

    # -- attributes ------------------------------------------------------
    def ext_attr(self, o, name):
        n = o.name
        full = n + "." + name
        if full in ("numpy.nan", "math.nan", "numpy.NaN"):
            return mk("special", "nan")
        if full in ("numpy.inf", "math.inf"):
            return mk("special", "inf")
        if full == "numpy.newaxis":
            return NONE
        if full in ("numpy.pi", "math.pi"):
            return num(3.141592653589793)
        return I.ExtV(full)

    def obj_attr(self, o, name, node):
        e = self.e
        if isinstance(o, I.FileV):
            return (o.path if name == "name" else I.MethV(o, name))
        if isinstance(o, I.PyV):
            return self.py_attr(o, name)
        if mpl.is_mpl(o):
            return self.mpl_attr(o, name)
        r = e.fr.attr(o, name)
        if r is not NotImplemented:
            return r
        if name == "T" and isinstance(o, N) and (o.op in ("num", "sum", "prod", "fn") or (o.op == "sym" and o.args[1] in ("num", "int"))):
            return o
        if name in ("iloc", "loc", "at", "iat"):
            return I.Indexer(o, {"at": "loc", "iat": "iloc"}.get(name, name))
        if isinstance(o, I.Ref):
            ob = e.obj(o)
            if ob.kind in ("list", "dict", "set"):
                return I.MethV(o, name)
            if ob.kind == "arr":
                if name == "shape":
                    return I.Tup([L if L is not None else mk("len", e.freeze(o)) for L in ob.arr.lens])
                if name == "T":
                    return self.transpose(ob.arr)
                if name == "size":
                    return e.length(o)
                if name == "values":
                    return o
                if name == "ndim":
                    return num(len(ob.arr.lens))
                return I.MethV(o, name)
            if ob.kind == "df":
                if name == "columns":
                    return I.ViewV("keys", o)
                if name == "index":
                    ix = dict(x for x in ob.extra if isinstance(x, tuple) and len(x) == 2).get("index")
                    return ix if ix is not None else T.attr(e.freeze(o), "index")
                if name == "values":
                    return T.app("values", e.freeze(o))
                return I.MethV(o, name)
            if ob.kind == "unk":
                return self.unk_attr(o, name, node)
            return I.MethV(o, name)
        if isinstance(o, I.ArrV):
            if name == "shape":
                return I.Tup([L if L is not None else mk("len", e.freeze(o)) for L in o.lens])
            if name == "T":
                return self.transpose(o)
            if name == "size":
                return e.length(o)
            if name == "values":
                return o
            if name == "ndim":
                return num(len(o.lens))
            return I.MethV(o, name)
        if isinstance(o, N):
            if o.op == "str" or o.op == "fn" or o.op in ("num", "sum", "prod"):
                if name in ("T", "values") and o.op != "str":
                    return T.attr(o, name)
                return I.MethV(o, name)
            return self.unk_attr(o, name, node)
        if isinstance(o, I.FuncV):
            if name in ("__name__", "__qualname__"):
                return string(o.name)
        return I.MethV(o, name)

    METHODS = set("""get items keys values update pop popitem setdefault copy clear append extend insert index count remove sort
        reverse add discard union intersection difference issubset issuperset startswith endswith replace split rsplit
        lower upper strip lstrip rstrip isdigit isnumeric join format title capitalize find
        sum mean min max std var cumsum cumprod astype tolist to_list to_numpy abs drop rename set_index reset_index
        set_axis fillna dropna where mask clip itertuples iterrows transpose to_csv to_dict sort_index sort_values
        iteritems apply map applymap groupby merge join isin isna isnull notna any all round reindex head tail shift
        flatten ravel reshape squeeze fill dot argmin argmax interpolate assign insert unique readline readlines read write
        close submit result exception random scale debug info warning error critical put eq ne nunique add sub mul div
        __init__ diff pct_change filter ffill bfill combine_first duplicated drop_duplicates equals infer_objects
        __getitem__ __contains__ encode decode zfill splitlines partition""".split())

    def unk_attr(self, o, name, node):
        e = self.e
        if name in self.METHODS:
            return I.MethV(o, name)
        base = e.obj(o).base
        b = base if base is not None else (o if isinstance(o, N) else e.freeze(o))
        if name == "columns" or name == "index" or name == "shape" or name == "T" or name == "values" or True:
            return T.attr(b, name)

    def transpose(self, a):
        if len(a.lens) == 2:
            c = T.subst(a.content, {IX[0]: sym("$t0", "int"), IX[1]: sym("$t1", "int")})
            c = T.subst(c, {sym("$t0", "int"): IX[1], sym("$t1", "int"): IX[0]})
            return I.ArrV(c, [a.lens[1], a.lens[0]])
        return a

    # -- indexers --------------------------------------------------------
    def index_get(self, ix, k, node):
        e = self.e
        o = ix.obj
        if isinstance(o, I.IteV):
            return e.merge_val(o.c, self.index_get(I.Indexer(o.a, ix.kind), k, node), self.index_get(I.Indexer(o.b, ix.kind), k, node))
        fr = e.fr.index_get(ix.kind, o, k, node)
        if fr is not NotImplemented:
            return fr
        if ix.kind == "loc":
            if isinstance(k, I.Tup) and len(k.items) == 2:
                r, c = k.items
                if isinstance(r, I.SliceV) and r.lo is None and r.hi is None and isinstance(c, N):
                    return e.getitem(o, c, node)
                if isinstance(c, I.SliceV) and c.lo is None and c.hi is None and isinstance(r, N):
                    return T.app("row", e.freeze(o), r)
                if isinstance(c, N) and isinstance(r, (N,)):
                    return e.getitem(e.getitem(o, c, node), r, node)
                return T.app("loc", e.freeze(o), e.freeze(k))
            if isinstance(k, N):
                if self.is_series(o):
                    return e.getitem(o, k, node)
                return T.app("row", e.freeze(o), k)
            return T.app("loc", e.freeze(o), e.freeze(k))
        a = e.as_arr(o)
        if a is not None:
            return e.index_arr(a, k)
        if isinstance(k, N) and isinstance(o, N) and o.op in ("sum", "prod", "ite"):
            pass
        return T.app("iloc", e.freeze(o), e.freeze(k))

    def is_series(self, o):
        if isinstance(o, I.ArrV):
            return True
        if isinstance(o, N):
            return o.op == "item" or (o.op == "app" and o.args[0] in ("row",))
        return False

    def index_set(self, ix, k, v, node):
        e = self.e
        o = ix.obj
        if isinstance(o, I.IteV):
            e.branch(o.c, lambda: self.index_set(I.Indexer(o.a, ix.kind), k, v, node), lambda: self.index_set(I.Indexer(o.b, ix.kind), k, v, node))
            return
        if e.fr.index_set(ix.kind, o, k, v, node):
            return
        if isinstance(o, I.ArrV):
            return
        if not isinstance(o, (I.Ref, N)):
            e.note("unsupported", "index_set")
            return
        if isinstance(o, I.Ref) and e.obj(o).kind == "arr":
            e.store_item(o, k, v, node)
            return
        e.event("store", o, e.freeze(k), v, node)
        ob = e.obj(o)
        if isinstance(o, I.Ref) and ob.kind == "df" and isinstance(k, I.Tup) and len(k.items) == 2 and isinstance(k.items[1], N) and T.is_const(k.items[1]):
            r, c = k.items
            old = e.read_item(o, c)
            if isinstance(r, I.SliceV) and r.lo is None and r.hi is None:
                rec, e.recording = e.recording, False
                e.store_item(o, c, v, node)
                e.recording = rec
                return
            rec, e.recording = e.recording, False
            e.store_item(o, c, T.app("cellset", e.freeze(old), e.freeze(r), e.freeze(v)), node)
            e.recording = rec
            return
        e.put(o, ob.w(extra=ob.extra + (("cell", ix.kind, e.freeze(k), e.freeze(v)),)))

    def df_select(self, o, k, node):
        """df[[c1, c2]] / df[mask] on a known-column frame"""
        e = self.e
        el = e.list_elems(k)
        if el is not None and el and all(T.is_str(x) for x in el):
            ob = e.obj(o)
            r = e.alloc("df", items=tuple(I.Entry(x, e.read_item(o, x)) for x in el), extra=ob.extra)
            return r
        return T.app("select", e.freeze(o), e.freeze(k))

    def unknown_slice(self, o, k):
        e = self.e
        lo = k.lo if k.lo is not None else ZERO
        if k.step is not None and k.step is not ONE:
            if k.step is num(-1) and k.lo is None and k.hi is None:
                return I.ArrV(T.item(o, T.sub(T.sub(mk("len", o), ONE), IX[0])), [mk("len", o)])
            return T.app("strided", o, e.freeze(k))
        if isinstance(lo, N) and T.is_num(lo) and lo.args[0] < 0:
            lo = T.add(mk("len", o), lo)
        hi = k.hi if k.hi is not None else mk("len", o)
        if isinstance(hi, N) and T.is_num(hi) and hi.args[0] < 0:
            hi = T.add(mk("len", o), hi)
        if not isinstance(lo, N) or not isinstance(hi, N):
            return T.app("slice-of", o, e.freeze(k))
        return I.ArrV(T.item(o, T.add(IX[0], lo)), [T.sub(hi, lo)])

    # -- methods ---------------------------------------------------------
    def method(self, o, name, args, kw, node):
        e = self.e
        if isinstance(o, I.IteV):
            return e.branch(o.c, lambda: self.method(o.a, name, args, kw, node), lambda: self.method(o.b, name, args, kw, node))
        if isinstance(o, N) and o.op == "ite" and not T.is_const(o.args[1]) :
            a, b = o.args[1], o.args[2]
            if not (a.op in ("num", "sum", "prod") or b.op in ("num", "sum", "prod")):
                return e.branch(o.args[0], lambda: self.method(a, name, args, kw, node), lambda: self.method(b, name, args, kw, node))
        if isinstance(o, I.FileV):
            return self.file_method(o, name, args, kw, node)
        if mpl.is_mpl(o):
            return self.mpl_method(o, name, args, kw, node)
        if name == "item" and not args and isinstance(o, N) and o.op in ("num", "sum", "prod"):
            return o
        if isinstance(o, I.PyV):
            return self.py_method(o, name, args, kw, node)
        if isinstance(o, I.NtV):
            r = self.nt_method(o, name, args, kw, node)
            if r is not None:
                return r
        elif isinstance(o, I.Tup):
            r = self.tup_method(o, name, args)
            if r is not None:
                return r
        if isinstance(o, (I.PoolV, I.FutureV)):
            return self.pool_method(o, name, args, kw, node)
        if isinstance(o, I.RandV):
            r = self.random(o, name, args, kw, node)
            return r if r is not None else e.unsupported("random:" + name, node, *args)
        if name == "astype" and (args or "dtype" in kw):
            d = args[0] if args else kw["dtype"]
            d = d.args[0] if isinstance(d, N) and d.op == "str" else getattr(d, "name", "").rsplit(".", 1)[-1] if isinstance(d, I.ExtV) else str(d.args[0]).rsplit(".", 1)[-1] if isinstance(d, N) and d.op == "app" else ""
            if d.startswith(("int", "uint")) and type(o).__name__ != "IdxV":
                return e.elementwise(lambda c: c if c.op == "str" else self.b_int([c], {}, node), o)
            if isinstance(o, N) and T.is_num(o) and d.startswith("float"):
                return o
        r = e.fr.method(o, name, args, kw, node)
        if r is not NotImplemented:
            return r
        kind = None
        if isinstance(o, I.Ref):
            kind = e.obj(o).kind
        if kind == "dict" or (kind == "unk" and name in ("get", "items", "keys", "values", "pop", "setdefault", "update", "copy", "clear")):
            r = self.dict_method(o, name, args, kw, node)
            if r is not None:
                return r
        if kind in ("list", "set"):
            r = self.list_method(o, kind, name, args, kw, node)
            if r is not None:
                return r
        if isinstance(o, I.ViewV):
            if name in ("tolist", "to_list"):
                return I.ViewV("list", o)
            if name in ("insert", "drop"):
                return T.app("index." + name, e.freeze(o), *[e.freeze(a) for a in args])
            return T.app("m:" + name, e.freeze(o), *[e.freeze(a) for a in args])
        if kind == "arr" or isinstance(o, (I.ArrV,)):
            r = self.arr_method(o, name, args, kw, node)
            if r is not None:
                return r
        if kind == "df":
            r = self.df_method(o, name, args, kw, node)
            if r is not None:
                return r
        if isinstance(o, N):
            if name in pylib.STRM or name in ("format", "join"):
                r = self.str_method(o, name, args, kw)
                if r is not None:
                    return r
            if name in ("startswith", "endswith") and args and isinstance(args[0], N):
                return T.truth(T.fn(name, o, args[0]))
            if name in ("startswith", "endswith") and args and isinstance(args[0], I.Tup):
                return T.bor(*[T.truth(T.fn(name, o, a)) for a in args[0].items])
            if name in ("get", "items", "keys", "values", "pop", "setdefault", "update", "clear"):
                r = self.dict_method(o, name, args, kw, node)
                if r is not None:
                    return r
        if name in ("itertuples", "iterrows"):
            return I.ViewV(name, o)
        if name == "copy":
            fo = e.freeze(o)
            r = e.alloc("unk", base=fo)
            return r
        if name in ("to_numpy", "tolist", "to_list", "astype", "squeeze", "flatten", "ravel") and name != "reshape":
            if isinstance(o, N) and o.op in ("item",) or (isinstance(o, N) and o.op == "attr" and o.args[1] == "index"):
                return o if name in ("to_numpy", "astype") else I.ViewV("list", o)
            fo = e.freeze(o)
            return T.app("np", fo) if name == "to_numpy" else (I.ViewV("list", fo) if name in ("tolist", "to_list") else T.app("m:" + name, fo, *[e.freeze(a) for a in args]))
        if name in ("sum", "mean", "min", "max", "abs", "any", "all", "cumsum") :
            return self.reduce(o, name, args, kw, node)
        if name in MUTATORS and name not in ("update", "pop", "setdefault", "clear"):
            if name == "insert" and isinstance(o, N) and o.op in ("app", "attr"):
                return T.app("m:insert", e.freeze(o), *[e.freeze(a) for a in args])
            if isinstance(o, (I.Ref, N)):
                e.event("store", o, string("<%s>" % name), I.Tup(args), node)
        if kw.get("inplace") is TRUE and isinstance(o, (I.Ref, N)):
            e.event("store", o, string("<%s inplace>" % name), I.Tup(args), node)
            nv = T.app("m:" + name, e.freeze(o), *self.frz(args), *self.fkw(kw))
            ob = e.obj(o)
            e.put(o, ob.w(base=nv, items=(), extra=()))
            return NONE
        if name in ("debug", "info", "warning", "error", "critical", "exception") and isinstance(o, N) and o.op == "app" and "getLogger" in str(o.args[0]):
            return NONE
        e.unsure("any")
        return T.app("m:" + name, e.freeze(o), *self.frz(args), *self.fkw(kw))

    def deepcopy(self, v, scalars=False):
        e = self.e
        if isinstance(v, I.Tup):
            return I.Tup([self.deepcopy(x, scalars) for x in v.items])
        if isinstance(v, I.Ref):
            ob = e.obj(v)
            if ob.kind == "dict" and ob.base is None:
                return e.new_dict([(k, self.deepcopy(e.read_item(v, k), scalars)) for k, p in e.dict_keys(v)])
            if ob.kind == "list":
                el = self.elems(v)
                if el is not None:
                    return e.new_list([self.deepcopy(x, scalars) for x in el])
        if isinstance(v, N) and v.op in ("num", "str", "sum", "prod", "pow", "special", "none") + (("sym",) if scalars else ()):
            return v
        if isinstance(v, (I.Ref, N, I.ArrV)):
            return self.method(v, "copy", [], {}, None)
        return v

    def random(self, o, name, args, kw, node):
        """draws: fresh symbols rand<k>u_.. in (0, 1) and rand<k>z_.. (standard normal), one per cell"""
        e = self.e
        src = o if o is not None else self.__dict__.get("global_seed")
        if src is not None and src.seed is not None:
            # equally seeded generators give the same numbers in the same order
            src.count += 1
            k = "%d%03d" % (10000 + zlib.crc32(str(e.freeze(src.seed)).encode()) % 90000, src.count)
        else:
            k = e.stats["draws"] = e.stats.get("draws", 0) + 1

        def shape(v):
            if v is None or v is NONE:
                return ()
            el = self.elems(v) if not isinstance(v, N) else [v]
            if el is None or not all(T.is_num(x) for x in el):
                return None
            return tuple(int(x.args[0]) for x in el)

        def draw(kind, sh):
            if sh is None or len(sh) > 2:
                return None
            if not sh:
                return T.sym("rand%s%s" % (k, kind))
            cells = [T.sym("rand%s%s_%s" % (k, kind, "_".join(map(str, ix)))) for ix in itertools.product(*[range(n) for n in sh])]
            return e.alloc("arr", arr=e.fr.XArr(cells, sh))

        def arg(i, nm, d=None):
            return args[i] if len(args) > i else kw.get(nm, d)
        if o is not None and o.d is not None:
            if name == "random":
                n = arg(0, "n", ONE)
                return draw("u", (int(n.args[0]), o.d)) if T.is_num(n) else None
            return None
        if name in ("random", "random_sample", "rand"):
            return draw("u", shape(I.Tup(args)) if name == "rand" else shape(arg(0, "size")))
        if name in ("standard_normal", "randn"):
            return draw("z", shape(I.Tup(args)) if name == "randn" else shape(arg(0, "size")))
        a, b = (("loc", ZERO), ("scale", ONE)) if name == "normal" else (("low", ZERO), ("high", ONE))
        if name in ("normal", "uniform"):
            lo, hi, sz = arg(0, *a), arg(1, *b), arg(2, "size")
            sh = shape(sz)
            if sz is None or sz is NONE:
                x = next((e.fr.xarr(v) for v in (lo, hi) if not isinstance(v, N) and e.fr.xarr(v) is not None), None)
                sh = x.shape if x is not None else ()
            q = draw("z" if name == "normal" else "u", sh)
            if q is None:
                return None
            if name == "normal":
                return e.elementwise(lambda l, s, z: T.add(l, T.mul(s, z)), lo, hi, q)
            return e.elementwise(lambda l, h, u: T.add(l, T.mul(u, T.sub(h, l))), lo, hi, q)
        return None

    def submit(self, pool, f, args, kw, node):
        """run the job now; a process pool gets pickled copies of the arguments"""
        e = self.e
        if pool.process:
            # (unknown leaves of the set-ups are numbers)
            args, kw = [self.deepcopy(a, True) for a in args], {k: self.deepcopy(v, True) for k, v in kw.items()}
        e.event("submit", None, string(getattr(f, "name", "?")), None, node)
        pc, env = e.st.pc, e.st.env
        t = e.try_entry(None)
        e.tries.append(t)
        try:
            v = e.call(f, args, kw, node)
        finally:
            e.tries.remove(t)
        fut = I.FutureV(v, not e.st.alive)
        fut.names = t["caught"][-1][3] if t["caught"] else None
        if not e.st.alive:
            e.st.alive, e.st.pc = True, pc
        return fut

    def pool_method(self, o, name, args, kw, node):
        e = self.e
        if isinstance(o, I.PoolV):
            if name == "submit":
                return self.submit(o, args[0], args[1:], kw, node)
            if name == "map":
                kw = {k: v for k, v in kw.items() if k not in ("timeout", "chunksize")}
                el = [self.elems(a) for a in args[1:]]
                if el and not kw and all(x is not None for x in el):
                    fs = [self.submit(o, args[0], list(a), {}, node) for a in zip(*el)]
                    return e.new_list([self.pool_method(f, "result", [], {}, node) for f in fs])
            if name in ("shutdown", "__exit__"):
                return NONE
            if name == "__enter__":
                return o
        else:
            if name == "result":
                if o.failed:
                    e.throw(o.names, string("job"), node)
                    return NONE
                return o.value
            if name == "exception":
                return string("<exception>") if o.failed else NONE
            if name == "done":
                return TRUE
            if name in ("cancelled", "running"):
                return FALSE
        return e.unsupported("pool:" + name, node, *args)

    def file_method(self, o, name, args, kw, node):
        e = self.e
        if name in ("close", "flush", "seek", "__enter__", "__exit__"):
            if name == "seek":
                o.pos = 0
            return o if name == "__enter__" else NONE
        if name in ("readline",) and o.raw is not None and o.raw.first is not None:
            o.pos += 1
            if o.pos == 1:
                return string(o.raw.first)
        if name == "write" and args and isinstance(args[0], N) and args[0] in e.fr.dumped and T.is_str(o.path):
            e.fr.json[o.path.args[0]] = e.fr.dumped[args[0]]
        if name == "read" and T.is_str(o.path) and o.path.args[0] in e.fr.json:
            return T.app("json.text", o.path)
        if name == "write":
            e.event("write-file", None, o.path, args[0] if args else None, node)
            return NONE
        return T.app("file:" + name, o.path if isinstance(o.path, N) else e.freeze(o.path), num(o.pos))

    def frz(self, args):
        return [self.e.freeze(a) for a in args]

    def fkw(self, kw):
        return [mk("fld", k, self.e.freeze(v)) for k, v in sorted(kw.items())]

    def dict_method(self, o, name, args, kw, node):
        e = self.e
        if name == "get":
            k = args[0]
            d = args[1] if len(args) > 1 else kw.get("default", NONE)
            p = e.simp(e.has_item(o, k))
            if p is FALSE:
                return d
            v = e.read_item(o, k)
            if p is TRUE:
                return v
            if v is T.MISSING:
                return d
            return e.merge_val(p, v, d)
        if name in ("items", "keys", "values"):
            return I.ViewV(name, o)
        if name == "update":
            for a in args:
                e.dict_update(o, a, node)
            for k, v in kw.items():
                if k == "**":
                    e.dict_update(o, v, node)
                else:
                    e.store_item(o, string(k), v, node)
            return NONE
        if name == "pop":
            k = args[0]
            p = e.simp(e.has_item(o, k))
            v = e.read_item(o, k)
            if p is not FALSE:
                e.store_item(o, k, I.DEL, node)
            if len(args) > 1:
                return e.merge_val(p, v, args[1]) if v is not T.MISSING else args[1]
            return v
        if name == "setdefault":
            k = args[0]
            d = args[1] if len(args) > 1 else NONE
            p = e.simp(e.has_item(o, k))
            if p is TRUE:
                return e.read_item(o, k)
            if p is FALSE:
                e.store_item(o, k, d, node)
                return d
            e.branch(p, lambda: None, lambda: e.store_item(o, k, d, node))
            return e.read_item(o, k)
        if name == "copy":
            ob = e.obj(o)
            r = e.alloc(ob.kind if ob.kind in ("dict",) else "unk")
            new = e.obj(r)
            e.put(r, ob.w(origin=new.origin, kind=new.kind if ob.kind == "dict" else "unk", base=ob.base if isinstance(o, I.Ref) else (ob.base if ob.base is not None else o)))
            return r
        if name == "clear":
            e.event("store", o, string("<clear>"), None, node)
            e.put(o, e.obj(o).w(items=(), base=None))
            return NONE
        return None

    def list_method(self, o, kind, name, args, kw, node):
        e = self.e
        ob = e.obj(o)
        if name in ("append", "add"):
            e.event("store", o, string("<%s>" % name), args[0], node)
            mx = dict(x for x in ob.extra if isinstance(x, tuple) and len(x) == 2).get("deque")
            if mx is not None and mx is not NONE and ob.n is not None and ob.n >= int(mx.args[0]):
                el = (e.list_elems(o) + [args[0]])[-int(mx.args[0]):] if int(mx.args[0]) else []
                e.put(o, ob.w(items=tuple(I.Entry(num(i), v) for i, v in enumerate(el)), n=len(el)))
                return NONE
            if kind == "set" and ob.n is not None and e.list_elems(o) is not None and args[0] in e.list_elems(o):
                return NONE
            if ob.n is not None:
                e.put(o, ob.w(items=ob.items + (I.Entry(num(ob.n), args[0]),), n=ob.n + 1))
            else:
                k = num(len(ob.items))
                e.put(o, ob.w(items=ob.items + (I.Entry(k, args[0]),), extra=ob.extra + (("append", k),)))
            return NONE
        if name == "extend" or name == "update":
            e.event("store", o, string("<extend>"), args[0], node)
            se = e.iter_elems(args[0])
            if se is not None and all(p is TRUE for _, p in se) and ob.n is not None:
                items = ob.items + tuple(I.Entry(num(ob.n + i), v) for i, (v, _) in enumerate(se))
                e.put(o, ob.w(items=items, n=ob.n + len(se)))
            else:
                e.put(o, ob.w(n=None, items=(), base=T.app("extend", e.freeze(o), e.freeze(args[0]))))
            return NONE
        if name in ("appendleft", "popleft", "extendleft", "rotate"):
            el = e.list_elems(o)
            if el is None:
                return e.unsupported("deque." + name, node, o, *args)
            if name == "popleft":
                return self.list_method(o, kind, "pop", [ZERO], {}, node)
            e.event("store", o, string("<insert>"), args[0], node)
            if name == "rotate":
                if not T.is_num(args[0]):
                    return e.unsupported("deque.rotate", node, o, *args)
                k = int(args[0].args[0]) % len(el) if el else 0
                el = el[len(el) - k:] + el[:len(el) - k]
            elif name == "appendleft":
                mx = dict(x for x in ob.extra if isinstance(x, tuple) and len(x) == 2).get("deque", NONE)
                el = [args[0]] + el
                el = el[:int(mx.args[0])] if T.is_num(mx) else el
            else:
                el = list(reversed(self.elems(args[0]) or [])) + el
            e.put(o, ob.w(items=tuple(I.Entry(num(i), v) for i, v in enumerate(el)), n=len(el)))
            return NONE
        if name == "count" and kind == "list":
            el = e.list_elems(o)
            cs = [e.truth(e.compare(I.ast.Eq(), x, args[0], node)) for x in el] if el is not None else [None]
            if all(isinstance(c, N) for c in cs):
                return T.add(ZERO, *[T.ite(c, ONE, ZERO) for c in cs])
        if name == "insert":
            e.event("store", o, string("<insert>"), args[-1], node)
            el = e.list_elems(o)
            if el is not None and T.is_num(args[0]):
                el.insert(int(args[0].args[0]), args[1])
                e.put(o, ob.w(items=tuple(I.Entry(num(i), v) for i, v in enumerate(el)), n=len(el)))
            else:
                e.put(o, ob.w(n=None, items=(), base=T.app("insert", e.freeze(o), *self.frz(args))))
            return NONE
        if name == "copy":
            r = e.alloc(kind)
            e.put(r, ob.w(origin=e.obj(r).origin))
            return r
        if name in ("remove", "pop", "sort", "reverse", "clear", "discard"):
            e.event("store", o, string("<%s>" % name), None, node)
            el = e.list_elems(o)
            if el is not None:
                if name == "pop":
                    i = int(args[0].args[0]) if args and T.is_num(args[0]) else -1
                    if el and -len(el) <= i < len(el):
                        v = el.pop(i)
                        e.put(o, ob.w(items=tuple(I.Entry(num(j), x) for j, x in enumerate(el)), n=len(el)))
                        return v
                if name == "sort":
                    r = self.order(el, kw.get("key"), kw.get("reverse", FALSE) is TRUE, node) if kw.get("reverse", FALSE) in (TRUE, FALSE) else None
                    if r is not None:
                        e.put(o, ob.w(items=tuple(I.Entry(num(j), x) for j, x in enumerate(r)), n=len(r)))
                        return NONE
                if name == "discard" and args[0] not in el and all(isinstance(x, N) and T.is_const(x) for x in el + args):
                    return NONE
                if name == "remove" and args[0] not in el and all(isinstance(x, N) and T.is_const(x) for x in el + args):
                    e.err("valueerror", args[0], node=node)
                    return NONE
                if name in ("remove", "discard") and args[0] in el:
                    el.remove(args[0])
                    e.put(o, ob.w(items=tuple(I.Entry(num(j), x) for j, x in enumerate(el)), n=len(el)))
                    return NONE
                if name == "reverse":
                    el = el[::-1]
                    e.put(o, ob.w(items=tuple(I.Entry(num(j), x) for j, x in enumerate(el)), n=len(el)))
                    return NONE
                if name == "clear":
                    e.put(o, ob.w(items=(), n=0))
                    return NONE
            e.put(o, ob.w(n=None, items=(), base=T.app("list." + name, e.freeze(o), *self.frz(args))))
            return NONE if name != "pop" else T.app("list.popped", e.freeze(o))
        if name == "index":
            el = e.list_elems(o)
            if el is not None and isinstance(args[0], N):
                if args[0] in el and T.is_const(args[0]):
                    return num(el.index(args[0]))
                r = T.app("?index")
                for i in range(len(el) - 1, -1, -1):
                    if isinstance(el[i], N):
                        r = T.ite(T.eq(args[0], el[i]), num(i), r)
                return r
            return T.app("m:index", e.freeze(o), *self.frz(args))
        if name in ("intersection_update", "difference_update", "symmetric_difference_update"):
            e.event("store", o, string("<%s>" % name), args[0], node)
            r = self.list_method(o, kind, name[:-7], args, kw, node)
            if isinstance(r, I.Ref):
                e.put(o, ob.w(items=e.obj(r).items, n=e.obj(r).n))
            else:
                e.put(o, ob.w(n=None, items=(), base=r))
            return NONE
        if name in ("issubset", "intersection", "difference", "union", "issuperset", "isdisjoint", "symmetric_difference"):
            a, b = e.list_elems(o), self.elems(args[0])
            if a is not None and b is not None and all(isinstance(x, N) and T.is_const(x) for x in a + b):
                if name == "issubset":
                    return TRUE if all(x in b for x in a) else FALSE
                if name == "issuperset":
                    return TRUE if all(x in a for x in b) else FALSE
                if name == "isdisjoint":
                    return FALSE if any(x in b for x in a) else TRUE
                out = {"symmetric_difference": [x for x in a if x not in b] + [x for x in b if x not in a], "intersection": [x for x in a if x in b], "difference": [x for x in a if x not in b],
                       "union": a + [x for x in b if x not in a]}[name]
                return e.alloc("set", items=tuple(I.Entry(num(i), v) for i, v in enumerate(out)), n=len(out))
            return T.app("set." + name, e.freeze(o), *self.frz(args))
        return None

    def elems(self, v):
        se = self.e.iter_elems(v)
        if se is None or any(p is not TRUE for _, p in se):
            return None
        return [x for x, _ in se]

    def str_method(self, o, name, args, kw):
        e = self.e
        if o.op != "str":
            return None
        s = o.args[0]
        if name == "join" and len(args) == 1:
            el = self.elems(args[0])
            if el is not None and all(isinstance(x, N) for x in el):
                return self.cat([y for i, x in enumerate(el) for y in ([o] if i else []) + [x]])
            return None
        if name == "format":
            try:
                return self.str_format(s, args, kw)
            except (KeyError, IndexError, ValueError):
                return T.app("fmt", o, *self.frz(args), *self.fkw(kw))
        if name in ("startswith", "endswith") and args and isinstance(args[0], (I.Tup,)):
            if all(T.is_str(a) for a in args[0].items):
                return T.bor(*[TRUE if getattr(s, name)(a.args[0]) else FALSE for a in args[0].items])
            return None
        try:
            py = [self.to_py(a) for a in args]
            kwp = {k: self.to_py(v) for k, v in kw.items()}
        except ValueError:
            return None
        try:
            return self.of_py(getattr(s, name)(*py, **kwp))
        except ValueError:
            return e.err("valueerror", o) if name in ("index", "rindex") else None
        except TypeError:
            return None

    def arr_method(self, o, name, args, kw, node):
        e = self.e
        a = e.as_arr(o)
        if name == "copy":
            return e.alloc("arr", arr=a)
        if name in ("to_numpy", "astype"):
            return a
        if name == "squeeze" and len(a.lens) == 1:
            return a
        if name in ("tolist", "to_list"):
            return a
        if name in ("sum", "mean", "min", "max", "any", "all", "cumsum", "abs", "std"):
            return self.reduce(o, name, args, kw, node)
        if name == "transpose":
            return self.transpose(a)
        if name == "clip":
            return self.np_clip([o] + args, kw)
        if name == "fill" and isinstance(o, I.Ref):
            e.event("store", o, string("<fill>"), args[0], node)
            e.put(o, e.obj(o).w(arr=I.ArrV(args[0], a.lens)))
            return NONE
        if name == "where":
            other = args[1] if len(args) > 1 else mk("special", "nan")
            return e.elementwise(lambda c, x, y: T.ite(T.truth(c), x, y), args[0], o, other)
        return None

    def df_method(self, o, name, args, kw, node):
        e = self.e
        ob = e.obj(o)
        if name == "copy":
            r = e.alloc("df")
            e.put(r, ob.w(origin=e.obj(r).origin))
            return r
        if name in ("items", "keys", "get", "pop"):
            return self.dict_method(o, name, args, kw, node)
        if name == "drop":
            cols = args[0] if args else kw.get("columns", kw.get("labels"))
            axis = args[1] if len(args) > 1 else kw.get("axis")
            el = e.list_elems(cols) if cols is not None and not isinstance(cols, N) else ([cols] if isinstance(cols, N) and T.is_str(cols) else None)
            if el is not None and all(T.is_str(x) for x in el) and ("columns" in kw or axis is ONE or (axis is not None and T.is_str(axis))):
                items = tuple(x for x in ob.items if x.key not in el)
                if kw.get("inplace") is TRUE:
                    e.event("store", o, string("<drop inplace>"), None, node)
                    e.put(o, ob.w(items=items))
                    return NONE
                r = e.alloc("df")
                e.put(r, ob.w(items=items, origin=e.obj(r).origin))
                return r
        if name == "sum":
            axis = args[0] if args else kw.get("axis")
            ks = e.dict_keys(o)
            if ks is not None and axis is ONE:
                vals = [e.read_item(o, k) for k, _ in ks]
                acc = ZERO
                for v in vals:
                    acc = e.elementwise(T.add, acc, v if isinstance(v, (N, I.ArrV)) else (e.as_arr(v) or e.freeze(v)))
                return acc
        if name == "abs":
            r = e.alloc("df")
            e.put(r, ob.w(items=tuple(I.Entry(x.key, e.elementwise(lambda y: T.fn("abs", y), x.val), x.guard, x.var, x.dom) for x in ob.items), origin=e.obj(r).origin))
            return r
        if name == "mean":
            axis = args[0] if args else kw.get("axis")
            ks = e.dict_keys(o)
            if ks and axis is ONE:
                acc = self.df_method(o, "sum", [], {"axis": ONE}, node)
                return e.elementwise(lambda x: T.scale(T.Fraction(1, len(ks)), x), acc)
        if kw.get("inplace") is TRUE:
            e.event("store", o, string("<%s inplace>" % name), None, node)
        if name == "insert":
            e.event("store", o, args[1] if isinstance(args[1], N) else string("?"), args[2], node)
            rec, e.recording = e.recording, False
            e.store_item(o, args[1], args[2], node)
            e.recording = rec
            return NONE
        return None

    # -- reductions ------------------------------------------------------
    def reduce(self, o, name, args, kw, node):
        e = self.e
        if e.fr.explicitish(o):
            r = e.fr.reduce(o, name, e.fr.ax(args, kw))
            if r is not NotImplemented:
                return r
        if isinstance(o, I.Ref) and e.obj(o).kind == "df":
            r = self.df_method(o, name, args, kw, node)
            if r is not None:
                return r
        axis = kw.get("axis", args[0] if args else None)
        if isinstance(axis, N) and axis.op == "none":
            axis = None
        if name == "abs":
            if isinstance(o, N) and o.op != "num":
                return T.fn("abs", o)
            return e.elementwise(lambda x: T.fn("abs", x), o)
        if name in ("sum", "mean"):
            el = e.list_elems(o)
            if el is not None and all(isinstance(x, N) for x in el):
                s = T.add(ZERO, *el)
                return s if name == "sum" else T.div(s, num(len(el))) if el else mk("special", "nan")
            if isinstance(o, I.CompV):
                if isinstance(o.val, N):
                    body = T.ite(o.cond, o.val, ZERO)
                    s = T.sumover(o.dom.kind, o.dom.node, o.dom.var, body)
                    if name == "sum":
                        return s
            if isinstance(o, I.Ref) and e.obj(o).kind == "list":
                se = e.iter_elems(o)
                if se is not None and all(isinstance(x, N) for x, _ in se) and name == "sum":
                    return T.add(ZERO, *[T.ite(p, x, ZERO) for x, p in se])
            a = e.as_arr(o)
            if isinstance(o, N) and T.is_num(o):
                return o
            if a is None and isinstance(o, N):
                if axis is None and (o.op in ("sum", "prod", "fn", "ite") and not self.has_array_leaf(o)):
                    return o if name == "sum" else o
                if axis is None:
                    v = sym("$r", "int")
                    L = mk("len", self.some_array(o))
                    el = e.getitem(o, v, None)
                    s = T.sumover("range", L, v, el if isinstance(el, N) else e.freeze(el))
                    return s if name == "sum" else T.div(s, L)
                return T.app(name, o, e.freeze(axis))
            if a is not None:
                nd = len(a.lens)
                ax = None
                if axis is not None:
                    if not T.is_num(axis):
                        return T.app("?" + name, e.freeze(a), e.freeze(axis))
                    ax = int(axis.args[0]) % nd
                if nd == 1 and ax in (None, 0):
                    v = sym("$r", "int")
                    s = T.sumover("range", a.lens[0] if a.lens[0] is not None else mk("len", e.freeze(a)), v, T.subst(a.content, {IX[0]: v}))
                    return s if name == "sum" else T.div(s, e.length(a))
                if nd == 2 and ax is not None:
                    v = sym("$r", "int")
                    c = T.subst(a.content, {IX[ax]: v})
                    keep = 1 - ax
                    c = T.subst(c, {IX[keep]: IX[0]})
                    L = a.lens[ax] if a.lens[ax] is not None else mk("len2", e.freeze(a), num(ax))
                    s = T.sumover("range", L, v, c)
                    r = I.ArrV(s, [a.lens[keep]])
                    return r if name == "sum" else e.elementwise(lambda x: T.div(x, L), r)
                if nd == 2 and ax is None:
                    r = self.reduce(a, "sum", [], {"axis": ZERO}, node)
                    s = self.reduce(r, "sum", [], {}, node)
                    if name == "sum":
                        return s
            return T.app(name, e.freeze(o), *( [e.freeze(axis)] if axis is not None else []))
        if name in ("min", "max"):
            el = e.list_elems(o)
            if el is not None and el and all(isinstance(x, N) for x in el) and axis is None:
                return T.fn(name, *el)
        if name in ("any", "all"):
            el = self.e.iter_elems(o)
            if el is not None and axis is None:
                cs = [(e.truth(x), p) for x, p in el]
                if name == "any":
                    return T.bor(*[T.band(c, p) for c, p in cs]) if cs else FALSE
                return T.band(*[T.bor(c, T.bnot(p)) for c, p in cs]) if cs else TRUE
            if isinstance(o, I.CompV):
                return T.truth(T.app(name, e.freeze(o)))
            if isinstance(o, N) and T.is_bool(o):
                return o
            return T.truth(T.app(name, e.freeze(o)))
        if name == "cumsum":
            a = e.as_arr(o)
            if a is not None and len(a.lens) == 1:
                v = sym("$r", "int")
                return I.ArrV(T.sumover("range", T.add(IX[0], ONE), v, T.subst(a.content, {IX[0]: v})), a.lens)
            if isinstance(o, N) and axis is None:
                v = sym("$r", "int")
                el = e.getitem(o, v, None)
                return I.ArrV(T.sumover("range", T.add(IX[0], ONE), v, el if isinstance(el, N) else e.freeze(el)), [mk("len", o)])
        return T.app(name, e.freeze(o), *self.frz(args), *self.fkw(kw))

    def has_array_leaf(self, o):
        """scalar arithmetic on item/sym leaves is treated as scalar unless a leaf is known to be a vector"""
        return any(x.op in ("lam",) or (x.op == "sym" and x.args[1] in ("obj", "any")) for x in T.walk(o)) and not any(x.op == "num" for x in [o])

    def some_array(self, o):
        if o.op in ("sum", "prod", "fn", "ite"):
            for x in sorted(T.children(o), key=lambda t: t.uid):
                if x.op not in ("num", "str") and x.op not in ("lt", "eq"):
                    return self.some_array(x)
        return o

    def np_clip(self, args, kw):
        e = self.e
        lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min", NONE))
        hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max", NONE))
        v = args[0]
        if not (isinstance(lo, N) and lo.op == "none"):
            v = e.elementwise(lambda a, b: T.fn("max", a, b), v, lo)
        if not (isinstance(hi, N) and hi.op == "none"):
            v = e.elementwise(lambda a, b: T.fn("min", a, b), v, hi)
        return v

    # -- external calls --------------------------------------------------
    def call_ext(self, name, args, kw, node):
        e = self.e
        # distribute over joined values in the first argument
        if args and isinstance(args[0], I.IteV) and not name.startswith("builtins.print"):
            f = args[0]
            if f.a is I.UNDEF:
                return self.call_ext(name, [f.b] + args[1:], kw, node)
            if f.b is I.UNDEF:
                return self.call_ext(name, [f.a] + args[1:], kw, node)
            return e.branch(f.c, lambda: self.call_ext(name, [f.a] + args[1:], kw, node), lambda: self.call_ext(name, [f.b] + args[1:], kw, node))
        r = self.std(name, args, kw, node)
        if r is not pylib.NI:
            return r
        root, _, rest = name.partition(".")
        if root == "builtins":
            m = getattr(self, "b_" + rest.replace(".", "_"), None)
            if m is not None:
                return m(args, kw, node)
            if rest.endswith(("Error", "Exception", "Warning")):
                return T.app("exc:" + rest, *self.frz(args))
        if root == "numpy":
            r = e.fr.numpy(rest, args, kw, node)
            if r is not NotImplemented:
                return r
            r = self.numpy(rest, args, kw, node)
            if r is not None:
                return r
        if root == "math":
            if rest in ELEM1 or rest in ("exp", "log", "sqrt", "pow"):
                if rest == "pow":
                    return T.power(args[0], args[1])
                if len(args) == 1:
                    return T.fn(ELEM1.get(rest, rest), e.freeze(args[0]))
            if rest == "fsum":
                return self.reduce(args[0], "sum", [], {}, node)
        if root == "pandas":
            r = e.fr.pandas(rest, args, kw, node)
            if r is not NotImplemented:
                return r
            r = self.pandas(rest, args, kw, node)
            if r is not None:
                return r
        if name.startswith("matplotlib."):
            rest = name[11:]
            if rest.startswith("pyplot."):
                return self.pyplot(rest[7:], args, kw, node)
            if rest == "use":
                args.all(), kw.all()
                return NONE
        if name == "functools.partial":
            return I.PartialV(args[0], args[1:], dict(kw.items()))
        if name.startswith("concurrent.futures."):
            short = name.rsplit(".", 1)[1]
            if short in ("ProcessPoolExecutor", "ThreadPoolExecutor"):
                return I.PoolV(short == "ProcessPoolExecutor")
            if short == "as_completed" and args:
                el = self.elems(args[0])
                if el is not None:
                    return I.Tup(list(reversed(el)))     # completion order is arbitrary: the opposite of submission
            if short == "wait" and args:
                el = self.elems(args[0])
                if el is not None:
                    return I.Tup([e.new_list(list(reversed(el))), e.new_list([])])
        if name.startswith("tqdm") and name.endswith((".tqdm", ".trange")) and (args or "iterable" in kw):
            return args[0] if args else kw["iterable"]
        if name.endswith("stats.qmc.LatinHypercube"):
            d = args[0] if args else kw.get("d")
            if isinstance(d, N) and T.is_num(d):
                sd = kw.get("seed", kw.get("rng"))
                return I.RandV(int(d.args[0]), None if sd is NONE else sd.seed if isinstance(sd, I.RandV) else sd)
        if name.endswith("stats.qmc.scale") and len(args) + len([k for k in kw if k in ("l_bounds", "u_bounds", "sample")]) == 3 and "reverse" not in kw:
            q, lo, hi = [args[i] if len(args) > i else kw[k] for i, k in enumerate(("sample", "l_bounds", "u_bounds"))]
            return e.elementwise(lambda u, l, h: T.add(l, T.mul(u, T.sub(h, l))), q, lo, hi)
        if name in ("numpy.random.default_rng", "numpy.random.RandomState"):
            sd = args[0] if args else kw.get("seed")
            return sd if isinstance(sd, I.RandV) else I.RandV(None, None if sd is NONE else sd)
        if name == "numpy.random.seed":
            sd = args[0] if args else kw.get("seed")
            self.global_seed = I.RandV(None, None if sd is NONE else sd)
            return NONE
        if name.startswith("numpy.random.") and name.count(".") == 2:
            r = self.random(None, name.rsplit(".", 1)[1], args, kw, node)
            if r is not None:
                return r
        if name == "csv.reader" and args and isinstance(args[0], I.FileV) and args[0].raw is not None:
            cell = lambda x: x if T.is_str(x) else T.app("text", x)
            return e.new_list([e.new_list([cell(x) for x in r]) for r in args[0].raw.rows], extra=(("iterator", TRUE),))
        if name == "copy.deepcopy":
            return self.deepcopy(args[0])
        if name == "copy.copy":
            return self.method(args[0], "copy", [], {}, node)
        if name in ("builtins.open", "io.open"):
            mode = args[1] if len(args) > 1 else kw.get("mode", string("r"))
            e.unsure("os")
            if not (isinstance(mode, N) and mode.op == "str" and "w" not in mode.args[0] and "a" not in mode.args[0]):
                e.fr.opened.append(args[0])
            return I.FileV(args[0], e.fr.raw(args[0]), mode.args[0] if isinstance(mode, N) and mode.op == "str" else "r")
        if name == "json.dump" and len(args) > 1 and isinstance(args[1], I.FileV) and T.is_str(args[1].path):
            e.fr.json[args[1].path.args[0]] = self.deepcopy(args[0], True)
            e.event("write-file", None, args[1].path, None, node)
            return NONE
        if name == "json.dumps":
            r = T.app("json.dumps", num(len(e.fr.dumped)), e.freeze(args[0]))
            e.fr.dumped[r] = self.deepcopy(args[0], True)
            return r
        if name == "json.loads" and args and isinstance(args[0], N) and args[0].op == "app" and args[0].args[0] == "json.text":
            return self.deepcopy(e.fr.json[args[0].args[1].args[0]], True)
        if name == "json.load" and args and isinstance(args[0], I.FileV) and T.is_str(args[0].path) and args[0].path.args[0] in e.fr.json:
            return self.deepcopy(e.fr.json[args[0].path.args[0]], True)
        if name.endswith("solve_banded"):
            a = e.as_arr(args[1])
            d = e.as_arr(args[2])
            ab = e.freeze(a) if a is not None else e.freeze(args[1])
            dd = e.freeze(d) if d is not None else e.freeze(args[2])
            n = d.lens[0] if d is not None else mk("len", dd)
            return I.ArrV(T.app("solve_banded", e.freeze(args[0]), ab, dd, n, IX[0]), [n])
        if name == "os.path.join":
            if args and all(isinstance(a, N) and a.op == "str" for a in args):
                return string(os.path.join(*[a.args[0] for a in args]))
        if name in ("os.path.dirname", "os.path.basename", "os.path.realpath", "os.path.abspath", "os.path.normpath") and len(args) == 1 and isinstance(args[0], N) and args[0].op == "str":
            x = args[0].args[0]
            f = getattr(os.path, name[8:])
            if name[8:] in ("realpath", "abspath"):      # lexical: the analysed tree, not the analyser's, is meant
                return string(os.path.normpath(os.path.join(CWD, x)))
            return string(f(x))
        if name in ("os.path.splitext", "os.path.split") and len(args) == 1 and isinstance(args[0], N) and args[0].op == "str":
            return I.Tup([string(x) for x in getattr(os.path, name[8:])(args[0].args[0])])
        if name == "os.getcwd":
            return string(CWD)
        if name in ("os.path.exists", "os.path.isdir") and isinstance(args[0], N) and args[0].op == "str" and args[0].args[0] in e.fr.dirs:
            return e.fr.dirs[args[0].args[0]]
        if name in ("os.makedirs", "os.mkdir") and e.fr.dirs and isinstance(args[0], N) and args[0].op == "str" and e.st.pc is TRUE:
            x = args[0].args[0]
            ok = kw.get("exist_ok", FALSE) in (TRUE, ONE) and name == "os.makedirs"
            if e.fr.dirs.get(x) is TRUE and not ok or name == "os.mkdir" and e.fr.dirs.get(os.path.dirname(x)) is FALSE:
                return e.err("oserror", args[0], node=node)
            e.event("mkdir", None, args[0], None, node)
            e.fr.dirs[x] = TRUE
            return NONE
        if name in ("os.path.exists", "os.path.isfile") and isinstance(args[0], N) and args[0].op == "str" and e.fr.on:
            if args[0].args[0] in e.fr.missing:
                return FALSE
            if args[0].args[0].startswith(e.root + "/"):    # files shipped with the analysed source
                return TRUE if os.path.exists(args[0].args[0]) else FALSE
            if args[0].args[0] in e.fr.files or args[0].args[0] in e.fr.json:
                return TRUE
        if name.startswith("os.path.exists"):
            return T.truth(T.app("exists", *self.frz(args)))
        if name in ("builtins.print", "time.sleep") or name.startswith("logging."):
            if name == "logging.getLogger":
                return T.app("ext:logging.getLogger")
            return NONE
        fname = "ext:" + name
        if name.startswith(RANDOM_ROOTS) or ".random." in name:
            fname = "?" + fname
        # functions / callables handed to an external are assumed possibly called
        e.unsure("any")
        e.event("ext-call", None, string(name), I.Tup(list(args)), node, extra=kw)
        return T.app(fname, *self.frz(args), *self.fkw(kw))

    # builtins
    def b_len(self, args, kw, node):
        return self.e.length(args[0])

    def b_range(self, args, kw, node):
        a = [x if isinstance(x, N) else self.e.freeze(x) for x in args]
        if len(a) == 1:
            return I.RangeV(ZERO, a[0], ONE)
        return I.RangeV(a[0], a[1], a[2] if len(a) > 2 else ONE)

    def b_enumerate(self, args, kw, node):
        return I.ViewV("enumerate", args[0], args[1] if len(args) > 1 else kw.get("start"))

    def b_zip(self, args, kw, node):
        return I.ViewV("zip", list(args))

    def b_reversed(self, args, kw, node):
        return I.ViewV("reversed", args[0])

    def b_sorted(self, args, kw, node):
        rev = kw.get("reverse", FALSE)
        if kw and rev in (TRUE, FALSE):
            el = self.elems(args[0])
            el = self.order(el, kw.get("key"), rev is TRUE, node) if el is not None else None
            if el is not None:
                return self.e.new_list(el)
            if rev is FALSE and kw.get("key", NONE) is NONE:
                kw = {}
        if not kw:
            el = self.elems(args[0])
            if el is not None and not all(isinstance(x, N) and T.is_const(x) for x in el):
                el = self.network(el, el, False)
                if el is not None:
                    return self.e.new_list(el)
            return I.ViewV("sorted", args[0])
        return T.app("sorted", self.e.freeze(args[0]), *self.fkw(kw))

    def b_sum(self, args, kw, node):
        el = self.e.iter_elems(args[0]) if not isinstance(args[0], N) else None
        if el and all(p is TRUE for _, p in el) and any(not isinstance(x, N) for x, _ in el):
            r = args[1] if len(args) > 1 else kw.get("start", ZERO)
            for x, _ in el:
                r = self.e.binop(I.ast.Add(), r, x, node)
            return r
        r = self.reduce(args[0], "sum", [], {}, node)
        start = args[1] if len(args) > 1 else kw.get("start", ZERO)
        return r if start is ZERO else self.e.elementwise(T.add, r, start)

    def minmax(self, nm, args, kw, node):
        e = self.e
        if len(args) == 1 and (kw or not isinstance(args[0], N)):
            el = self.elems(args[0])
            if el is not None and not el:
                return kw["default"] if "default" in kw else e.err("valueerror", string(nm), node=node)
            if el is not None and (kw.get("key", NONE) is not NONE or not all(isinstance(x, N) for x in el)):
                r = self.order(el, kw.get("key"), False, node)
                if r is not None:
                    ks = [e.call(kw["key"], [x], {}, node) if kw.get("key", NONE) is not NONE else x for x in r]
                    k = self.to_py(ks[0 if nm == "min" else -1])
                    return next(x for x, y in zip(r, ks) if self.to_py(y) == k)
        if kw.get("key", NONE) is not NONE:
            return T.app(nm, *self.frz(args), *self.fkw(kw))
        if len(args) == 1:
            return self.reduce(args[0], nm, [], {}, node)
        return T.fn(nm, *[a if isinstance(a, N) else e.freeze(a) for a in args])

    def b_min(self, args, kw, node):
        return self.minmax("min", args, kw, node)

    def b_max(self, args, kw, node):
        return self.minmax("max", args, kw, node)

    def b_chr(self, args, kw, node):
        if T.is_num(args[0]):
            return string(chr(int(args[0].args[0])))
        return T.app("chr", self.e.freeze(args[0]))

    def b_ord(self, args, kw, node):
        if T.is_str(args[0]) and len(args[0].args[0]) == 1:
            return num(ord(args[0].args[0]))
        return T.app("ord", self.e.freeze(args[0]))

    def b_abs(self, args, kw, node):
        return self.e.elementwise(lambda x: T.fn("abs", x), args[0])

    def b_int(self, args, kw, node):
        if not args:
            return ZERO
        v = args[0]
        if isinstance(v, N) and v.op == "str":
            try:
                return num(int(v.args[0]))
            except ValueError:
                return self.e.err("valueerror", v, node=node)
        if isinstance(v, N) and v.op == "sym" and v.args[1] in ("int",):
            return v
        v = v if isinstance(v, N) else self.e.freeze(v)
        if not (v.op in ("num", "sum", "prod", "fn") or v.op == "sym" and v.args[1] in ("num", "int", "bool")):
            self.e.unsure("value")
        return T.fn("int", v)

    def b_float(self, args, kw, node):
        if not args:
            return ZERO
        v = args[0]
        if isinstance(v, N) and v.op == "str":
            try:
                return num(float(v.args[0]))
            except ValueError:
                return self.e.err("valueerror", v, node=node)
        f = self.e.dunder(v, "__float__")
        if f is not None:
            return self.e.call(f, [], {}, node)
        v = v if isinstance(v, N) else self.e.freeze(v)
        if not (v.op in ("num", "sum", "prod", "fn") or v.op == "sym" and v.args[1] in ("num", "int", "bool")):
            self.e.unsure("value")
        return v

    def b_round(self, args, kw, node):
        return T.fn("round", *self.frz(args))

    def b_bool(self, args, kw, node):
        return self.e.truth(args[0]) if args else FALSE

    def b_str(self, args, kw, node):
        return self.fmt(args[0], string("")) if args else string("")

    def b_list(self, args, kw, node):
        e = self.e
        if not args:
            return e.new_list([])
        el = self.elems(args[0])
        if el is not None:
            return e.new_list(el)
        if isinstance(args[0], I.Ref) and e.obj(args[0]).kind == "list":
            return self.method(args[0], "copy", [], {}, node)
        return I.ViewV("list", args[0])

    def b_tuple(self, args, kw, node):
        if not args:
            return I.Tup([])
        el = self.elems(args[0])
        if el is not None:
            return I.Tup(el)
        return I.ViewV("list", args[0])

    def b_set(self, args, kw, node):
        e = self.e
        if not args:
            return e.alloc("set", n=0)
        el = self.elems(args[0])
        if el is not None:
            u = []
            for x in el:
                if x not in u:
                    u.append(x)
            return e.alloc("set", items=tuple(I.Entry(num(i), v) for i, v in enumerate(u)), n=len(u))
        return T.app("set", e.freeze(args[0]))

    b_frozenset = b_set

    def b_Ellipsis(self, args, kw, node):
        return NONE

    def b_dict(self, args, kw, node):
        e = self.e
        d = e.alloc("dict")
        if args:
            a = args[0]
            el = self.elems(a) if isinstance(a, (I.ViewV, I.Tup)) or isinstance(a, I.Ref) and e.obj(a).kind in ("list", "set") else None
            if el is not None:
                el = [x if isinstance(x, I.Tup) else I.Tup(self.elems(x) or []) for x in el]
            if el is not None and all(len(x.items) == 2 for x in el):
                rec, e.recording = e.recording, False
                for x in el:
                    e.store_item(d, x.items[0], x.items[1], node)
                e.recording = rec
            else:
                e.dict_update(d, a, node, silent=True)
        rec, e.recording = e.recording, False
        for k, v in kw.items():
            if k == "**":
                e.dict_update(d, v, node, silent=True)
            else:
                e.store_item(d, string(k), v, node)
        e.recording = rec
        return d

    def b_any(self, args, kw, node):
        return self.reduce(args[0], "any", [], {}, node)

    def b_all(self, args, kw, node):
        return self.reduce(args[0], "all", [], {}, node)

    def b_print(self, args, kw, node):
        return NONE

    def b_isinstance(self, args, kw, node):
        e = self.e
        v, c = args[0], args[1]
        if isinstance(c, I.Tup):
            return T.bor(*[self.b_isinstance([v, x], {}, node) for x in c.items])
        if isinstance(v, I.IteV):
            return T.ite(v.c, self.b_isinstance([v.a, c], {}, node), self.b_isinstance([v.b, c], {}, node))
        cn = c.name if isinstance(c, (I.ExtV, I.ClassV)) else None
        if isinstance(c, I.Ref) and e.list_elems(c) is not None or isinstance(c, N) and c.op == "app" and c.args[0] == "opBitOr":
            return mk("isinst", e.freeze(v), "?")
        if isinstance(c, I.ExtV) and cn.startswith(("collections.abc.", "typing.")):
            sh = cn.rsplit(".", 1)[1]
            k = e.obj(v).kind if isinstance(v, I.Ref) else "str" if T.is_str(v) else "tuple" if isinstance(v, I.Tup) else "num" if isinstance(v, N) and v.op in ("num", "sum", "prod") else None
            t = {"Mapping": ("dict",), "MutableMapping": ("dict",), "Dict": ("dict",), "Sequence": ("list", "tuple", "str"), "List": ("list",),
                 "MutableSequence": ("list",), "Iterable": ("dict", "list", "tuple", "str", "set", "arr", "df"), "Set": ("set",)}.get(sh)
            if t is not None and k in ("dict", "list", "set", "str", "tuple", "num", "arr", "df"):
                return TRUE if k in t else FALSE
        if isinstance(c, I.ExtV) and cn in ("numbers.Number", "numbers.Real") and isinstance(v, N):
            if v.op in ("num", "sum", "prod") or v.op == "sym" and v.args[1] in ("num", "int"):
                return TRUE
            if v.op in ("str", "none") or v.op == "sym" and v.args[1] == "str":
                return FALSE
        if isinstance(c, I.ExtV) and cn.startswith("numbers.") and isinstance(v, I.Ref) and e.obj(v).kind in ("dict", "list", "set", "arr", "df"):
            return FALSE
        if isinstance(c, I.ExtV) and isinstance(v, N) and v.op == "sym" and v.args[0].startswith(("npnum_", "intnum_")):
            # set-ups name the kind of number: one of numpy's own (neither int nor float), or an integer
            isnp = v.args[0].startswith("npnum_")
            known = {"builtins.int": not isnp, "builtins.float": False, "builtins.bool": False, "numpy.floating": False, "numpy.float64": False,
                     "numpy.integer": isnp, "numpy.int64": isnp, "numpy.number": isnp, "numpy.generic": isnp, "numbers.Integral": True, "numbers.Rational": True}
            if cn in known:
                return TRUE if known[cn] else FALSE
        if isinstance(v, I.PyV) and isinstance(c, I.ExtV):
            return TRUE if cn.rsplit(".", 1)[-1] in [x.__name__ for x in type(v.v).__mro__] else FALSE
        if isinstance(v, I.Ref) and e.obj(v).kind == "inst" and isinstance(c, I.ExtV) and cn.startswith("builtins."):
            return TRUE if cn == "builtins.object" or any(isinstance(b, I.ExtV) and b.name == cn for x in e.obj(v).cls.mro() for b in x.bases) else FALSE
        if isinstance(c, I.ClassV):
            cl = e.class_of(v) if isinstance(v, (I.Ref, N)) else None
            if cl is not None:
                return TRUE if c in cl.mro() else FALSE
        if isinstance(v, I.Ref) and isinstance(c, I.ExtV):
            k = e.obj(v).kind
            m = {"dict": "builtins.dict", "list": "builtins.list", "set": "builtins.set", "arr": "numpy.ndarray", "df": "pandas.DataFrame"}
            if k in m:
                return TRUE if m[k] == cn else FALSE
        if isinstance(v, (I.FuncV, I.BoundV, I.PartialV, I.VecV, I.ExtV, I.MethV)) and isinstance(c, I.ExtV):
            return FALSE
        if isinstance(v, e.fr.SerV) and isinstance(c, I.ExtV):
            return TRUE if cn == "pandas.Series" else FALSE
        if isinstance(v, I.ArrV) and isinstance(c, I.ExtV):
            return TRUE if cn == "numpy.ndarray" else FALSE
        if isinstance(v, I.Tup) and isinstance(c, I.ExtV):
            return TRUE if cn == "builtins.tuple" else FALSE
        if isinstance(v, N) and isinstance(c, I.ExtV):
            if v.op == "ite":
                return T.ite(v.args[0], self.b_isinstance([v.args[1], c], {}, node), self.b_isinstance([v.args[2], c], {}, node))
            if v.op == "str":
                return TRUE if cn == "builtins.str" else FALSE
            if v.op == "none":
                return TRUE if cn in ("builtins.NoneType", "types.NoneType", "builtins.object") else FALSE
            if cn in ("builtins.NoneType", "types.NoneType") and v.op in ("num", "str", "sum", "prod"):
                return FALSE
            if v.op == "num":
                if cn == "builtins.str":
                    return FALSE
                if cn == "builtins.float":
                    return TRUE if v.args[0].denominator != 1 else mk("isinst", v, cn)
                if cn == "builtins.int":
                    return TRUE if v.args[0].denominator == 1 else FALSE
            if v.op in ("sum", "prod") and cn in ("builtins.int", "builtins.float"):
                nt = numtype(v)
                if nt:
                    return TRUE if cn == "builtins." + nt else FALSE
            if v.op in ("sum", "prod") or (v.op == "sym" and v.args[1] in ("num", "int")):
                if cn in ("builtins.str", "builtins.list", "builtins.dict"):
                    return FALSE
                if cn == "builtins.int" and v.op == "sym":
                    return TRUE if v.args[1] == "int" else FALSE
                if cn == "builtins.float" and v.op == "sym":
                    return TRUE if v.args[1] == "num" else FALSE
                if cn in ("numpy.ndarray",) and v.op == "sym":
                    return FALSE
            if v.op == "sym" and v.args[1] == "str":
                return TRUE if cn == "builtins.str" else FALSE
        return mk("isinst", e.freeze(v), cn or "?")

    def b_hasattr(self, args, kw, node):
        e = self.e
        if T.is_str(args[1]) and args[1].args[0] in ("__len__", "__iter__", "__getitem__"):
            v = args[0]
            if isinstance(v, (I.ArrV, I.Tup, I.RangeV)) or (isinstance(v, I.Ref) and e.obj(v).kind in ("dict", "list", "arr", "df", "set")):
                return TRUE
            if isinstance(v, N) and (v.op in ("num", "sum", "prod") or (v.op == "sym" and v.args[1] in ("num", "int", "bool"))):
                return FALSE
        if T.is_str(args[1]) and isinstance(args[0], I.NtV):
            return TRUE if args[1].args[0] in args[0].cls.nt or args[0].cls.lookup(args[1].args[0]) is not None else FALSE
        if T.is_str(args[1]) and isinstance(args[0], I.ClassV):
            return TRUE if args[0].lookup(args[1].args[0]) is not None else FALSE
        if T.is_str(args[1]) and isinstance(args[0], (I.Ref, N)):
            nm = args[1].args[0]
            o = e.obj(args[0])
            if nm in o.attrs:
                return TRUE
            c = e.class_of(args[0])
            if c is not None:
                if c.lookup(nm) is not None:
                    return TRUE
                if o.kind == "inst":
                    return FALSE
        return mk("exists", e.freeze(args[0]), e.freeze(args[1]))

    def b_getattr(self, args, kw, node):
        if T.is_str(args[1]):
            if len(args) == 3:
                h = self.b_hasattr(args[:2], {}, node)
                if h is FALSE:
                    return args[2]
                v = self.e.getattr(args[0], args[1].args[0], node)
                return v if h is TRUE else self.e.merge_val(h, v, args[2])
            return self.e.getattr(args[0], args[1].args[0], node)
        return self.e.unsupported("getattr", node, *args)

    def b_setattr(self, args, kw, node):
        if T.is_str(args[1]):
            self.e.setattr(args[0], args[1].args[0], args[2], node)
        else:
            self.e.note("unsupported", "setattr-dynamic")
        return NONE

    def b_type(self, args, kw, node):
        v = args[0]
        c = self.e.class_of(v) if isinstance(v, (I.Ref, N, I.NtV)) else None
        if c is None:
            k = self.e.obj(v).kind if isinstance(v, I.Ref) else "tuple" if isinstance(v, I.Tup) else \
                {"str": "str", "none": "NoneType"}.get(v.op) if isinstance(v, N) else None
            if k in ("dict", "list", "set", "str", "NoneType", "tuple"):
                return I.ExtV("builtins." + k)
        return c if c is not None else T.app("type", self.e.freeze(args[0]))

    def b_callable(self, args, kw, node):
        v = args[0]
        if isinstance(v, (I.FuncV, I.BoundV, I.PartialV, I.VecV, I.ExtV, I.ClassV)):
            return TRUE
        if isinstance(v, N) and T.is_const(v):
            return FALSE
        return mk("isinst", self.e.freeze(v), "callable")

    def b_map(self, args, kw, node):
        e = self.e
        if len(args) == 2:
            se = e.iter_elems(args[1])
            if se is not None:
                if all(p is TRUE for _, p in se):
                    return self.iterator([e.call(args[0], [x], {}, node) for x, _ in se])
                out = []
                for x, p in se:
                    out.append((e.branch(p, lambda: e.call(args[0], [x], {}, node), lambda: NONE), p))
                return e.alloc("list", items=tuple(I.Entry(num(i), x, p) for i, (x, p) in enumerate(out)), n=None)
        els = [self.elems(a) for a in args[1:]]
        if len(args) > 2 and all(x is not None for x in els):
            return self.iterator([e.call(args[0], list(r), {}, node) for r in zip(*els)])
        return T.app("map", *self.frz(args))

    def b_next(self, args, kw, node):
        e = self.e
        d = args[1] if len(args) > 1 else None
        if isinstance(args[0], I.Ref):
            f = e.dunder(args[0], "__next__")
            if f is not None:
                return e.call(f, [], {}, node)
        if isinstance(args[0], I.Ref) and e.obj(args[0]).kind == "list" and ("iterator", TRUE) in e.obj(args[0]).extra:
            if e.list_elems(args[0]) == []:
                return d if d is not None else e.err("stopiteration", node=node)
            if e.list_elems(args[0]) is None:
                e.unsure("stop")
            return self.method(args[0], "pop", [ZERO], {}, node)
        el = e.iter_elems(args[0])
        if el is not None:
            r = d if d is not None else (T.app("?next") if el else e.err("stopiteration", node=node))
            for v, p in reversed(el):
                r = v if p is TRUE else e.merge_val(p, v, r)
            return r
        e.unsure("stop")
        return T.app("next", *self.frz(args))

    def b_iter(self, args, kw, node):
        o = args[0]
        if len(args) == 1 and not (isinstance(o, I.Ref) and ("iterator", TRUE) in self.e.obj(o).extra):
            el = self.elems(o) if not isinstance(o, N) else None
            if el is not None:
                return self.iterator(el)
        return o

    def b_pow(self, args, kw, node):
        return self.e.elementwise(T.power, args[0], args[1])

    def b_divmod(self, args, kw, node):
        if all(T.is_num(a) for a in args) and args[1].args[0] != 0:
            q, r = divmod(args[0].args[0], args[1].args[0])
            return I.Tup([num(q), num(r)])
        return I.Tup([T.fn("floordiv", *args), T.fn("mod", *args)])

    # numpy
    def shape(self, s):
        e = self.e
        if isinstance(s, N):
            if s.op == "tup":
                return list(s.args)
            return [s]
        el = e.list_elems(s)
        if el is not None:
            return [x if isinstance(x, N) else e.freeze(x) for x in el]
        return [e.freeze(s)]

    def numpy(self, fn, args, kw, node):
        e = self.e
        if fn in ELEM1:
            return e.elementwise(lambda x: T.fn(ELEM1[fn], x), args[0])
        if fn in ("zeros", "ones", "empty", "full"):
            lens = self.shape(args[0] if args else kw["shape"])
            val = {"zeros": ZERO, "ones": ONE, "empty": T.app("uninit")}.get(fn)
            if fn == "full":
                val = args[1] if len(args) > 1 else kw["fill_value"]
            x = e.fr.full(val, lens) if isinstance(val, N) else None
            return e.alloc("arr", arr=x if x is not None else I.ArrV(val, lens))
        if fn in ("zeros_like", "ones_like", "empty_like", "full_like"):
            a = e.as_arr(args[0])
            val = {"zeros_like": ZERO, "ones_like": ONE, "empty_like": T.app("uninit")}.get(fn)
            if fn == "full_like":
                val = args[1] if len(args) > 1 else kw["fill_value"]
            if a is None:
                x = args[0] if isinstance(args[0], N) else e.freeze(args[0])
                if x.op in ("num",) or (x.op == "sym" and x.args[1] in ("num", "int")) or x.op in ("sum", "prod", "fn"):
                    return val
                return e.alloc("arr", arr=I.ArrV(val, [mk("len", x)]))
            return e.alloc("arr", arr=I.ArrV(val, a.lens))
        if fn in ("array", "asarray", "atleast_1d"):
            a = e.as_arr(args[0])
            if a is not None:
                return e.alloc("arr", arr=a)
            if isinstance(args[0], I.CompV) and args[0].cond is TRUE and args[0].dom.kind == "range":
                v = args[0].val
                av = e.as_arr(v)
                if av is not None and len(av.lens) == 1:
                    c = T.subst(av.content, {IX[0]: IX[1]})
                    c = T.subst(c, {args[0].dom.var: IX[0]})
                    return e.alloc("arr", arr=I.ArrV(c, [args[0].dom.node, av.lens[0]]))
            if isinstance(args[0], I.ViewV) and args[0].kind == "list" and isinstance(args[0].obj, N):
                return args[0].obj
            if isinstance(args[0], N):
                return args[0]
            return T.app("np.array", e.freeze(args[0]))
        if fn == "arange":
            a = [x if isinstance(x, N) else e.freeze(x) for x in args]
            if len(a) == 1:
                return I.ArrV(IX[0], [a[0]])
            if len(a) == 2:
                return I.ArrV(T.add(a[0], IX[0]), [T.sub(a[1], a[0])])
            return I.ArrV(T.add(a[0], T.mul(a[2], IX[0])), [T.fn("ceil", T.div(T.sub(a[1], a[0]), a[2]))])
        if fn == "linspace":
            return None
        if fn in ("sum", "mean", "min", "max", "amin", "amax", "any", "all", "cumsum"):
            return self.reduce(args[0], {"amin": "min", "amax": "max"}.get(fn, fn), args[1:], kw, node)
        if fn in ("maximum", "minimum", "fmax", "fmin"):
            nm = "max" if "max" in fn else "min"
            return e.elementwise(lambda a, b: T.fn(nm, a, b), args[0], args[1])
        if fn == "clip":
            return self.np_clip(args, kw)
        if fn in ("power", "float_power"):
            return e.elementwise(T.power, args[0], args[1])
        if fn in ("add", "subtract", "multiply", "divide", "true_divide"):
            f = {"add": T.add, "subtract": T.sub, "multiply": T.mul, "divide": T.div, "true_divide": T.div}[fn]
            return e.elementwise(f, args[0], args[1])
        if fn == "where" and len(args) == 3:
            return e.elementwise(lambda c, a, b: T.ite(T.truth(c), a, b), *args)
        if fn == "isscalar":
            v = args[0]
            if isinstance(v, N):
                if v.op in ("num", "str", "sum", "prod", "fn") or (v.op == "sym" and v.args[1] in ("num", "int", "str")):
                    return TRUE
                return mk("isinst", v, "scalar")
            return FALSE
        if fn == "vectorize":
            return I.VecV(args[0])
        if fn == "flip" or fn == "flipud":
            a = e.as_arr(args[0])
            if a is not None and len(a.lens) == 1:
                return I.ArrV(T.subst(a.content, {IX[0]: T.sub(T.sub(e.length(a), ONE), IX[0])}), a.lens)
            if isinstance(args[0], N):
                o = args[0]
                L = mk("len", o)
                r = e.getitem(o, T.sub(T.sub(L, ONE), IX[0]), node)
                return I.ArrV(r if isinstance(r, N) else e.freeze(r), [L])
            return None
        if fn == "repeat":
            a = args[0]
            if isinstance(a, N) and len(args) == 2 and not kw:
                return I.ArrV(a, [args[1] if isinstance(args[1], N) else e.freeze(args[1])])
            arr = e.as_arr(a)
            if arr is not None and len(arr.lens) == 1 and len(args) == 2 and isinstance(args[1], N) and not kw:
                n = args[1]
                L = T.mul(e.length(arr), n)
                if n is ONE:
                    return arr
                return I.ArrV(T.subst(arr.content, {IX[0]: T.fn("floordiv", IX[0], n)}), [L])
            return None
        if fn == "dot" or fn == "inner":
            a, b = e.as_arr(args[0]), e.as_arr(args[1])
            if a is not None and b is not None and len(a.lens) == 1 and len(b.lens) == 1:
                return self.reduce(e.elementwise(T.mul, a, b), "sum", [], {}, node)
            return None
        if fn == "einsum":
            return self.einsum(args, kw)
        if fn in ("float64", "float32", "float_", "double", "int64"):
            return args[0]
        if fn == "concatenate" or fn == "append" or fn == "hstack":
            if kw:
                return None
            parts = list(args) if fn == "append" else e.list_elems(args[0])
            if parts is None:
                return None
            arrs = []
            for x in parts:
                a = I.ArrV(x, [ONE]) if isinstance(x, N) and fn != "concatenate" and x.op in ("num", "sum", "prod", "sym", "fn", "ite") else e.as_arr(x)
                if a is None or len(a.lens) != 1 or a.lens[0] is None:
                    return None
                arrs.append(a)
            cur, L = arrs[0].content, arrs[0].lens[0]
            for a in arrs[1:]:
                cur = T.ite(T.lt(IX[0], L), cur, T.subst(a.content, {IX[0]: T.sub(IX[0], L)}))
                L = T.add(L, a.lens[0])
            return I.ArrV(cur, [L])
        if fn == "unique":
            return None
        if fn in ("ndarray",):
            return None
        return None

    def einsum(self, args, kw):
        e = self.e
        spec = args[0]
        if not T.is_str(spec):
            return None
        lhs, _, out = spec.args[0].replace(" ", "").partition("->")
        ops = lhs.split(",")
        arrs = [e.as_arr(a) for a in args[1:]]
        if len(ops) != len(arrs) or any(a is None or len(a.lens) != len(s) for a, s in zip(arrs, ops)):
            return None
        letters = {}
        lens = {}
        body = ONE
        for s, a in zip(ops, arrs):
            m = {}
            for i, ch in enumerate(s):
                if ch not in letters:
                    letters[ch] = sym("$e" + ch, "int")
                if lens.get(ch) is None:
                    lens[ch] = a.lens[i]
                m[IX[i]] = letters[ch]
            body = T.mul(body, T.subst(a.content, m))
        for ch in sorted(letters):
            if ch not in out:
                body = T.sumover("range", lens[ch] if lens[ch] is not None else T.app("len?", string(ch)), letters[ch], body)
        body = T.subst(body, {letters[ch]: IX[i] for i, ch in enumerate(out)})
        if not out:
            return body
        return I.ArrV(body, [lens[ch] for ch in out])

    # pandas
    def pandas(self, fn, args, kw, node):
        e = self.e
        if fn == "DataFrame":
            data = args[0] if args else kw.get("data")
            index = kw.get("index", args[1] if len(args) > 1 else None)
            columns = kw.get("columns", args[2] if len(args) > 2 else None)
            extra = (("index", index),) if index is not None else ()
            if isinstance(data, I.Ref) and e.obj(data).kind in ("dict", "df"):
                ob = e.obj(data)
                return e.alloc("df", items=ob.items, extra=extra, base=ob.base)
            if data is None:
                cols = e.list_elems(columns) if columns is not None else []
                if cols is not None:
                    return e.alloc("df", items=tuple(I.Entry(c, T.app("emptycol")) for c in cols), extra=extra)
            cols = self.elems(columns) if columns is not None else None
            a = e.as_arr(data) if data is not None else None
            if a is not None and len(a.lens) == 2 and cols is not None:
                items = []
                for j, c in enumerate(cols):
                    items.append(I.Entry(c if isinstance(c, N) else e.freeze(c), I.ArrV(T.subst(a.content, {IX[1]: num(j)}), [a.lens[0]])))
                return e.alloc("df", items=tuple(items), extra=extra)
            return e.alloc("unk", base=T.app("DataFrame", *self.frz(args), *self.fkw(kw)))
        if fn == "Series":
            data = args[0] if args else kw.get("data")
            if data is not None:
                a = e.as_arr(data)
                if a is not None:
                    return a
            return T.app("Series", *self.frz(args), *self.fkw(kw))
        return None


def numtype(v):
    """'int' / 'float' when the dynamic number type of a term is certain"""
    if v.op == "num":
        return "int" if v.args[0].denominator == 1 else "float"
    if v.op == "sym":
        return {"int": "int", "num": "float"}.get(v.args[1])
    if v.op == "sum":
        ts = {numtype(x) for _, x in v.args[1]}
        if ts == {"int"}:
            ok = v.args[0].denominator == 1 and all(k.denominator == 1 for k, _ in v.args[1])
            return "int" if ok else "float"
        return "float" if "float" in ts and None not in ts else None
    if v.op == "prod":
        ts = {numtype(x) for x, _ in v.args[0]}
        if ts == {"int"}:
            ok = v.args[1].denominator == 1 and all(e.denominator == 1 and e > 0 for _, e in v.args[0])
            return "int" if ok else "float"
        return "float" if "float" in ts and None not in ts else None
    if v.op == "fn" and v.args[0] in ("exp", "log", "sqrt"):
        return "float"
    return None
