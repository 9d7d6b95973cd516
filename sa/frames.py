"""Explicit-cell model of the pandas / small-numpy operations the package uses.

Arrays, series, indices and frames of statically known shape are kept cell by
cell; every cell is a value-graph node.  Labels are constants.  Reading a label
that is not there gives the (non-opaque) node err:keyerror so that "the lookup
fails" is an observable outcome.  Operations outside this model return
NotImplemented and the generic (uninterpreted) treatment applies.
"""
import ast
from . import terms as T
from .terms import N, NONE, TRUE, FALSE, ZERO, ONE, IX, mk, num, string
from . import interp as I
from . import numlib

NAN = mk("special", "nan")
LIMIT = 6000
NI = NotImplemented


class XArr(I.ArrV):
    """explicit array: `cells` flat tuple of nodes, `shape` tuple of python ints"""
    __slots__ = ("cells", "shape", "_c", "b")

    def __init__(self, cells, shape, b=False):
        self.cells, self.shape, self._c, self.b = tuple(cells), tuple(shape), None, b
        I.ArrV.lens.__set__(self, tuple(num(s) for s in shape))

    @property
    def content(self):
        if self._c is None:
            c = None
            if not self.cells:
                c = ZERO
            elif all(x is self.cells[0] for x in self.cells):
                c = self.cells[0]
            elif len(self.shape) == 1:
                for i in range(len(self.cells) - 1, -1, -1):
                    c = self.cells[i] if c is None else T.ite(T.eq(IX[0], num(i)), self.cells[i], c)
            else:
                n, m = self.shape
                for i in range(n - 1, -1, -1):
                    r = None
                    for j in range(m - 1, -1, -1):
                        x = self.cells[i * m + j]
                        r = x if r is None else T.ite(T.eq(IX[1], num(j)), x, r)
                    c = r if c is None else T.ite(T.eq(IX[0], num(i)), r, c)
            self._c = c
        return self._c

    def __repr__(self):
        return "XArr%s%s" % (self.shape, [T.show(c, 4) for c in self.cells[:8]])


class IdxV(I.V):
    __slots__ = ("labels", "name")

    def __init__(self, labels, name=None):
        self.labels, self.name = tuple(labels), name

    def __eq__(self, o):
        return isinstance(o, IdxV) and o.labels == self.labels

    def __hash__(self):
        return hash(self.labels)

    def __repr__(self):
        return "Idx(%s)" % ",".join(T.show(x) for x in self.labels)


class SerV(I.V):
    __slots__ = ("labels", "cells", "name", "b", "own")

    def __init__(self, labels, cells, name=None, b=False, own=False):
        self.labels, self.cells, self.name, self.b, self.own = tuple(labels), tuple(cells), name, b, own    # own: not a view of a table
        assert len(self.labels) == len(self.cells)

    def __repr__(self):
        return "Ser(%s)" % ", ".join("%s:%s" % (T.show(k), T.show(v, 4) if isinstance(v, N) else v) for k, v in zip(self.labels[:8], self.cells))


class Raw:
    """a virtual input file: rows of tokens; `first` its first line when it matters"""
    def __init__(self, rows, first=None):
        self.rows, self.first = [list(r) for r in rows], first


def isconst(x):
    return isinstance(x, N) and T.is_const(x)


class Frames(numlib.NumLib):
    SerV, XArr, IdxV = SerV, XArr, IdxV

    def __init__(self, e):
        self.e = e
        self.on = False
        self.files = {}
        self.XArr, self.IdxV = XArr, IdxV
        self.dumped = {}        # text of json.dumps -> value
        self.opened = []        # paths opened for writing
        self.json = {}          # path -> value written by json.dump / json.dumps
        self.dirs = {}          # directories known to exist (TRUE) or not (FALSE)
        self.missing = set()    # paths known not to exist

    # -- helpers ----------------------------------------------------------
    def xarr(self, v):
        """XArr view or None"""
        if isinstance(v, XArr):
            return v
        if isinstance(v, I.IteV):
            x, y = self.xarr(v.a), self.xarr(v.b)
            if x is None or y is None or x.shape != y.shape:
                return None
            return XArr([T.ite(v.c, p, q) for p, q in zip(x.cells, y.cells)], x.shape, x.b and y.b)
        if isinstance(v, SerV):
            return self.ser_arr(v)
        if isinstance(v, IdxV):
            return XArr(v.labels, (len(v.labels),))
        if isinstance(v, I.Ref):
            o = self.e.obj(v)
            if o.kind == "arr" and isinstance(o.arr, XArr):
                return o.arr
            if o.kind == "arr" and self.on:
                return self.explicate(o.arr)
            if o.kind == "df" and self.is_df(v):
                return self.df_arr(v)
            if o.kind == "list" and self.on:
                el = self.e.list_elems(v)
                if el is not None:
                    a = self.from_elems(el)
                    return a if a is not NI else None
        if isinstance(v, I.ArrV) and self.on:
            return self.explicate(v)
        if isinstance(v, I.Tup) and self.on:
            a = self.from_elems(list(v.items))
            return a if a is not NI else None
        if isinstance(v, I.RangeV) and self.on:
            el = self.e.list_elems(v)
            return XArr(el, (len(el),)) if el is not None else None
        return None

    def explicate(self, a):
        if isinstance(a, XArr):
            return a
        if any(L is None or not T.is_num(L) or L.args[0].denominator != 1 for L in a.lens) or len(a.lens) > 2:
            return None
        sh = tuple(int(L.args[0]) for L in a.lens)
        if len(sh) == 1 and 0 <= sh[0] <= 200:
            return XArr([T.subst(a.content, {IX[0]: num(i)}) for i in range(sh[0])], sh)
        if len(sh) == 2 and sh[0] * sh[1] <= LIMIT:
            return XArr([T.subst(a.content, {IX[0]: num(i), IX[1]: num(j)}) for i in range(sh[0]) for j in range(sh[1])], sh)
        return None

    def cell(self, x):
        if isinstance(x, N):
            return x
        if isinstance(x, I.IteV):
            return T.ite(x.c, self.cell(x.a), self.cell(x.b))
        return self.e.freeze(x)

    def ser_arr(self, s):
        return XArr([self.cell(c) for c in s.cells], (len(s.cells),))

    def from_elems(self, el):
        if el and all(isinstance(x, N) for x in el):
            return XArr(el, (len(el),))
        subs = [self.xarr(x) for x in el]
        if el and all(s is not None and len(s.shape) == 1 and s.shape == subs[0].shape for s in subs):
            return XArr([c for s in subs for c in s.cells], (len(el),) + subs[0].shape)
        return NI

    def const_shape(self, lens):
        if all(isinstance(L, N) and T.is_num(L) and L.args[0].denominator == 1 and L.args[0] >= 0 for L in lens):
            sh = tuple(int(L.args[0]) for L in lens)
            n = 1
            for s in sh:
                n *= s
            if len(sh) <= 2 and n <= LIMIT:
                return sh
        return None

    def full(self, val, lens):
        sh = self.const_shape(lens)
        if not self.on or sh is None:
            return None
        n = 1
        for s in sh:
            n *= s
        return XArr([val] * n, sh)

    # -- dataframes -------------------------------------------------------
    def is_df(self, v):
        return isinstance(v, I.Ref) and self.e.obj(v).kind == "df" and self.df_index(v) is not None

    def df_index(self, v):
        for x in self.e.obj(v).extra:
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "index" and isinstance(x[1], IdxV):
                return x[1]
        return None

    def setattr(self, o, name, v, node):
        """df.index = ..., df.columns = ..., df.column = ..."""
        e = self.e
        idx = self.df_index(o)
        cs = self.cols(o)
        if name in ("index", "columns"):
            kl = self.keylist(v)
            if kl is None:
                e.put(o, e.obj(o).w(kind="unk", base=e.unsupported("set_" + name, node, v), items=(), extra=()))
                return True
            if len(kl) != (len(idx.labels) if name == "index" else len(cs)):
                e.err("valueerror", string("length of " + name), node=node)
                return True
            if name == "index":
                d = self.make_df(v if isinstance(v, IdxV) else IdxV(kl), cs)
            else:
                d = self.make_df(idx, list(zip(kl, [c for _, c in cs])))
            e.put(o, e.obj(d).w(origin=e.obj(o).origin))
            return True
        if any(k is string(name) for k, _ in cs):
            e.setitem(o, string(name), v, node)
            return True
        return False

    def make_df(self, labels, cols, origin=None, name=None):
        """cols: [(key, cells)]"""
        idx = labels if isinstance(labels, IdxV) else IdxV(labels, name)
        items = tuple(I.Entry(k, SerV(idx.labels, c, k)) for k, c in cols)
        return self.e.alloc("df", items=items, extra=(("index", idx),))

    def cols(self, v):
        """[(key, cells)] in column order; a column set under a condition is not representable"""
        e = self.e
        idx = self.df_index(v)
        out, seen = [], set()
        for en in e.obj(v).items:
            if en.key in seen:
                continue
            seen.add(en.key)
            p = e.has_item(v, en.key)
            if p is FALSE:
                continue
            s = e.read_item(v, en.key)
            out.append((en.key, self.align(s, idx)))
        return out

    def align(self, s, idx):
        if isinstance(s, SerV):
            if s.labels == idx.labels:
                return s.cells
            d = dict(zip(s.labels, s.cells))
            return tuple(d.get(l, NAN) for l in idx.labels)
        if isinstance(s, I.IteV):
            a, b = self.align(s.a, idx), self.align(s.b, idx)
            return tuple(self.e.merge_val(s.c, x, y) for x, y in zip(a, b))
        x = self.xarr(s) if not isinstance(s, N) else None
        if x is not None and len(x.shape) == 1 and len(x.cells) == len(idx.labels):
            return x.cells
        if x is not None and len(x.shape) == 1 and len(x.cells) != len(idx.labels):
            return tuple(self.e.err("valueerror", string("length"), num(i)) for i in range(len(idx.labels)))
        if isinstance(s, I.Ref) and self.e.obj(s).kind == "dict":
            out = []
            for l in idx.labels:
                p = self.e.has_item(s, l)
                r = self.e.read_item(s, l) if p is not FALSE else NAN
                out.append(r if p is TRUE else (NAN if p is FALSE else self.e.merge_val(p, r, NAN)))
            return tuple(out)
        if not isinstance(s, N):
            s = self.e.freeze(s)
        if s.op in ("num", "str", "sum", "prod", "sym", "special", "fn", "ite", "none"):
            return tuple(s for _ in idx.labels)
        return tuple(T.item(s, num(i)) for i in range(len(idx.labels)))

    def df_arr(self, v):
        cs = self.cols(v)
        n = len(self.df_index(v).labels)
        return XArr([self.cell(c[i]) for i in range(n) for _, c in cs], (n, len(cs)))

    def put_cols(self, v, cols, idx=None):
        e = self.e
        o = e.obj(v)
        idx = idx or self.df_index(v)
        e.put(v, o.w(items=tuple(I.Entry(k, SerV(idx.labels, c, k)) for k, c in cols),
                     extra=tuple(x for x in o.extra if not (isinstance(x, tuple) and x[0] == "index")) + (("index", idx),)))

    # -- label arithmetic -------------------------------------------------
    def keylist(self, k):
        """list of labels for list-like keys; None otherwise"""
        if isinstance(k, IdxV):
            return list(k.labels)
        if isinstance(k, (XArr, SerV)):
            return list(self.xarr(k).cells)
        if isinstance(k, I.Ref) and self.e.obj(k).kind in ("list", "set", "arr"):
            el = self.e.list_elems(k)
            return [self.cell(x) for x in el] if el is not None else None
        if isinstance(k, I.ArrV):
            x = self.explicate(k)
            return list(x.cells) if x is not None else None
        if isinstance(k, I.ViewV):
            se = self.e.iter_elems(k)
            if se is not None and all(p is TRUE for _, p in se):
                return [self.cell(x) for x, _ in se]
        return None

    def boolmask(self, k):
        v = k
        if isinstance(k, I.Ref) and self.e.obj(k).kind == "arr":
            v = self.e.obj(k).arr
        if not getattr(v, "b", False):
            return None
        return self.keylist(k)

    def mark(self, v):
        """tag an elementwise comparison result as a boolean mask"""
        if isinstance(v, (XArr, SerV)):
            v.b = True
        return v

    def look(self, labels, cells, k, pos=True):
        """value of label k"""
        if not isinstance(k, N):
            k = self.cell(k)
        if k in labels:
            return cells[labels.index(k)]
        if isconst(k):
            for l, c in zip(labels, cells):
                if T.eq(l, k) is TRUE:
                    return c
            if pos and T.is_num(k) and labels and all(T.is_str(l) for l in labels) and -len(labels) <= k.args[0] < len(labels):
                return cells[int(k.args[0])]
            return self.e.err("keyerror", k)
        if k.op == "ite":
            return self.e.merge_val(k.args[0], self.look(labels, cells, k.args[1], pos), self.look(labels, cells, k.args[2], pos))
        r = T.app("err:keyerror", k)
        for l, c in reversed(list(zip(labels, cells))):
            r = self.e.merge_val(T.eq(k, l), c, r)
        return r

    def pslice(self, k, n):
        """positional slice -> list of positions, or None"""
        vs = []
        for x in (k.lo, k.hi, k.step):
            if x is None:
                vs.append(None)
            elif isinstance(x, N) and T.is_num(x) and x.args[0].denominator == 1:
                vs.append(int(x.args[0]))
            else:
                return None
        return list(range(n))[slice(*vs)]

    def lslice(self, k, labels):
        lo, hi = k.lo, k.hi
        if any(x is not None and not isconst(x) for x in (lo, hi)) or k.step is not None:
            return None
        nums = all(T.is_num(l) for l in labels)
        if nums:
            a = lo.args[0] if lo is not None and T.is_num(lo) else None
            b = hi.args[0] if hi is not None and T.is_num(hi) else None
            if (lo is not None and a is None) or (hi is not None and b is None):
                return None
            return [i for i, l in enumerate(labels) if (a is None or l.args[0] >= a) and (b is None or l.args[0] <= b)]
        i = labels.index(lo) if lo is not None and lo in labels else (0 if lo is None else None)
        j = labels.index(hi) if hi is not None and hi in labels else (len(labels) - 1 if hi is None else None)
        if i is None or j is None:
            return None
        return list(range(i, j + 1))

    # -- elementwise ------------------------------------------------------
    def elementwise(self, f, vs):
        if not any(self.explicitish(v) for v in vs):
            return NI
        e = self.e
        if any(self.is_df(v) for v in vs):
            return self.df_elementwise(f, vs)
        sers = [v for v in vs if isinstance(v, SerV)]
        xs = []
        for v in vs:
            if isinstance(v, N):
                xs.append(v)
            else:
                x = self.xarr(v)
                if x is None:
                    if e.as_arr(v) is not None:
                        return NI
                    x = e.freeze(v)
                xs.append(x)
        if sers:
            lab = sers[0].labels
            same = all(s.labels == lab for s in sers)
            if not same:
                allk = []
                for s in sers:
                    for l in s.labels:
                        if l not in allk:
                            allk.append(l)
                if all(T.is_num(l) for l in allk):
                    allk.sort(key=lambda l: l.args[0])
                else:
                    try:
                        allk.sort(key=lambda l: l.args[0])
                    except TypeError:
                        pass
                if any(not isinstance(v, SerV) and not isinstance(x, N) for v, x in zip(vs, xs)):
                    return NI
                cells = []
                for l in allk:
                    args = []
                    bad = False
                    for v, x in zip(vs, xs):
                        if isinstance(v, SerV):
                            if l in v.labels:
                                args.append(self.cell(v.cells[v.labels.index(l)]))
                            else:
                                bad = True
                        else:
                            args.append(x)
                    cells.append(NAN if bad else f(*args))
                return SerV(allk, cells)
            n = len(lab)
            for x in xs:
                if isinstance(x, XArr) and x.shape not in ((n,), (1,)):
                    return NI
            cells = [f(*[(x if isinstance(x, N) else x.cells[i if len(x.cells) == n else 0]) for x in xs]) for i in range(n)]
            return SerV(lab, cells, sers[0].name)
        arrs = [x for x in xs if isinstance(x, XArr)]
        nd = max(len(a.shape) for a in arrs)
        shape = [1] * nd
        for a in arrs:
            off = nd - len(a.shape)
            for i, s in enumerate(a.shape):
                if shape[off + i] == 1:
                    shape[off + i] = s
                elif s not in (1, shape[off + i]):
                    return NI
        if nd > 2:
            return NI
        if nd == 1:
            n = shape[0]
            return XArr([f(*[(x if isinstance(x, N) else x.cells[i if x.shape[0] == n else 0]) for x in xs]) for i in range(n)], (n,))

        def at(x, i, j):
            if isinstance(x, N):
                return x
            if len(x.shape) == 1:
                return x.cells[j if x.shape[0] != 1 else 0]
            return x.cells[(i if x.shape[0] != 1 else 0) * x.shape[1] + (j if x.shape[1] != 1 else 0)]
        return XArr([f(*[at(x, i, j) for x in xs]) for i in range(shape[0]) for j in range(shape[1])], shape)

    def explicitish(self, v):
        if isinstance(v, (XArr, SerV, IdxV)):
            return True
        if isinstance(v, I.Ref):
            o = self.e.obj(v)
            return (o.kind == "arr" and isinstance(o.arr, XArr)) or (o.kind == "df" and self.is_df(v))
        return False

    def df_elementwise(self, f, vs):
        e = self.e
        d0 = next(v for v in vs if self.is_df(v))
        idx = self.df_index(d0)
        base = self.cols(d0)
        n = len(idx.labels)
        ops = []
        for v in vs:
            if self.is_df(v):
                if self.df_index(v).labels != idx.labels:
                    return NI
                d = dict(self.cols(v))
                if set(d) != {k for k, _ in base}:
                    return NI
                ops.append(lambda k, i, j, d=d: self.cell(d[k][i]))
            elif isinstance(v, SerV):
                # aligns on columns
                d = dict(zip(v.labels, v.cells))
                ops.append(lambda k, i, j, d=d: self.cell(d.get(k, NAN)))
            elif isinstance(v, N):
                ops.append(lambda k, i, j, v=v: v)
            else:
                x = self.xarr(v)
                if x is None:
                    return NI
                if x.shape == (n, len(base)):
                    ops.append(lambda k, i, j, x=x: x.cells[i * len(base) + j])
                elif x.shape in ((len(base),), (1, len(base))):
                    ops.append(lambda k, i, j, x=x: x.cells[j])
                elif x.shape == (n, 1):
                    ops.append(lambda k, i, j, x=x: x.cells[i])
                else:
                    return NI
        return self.make_df(idx, [(k, [f(*[o(k, i, j) for o in ops]) for i in range(n)]) for j, (k, _) in enumerate(base)])

    # -- arrays -----------------------------------------------------------
    def index_arr(self, a, k):
        ks = list(k.items) if isinstance(k, I.Tup) else [k]
        dots = [i for i, x in enumerate(ks) if isinstance(x, N) and x.op == "app" and x.args[0] == "ellipsis"]
        if dots:
            used = sum(1 for i, x in enumerate(ks) if i not in dots and not (isinstance(x, N) and x.op == "none"))
            ks[dots[0]:dots[0] + 1] = [I.SliceV(None, None, None)] * max(0, len(a.shape) - used)
        if any(isinstance(x, N) and x.op == "none" for x in ks):
            # new axes go where they stand among the axes that are kept
            r = self.index_arr(a, I.Tup([x for x in ks if not (isinstance(x, N) and x.op == "none")]))
            if r is NI or not all(isinstance(x, (N, I.SliceV)) for x in ks):
                return NI
            sh = list(r.shape) if isinstance(r, XArr) else []
            ks += [I.SliceV(None, None, None)] * (len(a.shape) - sum(1 for x in ks if not (isinstance(x, N) and x.op == "none")))
            out = [1 if isinstance(x, N) else sh.pop(0) for x in ks if not isinstance(x, N) or x.op == "none"]
            return XArr(r.cells if isinstance(r, XArr) else [r], out) if len(out) <= 2 else NI
        if len(ks) == 1 and len(a.shape) == 2 and not isinstance(ks[0], (N, I.SliceV)):
            m = self.xarr(ks[0])
            if m is not None and m.b and m.shape == a.shape:
                if any(c not in (TRUE, FALSE) for c in m.cells):
                    return NI
                cells = [x for x, c in zip(a.cells, m.cells) if c is TRUE]
                return XArr(cells, (len(cells),))
        if not ks:
            return a
        if len(ks) > len(a.shape):
            return self.e.err("indexerror", string("too many indices"))
        ks += [I.SliceV(None, None, None)] * (len(a.shape) - len(ks))
        sel, keep = [], []
        for x, n in zip(ks, a.shape):
            if isinstance(x, I.SliceV):
                p = self.pslice(x, n)
                if p is None:
                    return NI
                sel.append(p)
                keep.append(True)
            elif isinstance(x, N):
                if not T.is_num(x) or x.args[0].denominator != 1:
                    return NI
                i = int(x.args[0])
                if not -n <= i < n:
                    return self.e.err("indexerror", x)
                sel.append([i % n])
                keep.append(False)
            else:
                kl = self.keylist(x)
                if kl is None:
                    return NI
                if self.boolmask(x) is not None:
                    if any(c not in (TRUE, FALSE) for c in kl):
                        return NI
                    sel.append([i for i, c in enumerate(kl) if c is TRUE])
                elif all(T.is_num(c) and c.args[0].denominator == 1 and -n <= c.args[0] < n for c in kl):
                    sel.append([int(c.args[0]) % n for c in kl])
                else:
                    return NI
                keep.append(True)
        if len(a.shape) == 1:
            cells = [a.cells[i] for i in sel[0]]
            return XArr(cells, (len(cells),)) if keep[0] else cells[0]
        if not any(isinstance(x, (N, I.SliceV)) for x in ks):     # two index lists pick pairs
            if len(sel[0]) != len(sel[1]):
                return NI
            return XArr([a.cells[i * a.shape[1] + j] for i, j in zip(*sel)], (len(sel[0]),))
        cells = [a.cells[i * a.shape[1] + j] for i in sel[0] for j in sel[1]]
        sh = [len(s) for s, kp in zip(sel, keep) if kp]
        return XArr(cells, sh) if sh else cells[0]

    def store_arr(self, a, k, val):
        ks = list(k.items) if isinstance(k, I.Tup) else [k]
        ks += [I.SliceV(None, None, None)] * (len(a.shape) - len(ks))
        sel, keep = [], []
        for x, n in zip(ks, a.shape):
            if isinstance(x, I.SliceV):
                p = self.pslice(x, n)
                if p is None:
                    return NI
                sel.append(p)
                keep.append(True)
            elif isinstance(x, N) and T.is_num(x) and x.args[0].denominator == 1:
                i = int(x.args[0])
                if not -n <= i < n:
                    self.e.err("indexerror", x)
                    return a
                sel.append([i % n])
                keep.append(False)
            else:
                kl = self.keylist(x) if not isinstance(x, N) else None
                if kl is None:
                    return NI
                if self.boolmask(x) is not None:
                    if any(c not in (TRUE, FALSE) for c in kl):
                        if len(a.shape) == 1 and isinstance(val, N):
                            return XArr([T.ite(c, val, x_) for c, x_ in zip(kl, a.cells)], a.shape)
                        return NI
                    sel.append([i for i, c in enumerate(kl) if c is TRUE])
                elif all(T.is_num(c) and c.args[0].denominator == 1 for c in kl):
                    sel.append([int(c.args[0]) % n for c in kl])
                else:
                    return NI
                keep.append(True)
        xv = None if isinstance(val, N) else self.xarr(val)
        if not isinstance(val, N) and xv is None:
            if self.e.as_arr(val) is not None:
                return NI
            val = self.e.freeze(val)
        cells = list(a.cells)
        if len(a.shape) == 1:
            if xv is not None and xv.shape not in ((len(sel[0]),), (1,)):
                self.e.err("valueerror", string("shape"))
                return XArr([self.e.err("valueerror", num(i)) for i in range(len(cells))], a.shape)
            for q, i in enumerate(sel[0]):
                cells[i] = val if xv is None else xv.cells[q if len(xv.cells) > 1 else 0]
        else:
            m = a.shape[1]
            if not any(isinstance(x, (N, I.SliceV)) for x in ks):
                return NI
            for q, i in enumerate(sel[0]):
                for r, j in enumerate(sel[1]):
                    if xv is None:
                        c = val
                    elif len(xv.shape) == 1:
                        c = xv.cells[(r if keep[1] else q) if len(xv.cells) > 1 else 0]
                    else:
                        c = xv.cells[(q if xv.shape[0] > 1 else 0) * xv.shape[1] + (r if xv.shape[1] > 1 else 0)]
                    cells[i * m + j] = c
        return XArr(cells, a.shape)

    def reduce(self, o, name, axis):
        """sum/mean/min/max/any/all/cumsum over explicit values"""
        if self.is_df(o):
            return self.df_reduce(o, name, axis)
        a = self.xarr(o)
        if a is None:
            return NI
        if axis is not None and not (isinstance(axis, N) and T.is_num(axis)):
            return NI

        def red(cs):
            if name in ("sum", "mean"):
                s = T.add(ZERO, *cs)
                if name == "sum":
                    return s
                return T.div(s, num(len(cs))) if cs else NAN
            if name in ("min", "max"):
                return T.fn(name, *cs) if cs else self.e.err("valueerror", string("empty"))
            if name == "any":
                return T.bor(*[T.truth(c) for c in cs]) if cs else FALSE
            if name == "all":
                return T.band(*[T.truth(c) for c in cs]) if cs else TRUE
            return None
        if name == "cumsum":
            if len(a.shape) != 1:
                return NI
            out, acc = [], ZERO
            for c in a.cells:
                acc = T.add(acc, c)
                out.append(acc)
            return SerV(o.labels, out) if isinstance(o, SerV) else XArr(out, a.shape)
        if name not in ("sum", "mean", "min", "max", "any", "all"):
            return NI
        if axis is None or len(a.shape) == 1:
            return red(a.cells)
        n, m = a.shape
        ax = int(axis.args[0]) % 2
        if ax == 0:
            return XArr([red([a.cells[i * m + j] for i in range(n)]) for j in range(m)], (m,))
        return XArr([red(a.cells[i * m:(i + 1) * m]) for i in range(n)], (n,))

    def df_reduce(self, o, name, axis):
        cs = self.cols(o)
        idx = self.df_index(o)
        if axis is not None and T.is_str(axis):
            axis = {"index": ZERO, "columns": ONE}.get(axis.args[0])
        ax = 0 if axis is None else (int(axis.args[0]) if isinstance(axis, N) and T.is_num(axis) else None)
        if ax is None:
            return NI
        a = self.df_arr(o)
        r = self.reduce(a, name, num(ax))
        if r is NI or not isinstance(r, XArr):
            return NI
        if ax == 0:
            return SerV([k for k, _ in cs], r.cells)
        return SerV(idx.labels, r.cells)

    # -- getitem / setitem -------------------------------------------------
    def getitem(self, o, k, node):
        if isinstance(o, XArr):
            return self.index_arr(o, k)
        if isinstance(o, IdxV):
            if isinstance(k, N) and T.is_num(k):
                n = len(o.labels)
                return o.labels[int(k.args[0])] if -n <= k.args[0] < n else self.e.err("indexerror", k)
            if isinstance(k, I.SliceV):
                p = self.pslice(k, len(o.labels))
                return IdxV([o.labels[i] for i in p]) if p is not None else NI
            m = self.boolmask(k)
            if m is not None and all(c in (TRUE, FALSE) for c in m):
                return IdxV([l for l, c in zip(o.labels, m) if c is TRUE])
            return NI
        if isinstance(o, SerV):
            return self.ser_get(o, k)
        if self.is_df(o):
            return self.df_get(o, k, node)
        return NI

    def ser_get(self, o, k):
        if isinstance(k, N):
            return self.look(list(o.labels), o.cells, k)
        if isinstance(k, I.SliceV):
            ints = all(x is None or (isinstance(x, N) and T.is_num(x)) for x in (k.lo, k.hi))
            p = self.pslice(k, len(o.labels)) if ints else self.lslice(k, list(o.labels))
            return SerV([o.labels[i] for i in p], [o.cells[i] for i in p]) if p is not None else NI
        m = self.boolmask(k)
        if m is not None:
            if any(c not in (TRUE, FALSE) for c in m):
                return NI
            p = [i for i, c in enumerate(m) if c is TRUE]
            return SerV([o.labels[i] for i in p], [o.cells[i] for i in p])
        kl = self.keylist(k)
        if kl is not None:
            return SerV(kl, [self.look(list(o.labels), o.cells, x, False) for x in kl], o.name)
        return NI

    def ser_set(self, o, k, v):
        if not isinstance(k, N) or not isconst(k):
            return NI
        if k in o.labels:
            i = o.labels.index(k)
            return SerV(o.labels, o.cells[:i] + (v,) + o.cells[i + 1:], o.name, own=o.own)
        return SerV(o.labels + (k,), o.cells + (v,), o.name, own=o.own)

    def df_get(self, o, k, node):
        e = self.e
        if isinstance(k, N):
            p = e.has_item(o, k)
            if p is FALSE:
                e.event("missing-key", o, k, None, node)
                return self.e.err("keyerror", k)
            if not isconst(k):
                return NI
            s = e.read_item(o, k)
            idx = self.df_index(o)
            if isinstance(s, SerV):
                return s
            return SerV(idx.labels, self.align(s, idx), k)
        if isinstance(k, I.SliceV):
            p = self.pslice(k, len(self.df_index(o).labels))
            return self.rows(o, p) if p is not None else NI
        m = self.boolmask(k)
        if m is not None:
            if any(c not in (TRUE, FALSE) for c in m):
                return NI
            return self.rows(o, [i for i, c in enumerate(m) if c is TRUE])
        kl = self.keylist(k)
        if kl is not None:
            d = dict(self.cols(o))
            n = len(self.df_index(o).labels)
            out = []
            for x in kl:
                if x not in d:
                    e.event("missing-key", o, x, None, node)
                out.append((x, d[x] if x in d else [self.e.err("keyerror", x)] * n))
            return self.make_df(self.df_index(o), out)
        return NI

    def rows(self, o, pos):
        idx = self.df_index(o)
        return self.make_df(IdxV([idx.labels[i] for i in pos], idx.name), [(k, [c[i] for i in pos]) for k, c in self.cols(o)])

    def setitem(self, o, k, v, node):
        """df column assignment; True when handled"""
        e = self.e
        if self.is_df(o):
            idx = self.df_index(o)
            if isinstance(k, N) and isconst(k):
                if not idx.labels and not e.obj(o).items:
                    x = self.xarr(v) if not isinstance(v, N) else None
                    if isinstance(v, SerV):
                        idx = IdxV(v.labels)
                    elif x is not None:
                        idx = IdxV([num(i) for i in range(len(x.cells))])
                cells = self.align(v, idx)
                e.event("store", o, k, v, node)
                rec, e.recording = e.recording, False
                if idx is not self.df_index(o):
                    self.put_cols(o, [], idx)
                e.store_item(o, k, SerV(idx.labels, cells, k), node)
                e.recording = rec
                return True
            m = None if isinstance(k, N) else self.boolmask(k)
            kl = None if isinstance(k, N) else self.keylist(k)
            if m is None and kl is not None:
                x = None if isinstance(v, N) else self.xarr(v)
                for j, c in enumerate(kl):
                    if x is None or len(x.shape) == 1:
                        vv = v
                    else:
                        vv = XArr([x.cells[i * x.shape[1] + j] for i in range(x.shape[0])], (x.shape[0],))
                    self.setitem(o, c, vv, node)
                return True
        return False

    def index_get(self, kind, o, k, node):
        e = self.e
        if isinstance(o, (XArr,)) or (isinstance(o, I.Ref) and e.obj(o).kind == "arr"):
            return NI
        if isinstance(o, SerV):
            if kind == "loc":
                if isinstance(k, I.SliceV):
                    p = self.lslice(k, list(o.labels))
                    return SerV([o.labels[i] for i in p], [o.cells[i] for i in p]) if p is not None else NI
                if isinstance(k, N):
                    return self.look(list(o.labels), o.cells, k, False)
                return self.ser_get(o, k)
            if isinstance(k, N):
                if not T.is_num(k):
                    return NI
                n = len(o.cells)
                return o.cells[int(k.args[0])] if -n <= k.args[0] < n else self.e.err("indexerror", k)
            if isinstance(k, I.SliceV):
                p = self.pslice(k, len(o.cells))
            else:
                kl = self.keylist(k)
                p = [int(x.args[0]) for x in kl] if kl is not None and all(T.is_num(x) for x in kl) else None
            return SerV([o.labels[i] for i in p], [o.cells[i] for i in p]) if p is not None else NI
        if not self.is_df(o):
            return NI
        rk, ck = (k.items if isinstance(k, I.Tup) and len(k.items) == 2 else (k, I.SliceV(None, None, None)))
        idx = self.df_index(o)
        cs = self.cols(o)
        names = [c for c, _ in cs]
        rp, rs = self.positions(kind, rk, list(idx.labels))
        cp, csc = self.positions(kind, ck, names)
        if rp is None or cp is None:
            if kind == "loc" and isinstance(rk, N) and isinstance(ck, N):
                col = [self.look(list(idx.labels), c, rk, False) for _, c in cs]
                return self.look(names, col, ck, False)
            return NI
        bad = [x for x in rp + cp if isinstance(x, N)]

        def val(i, j):
            if isinstance(i, N) or isinstance(j, N):
                return self.e.err("indexerror" if kind == "iloc" else "keyerror", i if isinstance(i, N) else j)
            return cs[j][1][i]
        if bad:
            e.event("missing-key", o, bad[0], None, node)
        rl = [idx.labels[i] if not isinstance(i, N) else i for i in rp]
        cl = [names[j] if not isinstance(j, N) else j for j in cp]
        if rs and csc:
            return val(rp[0], cp[0])
        if rs:
            return SerV(cl, [val(rp[0], j) for j in cp])
        if csc:
            return SerV(rl, [val(i, cp[0]) for i in rp], cl[0])
        return self.make_df(IdxV(rl, idx.name), [(c, [val(i, j) for i in rp]) for c, j in zip(cl, cp)])

    def positions(self, kind, k, labels):
        """(list of positions or missing-label nodes, scalar?)"""
        n = len(labels)
        if isinstance(k, I.SliceV):
            return (self.pslice(k, n) if kind == "iloc" else self.lslice(k, labels)), False
        if isinstance(k, N):
            if kind == "iloc":
                if not T.is_num(k):
                    return None, True
                i = int(k.args[0])
                return [i % n if -n <= i < n else k], True
            if not isconst(k):
                return None, True
            return [labels.index(k) if k in labels else k], True
        m = self.boolmask(k)
        if m is not None:
            if any(c not in (TRUE, FALSE) for c in m):
                return None, False
            return [i for i, c in enumerate(m) if c is TRUE], False
        kl = self.keylist(k)
        if kl is None:
            return None, False
        if kind == "iloc":
            if not all(T.is_num(x) for x in kl):
                return None, False
            return [int(x.args[0]) for x in kl], False
        if not all(isconst(x) for x in kl):
            return None, False
        return [labels.index(x) if x in labels else x for x in kl], False

    def index_set(self, kind, o, k, v, node):
        e = self.e
        if not self.is_df(o):
            return False
        rk, ck = (k.items if isinstance(k, I.Tup) and len(k.items) == 2 else (k, I.SliceV(None, None, None)))
        idx = self.df_index(o)
        cs = [(c, list(x)) for c, x in self.cols(o)]
        names = [c for c, _ in cs]
        rp, rs = self.positions(kind, rk, list(idx.labels))
        cp, csc = self.positions(kind, ck, names)
        if rp is None or cp is None:
            return False
        e.event("store", o, e.freeze(k), v, node)
        labels = list(idx.labels)
        # enlargement
        for q, j in enumerate(cp):
            if isinstance(j, N):
                cs.append((j, [NAN] * len(labels)))
                cp[q] = len(cs) - 1
        for q, i in enumerate(rp):
            if isinstance(i, N):
                labels.append(i)
                for _, c in cs:
                    c.append(NAN)
                rp[q] = len(labels) - 1
        if isinstance(v, SerV):
            if rs:
                d = dict(zip(v.labels, v.cells))
                get = lambda a, b: d.get(cs[cp[b]][0], NAN)
            else:
                d = dict(zip(v.labels, v.cells))
                get = lambda a, b: d.get(labels[rp[a]], NAN)
        else:
            x = None if isinstance(v, N) else self.xarr(v)
            if x is None:
                vv = v if isinstance(v, N) else e.freeze(v)
                get = lambda a, b: vv
            elif len(x.shape) == 1:
                get = (lambda a, b: x.cells[b]) if rs else (lambda a, b: x.cells[a] if csc or len(x.cells) == len(rp) else x.cells[b])
            else:
                get = lambda a, b: x.cells[a * x.shape[1] + b]
        # duplicated row labels in the key: last one wins, as in numpy assignment
        for a, i in enumerate(rp):
            for b, j in enumerate(cp):
                cs[j][1][i] = get(a, b)
        self.put_cols(o, cs, IdxV(labels, idx.name))
        return True

    # -- attributes / methods ---------------------------------------------
    def attr(self, o, name):
        e = self.e
        if name == "flat" and not isinstance(o, (IdxV, SerV)):
            x = self.xarr(o)
            if x is not None:
                return XArr(x.cells, (len(x.cells),), x.b)
        if isinstance(o, IdxV):
            if name == "values":
                return XArr(o.labels, (len(o.labels),))
            if name in ("size",):
                return num(len(o.labels))
            if name == "name":
                return string(o.name) if o.name else NONE
            if name == "shape":
                return I.Tup([num(len(o.labels))])
            return I.MethV(o, name)
        if isinstance(o, SerV):
            if name in ("iloc", "loc", "at", "iat"):
                return I.Indexer(o, {"at": "loc", "iat": "iloc"}.get(name, name))
            if name == "values":
                return e.alloc("arr", arr=self.ser_arr(o))
            if name == "index":
                return IdxV(o.labels)
            if name == "shape":
                return I.Tup([num(len(o.cells))])
            if name == "size":
                return num(len(o.cells))
            if name == "empty":
                return TRUE if not o.cells else FALSE
            if name == "name":
                return o.name if isinstance(o.name, N) else NONE
            if name == "T":
                return o
            if name == "array":
                return e.alloc("arr", arr=self.ser_arr(o))
            s = string(name)
            if s in o.labels and name not in e.lib.METHODS:
                return o.cells[o.labels.index(s)]
            return I.MethV(o, name)
        if isinstance(o, I.Ref) and e.obj(o).kind == "df" and self.is_df(o):
            if name in ("iloc", "loc", "at", "iat"):
                return I.Indexer(o, {"at": "loc", "iat": "iloc"}.get(name, name))
            if name == "columns":
                return IdxV([k for k, _ in self.cols(o)])
            if name == "index":
                return self.df_index(o)
            if name == "values":
                return e.alloc("arr", arr=self.df_arr(o))
            if name == "shape":
                return I.Tup([num(len(self.df_index(o).labels)), num(len(self.cols(o)))])
            if name == "empty":
                return TRUE if not self.df_index(o).labels or not self.cols(o) else FALSE
            if name == "T":
                idx, cs = self.df_index(o), self.cols(o)
                return self.make_df(IdxV([k for k, _ in cs]), [(l, [c[i] for _, c in cs]) for i, l in enumerate(idx.labels)])
            s = string(name)
            if name not in e.lib.METHODS and e.has_item(o, s) is TRUE:
                return self.df_get(o, s, None)
            return I.MethV(o, name)
        if isinstance(o, XArr) or (isinstance(o, I.Ref) and e.obj(o).kind == "arr" and isinstance(e.obj(o).arr, XArr)):
            a = o if isinstance(o, XArr) else e.obj(o).arr
            if name == "size":
                return num(len(a.cells))
            if name == "T" and len(a.shape) == 2:
                n, m = a.shape
                return XArr([a.cells[i * m + j] for j in range(m) for i in range(n)], (m, n))
        return NI

    def method(self, o, name, args, kw, node):
        if isinstance(o, IdxV):
            return self.idx_method(o, name, args, kw)
        if isinstance(o, SerV):
            return self.ser_method(o, name, args, kw, node)
        if self.is_df(o):
            return self.df_method(o, name, args, kw, node)
        if isinstance(o, XArr) or (isinstance(o, I.Ref) and self.e.obj(o).kind == "arr" and isinstance(self.e.obj(o).arr, XArr)):
            a = self.xarr(o)
            if name in ("sum", "mean", "min", "max", "any", "all", "cumsum"):
                r = self.reduce(a, name, self.ax(args, kw))
                if r is not NI:
                    return r
            return self.arr_more(a, name, list(args), kw)
        return NI

    def ax(self, args, kw):
        a = kw.get("axis", args[0] if args else None)
        if T.is_str(a) if isinstance(a, N) else False:
            a = {"columns": ONE, "index": ZERO, "rows": ZERO}.get(a.args[0], a)
        return None if isinstance(a, N) and a.op == "none" else a

    def idx_method(self, o, name, args, kw):
        e = self.e
        if name in ("copy", "astype"):
            return IdxV(o.labels, o.name)
        if name in ("tolist", "to_list"):
            return e.new_list(o.labels)
        if name == "to_numpy":
            return XArr(o.labels, (len(o.labels),))
        if name in ("drop", "difference"):
            kl = [args[0]] if isinstance(args[0], N) else self.keylist(args[0])
            if kl is None:
                return NI
            return IdxV([l for l in o.labels if l not in kl])
        if name == "insert" and T.is_num(args[0]):
            l = list(o.labels)
            l.insert(int(args[0].args[0]), self.cell(args[1]))
            return IdxV(l)
        if name in ("intersection", "union", "append"):
            kl = self.keylist(args[0])
            if kl is None:
                return NI
            if name == "intersection":
                return IdxV([l for l in o.labels if l in kl])
            r = list(o.labels) + [x for x in kl if x not in o.labels or name == "append"]
            if name == "union" and kw.get("sort", NONE) is not FALSE:
                p = self.label_order(r, TRUE)
                r = [r[i] for i in p] if p is not None else r
            return IdxV(r)
        if name in ("min", "max") and all(T.is_num(l) for l in o.labels) and o.labels:
            return (min if name == "min" else max)(o.labels, key=lambda l: l.args[0])
        if name == "isin":
            kl = self.keylist(args[0])
            if kl is not None:
                return XArr([TRUE if l in kl else FALSE for l in o.labels], (len(o.labels),), True)
        if name == "get_loc" and args[0] in o.labels:
            return num(o.labels.index(args[0]))
        if name == "unique":
            return IdxV(list(dict.fromkeys(o.labels)))
        if name == "equals" and isinstance(args[0], IdxV):
            return TRUE if args[0].labels == o.labels else FALSE
        return NI

    def ser_method(self, o, name, args, kw, node):
        r = self.ser_core(o, name, args, kw, node)
        return self.ser_more(o, name, list(args), kw, node) if r is NI else r

    def ser_core(self, o, name, args, kw, node):
        e = self.e
        if name == "copy":
            if kw.get("deep", args[0] if args else TRUE) is not TRUE:
                return NotImplemented
            return SerV(o.labels, o.cells, o.name, o.b, own=True)
        if name in ("astype", "squeeze", "infer_objects"):
            return o
        if name == "to_numpy":
            return e.alloc("arr", arr=self.ser_arr(o))
        if name in ("tolist", "to_list"):
            return e.new_list(o.cells)
        if name in ("sum", "mean", "min", "max", "any", "all", "cumsum"):
            return self.reduce(o, name, None)
        if name == "abs":
            return SerV(o.labels, [T.fn("abs", self.cell(c)) for c in o.cells], o.name)
        if name == "where":
            other = args[1] if len(args) > 1 else kw.get("other", NAN)
            return e.elementwise(lambda c, x, y: T.ite(T.truth(c), x, y), args[0], o, other)
        if name == "mask":
            other = args[1] if len(args) > 1 else kw.get("other", NAN)
            return e.elementwise(lambda c, x, y: T.ite(T.truth(c), y, x), args[0], o, other)
        if name in ("items", "iteritems"):
            return I.Tup([I.Tup([l, c]) for l, c in zip(o.labels, o.cells)])
        if name == "keys":
            return IdxV(o.labels)
        if name == "get":
            k = args[0]
            if isconst(k):
                return o.cells[o.labels.index(k)] if k in o.labels else (args[1] if len(args) > 1 else NONE)
        if name == "fillna":
            v = args[0] if args else kw.get("value")
            return SerV(o.labels, [v if c is NAN else c for c in o.cells], o.name)
        if name == "unique":
            return XArr(list(dict.fromkeys(o.cells)), (len(dict.fromkeys(o.cells)),))
        if name == "isin":
            kl = self.keylist(args[0])
            if kl is not None:
                return SerV(o.labels, [T.member(self.cell(c), tuple(kl)) if all(isconst(x) for x in kl) else T.bor(*[T.eq(c, x) for x in kl]) for c in o.cells], None, True)
        if name == "to_dict":
            return e.new_dict(list(zip(o.labels, o.cells)))
        if name == "set_axis":
            kl = self.keylist(args[0] if args else kw["labels"])
            if kl is not None and len(kl) == len(o.cells):
                return SerV(kl, o.cells)
        if name == "rename":
            return SerV(o.labels, o.cells, args[0] if args and isinstance(args[0], N) else o.name)
        if name == "drop":
            ks = args[0] if args else kw.get("labels", kw.get("index"))
            kl = [ks] if isinstance(ks, N) else self.keylist(ks)
            if kl is not None:
                p = [i for i, l in enumerate(o.labels) if l not in kl]
                return SerV([o.labels[i] for i in p], [o.cells[i] for i in p], o.name)
        if name == "reindex":
            kl = self.keylist(args[0] if args else kw["index"])
            if kl is not None:
                d = dict(zip(o.labels, o.cells))
                return SerV(kl, [d.get(k, kw.get("fill_value", NAN)) for k in kl])
        if name == "to_frame":
            return self.make_df(IdxV(o.labels), [(args[0] if args else (o.name or ZERO), o.cells)])
        if name in ("add", "sub", "mul", "div"):
            f = {"add": T.add, "sub": T.sub, "mul": T.mul, "div": T.div}[name]
            return e.elementwise(f, o, args[0])
        if name in ("apply", "map") and args and isinstance(args[0], (I.FuncV, I.PartialV, I.BoundV, I.ExtV)):
            return SerV(o.labels, [self.cell(e.call(args[0], [c], {}, node)) for c in o.cells], o.name)
        if name == "apply" or name == "map":
            if args and isinstance(args[0], I.Ref) and e.obj(args[0]).kind == "dict":
                return SerV(o.labels, [e.read_item(args[0], c) if e.has_item(args[0], c) is TRUE else NAN for c in o.cells], o.name)
        return NI

    def df_method(self, o, name, args, kw, node):
        r = self.df_core(o, name, args, kw, node)
        return self.df_more(o, name, list(args), kw, node) if r is NI else r

    def df_core(self, o, name, args, kw, node):
        e = self.e
        ob = e.obj(o)
        idx = self.df_index(o)
        inplace = kw.get("inplace") is TRUE
        if name == "copy":
            if kw.get("deep", args[0] if args else TRUE) is not TRUE:
                return e.unsupported("shallow-copy", node, o)
            r = e.alloc("df")
            e.put(r, ob.w(origin=e.obj(r).origin))
            return r
        if name == "to_numpy":
            return e.alloc("arr", arr=self.df_arr(o))
        if name == "drop":
            labels = args[0] if args else kw.get("labels")
            axis = args[1] if len(args) > 1 else kw.get("axis", ZERO)
            rows, cols = kw.get("index"), kw.get("columns")
            if labels is not None:
                if axis is ONE or (T.is_str(axis) and axis.args[0] == "columns"):
                    cols = labels
                else:
                    rows = labels
            rl = [] if rows is None else ([rows] if isinstance(rows, N) else self.keylist(rows))
            cl = [] if cols is None else ([cols] if isinstance(cols, N) else self.keylist(cols))
            if rl is None or cl is None or not all(isconst(x) for x in rl + cl):
                return NI
            cs = self.cols(o)
            have = [k for k, _ in cs]
            ignore = kw.get("errors") is string("ignore")
            for x in rl:
                if x not in idx.labels and not ignore:
                    e.event("missing-key", o, x, None, node)
            for x in cl:
                if x not in have and not ignore:
                    e.event("missing-key", o, x, None, node)
            pos = [i for i, l in enumerate(idx.labels) if l not in rl]
            nidx = IdxV([idx.labels[i] for i in pos], idx.name)
            ncols = [(k, [c[i] for i in pos]) for k, c in cs if k not in cl]
            return self.finish(o, nidx, ncols, inplace, name, node)
        if name == "rename":
            m = kw.get("columns")
            mi = kw.get("index")
            if m is None and args and kw.get("axis") in (ONE, string("columns")):
                m = args[0]

            def mp(d, k):
                if isinstance(d, I.Ref) and e.obj(d).kind == "dict":
                    if e.has_item(d, k) is TRUE:
                        return self.cell(e.read_item(d, k))
                    return k
                return self.cell(e.call(d, [k], {}, node))
            cs = [(mp(m, k) if m is not None else k, c) for k, c in self.cols(o)]
            nidx = IdxV([mp(mi, l) for l in idx.labels], idx.name) if mi is not None else idx
            return self.finish(o, nidx, cs, inplace, name, node)
        if name == "set_index":
            k = args[0] if args else kw.get("keys")
            if isinstance(k, N) and isconst(k):
                d = dict(self.cols(o))
                if k in d and all(isconst(x) for x in d[k]):
                    return self.finish(o, IdxV(d[k], k.args[0] if T.is_str(k) else None), [(c, v) for c, v in self.cols(o) if c is not k], inplace, name, node)
            return NI
        if name == "reset_index":
            cs = self.cols(o)
            if kw.get("drop") is not TRUE:
                cs = [(string(idx.name or "index"), idx.labels)] + cs
            return self.finish(o, IdxV([num(i) for i in range(len(idx.labels))]), cs, inplace, name, node)
        if name == "set_axis":
            kl = self.keylist(args[0] if args else kw["labels"])
            ax = args[1] if len(args) > 1 else kw.get("axis", ZERO)
            if kl is None:
                return NI
            cs = self.cols(o)
            if ax is ONE:
                return self.make_df(idx, list(zip(kl, [c for _, c in cs])))
            return self.make_df(IdxV(kl), cs)
        if name in ("sum", "mean", "min", "max", "any", "all"):
            return self.df_reduce(o, name, self.ax(args, kw))
        if name == "abs":
            return self.df_elementwise(lambda x: T.fn("abs", x), [o])
        if name in ("add", "sub", "mul", "div", "multiply", "divide", "subtract"):
            f = {"add": T.add, "sub": T.sub, "mul": T.mul, "div": T.div, "multiply": T.mul, "divide": T.div, "subtract": T.sub}[name]
            other = args[0]
            if isinstance(other, SerV) and kw.get("axis", args[1] if len(args) > 1 else None) in (ZERO, string("index")):
                d = dict(zip(other.labels, other.cells))
                return self.make_df(idx, [(k, [f(self.cell(c[i]), self.cell(d.get(l, NAN))) for i, l in enumerate(idx.labels)]) for k, c in self.cols(o)])
            return self.df_elementwise(f, [o, other])
        if name == "iterrows":
            cs = self.cols(o)
            return I.Tup([I.Tup([l, SerV([k for k, _ in cs], [c[i] for _, c in cs])]) for i, l in enumerate(idx.labels)])
        if name == "itertuples":
            cs = self.cols(o)
            out = []
            lab = kw.get("index", args[0] if args else TRUE) is not FALSE
            if kw.get("name", args[1] if len(args) > 1 else TRUE) is NONE:
                return I.Tup([I.Tup(([l] if lab else []) + [c[i] for _, c in cs]) for i, l in enumerate(idx.labels)])
            for i, l in enumerate(idx.labels):
                at = {"Index": l} if lab else {}
                for k, c in cs:
                    at[k.args[0] if T.is_str(k) else "_%s" % T.show(k)] = c[i]
                out.append(e.alloc("row", attrs=at))
            return I.Tup(out)
        if name in ("items", "iteritems"):
            return I.Tup([I.Tup([k, SerV(idx.labels, c, k)]) for k, c in self.cols(o)])
        if name == "keys":
            return IdxV([k for k, _ in self.cols(o)])
        if name == "get":
            k = args[0]
            if isconst(k):
                if e.has_item(o, k) is TRUE:
                    return self.df_get(o, k, node)
                return args[1] if len(args) > 1 else NONE
        if name == "pop":
            s = self.df_get(o, args[0], node)
            e.store_item(o, args[0], I.DEL, node)
            return s
        if name == "insert":
            cs = self.cols(o)
            e.event("store", o, args[1], args[2], node)
            if T.is_num(args[0]):
                cs.insert(int(args[0].args[0]), (self.cell(args[1]), self.align(args[2], idx)))
                self.put_cols(o, cs)
                return NONE
        if name in ("transpose",):
            return self.attr(o, "T")
        if name == "fillna":
            v = args[0] if args else kw.get("value")
            if isinstance(v, N):
                return self.finish(o, idx, [(k, [v if c is NAN else c for c in cs]) for k, cs in self.cols(o)], inplace, name, node)
        if name in ("astype", "infer_objects"):
            return self.make_df(idx, self.cols(o))
        if name == "to_dict":
            return NI
        if name in ("head", "tail"):
            n = args[0] if args else kw.get("n", num(5))
            if T.is_num(n):
                n, pos = int(n.args[0]), list(range(len(idx.labels)))
                return self.rows(o, pos[:n] if name == "head" else pos[-n:] if n else [])
        if name in ("drop_duplicates", "duplicated"):
            sub = kw.get("subset", args[0] if args else NONE)
            names = [k for k, _ in self.cols(o)] if sub is NONE else [sub] if isinstance(sub, N) else self.keylist(sub)
            S = string
            d = dict(self.cols(o))
            keep = kw.get("keep", args[1] if len(args) > 1 else S("first"))
            if names is not None and all(k in d for k in names):
                rows_ = [tuple(d[k][i] for k in names) for i in range(len(idx.labels))]
                if all(c.op in ("num", "str") for r in rows_ for c in r):
                    n = len(rows_)
                    dup = [(rows_.count(rows_[i]) > 1) if keep is FALSE else rows_[i] in (rows_[i + 1:] if keep is S("last") else rows_[:i]) for i in range(n)]
                    if name == "duplicated":
                        return SerV(idx.labels, [TRUE if x else FALSE for x in dup], b=True)
                    pos = [i for i in range(n) if not dup[i]]
                    ii = kw.get("ignore_index") is TRUE
                    r = self.rows(o, pos)
                    if ii:
                        r = self.make_df([num(i) for i in range(len(pos))], self.cols(r))
                    return self.finish(o, self.df_index(r), self.cols(r), inplace, name, node)
        if name == "reindex":
            r = kw.get("index", args[0] if args else None)
            c = kw.get("columns")
            cs = self.cols(o)
            if c is not None:
                kl = self.keylist(c)
                d = dict(cs)
                cs = [(k, d.get(k, [NAN] * len(idx.labels))) for k in kl]
            if r is not None:
                kl = self.keylist(r)
                pos = {l: i for i, l in enumerate(idx.labels)}
                return self.make_df(IdxV(kl), [(k, [cc[pos[l]] if l in pos else NAN for l in kl]) for k, cc in cs])
            return self.make_df(idx, cs)
        if name == "to_csv":
            path = args[0] if args else kw.get("path_or_buf", NONE)
            kw = dict(kw)
            if len(args) > 1:
                kw["sep"] = args[1]
            if isinstance(path, I.FileV):
                path = path.path
            e.event("to_csv", o, path if isinstance(path, N) else e.freeze(path), e.freeze(o), node, extra=(kw, self.snapshot(o)))
            return NONE
        if name == "equals":
            return T.eq(e.freeze(o), e.freeze(args[0]))
        if name == "assign":
            r = self.df_method(o, "copy", [], {}, node)
            for k, v in kw.items():
                if k == "**":
                    return NI
                if isinstance(v, (I.FuncV, I.PartialV, I.BoundV)):
                    v = e.call(v, [r], {}, node)
                self.setitem(r, string(k), v, node)
            return r
        return NI

    def snapshot(self, o):
        """labels and columns; the cells of a column that is there only under a condition say so"""
        e = self.e
        out = []
        for k, c in self.cols(o):
            p = e.has_item(o, k)
            out.append((k, tuple(c) if p is TRUE else tuple(T.ite(p, x, string("<no column>")) for x in c)))
        return (self.df_index(o).labels, tuple(out))

    def finish(self, o, idx, cols, inplace, name, node):
        if inplace:
            self.e.event("store", o, string("<%s inplace>" % name), None, node)
            self.put_cols(o, cols, idx)
            return NONE
        return self.make_df(idx, cols)

    # -- constructors -----------------------------------------------------
    def pandas(self, fn, args, kw, node):
        if not self.on:
            return NI
        r = self.pandas_core(fn, args, kw, node)
        return self.pandas_more(fn, list(args), kw, node) if r is NI else r

    def pandas_core(self, fn, args, kw, node):
        e = self.e
        if fn == "DataFrame":
            data = args[0] if args else kw.get("data")
            index = kw.get("index", args[1] if len(args) > 1 else None)
            columns = kw.get("columns", args[2] if len(args) > 2 else None)
            index = None if isinstance(index, N) and index.op == "none" else index
            columns = None if isinstance(columns, N) and columns.op == "none" else columns
            il = None
            if index is not None:
                il = self.keylist(index)
                if il is None and isinstance(index, I.RangeV):
                    il = e.list_elems(index)
                if il is None or not all(isconst(x) for x in il):
                    return NI
            cl = None
            if columns is not None:
                cl = self.keylist(columns)
                if cl is None:
                    cl = e.list_elems(columns)
                if cl is None:
                    return NI
            if data is None or (isinstance(data, N) and data.op == "none"):
                return self.make_df(IdxV(il or []), [(c, [NAN] * len(il or [])) for c in (cl or [])])
            if isinstance(data, SerV):
                il = il if il is not None else list(data.labels)
                return self.make_df(IdxV(il), [((cl[0] if cl else (data.name or ZERO)), self.align(data, IdxV(il)))])
            if self.is_df(data):
                r = self.df_method(data, "copy", [], {}, node)
                if cl is not None:
                    r = self.df_get(r, IdxV(cl), node)
                if il is not None:
                    r = self.df_method(r, "reindex", [IdxV(il)], {}, node)
                return r
            if isinstance(data, I.Ref) and e.obj(data).kind == "dict":
                ks = e.dict_keys(data)
                if ks is None or any(p is not TRUE for _, p in ks):
                    return NI
                vals = [(k, e.read_item(data, k)) for k, _ in ks]
                if il is None:
                    sl = []
                    n = None
                    for _, v in vals:
                        lab = None
                        if isinstance(v, SerV):
                            lab = list(v.labels)
                        elif isinstance(v, I.Ref) and e.obj(v).kind == "dict":
                            kk = e.dict_keys(v)
                            if kk is None or any(p is not TRUE for _, p in kk):
                                return NI
                            lab = [x for x, _ in kk]
                        else:
                            x = self.xarr(v) if not isinstance(v, N) else None
                            if x is not None:
                                n = len(x.cells) if len(x.shape) == 1 else x.shape[0]
                            elif not isinstance(v, N):
                                return NI
                        if lab is not None:
                            sl += [x for x in lab if x not in sl]
                    if sl:
                        il = sl
                    elif n is not None:
                        il = [num(i) for i in range(n)]
                    elif not vals:
                        il = []
                    else:
                        return NI
                idx = IdxV(il)
                out = [(k, self.align(v, idx)) for k, v in vals]
                if cl is not None:
                    d = dict(out)
                    out = [(c, d.get(c, [NAN] * len(il))) for c in cl]
                return self.make_df(idx, out)
            x = self.xarr(data)
            if isinstance(data, N) and il is not None and cl is not None and self.scalar(data):
                return self.make_df(IdxV(il), [(c, [data] * len(il)) for c in cl])
            if x is None:
                return NI
            n = x.shape[0]
            m = x.shape[1] if len(x.shape) == 2 else 1
            il = il if il is not None else [num(i) for i in range(n)]
            cl = cl if cl is not None else [num(j) for j in range(m)]
            if len(il) != n or len(cl) != m:
                e.err("valueerror", string("shape"), node=node)
                return NI
            return self.make_df(IdxV(il), [(c, [x.cells[i * m + j] for i in range(n)]) for j, c in enumerate(cl)])
        if fn == "Series":
            data = args[0] if args else kw.get("data")
            index = kw.get("index", args[1] if len(args) > 1 else None)
            il = self.keylist(index) if index is not None else None
            if isinstance(data, SerV):
                return data if il is None else SerV(il, self.align(data, IdxV(il)))
            if isinstance(data, I.Ref) and e.obj(data).kind == "dict":
                ks = e.dict_keys(data)
                if ks is not None and all(p is TRUE for _, p in ks):
                    il = il or [k for k, _ in ks]
                    return SerV(il, self.align(data, IdxV(il)))
                return NI
            x = self.xarr(data) if data is not None and not isinstance(data, N) else None
            if x is not None and len(x.shape) == 1:
                il = il or [num(i) for i in range(len(x.cells))]
                return SerV(il, self.align(x, IdxV(il)))
            if isinstance(data, N) and il is not None:
                return SerV(il, [data] * len(il))
            return NI
        if fn == "concat":
            objs = args[0] if args else kw.get("objs")
            ax = args[1] if len(args) > 1 else kw.get("axis", ZERO)
            el = e.list_elems(objs)
            if el is None:
                return NI
            if T.is_str(ax):
                ax = {"columns": ONE, "index": ZERO}.get(ax.args[0], ax)
            if all(isinstance(x, SerV) for x in el) and ax is ONE:
                el = [self.make_df(IdxV(x.labels), [(x.name or num(i), x.cells)]) for i, x in enumerate(el)]
            if not all(self.is_df(x) for x in el):
                return NI
            if ax is ZERO:
                names = []
                for x in el:
                    names += [k for k, _ in self.cols(x) if k not in names]
                labels = []
                cols = {k: [] for k in names}
                for x in el:
                    lx = self.df_index(x).labels
                    labels += lx
                    d = dict(self.cols(x))
                    for k in names:
                        cols[k] += list(d.get(k, [NAN] * len(lx)))
                if kw.get("ignore_index") is TRUE:
                    labels = [num(i) for i in range(len(labels))]
                return self.make_df(IdxV(labels), [(k, cols[k]) for k in names])
            labels = list(self.df_index(el[0]).labels)
            for x in el[1:]:
                labels += [l for l in self.df_index(x).labels if l not in labels]
            if all(T.is_num(l) for l in labels):
                labels.sort(key=lambda l: l.args[0])
            out = []
            for x in el:
                pos = {l: i for i, l in enumerate(self.df_index(x).labels)}
                out += [(k, [c[pos[l]] if l in pos else NAN for l in labels]) for k, c in self.cols(x)]
            ks = [k for k, _ in out]
            if len(set(ks)) != len(ks):
                e.event("dup-column", None, string(",".join(T.show(k) for k in ks if ks.count(k) > 1)), None, node)
                return NI
            return self.make_df(IdxV(labels), out)
        if fn == "unique":
            x = self.xarr(args[0])
            if x is not None and all(isconst(c) for c in x.cells):
                u = list(dict.fromkeys(x.cells))
                return XArr(u, (len(u),))
            return NI
        if fn == "read_csv":
            return self.read_csv(args, kw, node)
        if fn in ("isna", "isnull"):
            if isinstance(args[0], N):
                return TRUE if args[0] is NAN else (FALSE if args[0].op in ("num", "str", "sym") else mk("isinst", args[0], "nan"))
        return NI

    def raw(self, path):
        if isinstance(path, N) and path.op == "str":
            return self.files.get(path.args[0])
        return None

    def read_csv(self, args, kw, node):
        e = self.e
        path = args[0] if args else kw.get("filepath_or_buffer")
        f = self.raw(path)
        e.event("read-file", None, path if isinstance(path, N) else e.freeze(path), None, node)
        if f is None:
            return NI

        def py(k, d=None):
            v = kw.get(k, d)
            if isinstance(v, N):
                if v.op == "none":
                    return None
                if v.op == "num":
                    return int(v.args[0])
                return v
            return v
        rows = [list(r) for r in f.rows]
        skip = kw.get("skiprows")
        if skip is not None:
            if isinstance(skip, N) and T.is_num(skip):
                rows = rows[int(skip.args[0]):]
            else:
                sk = {int(x.args[0]) for x in e.list_elems(skip)}
                rows = [r for i, r in enumerate(rows) if i not in sk]
        names = kw.get("names")
        header = py("header", "infer")
        if names is not None:
            hdr = [self.cell(x) for x in e.list_elems(names)]
            if header not in ("infer", None):
                rows = rows[1:]
        elif header is None:
            hdr = [num(i) for i in range(max((len(r) for r in rows), default=0))]
        else:
            hdr = rows[0]
            rows = rows[1:]
        n = kw.get("nrows")
        if isinstance(n, N) and T.is_num(n):
            rows = rows[:int(n.args[0])]
        elif n is not None and not (isinstance(n, N) and n.op == "none"):
            return NI
        # repeated header names get a numeric suffix
        seen, h2 = {}, []
        for h in hdr:
            if h in seen and T.is_str(h):
                seen[h] += 1
                h2.append(string("%s.%d" % (h.args[0], seen[h])))
            else:
                seen[h] = 0
                h2.append(h)
        ic = py("index_col", None)
        # the value domain identifies False with 0: here the literal tells them apart
        lit = [k.value for k in getattr(node, "keywords", []) if k.arg == "index_col"]
        if ic == 0 and not (lit and isinstance(lit[0], ast.Constant) and lit[0].value is False):
            labels = [r[0] for r in rows]
            return self.make_df(IdxV(labels, h2[0].args[0] if T.is_str(h2[0]) else None), [(h, [r[j + 1] for r in rows]) for j, h in enumerate(h2[1:])])
        return self.make_df(IdxV([num(i) for i in range(len(rows))]), [(h, [r[j] for r in rows]) for j, h in enumerate(h2)])

    # -- numpy ------------------------------------------------------------
    def numpy(self, fn, args, kw, node):
        r = self.numpy_core(fn, args, kw, node)
        if r is NI and (self.on or any(self.explicitish(a) for a in args)):
            r = self.numpy_more(fn, list(args), kw, node)
        return self.numpy_generic(fn, list(args), kw, node) if r is NI else r

    def numpy_core(self, fn, args, kw, node):
        e = self.e
        if not self.on:
            return NI
        if fn in ("arange",):
            a = [x if isinstance(x, N) else e.freeze(x) for x in args]
            if all(T.is_num(x) for x in a) and a:
                v = [x.args[0] for x in a]
                lo, hi, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
                out = []
                x = lo
                while (x < hi if st > 0 else x > hi) and len(out) < LIMIT:
                    out.append(num(x))
                    x += st
                return e.alloc("arr", arr=XArr(out, (len(out),)))
            return NI
        if fn in ("array", "asarray", "atleast_1d"):
            x = self.xarr(args[0]) if not isinstance(args[0], N) else None
            if x is not None:
                return e.alloc("arr", arr=x)
            return NI
        if fn in ("zeros_like", "ones_like", "full_like", "empty_like"):
            x = self.xarr(args[0]) if not isinstance(args[0], N) else None
            if x is not None:
                v = {"zeros_like": ZERO, "ones_like": ONE}.get(fn)
                if fn == "full_like":
                    v = args[1] if len(args) > 1 else kw["fill_value"]
                if v is not None:
                    return e.alloc("arr", arr=XArr([v] * len(x.cells), x.shape))
            return NI
        if fn in ("concatenate", "append", "hstack"):
            parts = list(args) if fn == "append" else e.list_elems(args[0])
            if parts is None or kw:
                return NI
            xs = [XArr([p], (1,)) if isinstance(p, N) else self.xarr(p) for p in parts]
            if all(x is not None and len(x.shape) == 1 for x in xs):
                cs = [c for x in xs for c in x.cells]
                return e.alloc("arr", arr=XArr(cs, (len(cs),)))
            return NI
        if fn in ("sum", "mean", "min", "max", "amin", "amax", "any", "all", "cumsum"):
            if isinstance(args[0], N):
                return NI
            return self.reduce(args[0], {"amin": "min", "amax": "max"}.get(fn, fn), self.ax(args[1:], kw))
        if fn == "unique":
            x = self.xarr(args[0])
            if x is not None and all(isconst(c) for c in x.cells):
                u = sorted(dict.fromkeys(x.cells), key=lambda c: c.args[0])
                return XArr(u, (len(u),))
            return NI
        if fn == "flip" or fn == "flipud":
            x = self.xarr(args[0])
            if x is not None and len(x.shape) == 1:
                return XArr(x.cells[::-1], x.shape)
        if fn == "loadtxt":
            f = self.raw(args[0])
            e.event("read-file", None, args[0] if isinstance(args[0], N) else e.freeze(args[0]), None, node)
            if f is not None:
                if all(len(r) == 1 for r in f.rows):
                    return e.alloc("arr", arr=XArr([r[0] for r in f.rows], (len(f.rows),)))
                return e.alloc("arr", arr=XArr([c for r in f.rows for c in r], (len(f.rows), len(f.rows[0]))))
            return NI
        if fn == "isnan":
            return e.elementwise(lambda c: TRUE if c is NAN else (FALSE if c.op in ("num", "sym", "sum", "prod") else mk("isinst", c, "nan")), args[0])
        if fn == "isscalar":
            if isinstance(args[0], (XArr, SerV, IdxV)):
                return FALSE
            if isinstance(args[0], I.Ref):
                return FALSE
        return NI

    # -- generic protocol -------------------------------------------------
    def elems(self, v):
        if isinstance(v, XArr):
            if len(v.shape) == 1:
                return list(v.cells)
            m = v.shape[1]
            return [XArr(v.cells[i * m:(i + 1) * m], (m,)) for i in range(v.shape[0])]
        if isinstance(v, SerV):
            return list(v.cells)
        if isinstance(v, IdxV):
            return list(v.labels)
        return None

    def contains(self, cont, x):
        if isinstance(cont, SerV):
            return T.member(x, tuple(cont.labels)) if isinstance(x, N) else NI
        if isinstance(cont, IdxV):
            return T.member(x, tuple(cont.labels)) if isinstance(x, N) else NI
        if isinstance(cont, XArr) and isinstance(x, N):
            if all(isconst(c) for c in cont.cells):
                return T.member(x, tuple(cont.cells))
            return T.bor(*[T.eq(x, c) for c in cont.cells]) if cont.cells else FALSE
        return NI

    def merge(self, c, a, b):
        e = self.e
        if isinstance(a, SerV) and isinstance(b, SerV) and a.labels == b.labels:
            return SerV(a.labels, [e.merge_val(c, x, y) for x, y in zip(a.cells, b.cells)], a.name)
        if isinstance(a, XArr) and isinstance(b, XArr) and a.shape == b.shape:
            return XArr([T.ite(c, x, y) for x, y in zip(a.cells, b.cells)], a.shape)
        if isinstance(a, IdxV) and isinstance(b, IdxV) and a == b:
            return a
        return NI

    def freeze(self, v, depth=0):
        if isinstance(v, SerV):
            return mk("ser", mk("tup", *v.labels), mk("tup", *[self.e.freeze(c, depth + 1) for c in v.cells]))
        if isinstance(v, IdxV):
            return mk("tup", *v.labels)
        return NI
