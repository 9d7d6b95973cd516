"""Further numpy / pandas operations on arrays and tables held cell by cell."""
import ast
import fractions

from . import terms as T
from .terms import N, NONE, TRUE, FALSE, ZERO, ONE, mk, num, string
from . import interp as I

NI = NotImplemented
NAN = mk("special", "nan")
UFUNC = {"add": T.add, "subtract": T.sub, "multiply": T.mul, "divide": T.div, "true_divide": T.div, "power": T.power,
         "maximum": lambda a, b: T.fn("max", a, b), "minimum": lambda a, b: T.fn("min", a, b),
         "fmax": lambda a, b: T.fn("max", a, b), "fmin": lambda a, b: T.fn("min", a, b),
         "logical_and": lambda a, b: T.band(T.truth(a), T.truth(b)), "logical_or": lambda a, b: T.bor(T.truth(a), T.truth(b)),
         "hypot": lambda a, b: T.power(T.add(T.mul(a, a), T.mul(b, b)), num(fractions.Fraction(1, 2)))}
BOOLS = ("logical_and", "logical_or")
CMP = {"greater": ast.Gt, "greater_equal": ast.GtE, "less": ast.Lt, "less_equal": ast.LtE, "equal": ast.Eq, "not_equal": ast.NotEq}


def isconst(x):
    return isinstance(x, N) and T.is_const(x)


class NumLib:
    def arr(self, cells, shape, b=False):
        return self.e.alloc("arr", arr=self.XArr(cells, shape, b))

    def ints(self, v):
        """tuple of python ints of a shape-like value, None if not constant"""
        if isinstance(v, N):
            el = [v]
        else:
            el = self.e.lib.elems(v)
        if el is None or not all(isinstance(x, N) and T.is_num(x) and x.args[0].denominator == 1 for x in el):
            return None
        return tuple(int(x.args[0]) for x in el)

    def axis(self, v, nd):
        """int axis, None for none, NI if unknown"""
        if v is None or isinstance(v, N) and v.op == "none":
            return None
        if isinstance(v, N) and T.is_num(v):
            return int(v.args[0]) % nd if -nd <= v.args[0] < nd else NI
        return NI

    def explicit(self, v):
        """XArr of an array-like; scalars as shape (1,)"""
        if isinstance(v, N):
            return None
        return self.xarr(v)

    def lines(self, x, ax):
        """1-d runs of a 2-d array along an axis"""
        n, m = x.shape
        if ax == 0:
            return [[x.cells[i * m + j] for i in range(n)] for j in range(m)]
        return [list(x.cells[i * m:(i + 1) * m]) for i in range(n)]

    def unlines(self, runs, ax):
        if ax == 1:
            return self.XArr([c for r in runs for c in r], (len(runs), len(runs[0]) if runs else 0))
        k = len(runs[0]) if runs else 0
        return self.XArr([r[i] for i in range(k) for r in runs], (k, len(runs)))

    def along(self, x, ax, f, like=None):
        """f: run -> run"""
        if len(x.shape) == 1:
            r = f(list(x.cells))
            return NI if r is None else self.XArr(r, (len(r),))
        runs = [f(r) for r in self.lines(x, ax)]
        return NI if any(r is None for r in runs) else self.unlines(runs, ax)

    def numpy_generic(self, fn, args, kw, node):
        """element by element functions of any array"""
        e = self.e
        if kw and set(kw) - {"dtype", "casting"} or not args:
            return NI
        if fn == "negative":
            return e.elementwise(T.neg, args[0])
        if fn == "positive":
            return args[0]
        if fn == "reciprocal":
            return e.elementwise(lambda x: T.div(ONE, x), args[0])
        if fn == "logical_not":
            return self.mark(e.elementwise(lambda x: T.bnot(T.truth(x)), args[0]))
        if fn in UFUNC and len(args) == 2 and fn in BOOLS + ("hypot",):
            r = e.elementwise(UFUNC[fn], *args)
            return self.mark(r) if fn in BOOLS else r
        if fn == "logical_xor" and len(args) == 2:
            return self.mark(e.elementwise(lambda a, b: T.ite(T.truth(a), T.bnot(T.truth(b)), T.truth(b)), *args))
        if fn in CMP and len(args) == 2:
            return e.compare(CMP[fn](), args[0], args[1], node)
        if fn == "isnan":
            return self.mark(e.elementwise(e.lib.isnan, args[0]))
        if fn == "isfinite":
            return self.mark(e.elementwise(lambda c: FALSE if c.op == "special" else TRUE if c.op == "num" else
                                           T.bnot(e.lib.isnan(c)) if e.lib.isnan(c) is FALSE else mk("isinst", c, "finite"), args[0]))
        if fn in ("mod", "remainder", "floor_divide") and len(args) == 2:
            return e.binop(ast.FloorDiv() if fn == "floor_divide" else ast.Mod(), args[0], args[1], node)
        return NI

    def numpy_more(self, fn, args, kw, node):
        e = self.e
        XA = self.XArr
        if "." in fn:
            u, _, m = fn.partition(".")
            if u in UFUNC and m in ("reduce", "accumulate", "outer") and args and not (set(kw) - {"axis"}):
                return self.ufunc(u, m, args, kw)
            return NI
        kws = set(kw)
        a0 = args[0] if args else None
        if fn in ("size", "ndim", "shape") and len(args) == 1 and not kws and self.scalar(a0):
            return {"size": ONE, "ndim": ZERO, "shape": I.Tup([])}[fn]
        if fn == "linspace" and not kws - {"num", "endpoint", "dtype", "start", "stop"}:
            lo, hi, n = args[0] if args else kw["start"], args[1] if len(args) > 1 else kw["stop"], args[2] if len(args) > 2 else kw.get("num", num(50))
            ep = args[3] if len(args) > 3 else kw.get("endpoint", TRUE)
            if isinstance(lo, N) and isinstance(hi, N) and T.is_num(n) and ep in (TRUE, FALSE):
                n = int(n.args[0])
                d = n - 1 if ep is TRUE else n
                return self.arr([T.add(lo, T.scale(fractions.Fraction(i, d), T.sub(hi, lo))) if d else lo for i in range(n)], (n,))
            return NI
        if fn in ("eye", "identity") and not kws - {"dtype"} and len(args) == 1 and T.is_num(a0):
            n = int(a0.args[0])
            return self.arr([ONE if i == j else ZERO for i in range(n) for j in range(n)], (n, n))
        if fn == "fromiter" and args:
            el = e.lib.elems(a0)
            return NI if el is None or not all(isinstance(x, N) for x in el) else self.arr(el, (len(el),))
        if fn in ("isclose", "allclose") and len(args) == 2 and all(isinstance(a, N) for a in args):
            r = e.lib.math("isclose", list(args), {} if not kw else {"?": None}) if not kw else None
            return NI if r is None else r
        if fn == "interp" and len(args) == 3 and not kw and isinstance(a0, N):
            r = self.interp(XA([a0], (1,)), args[1:])
            return r if r is NI else self.xarr(r).cells[0]
        if fn in ("array", "asarray", "atleast_1d", "asanyarray", "ascontiguousarray") and args:
            if isinstance(a0, N):
                return self.arr([a0], (1,)) if fn == "atleast_1d" and self.scalar(a0) else NI
            x = self.xarr(a0)
            if x is None:
                return NI
            d = kw.get("dtype", args[1] if len(args) > 1 else None)
            if isinstance(d, I.ExtV) and d.name.rsplit(".", 1)[-1].startswith("int"):
                return NI
            return self.arr(x.cells, x.shape, x.b)
        if fn in ("broadcast_to",) and len(args) == 2:
            sh = self.ints(args[1])
            if sh is None or len(sh) > 2:
                return NI
            return e.elementwise(lambda x, z: x, a0, XA([ZERO] * self.prod(sh), sh))
        if fn == "meshgrid" and len(args) == 2 and not kws - {"indexing"}:
            xs = [self.explicit(a) for a in args]
            if any(x is None or len(x.shape) != 1 for x in xs):
                return NI
            p, q = xs[0].cells, xs[1].cells
            if kw.get("indexing") is string("ij"):
                return e.new_list([XA([x for x in p for _ in q], (len(p), len(q))), XA([y for _ in p for y in q], (len(p), len(q)))])
            return e.new_list([XA([x for _ in q for x in p], (len(q), len(p))), XA([y for y in q for _ in p], (len(q), len(p)))])
        if fn == "select" and len(args) >= 2:
            cs, vs = e.lib.elems(a0), e.lib.elems(args[1])
            if cs is None or vs is None or len(cs) != len(vs):
                return NI
            r = args[2] if len(args) > 2 else kw.get("default", ZERO)
            for c, v in reversed(list(zip(cs, vs))):
                r = e.elementwise(lambda k, x, y: T.ite(T.truth(k), x, y), c, v, r)
            return r
        if fn == "piecewise" and len(args) == 3:
            x, cs, fs = self.explicit(a0), e.lib.elems(args[1]), e.lib.elems(args[2])
            cs = None if cs is None else [self.explicit(c) for c in cs]
            if x is None or cs is None or fs is None or any(c is None or c.shape != x.shape for c in cs) or len(fs) not in (len(cs), len(cs) + 1):
                return NI
            val = lambda f, v: f if isinstance(f, N) else e.call(f, [v], {}, node)
            out = []
            for i, v in enumerate(x.cells):
                r = val(fs[-1], v) if len(fs) > len(cs) else ZERO
                for c, f in zip(cs, fs):
                    r = e.merge_val(T.truth(c.cells[i]), val(f, v), r)
                out.append(self.cell(r))
            return self.arr(out, x.shape)
        if fn == "where" and len(args) == 1 or fn in ("nonzero", "flatnonzero", "argwhere", "count_nonzero"):
            x = self.explicit(a0)
            if x is None or kws:
                return NI
            cs = [e.simp(T.truth(c)) for c in x.cells]
            if fn == "count_nonzero":
                return T.add(ZERO, *[T.ite(c, ONE, ZERO) for c in cs])
            if not all(c in (TRUE, FALSE) for c in cs) or len(x.shape) != 1 or fn == "argwhere":
                return NI
            r = self.arr([num(i) for i, c in enumerate(cs) if c is TRUE], (sum(c is TRUE for c in cs),))
            return r if fn == "flatnonzero" else I.Tup([r])
        if fn in ("isin", "in1d") and len(args) == 2 and not kws - {"invert"}:
            x, y = self.explicit(a0), self.keylist(args[1]) if not isinstance(args[1], N) else None
            one = isinstance(a0, N) and (self.scalar(a0) or T.is_str(a0))
            if x is None and not one:
                return NI
            if y is None and not isinstance(args[1], N) and self.xarr(args[1]) is not None:
                y = list(self.xarr(args[1]).cells)
            if y is None:
                return NI
            inv = kw.get("invert", FALSE)
            if inv not in (TRUE, FALSE):
                return NI
            cs = [T.bor(*[T.eq(c, k) for k in y]) if y else FALSE for c in ([a0] if one else x.cells)]
            if one:
                return T.bnot(cs[0]) if inv is TRUE else cs[0]
            return self.arr([T.bnot(c) if inv is TRUE else c for c in cs], x.shape, True)
        if fn in ("matmul", "dot", "inner") and len(args) == 2 and not kws:
            x, y = self.explicit(a0), self.explicit(args[1])
            if x is None or y is None:
                return NI
            return self.matmul(x, y) if fn != "inner" or len(x.shape) == 1 == len(y.shape) else NI
        if fn == "outer" and len(args) == 2 and not kws:
            return self.ufunc("multiply", "outer", args, {})
        if fn in ("vstack", "hstack", "stack", "column_stack", "row_stack", "concatenate", "dstack") and len(args) >= 1 and not kws - {"axis"}:
            el = e.lib.elems(a0)
            xs = None if el is None else [XA([p], (1,)) if isinstance(p, N) else self.xarr(p) for p in el]
            if not xs or any(x is None for x in xs):
                return NI
            ax = kw.get("axis", args[1] if len(args) > 1 else ZERO)
            if not isinstance(ax, N) or not T.is_num(ax):
                return NI
            ax = int(ax.args[0])
            if fn in ("vstack", "row_stack"):
                xs, ax = [XA(x.cells, (1, x.shape[0])) if len(x.shape) == 1 else x for x in xs], 0
            elif fn == "column_stack":
                xs, ax = [XA(x.cells, (x.shape[0], 1)) if len(x.shape) == 1 else x for x in xs], 1
            elif fn == "stack":
                if any(len(x.shape) != 1 for x in xs) or ax not in (0, 1, -1):
                    return NI
                xs = [XA(x.cells, (1, x.shape[0]) if ax == 0 else (x.shape[0], 1)) for x in xs]
            elif fn == "hstack":
                ax = 0 if len(xs[0].shape) == 1 else 1
            elif fn == "dstack":
                return NI
            nd = len(xs[0].shape)
            if any(len(x.shape) != nd for x in xs) or not -nd <= ax < nd:
                return NI
            ax %= nd
            if nd == 1:
                return self.arr([c for x in xs for c in x.cells], (sum(len(x.cells) for x in xs),))
            if any(x.shape[1 - ax] != xs[0].shape[1 - ax] for x in xs):
                return e.err("valueerror", string("shape"), node=node)
            if ax == 0:
                return self.arr([c for x in xs for c in x.cells], (sum(x.shape[0] for x in xs), xs[0].shape[1]))
            n = xs[0].shape[0]
            return self.arr([c for i in range(n) for x in xs for c in x.cells[i * x.shape[1]:(i + 1) * x.shape[1]]], (n, sum(x.shape[1] for x in xs)))
        # functions of one explicit array
        x = self.explicit(a0) if args else None
        if x is None:
            return NI
        nd = len(x.shape)
        rest = args[1:]
        ax = self.axis(kw.get("axis", None), nd)
        if ax is NI:
            return NI
        if fn == "tile" and len(rest) == 1 and not kws:
            r = self.ints(rest[0])
            if r is None or len(r) > 2:
                return NI
            if nd == 1 and len(r) == 1:
                return self.arr(x.cells * r[0], (len(x.cells) * r[0],))
            r = r if len(r) == 2 else (1,) + r
            m = x.shape[-1]
            n = 1 if nd == 1 else x.shape[0]
            row = [list(x.cells[i * m:(i + 1) * m]) * r[1] for i in range(n)]
            return self.arr([c for _ in range(r[0]) for q in row for c in q], (n * r[0], m * r[1]))
        if fn == "repeat" and len(rest) == 1:
            r = self.ints(rest[0])
            if r is None or len(r) not in (1, len(x.cells)) or nd != 1:
                if r is not None and len(r) == 1 and nd == 2 and ax is not None:
                    return self.along(x, ax, lambda c: [v for v in c for _ in range(r[0])])
                return NI
            r = r * len(x.cells) if len(r) == 1 else r
            c = [v for v, k in zip(x.cells, r) for _ in range(k)]
            return self.arr(c, (len(c),))
        if fn in ("diff", "ediff1d") and not kws - {"axis", "n"} and not rest:
            k = kw.get("n", ONE)
            if not T.is_num(k):
                return NI
            k = int(k.args[0])

            def d(c):
                for _ in range(k):
                    c = [T.sub(q, p) for p, q in zip(c, c[1:])]
                return c
            return self.along(x, nd - 1 if ax is None else ax, d)
        if fn in ("prod", "product", "nanprod") and not kws - {"axis"}:
            if rest:
                ax = self.axis(rest[0], nd)
            if ax is NI or fn == "nanprod":
                return NI
            f = lambda c: T.mul(ONE, *c)
            if ax is None or nd == 1:
                return f(x.cells)
            r = [f(c) for c in self.lines(x, ax)]
            return XA(r, (len(r),))
        if fn in ("cumsum", "cumprod") and not kws - {"axis"}:
            if rest:
                ax = self.axis(rest[0], nd)
            if ax is NI:
                return NI
            g = T.add if fn == "cumsum" else T.mul
            if ax is None and nd == 2:
                x, nd = XA(x.cells, (len(x.cells),)), 1

            def run(c):
                out = []
                for v in c:
                    out.append(v if not out else g(out[-1], v))
                return out
            return self.along(x, 0 if ax is None else ax, run)
        if fn in ("argmax", "argmin", "sort", "argsort", "searchsorted", "unique", "ptp", "median", "digitize", "percentile", "quantile"):
            if nd != 1 or fn in ("ptp", "digitize", "percentile", "quantile"):
                return NI
            if kws - {"side", "kind", "axis"}:
                return NI
            if fn in ("sort", "median") and not all(T.is_num(c) for c in x.cells):
                o = e.lib.network(x.cells, x.cells, False)
                if o is None:
                    return NI
                h = len(o)
                return self.arr(o, x.shape) if fn == "sort" else T.div(T.add(o[(h - 1) // 2], o[h // 2]), num(2))
            if not all(T.is_num(c) for c in x.cells):
                return NI
            v = [c.args[0] for c in x.cells]
            if fn in ("argmax", "argmin"):
                return num(v.index((max if fn == "argmax" else min)(v))) if v else e.err("valueerror", string(fn), node=node)
            if fn == "median":
                s = sorted(v)
                return num((s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2) if s else NAN
            if fn in ("sort", "argsort"):
                o = sorted(range(len(v)), key=lambda i: v[i])
                return self.arr([x.cells[i] if fn == "sort" else num(i) for i in o], x.shape)
            if fn == "searchsorted" and rest:
                import bisect
                side = kw.get("side", rest[1] if len(rest) > 1 else string("left"))
                f = {"left": bisect.bisect_left, "right": bisect.bisect_right}.get(side.args[0])
                q = rest[0]
                if isinstance(q, N) and T.is_num(q) and f:
                    return num(f(v, q.args[0]))
                y = self.explicit(q)
                if y is not None and all(T.is_num(c) for c in y.cells) and f:
                    return self.arr([num(f(v, c.args[0])) for c in y.cells], y.shape)
            return NI
        if fn == "insert" and len(rest) == 2 and nd == 1 and not kws:
            i = self.ints(rest[0]) if isinstance(rest[0], N) else None
            vs = [rest[1]] if isinstance(rest[1], N) else (list(self.xarr(rest[1]).cells) if self.xarr(rest[1]) is not None else None)
            if i is None or vs is None or not -len(x.cells) <= i[0] <= len(x.cells):
                return NI
            k = i[0] if i[0] >= 0 else len(x.cells) + i[0]
            c = list(x.cells[:k]) + vs + list(x.cells[k:])
            return self.arr(c, (len(c),))
        if fn == "delete" and len(rest) == 1 and nd == 1 and not kws:
            i = self.ints(rest[0])
            if i is None:
                return NI
            i = {k % len(x.cells) for k in i}
            c = [v for k, v in enumerate(x.cells) if k not in i]
            return self.arr(c, (len(c),))
        if fn == "roll" and rest and not kws - {"axis"}:
            k = self.ints(rest[0])
            if k is None or len(k) != 1 or len(rest) > 1:
                return NI
            if nd == 2 and ax is None:
                return NI
            return self.along(x, 0 if ax is None else ax, lambda c: c[len(c) - k[0] % len(c):] + c[:len(c) - k[0] % len(c)] if c else c)
        if fn in ("flip", "flipud", "fliplr") and not rest and not kws - {"axis"}:
            if nd == 1:
                return XA(x.cells[::-1], x.shape)
            if fn == "flip" and ax is None:
                return XA(x.cells[::-1], x.shape)
            return self.along(x, {"flipud": 0, "fliplr": 1}.get(fn, ax), lambda c: c[::-1])
        if fn in ("split", "array_split") and len(rest) == 1 and nd == 1 and not kws:
            n = len(x.cells)
            if isinstance(rest[0], N):
                k = self.ints(rest[0])
                if k is None or k[0] < 1 or fn == "split" and n % k[0]:
                    return NI
                q, r = divmod(n, k[0])
                cuts = [0]
                for i in range(k[0]):
                    cuts.append(cuts[-1] + q + (1 if i < r else 0))
            else:
                k = self.ints(rest[0])
                if k is None:
                    return NI
                cuts = [0] + [min(c, n) for c in k] + [n]
            return e.new_list([XA(x.cells[a:b], (max(0, b - a),)) for a, b in zip(cuts, cuts[1:])])
        if fn == "interp" or fn == "average" and nd == 1:
            if fn == "average" and not kws - {"weights", "axis"}:
                w = self.explicit(kw["weights"]) if "weights" in kw else XA([ONE] * len(x.cells), x.shape)
                if w is not None and w.shape == x.shape and x.cells:
                    return T.div(T.add(ZERO, *[T.mul(a, b) for a, b in zip(x.cells, w.cells)]), T.add(ZERO, *w.cells))
            if fn == "interp" and len(rest) >= 2 and not kws:
                return self.interp(x, rest)
            return NI
        if fn == "convolve" and len(rest) >= 1 and nd == 1:
            y = self.explicit(rest[0])
            mode = kw.get("mode", rest[1] if len(rest) > 1 else string("full"))
            if y is None or len(y.shape) != 1 or not T.is_str(mode) or mode.args[0] not in ("full", "valid", "same"):
                return NI
            n, m = len(x.cells), len(y.cells)
            full = [T.add(ZERO, *[T.mul(x.cells[i], y.cells[k - i]) for i in range(n) if 0 <= k - i < m]) for k in range(n + m - 1)]
            if mode.args[0] == "valid":
                full = full[min(n, m) - 1:max(n, m)]
            elif mode.args[0] == "same":
                s = (min(n, m) - 1) // 2
                full = full[s:s + max(n, m)]
            return self.arr(full, (len(full),))
        if fn in ("expand_dims",) and nd == 1:
            a = self.axis(kw.get("axis", rest[0] if rest else None), 2)
            return XA(x.cells, (1, nd and x.shape[0]) if a == 0 else (x.shape[0], 1)) if a in (0, 1) else NI
        if fn in ("squeeze", "ravel", "reshape", "transpose", "copy", "argmax"):
            return self.arr_more(x, fn, rest, kw)
        if fn == "atleast_2d":
            return x if nd == 2 else XA(x.cells, (1, x.shape[0]))
        if fn in ("triu", "tril", "diag", "trace"):
            return NI
        if fn in ("isclose", "allclose", "array_equal") and rest and not kws - {"rtol", "atol", "equal_nan"}:
            y = self.explicit(rest[0])
            if y is not None and y.shape == x.shape:
                if all(a is b for a, b in zip(x.cells, y.cells)) and not any(c.op == "special" for c in x.cells):
                    return TRUE if fn != "isclose" else self.arr([TRUE] * len(x.cells), x.shape, True)
                if fn == "array_equal":
                    return T.band(*[T.eq(a, b) for a, b in zip(x.cells, y.cells)])
            elif y is not None and fn == "array_equal":
                return FALSE
            return NI
        if fn == "shape":
            return I.Tup([num(s) for s in x.shape])
        if fn == "size":
            return num(len(x.cells))
        if fn == "ndim":
            return num(nd)
        if fn == "nan_to_num" and not kws and not rest:
            if all(e.lib.isnan(c) in (TRUE, FALSE) for c in x.cells):
                return self.arr([ZERO if e.lib.isnan(c) is TRUE else c for c in x.cells], x.shape)
        if fn in ("nansum", "nanmean", "nanmax", "nanmin") and not kws and not rest:
            if all(e.lib.isnan(c) in (TRUE, FALSE) for c in x.cells):
                c = [c for c in x.cells if e.lib.isnan(c) is FALSE]
                return self.reduce(XA(c, (len(c),)), fn[3:], None) if c else NI
        return NI

    def prod(self, sh):
        p = 1
        for s in sh:
            p *= s
        return p

    def ufunc(self, u, m, args, kw):
        f = UFUNC[u]
        XA = self.XArr
        x = self.explicit(args[0])
        if m == "outer":
            y = self.explicit(args[1]) if len(args) > 1 else None
            if x is None or y is None or len(x.shape) != 1 or len(y.shape) != 1:
                return NI
            return self.arr([f(a, b) for a in x.cells for b in y.cells], (len(x.cells), len(y.cells)))
        if x is None:
            return NI
        ax = self.axis(kw.get("axis", args[1] if len(args) > 1 else ZERO), len(x.shape))
        if ax is NI or ax is None:
            return NI

        def acc(c):
            out = []
            for v in c:
                out.append((T.truth(v) if u in BOOLS else v) if not out else f(out[-1], v))
            return out
        if m == "accumulate":
            return self.along(x, ax, acc)
        runs = [list(x.cells)] if len(x.shape) == 1 else self.lines(x, ax)
        zero = {"add": ZERO, "multiply": ONE, "logical_and": TRUE, "logical_or": FALSE}.get(u)
        if any(not c for c in runs) and zero is None:
            return NI
        r = [acc(c)[-1] if c else zero for c in runs]
        return r[0] if len(x.shape) == 1 else XA(r, (len(r),))

    def matmul(self, x, y):
        XA = self.XArr
        dot = lambda a, b: T.add(ZERO, *[T.mul(p, q) for p, q in zip(a, b)])
        rows = [list(x.cells)] if len(x.shape) == 1 else self.lines(x, 1)
        cols = [list(y.cells)] if len(y.shape) == 1 else self.lines(y, 0)
        if rows and cols and len(rows[0]) != len(cols[0]):
            return self.e.err("valueerror", string("shape"))
        out = [dot(r, c) for r in rows for c in cols]
        if len(x.shape) == 1 and len(y.shape) == 1:
            return out[0]
        if len(x.shape) == 2 and len(y.shape) == 2:
            return self.arr(out, (len(rows), len(cols)))
        return self.arr(out, (len(out),))

    def scalar(self, v):
        return isinstance(v, N) and (v.op in ("num", "sum", "prod", "fn") or v.op == "sym" and v.args[1] in ("num", "int"))

    def interp(self, x, rest):
        """np.interp at constant points between constant nodes"""
        xp, fp = self.explicit(rest[0]), self.explicit(rest[1])
        if xp is None or fp is None or not all(T.is_num(c) for c in xp.cells + x.cells) or xp.shape != fp.shape or not xp.cells or len(rest) > 2:
            return NI
        p = [c.args[0] for c in xp.cells]
        if any(b <= a for a, b in zip(p, p[1:])):
            return NI
        out = []
        for c in x.cells:
            q = c.args[0]
            if q <= p[0]:
                out.append(fp.cells[0])
            elif q >= p[-1]:
                out.append(fp.cells[-1])
            else:
                i = max(j for j in range(len(p)) if p[j] <= q)
                w = (q - p[i]) / (p[i + 1] - p[i])
                out.append(T.add(fp.cells[i], T.scale(w, T.sub(fp.cells[i + 1], fp.cells[i]))) if w else fp.cells[i])
        return self.arr(out, x.shape)

    # -- methods of explicit arrays ---------------------------------------------
    def arr_more(self, a, name, args, kw):
        e = self.e
        XA = self.XArr
        n = len(a.cells)
        if name in ("tolist", "to_list"):
            if len(a.shape) == 1:
                return e.new_list(a.cells)
            return e.new_list([e.new_list(r) for r in self.lines(a, 1)])
        if name in ("flatten", "ravel") and not kw and not args:
            return XA(a.cells, (n,), a.b)
        if name == "squeeze":
            if args or kw:
                return NI
            sh = tuple(s for s in a.shape if s != 1)
            return XA(a.cells, sh, a.b) if sh else a.cells[0]
        if name in ("transpose", "T") and not args and not kw:
            return a if len(a.shape) == 1 else XA([c for r in self.lines(a, 0) for c in r], a.shape[::-1], a.b)
        if name == "item":
            i = self.ints(args[0]) if args else (0,)
            if i is not None and len(args) < 2 and (args or n == 1) and -n <= i[0] < n:
                return a.cells[i[0]]
            return NI
        if name == "copy":
            return e.alloc("arr", arr=a)
        if name == "reshape" and not kw:
            cs = self.ints(args[0] if len(args) == 1 else I.Tup(args))
            if cs and len(cs) <= 2:
                cs = list(cs)
                if -1 in cs:
                    p = 1
                    for c in cs:
                        p *= c if c != -1 else 1
                    if not p or n % p:
                        return NI
                    cs[cs.index(-1)] = n // p
                if self.prod(cs) == n:
                    return XA(a.cells, cs, a.b)
                return e.err("valueerror", string("shape"))
            return NI
        if name in ("prod", "cumprod", "cumsum", "argmax", "argmin", "argsort", "repeat", "dot", "nonzero", "searchsorted"):
            return self.numpy_more(name, [a] + args, kw, None)
        if name == "clip":
            return e.lib.np_clip([a] + args, kw)
        return NI

    # -- tables ------------------------------------------------------------------
    def flag(self, kw, k, d):
        v = kw.get(k, d)
        return v if v in (TRUE, FALSE) else None

    def ser_more(self, o, name, args, kw, node):
        e = self.e
        S = self.SerV
        isnan = e.lib.isnan
        cs = [self.cell(c) for c in o.cells]
        if name in ("isna", "isnull", "notna", "notnull") and not args and not kw:
            r = [isnan(c) for c in cs]
            return S(o.labels, [T.bnot(c) for c in r] if name.startswith("not") else r, o.name, True)
        if name == "dropna" and not args and not kw:
            r = [isnan(c) for c in cs]
            if all(c in (TRUE, FALSE) for c in r):
                p = [i for i, c in enumerate(r) if c is FALSE]
                return S([o.labels[i] for i in p], [o.cells[i] for i in p], o.name)
            return NI
        if name in ("diff", "shift") and not set(kw) - {"periods", "fill_value"}:
            k = self.ints(args[0] if args else kw.get("periods", ONE))
            if k is None:
                return NI
            k, fill = k[0], kw.get("fill_value", NAN)
            sh = [cs[i - k] if 0 <= i - k < len(cs) else fill for i in range(len(cs))]
            if name == "shift":
                return S(o.labels, sh, o.name)
            return S(o.labels, [NAN if b is NAN else T.sub(a, b) for a, b in zip(cs, sh)], o.name)
        if name in ("idxmax", "idxmin", "argmax", "argmin") and not args and not kw and cs and all(T.is_num(c) for c in cs):
            v = [c.args[0] for c in cs]
            i = v.index((max if name.endswith("max") else min)(v))
            return o.labels[i] if name.startswith("idx") else num(i)
        if name == "clip" and not set(kw) - {"lower", "upper"}:
            lo = args[0] if args else kw.get("lower", NONE)
            hi = args[1] if len(args) > 1 else kw.get("upper", NONE)
            return e.lib.np_clip([o, lo, hi], {})
        if name == "between" and not set(kw) - {"left", "right"} and len(args) + len(kw) == 2:
            lo = args[0] if args else kw["left"]
            hi = args[1] if len(args) > 1 else kw["right"]
            if isinstance(lo, N) and isinstance(hi, N):
                return S(o.labels, [T.band(T.le(lo, c), T.le(c, hi)) for c in cs], o.name, True)
        if name == "dot" and len(args) == 1:
            y = args[0]
            if isinstance(y, S) and set(y.labels) == set(o.labels):
                d = dict(zip(y.labels, y.cells))
                return T.add(ZERO, *[T.mul(c, self.cell(d[l])) for l, c in zip(o.labels, cs)])
            x = self.explicit(y) if not isinstance(y, S) else None
            if x is not None and x.shape == (len(cs),):
                return T.add(ZERO, *[T.mul(a, b) for a, b in zip(cs, x.cells)])
        if name == "pipe" and args:
            return e.call(args[0], [o] + args[1:], kw, node)
        if name == "prod" and not args and not kw:
            return T.mul(ONE, *cs)
        if name in ("head", "tail"):
            k = self.ints(args[0] if args else kw.get("n", num(5)))
            if k is not None and k[0] >= 0:
                p = list(range(len(cs)))
                p = p[:k[0]] if name == "head" else p[len(p) - min(k[0], len(p)):]
                return S([o.labels[i] for i in p], [o.cells[i] for i in p], o.name)
        if name == "sort_index" and not args and not set(kw) - {"ascending"}:
            asc = self.flag(kw, "ascending", TRUE)
            p = self.label_order(o.labels, asc)
            if p is not None:
                return S([o.labels[i] for i in p], [o.cells[i] for i in p], o.name)
        if name == "reset_index" and self.flag(kw, "drop", FALSE) is TRUE and not args and len(kw) == 1:
            return S([num(i) for i in range(len(cs))], o.cells, o.name)
        if name == "cumprod" and not args and not kw:
            out = []
            for c in cs:
                out.append(T.mul(out[-1], c) if out else c)
            return S(o.labels, out, o.name)
        if name == "round":
            return S(o.labels, [T.fn("round", c, *[a for a in args if isinstance(a, N)]) for c in cs], o.name)
        if name in ("agg", "aggregate") and len(args) == 1 and T.is_str(args[0]):
            return e.lib.method(o, args[0].args[0], [], kw, node)
        if name == "item" and len(cs) == 1:
            return o.cells[0]
        if name in ("eq", "ne", "lt", "le", "gt", "ge") and len(args) == 1 and not kw:
            c = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}[name]
            return e.compare(c(), o, args[0], node)
        if name in ("radd", "rmul", "rsub", "rdiv", "multiply", "divide", "subtract", "truediv", "pow") and len(args) == 1 and not kw:
            f = {"radd": T.add, "rmul": T.mul, "rsub": lambda a, b: T.sub(b, a), "rdiv": lambda a, b: T.div(b, a), "multiply": T.mul,
                 "divide": T.div, "subtract": T.sub, "truediv": T.div, "pow": T.power}[name]
            return e.elementwise(f, o, args[0])
        return NI

    def label_order(self, labels, asc):
        if asc is None:
            return None
        try:
            return sorted(range(len(labels)), key=lambda i: labels[i].args[0], reverse=asc is FALSE)
        except TypeError:
            return None

    def df_more(self, o, name, args, kw, node):
        e = self.e
        S = self.SerV
        idx = self.df_index(o)
        cs = self.cols(o)
        labels = idx.labels
        isnan = e.lib.isnan
        each = lambda f: self.make_df(idx, [(k, [f(self.cell(x)) for x in c]) for k, c in cs])
        if name == "pipe" and args:
            return e.call(args[0], [o] + args[1:], kw, node)
        if name in ("isna", "isnull", "notna", "notnull") and not args and not kw:
            return each(lambda c: T.bnot(isnan(c)) if name.startswith("not") else isnan(c))
        if name == "dropna" and not args and not set(kw) - {"how", "axis"}:
            how = kw.get("how", string("any"))
            ax = kw.get("axis", ZERO)
            m = [[isnan(self.cell(x)) for x in c] for _, c in cs]
            if not all(x in (TRUE, FALSE) for c in m for x in c) or how not in (string("any"), string("all")):
                return NI
            f = any if how is string("any") else all
            if ax in (ONE, string("columns")):
                return self.make_df(idx, [kc for kc, q in zip(cs, m) if not (q and f(x is TRUE for x in q))])
            if ax not in (ZERO, string("index")):
                return NI
            return self.rows(o, [i for i in range(len(labels)) if not (m and f(q[i] is TRUE for q in m))])
        if name == "apply" and args and isinstance(args[0], (I.FuncV, I.PartialV, I.BoundV, I.ExtV)) and not set(kw) - {"axis"}:
            ax = kw.get("axis", args[1] if len(args) > 1 else ZERO)
            if ax in (ONE, string("columns")):
                r = [e.call(args[0], [S([k for k, _ in cs], [c[i] for _, c in cs], l)], {}, node) for i, l in enumerate(labels)]
                if all(isinstance(x, N) for x in r):
                    return S(labels, r)
                if r and all(isinstance(x, S) and x.labels == r[0].labels for x in r):
                    return self.make_df(idx, [(k, [x.cells[j] for x in r]) for j, k in enumerate(r[0].labels)])
                return NI
            if ax in (ZERO, string("index")):
                r = [e.call(args[0], [S(labels, c, k)], {}, node) for k, c in cs]
                if all(isinstance(x, N) for x in r):
                    return S([k for k, _ in cs], r)
                if r and all(isinstance(x, S) and x.labels == labels for x in r):
                    return self.make_df(idx, [(k, x.cells) for (k, _), x in zip(cs, r)])
            return NI
        if name in ("applymap", "map") and len(args) == 1 and not kw:
            return each(lambda c: self.cell(e.call(args[0], [c], {}, node)))
        if name == "clip" and not set(kw) - {"lower", "upper"}:
            lo = args[0] if args else kw.get("lower", NONE)
            hi = args[1] if len(args) > 1 else kw.get("upper", NONE)
            return e.lib.np_clip([o, lo, hi], {})
        if name in ("cumsum", "cumprod", "diff", "shift", "round") and not set(kw) - {"periods"}:
            out = []
            for k, c in cs:
                s = self.ser_method(S(labels, c, k), name, args, kw, node)
                if not isinstance(s, S):
                    return NI
                out.append((k, s.cells))
            return self.make_df(idx, out) if name not in ("cumsum", "cumprod") or not args else NI
        if name in ("where", "mask") and args:
            other = args[1] if len(args) > 1 else kw.get("other", NAN)
            f = (lambda c, x, y: T.ite(T.truth(c), x, y)) if name == "where" else (lambda c, x, y: T.ite(T.truth(c), y, x))
            return self.df_elementwise(f, [args[0], o, other]) if self.is_df(args[0]) else NI
        if name in ("add_prefix", "add_suffix") and len(args) == 1 and T.is_str(args[0]) and not kw:
            p = args[0].args[0]
            return self.make_df(idx, [(e.lib.cat([string(p), e.lib.fmt(k, string(""))] if name == "add_prefix" else [e.lib.fmt(k, string("")), string(p)]), c) for k, c in cs])
        if name == "rename_axis" and not set(kw) - {"axis", "index"}:
            nm = args[0] if args else kw.get("index", NONE)
            if kw.get("axis", ZERO) in (ZERO, string("index")):
                return self.make_df(self.IdxV(labels, nm.args[0] if T.is_str(nm) else None), cs)
            return self.make_df(idx, cs)
        if name == "filter" and not args and set(kw) <= {"items", "axis", "like", "regex"} and kw.get("axis", ONE) in (ONE, string("columns")):
            if "items" in kw:
                kl = self.keylist(kw["items"])
                d = dict(cs)
                return NI if kl is None else self.make_df(idx, [(k, d[k]) for k in kl if k in d])
            pat = kw.get("like", kw.get("regex"))
            if T.is_str(pat):
                import re
                hit = (lambda s: pat.args[0] in s) if "like" in kw else (lambda s: re.search(pat.args[0], s))
                return self.make_df(idx, [(k, c) for k, c in cs if hit(str(e.lib.to_py(k)))])
            return NI
        if name == "truncate" and not args and not set(kw) - {"before", "after"}:
            lo, hi = kw.get("before", NONE), kw.get("after", NONE)
            p = self.lslice(I.SliceV(None if lo is NONE else lo, None if hi is NONE else hi, None), labels)
            return NI if p is None else self.rows(o, p)
        if name == "to_dict":
            how = args[0] if args else kw.get("orient", string("dict"))
            if len(args) + len(kw) > 1 or not T.is_str(how):
                return NI
            h = how.args[0]
            row = lambda i: e.new_dict([(k, c[i]) for k, c in cs])
            if h == "dict":
                return e.new_dict([(k, e.new_dict(list(zip(labels, c)))) for k, c in cs])
            if h == "list":
                return e.new_dict([(k, e.new_list(list(c))) for k, c in cs])
            if h == "series":
                return e.new_dict([(k, S(labels, c, k)) for k, c in cs])
            if h == "records":
                return e.new_list([row(i) for i in range(len(labels))])
            if h == "index":
                return e.new_dict([(l, row(i)) for i, l in enumerate(labels)])
            return NI
        if name == "xs" and len(args) == 1 and isconst(args[0]) and not set(kw) - {"axis"}:
            if kw.get("axis", ZERO) in (ONE, string("columns")):
                return self.df_get(o, args[0], node)
            return self.index_get("loc", o, args[0], node)
        if name == "join" and len(args) == 1 and not kw:
            y = args[0]
            if isinstance(y, S) and T.is_str(y.name):
                y = self.make_df(self.IdxV(y.labels), [(y.name, y.cells)])
            if self.is_df(y) and not {k for k, _ in self.cols(y)} & {k for k, _ in cs}:
                pos = {l: i for i, l in enumerate(self.df_index(y).labels)}
                return self.make_df(idx, cs + [(k, [c[pos[l]] if l in pos else NAN for l in labels]) for k, c in self.cols(y)])
            return NI
        if name == "sort_index" and not args and not set(kw) - {"axis", "ascending"}:
            asc = self.flag(kw, "ascending", TRUE)
            if kw.get("axis", ZERO) in (ONE, string("columns")):
                p = self.label_order([k for k, _ in cs], asc)
                return NI if p is None else self.make_df(idx, [cs[i] for i in p])
            p = self.label_order(labels, asc) if kw.get("axis", ZERO) in (ZERO, string("index")) else None
            return NI if p is None else self.rows(o, p)
        if name == "sort_values" and not set(kw) - {"by", "ascending"} and len(args) <= 1:
            k = args[0] if args else kw.get("by")
            c = dict(cs).get(k) if isinstance(k, N) else None
            p = self.label_order(list(c), self.flag(kw, "ascending", TRUE)) if c is not None and all(isconst(x) for x in c) else None
            return NI if p is None else self.rows(o, p)
        if name in ("radd", "rmul", "rsub", "truediv", "pow") and len(args) == 1 and not kw:
            f = {"radd": T.add, "rmul": T.mul, "rsub": lambda a, b: T.sub(b, a), "truediv": T.div, "pow": T.power}[name]
            return self.df_elementwise(f, [o, args[0]])
        if name == "prod":
            ax = self.ax(args, kw)
            if ax in (None, ZERO, string("index")):
                return S([k for k, _ in cs], [T.mul(ONE, *[self.cell(x) for x in c]) for _, c in cs])
            if ax in (ONE, string("columns")):
                return S(labels, [T.mul(ONE, *[self.cell(c[i]) for _, c in cs]) for i in range(len(labels))])
        if name in ("agg", "aggregate") and len(args) == 1 and T.is_str(args[0]):
            return e.lib.method(o, args[0].args[0], [], kw, node)
        if name in ("idxmax", "idxmin") and not args and not kw:
            r = [self.ser_more(S(labels, c, k), name, [], {}, node) for k, c in cs]
            return NI if any(x is NI for x in r) else S([k for k, _ in cs], r)
        if name in ("squeeze",) and not args and not kw:
            if len(cs) == 1 and len(labels) == 1:
                return cs[0][1][0]
            if len(cs) == 1:
                return S(labels, cs[0][1], cs[0][0])
            if len(labels) == 1:
                return S([k for k, _ in cs], [c[0] for _, c in cs], labels[0])
            return o
        if name == "isin" and len(args) == 1:
            kl = self.keylist(args[0])
            return NI if kl is None else each(lambda c: T.bor(*[T.eq(c, x) for x in kl]) if kl else FALSE)
        if name == "dot" and len(args) == 1:
            y = args[0]
            d = dict(zip(y.labels, y.cells)) if isinstance(y, S) else None
            if d is not None and set(d) == {k for k, _ in cs}:
                return S(labels, [T.add(ZERO, *[T.mul(self.cell(c[i]), self.cell(d[k])) for k, c in cs]) for i in range(len(labels))])
        return NI

    def pandas_more(self, fn, args, kw, node):
        e = self.e
        if fn == "concat":
            objs = args[0] if args else kw.get("objs")
            ax = args[1] if len(args) > 1 else kw.get("axis", ZERO)
            ax = {"columns": ONE, "index": ZERO}.get(ax.args[0], ax) if T.is_str(ax) else ax
            if isinstance(objs, I.Ref) and e.obj(objs).kind == "dict" and ax is ONE and not set(kw) - {"axis", "objs"}:
                ks = e.dict_keys(objs)
                if ks is not None and all(p is TRUE for _, p in ks):
                    vs = [e.read_item(objs, k) for k, _ in ks]
                    if all(isinstance(v, self.SerV) for v in vs):
                        return self.pandas("concat", [e.new_list([self.SerV(v.labels, v.cells, k) for (k, _), v in zip(ks, vs)])], {"axis": ONE}, node)
            el = e.lib.elems(objs) if not isinstance(objs, N) else None
            if el and ax is ZERO and all(isinstance(x, self.SerV) for x in el) and not set(kw) - {"axis", "objs", "ignore_index"}:
                c = [y for x in el for y in x.cells]
                lab = [y for x in el for y in x.labels]
                return self.SerV([num(i) for i in range(len(c))] if kw.get("ignore_index") is TRUE else lab, c)
            if el and not (isinstance(objs, I.Ref) and e.obj(objs).kind == "list") and not (isinstance(objs, I.Ref) and e.obj(objs).kind == "dict"):
                return self.pandas("concat", [e.new_list(el)] + args[1:], {k: v for k, v in kw.items() if k != "objs"}, node)
        if fn == "DataFrame.from_dict" and args:
            how = kw.get("orient", args[1] if len(args) > 1 else string("columns"))
            if how is string("columns") and not set(kw) - {"orient"}:
                return self.pandas("DataFrame", [args[0]], {}, node)
            if how is string("index") and isinstance(args[0], I.Ref) and e.obj(args[0]).kind == "dict":
                ks = e.dict_keys(args[0])
                if ks is None or any(p is not TRUE for _, p in ks):
                    return NI
                rows = [e.read_item(args[0], k) for k, _ in ks]
                if rows and all(isinstance(r, I.Ref) and e.obj(r).kind == "dict" for r in rows):
                    r = self.pandas("DataFrame", [e.new_list(rows)], {}, node)
                    return self.make_df(self.IdxV([k for k, _ in ks]), self.cols(r)) if self.is_df(r) else NI
                r = [self.xarr(x) if not isinstance(x, N) else None for x in rows]
                if not r or any(x is None or len(x.shape) != 1 or x.shape != r[0].shape for x in r):
                    return NI
                cl = self.keylist(kw["columns"]) if "columns" in kw else [num(j) for j in range(r[0].shape[0])]
                if cl is None or len(cl) != r[0].shape[0]:
                    return NI
                return self.make_df(self.IdxV([k for k, _ in ks]), [(c, [x.cells[j] for x in r]) for j, c in enumerate(cl)])
            return NI
        if fn == "DataFrame.from_records" and args and not kw:
            return self.pandas("DataFrame", [args[0]], {}, node)
        if fn == "DataFrame" and (args or "data" in kw):
            data = args[0] if args else kw["data"]
            el = e.lib.elems(data) if isinstance(data, I.Ref) and e.obj(data).kind == "list" else None
            if el and all(isinstance(r, I.Ref) and e.obj(r).kind == "dict" for r in el):
                names, rows = [], []
                for r in el:
                    ks = e.dict_keys(r)
                    if ks is None or any(p is not TRUE for _, p in ks):
                        return NI
                    names += [k for k, _ in ks if k not in names]
                    rows.append({k: e.read_item(r, k) for k, _ in ks})
                index, columns = kw.get("index", args[1] if len(args) > 1 else NONE), kw.get("columns", args[2] if len(args) > 2 else NONE)
                cl = names if columns is NONE else self.keylist(columns)
                il = [num(i) for i in range(len(el))] if index is NONE else self.keylist(index) or e.list_elems(index)
                if cl is None or il is None or len(il) != len(el):
                    return NI
                return self.make_df(self.IdxV(il), [(c, [self.cell(r[c]) if c in r else NAN for r in rows]) for c in cl])
        if fn == "Index" and args:
            kl = self.keylist(args[0]) if not isinstance(args[0], I.RangeV) else e.list_elems(args[0])
            nm = kw.get("name", NONE)
            return NI if kl is None else self.IdxV(kl, nm.args[0] if T.is_str(nm) else None)
        if fn == "RangeIndex" and args:
            b = [int(x.args[0]) if isinstance(x, N) and T.is_num(x) else None for x in args]
            nm = kw.get("name", NONE)
            if None in b or set(kw) - {"name"} or len(range(*b)) > 5000:
                return NI
            return self.IdxV([num(i) for i in range(*b)], nm.args[0] if T.is_str(nm) else None)
        if fn == "to_numeric" and len(args) == 1 and isinstance(args[0], self.SerV) and all(isinstance(c, N) and c.op in ("num", "sym", "sum", "prod") for c in args[0].cells):
            return args[0]
        if fn in ("isna", "isnull", "notna", "notnull") and args:
            if isinstance(args[0], N):
                r = e.lib.isnan(args[0])
                r = TRUE if args[0] is NONE else r
                return T.bnot(r) if fn.startswith("not") else r
            return e.lib.method(args[0], fn, [], {}, node)
        if fn == "merge" and len(args) == 2 and set(kw) <= {"left_index", "right_index", "how"} and kw.get("left_index") is TRUE and kw.get("right_index") is TRUE:
            x, y = args
            how = kw.get("how", string("inner"))
            if self.is_df(x) and self.is_df(y) and how in (string("inner"), string("left")):
                cx, cy = self.cols(x), self.cols(y)
                both = {k for k, _ in cx} & {k for k, _ in cy}
                if not all(T.is_str(k) for k in both):
                    return NI
                sx = [(string(k.args[0] + "_x") if k in both else k, c) for k, c in cx]
                sy = [(string(k.args[0] + "_y") if k in both else k, c) for k, c in cy]
                lx, ly = list(self.df_index(x).labels), list(self.df_index(y).labels)
                lab = lx if how is string("left") else [l for l in lx if l in ly]
                px, py = {l: i for i, l in enumerate(lx)}, {l: i for i, l in enumerate(ly)}
                return self.make_df(self.IdxV(lab), [(k, [c[px[l]] for l in lab]) for k, c in sx] + [(k, [c[py[l]] if l in py else NAN for l in lab]) for k, c in sy])
        return NI
