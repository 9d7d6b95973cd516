"""Hash-consed value graph (the abstract domain) and its interpretation.

A *node* names a value computed by the analysed program as a function of the
unknown inputs.  Nodes are built once per structure (global value numbering),
kept in a light linear normal form, and never enumerate program paths: a join
point becomes an `ite` node.  Two nodes are compared first by identity of their
normal form and, when these differ, by random interpretation (Gulwani & Necula):
each is evaluated under the same valuations of the free symbols.
"""
import math
import random
import re
import zlib
from fractions import Fraction

_TABLE = {}


class N:
    __slots__ = ("op", "args", "_h", "_free", "uid")
    count = 0

    def __repr__(self):
        return show(self)


def mk(op, *args):
    k = (op, args)
    n = _TABLE.get(k)
    if n is None:
        n = N()
        n.op = op
        n.args = args
        n._h = hash(k)
        n._free = None
        N.count += 1
        n.uid = N.count
        _TABLE[k] = n
    return n


def children(n):
    op = n.op
    if op == "sum":
        return [x for _, x in n.args[1]]
    if op == "prod":
        return [x for x, _ in n.args[0]]
    return [a for a in n.args if isinstance(a, N)]


def frees(n):
    """set of leaf sym nodes"""
    if n._free is not None:
        return n._free
    stack = [n]
    while stack:
        x = stack[-1]
        if x._free is not None:
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c._free is None]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        s = frozenset().union(*[c._free for c in ch]) if ch else frozenset()
        if x.op == "sym":
            s = frozenset([x])
        elif x.op == "sumover":
            s = s - {x.args[2]}
        elif x.op == "lam":
            s = s - set(x.args[2])
        elif x.op == "loop":
            ms = x.args[4]
            s = s - {x.args[2]} - set(ms.args[0])
        x._free = s
    return n._free


def walk(n, seen=None):
    seen = set() if seen is None else seen
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
    return seen


# ---- constructors -------------------------------------------------------
def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return mk("num", Fraction(x))
    if isinstance(x, Fraction):
        return mk("num", x)
    if isinstance(x, float):
        if math.isnan(x):
            return mk("special", "nan")
        if math.isinf(x):
            return mk("special", "inf" if x > 0 else "-inf")
        return mk("num", Fraction(repr(x)))
    raise TypeError(x)


TRUE = mk("num", Fraction(1))
FALSE = mk("num", Fraction(0))
ONE, ZERO = TRUE, FALSE
NONE = mk("none")
MISSING = mk("missing")


def string(s):
    return mk("str", s)


def sym(name, kind="num"):
    return mk("sym", name, kind)


IX = [sym("$ix%d" % i, "int") for i in range(3)]


def is_num(n):
    return isinstance(n, N) and n.op == "num"


def is_str(n):
    return isinstance(n, N) and n.op == "str"


def is_const(n):
    return isinstance(n, N) and n.op in ("num", "str", "none", "special")


def _lin(n):
    """node -> (const, {node: coef})"""
    if n.op == "num":
        return n.args[0], {}
    if n.op == "sum":
        return n.args[0], {x: c for c, x in n.args[1]}
    if n.op == "prod" and len(n.args) > 1 and n.args[1] != 1:
        return Fraction(0), {mk("prod", n.args[0], Fraction(1)): n.args[1]}
    return Fraction(0), {n: Fraction(1)}


def _unlin(c, d):
    d = {x: k for x, k in d.items() if k != 0}
    if not d:
        return mk("num", c)
    if c == 0 and len(d) == 1:
        (x, k), = d.items()
        if k == 1:
            return x
        if x.op == "prod":
            return mk("prod", x.args[0], x.args[1] * k)
    items = tuple(sorted(((k, x) for x, k in d.items()), key=lambda t: t[1].uid))
    return mk("sum", c, items)


def add(*xs):
    c = Fraction(0)
    d = {}
    for x in xs:
        cc, dd = _lin(x)
        c += cc
        for k, v in dd.items():
            d[k] = d.get(k, 0) + v
    return _unlin(c, d)


def scale(k, x):
    k = Fraction(k)
    c, d = _lin(x)
    return _unlin(c * k, {n: v * k for n, v in d.items()})


def neg(x):
    return scale(-1, x)


def sub(a, b):
    return add(a, neg(b))


def _facs(n):
    if n.op == "num":
        return n.args[0], {}
    if n.op == "prod":
        return n.args[1], {x: e for x, e in n.args[0]}
    if n.op == "sum" and n.args[0] == 0 and len(n.args[1]) == 1:
        k, x = n.args[1][0]
        kk, d = _facs(x)
        return k * kk, d
    if n.op == "sum":
        # canonical scaling: leading coefficient 1
        k = n.args[1][0][0]
        if k != 1:
            return k, {scale(Fraction(1) / k, n): Fraction(1)}
    return Fraction(1), {n: Fraction(1)}


def _unfacs(k, d):
    d = {x: e for x, e in d.items() if e != 0}
    if k == 0:
        return ZERO
    if not d:
        return mk("num", k)
    if len(d) == 1:
        (x, e), = d.items()
        if e == 1:
            return scale(k, x)
    items = tuple(sorted(d.items(), key=lambda t: t[0].uid))
    return mk("prod", items, k)


def mul(*xs):
    k = Fraction(1)
    d = {}
    for x in xs:
        kk, dd = _facs(x)
        k *= kk
        if k == 0:
            return ZERO
        for n, e in dd.items():
            d[n] = d.get(n, 0) + e
    return _unfacs(k, d)


def power(a, b):
    if is_num(b):
        e = b.args[0]
        if e == 0:
            return ONE
        if e == 1:
            return a
        if is_num(a):
            if a.args[0] == 0:
                return ZERO if e > 0 else mk("special", "nan")
            if e.denominator == 1 and abs(e) < 200:
                return mk("num", a.args[0] ** int(e))
            try:
                return num(float(a.args[0]) ** float(e))
            except Exception:
                return mk("special", "nan")
        k, d = _facs(a)
        if e.denominator == 1:
            return _unfacs(k ** int(e), {n: x * e for n, x in d.items()})
        if len(d) == 1 and k == 1:
            (x, xe), = d.items()
            if xe.denominator == 1 and xe.numerator % 2 == 0:
                return mk("fn", "pow", a, b)
            return _unfacs(Fraction(1), {x: xe * e})
        return mk("fn", "pow", a, b)
    return mk("fn", "pow", a, b)


def div(a, b):
    if is_num(b) and b.args[0] == 0:
        return mk("special", "nan")
    return mul(a, power(b, num(-1)))


BOOLOPS = {"lt", "eq", "not", "and", "or", "has", "isnone", "in", "isinst", "exists"}


def is_bool(n):
    return n.op in BOOLOPS or (n.op == "sym" and n.args[1] == "bool") or n in (TRUE, FALSE)


def truth(n):
    """python truthiness of a scalar node"""
    if n.op == "num":
        return TRUE if n.args[0] != 0 else FALSE
    if n.op == "str":
        return TRUE if n.args[0] else FALSE
    if n.op == "none":
        return FALSE
    if is_bool(n):
        return n
    if n.op == "ite":
        return ite(n.args[0], truth(n.args[1]), truth(n.args[2]))
    if n.op in ("sum", "prod"):
        return bnot(eq(n, ZERO))
    return mk("truth", n)


BOOLOPS.add("truth")


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def band(*xs):
    s = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                if y not in s:
                    s.append(y)
        elif x not in s:
            s.append(x)
    for y in s:
        if bnot(y) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("and", *sorted(s, key=lambda t: t.uid))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


INF = mk("special", "inf")


def lt0(x):
    """x < 0"""
    if is_num(x):
        return TRUE if x.args[0] < 0 else FALSE
    if x.op == "ite":
        return ite(x.args[0], lt0(x.args[1]), lt0(x.args[2]))
    if x.op in ("sum", "special"):
        d = _lin(x)[1]
        if INF in d and all(n is INF or n.op in ("sym", "item") for n in d):
            return TRUE if d[INF] < 0 else FALSE
    if x.op == "sum":
        k = abs(x.args[1][0][0])
        if k != 1:
            x = scale(Fraction(1) / k, x)
    return mk("lt", x)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return bnot(lt(b, a))


NUMLIKE = {"num", "sum", "prod"}


def maybe_num(n):
    return n.op not in ("str", "none") and not (n.op == "sym" and n.args[1] in ("str",))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "missing" or b.op == "missing":
        return FALSE
    if is_const(a) and is_const(b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and is_const(y):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
        if x.op == "none" and (y.op in ("num", "sum", "prod", "str", "fn") or (y.op == "sym" and y.args[1] in ("num", "int", "str", "bool"))):
            return FALSE
        if x.op == "str" and (y.op in ("sum", "prod", "num", "fn") or (y.op == "sym" and y.args[1] in ("num", "int", "bool"))):
            return FALSE
    if maybe_num(a) and maybe_num(b):
        d = sub(a, b)
        if is_num(d):
            return TRUE if d.args[0] == 0 else FALSE
    if a.uid > b.uid:
        a, b = b, a
    return mk("eq", a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        if b is FALSE:
            return band(c, a)
        if a is FALSE:
            return band(bnot(c), b)
        if a is TRUE:
            return bor(c, b)
        if b is TRUE:
            return bor(bnot(c), a)
    return mk("ite", c, a, b)


MATH1 = {
    "exp": math.exp, "log": math.log, "abs": abs, "floor": math.floor, "ceil": math.ceil,
    "sign": lambda x: (x > 0) - (x < 0), "sqrt": math.sqrt,
    "sin": math.sin, "cos": math.cos, "tanh": math.tanh, "int": lambda x: math.trunc(x),
    "round": round, "log10": math.log10, "log2": math.log2, "log1p": math.log1p, "expm1": math.expm1,
}


def fn(name, *args):
    if name == "sqrt":
        return power(args[0], num(Fraction(1, 2)))
    if name == "square":
        return mul(args[0], args[0])
    if name == "exp" and args[0] is ZERO:
        return ONE
    if name == "log" and args[0] is ONE:
        return ZERO
    if len(args) == 1 and name in MATH1 and is_num(args[0]):
        try:
            if name == "abs":
                return num(abs(args[0].args[0]))
            if name in ("floor", "ceil", "int", "sign"):
                return num(int(MATH1[name](args[0].args[0])))
            return num(float(MATH1[name](float(args[0].args[0]))))
        except Exception:
            return mk("special", "nan")
    if name == "int" and args[0].op == "sym" and args[0].args[1] == "int":
        return args[0]
    if name in ("max", "min"):
        if all(is_num(a) for a in args):
            v = [a.args[0] for a in args]
            return num(max(v) if name == "max" else min(v))
        flat = []
        for a in args:
            for b in (a.args[1:] if a.op == "fn" and a.args[0] == name else [a]):
                if b not in flat:
                    flat.append(b)
        if len(flat) == 1:
            return flat[0]
        return mk("fn", name, *sorted(flat, key=lambda t: t.uid))
    if name == "mod" or name == "floordiv":
        a, b = args
        if is_num(a) and is_num(b) and b.args[0] != 0:
            q = a.args[0] // b.args[0]
            return num(Fraction(q)) if name == "floordiv" else num(a.args[0] - q * b.args[0])
    return mk("fn", name, *args)


def app(name, *args):
    return mk("app", name, *args)


def item(o, k):
    return mk("item", o, k)


def attr(o, name):
    return mk("attr", o, name)


def sumover(dom, n_or_obj, var, body):
    """dom 'range': sum var=0..n-1 ; dom 'keys': over elements of obj"""
    if body is ZERO:
        return ZERO
    if dom == "range" and is_num(n_or_obj) and n_or_obj.args[0] <= 12 and n_or_obj.args[0].denominator == 1:
        return add(ZERO, *[subst(body, {var: num(i)}) for i in range(int(n_or_obj.args[0]))])
    # linear splitting with var-free factors pulled out
    c, d = _lin(body)
    if len(d) + (c != 0) > 1:
        parts = [sumover(dom, n_or_obj, var, scale(k, x)) for x, k in d.items()]
        if c != 0:
            parts.append(sumover(dom, n_or_obj, var, mk("num", c)))
        return add(*parts)
    if var not in frees(body):
        cnt = n_or_obj if dom == "range" else mk("len", n_or_obj)
        return mul(cnt, body)
    k, fs = _facs(body)
    out = mk("num", k)
    inn = ONE
    for x, e in fs.items():
        if var in frees(x):
            inn = mul(inn, _unfacs(Fraction(1), {x: e}))
        else:
            out = mul(out, _unfacs(Fraction(1), {x: e}))
    bv = sym("$b%d" % depth(inn), "int" if dom == "range" else "obj")
    if bv is not var:
        inn = subst(inn, {var: bv})
    return mul(out, mk("sumover", dom, n_or_obj, bv, inn))


def depth(n):
    m = 0
    for x in walk(n):
        if x.op == "sumover" and x.args[2].args[0].startswith("$b"):
            m = max(m, int(x.args[2].args[0][2:]) + 1)
    return m


def rebuild(op, n, f):
    """rebuild node n with children mapped by f, via smart constructors"""
    if op == "sum":
        return add(mk("num", n.args[0]), *[scale(k, f(x)) for k, x in n.args[1]])
    if op == "prod":
        r = mk("num", n.args[1])
        for x, e in n.args[0]:
            r = mul(r, power(f(x), mk("num", e)))
        return r
    if op == "ite":
        return ite(f(n.args[0]), f(n.args[1]), f(n.args[2]))
    if op == "lt":
        return lt0(f(n.args[0]))
    if op == "eq":
        return eq(f(n.args[0]), f(n.args[1]))
    if op == "not":
        return bnot(f(n.args[0]))
    if op == "and":
        return band(*[f(a) for a in n.args])
    if op == "truth":
        return truth(f(n.args[0]))
    if op == "in":
        return member(f(n.args[0]), n.args[1])
    if op == "isnone":
        return isnone(f(n.args[0]))
    if op == "fn":
        return fn(n.args[0], *[f(a) for a in n.args[1:]]) if n.args[0] != "pow" else power(f(n.args[1]), f(n.args[2]))
    if op == "loop":
        kind, dom, var, tgt, ms = n.args
        return mk("loop", kind, f(dom), var, tgt, mk("muset", ms.args[0], *[f(x) for x in ms.args[1:]]))
    if op == "sumover":
        return sumover(n.args[0], f(n.args[1]), n.args[2], f(n.args[3]))
    return mk(op, *[f(a) if isinstance(a, N) else a for a in n.args])


def subst(n, m):
    keys = set(m)
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        if not (frees(x) & keys) and not any(k.op != "sym" for k in keys):
            return x
        r = memo.get(x)
        if r is None:
            if not children(x):
                r = x
            else:
                r = rebuild(x.op, x, go)
            memo[x] = r
        return r

    return go(n)


def isnone(x):
    if x.op == "none":
        return TRUE
    if x.op in ("num", "str", "sum", "prod", "fn") or is_bool(x):
        return FALSE
    if x.op == "sym" and x.args[1] != "obj" and x.args[1] != "any":
        return FALSE
    if x.op == "ite":
        return ite(x.args[0], isnone(x.args[1]), isnone(x.args[2]))
    return mk("isnone", x)


def member(x, consts):
    """x in a finite set of constant nodes (tuple)"""
    if x in consts:
        return TRUE
    if is_const(x):
        return FALSE
    if x.op == "ite":
        return ite(x.args[0], member(x.args[1], consts), member(x.args[2], consts))
    if len(consts) == 1:
        return eq(x, consts[0])
    if not consts:
        return FALSE
    return mk("in", x, tuple(sorted(consts, key=lambda t: t.uid)))


# ---- printing -----------------------------------------------------------
def show(n, depth_=6):
    if not isinstance(n, N):
        return str(n)
    if depth_ <= 0:
        return "…"
    s = lambda x: show(x, depth_ - 1)
    op, a = n.op, n.args
    if op == "num":
        f = a[0]
        return str(f) if f.denominator == 1 else repr(float(f))
    if op == "str":
        return repr(a[0])
    if op == "sym":
        return a[0]
    if op == "none":
        return "None"
    if op == "sum":
        t = []
        for k, x in a[1]:
            ks = "" if k == 1 else ("-" if k == -1 else (str(k) if k.denominator == 1 else "%.6g" % float(k)) + "*")
            t.append(ks + s(x))
        if a[0] != 0:
            t.append(s(mk("num", a[0])))
        return "(" + " + ".join(t) + ")"
    if op == "prod":
        t = [] if a[1] == 1 else [s(mk("num", a[1]))]
        for x, e in a[0]:
            t.append(s(x) + ("" if e == 1 else "^%s" % (e,)))
        return "*".join(t)
    if op == "item":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(map(s, a))
    if op == "lt":
        return "(%s<0)" % s(a[0])
    if op == "eq":
        return "(%s==%s)" % (s(a[0]), s(a[1]))
    if op in ("fn", "app"):
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, N) else repr(x) if not isinstance(x, tuple) else "{" + ",".join(show(y, 2) for y in x) + "}" for x in a))


# ---- random interpretation ----------------------------------------------
class Undefined(Exception):
    pass


def _h(tok, seed):
    return zlib.crc32(repr((tok, seed)).encode()) / 4294967296.0


def rkey(v):
    if isinstance(v, float):
        return float("%.9g" % v) if v != int(v) or abs(v) > 1e15 else int(v)
    if isinstance(v, tuple):
        return tuple(rkey(x) for x in v)
    if isinstance(v, (ArrFn, DictVal)):
        return repr(v)
    return v


class ArrFn:
    """array value as a function of its index (lazy)"""
    n = 0

    def __init__(self, val, lam, bound):
        self.val, self.lam, self.bnd, self.memo = val, lam, bound, {}
        ArrFn.n += 1
        self.id = ArrFn.n

    def __call__(self, *idx):
        idx = tuple(int(i) if i == int(i) else i for i in idx)
        if idx not in self.memo:
            saved = self.val.bound
            self.val.bound = dict(self.bnd)
            for b, i in zip(self.lam.args[2], idx):
                self.val.bound[b] = i
            try:
                self.memo[idx] = self.val.ev(self.lam.args[0])
            finally:
                self.val.bound = saved
        return self.memo[idx]

    def __repr__(self):
        out = []
        for i in (0, 1, 2, 3, 5):
            try:
                out.append(rkey(self(*([i] * len(self.lam.args[2])))))
            except Undefined:
                out.append("undef")
        return "ArrFn%r" % (out,)

    def __lt__(self, o):
        return self.id < o.id


class DictVal:
    def __init__(self, pairs, val):
        self.bnd = dict(val.bound)
        self.val = val
        self.pairs = pairs

    def get(self, k):
        for kk, v in self.pairs:
            if kk == k:
                saved = self.val.bound
                self.val.bound = dict(self.bnd)
                try:
                    return self.val.ev(v)
                finally:
                    self.val.bound = saved
        raise Undefined("missing key")

    def has(self, k):
        return any(kk == k for kk, _ in self.pairs)

    def __repr__(self):
        out = []
        for k, _ in self.pairs:
            try:
                out.append((k, rkey(self.get(k))))
            except Undefined:
                out.append((k, "undef"))
        return "DictVal%r" % (out,)

    def __lt__(self, o):
        return id(self) < id(o)


REFS = {}


def ref(name, f, *deps):
    """Term interpreted by a Python callable f(valuation, *deps): the oracle
    side of an obligation (never built from the analysed source)."""
    key = "oracle:%s#%d" % (name, len(REFS))
    REFS[key] = f
    return app(key, *deps)


class Valuation:
    """One interpretation of the free symbols."""

    def __init__(self, seed, fixed=None, lens=None):
        self.seed = seed
        self.fixed = dict(fixed or {})
        self.memo = {}
        self.bound = {}

    def fixed_items(self):
        fi = self.__dict__.get("_fi")
        if fi is None:
            fi = self._fi = {}
            for t, v in self.fixed.items():
                if t.op == "item":
                    fi[("item", rkey(self.ev(t.args[0])), rkey(self.ev(t.args[1])))] = v
        return fi

    def asnum(self, v):
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, tuple):
            return 0.5 + 1.5 * _h(v, self.seed)
        raise Undefined("non-numeric %r" % (v,))

    def ev(self, n):
        if not self.bound or not (frees(n) & self.bound.keys()):
            r = self.memo.get(n)
            if r is None:
                r = self._ev(n)
                self.memo[n] = r
            return r
        key = (n, tuple(sorted(((b.uid, self.bound[b]) for b in frees(n) & self.bound.keys()))))
        r = self.memo.get(key)
        if r is None:
            r = self._ev(n)
            self.memo[key] = r
        return r

    def num(self, n):
        return self.asnum(self.ev(n))

    def _ev(self, n):
        op, a = n.op, n.args
        if op == "num":
            f = a[0]
            return int(f) if f.denominator == 1 else float(f)
        if op == "str":
            return a[0]
        if op == "none":
            return None
        if op == "special":
            raise Undefined(a[0])
        if op == "missing":
            raise Undefined("missing")
        if op == "sym":
            if n in self.bound:
                return self.bound[n]
            if n in self.fixed:
                return self.fixed[n]
            k = a[1]
            if k == "bool":
                return int(_h(a[0], self.seed) < 0.5)
            if k == "int":
                return 3 + int(_h(a[0], self.seed) * 37)
            return ("s", a[0])
        if op == "sum":
            r = float(a[0]) if a[0].denominator != 1 else int(a[0])
            for k, x in a[1]:
                v = self.num(x)
                r = r + (int(k) if k.denominator == 1 else float(k)) * v
            return r
        if op == "prod":
            r = int(a[1]) if a[1].denominator == 1 else float(a[1])
            zero = False
            for x, e in a[0]:
                v = self.num(x)
                if v == 0 and e < 0:
                    raise Undefined("div0")
                if v < 0 and e.denominator != 1:
                    raise Undefined("neg root")
                if v == 0:
                    zero = True
                if e == 1:
                    r = r * v
                else:
                    try:
                        r = r * (float(v) ** (int(e) if e.denominator == 1 else float(e)))
                    except (OverflowError, ZeroDivisionError):
                        raise Undefined("range")
            return 0 if zero else r
        if op == "ite":
            return self.ev(a[1]) if self.truthy(a[0]) else self.ev(a[2])
        if op == "lt":
            return int(self.num(a[0]) < 0)
        if op == "eq":
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, tuple) and isinstance(y, (int, float)):
                x = self.asnum(x)
            if isinstance(y, tuple) and isinstance(x, (int, float)):
                y = self.asnum(y)
            return int(x == y)
        if op == "not":
            return int(not self.truthy(a[0]))
        if op == "and":
            return int(all(self.truthy(x) for x in a))
        if op == "truth":
            v = self.ev(a[0])
            if isinstance(v, tuple):
                return int(_h(("truth", rkey(v)), self.seed) < 0.5)
            return int(bool(v))
        if op == "in":
            v = self.ev(a[0])
            return int(any(self.ev(c) == v for c in a[1]))
        if op == "isnone":
            v = self.ev(a[0])
            if v is None:
                return 1
            if isinstance(v, tuple):
                return int(_h(("isnone", rkey(v)), self.seed) < 0.35)
            return 0
        if op == "has":
            o, k = self.ev(a[0]), self.ev(a[1])
            if isinstance(o, DictVal):
                return int(o.has(k))
            if isinstance(k, tuple) and k[0] == "el" and k[1] == rkey(o):
                return 1
        if op in ("has", "isinst", "exists"):
            t = (op,) + tuple(rkey(self.ev(x)) if isinstance(x, N) else x for x in a)
            return int(_h(t, self.seed) < 0.5)
        if op == "fn":
            return self.fn(a[0], a[1:])
        if op == "sumover":
            dom, o, bv, body = a
            if dom == "range":
                m = self.num(o)
                if m != int(m) or m > 3000:
                    raise Undefined("range")
                vals = range(max(0, int(m)))
            else:
                t = rkey(self.ev(o))
                vals = [("el", t, j) for j in range(3)]
            old = self.bound.get(bv)
            s = 0
            for v in vals:
                self.bound[bv] = v
                s += self.num(body)
            if old is None:
                self.bound.pop(bv, None)
            else:
                self.bound[bv] = old
            return s
        if op == "loop":
            return self.loop(n)
        if op == "dictsnap":
            ks = a[0::2]
            return DictVal([(self.ev(k), v) for k, v in zip(ks, a[1::2])], self)
        if op == "item":
            o = self.ev(a[0])
            if isinstance(o, ArrFn):
                return o(self.num(a[1]))
            k = self.ev(a[1])
            if isinstance(o, DictVal):
                return o.get(k)
            r = ("item", rkey(o), rkey(k))
            fi = self.fixed_items()
            if fi and r in fi:
                return fi[r]
            return r
        if op == "lam":
            content, length, ixs = a
            pts = []
            L = None
            if isinstance(length, N):
                try:
                    L = self.num(length)
                except Undefined:
                    L = None
            cand = [0, 1, 2, 3, 5]
            if L is not None and L == int(L):
                L = int(L)
                cand = sorted({c for c in cand + [L - 2, L - 1] if 0 <= c < L})
            saved = {b: self.bound.get(b) for b in ixs}
            for c in cand:
                for j, b in enumerate(ixs):
                    self.bound[b] = c + j
                try:
                    v = self.ev(content)
                    v = rkey(v)
                except Undefined:
                    v = "undef"
                pts.append(v)
            for b, o in saved.items():
                if o is None:
                    self.bound.pop(b, None)
                else:
                    self.bound[b] = o
            if isinstance(L, int):
                pts.append(("len", L))
            return ("lam", tuple(pts))
        if op == "app" and a[0] == "solve_banded":
            return self.banded(a[1:])
        if op == "app" and a[0].startswith("oracle:"):
            return REFS[a[0]](self, *a[1:])
        # uninterpreted
        t = (op,) + tuple(rkey(self.ev(x)) if isinstance(x, N) else x if not isinstance(x, tuple) else tuple(rkey(self.ev(y)) if isinstance(y, N) else y for y in x) for x in a)
        return t

    def banded(self, a):
        """interpretation of solve_banded((1,1), ab, d)[i] as the solution of
        the tridiagonal system (evaluated per index)"""
        _, ab, d, n, ix = a
        m = self.num(n)
        if m != int(m) or not 1 <= m <= 400 or ab.op != "lam" or d.op != "lam" or len(ab.args[2]) != 2:
            raise Undefined("banded")
        m = int(m)
        fr = (frees(ab) | frees(d)) & self.bound.keys()
        key = ("banded", ab, d, m, tuple(sorted((b.uid, rkey(self.bound[b])) for b in fr)))
        sol = self.memo.get(key)
        if sol is None:
            A, D = ArrFn(self, ab, dict(self.bound)), ArrFn(self, d, dict(self.bound))
            up = [self.asnum(A(0, j)) for j in range(1, m)]
            di = [float(self.asnum(A(1, j))) for j in range(m)]
            lo = [self.asnum(A(2, j)) for j in range(m - 1)]
            rhs = [float(self.asnum(D(j))) for j in range(m)]
            for j in range(1, m):
                if di[j - 1] == 0:
                    raise Undefined("banded pivot")
                w = lo[j - 1] / di[j - 1]
                di[j] -= w * up[j - 1]
                rhs[j] -= w * rhs[j - 1]
            if di[m - 1] == 0:
                raise Undefined("banded pivot")
            sol = [0.0] * m
            sol[m - 1] = rhs[m - 1] / di[m - 1]
            for j in range(m - 2, -1, -1):
                sol[j] = (rhs[j] - up[j] * sol[j + 1]) / di[j]
            self.memo[key] = sol
        i = self.num(ix)
        if i != int(i) or not 0 <= int(i) < m:
            raise Undefined("banded index")
        return sol[int(i)]

    def loop(self, n):
        kind, dom, var, tgt, ms = n.args
        mus = ms.args[0]
        k = len(mus)
        inits, steps = ms.args[1:1 + k], ms.args[1 + k:1 + 2 * k]
        ckey = None
        rel = (frees(n) | frees(dom)) & self.bound.keys() - {var} - set(mus)
        try:
            ckey = ("loopres", kind, dom, var, ms, tuple(sorted(((b.uid, self.bound[b]) for b in rel), key=lambda q: q[0])))
            if ckey in self.memo:
                return self.memo[ckey][mus.index(tgt)]
        except TypeError:
            ckey = None
        saved = {b: self.bound.get(b) for b in (var,) + mus}
        try:
            cur = [self.muval(x) for x in inits]
            if kind == "while":
                it = None
            elif kind == "range":
                m = self.num(dom)
                if m != int(m) or m > 400:
                    raise Undefined("range")
                it = range(max(0, int(m)))
            else:
                t = rkey(self.ev(dom))
                it = [("el", t, j) for j in range(3)]
            cnt = 0
            while True:
                for b, v in zip(mus, cur):
                    self.bound[b] = v
                if it is None:
                    if cnt > 300:
                        raise Undefined("while bound")
                    if not self.truthy(dom):
                        break
                    self.bound[var] = cnt
                else:
                    if cnt >= len(it):
                        break
                    self.bound[var] = it[cnt]
                cur = [self.muval(x, cnt) for x in steps]
                cnt += 1
            if ckey is not None:
                self.memo[ckey] = cur
            return cur[mus.index(tgt)]
        finally:
            for b, o in saved.items():
                if o is None:
                    self.bound.pop(b, None)
                else:
                    self.bound[b] = o

    def muval(self, x, cnt=-1):
        if x.op == "lam":
            return ArrFn(self, x, dict(self.bound))
        return self.ev(x)

    def truthy(self, n):
        v = self.ev(n)
        if isinstance(v, tuple):
            return _h(("truth", rkey(v)), self.seed) < 0.5
        return bool(v)

    def fn(self, name, args):
        try:
            if name == "strslice":
                v = self.ev(args[0])
                if not isinstance(v, str):
                    return ("strslice", rkey(v)) + tuple(self.ev(x) for x in args[1:])
                lo, hi = self.ev(args[1]), self.ev(args[2])
                return v[lo:hi]
            if name in ("startswith", "endswith", "substr"):
                v, w = self.ev(args[0]), self.ev(args[1])
                if isinstance(v, str) and isinstance(w, str):
                    return int({"startswith": v.startswith(w), "endswith": v.endswith(w), "substr": w in v}[name])
                return int(_h((name, rkey(v), rkey(w)), self.seed) < 0.5)
            vs = [self.num(x) for x in args]
            if name == "pow":
                if vs[0] < 0 and vs[1] != int(vs[1]):
                    raise Undefined("neg pow")
                return float(vs[0]) ** vs[1]
            if name == "max":
                return max(vs)
            if name == "min":
                return min(vs)
            if name == "mod":
                return vs[0] % vs[1]
            if name == "floordiv":
                return vs[0] // vs[1]
            if name in MATH1:
                return MATH1[name](vs[0])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undefined(name)
        return ("fn", name) + tuple(rkey(v) for v in vs)


def close(x, y, tol=1e-7):
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x == y
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def comparisons(n, limit=400):
    out = []
    for x in walk(n):
        if x.op == "lt":
            out.append(x.args[0])
        elif x.op == "eq" and maybe_num(x.args[0]) and maybe_num(x.args[1]):
            out.append(sub(x.args[0], x.args[1]))
    return sorted(set(out), key=lambda t: t.uid)[:limit]


def compare_nodes(ns, limit=2000):
    """[(expression, 'lt' | 'eq')] of the numeric comparisons inside the terms"""
    out, seen = {}, set()
    for n in ns:
        walk(n, seen)
    for x in seen:
        if x.op == "lt":
            out[(x.args[0], "lt")] = 1
        elif x.op == "eq" and maybe_num(x.args[0]) and maybe_num(x.args[1]):
            out[(sub(x.args[0], x.args[1]), "eq")] = 1
        elif x.op == "fn" and x.args[0] in ("max", "min") and len(x.args) == 3:
            out[(sub(x.args[1], x.args[2]), "lt")] = 1
        elif x.op == "fn" and x.args[0] in ("abs", "sign", "fabs", "absolute"):
            out[(x.args[1], "lt")] = 1
    return sorted(out, key=lambda t: (t[0].uid, t[1]))[:limit]


def strings_tested(n):
    """sym(str) -> candidate strings it is tested against"""
    cands = {}
    for x in walk(n):
        tests = []
        if x.op == "eq":
            a, b = x.args
            tests = [(a, b), (b, a)]
        elif x.op == "in":
            tests = [(x.args[0], c) for c in x.args[1]]
        elif x.op == "fn" and x.args[0] in ("startswith", "endswith", "substr"):
            tests = [(x.args[1], x.args[2])]
        for v, c in tests:
            if c.op == "str":
                base = v
                while base.op == "fn" and base.args[0] == "strslice":
                    base = base.args[1]
                if base.op == "sym":
                    cands.setdefault(base, set()).add(c.args[0])
                    cands[base].add(c.args[0] + "_REG")
    return cands


class Verdict:
    def __init__(self, status, why="", point=None, lhs=None, rhs=None, trials=0):
        self.status = status  # 'equal' | 'different' | 'undecided'
        self.why, self.point, self.lhs, self.rhs, self.trials = why, point, lhs, rhs, trials


def opaque_atoms(n):
    out = set()
    for x in walk(n):
        if x.op == "app":
            nm = x.args[0]
            if nm != "solve_banded" and not nm.startswith(("oracle:", "err:", "ref:", "bound:")):
                out.add(x)
        elif x.op in ("exists", "isinst"):
            out.add(x)
        elif x.op == "attr" and x.args[0].op not in ("sym", "attr", "item"):
            out.add(x)
    return out


def sample(nodes, seed, setup, idx):
    """valuation number idx for the given nodes; setup(rng)->dict of fixed syms"""
    rng = random.Random(seed * 7919 + idx)
    fixed = setup(rng) if setup else {}
    return Valuation(seed * 100003 + idx, fixed)


def equal(a, b, setup=None, seed=1, trials=24, tol=1e-7, where=None, forced=True):
    """Decide a == b for all valuations (setup restricts the input domain)."""
    if a is b:
        return Verdict("equal", "identical normal form")
    both = mk("pair", a, b)
    opq = opaque_atoms(both)
    n_ok = 0
    cmps = comparisons(both)
    strs = strings_tested(both)
    plans = [None] * trials
    for c in cmps if forced else []:
        plans += [("eq", c), ("gt", c), ("lt", c)]
    for s, cand in strs.items():
        for w in sorted(cand):
            plans += [("str", s, w)]
    for i, plan in enumerate(plans):
        val = sample(both, seed, setup, i)
        rng = random.Random(seed * 31 + i)
        for s, cand in strs.items():
            if s not in val.fixed:
                val.fixed[s] = rng.choice(sorted(cand) + ["GENERIC"])
        if plan and plan[0] == "str":
            val.fixed[plan[1]] = plan[2]
        elif plan:
            if not force(val, plan, rng):
                continue
        try:
            if where is not None and not val.truthy(where):
                continue
            x = val.ev(a)
            y = val.ev(b)
            if isinstance(x, tuple) and isinstance(y, tuple) and x == y:
                n_ok += 1
                continue
            x = val.asnum(x) if isinstance(x, tuple) else x
            y = val.asnum(y) if isinstance(y, tuple) else y
        except Undefined:
            continue
        if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
            continue
        if not close(x, y, tol):
            if opaque_atoms(a) ^ opaque_atoms(b):
                return Verdict("undecided", "differs through constructs the analysis does not interpret: %s" % [show(o, 3) for o in list(opaque_atoms(a) ^ opaque_atoms(b))[:3]], trials=n_ok)
            return Verdict("different", "", describe(val, both), x, y, n_ok)
        n_ok += 1
    if n_ok < 3:
        return Verdict("undecided", "no admissible valuation found", trials=n_ok)
    return Verdict("equal", "random interpretation, %d valuations" % n_ok, trials=n_ok)


def force(val, plan, rng):
    """adjust a linear free symbol so that comparison expression hits the plan"""
    kind, c = plan
    cc, d = _lin(c)
    cands = [x for x in d if x.op == "sym" and x not in val.bound]
    leaf = [x for x in cands]
    if not leaf:
        return True
    x = rng.choice(sorted(leaf, key=lambda t: t.uid))
    try:
        v = val.num(c)
        cur = val.num(x)
    except Undefined:
        return False
    delta = {"eq": 0, "gt": 1, "lt": -1}[kind]
    new = cur + (delta - v) / float(d[x])
    if x.args[1] == "int":
        new = int(round(new))
    val.fixed[x] = new
    val.memo.clear()
    return True


WIDE = 6.0


def family(x):
    """inputs of one kind: the symbol's name without its numbers"""
    return re.sub(r"\d+", "#", x.args[0]) if x.op == "sym" else str(x.uid)


def scaled(val, factor):
    """the valuation with the numeric inputs x multiplied by factor[x]"""
    fx = dict(val.fixed)
    for x, k in factor.items():
        fx[x] = fx[x] * k
    return Valuation(val.seed, fx)


def numeric_inputs(val):
    return [x for x, v in val.fixed.items() if isinstance(v, float) and x.op in ("sym", "item")]


def reach(c, base, rng, tries=10):
    """a valuation near the input domain on which comparison c (< 0) goes the other way"""
    try:
        v0 = base.num(c)
    except Undefined:
        return None
    if v0 != v0:
        return None
    fams = {}
    for x in sorted(frees(c), key=lambda t: t.uid):
        if isinstance(base.fixed.get(x), float):
            fams.setdefault(family(x), []).append(x)
    plans = []
    if len(fams) <= 30:
        plans += [{x: k for x in fams[f]} for f in sorted(fams) for k in (WIDE, 1 / WIDE)]
    if fams:
        plans += [None] * tries
    for p in plans:
        if p is None:
            p = {x: math.exp(rng.uniform(-1, 1) * math.log(WIDE)) for xs in fams.values() for x in xs}
        val = scaled(base, p)
        try:
            v = val.num(c)
        except Undefined:
            continue
        if v == v and (v < 0) != (v0 < 0):
            return val
    return None


def shape(c):
    """comparisons of one shape differ in constants and numbered inputs only"""
    return re.sub(r"[\d.]+", "#", show(c, 4))


def touch(c, base, rng):
    """a valuation near the input domain on which c == 0 exactly (c linear in one of the inputs)"""
    _, d = _lin(c)
    if len(d) > 2 or any(x.op not in ("sym", "item") for x in d):
        return None       # rounding decides equality of longer sums
    for x in sorted((x for x in d if isinstance(base.fixed.get(x), float)), key=lambda t: t.uid):
        try:
            v, cur = base.num(c), base.num(x)
        except Undefined:
            return None
        new = cur - v / float(d[x])
        if abs(new) > WIDE * abs(cur) or new * cur < 0:
            continue
        if abs(new) < 1e-9 * abs(cur):
            new = 0.0
        fx = dict(base.fixed)
        fx[x] = new
        return Valuation(base.seed, fx)
    return None


def describe(val, n):
    out = {}
    for x in sorted(frees(n), key=lambda t: t.uid)[:30]:
        if x.args[0].startswith("$"):
            continue
        try:
            v = val.ev(x)
            out[x.args[0]] = v if not isinstance(v, tuple) else "%.4g" % val.asnum(v)
        except Undefined:
            pass
    return out
