"""Models of the Python language library: strings, iterators, named tuples, data
classes, enumerations, paths and regular expressions (folded when their inputs
are constants, uninterpreted otherwise)."""
import ast
import fractions
import itertools
import os
import pathlib
import re
import string as _string

from . import terms as T
from .terms import N, NONE, TRUE, FALSE, ZERO, ONE, mk, num, string
from . import interp as I

NI = NotImplemented
PATHS = ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath")
OPS = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "floordiv": ast.FloorDiv, "mod": ast.Mod, "pow": ast.Pow,
       "and_": ast.BitAnd, "or_": ast.BitOr, "xor": ast.BitXor, "matmul": ast.MatMult, "concat": ast.Add,
       "iadd": ast.Add, "isub": ast.Sub, "imul": ast.Mult}
CMPS = {"lt": ast.Lt, "le": ast.LtE, "eq": ast.Eq, "ne": ast.NotEq, "ge": ast.GtE, "gt": ast.Gt, "is_": ast.Is, "is_not": ast.IsNot}
STRM = {m for m in dir(str) if not m.startswith("_")} - {"format", "join", "maketrans", "translate", "encode", "format_map"}
RE = ("sub", "subn", "match", "search", "fullmatch", "findall", "finditer", "split", "compile", "escape")


class Getter(I.V):
    """operator.itemgetter / attrgetter / methodcaller"""
    def __init__(self, kind, args, kw=None):
        self.kind, self.args, self.kw = kind, args, kw or {}


class PyLib:
    Getter = Getter

    # -- constants <-> values ---------------------------------------------
    def to_py(self, v):
        """Python value of a constant; raises ValueError if it is not one"""
        e = self.e
        if isinstance(v, N):
            if v.op == "str":
                return v.args[0]
            if v is NONE or v.op == "none":
                return None
            if v.op == "num":
                f = v.args[0]
                return int(f) if f.denominator == 1 else float(f)
        if isinstance(v, I.PyV):
            return v.v
        if isinstance(v, I.Tup):
            return tuple(self.to_py(x) for x in v.items)
        if isinstance(v, I.Ref) and e.obj(v).kind in ("list", "set"):
            el = e.list_elems(v)
            if el is not None:
                return [self.to_py(x) for x in el]
        raise ValueError("not constant")

    def of_py(self, x):
        e = self.e
        if x is None:
            return NONE
        if isinstance(x, bool):
            return TRUE if x else FALSE
        if isinstance(x, (int, float, fractions.Fraction)):
            return num(x)
        if isinstance(x, str):
            return string(x)
        if isinstance(x, tuple):
            return I.Tup([self.of_py(y) for y in x])
        if isinstance(x, list):
            return e.new_list([self.of_py(y) for y in x])
        if isinstance(x, dict):
            return e.new_dict([(self.of_py(k), self.of_py(v)) for k, v in x.items()])
        if isinstance(x, (pathlib.PurePath, re.Pattern, re.Match)):
            return I.PyV(x)
        raise ValueError("no value for %r" % (x,))

    def iterator(self, el):
        return self.e.new_list(el, extra=(("iterator", TRUE),))

    # -- text ----------------------------------------------------------------
    def fmt(self, x, spec, conv=""):
        """text of a value as str.format / f-strings give it (node)"""
        e = self.e
        if isinstance(x, I.IteV):
            x = e.freeze(x)
        if not (isinstance(spec, N) and spec.op == "str"):
            return T.app("fmtspec", e.freeze(x), e.freeze(spec))
        sp = spec.args[0]
        if isinstance(x, I.PyV) and isinstance(x.v, pathlib.PurePath):
            x = string(str(x.v))
        if isinstance(x, N):
            try:
                if x.op == "str":
                    return string(format(repr(x.args[0]) if conv in ("r", "a") else x.args[0], sp))
                if x.op == "none":
                    return string(format(str(self.to_py(x)), sp))
                if x.op == "num":
                    f = x.args[0]
                    if not sp:
                        if f.denominator == 1:
                            return string(str(int(f)))
                    elif sp[-1] in "eEfFgG%":
                        return string(format(float(f), sp))
                    elif f.denominator == 1 and not conv:
                        return string(format(int(f), sp))
            except ValueError:
                return e.err("valueerror", x, spec)
            if x.op == "ite" and any(T.is_const(y) for y in x.args[1:]):
                return T.ite(x.args[0], self.fmt(x.args[1], spec, conv), self.fmt(x.args[2], spec, conv))
        if isinstance(x, I.Ref) and e.obj(x).kind == "inst":
            for nm in (("__format__",) if sp else ()) + (("__repr__",) if conv in ("r", "a") else ("__str__", "__repr__")):
                f = e.dunder(x, nm)
                if f is not None:
                    return self.fmt(e.call(f, [spec] if nm == "__format__" else [], {}, None), spec)
        x = e.freeze(x)
        if sp or conv in ("r", "a"):
            return T.app("fmtspec", x, string(conv + ":" + sp))
        return x if x.op == "sym" and x.args[1] == "str" else T.app("str", x)

    def cat(self, parts):
        """concatenation of text nodes, in one canonical form"""
        flat = []
        for p in parts:
            for q in (p.args[1:] if p.op == "app" and p.args[0] == "strcat" else [p]):
                if flat and T.is_str(q) and T.is_str(flat[-1]):
                    flat[-1] = string(flat[-1].args[0] + q.args[0])
                elif not (T.is_str(q) and q.args[0] == ""):
                    flat.append(q)
        if not flat:
            return string("")
        if len(flat) == 1:
            return flat[0]
        for i, p in enumerate(flat):
            if p.op == "ite" and any(T.is_str(y) for y in p.args[1:]):
                return T.ite(p.args[0], self.cat(flat[:i] + [p.args[1]] + flat[i + 1:]), self.cat(flat[:i] + [p.args[2]] + flat[i + 1:]))
        return T.app("strcat", *flat)

    def str_format(self, s, args, kw):
        parts, auto = [], 0
        for lit, field, spec, conv in _string.Formatter().parse(s):
            parts.append(string(lit))
            if field is None:
                continue
            m = re.match(r"^(\w*)(.*)$", field)
            name, rest = m.group(1), m.group(2)
            if name == "":
                name, auto = str(auto), auto + 1
            v = args[int(name)] if name.isdigit() else kw[name]
            for a in re.findall(r"\.(\w+)|\[([^\]]*)\]", rest):
                v = self.e.getattr(v, a[0], None) if a[0] else self.e.getitem(v, num(int(a[1])) if a[1].isdigit() else string(a[1]), None)
            if "{" in (spec or ""):
                spec = self.str_format(spec, args[auto:] if "{}" in spec else args, kw)
                auto += 1
            else:
                spec = string(spec or "")
            parts.append(self.fmt(v, spec, conv or ""))
        return self.cat(parts)

    def percent(self, s, v):
        args = list(v.items) if isinstance(v, I.Tup) else [v]
        parts, pos = [], 0
        if not T.is_str(s):
            return T.app("strmod", s, self.e.freeze(v))
        for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*)(\d*)(?:\.(\d+))?([sdifgeEGrxXu%])", s.args[0]):
            parts.append(string(s.args[0][pos:m.start()]))
            pos = m.end()
            name, flags, width, prec, typ = m.groups()
            if typ == "%":
                parts.append(string("%"))
                continue
            if name:
                x = self.e.getitem(v, string(name), None)
            elif args:
                x = args.pop(0)
            else:
                return self.e.err("typeerror", s)
            if typ in "sr":
                if flags or width or prec:
                    try:
                        parts.append(string(m.group(0) % (self.to_py(x),)))
                    except (ValueError, TypeError):
                        parts.append(T.app("fmtspec", self.e.freeze(x), string(m.group(0))))
                else:
                    parts.append(self.fmt(x, string(""), "" if typ == "s" else "r"))
            elif isinstance(x, N) and x.op == "num":
                y = x.args[0]
                parts.append(string(("%" + flags + width + ("." + prec if prec else "") + typ) % (int(y) if typ in "diuxX" else float(y))))
            else:
                parts.append(T.app("fmtspec", self.e.freeze(x), string(m.group(0))))
        parts.append(string(s.args[0][pos:]))
        return self.cat(parts)

    # -- containers --------------------------------------------------------------
    def as_set(self, v):
        """elements of a set-like value"""
        e = self.e
        if isinstance(v, I.ViewV) and v.kind == "items":
            return None
        if isinstance(v, I.ViewV) and v.kind == "keys" or isinstance(v, I.Ref) and e.obj(v).kind == "set":
            return self.elems(v)
        return None

    def mkset(self, el):
        u = []
        for x in el:
            if not any(x is y or x == y for y in u):
                u.append(x)
        return self.e.alloc("set", items=tuple(I.Entry(num(i), v) for i, v in enumerate(u)), n=len(u))

    def set_op(self, nm, a, b, node):
        e = self.e
        if nm == "BitOr" and isinstance(a, I.Ref) and isinstance(b, I.Ref) and e.obj(a).kind == "dict" and e.obj(b).kind == "dict":
            r = e.alloc("dict")
            e.dict_update(r, a, node, silent=True)
            e.dict_update(r, b, node, silent=True)
            return r
        x, y = self.as_set(a), self.as_set(b)
        if x is None or y is None or not all(isinstance(z, N) and T.is_const(z) for z in x + y):
            return None
        return self.mkset({"BitOr": x + y, "BitAnd": [z for z in x if z in y], "Sub": [z for z in x if z not in y],
                           "BitXor": [z for z in x if z not in y] + [z for z in y if z not in x]}[nm])

    def container_compare(self, nm, a, b, node):
        e = self.e
        x, y = self.as_set(a), self.as_set(b)
        if x is not None and y is not None:
            if not all(isinstance(z, N) and T.is_const(z) for z in x + y):
                return None
            x, y = set(x), set(y)
            return TRUE if {"Eq": x == y, "NotEq": x != y, "Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[nm] else FALSE
        if nm not in ("Eq", "NotEq") or not (isinstance(a, I.Ref) and isinstance(b, I.Ref)):
            return None
        oa, ob = e.obj(a), e.obj(b)
        if a.id == b.id:
            return TRUE if nm == "Eq" else FALSE
        if oa.kind == "inst" and ob.kind == "inst":
            f = next((c.fields for c in oa.cls.mro() if c.fields), None) if oa.cls is ob.cls else None
            r = T.band(*[e.truth(e.compare(ast.Eq(), e.getattr(a, x[0], node), e.getattr(b, x[0], node), node)) for x in f]) if f else FALSE
            return r if nm == "Eq" else T.bnot(r)
        if oa.kind == "dict" and ob.kind == "dict":
            ka, kb = e.dict_keys(a), e.dict_keys(b)
            if ka is not None and kb is not None and all(p is TRUE for _, p in ka + kb):
                if {k for k, _ in ka} != {k for k, _ in kb}:
                    r = FALSE
                else:
                    cs = [e.compare(ast.Eq(), e.read_item(a, k), e.read_item(b, k), node) for k, _ in ka]
                    r = T.band(*[c if isinstance(c, N) else e.truth(c) for c in cs]) if cs else TRUE
                return r if nm == "Eq" else T.bnot(r)
        if oa.kind != ob.kind and {oa.kind, ob.kind} <= {"dict", "list", "set", "inst"}:
            return FALSE if nm == "Eq" else TRUE
        return None

    # -- classes -----------------------------------------------------------------
    def pymod(self):
        m = self.e.mods.get("<python>")
        if m is None:
            m = self.e.mods["<python>"] = I.ModV("<python>", "<python>")
            m.loaded = True
        return m

    def special_class(self, c, s):
        """named tuples and enumerations written with class syntax"""
        e = self.e
        names = {b.name for x in c.mro() for b in x.bases if isinstance(b, I.ExtV)}
        if "typing.NamedTuple" in names:
            c.nt = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
            c.ntdef = {n: c.attrs.pop(n) for n in c.nt if n in c.attrs}
            c.bases = [b for b in c.bases if not isinstance(b, I.ExtV)]
        elif any(n in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag", "enum.IntFlag") for n in names):
            c.members = []
            base = next((x for x in c.mro()[1:] if x.members), None)
            if base is not None:
                c.members = list(base.members)
            mixin = any(n in ("enum.IntEnum", "enum.StrEnum", "builtins.str", "builtins.int", "builtins.float") for n in names)
            last = ZERO
            for k, v in list(c.attrs.items()):
                if k.startswith("_") or isinstance(v, (I.FuncV, I.ClassV)):
                    continue
                if isinstance(v, N) and v.op == "app" and v.args[0] == "ext:enum.auto":
                    v = string(k.lower()) if "enum.StrEnum" in names else T.add(last, ONE)
                if isinstance(v, N) and v.op == "num":
                    last = v
                same = next((c.attrs[m] for m in c.members if m in c.attrs and e.obj(c.attrs[m]).attrs["value"] == v), None)
                if same is not None:
                    c.attrs[k] = same
                    continue
                c.attrs[k] = e.alloc("inst", cls=c, attrs={"value": v, "_value_": v, "name": string(k), "_name_": string(k)},
                                     extra=(("mixin", TRUE if mixin else FALSE),))
                c.members.append(k)

    def enum_value(self, a, other):
        """members of int/str enumerations behave as their value"""
        if isinstance(a, I.Ref) and ("mixin", TRUE) in self.e.obj(a).extra:
            return self.e.obj(a).attrs["value"]
        return a

    def dataclass(self, c, s):
        e = self.e
        own, fields = [], []
        for b in reversed(c.mro()[1:]):
            for f in b.fields or ():
                fields = [x for x in fields if x[0] != f[0]] + [f]
        for x in s.body:
            if not (isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)) or "ClassVar" in ast.unparse(x.annotation):
                continue
            nm = x.target.id
            d, fac, init = None, None, True
            v = x.value
            if isinstance(v, ast.Call) and ast.unparse(v.func).rsplit(".", 1)[-1] == "field":
                c.attrs.pop(nm, None)
                for k in v.keywords:
                    if k.arg == "default":
                        d = e.eval(k.value)
                        c.attrs[nm] = d
                    elif k.arg == "default_factory":
                        fac = e.eval(k.value)
                    elif k.arg == "init" and isinstance(k.value, ast.Constant) and k.value.value is False:
                        init = False
            elif v is not None:
                d = c.attrs.get(nm)
            own.append((nm, d, fac, init))
        for f in own:
            if any(x[0] == f[0] for x in fields):
                fields = [f if x[0] == f[0] else x for x in fields]
            else:
                fields.append(f)
        c.fields = fields
        if c.ns is not None:
            e.put(c.ns, e.obj(c.ns).w(attrs={k: v for k, v in c.attrs.items() if not isinstance(v, I.FuncV)}))

    def construct_special(self, cls, args, kw, node):
        e = self.e
        nt = next((c for c in cls.mro() if c.nt is not None), None)
        if nt is not None and not isinstance(cls.lookup("__new__"), I.FuncV):
            if cls.nt is None:
                cls.nt, cls.ntdef = nt.nt, nt.ntdef
            vals = dict(zip(cls.nt, args))
            vals.update({k: v for k, v in kw.items() if k in cls.nt})
            for k, d in cls.ntdef.items():
                vals.setdefault(k, d)
            if len(args) > len(cls.nt) or set(vals) != set(cls.nt) or any(k not in cls.nt for k in kw):
                return e.err("typeerror", string(cls.name), node=node)
            return I.NtV(cls, [vals[k] for k in cls.nt])
        if cls.members is not None:
            v = args[0] if args else kw.get("value")
            if isinstance(v, I.Ref) and e.obj(v).cls is cls:
                return v
            ms = [cls.lookup(m) for m in cls.members]
            if isinstance(v, N) and T.is_const(v):
                for m in ms:
                    if e.obj(m).attrs["value"] is v:
                        return m
                return e.err("valueerror", v, node=node)
            if isinstance(v, N) and ms:
                r = ms[-1]
                for m in ms[-2::-1]:
                    r = e.merge_val(T.eq(v, e.obj(m).attrs["value"]), m, r)
                return r
            return e.unsupported("enum", node, v if v is not None else NONE)
        fields = next((c.fields for c in cls.mro() if c.fields is not None), None)
        init = cls.lookup("__init__")
        if fields is not None and not isinstance(init, I.FuncV):
            r = e.alloc("inst", cls=cls)
            at, rest = {}, list(args)
            for nm, d, fac, ini in fields:
                if ini and rest:
                    at[nm] = rest.pop(0)
                elif ini and nm in kw:
                    at[nm] = kw[nm]
                elif fac is not None:
                    at[nm] = e.call(fac, [], {}, node)
                elif d is not None:
                    at[nm] = d
                elif ini and "**" in kw:
                    at[nm] = e.getitem(kw["**"], string(nm), node)
                elif ini:
                    e.err("typeerror", string(cls.name + "(" + nm + ")"), node=node)
            if rest or any(k != "**" and not any(f[0] == k and f[3] for f in fields) for k in kw):
                e.err("typeerror", string(cls.name), node=node)
            e.put(r, e.obj(r).w(attrs=at))
            post = cls.lookup("__post_init__")
            if isinstance(post, I.FuncV):
                e.call_func(post, [r], {}, node)
            return r
        return None

    def py_item(self, o, k, node):
        if isinstance(o, I.NtV):
            return None
        try:
            return self.of_py(o.v[self.to_py(k)])
        except Exception:
            return None

    def py_attr(self, o, name):
        x = o.v
        if isinstance(x, (pathlib.PurePath, re.Match, re.Pattern)):
            if isinstance(x, pathlib.PurePath) and name in ("name", "stem", "suffix", "parent", "parts", "suffixes", "anchor", "root"):
                return self.of_py(getattr(x, name))
            if isinstance(x, pathlib.PurePath) and name == "parents":
                return I.Tup([I.PyV(p) for p in x.parents])
            if isinstance(x, re.Match) and name in ("string", "lastindex", "lastgroup", "pos", "endpos"):
                return self.of_py(getattr(x, name))
            if isinstance(x, re.Pattern) and name in ("pattern", "groups"):
                return self.of_py(getattr(x, name))
        return I.MethV(o, name)

    def py_binop(self, nm, a, b, node):
        try:
            if nm == "Div":
                x, y = self.to_py(a), self.to_py(b)
                return I.PyV((x if isinstance(x, pathlib.PurePath) else pathlib.PurePosixPath(x)) / y)
        except (ValueError, TypeError):
            pass
        return self.e.unsupported("op" + nm, node, a, b)

    def py_method(self, o, name, args, kw, node):
        e = self.e
        x = o.v
        try:
            if isinstance(x, pathlib.PurePath):
                s = string(str(x))
                if name in ("exists", "is_file"):
                    return self.call_ext("os.path.isfile" if name == "is_file" else "os.path.exists", [s], {}, node)
                if name == "is_dir":
                    return self.call_ext("os.path.isdir", [s], {}, node)
                if name == "open":
                    return self.call_ext("builtins.open", [s] + args, kw, node)
                if name in ("read_text", "write_text"):
                    f = self.call_ext("builtins.open", [s, string("w" if name == "write_text" else "r")], {}, node)
                    return self.method(f, "write" if name == "write_text" else "read", args, {}, node)
                if name == "mkdir":
                    return self.call_ext("os.makedirs", [s], {}, node)
                if name in ("resolve", "absolute"):
                    return I.PyV(pathlib.PurePosixPath(os.path.normpath(os.path.join("/cwd", str(x)))))
                if name in ("as_posix", "__fspath__", "__str__"):
                    return s
                if name in ("joinpath", "with_suffix", "with_name", "with_stem", "relative_to", "is_absolute", "match", "is_relative_to"):
                    return self.of_py(getattr(x, name)(*[self.to_py(a) for a in args]))
                return e.unsupported("path." + name, node, o, *args)
            f = getattr(x, name)
            r = f(*[self.to_py(a) for a in args], **{k: self.to_py(v) for k, v in kw.items()})
            return self.of_py(list(r) if name == "finditer" else r)
        except (ValueError, TypeError, AttributeError, IndexError):
            return T.app("m:" + name, e.freeze(o), *self.frz(args), *self.fkw(kw))

    def nt_method(self, o, name, args, kw, node):
        e = self.e
        if name == "_replace":
            return I.NtV(o.cls, [kw.get(k, v) for k, v in zip(o.cls.nt, o.items)])
        if name == "_asdict":
            return e.new_dict([(string(k), v) for k, v in zip(o.cls.nt, o.items)])
        return self.tup_method(o, name, args)

    def tup_method(self, o, name, args):
        if name in ("index", "count"):
            eqs = [self.e.truth(self.e.compare(ast.Eq(), x, args[0], None)) for x in o.items]
            if all(c is TRUE or c is FALSE for c in eqs):
                if name == "count":
                    return num(sum(c is TRUE for c in eqs))
                return num(eqs.index(TRUE)) if TRUE in eqs else self.e.err("valueerror", args[0] if isinstance(args[0], N) else NONE)
        return None

    def order(self, el, key, reverse, node):
        """elements in sorted order, None if the order is not decided"""
        e = self.e
        ks = [e.call(key, [x], {}, node) if key is not None and key is not NONE else x for x in el]
        if len(el) < 2:
            return list(el)
        raw = ks
        try:
            ks = [self.to_py(self.enum_value(k, None)) for k in ks]
            ix = sorted(range(len(el)), key=lambda i: ks[i], reverse=reverse)
        except (ValueError, TypeError):
            return self.network(el, raw, reverse)
        return [el[i] for i in ix]

    def network(self, el, ks, reverse):
        """stable sorting of a few numbers that are not known"""
        if len(el) > 5 or not all(isinstance(k, N) for k in ks) or not any(k.op in ("num", "sum", "prod") for k in ks):
            return None
        if any(k.op in ("str", "none", "true", "false") for k in ks):
            return None
        el, ks, plain = list(el), list(ks), all(a is b for a, b in zip(el, ks))
        for end in range(len(el) - 1, 0, -1):
            for j in range(end):
                a, b = ks[j], ks[j + 1]
                if plain:
                    lo, hi = T.fn("min", a, b), T.fn("max", a, b)
                    el[j], el[j + 1] = (hi, lo) if reverse else (lo, hi)
                    ks[j], ks[j + 1] = el[j], el[j + 1]
                else:
                    c = T.lt(a, b) if reverse else T.lt(b, a)
                    el[j], el[j + 1] = self.e.merge_val(c, el[j + 1], el[j]), self.e.merge_val(c, el[j], el[j + 1])
                    ks[j], ks[j + 1] = T.ite(c, b, a), T.ite(c, a, b)
        return el

    # -- library functions -------------------------------------------------------
    def paths(self, v):
        """os.PathLike arguments as text"""
        return string(str(v.v)) if isinstance(v, I.PyV) and isinstance(v.v, pathlib.PurePath) else v

    def std(self, name, args, kw, node):
        e = self.e
        if name in PATHS:
            try:
                return I.PyV(pathlib.PurePosixPath(*[self.to_py(a) for a in args]))
            except (ValueError, TypeError):
                return NI
        if name in ("pathlib.Path.cwd",):
            return I.PyV(pathlib.PurePosixPath("/cwd"))
        if any(isinstance(a, I.PyV) and isinstance(a.v, pathlib.PurePath) for a in args) and name not in ("builtins.str", "builtins.isinstance", "builtins.list"):
            return self.call_ext(name, [self.paths(a) for a in args], kw, node)
        if any(isinstance(a, I.PyV) and isinstance(a.v, pathlib.PurePath) for a in kw.values()):
            return self.call_ext(name, args, {k: self.paths(v) for k, v in kw.items()}, node)
        root, _, fn = name.partition(".")
        if root == "re" and fn in RE:
            try:
                r = getattr(re, fn)(*[self.to_py(a) for a in args], **{k: self.to_py(v) for k, v in kw.items()})
                return self.of_py(list(r) if fn == "finditer" else r)
            except (ValueError, TypeError, re.error):
                return NI
        if root == "operator":
            return self.operator(fn, args, kw, node)
        if root == "itertools":
            return self.itertools(fn, args, kw, node)
        if root == "functools" and fn == "reduce":
            el = self.elems(args[1])
            if el is not None:
                if len(args) > 2:
                    el = [args[2]] + el
                if not el:
                    return e.err("typeerror", string("reduce"), node=node)
                acc = el[0]
                for x in el[1:]:
                    acc = e.call(args[0], [acc, x], {}, node)
                return acc
        if name in ("collections.OrderedDict", "types.MappingProxyType"):
            return self.b_dict(args, kw, node)
        if name == "collections.defaultdict":
            d = self.b_dict(args[1:], kw, node)
            if args and args[0] is not NONE:
                e.put(d, e.obj(d).w(extra=(("default", args[0]),)))
            return d
        if name == "collections.Counter" and len(args) <= 1 and not kw:
            el = self.elems(args[0]) if args else []
            if el is not None and all(isinstance(x, N) and T.is_const(x) for x in el) and not (args and isinstance(args[0], I.Ref) and e.obj(args[0]).kind == "dict"):
                c = {}
                for x in el:
                    c[x] = c.get(x, 0) + 1
                d = e.new_dict([(k, num(n)) for k, n in c.items()])
                e.put(d, e.obj(d).w(extra=(("default", I.ExtV("builtins.int")),)))
                return d
        if name == "collections.ChainMap" and all(isinstance(a, I.Ref) and e.obj(a).kind == "dict" for a in args):
            d = e.alloc("dict")
            for a in reversed(args):
                e.dict_update(d, a, node, silent=True)
            return d
        if name == "collections.deque":
            el = self.elems(args[0]) if args else []
            mx = args[1] if len(args) > 1 else kw.get("maxlen", NONE)
            if el is not None and (mx is NONE or T.is_num(mx)):
                if mx is not NONE:
                    el = el[max(0, len(el) - int(mx.args[0])):] if int(mx.args[0]) else []
                return e.new_list(el, extra=(("deque", mx),))
        if name in ("collections.namedtuple", "typing.NamedTuple") and len(args) >= 2 and T.is_str(args[0]):
            if T.is_str(args[1]):
                f = args[1].args[0].replace(",", " ").split()
            else:
                f = self.elems(args[1])
                f = None if f is None else [x.items[0].args[0] if isinstance(x, I.Tup) else x.args[0] for x in f]
            if f is not None:
                c = I.ClassV(args[0].args[0], e.frames[-1].func.mod if e.frames else self.pymod(), [], None)
                c.nt = list(f)
                df = self.elems(kw["defaults"]) if "defaults" in kw else []
                c.ntdef = dict(zip(f[len(f) - len(df):], df)) if df else {}
                return c
        if name == "types.SimpleNamespace":
            c = self.pymod().env.get("SimpleNamespace")
            if c is None:
                c = self.pymod().env["SimpleNamespace"] = I.ClassV("SimpleNamespace", self.pymod(), [], None)
            r = e.alloc("inst", cls=c, attrs={k: v for k, v in kw.items() if k != "**"})
            if "**" in kw:
                e.note("unsupported", "SimpleNamespace(**)")
            return r
        if name == "contextlib.suppress":
            return I.SupV(I.Tup(args))
        if name == "contextlib.nullcontext":
            return args[0] if args else NONE
        if name == "contextlib.closing":
            return args[0]
        if name in ("dataclasses.asdict", "dataclasses.astuple", "dataclasses.replace", "dataclasses.fields") and args and isinstance(args[0], (I.Ref, I.ClassV)):
            cls = e.class_of(args[0])
            f = next((c.fields for c in cls.mro() if c.fields is not None), None) if cls is not None else None
            if f is not None:
                if fn == "fields":
                    nc = self.pymod().env.setdefault("Field", I.ClassV("Field", self.pymod(), [], None))
                    return I.Tup([e.alloc("inst", cls=nc, attrs={"name": string(x[0])}) for x in f])
                vals = {x[0]: e.getattr(args[0], x[0], node) for x in f}
                if fn == "replace":
                    return self.construct_special(cls, [], {**{k: v for k, v in vals.items() if next(x for x in f if x[0] == k)[3]}, **kw}, node)
                if fn == "asdict":
                    return e.new_dict([(string(k), self.deepcopy(v)) for k, v in vals.items()])
                return I.Tup([self.deepcopy(v) for v in vals.values()])
        if root == "math":
            r = self.math(fn, args, kw)
            if r is not None:
                return r
        if name == "builtins.vars" and len(args) == 1:
            return e.getattr(args[0], "__dict__", node)
        if name == "builtins.dict.fromkeys":
            el = self.elems(args[0])
            if el is not None:
                d = e.alloc("dict")
                for x in el:
                    e.store_item(d, x if isinstance(x, N) else e.freeze(x), args[1] if len(args) > 1 else NONE, None)
                return d
        if name in ("builtins.str.join", "builtins.str.lower", "builtins.str.upper", "builtins.str.strip", "builtins.str.format", "builtins.str.split",
                    "builtins.list.append", "builtins.dict.get", "builtins.dict.copy", "builtins.dict.items", "builtins.list.copy"):
            return self.method(args[0], name.rsplit(".", 1)[1], args[1:], kw, node)
        if name == "builtins.object.__setattr__" and len(args) == 3 and T.is_str(args[1]):
            o = args[0]
            e.event("setattr", o, args[1], args[2], node)
            e.put(o, e.obj(o).w(attrs={**e.obj(o).attrs, args[1].args[0]: args[2]}))
            return NONE
        if name == "builtins.filter":
            el = e.iter_elems(args[1])
            if el is not None:
                out = []
                for x, p in el:
                    c = e.simp(e.truth(x if args[0] is NONE else e.call(args[0], [x], {}, node)))
                    out.append((x, T.band(p, c)))
                out = [x for x in out if x[1] is not FALSE]
                if all(p is TRUE for _, p in out):
                    return self.iterator([x for x, _ in out])
                return e.alloc("list", items=tuple(I.Entry(num(i), x, g) for i, (x, g) in enumerate(out)), n=None)
        if name == "builtins.slice":
            a = [None if x is NONE else x for x in args]
            return I.SliceV(None, a[0], None) if len(a) == 1 else I.SliceV(a[0], a[1], a[2] if len(a) > 2 else None)
        if name == "builtins.property":
            f = (args[0] if args else kw.get("fget"))
            if isinstance(f, I.FuncV):
                f = f.like()
                f.kind = "property"
                f.setter = args[1] if len(args) > 1 else kw.get("fset")
                return f
        if name in ("builtins.staticmethod", "builtins.classmethod") and isinstance(args[0], I.FuncV):
            f = args[0].like()
            f.kind = fn
            return f
        if name == "builtins.format" and args:
            return self.fmt(args[0], args[1] if len(args) > 1 else string(""))
        if name == "builtins.repr" and args:
            return self.fmt(args[0], string(""), "r")
        if name == "builtins.id":
            return T.app("id", e.freeze(args[0]))
        if name == "os.path.sep" or name == "os.sep":
            return string("/")
        if name in ("builtins.issubclass",) and isinstance(args[0], I.ClassV) and isinstance(args[1], I.ClassV):
            return TRUE if args[1] in args[0].mro() else FALSE
        return NI

    def operator(self, fn, args, kw, node):
        e = self.e
        if fn in ("itemgetter", "attrgetter", "methodcaller"):
            return Getter(fn, list(args), dict(kw.items()))
        if fn in OPS and len(args) == 2:
            return e.binop(OPS[fn](), args[0], args[1], node)
        if fn in CMPS and len(args) == 2:
            return e.compare(CMPS[fn](), args[0], args[1], node)
        if fn == "neg":
            return e.elementwise(T.neg, args[0])
        if fn == "pos":
            return args[0]
        if fn == "abs":
            return self.b_abs(args, kw, node)
        if fn == "not_":
            return T.bnot(e.truth(args[0]))
        if fn == "truth":
            return e.truth(args[0])
        if fn == "contains":
            return e.contains(args[0], args[1])
        if fn == "getitem":
            return e.getitem(args[0], args[1], node)
        if fn == "setitem":
            e.setitem(args[0], args[1], args[2], node)
            return NONE
        return NI

    def call_getter(self, g, args, kw, node):
        e = self.e
        o = args[0]
        if g.kind == "methodcaller":
            return e.call(e.getattr(o, g.args[0].args[0], node), list(g.args[1:]), g.kw, node)
        out = []
        for k in g.args:
            if g.kind == "itemgetter":
                out.append(e.getitem(o, k, node))
            else:
                v = o
                for p in k.args[0].split("."):
                    v = e.getattr(v, p, node)
                out.append(v)
        return out[0] if len(out) == 1 else I.Tup(out)

    def itertools(self, fn, args, kw, node):
        e = self.e
        if fn in ("chain.from_iterable",):
            outer = self.elems(args[0])
            if outer is None:
                return NI
            args, fn = outer, "chain"
        if fn == "product":
            if "repeat" in kw and T.is_num(kw["repeat"]):
                args = list(args) * int(kw["repeat"].args[0])
            return I.ViewV("product", list(args))
        if fn == "chain":
            els = [e.iter_elems(a) for a in args]
            if any(x is None for x in els):
                return NI
            flat = [y for x in els for y in x]
            if all(p is TRUE for _, p in flat):
                return self.iterator([v for v, _ in flat])
            return e.alloc("list", items=tuple(I.Entry(num(i), v, p) for i, (v, p) in enumerate(flat)), n=None)
        if fn == "repeat" and len(args) == 2 and T.is_num(args[1]):
            return self.iterator([args[0]] * int(args[1].args[0]))
        if fn == "count":
            lo = args[0] if args else kw.get("start", ZERO)
            return I.ViewV("count", lo, args[1] if len(args) > 1 else kw.get("step", ONE))
        if fn == "islice" and isinstance(args[0], I.ViewV) and args[0].kind == "count":
            b = [None if x is NONE else int(x.args[0]) if T.is_num(x) else "?" for x in args[1:]]
            if "?" not in b and (b[0] if len(b) == 1 else b[1]) is not None:
                ix = range(b[0]) if len(b) == 1 else range(*[x if x is not None else d for x, d in zip(b, (0, 0, 1))])
                return self.iterator([T.add(args[0].obj, T.mul(num(i), args[0].extra)) for i in ix])
            return NI
        el = self.elems(args[1] if fn in ("starmap", "takewhile", "dropwhile", "filterfalse") else args[0]) if args else None
        if el is None:
            return NI
        if fn == "islice":
            b = [None if x is NONE else int(x.args[0]) if T.is_num(x) else "?" for x in args[1:]]
            return NI if "?" in b else self.iterator(el[slice(*b)])
        if fn == "accumulate":
            f = args[1] if len(args) > 1 else kw.get("func", NONE)
            if "initial" in kw and kw["initial"] is not NONE:
                el = [kw["initial"]] + el
            out = el[:1]
            for x in el[1:]:
                out.append(e.binop(ast.Add(), out[-1], x, node) if f is NONE else e.call(f, [out[-1], x], {}, node))
            return self.iterator(out)
        if fn == "starmap":
            rows = [self.elems(x) for x in el]
            return NI if any(r is None for r in rows) else self.iterator([e.call(args[0], r, {}, node) for r in rows])
        if fn == "pairwise":
            return self.iterator([I.Tup([a, b]) for a, b in zip(el, el[1:])])
        if fn == "zip_longest":
            els = [self.elems(a) for a in args]
            return NI if any(x is None for x in els) else self.iterator([I.Tup(r) for r in itertools.zip_longest(*els, fillvalue=kw.get("fillvalue", NONE))])
        if fn in ("combinations", "permutations", "combinations_with_replacement"):
            n = [int(args[1].args[0])] if len(args) > 1 and T.is_num(args[1]) else []
            return self.iterator([I.Tup(r) for r in getattr(itertools, fn)(el, *n)])
        if fn == "compress":
            sel = self.elems(args[1])
            cs = [e.truth(x) for x in sel] if sel is not None else [None]
            return self.iterator([x for x, c in zip(el, cs) if c is TRUE]) if all(c is TRUE or c is FALSE for c in cs) else NI
        if fn in ("takewhile", "dropwhile", "filterfalse"):
            cs = [e.simp(e.truth(e.call(args[0], [x], {}, node))) for x in el]
            if not all(c is TRUE or c is FALSE for c in cs):
                return NI
            if fn == "filterfalse":
                return self.iterator([x for x, c in zip(el, cs) if c is FALSE])
            k = cs.index(FALSE) if FALSE in cs else len(el)
            return self.iterator(el[:k] if fn == "takewhile" else el[k:])
        if fn == "groupby":
            key = args[1] if len(args) > 1 else kw.get("key", NONE)
            ks = [x if key is NONE else e.call(key, [x], {}, node) for x in el]
            out = []
            for k, x in zip(ks, el):
                c = e.truth(e.compare(ast.Eq(), out[-1][0], k, node)) if out else FALSE
                if c is TRUE:
                    out[-1][1].append(x)
                elif c is FALSE:
                    out.append((k, [x]))
                else:
                    return NI
            return self.iterator([I.Tup([k, self.iterator(v)]) for k, v in out])
        if fn == "tee":
            n = int(args[1].args[0]) if len(args) > 1 else 2
            return I.Tup([self.iterator(el) for _ in range(n)])
        return NI

    def math(self, fn, args, kw):
        e = self.e
        if fn == "prod":
            el = self.elems(args[0])
            if el is not None and all(isinstance(x, N) for x in el):
                return T.mul(kw.get("start", ONE), *el) if el else kw.get("start", ONE)
        a = [x for x in args if isinstance(x, N)]
        if len(a) != len(args):
            return None
        if fn == "isnan":
            return self.isnan(a[0])
        if fn in ("isfinite", "isinf"):
            x = a[0]
            if x.op in ("num",):
                return TRUE if fn == "isfinite" else FALSE
            if x.op == "special":
                return TRUE if fn == "isinf" and x.args[0] == "inf" else FALSE
        if fn == "isclose" and len(a) == 2:
            if a[0] is a[1]:
                return TRUE
            if all(T.is_num(x) for x in a):
                import math
                return TRUE if math.isclose(float(a[0].args[0]), float(a[1].args[0]), **{k: float(v.args[0]) for k, v in kw.items()}) else FALSE
        if fn in ("hypot", "dist") and fn == "hypot":
            return T.power(T.add(*[T.mul(x, x) for x in a]), num(fractions.Fraction(1, 2)))
        if fn == "trunc":
            return T.fn("int", a[0])
        return None

    def isnan(self, c):
        if c.op == "special":
            return TRUE if c.args[0] == "nan" else FALSE
        if c.op in ("num", "sym", "sum", "prod", "str"):
            return FALSE
        if c.op == "ite":
            return T.ite(c.args[0], self.isnan(c.args[1]), self.isnan(c.args[2]))
        return mk("isinst", c, "nan")
