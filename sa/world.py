"""Standard symbolic set-ups: abstract inputs for the public entry points."""
from . import interp as I
from .interp import Engine, Missing, AnalysisError, ArrV, Ref, Tup, V
from .terms import *  # noqa
from . import terms as T

ROOT = "/repo/src"


def engine():
    return Engine(ROOT)


def class_dict(e, cls, attr):
    v = cls.lookup(attr)
    if v is None:
        raise Missing("%s.%s" % (cls.name, attr))
    return [k.args[0] for k, _ in e.dict_keys(v)], v


def pam_dict(e, keys, prefix="p_", fixed=None, kinds=None):
    """dict with one numeric symbol per key (or a fixed value)."""
    fixed = fixed or {}
    kinds = kinds or {}
    out = []
    for k in keys:
        v = fixed[k] if k in fixed else sym(prefix + k, kinds.get(k, "num"))
        out.append((string(k), v))
    return e.new_dict(out)


def vec(name, n):
    return ArrV(item(sym(name, "any"), IX[0]), [n if isinstance(n, N) else num(n)])


def method(e, obj, name):
    return e.getattr(obj, name, None)


def callm(e, obj, name, *args, **kw):
    return e.call(e.getattr(obj, name, None), list(args), dict(kw), None)


def attr(e, obj, name):
    return e.getattr(obj, name, None)


def sh(x, n=400, d=8):
    try:
        s = show(x, d) if isinstance(x, N) else repr(x)
    except Exception as exc:  # pragma: no cover
        s = "<%s>" % exc
    return s if len(s) <= n else s[:n] + "..."
