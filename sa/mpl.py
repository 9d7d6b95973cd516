"""matplotlib: figures and panels as terms, what is drawn on them as events.

A figure is `mpl:fig(k)`, a panel `mpl:axes(fig, i)`; every call on one is an event
`mpl` with the receiver, the method and the arguments, in program order.
"""
from . import terms as T
from .terms import N, NONE, TRUE, FALSE, ONE, ZERO, num, string
from . import interp as I

NI = None
PARTS = ("xaxis", "yaxis", "spines", "canvas", "title", "transAxes", "patch")


def is_mpl(o):
    return isinstance(o, N) and o.op == "app" and isinstance(o.args[0], str) and o.args[0].startswith("mpl:")


class MplLib:
    nfig = 0
    curfig = None
    curax = None

    def odd(self, what, node=None, *args):
        self.e.event("mpl-odd", None, string(what), None, node)
        return self.e.unsupported(what, node, *args)

    def fig_axes(self, nr, nc, fig):
        return [T.app("mpl:axes", fig, num(i)) for i in range(nr * nc)]

    def subplots(self, fig, args, kw, node):
        e = self.e
        nr, nc = (kw.get("nrows", args[0] if args else ONE)), kw.get("ncols", args[1] if len(args) > 1 else ONE)
        sq = kw.get("squeeze", TRUE)
        kw.all(), args.all()        # layout only
        if not all(isinstance(x, N) and T.is_num(x) for x in (nr, nc)) or sq not in (TRUE, FALSE, ONE, ZERO):
            return self.odd("subplots", node, *args)
        nr, nc = int(nr.args[0]), int(nc.args[0])
        if nr < 1 or nc < 1:
            e.err("valueerror", string("number of panels"), node=node)
            return self.odd("subplots", node)
        cells = self.fig_axes(nr, nc, fig)
        self.curax = cells[-1]
        if sq in (TRUE, ONE):
            if nr == nc == 1:
                return cells[0]
            if 1 in (nr, nc):
                return e.fr.XArr(cells, (nr * nc,))
        return e.fr.XArr(cells, (nr, nc))

    def newfig(self):
        self.nfig += 1
        self.curfig = T.app("mpl:fig", num(self.nfig))
        return self.curfig

    def pyplot(self, fn, args, kw, node):
        e = self.e
        args, kw = I.Watch(args) if not isinstance(args, I.Watch) else args, I.WatchK(kw) if not isinstance(kw, I.WatchK) else kw
        if e.st.pc is not TRUE:
            return self.odd("conditional plot", node)
        if fn == "subplots":
            fig = self.newfig()
            return I.Tup([fig, self.subplots(fig, args, kw, node)])
        if fn == "figure":
            kw.all(), args.all()
            return self.newfig()
        if fn == "close":
            fig = args[0] if args else self.curfig
            e.event("mpl", fig if is_mpl(fig) else NONE, string("close"), (tuple(args), {}), node)
            return NONE
        if fn in ("gcf", "gca"):
            r = self.curfig if fn == "gcf" else self.curax
            return r if r is not None else self.odd("pyplot." + fn, node)
        if fn in ("use", "style.use", "ioff", "ion", "switch_backend", "rcParams.update"):
            kw.all(), args.all()
            return NONE
        if fn in ("savefig", "suptitle", "tight_layout", "subplots_adjust") and self.curfig is not None:
            return self.mpl_method(self.curfig, fn, args, kw, node)
        if fn in ("plot", "title", "xlabel", "ylabel", "legend") and self.curax is not None:
            return self.mpl_method(self.curax, {"title": "set_title", "xlabel": "set_xlabel", "ylabel": "set_ylabel"}.get(fn, fn), args, kw, node)
        return self.odd("pyplot." + fn, node, *args)

    def mpl_attr(self, o, name):
        if name == "figure" and o.args[0] == "mpl:axes":
            return o.args[1]
        if name in PARTS:
            return T.app("mpl:part", o, string(name))
        return I.MethV(o, name)

    def mpl_method(self, o, name, args, kw, node):
        e = self.e
        pos, kws = list(args), dict(kw.items())
        if e.st.pc is not TRUE:
            return self.odd("conditional plot", node)
        if o.args[0] == "mpl:fig" and name == "subplots":
            return self.subplots(o, I.Watch(pos), I.WatchK(kws), node)
        if o.args[0] == "mpl:fig" and name in ("add_subplot", "add_axes", "gca", "subplot_mosaic"):
            return self.odd("figure." + name, node, *args)
        if name in ("twinx", "twiny", "inset_axes", "get_lines", "get_figure") or name.startswith("get_"):
            return self.odd("axes." + name, node, *args)
        if name == "set":       # properties by keyword
            for k, v in kws.items():
                e.event("mpl", o, string("set_" + k), ((v,), {}), node)
            return NONE
        e.event("mpl", o, string(name), (tuple(pos), kws), node)
        if name == "plot":
            return e.new_list([T.app("mpl:part", o, string("line"))])
        return T.app("mpl:part", o, string(name))
