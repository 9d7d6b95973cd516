"""Obligation book-keeping shared by all checks."""
import contextlib
import json
import math
import os
import random
import time
import traceback

from . import interp as I
from . import terms as T
from . import world

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class AnchorGone(Exception):
    """A public entry point the property is about is no longer there."""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.obl = []           # (name, status, detail)
        self.viol = []          # dict(construct, message, detail)
        self.known = []
        self.engines = []
        self.sites = set()
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.samples = []
        path = os.path.join(VERIF, "known_findings.json")
        self.kf = []
        if os.path.exists(path):
            with open(path) as f:
                self.kf = [k for k in json.load(f)["findings"] if k["property"] == pid]

    # ---- engines -----------------------------------------------------------
    def engine(self):
        e = I.Engine(os.path.join(REPO, "src"))
        e.fr.on = True
        self.engines.append(e)
        return e

    def anchor(self, e, mod, name):
        """a public class/function: must exist, otherwise no verdict (exit 2)"""
        try:
            return e.get(mod, name)
        except I.Missing as exc:
            raise AnchorGone("public entry point %s.%s not found (%s)" % (mod, name, exc))

    # ---- obligations -------------------------------------------------------
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, name, detail=""):
        self.obl.append((name, "holds", detail))

    def undecided(self, name, why):
        self.obl.append((name, "undecided", str(why)[:400]))

    def violation(self, name, construct, msg, **detail):
        for k in self.kf:
            if k["obligation"] == name and (k.get("construct") in (None, construct)):
                self.known.append((k, construct, msg))
                self.obl.append((name, "known-finding", k["what"]))
                return
        self.obl.append((name, "violated", msg))
        self.viol.append(dict(obligation=name, construct=construct, message=msg, detail=detail))

    def check(self, name, cond, construct, msg, **detail):
        if cond:
            self.ok(name)
        elif self.engines and self.engines[-1].notes:
            self.undecided(name, "not established, and the analysis met constructs it does not interpret: %s" % sorted(map(str, self.engines[-1].notes))[:3])
        else:
            self.violation(name, construct, msg, **detail)
        return cond

    def literal(self, name, got, want, construct, msg):
        """obligation: the value is exactly this constant (no verdict when the analysis did not resolve it)"""
        if got is want:
            self.ok(name)
            return True
        if not (isinstance(got, T.N) and T.is_const(got)):
            self.undecided(name, "value not resolved: %s" % world.sh(got, 120))
            return None
        return self.check(name, False, construct, "%s (%s instead of %s)" % (msg, world.sh(got), world.sh(want)))

    def equal(self, name, a, b, construct, msg, setup=None, where=None, trials=None, tol=1e-7, forced=True):
        """obligation: the two value terms agree for every input"""
        try:
            a, b = num_like(a), num_like(b)
        except TypeError as exc:
            self.undecided(name, exc)
            return None
        v = T.equal(a, b, setup=setup, seed=self.seed,
                    trials=trials or (16 if self.quick else 80), tol=tol, where=where, forced=forced)
        self.count("valuations", v.trials or 0)
        if v.status == "equal":
            self.ok(name, v.why)
            return True
        if v.status == "undecided":
            self.undecided(name, v.why)
            return None
        self.violation(name, construct, msg, code_value=_f(v.lhs), required_value=_f(v.rhs),
                       inputs={k: _f(x) for k, x in (v.point or {}).items()},
                       code_term=world.sh(a, 600), required_term=world.sh(b, 600))
        return False

    def equal_many(self, items, setup=None, trials=None, tol=1e-7, where=None, forced=True):
        """obligations [(name, code term, required term, construct, message)] decided on shared valuations"""
        todo = []
        for name, a, b, construct, msg in items:
            try:
                a, b = num_like(a), num_like(b)
            except TypeError as exc:
                self.undecided(name, exc)
                continue
            todo.append([name, a, b, construct, msg, 0, None, T.opaque_atoms(a) ^ T.opaque_atoms(b) if not (a is b) else None])
        def vals():
            base = []
            for i in range(trials or (12 if self.quick else 40)):
                v = T.sample(None, self.seed, setup, i)
                base.append(v)
                yield v
            self.refusals(self.engines, base)
            for v in self._forced([it[1] for it in todo if it[6] is None and it[1] is not it[2]] if forced else [], base):
                yield v
        for val in vals():
            try:
                if where is not None and not val.truthy(where):
                    continue
            except T.Undefined:
                continue
            for it in todo:
                if it[6] is not None:
                    continue
                if it[1] is it[2]:
                    it[5] += 1
                    continue
                try:
                    x, y = val.ev(it[1]), val.ev(it[2])
                    if isinstance(x, tuple) and isinstance(y, tuple) and x == y:
                        it[5] += 1
                        continue
                    x = val.asnum(x) if isinstance(x, tuple) else x
                    y = val.asnum(y) if isinstance(y, tuple) else y
                except T.Undefined as exc:
                    if str(exc) == "nan" and self._nan(val, it[1]):
                        try:
                            y = val.num(it[2])
                            if y == y and abs(y) < 1e300:
                                it[6] = ("nan", y, T.describe(val, T.mk("pair", it[1], it[2])))
                        except T.Undefined:
                            pass
                    continue
                if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
                    continue
                if T.close(x, y, tol):
                    it[5] += 1
                else:
                    it[6] = (x, y, T.describe(val, T.mk("pair", it[1], it[2])))
        bad = 0
        for name, a, b, construct, msg, n, diff, opq in todo:
            self.count("valuations", n)
            if diff is None:
                if n >= 2 or a is b:
                    self.ok(name, "random interpretation, %d valuations" % n)
                else:
                    self.undecided(name, "no admissible valuation found")
            elif opq:
                self.undecided(name, "differs through constructs the analysis does not interpret: %s" % [T.show(o, 3) for o in list(opq)[:3]])
            else:
                bad += 1
                self.violation(name, construct, msg, code_value=_f(diff[0]), required_value=_f(diff[1]),
                               inputs={k: _f(v) for k, v in diff[2].items()},
                               code_term=world.sh(a, 600), required_term=world.sh(b, 600))
        return bad == 0

    def _forced(self, codes, base, cap=None):
        """valuations on which a comparison of the code that all sampled inputs decide alike goes the other way"""
        if not codes or not base:
            return
        rng = random.Random(self.seed)
        if os.environ.get("VERIF_WIDE"):
            for i in range(30):
                b = base[i % len(base)]
                yield T.scaled(b, {x: math.exp(rng.uniform(-1, 1) * math.log(T.WIDE)) for x in T.numeric_inputs(b)})
        missed = {}
        n, cap = 0, cap or (40 if self.quick else 200)
        for c, kind in T.compare_nodes(codes):
            if n >= cap:
                self.count("comparisons not forced")
                continue
            seen = set()
            for v in base[:6]:
                try:
                    x = v.num(c)
                    seen.add(x < 0 if kind == "lt" else x == 0)
                except T.Undefined:
                    pass
            if len(seen) != 1:
                continue
            sh = T.shape(c)
            if missed.get(sh, 0) >= 3:
                self.count("comparisons not forced")
                continue
            self.count("comparisons forced")
            missed[sh] = missed.get(sh, 0) + 1
            for v in base[:3]:
                w = T.reach(c, v, rng) if kind == "lt" else T.touch(c, v, rng)
                if w is not None:
                    n += 1
                    missed[sh] -= 1
                    self.count("comparisons reached")
                    yield w
                    break

    @staticmethod
    def _nan(val, t):
        """the code's value itself is not-a-number (missing label, empty mean)"""
        try:
            val.ev(t)
        except T.Undefined as exc:
            return str(exc) == "nan"
        return False

    # ---- valid input is never refused -----------------------------------------
    FAIL = ("raise", "error")

    def refusals(self, engines, base=None):
        """exceptions certain for the analysed (valid) inputs, or raised for one of the sampled ones"""
        for e in engines:
            if e.may_refuse:
                continue
            done = e.__dict__.setdefault("_judged", set())
            for ev in e.events:
                if ev.kind not in self.FAIL or (ev.func, ev.site, ev.pc) in done:
                    continue
                hit = None
                if ev.pc is T.TRUE:
                    hit = {}
                elif base:
                    fr = T.frees(ev.pc)
                    if T.opaque_atoms(ev.pc) or not fr or not all(x in base[0].fixed for x in fr):
                        continue
                    for v in base:
                        try:
                            if v.truthy(ev.pc):
                                hit = T.describe(v, ev.pc)
                                break
                        except T.Undefined:
                            pass
                if hit is None:
                    continue
                done.add((ev.func, ev.site, ev.pc))
                nm = "valid input runs through: %s" % ev.func
                if e.notes:
                    self.undecided(nm, "exception on a path with constructs the analysis does not interpret: %s" % sorted(map(str, e.notes))[:3])
                    continue
                what = "%s%s" % (ev.key.args[0], " " + ", ".join(world.sh(a, 60) for a in ev.val) if isinstance(ev.val, tuple) else "")
                self.violation(nm, ev.where(), "valid input ends in an exception (%s)" % what, inputs={k: _f(x) for k, x in hit.items()}, call_path=list(ev.stack)[-6:])

    @contextlib.contextmanager
    def section(self, name):
        n0 = len(self.engines)
        try:
            with self._section(name):
                yield
        finally:
            self.refusals(self.engines[n0:])

    @contextlib.contextmanager
    def _section(self, name):
        try:
            yield
        except AnchorGone:
            raise
        except RecursionError:
            self.undecided(name, "RecursionError in analyser")
        except Exception as exc:  # analysis gap: recorded, never an alarm
            tb = traceback.extract_tb(exc.__traceback__)
            here = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]]
            self.undecided(name, "analysis gap: %s: %s at %s" % (type(exc).__name__, str(exc)[:200], here))
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()

    # ---- result ------------------------------------------------------------
    def finish(self, level, wall=None):
        st = {}
        for _, s, _ in self.obl:
            st[s] = st.get(s, 0) + 1
        fns, notes, calls, branches, loops, stmts = set(), {}, 0, 0, 0, 0
        for e in self.engines:
            fns |= e.stats["functions"]
            calls += e.stats["calls"]
            branches += e.stats["branches"]
            loops += e.stats["loops"]
            stmts += e.stats["stmts"]
            for k, n in e.notes.items():
                notes["%s: %s" % k] = notes.get("%s: %s" % k, 0) + n
        holds = st.get("holds", 0)
        cov = dict(
            explanation=("Static analysis of /repo/src (no execution): %d obligations, %d hold, %d undecided, "
                         "%d violated, %d known findings. Rules: %s"
                         % (len(self.obl), holds, st.get("undecided", 0), st.get("violated", 0),
                            st.get("known-finding", 0), " | ".join(self.rules))),
            obligations=len(self.obl), discharged=holds,
            undecided=[(n, d) for n, s, d in self.obl if s == "undecided"][:60],
            functions_analysed=sorted(fns), functions_count=len(fns), call_sites_inlined=calls,
            statements=stmts, branches_joined=branches, loops_analysed=loops,
            imprecision_notes=dict(sorted(notes.items())[:40]),
            counters=self.counts, samples=[n for n, s, _ in self.obl if s == "holds"][:25] + self.samples[:10],
        )
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3),
                  violations=len(self.viol))
        evd = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, construct, msg in self.known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, k["what"], construct))
        if self.viol:
            rp = os.path.join("evidence", self.pid + ".violation.json")
            with open(os.path.join(evd, self.pid + ".violation.json"), "w") as f:
                json.dump(self.viol, f, indent=1, default=str)
            for v in self.viol[:20]:
                print("  at %s: %s (obligation: %s)" % (v["construct"], v["message"], v["obligation"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s obligations=%d holds=%d undecided=%d known=%d wall=%.1fs"
              % (self.pid, len(self.obl), holds, st.get("undecided", 0), len(self.known), time.time() - self.t0))
        return 0


def _f(x):
    if isinstance(x, float):
        return float("%.6g" % x)
    return x if isinstance(x, (int, str, bool, type(None))) else repr(x)[:80]


def num_like(x):
    if isinstance(x, T.N):
        return x
    if isinstance(x, bool):
        return T.TRUE if x else T.FALSE
    if isinstance(x, (int, float)):
        return T.num(x)
    if isinstance(x, str):
        return T.string(x)
    if isinstance(x, I.ArrV) and not x.lens:
        return x.content
    raise TypeError("not a scalar term: %r" % (type(x).__name__,))
