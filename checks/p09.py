"""Impulse response functions: normalisation, scale invariance, reference forms, flat parameters."""
from checks.carbon import *  # noqa

LEVEL = "other"


def run(ctx):
    ctx.rule("value graphs of the response functions == closed forms for symbolic coefficients, time scales and time; "
             "invariant under rescaling of the coefficients; equal to 1 (mixed layer) at time 0")
    e = ctx.engine()
    rs2 = ctx.anchor(e, "carbon_cycle.rfuns", "rs_function2")
    rb2 = ctx.anchor(e, "carbon_cycle.rfuns", "rb_function2")
    rs = ctx.anchor(e, "carbon_cycle.rfuns", "rs_function")
    rb = ctx.anchor(e, "carbon_cycle.rfuns", "rb_function")
    it, dtm = sym("it", "int"), sym("idtm", "int")
    time = div(it, dtm)

    def ex(a):
        return T.fn("exp", a)
    for n in ((1, 3) if ctx.quick else (1, 2, 3, 5)):
        c = [sym("c%d" % i) for i in range(n + 1)]
        t = [sym("t%d" % i) for i in range(n)]
        g = sym("g")

        def st(rng):
            d = {x: rng.uniform(.05, 3) for x in c + [g]}
            d.update({x: rng.uniform(.1, 50) for x in t})
            d[it] = rng.randrange(1, 200)
            d[dtm] = rng.randrange(1, 25)
            return d
        for form in ("scalar", "array"):
            with ctx.section("rs2 n=%d %s" % (n, form)):
                x = it if form == "scalar" else I.ArrV(add(it, IX[0]), [num(6)])
                at = time if form == "scalar" else div(add(it, num(2)), dtm)

                def val(f, coef, tim, kw):
                    r = e.call(f, [x], {kw[0]: e.new_list(coef), kw[1]: e.new_list(tim), "idtm": dtm}, None)
                    if form == "scalar":
                        return r if isinstance(r, N) else e.as_arr(r).content
                    return subst(e.as_arr(r).content, {IX[0]: num(2)})
                r = val(rs2, c, t, ("rs_coef", "rs_tim"))
                want = div(add(c[0], *[mul(c[i + 1], ex(neg(div(at, t[i])))) for i in range(n)]), add(*c))
                ctx.equal("mixed-layer response closed form n=%d %s" % (n, form), r, want, RF_FILE + ":rs_function2",
                          "mixed-layer response is not the normalised sum of exponentials", setup=st)
                r2 = val(rs2, [mul(g, q) for q in c], t, ("rs_coef", "rs_tim"))
                ctx.equal("mixed-layer response scale invariance n=%d %s" % (n, form), r, r2, RF_FILE + ":rs_function2",
                          "rescaling all coefficients changes the response", setup=st)
                r = val(rb2, c[:n], t, ("rb_coef", "rb_tim"))
                want = div(add(*[mul(c[i], div(mul(at, ex(neg(div(at, t[i])))), power(t[i], num(2)))) for i in range(n)]), add(*c[:n]))
                ctx.equal("biotic response closed form n=%d %s" % (n, form), r, want, RF_FILE + ":rb_function2",
                          "biotic response is not the normalised sum of delay kernels", setup=st)
                r2 = val(rb2, [mul(g, q) for q in c[:n]], t, ("rb_coef", "rb_tim"))
                ctx.equal("biotic response scale invariance n=%d %s" % (n, form), r, r2, RF_FILE + ":rb_function2",
                          "rescaling all coefficients changes the response", setup=st)
        with ctx.section("rs2 at zero n=%d" % n):
            r = e.call(rs2, [num(0)], {"rs_coef": e.new_list(c), "rs_tim": e.new_list(t), "idtm": dtm}, None)
            ctx.equal("mixed-layer response starts at one n=%d" % n, r if isinstance(r, N) else e.as_arr(r).content, ONE,
                      RF_FILE + ":rs_function2", "a pulse is not fully in the mixed layer at time zero", setup=st)

    def st(rng):
        return {it: rng.choice([rng.randrange(0, 8), rng.randrange(0, 400)]), dtm: rng.choice([1, 2, 4, 12, 24])}
    with ctx.section("default functions"):
        for nm, f, oracle in (("rs_function", rs, rs_default), ("rb_function", rb, rb_default)):
            r = e.call(f, [it], {"idtm": dtm}, None)
            t = T.ref(nm, lambda V, *a, o=oracle: o(V.num(time)), it, dtm)
            ctx.equal("default %s closed form" % nm, r, t, RF_FILE + ":" + nm, "default response differs from the published fit",
                      setup=st, trials=60)
    # flat parameters (as sampled by distributions) are the same as nested ones
    for order in ("sorted", "reversed"):
        with ctx.section("flat parameters %s" % order):
            names = ["rs_coef0", "rs_coef1", "rs_coef2", "rs_tim0", "rs_tim1", "rb_coef0", "rb_coef1", "rb_tim0", "rb_tim1"]
            if order == "reversed":
                names = names[::-1]
            e1 = ctx.engine()
            _, m1, keys = build(ctx, DEF_MOD, 2, 3, extra={k: sym("q_" + k) for k in names}, e=e1)
            e2 = ctx.engine()

            def nest(p, nc, nt):
                return e2.new_dict([(string("coeffs"), e2.new_list([sym("q_%s_coef%d" % (p, i)) for i in range(nc)])),
                                    (string("timescales"), e2.new_list([sym("q_%s_tim%d" % (p, i)) for i in range(nt)]))])
            _, m2, keys = build(ctx, DEF_MOD, 2, 3, extra=dict(rs_function=nest("rs", 3, 2), rb_function=nest("rb", 2, 2)), e=e2)
            a, b = steps(e1, m1, 3), steps(e2, m2, 3)
            for y in range(3):
                ctx.equal("flat == nested response parameters (%s), year %d" % (order, y), a[y], b[y], RF_FILE + ":_process_flat_carbon_parameters",
                          "indexed rs_/rb_ parameters give another response than the same nested ones", setup=setup(DEF_RANGE, 3))
