"""C01-C06, C10, C13: one layer at a time, against the derivative of its real forward pass."""
from .common import *


def _fn_products(lay, b, prods, wrts=("input", "weight"), ks=(2,), vals=("none", "given"), layout=None):
    def fn(ctx):
        m, x = setup(ctx, lay, b)
        prepare(ctx, m, x, layout)
        x = relay(x, layout)
        val = relay(m(x), layout)
        nout = val[0].numel()
        J = JCache(ctx, lay, m, val, x)
        for wrt in wrts:
            n = J.n(wrt)
            for p in prods:
                for k in ks:
                    a = relay(p.arg(ctx, b, n, nout, k, tag=wrt[0] + str(k)), layout)
                    for v in vals:
                        allow = NIE if p.forward and not lay.fwd else ()
                        no, r = attempt(lambda: p.call(m, x, val if v == "given" else None, a, wrt), allow)
                        if no:
                            continue
                        ctx.eq(
                            "%s wrt %s%s (val %s)" % (p.label, wrt, " k=%d" % k if p.name in ("jmp", "mjp") else "", v),
                            r,
                            lambda: terms_or_none(p.want(J(wrt), a)),
                        )
                    if p.name not in ("jmp", "mjp"):
                        break

    return in_state(layout, fn)


def _bounds(lay, b):
    return "%s, batch %d, input %s, all real inputs, weights, vectors and matrices" % (lay.name, b, lay.shape)


def _sc(name, lay, b, fn, **kw):
    return Scenario("%s b=%d %s" % (lay.name, b, name), fn, bounds=_bounds(lay, b), **kw)


def sized(lim_batch=1100, lim_dim=66, base=(5, 9)):
    """configurations with one large dimension: (layer, batch)"""
    out = []
    C = nnj.Conv2d
    for s in sizes(lim_batch, base):
        out += [
            (Layer("Linear(1,1)", lambda: nnj.Linear(1, 1), (1,)), s),
            (Layer("Linear(2,2)", lambda: nnj.Linear(2, 2), (2,)), s),
            (Layer("ReLU one element", lambda: nnj.ReLU(), (1,)), s),
            (Layer("Tanh one element", lambda: nnj.Tanh(), (1,)), s),
            (Layer("Conv2d(1,1,1) one pixel", lambda: C(1, 1, 1), (1, 1, 1), fwd=False), s),
            (Layer("Conv2d(1,1,1,novmap) one pixel", lambda: C(1, 1, 1, use_vmap_for_backprop=False), (1, 1, 1), fwd=False), s),
            (Layer("Flatten one pixel", lambda: nnj.Flatten(), (1, 1, 1)), s),
            (Layer("Reshape(1)", lambda: nnj.Reshape(1), (1,)), s),
            (Layer("Upsample(2) one pixel", lambda: nnj.Upsample(scale_factor=2), (1, 1, 1), fwd=False), s),
            (Layer("Sinusoidal one element", lambda: nnj.Sinusoidal(), (1,)), s),
            (Layer("Sigmoid one element", lambda: nnj.Sigmoid(), (1,)), s),
        ]
    for s in sizes(min(lim_batch, 66), base):
        out += [
            (Layer("MaxPool2d((1,2)) one window", lambda: nnj.MaxPool2d((1, 2)), (1, 1, 2), fwd=False), s),
            (Layer("Conv2d(1,1,(1,2))", lambda: C(1, 1, (1, 2)), (1, 1, 3), fwd=False), s),
            (Layer("Softplus one element", lambda: nnj.Softplus(), (1,)), s),
            (Layer("TruncExp one element", lambda: nnj.TruncExp(), (1,), jac=trunc_jac), s),
            (Layer("L2Norm two elements", lambda: nnj.L2Norm(), (2,), pre=nonzero_norm), s),
        ]
    for s in sizes(lim_dim, base):
        h = max(1, s // 2)
        out += [
            (Layer("Linear(%d,1)" % s, lambda s=s: nnj.Linear(s, 1), (s,)), 1),
            (Layer("Linear(1,%d)" % s, lambda s=s: nnj.Linear(1, s), (1,)), 1),
            (Layer("Tanh-%d" % s, lambda: nnj.Tanh(), (s,)), 1),
            (Layer("ReLU-%d" % s, lambda: nnj.ReLU(), (s,)), 1),
            (Layer("Flatten-%d" % s, lambda: nnj.Flatten(), (1, 1, s)), 1),
            (Layer("Conv2d(%d,1,1)" % s, lambda s=s: C(s, 1, 1), (s, 1, 1), fwd=False), 1),
            (Layer("Conv2d(1,%d,1)" % s, lambda s=s: C(1, s, 1), (1, 1, 1), fwd=False), 1),
            (Layer("Conv2d(1,1,(1,2))-w%d" % s, lambda: C(1, 1, (1, 2)), (1, 1, s), fwd=False), 1),
            (Layer("Conv2d(1,1,(2,1),novmap)-h%d" % s, lambda: C(1, 1, (2, 1), use_vmap_for_backprop=False), (1, s, 1), fwd=False), 1),
            (Layer("Upsample(2)-w%d" % h, lambda: nnj.Upsample(scale_factor=2), (1, 1, h), fwd=False), 1),
            (Layer("Upsample(2)-%d channels" % s, lambda: nnj.Upsample(scale_factor=2), (s, 1, 1), fwd=False), 1),
        ]
    for s in sizes(min(lim_dim, 18), base):
        out += [
            (Layer("MaxPool2d((1,2))-%d channels" % s, lambda: nnj.MaxPool2d((1, 2)), (s, 1, 2), fwd=False), 1),
            (Layer("MaxPool2d((1,2))-w%d" % s, lambda: nnj.MaxPool2d((1, 2)), (1, 1, s), fwd=False), 1),
            (Layer("Conv2d(1,1,(1,%d))" % s, lambda s=s: C(1, 1, (1, s)), (1, 1, s + 1), fwd=False), 1),
            (Layer("Linear(%d,%d)" % (s, 3), lambda s=s: nnj.Linear(s, 3), (s,)), 2),
            (Layer("Linear(%d,%d)" % (3, s), lambda s=s: nnj.Linear(3, s), (3,)), 2),
            (Layer("Softplus-%d" % s, lambda: nnj.Softplus(), (s,)), 1),
        ]
        if s < 7:
            out.append((Layer("L2Norm-%d" % s, lambda: nnj.L2Norm(), (s,), pre=nonzero_norm), 1))
    return out


def grid(tier, bs=None, **kw):
    for lay in layers(tier):
        for b in bs or (2, 1, 3):
            if b == 3 and lay.big:
                continue
            yield lay, b
    if tier == "thorough":
        kw["base"] = (4, 5, 8, 9, 16, 17, 32, 33)
    seen = set()
    for lay, b in sized(**kw):
        if (lay.name, b) not in seen:
            seen.add((lay.name, b))
            yield lay, b


def laid_out(tier, prods, wrts=("input", "weight")):
    """inputs, outputs and arguments that are not contiguous in memory"""
    for lay in layers(tier):
        for kind in LAYOUTS:
            yield _sc("%s arguments" % kind, lay, 2, _fn_products(lay, 2, prods, wrts, layout=kind))
        for kind in STATES:
            yield _sc(kind, lay, 2, _fn_products(lay, 2, prods, wrts, layout=kind))


def l2norm_zero(ctx):
    """at the origin the norm has subgradient 0, as in autograd"""
    m = ctx.model(lambda: nnj.L2Norm(eps=0.25))
    x = ctx.const([[0.0, 0.0], [0.0, 0.0]])
    e = T.const(4)
    want = [[[e, 0], [0, e]]] * 2
    ctx.eq("jacobian at the origin", m.jacobian(x, None), lambda: Terms(want))
    v = ctx.tensor("v", 2, 2)
    ctx.eq("vjp at the origin", m.vjp(x, None, v), lambda: Terms(O.vj(want, O.L(v))))


def c01(tier):
    for lay, b in grid(tier):
        yield _sc("jacobian wrt input", lay, b, _fn_products(lay, b, [JAC], ("input",)))
    yield from laid_out(tier, [JAC], ("input",))
    yield Scenario("L2Norm at the origin", l2norm_zero, bounds="x = 0")
    for s in c_default_wrt():
        yield s


def c_default_wrt():
    def fn(ctx):
        m = ctx.model(lambda: nnj.Linear(2, 3))
        x = ctx.tensor("x", 2, 2)
        val = m(x)
        J = O.jac_input(val, x) if ctx.sym else None
        v, w, M = ctx.tensor("v", 2, 2), ctx.tensor("w", 2, 3), ctx.tensor("M", 2, 3, 3)
        ctx.eq("jacobian(x)", m.jacobian(x), lambda: Terms(J))
        ctx.eq("jvp default wrt", m.jvp(x, None, v), lambda: Terms(O.jv(J, O.L(v))))
        ctx.eq("vjp default wrt", m.vjp(x, None, w), lambda: Terms(O.vj(J, O.L(w))))
        ctx.eq("jTmjp default flags", m.jTmjp(x, None, M), lambda: Terms(O.jTmj(J, O.L(M), False, False)))

    yield Scenario("default arguments", fn, bounds="Linear(2,3), batch 2")


def c02(tier):
    for lay, b in grid(tier):
        yield _sc("jacobian wrt weight", lay, b, _fn_products(lay, b, [JAC], ("weight",)))
    yield from laid_out(tier, [JAC], ("weight",))
    for lay in layers(tier):
        def fn(ctx, lay=lay):
            m, x = setup(ctx, lay, 2)
            if nweights(m):
                val = m(x)
                J = JCache(ctx, lay, m, val, x)
                # the order of get_weight: derivative along each of its components
                g = m.get_weight()
                j = m.jacobian(x, val, wrt="weight")
                ctx.true("last dimension is len(get_weight())", j.shape[-1] == g.shape[0])
                ctx.eq(
                    "column k belongs to component k of get_weight()", j,
                    lambda: Terms([[T.grad(o, O.L(g)) for o in vs] for vs in O.flat(val)]),
                )
                return
            nout = m(x)[0].numel()
            for p in ALL:
                a = p.arg(ctx, 2, 0, nout)
                for v in (None, m(x)):
                    ctx.true("%s wrt weight is None without parameters" % p.label, p.call(m, x, v, a, "weight") is None)

        yield _sc("weights", lay, 2, fn)


def _split_conv(tier, prods, wrts=("input", "weight"), ks=(2,)):
    for lay, b in grid(tier):
        if lay.name.startswith(("Conv2d", "MaxPool2d", "Linear")):
            for w in wrts:
                yield _sc("wrt " + w, lay, b, _fn_products(lay, b, prods, (w,), ks))
        else:
            yield _sc("wrt input and weight", lay, b, _fn_products(lay, b, prods, wrts, ks))


def wide_arguments(prod):
    """many rows or columns at once"""
    C = nnj.Conv2d
    for k in sizes(1100, (9, 33)):
        for lay in (
            Layer("Linear(2,1)", lambda: nnj.Linear(2, 1), (2,)),
            Layer("Linear(2,2)", lambda: nnj.Linear(2, 2), (2,)),
            Layer("Conv2d(2,2,(1,2)) square", lambda: C(2, 2, (1, 2), padding=(0, 1), bias=False), (2, 1, 1), fwd=False),
            Layer("Linear(1,2)", lambda: nnj.Linear(1, 2), (1,)),
            Layer("Tanh two elements", lambda: nnj.Tanh(), (2,)),
            Layer("ReLU-img", lambda: nnj.ReLU(), (2, 1, 1)),
            Layer("Flatten", lambda: nnj.Flatten(), (2, 1, 1)),
            Layer("L2Norm", lambda: nnj.L2Norm(), (2,), pre=nonzero_norm),
            Layer("Conv2d(1,1,(1,2))", lambda: C(1, 1, (1, 2)), (1, 1, 3), fwd=False),
            Layer("Conv2d(1,2,1,novmap)", lambda: C(1, 2, 1, use_vmap_for_backprop=False), (1, 1, 1), fwd=False),
            Layer("MaxPool2d((1,2))", lambda: nnj.MaxPool2d((1, 2)), (1, 1, 2), fwd=False),
            Layer("Upsample(2)", lambda: nnj.Upsample(scale_factor=2), (2, 1, 1), fwd=False),
        ):
            if k > 100 and lay.name == "L2Norm":
                continue
            for b in (1, 2) if k < 40 else (1,):
                yield _sc("%s with k=%d" % (prod.name, k), lay, b, _fn_products(lay, b, [prod], ks=(k,)))


def c03(tier):
    yield from _split_conv(tier, FWD, ks=(2, 1, 5) if tier == "quick" else (2, 1, 3, 5))
    yield from wide_arguments(Prod("jmp"))
    yield from laid_out(tier, FWD)


def c04(tier):
    yield from _split_conv(tier, BWD, ks=(2, 1, 5) if tier == "quick" else (2, 1, 3, 5))
    yield from wide_arguments(Prod("mjp"))
    yield from laid_out(tier, BWD)


def c05(tier):
    yield from _split_conv(tier, JTMJ)
    yield from laid_out(tier, JTMJ)


def c06(tier):
    yield from _split_conv(tier, JMJT)
    yield from laid_out(tier, JMJT)


# ---------------------------------------------------------------------------------------------- C10
def _ident(p, q, b):
    """identity metric in the form the flag announces, as ids"""
    return [[1] * q for _ in range(b)] if p.fd else O.eye(b, q)


def none_metric(lay, b):
    def fn(ctx):
        m, x = setup(ctx, lay, b)
        val = m(x)
        nout = val[0].numel()
        J = JCache(ctx, lay, m, val, x)
        for wrt in ("input", "weight"):
            n = J.n(wrt)
            for p in JTMJ + JMJT:
                allow = NIE if p.forward and not lay.fwd else ()
                q = nout if p.name == "jTmjp" else n
                for v in (None, val):
                    no, r = attempt(lambda: p.call(m, x, v, None, wrt), allow)
                    if no:
                        continue

                    def want():
                        if J(wrt) is None:
                            return None
                        f = O.jTmj if p.name == "jTmjp" else O.jmjT
                        return Terms(f(J(wrt), _ident(p, q, b), p.fd, p.td))

                    ctx.eq("%s with None metric wrt %s" % (p.label, wrt), r, want)
            for name in ("mjp", "jmp"):
                for v in (None, val):
                    no, r = attempt(lambda: getattr(m, name)(x, v, None, wrt=wrt), NIE)
                    if not no:
                        ctx.eq("%s with None matrix wrt %s" % (name, wrt), r, lambda: terms_or_none(J(wrt)))

    return fn


def omitted_val(lay, b):
    """val=None against val=module(x): code against code"""

    def fn(ctx):
        m, x = setup(ctx, lay, b)
        val = m(x)
        nout = val[0].numel()
        for wrt in ("input", "weight"):
            n = x[0].numel() if wrt == "input" else nweights(m)
            for p in ALL:
                a = p.arg(ctx, b, n, nout, tag=wrt[0])
                allow = NIE if p.forward and not lay.fwd else ()
                no, r = attempt(lambda: p.call(m, x, None, a, wrt), allow)
                no2, s = attempt(lambda: p.call(m, x, val, a, wrt), allow)
                ctx.true("%s refused alike" % p.label, no == no2)
                if not no:
                    ctx.eq("%s wrt %s: val omitted / given" % (p.label, wrt), r, s)

    return fn


def c10(tier):
    for lay, b in grid(tier):
        yield _sc("None metric", lay, b, none_metric(lay, b))
    from .stacks import c10_stacks

    yield from c10_stacks(tier)
    for lay in layers(tier):
        yield _sc("val omitted or given", lay, 2, omitted_val(lay, 2))
        yield from in_states(lambda l: omitted_val(l, 2), lay, "val omitted or given")
        yield from in_states(lambda l: none_metric(l, 2), lay, "None metric")


# ---------------------------------------------------------------------------------------------- C13
class Custom(nnj.AbstractJacobian, nn.Module):
    """what the README asks of a user: forward and jacobian only"""

    def __init__(self, ctx, shape, J, Jw, y):
        super().__init__()
        self._n_params = 0 if Jw is None else Jw.shape[2]
        self.t = (J, Jw, y)
        self.vals = []

    def forward(self, x):
        return self.t[2].clone()

    def jacobian(self, x, val=None, wrt="input"):
        if val is None:
            val = self.forward(x)
        return self.t[0] if wrt == "input" else self.t[1]


class CustomDiag(nnj.AbstractDiagonalJacobian, nn.Module):
    def __init__(self, d, dw, shape):
        super().__init__()
        self._n_params = 0 if dw is None else dw.shape[1]
        self.t = (d, dw)

    def forward(self, x):
        return (self.t[0] * x.reshape(x.shape[0], -1)).reshape(x.shape)

    def jacobian(self, x, val=None, wrt="input", diag=False):
        if val is None:
            val = self.forward(x)
        d = self.t[0] if wrt == "input" else self.t[1]
        if d is None:
            return None
        return d if diag else torch.diag_embed(d)


def custom(b, nin_shape, out_shape, npar, k=3):
    nin, nout = numel(nin_shape), numel(out_shape)

    def fn(ctx):
        J = ctx.tensor("J", b, nout, nin)
        Jw = ctx.tensor("Jw", b, nout, npar) if npar else None
        x = ctx.tensor("x", b, *nin_shape)
        m = Custom(ctx, out_shape, J, Jw, ctx.tensor("y", b, *out_shape))
        for wrt, j, n in (("input", J, nin), ("weight", Jw, npar)):
            Ji = None if j is None or not ctx.sym else O.L(j)
            for p in ALL[1:]:
                for v in (None, m(x)):
                    a = p.arg(ctx, b, n, nout, k, tag=wrt[0])
                    ctx.eq("%s wrt %s" % (p.label, wrt), p.call(m, x, v, a, wrt), lambda: terms_or_none(p.want(Ji, a)))
                if p.metric:
                    q = nout if p.name == "jTmjp" else n
                    f = O.jTmj if p.name == "jTmjp" else O.jmjT
                    ctx.eq(
                        "%s None wrt %s" % (p.label, wrt), p.call(m, x, None, None, wrt),
                        lambda: None if Ji is None else Terms(f(Ji, _ident(p, q, b), p.fd, p.td)),
                    )
            for nm in ("jmp", "mjp"):
                ctx.eq("%s None wrt %s" % (nm, wrt), getattr(m, nm)(x, None, None, wrt=wrt), lambda: terms_or_none(Ji))
            for nm, q in (("jTmjp", nout), ("jmjTp", n)):
                d = ctx.tensor("db%s%s" % (nm, wrt[0]), b, q)
                p = Prod(nm, True, True)
                ctx.eq(
                    "%s diag_backprop wrt %s" % (nm, wrt), p.call(m, x, None, d, wrt, diag_backprop=True),
                    lambda: terms_or_none(p.want(Ji, d)),
                )

    return fn


def custom_diag(b, shape, par, k=3):
    n = numel(shape)

    def fn(ctx):
        d = ctx.tensor("d", b, n)
        dw = ctx.tensor("dw", b, n) if par else None
        x = ctx.tensor("x", b, *shape)
        m = CustomDiag(d, dw, shape)
        for wrt, j in (("input", d), ("weight", dw)):
            Ji = None if j is None or not ctx.sym else [O.diag(r) for r in O.L(j)]
            for p in ALL[1:]:
                for v in (None, m(x)):
                    a = p.arg(ctx, b, n, n, k, tag=wrt[0])
                    ctx.eq("%s wrt %s" % (p.label, wrt), p.call(m, x, v, a, wrt), lambda: terms_or_none(p.want(Ji, a)))
                if p.metric:
                    f = O.jTmj if p.name == "jTmjp" else O.jmjT
                    ctx.eq(
                        "%s None wrt %s" % (p.label, wrt), p.call(m, x, None, None, wrt),
                        lambda: None if Ji is None else Terms(f(Ji, _ident(p, n, b), p.fd, p.td)),
                    )
            for nm in ("jmp", "mjp"):
                ctx.eq("%s None wrt %s" % (nm, wrt), getattr(m, nm)(x, None, None, wrt=wrt), lambda: terms_or_none(Ji))
            for nm in ("jTmjp", "jmjTp"):
                q = ctx.tensor("db%s%s" % (nm, wrt[0]), b, n)
                p = Prod(nm, True, True)
                ctx.eq(
                    "%s diag_backprop wrt %s" % (nm, wrt), p.call(m, x, None, q, wrt, diag_backprop=True),
                    lambda: terms_or_none(p.want(Ji, q)),
                )

    return fn


def custom_in_stack(npar):
    """a custom layer between library layers"""

    def fn(ctx):
        lin = ctx.model(lambda: nnj.Linear(2, 3))
        J = ctx.tensor("J", 2, 2, 3)
        Jw = ctx.tensor("Jw", 2, 2, npar) if npar else None
        m = Custom(ctx, (2,), J, Jw, ctx.tensor("y", 2, 2))
        x = ctx.tensor("x", 2, 2)
        s = nnj.Sequential(lin, m)
        if ctx.sym:
            W = O.L(lin.weight)
            Ji = O.L(J)
            full = [O.mm(j, W) for j in Ji]
            jl = O.jac_weight(lin(x), list(lin.parameters()))
            jw = [[r + (q if npar else []) for r, q in zip(O.mm(j, l), w if npar else [None] * 2)] for j, l, w in zip(Ji, jl, O.L(Jw) if npar else [None] * 2)]
        v = ctx.tensor("v", 2, 2)
        M = ctx.tensor("M", 2, 2, 2)
        ctx.eq("stack jacobian", s.jacobian(x), lambda: Terms(full))
        ctx.eq("stack vjp wrt weight", s.vjp(x, None, v, wrt="weight"), lambda: Terms(O.vj(jw, O.L(v))))
        ctx.eq("stack jTmjp", s.jTmjp(x, None, M), lambda: Terms(O.jTmj(full, O.L(M), False, False)))
        ctx.eq("stack jTmjp to diag wrt weight", s.jTmjp(x, None, M, wrt="weight", to_diag=True), lambda: Terms(O.jTmj(jw, O.L(M), False, True)))
        u = ctx.tensor("u", 2, lin.weight.numel() + 3 + npar)
        ctx.eq("stack jvp wrt weight", s.jvp(x, None, u, wrt="weight"), lambda: Terms(O.jv(jw, O.L(u))))

    return fn


def c13(tier):
    shapes = [((3,), (2,), 4), ((2,), (3,), 1), ((2,), (3,), 0), ((1, 2, 2), (2, 1), 2), ((2,), (2,), 2)]
    if tier == "thorough":
        shapes += [((5,), (4,), 6), ((1,), (3,), 2), ((4,), (1,), 3), ((2, 2, 2), (3,), 3)]
    for i, o, n in shapes:
        for b in (2,) if tier == "quick" else (1, 2, 3):
            yield Scenario("AbstractJacobian %s->%s, %d weights, b=%d" % (i, o, n, b), custom(b, i, o, n), bounds="arbitrary Jacobian entries")
    for s, par in [((3,), False), ((2,), True), ((1, 2, 1), True), ((2, 1, 2), False)]:
        for b in (2,) if tier == "quick" else (1, 2, 3):
            yield Scenario("AbstractDiagonalJacobian %s weights=%s b=%d" % (s, par, b), custom_diag(b, s, par), bounds="arbitrary diagonal Jacobians")
    for s in sizes(1100, (5, 9)):
        yield Scenario("AbstractJacobian batch %d" % s, custom(s, (1,), (1,), 1))
        yield Scenario("AbstractDiagonalJacobian batch %d" % s, custom_diag(s, (1,), True))
    for s in sizes(66, (5, 9)):
        yield Scenario("AbstractJacobian inputs %d" % s, custom(1, (s,), (1,), 1))
        yield Scenario("AbstractJacobian outputs %d" % s, custom(1, (1,), (s,), 1))
        yield Scenario("AbstractJacobian weights %d" % s, custom(1, (1,), (1,), s))
        yield Scenario("AbstractJacobian k=%d" % s, custom(1, (1,), (1,), 1, k=s))
        yield Scenario("AbstractDiagonalJacobian %d" % s, custom_diag(1, (s,), True))
        yield Scenario("AbstractDiagonalJacobian k=%d" % s, custom_diag(1, (2,), True, k=s))
    yield Scenario("custom layer with weights in a stack", custom_in_stack(2))
    yield Scenario("custom layer without weights in a stack", custom_in_stack(0))
