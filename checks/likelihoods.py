"""C14, C15 and the likelihood parts of C12, C22."""
import warnings

from .common import *
from .stacks import Stack, back_diag, chain, rows, weight_chain

Seq, Skip, Lin = nnj.Sequential, nnj.SkipConnection, nnj.Linear

LIKE = {"LogGaussian": nnj.LogGaussian, "LogBinaryBernoulli": nnj.LogBinaryBernoulli, "LogBernoulli": nnj.LogBernoulli}
AGG = ["return all", "sum", "average"]


class Model:
    def __init__(self, name, build, shape, out, pre=None):
        self.name, self.build, self.shape, self.out, self.pre = name, build, shape, out, pre


def models(tier="quick"):
    C = nnj.Conv2d
    out = [
        Model("Lin(2,2)", lambda: Lin(2, 2), (2,), (2,)),
        Model("Seq(Lin-Tanh-Lin)", lambda: Seq(Lin(1, 2), nnj.Tanh(), Lin(2, 2)), (1,), (2,)),
        Model("Seq(Lin,Seq(Sin,Lin))", lambda: Seq(Lin(1, 1), Seq(nnj.Sinusoidal(), Lin(1, 3, bias=False))), (1,), (3,)),
        Model("Seq(Lin,Reshape)", lambda: Seq(Lin(1, 4), nnj.Reshape(2, 2)), (1,), (2, 2)),
        Model("Seq(Conv,Tanh)", lambda: Seq(C(1, 2, (1, 2)), nnj.Tanh()), (1, 1, 3), (2, 1, 2)),
        Model("Skip(Lin)", lambda: Skip(Lin(1, 2)), (1,), (3,)),
        Model("Seq(Lin,Skip,Lin)", lambda: Seq(Lin(1, 1), Skip(nnj.Tanh(), Lin(1, 1)), Lin(2, 2)), (1,), (2,)),
        Model("Conv2d", lambda: C(1, 1, (1, 2)), (1, 1, 3), (1, 1, 2)),
    ]
    if tier == "thorough":
        out += [
            Model("Seq(Lin-ReLU-Lin)", lambda: Seq(Lin(2, 3), nnj.ReLU(), Lin(3, 2)), (2,), (2,)),
            Model("Seq(Lin,Reshape(2,1,3))", lambda: Seq(Lin(1, 6), nnj.Reshape(2, 1, 3)), (1,), (2, 1, 3)),
            Model("Seq(Conv,MaxPool,Flatten,Lin)", lambda: Seq(C(1, 1, (1, 2)), nnj.MaxPool2d((1, 2)), nnj.Flatten(), Lin(1, 2)), (1, 1, 3), (2,)),
            Model("Lin(2,1)", lambda: Lin(2, 1), (2,), (1,)),
            Model("Lin(1,5)", lambda: Lin(1, 5), (1,), (5,)),
        ]
    return out


def target(ctx, like, name, b, out):
    """an arbitrary valid target"""
    if like == "LogGaussian":
        return ctx.tensor(name, b, *out)
    if like == "LogBinaryBernoulli":
        t = ctx.tensor(name, b, *out, unit=True)
        return t
    c = out[-1]
    if c == 1:
        with no_mode():
            t = torch.ones((b,) + tuple(out), dtype=ctx.dtype)
            return E.lift(t) if ctx.sym else t
    t = ctx.tensor(name, b, *(tuple(out[:-1]) + (c - 1,)), unit=True)
    last = 1 - t.sum(dim=-1, keepdim=True)
    if ctx.sym and c > 2:
        for i in E.ids_of(last).reshape(-1).tolist():
            ctx.assume(T.ge(i, 0))
    return torch.cat([t, last], dim=-1)


def grid_rows(t, c):
    """(b, l, c) nested ids: groups over the last dimension"""
    i = E.ids_of(t)
    return i.reshape(i.shape[0], -1, c).tolist()


def log_prob(like, val, tgt):
    """oracle: [log-probability of each sample] as terms, up to a constant"""
    out = []
    c = val.shape[-1]
    for vs, ts in zip(grid_rows(val, c), grid_rows(tgt, c)):
        acc = []
        for v, t in zip(vs, ts):
            if like == "LogGaussian":
                acc += [T.scale(T.powi(T.sub(a, d), 2), T.Fraction(-1, 2)) for a, d in zip(v, t)]
            elif like == "LogBinaryBernoulli":
                # t log s(v) + (1-t) log(1-s(v)) = t v - log(1+e^v)
                acc += [T.sub(T.mul(d, a), T.fn("log", T.add(1, T.fn("exp", a)))) for a, d in zip(v, t)]
            else:
                lse = T.fn("log", T.addn([T.fn("exp", a) for a in v]))
                acc += [T.mul(d, T.sub(a, lse)) for a, d in zip(v, t)]
        out.append(T.addn(acc))
    return out


def hessian(like, val):
    """oracle: H[b] as (n x n) terms (closed form; closed_form_hessian shows it is the second derivative)"""
    out = []
    c = val.shape[-1]
    for vs in grid_rows(val, c):
        n = len(vs) * c
        H = [[0] * n for _ in range(n)]
        for g, v in enumerate(vs):
            if like == "LogGaussian":
                for i in range(c):
                    H[g * c + i][g * c + i] = T.const(-1)
            elif like == "LogBinaryBernoulli":
                for i in range(c):
                    s = T.fn("sigmoid", v[i])
                    H[g * c + i][g * c + i] = T.mul(s, T.sub(s, 1))
            else:
                e = [T.fn("exp", a) for a in v]
                z = T.addn(e)
                p = [T.div(a, z) for a in e]
                for i in range(c):
                    for j in range(c):
                        q = T.mul(p[i], p[j])
                        H[g * c + i][g * c + j] = T.sub(q, p[i]) if i == j else q
        out.append(H)
    return out


def agg(mode, per):
    """per: list over samples of nested id lists (or id)"""
    if mode == "return all":
        return per
    f = lambda *a: [f(*u) for u in zip(*a)] if isinstance(a[0], list) else (T.addn(list(a)) if mode == "sum" else T.scale(T.addn(list(a)), T.Fraction(1, len(a))))
    return f(*per)


# ---------------------------------------------------------------------------------------------- C14
def value(like, mode, b, out):
    """differences of values at two inputs and targets: the additive constant cancels"""

    def fn(ctx):
        m = Stub(ctx, "L", 1, out, 1)
        lk = LIKE[like](aggregate_batch=mode)
        x1, x2 = ctx.tensor("x", b, 1), ctx.tensor("y", b, 1)
        t1, t2 = target(ctx, like, "t", b, out), target(ctx, like, "u", b, out)
        a, c = lk(x1, m, t1), lk(x2, m, t2)
        v1, v2 = m(x1), m(x2)

        def want():
            p = [T.sub(p, q) for p, q in zip(log_prob(like, v1, t1), log_prob(like, v2, t2))]
            return Terms(agg(mode, p))

        ctx.eq("difference of two values", a - c, want)

    return fn


def stub_gradient(like, mode, b, out):
    def fn(ctx):
        m = Stub(ctx, "L", 2, out, 3)
        lk = LIKE[like](aggregate_batch=mode)
        x = ctx.tensor("x", b, 2)
        t = target(ctx, like, "t", b, out)
        val = m(x)

        def want(wrt):
            g = [T.grad(p, v) for p, v in zip(log_prob(like, val, t), O.flat(val))]
            return Terms(agg(mode, O.vj(m.oJ(x, wrt), g)))

        for wrt in ("weight", "input"):
            ctx.eq("gradient wrt %s" % wrt, lk.gradient(x, m, t, wrt=wrt), lambda: want(wrt))
        ctx.eq("gradient (default wrt weight)", lk.gradient(x, m, t), lambda: want("weight"))

    return fn


def real_gradient(like, mode, b, mod, layout=None):
    """the derivative of the value, taken through the whole real model"""

    def fn(ctx):
        m = ctx.model(mod.build)
        lk = LIKE[like](aggregate_batch=mode)
        x = ctx.tensor("x", b, *mod.shape)
        prepare(ctx, m, x, layout)
        x = relay(x, layout)
        t = relay(target(ctx, like, "t", b, mod.out), layout)
        val = m(x)

        def want(wrt, lp):
            ps = O.param_ids(list(m.parameters()))
            g = [T.grad(p, ps if wrt == "weight" else xs) for p, xs in zip(lp, O.flat(x))]
            return Terms(agg(mode, g))

        for wrt in ("weight", "input"):
            r = lk.gradient(x, m, t, wrt=wrt)
            ctx.eq("gradient wrt %s" % wrt, r, lambda: want(wrt, log_prob(like, val, t)))

    return in_state(layout, fn)


def reused(like, mod, kind, b=2):
    """a likelihood object and a model used before with other inputs, targets and weights"""

    def fn(ctx):
        m = ctx.model(mod.build)
        lk = LIKE[like](metric_shape="full") if kind == "full" else LIKE[like]()
        x, y, z = ctx.tensor("x", b, *mod.shape), ctx.tensor("y", b, *mod.shape), ctx.tensor("z", b + 1, *mod.shape)
        t, u, w = target(ctx, like, "t", b, mod.out), target(ctx, like, "u", b, mod.out), target(ctx, like, "w", b + 1, mod.out)
        what = ("forward", "gradient") if kind == "gradient" else ("ggn",)

        def use(l, name, at, model, tgt, wrt):
            if name == "forward":
                return l(at, model, tgt)
            return getattr(l, name)(at, model, tgt, wrt=wrt)

        first = ctx.choose(2 * len(what))
        for wrt in ("weight", "input")[first % 2 :][:1]:
            for name in what[first // 2 :][:1]:
                k = ctx.choose(7)
                mm = m
                if k == 0:
                    lk(y, m, u)
                elif k == 1:
                    lk.gradient(y, m, u, wrt=wrt)
                    lk.ggn(y, m, wrt=wrt)
                elif k == 2:
                    lk(z, m, w)
                    lk.ggn(z, m, wrt=wrt)
                elif k == 3:
                    lk(x, m, u)
                    lk.gradient(x, m, u, wrt=wrt)
                elif k == 4:
                    lk(x, m, t)
                    lk.gradient(x, m, t, wrt=wrt)
                    lk.ggn(x, m, wrt=wrt)
                    m.set_weight(ctx.tensor("nw", nweights(m)))
                elif k == 5:
                    lk(x, m, t)
                    lk.ggn(x, m, wrt=wrt)
                    mm = ctx.model(mod.build)  # another model with the same input
                else:
                    v = y.clone()
                    lk(v, m, t)
                    lk.gradient(v, m, t, wrt=wrt)
                    lk.ggn(v, m, wrt=wrt)
                    with torch.no_grad():
                        v.copy_(x)
                    x = v  # the same tensor object, refilled
                fresh = ctx.model(mod.build)
                with torch.no_grad():
                    for p, q in zip(mm.parameters(), fresh.parameters()):
                        q.copy_(p)
                l2 = LIKE[like](metric_shape="full") if kind == "full" else LIKE[like]()
                r = use(lk, name, x, mm, t, wrt)
                ctx.eq("%s wrt %s after history %d" % (name, wrt, k), r, use(l2, name, x, fresh, t, wrt))
                ctx.eq("%s wrt %s again" % (name, wrt), use(lk, name, x, mm, t, wrt), r)
                if name == "ggn":
                    ctx.eq("ggn wrt %s does not depend on the target" % wrt, lk.ggn(x, mm, wrt=wrt), r)

    return fn


def typed_target(like, kind, b, out, shift):
    """a target of another type than the outputs: whole numbers, class memberships"""
    with no_mode():
        n = numel(out)
        t = torch.arange(b * n).reshape((b,) + tuple(out)) + shift
        if like == "LogGaussian":
            t = t % 4
        elif like == "LogBinaryBernoulli":
            t = t % 3 % 2
        else:
            c = out[-1]
            t = torch.nn.functional.one_hot((torch.arange(b * n // c) + shift) % c, c).reshape((b,) + tuple(out))
        return t.to(kind)


def typed(like, mode, b, out, kind):
    """targets given as integers: the same as the equal numbers in the type of the outputs"""

    def fn(ctx):
        m = Stub(ctx, "L", 2, out, 3)
        lk = LIKE[like](aggregate_batch=mode)
        x = ctx.tensor("x", b, 2)
        for shift in (0, 1):
            t = typed_target(like, kind, b, out, shift)
            with no_mode():
                f = t.to(ctx.dtype)
            f = E.lift(f) if ctx.sym else f
            allow = RuntimeError if kind is torch.bool else ()
            for what, call in (
                ("value", lambda u: lk(x, m, u)),
                ("gradient wrt weight", lambda u: lk.gradient(x, m, u, wrt="weight")),
                ("gradient wrt input", lambda u: lk.gradient(x, m, u, wrt="input")),
                ("ggn", lambda u: lk.ggn(x, m, u)),
            ):
                no, r = attempt(lambda: call(t), allow)  # torch refuses some arithmetic with booleans
                if not no:
                    ctx.eq("%s with a target of type %s" % (what, kind), r, call(f))

    return fn


OUTS = [(2,), (3,), (2, 2), (1, 2, 2), (1,)]


def c14(tier):
    for like in LIKE:
        for mode in AGG:
            for b in (2, 1) if tier == "quick" else (3, 2, 1):
                for out in OUTS:
                    yield Scenario("%s %s value, b=%d, outputs %s" % (like, mode, b, out), value(like, mode, b, out), bounds="arbitrary model outputs")
                    yield Scenario("%s %s gradient, b=%d, outputs %s, arbitrary model" % (like, mode, b, out), stub_gradient(like, mode, b, out), bounds="arbitrary model outputs and Jacobian")
        for k, mod in enumerate(models(tier)):
            for mode in AGG if tier == "thorough" or k < 2 else AGG[:1] + AGG[2:]:
                yield Scenario("%s %s gradient of %s" % (like, mode, mod.name), real_gradient(like, mode, 2, mod), bounds="batch 2")
        for mode in AGG:
            for kind in (torch.int64, torch.int32, torch.uint8, torch.bool):
                for out in OUTS[:3]:
                    yield Scenario("%s %s target of type %s, outputs %s" % (like, mode, kind, out), typed(like, mode, 2, out, kind), bounds="batch 2, some whole-number targets, arbitrary model outputs")
        for mod in models(tier)[:6] if tier == "quick" else models(tier):
            for kind in LAYOUTS + STATES:
                yield Scenario("%s gradient of %s, %s" % (like, mod.name, kind), real_gradient(like, "return all", 2, mod, kind), bounds="batch 2")
        for k in (1, 3, 6):
            yield Scenario("%s used before, %s" % (like, models()[k].name), reused(like, models()[k], "gradient"), max_paths=600, bounds="histories of likelihood calls")
        for n in sizes(300, (5,)):
            yield Scenario("%s value, batch %d" % (like, n), value(like, "average", n, (1,)))
            yield Scenario("%s gradient, batch %d" % (like, n), stub_gradient(like, "average", n, (1,)))
        for n in sizes(34, (5,)):
            yield Scenario("%s value, outputs %d" % (like, n), value(like, "return all", 1, (n,)))
            yield Scenario("%s gradient, outputs %d" % (like, n), stub_gradient(like, "return all", 1, (n,)))
            yield Scenario("%s value, %d groups" % (like, n), value(like, "sum", 1, (n, 1)))
            yield Scenario("%s gradient, %d groups" % (like, n), stub_gradient(like, "sum", 1, (n, 1)))
        yield Scenario("%s default and None aggregation" % like, defaults(like))


def defaults(like):
    """LogX() and aggregate_batch=None return one value per sample"""

    def fn(ctx):
        m = Stub(ctx, "L", 1, (2,), 1)
        x, t = ctx.tensor("x", 2, 1), target(ctx, like, "t", 2, (2,))
        ref = LIKE[like](aggregate_batch="return all")
        for lk in (LIKE[like](), LIKE[like](aggregate_batch=None)):
            ctx.eq("value", lk(x, m, t), ref(x, m, t))
            ctx.eq("gradient", lk.gradient(x, m, t), ref.gradient(x, m, t))
            ctx.eq("ggn", lk.ggn(x, m), ref.ggn(x, m))

    return fn


# ---------------------------------------------------------------------------------------------- C15
def closed_form_hessian(like, out):
    """the closed form used as reference is the second derivative of the log-probability"""

    def fn(ctx):
        v = ctx.tensor("v", 1, *out)
        t = target(ctx, like, "t", 1, out)
        if ctx.sym:
            lp = log_prob(like, v, t)[0]
            vs = O.flat(v)[0]
            H = [T.grad(g, vs) for g in T.grad(lp, vs)]
            ctx.eq("Hessian", Terms(H), Terms(hessian(like, v)[0]))

    return fn


def stub_ggn(like, mode, b, out, shape="both"):
    def fn(ctx):
        m = Stub(ctx, "L", 2, out, 2)
        x = ctx.tensor("x", b, 2)
        val = m(x)
        for sh in ("diag", "full"):
            lk = LIKE[like](aggregate_batch=mode, metric_shape=sh)
            for wrt in ("weight", "input"):
                ctx.eq(
                    "ggn %s wrt %s" % (sh, wrt), lk.ggn(x, m, wrt=wrt),
                    lambda: Terms(agg(mode, O.jTmj(m.oJ(x, wrt), hessian(like, val), False, sh == "diag"))),
                )
            ctx.eq(
                "ggn %s (default wrt weight)" % sh, lk.ggn(x, m),
                lambda: Terms(agg(mode, O.jTmj(m.oJ(x, "weight"), hessian(like, val), False, sh == "diag"))),
            )

    return fn


def real_ggn(like, mode, b, mod, sh, wrt, layout=None):
    def fn(ctx):
        m = ctx.model(mod.build)
        lk = LIKE[like](aggregate_batch=mode, metric_shape=sh)
        x = ctx.tensor("x", b, *mod.shape)
        prepare(ctx, m, x, layout)
        x = relay(x, layout)
        val = m(x)

        def want():
            J = O.jac_weight(val, list(m.parameters())) if wrt == "weight" else O.jac_input(val, x)
            H = hessian(like, val)
            if wrt == "weight" and sh == "full" and isinstance(m, (Seq, Skip)):

                def rec(bl):
                    if isinstance(bl, tuple):
                        return Terms(agg(mode, O.jTmj(cols(J, *bl), H, False, False)))
                    return [rec(c) for c in bl]

                return rec(leaf_blocks(m))
            return Terms(agg(mode, O.jTmj(J, H, False, sh == "diag")))

        ctx.eq("ggn %s wrt %s" % (sh, wrt), lk.ggn(x, m, wrt=wrt), lambda: want() if ctx.sym else None)

    return in_state(layout, fn)


def approx_ggn(like, mode, b, mod):
    """metric_backprop='approx': the layer-wise exact diagonals"""

    def fn(ctx):
        m = ctx.model(mod.build)
        lk = LIKE[like](aggregate_batch=mode, metric_shape="diag", metric_backprop="approx")
        x = ctx.tensor("x", b, *mod.shape)
        val = m(x)
        if like == "LogGaussian":
            h = -torch.ones_like(val).reshape(b, -1)
        else:
            s = torch.sigmoid(val).reshape(b, -1)
            h = s * (s - 1)
        di, dw = back_diag(m, x, h, None)
        for wrt, d in (("input", di), ("weight", dw)):
            if mode == "sum":
                d = d.sum(0)
            elif mode == "average":
                d = d.sum(0) / b
            ctx.eq("approximate ggn wrt %s" % wrt, lk.ggn(x, m, wrt=wrt), d)

    return fn


def exact_approx_single(like):
    """for a single layer the approximation is the exact diagonal"""

    def fn(ctx):
        for build in (lambda: Lin(2, 2), lambda: Seq(Lin(2, 2))):
            m = ctx.model(build)
            x = ctx.tensor("x", 2, 2)
            for wrt in ("input", "weight"):
                a = LIKE[like](metric_backprop="approx").ggn(x, m, wrt=wrt)
                e = LIKE[like](metric_backprop="exact").ggn(x, m, wrt=wrt)
                ctx.eq("approximate and exact ggn wrt %s" % wrt, a, e)

    return fn


def c15(tier):
    for like in LIKE:
        for out in OUTS + [(2, 3), (2, 1, 2)]:
            yield Scenario("%s Hessian, outputs %s" % (like, out), closed_form_hessian(like, out))
            for mode in AGG:
                for b in (2, 1) if tier == "quick" else (3, 2, 1):
                    yield Scenario("%s %s ggn, b=%d, outputs %s, arbitrary model" % (like, mode, b, out), stub_ggn(like, mode, b, out), bounds="arbitrary model outputs and Jacobian")
        for k, mod in enumerate(models(tier)):
            for sh in ("diag", "full"):
                for wrt in ("weight", "input"):
                    for mode in AGG if tier == "thorough" else [AGG[(k + (sh == "full")) % 3], AGG[(k + 1 + (sh == "full")) % 3]]:
                        yield Scenario("%s %s ggn %s of %s wrt %s" % (like, mode, sh, mod.name, wrt), real_ggn(like, mode, 2, mod, sh, wrt), bounds="batch 2")
            if like != "LogBernoulli":
                for mode in AGG:
                    yield Scenario("%s %s approximate ggn of %s" % (like, mode, mod.name), approx_ggn(like, mode, 2, mod), bounds="batch 2")
        for mod in models(tier)[:6] if tier == "quick" else models(tier):
            for kind in LAYOUTS + STATES:
                for sh in ("diag", "full"):
                    yield Scenario("%s ggn %s of %s, %s" % (like, sh, mod.name, kind), real_ggn(like, "return all", 2, mod, sh, "weight", kind), bounds="batch 2")
        for k in (1, 3, 6):
            for sh in ("diag", "full"):
                yield Scenario("%s ggn %s used before, %s" % (like, sh, models()[k].name), reused(like, models()[k], sh), max_paths=600, bounds="histories of likelihood calls")
        for n in sizes(300, (5,)):
            yield Scenario("%s ggn, batch %d" % (like, n), stub_ggn(like, "average", n, (1,)))
        for n in sizes(18, (5,)):
            yield Scenario("%s ggn, outputs %d" % (like, n), stub_ggn(like, "return all", 1, (n,)))
            yield Scenario("%s ggn, %d groups" % (like, n), stub_ggn(like, "return all", 1, (n, 1)))
        if like != "LogBernoulli":
            yield Scenario("%s approximate ggn of one layer" % like, exact_approx_single(like))
        yield Scenario("%s default and None aggregation" % like, defaults(like))


# ---------------------------------------------------------------------------------------------- C22, C12
def like_rows(like, mod, b):
    def fn(ctx):
        m = ctx.model(mod.build) if mod else Stub(ctx, "L", 2, (2, 2), 2)
        x = ctx.tensor("x", b, *(mod.shape if mod else (2,)))
        t = target(ctx, like, "t", b, mod.out if mod else (2, 2))
        lk = LIKE[like](aggregate_batch="return all", metric_shape="full")
        ld = LIKE[like](aggregate_batch="return all", metric_shape="diag")
        v = lk(x, m, t)
        ctx.true("one value per sample", tuple(v.shape) == (b,))
        for k in range(b):
            s = slice(k, k + 1)
            ctx.eq("value of row %d" % k, v[s], lk(x[s], m, t[s]))
        for wrt in ("weight", "input"):
            for nm, f in (("gradient", lambda a, c: lk.gradient(a, m, c, wrt=wrt)), ("full ggn", lambda a, c: lk.ggn(a, m, c, wrt=wrt)), ("diagonal ggn", lambda a, c: ld.ggn(a, m, c, wrt=wrt))):
                r = f(x, t)
                for k in range(b):
                    s = slice(k, k + 1)
                    ctx.eq("%s wrt %s of row %d" % (nm, wrt, k), rows(r, k), f(x[s], t[s]))

    return fn


def batch_like(tier):
    for like in LIKE:
        for mod in [None] + models(tier)[:5]:
            for b in (2, 3):
                yield Scenario("%s rows b=%d of %s" % (like, b, mod.name if mod else "an arbitrary model"), like_rows(like, mod, b), bounds="batch %d" % b)
        for n in sizes(34, (5,)):
            yield Scenario("%s rows b=%d of Lin(1,1)" % (like, n), like_rows(like, Model("", lambda: Lin(1, 1), (1,), (1,)), n), bounds="batch %d" % n)


def like_mutation(like, mod):
    def fn(ctx):
        m = ctx.model(mod.build)
        x = ctx.tensor("x", 2, *mod.shape)
        t = target(ctx, like, "t", 2, mod.out)
        W = {"weight %d" % k: p for k, p in enumerate(m.parameters())}
        for mode in AGG:
            for sh in ("full", "diag"):
                lk = LIKE[like](aggregate_batch=mode, metric_shape=sh)
                g = Guard(x=x, target=t, **W)
                lk(x, m, t)
                g.check(ctx, "likelihood")
                for wrt in ("weight", "input"):
                    lk.gradient(x, m, t, wrt=wrt)
                    g.check(ctx, "gradient wrt " + wrt)
                    lk.ggn(x, m, t, wrt=wrt)
                    g.check(ctx, "ggn wrt " + wrt)
                    if sh == "diag" and like != "LogBernoulli":
                        LIKE[like](aggregate_batch=mode, metric_shape=sh, metric_backprop="approx").ggn(x, m, t, wrt=wrt)
                        g.check(ctx, "approximate ggn wrt " + wrt)

    return fn


def mutation_like(tier):
    for like in LIKE:
        for mod in models(tier):
            yield Scenario("%s leaves its arguments: %s" % (like, mod.name), like_mutation(like, mod), bounds="batch 2")
