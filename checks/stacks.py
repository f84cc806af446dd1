"""C07-C09, C11, C12, C22, C23 and the stack part of C10: models made of several layers."""
import copy
from collections import OrderedDict

from .common import *

Seq, Skip, Lin = nnj.Sequential, nnj.SkipConnection, nnj.Linear


class Stack:
    def __init__(self, name, build, shape, fwd=True, wide=True, pre=None):
        self.name, self.build, self.shape, self.fwd, self.wide, self.pre = name, build, shape, fwd, wide, pre
        self.jac = None


def small_inputs(ctx, x):
    """TruncExp as first layer: its documented clamp is inactive"""
    if ctx.sym:
        for i in E.ids_of(x).reshape(-1).tolist():
            ctx.assume(T.ge(T.const(15), i))
            ctx.assume(T.ge(i, T.const(-15)))


def nz(ctx, x):
    nonzero_norm(ctx, x)


def stacks(tier="quick"):
    C = nnj.Conv2d
    out = [
        Stack("Lin-Tanh-Lin", lambda: Seq(Lin(2, 3), nnj.Tanh(), Lin(3, 2)), (2,)),
        Stack("Lin-ReLU-Lin-Sigmoid", lambda: Seq(Lin(2, 2), nnj.ReLU(), Lin(2, 2, bias=False), nnj.Sigmoid()), (2,)),
        Stack("Tanh-Lin-Sin", lambda: Seq(nnj.Tanh(), Lin(2, 3), nnj.Sinusoidal()), (2,)),
        Stack("single Lin", lambda: Seq(Lin(3, 2)), (3,)),
        Stack("Lin-Lin-Lin", lambda: Seq(Lin(2, 3), Lin(3, 1, bias=False), Lin(1, 2)), (2,)),
        Stack("Tanh-Sin (no weights)", lambda: Seq(nnj.Tanh(), nnj.Sinusoidal()), (2,)),
        Stack("nested", lambda: Seq(Lin(2, 2), Seq(nnj.Tanh(), Lin(2, 3)), Seq(nnj.ReLU()), Lin(3, 1)), (2,)),
        Stack("nested twice", lambda: Seq(Seq(Seq(Lin(2, 2), nnj.Sigmoid()), Lin(2, 1)), Seq(Lin(1, 2))), (2,)),
        Stack("Reshape-Tanh-Flatten-Lin", lambda: Seq(Lin(2, 4), nnj.Reshape(2, 1, 2), nnj.Tanh(), nnj.Flatten(), Lin(4, 2)), (2,)),
        Stack("Flatten first", lambda: Seq(nnj.Flatten(), Lin(4, 2), nnj.ReLU()), (1, 2, 2)),
        Stack("image activation", lambda: Seq(nnj.Tanh(), nnj.Flatten(), Lin(4, 1)), (2, 1, 2)),
        Stack("Softplus-Lin", lambda: Seq(nnj.Softplus(), Lin(2, 2)), (2,)),
        Stack("TruncExp-Lin", lambda: Seq(nnj.TruncExp(), Lin(2, 2)), (2,), pre=small_inputs),
        Stack("L2Norm-Lin", lambda: Seq(nnj.L2Norm(eps=0.5), Lin(2, 2)), (2,), pre=nz),
        Stack("Conv-ReLU-Flatten-Lin", lambda: Seq(C(1, 2, 2), nnj.ReLU(), nnj.Flatten(), Lin(4, 1)), (1, 2, 3), fwd=False),
        Stack("Conv-MaxPool-Flatten", lambda: Seq(C(1, 1, (1, 2), padding=(0, 1)), nnj.MaxPool2d((1, 2)), nnj.Flatten()), (1, 1, 3), fwd=False),
        Stack("Reshape-Upsample-Conv", lambda: Seq(nnj.Reshape(1, 1, 2), nnj.Upsample(scale_factor=2), C(1, 2, (2, 3), bias=False)), (2,), fwd=False),
        Stack("Reshape only", lambda: Seq(nnj.Reshape(2, 1)), (2,)),
        Stack("Flatten-Reshape", lambda: Seq(nnj.Flatten(), nnj.Reshape(1, 2)), (2, 1)),
        Stack("Reshape-Lin", lambda: Seq(nnj.Reshape(2), Lin(2, 1)), (2,)),
        Stack("Lin-Flatten", lambda: Seq(Lin(2, 1), nnj.Flatten()), (2,)),
        Stack("widths of one", lambda: Seq(Lin(1, 1), nnj.Tanh(), Lin(1, 1, bias=False)), (1,)),
        Stack("one to many", lambda: Seq(Lin(1, 3), nnj.Sigmoid()), (1,)),
        Stack("many to one", lambda: Seq(nnj.Tanh(), Lin(3, 1)), (3,)),
        Stack("nested first, weights last", lambda: Seq(Seq(nnj.Tanh(), nnj.Reshape(1, 2)), Seq(nnj.Flatten(), Seq(Lin(2, 1)))), (2,)),
        Stack("three equal layers", lambda: Seq(Lin(1, 1), nnj.Tanh(), Lin(1, 1), Lin(1, 1)), (1,)),
        Stack("equal nested layers", lambda: Seq(Seq(Lin(1, 1)), nnj.Sinusoidal(), Seq(Lin(1, 1)), Skip(Lin(1, 1)), Lin(2, 1, bias=False)), (1,)),
        Stack("equal wide layers", lambda: Seq(Lin(2, 2), Lin(2, 2)), (2,)),
        Stack("named layers", lambda: Seq(OrderedDict(first=Lin(1, 2), act=nnj.Tanh(), last=Lin(2, 1, bias=False))), (1,)),
        Stack("part of a stack", lambda: Seq(Lin(3, 1), nnj.Tanh(), Lin(1, 2), nnj.Sigmoid())[1:], (1,)),
        Stack("pairs", lambda: Seq(nnj.Sigmoid(), nnj.Flatten(), Lin(4, 1)), (2, 2)),
        Stack("Conv-Conv", lambda: Seq(C(1, 2, (1, 2)), C(2, 1, (2, 1), bias=False)), (1, 2, 2), fwd=False),
        Stack("MaxPool-Upsample", lambda: Seq(nnj.MaxPool2d((1, 2)), nnj.Upsample(scale_factor=2)), (1, 1, 2), fwd=False),
        Stack("Conv-Tanh-Conv(novmap)", lambda: Seq(C(1, 2, (1, 2)), nnj.Tanh(), C(2, 1, (2, 1), use_vmap_for_backprop=False)), (1, 2, 2), fwd=False),
    ]
    if tier == "thorough":
        out += [
            Stack("deep", lambda: Seq(Lin(2, 2), nnj.Tanh(), Lin(2, 2), nnj.ReLU(), Lin(2, 2), nnj.Sinusoidal(), Lin(2, 1)), (2,)),
            Stack("wide", lambda: Seq(Lin(3, 4), nnj.Sigmoid(), Lin(4, 3)), (3,)),
            Stack("Conv-Conv-MaxPool-Flatten-Lin", lambda: Seq(C(1, 2, 2, padding=1), C(2, 1, 2), nnj.MaxPool2d(2), nnj.Flatten(), Lin(1, 2)), (1, 2, 2), fwd=False),
            Stack("Sigmoid-Softplus", lambda: Seq(Lin(1, 2), nnj.Sigmoid(), Lin(2, 1), nnj.Softplus(beta=2.0, threshold=3.0)), (1,)),
            Stack("nested with conv", lambda: Seq(Seq(C(1, 1, 2), nnj.Tanh()), Seq(nnj.Flatten(), Lin(2, 2))), (1, 2, 3), fwd=False),
        ]
    return out


def skips(tier="quick"):
    C = nnj.Conv2d
    out = [
        Stack("Skip(Lin-Tanh)", lambda: Skip(Lin(2, 3), nnj.Tanh()), (2,)),
        Stack("Skip(Tanh) no weights", lambda: Skip(nnj.Tanh()), (2,)),
        Stack("Skip(Lin-ReLU-Lin)", lambda: Skip(Lin(2, 2), nnj.ReLU(), Lin(2, 1, bias=False)), (2,)),
        Stack("Skip(Skip)", lambda: Skip(Lin(2, 1), Skip(Lin(1, 2), nnj.Sinusoidal())), (2,)),
        Stack("Seq with Skip", lambda: Seq(Lin(2, 2), Skip(Lin(2, 1), nnj.Tanh()), Lin(3, 2)), (2,)),
        Stack("Seq ending in Skip", lambda: Seq(nnj.Tanh(), Skip(nnj.Sigmoid(), Lin(2, 2))), (2,)),
        Stack("Seq of Skips", lambda: Seq(Skip(nnj.Tanh()), Skip(Lin(4, 1)), Lin(5, 1)), (2,)),
        Stack("Skip with nested Seq", lambda: Skip(Seq(Lin(2, 2), nnj.Tanh()), Lin(2, 2)), (2,)),
        Stack("Skip(Reshape)", lambda: Skip(nnj.Reshape(2)), (2,)),
        Stack("pairs Skip(Tanh)", lambda: Skip(nnj.Tanh()), (2, 2)),
        Stack("Skip(Flatten)", lambda: Skip(nnj.Flatten()), (3,)),
        Stack("image Skip(Reshape)", lambda: Skip(nnj.Reshape(1, 1, 2)), (1, 1, 2)),
        Stack("Skip(Skip(Skip))", lambda: Skip(Skip(Skip(Lin(1, 1)))), (1,)),
        Stack("Skip(Lin) scalar", lambda: Skip(Lin(1, 1)), (1,)),
        Stack("Skip(Seq())-Lin", lambda: Seq(Skip(Seq(nnj.Reshape(2))), Lin(4, 1)), (2,)),
        Stack("image Skip(Upsample-MaxPool)", lambda: Skip(nnj.Upsample(scale_factor=2), nnj.MaxPool2d(2)), (1, 1, 2), fwd=False),
        Stack("image Skip(Conv)", lambda: Skip(C(2, 1, 1)), (2, 1, 2), fwd=False),
        Stack("image Skip(Conv-ReLU-Conv)", lambda: Skip(C(1, 2, (1, 3), padding=(0, 1)), nnj.ReLU(), C(2, 1, 1, bias=False)), (1, 1, 2), fwd=False),
        Stack("image Skip(Tanh)", lambda: Skip(nnj.Tanh()), (2, 1, 2)),
        Stack("image Seq(Conv,Skip,Flatten,Lin)", lambda: Seq(C(1, 1, (1, 2)), Skip(nnj.Tanh(), C(1, 1, 1)), nnj.Flatten(), Lin(4, 1)), (1, 1, 3), fwd=False),
        Stack("UNet-like", lambda: Seq(C(1, 1, (1, 2), padding=(0, 1)), Skip(nnj.MaxPool2d((1, 2)), nnj.Tanh(), nnj.Upsample(scale_factor=2), nnj.MaxPool2d((2, 1))), C(2, 1, 1)), (1, 1, 3), fwd=False),
    ]
    if tier == "thorough":
        out += [
            Stack("Skip wide", lambda: Skip(Lin(3, 3), nnj.Sigmoid(), Lin(3, 2)), (3,)),
            Stack("image nested Skip", lambda: Skip(C(1, 1, (1, 3), padding=(0, 1)), Skip(nnj.Tanh(), C(1, 2, 1))), (1, 1, 3), fwd=False),
        ]
    return out


def check_products(ctx, st, m, x, prods, wrts=("input", "weight"), vals=(None, "given"), k=3, label="", J=None, layout=None, **kw):
    val = relay(m(x), layout)
    b, nout = x.shape[0], val[0].numel()
    J = J or JCache(ctx, None, m, val, x)
    for wrt in wrts:
        n = J.n(wrt)
        for p in prods:
            a = relay(p.arg(ctx, b, n, nout, k, tag=label + wrt[0]), layout)
            for v in vals:
                allow = NIE if p.forward and not st.fwd else ()
                no, r = attempt(lambda: p.call(m, x, val if v == "given" else v, a, wrt, **kw), allow)
                if no:
                    continue
                ctx.eq(
                    "%s%s wrt %s (val %s)" % (label, p.label, wrt, "None" if v is None else "given"),
                    r,
                    lambda: want_stack(p, m, J(wrt), a, wrt) if ctx.sym else None,
                )


def real_stack(st, b, prods, wrts=("input", "weight"), layout=None):
    def fn(ctx):
        m, x = setup(ctx, st, b)
        prepare(ctx, m, x, layout)
        check_products(ctx, st, m, relay(x, layout), prods, wrts, layout=layout)

    return in_state(layout, fn)


# ---------------------------------------------------------------------------------------------- abstract layers
def stub_stack(shapes, b, skip=None, image=None, forward=True, k=3):
    """shapes: [(nin, out_shape, nparams)]; the composition rule is checked for arbitrary layers"""

    def fn(ctx):
        ls = [Stub(ctx, "L%d" % k, i, o, p) for k, (i, o, p) in enumerate(shapes)]
        m = Seq(*ls)
        x = ctx.tensor("x", b, *(image or (shapes[0][0],)))
        J = {}
        if ctx.sym:
            with no_mode():
                fm, Js = x, []
                for l in ls:
                    Js.append((l.oJ(fm, "input"), l.oJ(fm, "weight")))
                    fm = l.forward(fm)
            J["input"] = chain([j for j, _ in Js])
            J["weight"] = weight_chain(Js)
        run_all(ctx, m, x, J, nout=numel(shapes[-1][1]), b=b, nin=shapes[0][0], npar=sum(s[2] for s in shapes), k=k)

    return fn


def chain(Js):
    """J_n ... J_1 for every sample"""
    out = Js[0]
    for j in Js[1:]:
        out = [O.mm(a, c) for a, c in zip(j, out)]
    return out


def weight_chain(Js):
    """concatenation over layers of (J_n ... J_{k+1}) Jw_k"""
    blocks = []
    for k in range(len(Js)):
        if Js[k][1] is None:
            continue
        blocks.append(chain([Js[k][1]] + [j for j, _ in Js[k + 1 :]]))
    if not blocks:
        return None
    return [[sum((bl[s][i] for bl in blocks), []) for i in range(len(blocks[0][s]))] for s in range(len(blocks[0]))]


def run_all(ctx, m, x, J, nout, b, nin, npar, prods=ALL, k=3):
    val = m(x)
    for wrt, n in (("input", nin), ("weight", npar)):
        for p in prods:
            a = p.arg(ctx, b, n, nout, k, tag=wrt[0])
            for v in (None, val):
                r = p.call(m, x, v, a, wrt)
                ctx.eq(
                    "%s wrt %s (val %s)" % (p.label, wrt, "None" if v is None else "given"), r,
                    lambda: want_stack(p, m, J[wrt], a, wrt) if ctx.sym else None,
                )


def stub_blocks(b, sizes=(2, 1, 2), nested=True):
    """jmjTp with a list of blocks, nested or not"""

    def fn(ctx):
        a = Stub(ctx, "A", 2, (2,), sizes[0])
        c = Stub(ctx, "C", 2, (3,), sizes[1])
        t = Stub(ctx, "T", 3, (3,), 0)
        d = Stub(ctx, "D", 3, (2,), sizes[2])
        m = Seq(a, Seq(c, t), d) if nested else Seq(a, c, t, d)
        x = ctx.tensor("x", b, 2)
        val = m(x)
        if ctx.sym:
            with no_mode():
                fm, Js = x, []
                for l in (a, c, t, d):
                    Js.append((l.oJ(fm, "input"), l.oJ(fm, "weight")))
                    fm = l.forward(fm)
            Jw = weight_chain(Js)
        for fd in (True, False):
            B = [ctx.tensor("B%d%d" % (k, fd), *((b, n) if fd else (b, n, n))) for k, n in enumerate(sizes)]
            for td in (True, False):
                r = m.jmjTp(x, val, [B[0], [B[1]] if nested else B[1], B[2]], wrt="weight", from_diag=fd, to_diag=td)

                def want():
                    tot, off = None, 0
                    for n, blk in zip(sizes, B):
                        t = O.jmjT(cols(Jw, off, n), O.L(blk), fd, td)
                        off += n
                        if tot is None:
                            tot = t
                        else:
                            tot = [[T.add(u, w) for u, w in zip(p, q)] for p, q in zip(tot, t)] if td else [O.add(p, q) for p, q in zip(tot, t)]
                    return Terms(tot)

                ctx.eq("jmjTp of a list of blocks %s->%s" % (fd, td), r, want)

    return fn


def _sc(name, st, b, fn, **kw):
    return Scenario("%s b=%d %s" % (st.name, b, name), fn, bounds="%s, batch %d, input %s" % (st.name, b, st.shape), **kw)


def per_stack(sts, tier):
    for st in sts:
        for b in (2,) if tier == "quick" else (1, 2, 3):
            yield _sc("first-order products", st, b, real_stack(st, b, [JAC] + FWD + BWD))
            for w in ("input", "weight"):
                yield _sc("jTmjp wrt " + w, st, b, real_stack(st, b, JTMJ, (w,)))
                yield _sc("jmjTp wrt " + w, st, b, real_stack(st, b, JMJT, (w,)))
        for kind in LAYOUTS:
            yield _sc("%s arguments" % kind, st, 2, real_stack(st, 2, ALL, layout=kind))
        for kind in STATES:
            yield _sc(kind, st, 2, real_stack(st, 2, ALL, layout=kind))


STUBS = [
    [(2, (3,), 2), (3, (2,), 0), (2, (2,), 1)],
    [(2, (2,), 0), (2, (3,), 2), (3, (1,), 0)],
    [(3, (2,), 1), (2, (3,), 1)],
    [(2, (2,), 0), (2, (2,), 0)],
    [(2, (3,), 3)],
    [(2, (1,), 1), (1, (2,), 2), (2, (1,), 1), (1, (2,), 1)],
]


def c07(tier):
    yield from per_stack(stacks(tier), tier)
    for k, s in enumerate(STUBS):
        for b in (2, 1) if tier == "quick" else (1, 2, 3):
            yield Scenario("arbitrary layers %s b=%d" % ("-".join("%d>%d(%d)" % (i, numel(o), p) for i, o, p in s), b), stub_stack(s, b), bounds="arbitrary layers with the given sizes (weights)")
    yield Scenario("arbitrary layers, images", stub_stack([(4, (2, 1, 2), 1), (4, (3,), 0), (3, (1, 2), 2)], 2, image=(1, 2, 2)))
    for b in (2, 1):
        for sz in (2, 1, 2), (2, 2, 2), (1, 1, 1), (1, 2, 1):
            for nested in (True, False):
                yield Scenario("jmjTp with %slist of blocks %s b=%d" % ("nested " if nested else "", sz, b), stub_blocks(b, sz, nested))
    for n in sizes(34, (7,)):
        yield Scenario("arbitrary stack of depth %d" % n, stub_stack([(1, (1,), 1)] * n, 1))
        yield Scenario("arbitrary stack of depth %d with few weights" % n, stub_stack([(1, (1,), int(k % 5 == 2)) for k in range(n)], 1))
    for n in sizes(1100, (5, 9)):
        yield Scenario("arbitrary stack batch %d" % n, stub_stack([(1, (1,), 1), (1, (1,), 1)] if n > 140 else [(2, (2,), 2), (2, (2,), 1)], n))
        if n <= 300:
            yield Scenario("Lin-Tanh-Lin scalar batch %d" % n, real_stack(Stack("", lambda: Seq(Lin(1, 1, bias=False), nnj.Tanh(), Lin(1, 1, bias=False)), (1,)), n, ALL))
    for n in sizes(66, (6, 9)):
        yield Scenario("arbitrary stack width %d" % n, stub_stack([(1, (n,), 1), (n, (1,), 1)], 1))
        yield Scenario("arbitrary stack inputs %d" % n, stub_stack([(n, (2,), 1)], 1))
        yield Scenario("arbitrary stack outputs %d" % n, stub_stack([(2, (n,), 1)], 1))
        yield Scenario("arbitrary stack weights %d" % n, stub_stack([(1, (2,), n), (2, (1,), 0)], 1))
        yield Scenario("arbitrary stack weights 1+%d" % n, stub_stack([(1, (1,), 1), (1, (1,), n)], 1))
        yield Scenario("arbitrary stack, matrices with k=%d" % n, stub_stack([(2, (1,), 1), (1, (2,), 1)], 1, k=n))
    yield Scenario("add_hooks=False or default", hooks_flag, bounds="Lin-Tanh-Lin, batch 2")


def hooks_flag(ctx):
    """products on a stack built with hooks; a stack built without may refuse but not answer wrongly"""
    m = ctx.model(lambda: Seq(Lin(2, 2), nnj.Tanh(), Lin(2, 1), add_hooks=False))
    x = ctx.tensor("x", 2, 2)
    val = m(x)
    J = JCache(ctx, None, m, val, x)
    for wrt in ("input", "weight"):
        for p in ALL:
            a = p.arg(ctx, 2, J.n(wrt), 1, 2, tag=wrt[0])
            no, r = attempt(lambda: p.call(m, x, None, a, wrt), Exception)
            if not no:
                ctx.eq("add_hooks=False %s wrt %s" % (p.label, wrt), r, lambda: want_stack(p, m, J(wrt), a, wrt) if ctx.sym else None)


# ---------------------------------------------------------------------------------------------- C08
def stub_skip(nin, shapes, b, image=None, outer=False, k=3):
    """SkipConnection around arbitrary layers; image: per-sample input shape"""

    def fn(ctx):
        ls = [Stub(ctx, "L%d" % k, i, o, p) for k, (i, o, p) in enumerate(shapes)]
        m = Skip(*ls)
        x = ctx.tensor("x", b, *(image or (nin,)))
        J = {}
        npar = sum(s[2] for s in shapes)
        val = m(x)
        nf = numel(shapes[-1][1])
        if ctx.sym:
            with no_mode():
                fm, Js = x, []
                for l in ls:
                    Js.append((l.oJ(fm, "input"), l.oJ(fm, "weight")))
                    fm = l.forward(fm)
                xi, fi = E.ids_of(x), E.ids_of(fm)
            want_val = torch.cat([xi, fi], dim=1)
            J["input"] = [O.diag([1] * nin) + j for j in chain([j for j, _ in Js])]
            jw = weight_chain(Js)
            J["weight"] = None if jw is None else [[[0] * npar] * nin + j for j in jw]
        ctx.eq("output is the concatenation", val, lambda: Terms(want_val))
        run_all(ctx, m, x, J, nout=nin + nf, b=b, nin=nin, npar=npar, k=k)

    return fn


def forward_skip(st, b):
    def fn(ctx):
        m, x = setup(ctx, st, b)
        if not isinstance(m, Skip):
            return
        F = next(iter(m.children()))
        val = m(x)
        if ctx.sym:
            with no_mode():
                pass
        f = F(x)
        ctx.eq("output is input ++ branch", val, torch.cat([x, f], dim=1))

    return fn


def c08(tier):
    yield from per_stack(skips(tier), tier)
    for st in skips(tier):
        yield _sc("forward", st, 2, forward_skip(st, 2))
    for b in (2, 1) if tier == "quick" else (1, 2, 3):
        yield Scenario("skip around arbitrary layers 2>3>2 b=%d" % b, stub_skip(2, [(2, (3,), 1), (3, (2,), 2)], b))
        yield Scenario("skip around an arbitrary layer without weights b=%d" % b, stub_skip(2, [(2, (3,), 0)], b))
        yield Scenario("skip around an arbitrary image layer b=%d" % b, stub_skip(4, [(4, (1, 1, 2), 1)], b, image=(2, 1, 2)))
        yield Scenario("skip around arbitrary image layers b=%d" % b, stub_skip(2, [(2, (3,), 1), (3, (3, 1, 1), 0), (3, (2, 1, 2), 1)], b, image=(1, 1, 2)))
    for n in sizes(1100, (5, 9)):
        yield Scenario("skip batch %d" % n, stub_skip(1, [(1, (1,), 1)], n) if n > 140 else stub_skip(2, [(2, (2,), 2)], n))
    for n in sizes(66, (6, 9)):
        yield Scenario("skip inputs %d" % n, stub_skip(n, [(n, (1,), 1)], 1))
        yield Scenario("skip outputs %d" % n, stub_skip(1, [(1, (n,), 1)], 1))
        yield Scenario("skip weights %d" % n, stub_skip(1, [(1, (1,), n)], 1))
        yield Scenario("skip channels %d" % n, stub_skip(n, [(n, (1, 1, 1), 1)], 1, image=(n, 1, 1)))
        yield Scenario("skip, matrices with k=%d" % n, stub_skip(1, [(1, (1,), 1)], 1, k=n))
    for n in sizes(18, (5,)):
        yield Scenario("skip depth %d" % n, stub_skip(1, [(1, (1,), k % 2) for k in range(n)], 1))


# ---------------------------------------------------------------------------------------------- C09
def fresh_model(ctx, st, m):
    """a newly built model with the current weights of m"""
    t = ctx.model(st.build)
    with torch.no_grad():
        for p, q in zip(m.parameters(), t.parameters()):
            q.copy_(p)
    return t


def maps(m, x):
    """(layer, input, output) of each layer of a Sequential"""
    out = []
    for l in m:
        y = l(x)
        out.append((l, x, y))
        x = y
    return out


def back_diag(m, x, d, wrt):
    """layer by layer exact diagonals: (diagonal at the input or None, weight diagonal or None)"""
    if isinstance(m, Seq):
        ws = []
        for l, u, y in reversed(maps(m, x)):
            di, dw = back_diag(l, u, d, wrt)
            if dw is not None:
                ws.insert(0, dw)
            d = di
        return d, (torch.cat(ws, dim=1) if ws else None)
    if isinstance(m, Skip):
        n = x[0].numel()
        di, dw = back_diag(next(iter(m.children())), x, d[:, n:], wrt)
        return di + d[:, :n], dw
    return (
        m.jTmjp(x, None, d, wrt="input", from_diag=True, to_diag=True),
        m.jTmjp(x, None, d, wrt="weight", from_diag=True, to_diag=True),
    )


def fwd_diag_in(m, x, d):
    if isinstance(m, Seq):
        for l, u, y in maps(m, x):
            d = fwd_diag_in(l, u, d)
        return d
    if isinstance(m, Skip):
        return torch.cat([d, fwd_diag_in(next(iter(m.children())), x, d)], dim=1)
    return m.jmjTp(x, None, d, wrt="input", from_diag=True, to_diag=True)


def fwd_diag_w(m, x, d):
    if isinstance(m, Seq):
        tot, off = None, 0
        for l, u, y in maps(m, x):
            if tot is not None:
                tot = fwd_diag_in(l, u, tot)
            n = nweights(l)
            if n:
                r = fwd_diag_w(l, u, d[:, off : off + n])
                tot = r if tot is None else tot + r
            off += n
        return tot
    if isinstance(m, Skip):
        r = fwd_diag_w(next(iter(m.children())), x, d)
        return None if r is None else torch.cat([torch.zeros_like(x).reshape(x.shape[0], -1), r], dim=1)
    return m.jmjTp(x, None, d, wrt="weight", from_diag=True, to_diag=True)


def diag_stack(st, b):
    def fn(ctx):
        m, x = setup(ctx, st, b)
        diag_checks(ctx, st, m, x)

    return fn


def diag_checks(ctx, st, m, x):
    b = x.shape[0]
    val = m(x)
    nout = val[0].numel()
    n = nweights(m)
    d = ctx.tensor("d", b, nout)
    kw = dict(from_diag=True, to_diag=True, diag_backprop=True)
    di, dw = back_diag(m, x, d, None)
    for v in (None, val):
        ctx.eq("jTmjp diag_backprop wrt input", m.jTmjp(x, v, d, wrt="input", **kw), di)
        ctx.eq("jTmjp diag_backprop wrt weight", m.jTmjp(x, v, d, wrt="weight", **kw), dw)
    if isinstance(m, (Seq, Skip)):
        one = torch.ones_like(d)
        oi, ow = back_diag(m, x, one, None)
        ctx.eq("jTmjp diag_backprop of the None metric wrt input", m.jTmjp(x, val, None, wrt="input", to_diag=True, diag_backprop=True), oi)
        ctx.eq("jTmjp diag_backprop of the None metric wrt weight", m.jTmjp(x, val, None, wrt="weight", to_diag=True, diag_backprop=True), ow)
    try:
        di = ctx.tensor("di", b, x[0].numel())
        want = fwd_diag_in(m, x, di)
        dw = ctx.tensor("dw", b, n)
        wantw = fwd_diag_w(m, x, dw) if n else None
    except NIE:
        return
    for v in (None, val):
        ctx.eq("jmjTp diag_backprop wrt input", m.jmjTp(x, v, di, wrt="input", **kw), want)
        ctx.eq("jmjTp diag_backprop wrt weight", m.jmjTp(x, v, dw, wrt="weight", **kw), wantw)


def diag_layer(lay, b):
    def fn(ctx):
        m, x = setup(ctx, lay, b)
        val = m(x)
        nout = val[0].numel()
        J = JCache(ctx, lay, m, val, x)
        for nm in ("jTmjp", "jmjTp"):
            p = Prod(nm, True, True)
            for wrt in ("input", "weight"):
                a = p.arg(ctx, b, J.n(wrt), nout, tag=wrt[0])
                no, r = attempt(lambda: p.call(m, x, val, a, wrt, diag_backprop=True), NIE if nm == "jmjTp" and not lay.fwd else ())
                if not no:
                    ctx.eq("%s diag_backprop wrt %s of a single layer" % (nm, wrt), r, lambda: terms_or_none(p.want(J(wrt), a)))

    return fn


def stub_diag(shapes, b, skip=False):
    def fn(ctx):
        ls = [Stub(ctx, "L%d" % k, i, o, p) for k, (i, o, p) in enumerate(shapes)]
        m = Skip(*ls) if skip else Seq(*ls)
        x = ctx.tensor("x", b, shapes[0][0])
        st = Stack("", None, None)
        diag_checks(ctx, st, m, x)

    return fn


def diag_nonneg(b):
    def fn(ctx):
        m = ctx.model(lambda: Seq(Lin(2, 2), nnj.Tanh(), Lin(2, 1)))
        x = ctx.tensor("x", b, 2)
        d = ctx.tensor("d", b, 1, positive=True)
        for wrt in ("input", "weight"):
            r = m.jTmjp(x, None, d, wrt=wrt, from_diag=True, to_diag=True, diag_backprop=True)
            for k, i in enumerate(E.ids_of(r).reshape(-1).tolist() if ctx.sym else [None] * r.numel()):
                ctx.holds("entry %d of the diagonal wrt %s is non-negative" % (k, wrt), lambda: T.ge(i, 0), lambda: float(r.reshape(-1)[k]) >= -1e-6)

    return fn


def c09(tier):
    bs = (2, 1) if tier == "quick" else (1, 2, 3)
    for b in bs:
        for st in stacks(tier) + skips(tier):
            yield _sc("diag_backprop", st, b, diag_stack(st, b))
            if b == 2:
                yield from in_states(lambda l: diag_stack(l, 2), st, "diag_backprop")
        for k, s in enumerate(STUBS):
            yield Scenario("arbitrary layers #%d diag_backprop b=%d" % (k, b), stub_diag(s, b))
        yield Scenario("skip around arbitrary layers diag_backprop b=%d" % b, stub_diag([(2, (3,), 1), (3, (2,), 2)], b, skip=True))
    for lay in layers(tier):
        yield _sc("single layer diag_backprop", lay, 2, diag_layer(lay, 2))
    yield Scenario("diagonals stay non-negative", diag_nonneg(1))
    for n in sizes(34, (7,)):
        yield Scenario("arbitrary stack depth %d diag_backprop" % n, stub_diag([(1, (1,), 1)] * n, 1))
    for n in sizes(1100, (5, 9)):
        yield Scenario("arbitrary stack batch %d diag_backprop" % n, stub_diag([(1, (1,), 1), (1, (1,), 1)], n))
    for n in sizes(66, (6,)):
        yield Scenario("arbitrary stack width %d diag_backprop" % n, stub_diag([(1, (n,), 1), (n, (1,), 1)], 1))
        yield Scenario("arbitrary stack inputs %d diag_backprop" % n, stub_diag([(n, (1,), 1), (1, (1,), 1)], 1))
        yield Scenario("arbitrary stack outputs %d diag_backprop" % n, stub_diag([(1, (1,), 1), (1, (n,), 1)], 1))
        yield Scenario("arbitrary stack weights %d diag_backprop" % n, stub_diag([(1, (1,), n), (1, (1,), 1)], 1))
        yield Scenario("skip inputs %d diag_backprop" % n, stub_diag([(n, (1,), 1)], 1, skip=True))


# ---------------------------------------------------------------------------------------------- C10 on stacks
def none_stack(st, b):
    def fn(ctx):
        m, x = setup(ctx, st, b)
        val = m(x)
        nout = val[0].numel()
        n = {"input": x[0].numel(), "weight": nweights(m)}
        J = JCache(ctx, None, m, val, x)
        for wrt in ("input", "weight"):
            for p in JTMJ + JMJT:
                q = nout if p.name == "jTmjp" else n[wrt]
                # the identity in the form the flags announce: passing it must give the same
                with no_mode():
                    eye = torch.ones(b, q, dtype=ctx.dtype) if p.fd else torch.eye(q, dtype=ctx.dtype).repeat(b, 1, 1)
                if ctx.sym:
                    with no_mode():
                        eye = E.lift(eye)
                allow = NIE if p.forward and not st.fwd else ()
                for v in (None, val):
                    no, r = attempt(lambda: p.call(m, x, v, None, wrt), allow)
                    no2, s = attempt(lambda: p.call(m, x, v, eye, wrt), allow)
                    ctx.true("refused alike", no == no2)
                    if not no:
                        ctx.eq("%s None/identity metric wrt %s" % (p.label, wrt), r, s)
            for name in ("mjp", "jmp"):
                for v in (None, val):
                    no, r = attempt(lambda: getattr(m, name)(x, v, None, wrt=wrt), NIE)
                    if not no:
                        ctx.eq("%s with None matrix wrt %s" % (name, wrt), r, lambda: terms_or_none(J(wrt)))

    return fn


def c10_stacks(tier):
    for st in stacks(tier) + skips(tier):
        for b in (2,) if tier == "quick" else (1, 2, 3):
            yield _sc("None metric", st, b, none_stack(st, b))
            if b == 2:
                yield from in_states(lambda l: none_stack(l, 2), st, "None metric")


# ---------------------------------------------------------------------------------------------- C22
def rows(v, k):
    if isinstance(v, list):
        return [rows(u, k) for u in v]
    return None if v is None else v[k : k + 1]


def batch_indep(st, b, none=False):
    def fn(ctx):
        m, x = setup(ctx, st, b)
        val = m(x)
        nout = val[0].numel()
        singles = [m(x[k : k + 1]) for k in range(b)]
        ctx.eq("forward", [val[k : k + 1] for k in range(b)], singles)
        for wrt in ("input", "weight"):
            n = x[0].numel() if wrt == "input" else nweights(m)
            for p, q in [(p, 3) for p in ALL] + [(p, q) for p in ALL if p.name in ("jmp", "mjp") for q in (1, 2)]:
                a = p.arg(ctx, b, n, nout, q, tag=wrt[0] + ("" if q == 3 else str(q)))
                allow = NIE if p.forward and not st.fwd else ()
                for given in (False, True):
                    no, r = attempt(lambda: p.call(m, x, val if given else None, a, wrt), allow)
                    if no:
                        continue
                    for k in range(b) if b < 9 else (0, b // 2, b - 2, b - 1):
                        s = p.call(m, x[k : k + 1], singles[k] if given else None, None if a is None else a[k : k + 1], wrt)
                        ctx.eq("%s wrt %s%s: row %d alone" % (p.label, wrt, "" if q == 3 else " k=%d" % q, k), rows(r, k), s)

    return fn


def c22(tier):
    from .likelihoods import batch_like

    # with no assumption on the contents: one of the samples may be the origin
    for st in [l for l in layers(tier) if l.name.startswith("L2Norm")] + [s for s in stacks(tier) if s.pre is nz]:
        anywhere = copy.copy(st)
        anywhere.pre = None
        for b in (2, 3) if numel(st.shape) < 2 else (2,):
            yield _sc("rows, also at the origin", anywhere, b, batch_indep(anywhere, b))
    for b in (2, 3):
        for st in layers(tier) + stacks(tier) + skips(tier):
            if tier == "quick" and b == 3 and not isinstance(st, Layer):
                continue
            yield _sc("rows", st, b, batch_indep(st, b))
            if b == 2:
                yield from in_states(lambda l: batch_indep(l, 2), st, "rows")
    for n in sizes(66, (5, 9)):
        for st in layers(tier):
            if numel(st.shape) <= (4 if n < 10 else 2):
                yield _sc("rows", st, n, batch_indep(st, n))
        if n <= 18:
            yield _sc("rows", stacks()[0], n, batch_indep(stacks()[0], n))
            yield _sc("rows", skips()[0], n, batch_indep(skips()[0], n))
    scalar = Stack("Lin-Tanh-Lin scalar", lambda: Seq(Lin(1, 1, bias=False), nnj.Tanh(), Lin(1, 1, bias=False)), (1,))
    for n in sizes(300, ()):
        yield _sc("rows", scalar, n, batch_indep(scalar, n))
        yield _sc("rows", layers()[0], n, batch_indep(Layer("Linear(1,1)", lambda: Lin(1, 1), (1,)), n))
    yield from batch_like(tier)


# ---------------------------------------------------------------------------------------------- C12
def no_mutation(st, b):
    def fn(ctx):
        m, x = setup(ctx, st, b)
        W = {"weight %d" % k: p for k, p in enumerate(m.parameters())}
        g = Guard(x=x, **W)
        val = m(x)
        g.check(ctx, "forward")
        nout = val[0].numel()
        for wrt in ("input", "weight"):
            n = x[0].numel() if wrt == "input" else nweights(m)
            for p in ALL:
                a = p.arg(ctx, b, n, nout, 2, tag=wrt[0])
                for v in (None, val):
                    g = Guard(x=x, val=v, argument=a, **W)
                    no, r = attempt(lambda: p.call(m, x, v, a, wrt), NIE)
                    g.check(ctx, "%s wrt %s" % (p.label, wrt))
                    if p.metric and p.fd and p.td:
                        g = Guard(x=x, val=v, argument=a, **W)
                        no, r = attempt(lambda: p.call(m, x, v, a, wrt, diag_backprop=True), NIE)
                        g.check(ctx, "%s diag_backprop wrt %s" % (p.label, wrt))
                    # a second call sees the same arguments: same answer
        if isinstance(m, Seq) and st.fwd and nweights(m):
            for fd in (False, True):
                bl = leaf_blocks(m)

                def build(t):
                    if isinstance(t, tuple):
                        return ctx.tensor("B%d%d" % (t[0], fd), *((b, t[1]) if fd else (b, t[1], t[1])))
                    return [build(u) for u in t]

                B = build(bl)
                flat = {"block %d" % k: t for k, t in enumerate(_flat(B))}
                for td in (False, True):
                    g = Guard(x=x, val=val, **flat, **W)
                    m.jmjTp(x, val, B, wrt="weight", from_diag=fd, to_diag=td)
                    g.check(ctx, "jmjTp of a list")
                    ctx.true("the list keeps its tensors", all(u is w for u, w in zip(_flat(B), flat.values())))

    return fn


def _flat(v):
    if isinstance(v, list):
        return [u for w in v for u in _flat(w)]
    return [v]


def repeat(st, b):
    """an aliasing result must not change what the next call returns, nor the arguments"""

    def fn(ctx):
        m, x = setup(ctx, st, b)
        val = m(x)
        nout = val[0].numel()
        for wrt in ("input", "weight"):
            n = x[0].numel() if wrt == "input" else nweights(m)
            for p in ALL:
                a = p.arg(ctx, b, n, nout, 2, tag=wrt[0])
                no, r = attempt(lambda: p.call(m, x, val, a, wrt), NIE)
                if no:
                    continue
                from symtorch.runner import snapshot

                with no_mode():
                    first = snapshot(r)
                r2 = p.call(m, x, val, a, wrt)
                ctx.eq("%s wrt %s again" % (p.label, wrt), r2, first)
                ctx.eq("%s wrt %s: first result untouched" % (p.label, wrt), r, first)

    return fn


def c12(tier):
    from .likelihoods import mutation_like

    for st in layers(tier) + stacks(tier) + skips(tier):
        yield _sc("arguments and weights untouched", st, 2, no_mutation(st, 2))
        yield from in_states(lambda l: no_mutation(l, 2), st, "arguments and weights untouched")
    for st in layers(tier) + stacks(tier) + skips(tier):
        yield _sc("calling twice", st, 2, repeat(st, 2))
    from .layers_props import sized

    seen = set()
    for lay, b in sized(lim_batch=66, lim_dim=18, base=(5,)):
        if (lay.name, b) not in seen:
            seen.add((lay.name, b))
            yield _sc("arguments and weights untouched", lay, b, no_mutation(lay, b))
    for n in sizes(18, (5,)):
        deep_ = Stack("%d layers" % n, lambda n=n: Seq(*[Lin(1, 1, bias=bool(k % 2)) for k in range(n)]), (1,))
        yield _sc("arguments and weights untouched", deep_, 1, no_mutation(deep_, 1))
    yield from mutation_like(tier)


# ---------------------------------------------------------------------------------------------- C11
HIST = [
    Stack("Lin-Tanh-Lin", lambda: Seq(Lin(2, 2), nnj.Tanh(), Lin(2, 1)), (2,)),
    Stack("nested", lambda: Seq(Lin(1, 2), Seq(nnj.Sigmoid(), Lin(2, 1)), Lin(1, 1, bias=False)), (1,)),
    Stack("Seq with Skip", lambda: Seq(Lin(1, 1), Skip(nnj.Tanh(), Lin(1, 1)), Lin(2, 1)), (1,)),
    Stack("Skip", lambda: Skip(Lin(2, 1), nnj.Tanh()), (2,)),
    Stack("MaxPool2d", lambda: nnj.MaxPool2d((1, 2)), (1, 1, 2), fwd=False),
    Stack("Conv-MaxPool", lambda: Seq(nnj.Conv2d(1, 1, (1, 2)), nnj.MaxPool2d((1, 2))), (1, 1, 3), fwd=False),
    Stack("Linear", lambda: Lin(2, 2), (2,)),
    Stack("Conv2d", lambda: nnj.Conv2d(1, 1, (1, 2)), (1, 1, 3), fwd=False),
    Stack("Tanh", lambda: nnj.Tanh(), (2,)),
]
# the other layers: histories of one call
HIST1 = [
    Stack("Sinusoidal", lambda: nnj.Sinusoidal(), (2,)),
    Stack("Sigmoid", lambda: nnj.Sigmoid(), (1,)),
    Stack("ReLU", lambda: nnj.ReLU(), (1,)),
    Stack("Softplus", lambda: nnj.Softplus(beta=2.0, threshold=3.0), (1,)),
    Stack("L2Norm", lambda: nnj.L2Norm(), (2,), pre=nz),
    Stack("TruncExp", lambda: nnj.TruncExp(), (1,), pre=small_inputs),
    Stack("Upsample", lambda: nnj.Upsample(scale_factor=2), (1, 1, 2), fwd=False),
    Stack("Flatten", lambda: nnj.Flatten(), (1, 1, 2)),
    Stack("Reshape", lambda: nnj.Reshape(2, 1), (2,)),
    Stack("Conv2d novmap", lambda: nnj.Conv2d(1, 1, (1, 2), use_vmap_for_backprop=False), (1, 1, 3), fwd=False),
]


def _refuse(f):
    """a call that may be refused: its outcome does not matter here, only what it leaves behind"""
    try:
        f()
    except Exception as e:
        from symtorch.engine import Unsupported

        if isinstance(e, Unsupported):
            raise


def _storage(t):
    t = t.detach()
    return getattr(t, "shadow", t).untyped_storage().data_ptr()


def _wrong(ctx, b, n):
    return ctx.tensor("wrong", b, n + 1)


class Hist:
    """what happened before: the operations a user may interleave; each may replace the input object or the weights"""

    def __init__(self, ctx, st, b, m, x):
        self.ctx, self.st, self.b, self.m, self.x = ctx, st, b, m, x
        self.y = ctx.tensor("y", b, *st.shape)
        self.y3 = ctx.tensor("z", b + 1, *st.shape)
        if st.pre:
            st.pre(ctx, self.y)
            st.pre(ctx, self.y3)
        self.val = m(x)
        self.nout = self.val[0].numel()
        self.nw = nweights(m)
        self.nin = x[0].numel()
        self.changed = False
        self.step = 0

    def t(self, name, *shape):
        return self.ctx.tensor("%s%d" % (name, self.step), *shape)

    def forward(self):
        self.m(self.y)

    def larger_batch(self):
        self.m(self.y3)

    def empty_batch(self):
        _refuse(lambda: self.m(self.y[:0]))

    def jacobian(self):
        self.m.jacobian(self.y, None)

    def jacobian_weight(self):
        self.m.jacobian(self.y, self.m(self.y), wrt="weight")

    def vjp(self):
        self.m.vjp(self.y, self.m(self.y), self.t("hv", self.b, self.nout), wrt="weight")

    def same_input_product(self):
        self.m.vjp(self.x, self.val, self.t("hv", self.b, self.nout), wrt="input")
        self.m.mjp(self.x, None, self.t("hm", self.b, 2, self.nout), wrt="weight")

    def forward_product(self):
        if self.st.fwd:
            self.m.jvp(self.y, None, self.t("hf", self.b, self.nin), wrt="input")
            self.m.jmp(self.y, self.m(self.y), self.t("hj", self.b, self.nin, 2), wrt="input")

    def metric(self):
        self.m.jTmjp(self.y3, None, None, to_diag=True)

    def metric_full(self):
        self.m.jTmjp(self.y, self.m(self.y), self.t("hM", self.b, self.nout, self.nout), wrt="weight")

    def forward_metric(self):
        if self.st.fwd:
            self.m.jmjTp(self.y, None, self.t("hd", self.b, self.nin), wrt="input", from_diag=True, to_diag=True)

    def diag_backprop(self):
        if isinstance(self.m, (Seq, Skip)):
            self.m.jTmjp(self.y, None, self.t("hD", self.b, self.nout), wrt="weight", from_diag=True, to_diag=True, diag_backprop=True)

    def children(self):
        cs = list(self.m.children()) if isinstance(self.m, (Seq, Skip)) else []
        if not cs:
            self.m(self.y).sum()
        elif isinstance(self.m, Skip):
            cs[0](self.y)
        else:
            u = self.y
            for c in list(self.m)[:2]:
                u = c(u)

    def child_products(self):
        cs = list(self.m.children()) if isinstance(self.m, (Seq, Skip)) else []
        u = self.y
        for c in cs:
            c.jacobian(u, None)
            c.jTmjp(u, None, None, wrt="weight", to_diag=True)
            u = c(u)

    def all_children(self):
        """every sub-module is used on its own on a larger batch"""
        u = self.y3
        for c in self.m.children() if isinstance(self.m, (Seq, Skip)) else []:
            u = c(u)

    def set_weight(self):
        if self.nw:
            self.m.set_weight(self.t("w", self.nw))
            self.changed = True
        self.m(self.y)

    def set_weight_only(self):
        """the last forward pass was at x itself, with the old weights"""
        self.m(self.x)
        if self.nw:
            self.m.set_weight(self.t("w", self.nw))
            self.changed = True

    def weights_in_place(self):
        self.m.jacobian(self.x, None, wrt="weight")
        with torch.no_grad():
            for k, p in enumerate(self.m.parameters()):
                p.copy_(self.t("ip%d_" % k, *p.shape))
                self.changed = True

    def weights_data(self):
        self.m(self.x)
        for k, p in enumerate(self.m.parameters()):
            p.data = self.t("pd%d_" % k, *p.shape)
            self.changed = True

    def child_weights(self):
        self.m(self.x)
        for c in self.m.modules():
            if isinstance(c, (Lin, nnj.Conv2d)):
                c.set_weight(self.t("cw", nweights(c)))
                self.changed = True
                break

    def load(self):
        self.m.vjp(self.x, None, self.t("hv", self.b, self.nout), wrt="weight") if self.nw else None
        o = self.ctx.model(self.st.build)
        self.m.load_state_dict(o.state_dict())
        self.changed = self.changed or bool(self.nw)

    def refilled_input(self):
        """the same tensor object held other values in earlier calls"""
        u = self.y.clone()
        self.m(u)
        self.m.jacobian(u, None)
        self.m.jTmjp(u, None, None, to_diag=True)
        with torch.no_grad():
            u.copy_(self.x)
        self.x = u
        self.val = fresh_model(self.ctx, self.st, self.m)(u)

    def result_overwritten(self):
        """the caller reuses the tensors the library returned"""
        v = self.m(self.x)
        j = self.m.jacobian(self.x, None)
        g = self.m.jacobian(self.x, None, wrt="weight")
        own = {_storage(t) for t in [self.x, *self.m.parameters()]}
        with torch.no_grad():
            for r in (v, j, g):
                # a view of the caller's own input or of the weights is theirs to change
                if r is not None and _storage(r) not in own:
                    r.mul_(3.0)

    def another_instance(self):
        o = self.ctx.model(self.st.build)
        o.jacobian(self.x, None, wrt="weight")
        o(self.x)
        o.jTmjp(self.x, None, None, to_diag=True)

    def copied(self):
        c = copy.deepcopy(self.m)
        c(self.y)
        c.jacobian(self.y3, None)
        if self.nw:
            c.set_weight(self.t("cc", self.nw))
            c(self.x)

    def train_eval(self):
        mode = self.m.training
        self.m.train(not mode)
        self.m(self.y)
        self.m.jacobian(self.y, None)
        self.m.train(mode)

    def grad_modes(self):
        with torch.no_grad():
            self.m(self.y)
        with torch.inference_mode():
            _refuse(lambda: self.m(self.y))

    def likelihood(self):
        if len(self.val.shape) == 2:
            like = nnj.LogGaussian()
            tgt = self.t("ht", self.b, self.nout)
            like(self.y, self.m, tgt)
            if self.nw:
                like.gradient(self.y, self.m, tgt)
                like.ggn(self.y, self.m)

    def refused(self):
        m, y, ctx, b = self.m, self.y, self.ctx, self.b
        n = {"input": self.nin, "weight": self.nw}
        calls = [
            lambda: m(torch.cat([self.y3, self.y3], dim=1)),
            lambda: m.mjp(y, None, self.t("hm", b, 2, self.nout), wrt="neither"),
            lambda: m.jvp(y, None, None),
        ]
        for wrt in ("input", "weight") if self.nw else ("input",):
            calls += [
                lambda wrt=wrt: m.vjp(y, None, _wrong(ctx, b, self.nout), wrt=wrt),
                lambda wrt=wrt: m.mjp(y, None, ctx.tensor("wrongm", b, 2, self.nout + 1), wrt=wrt),
                lambda wrt=wrt: m.jvp(y, None, _wrong(ctx, b, n[wrt]), wrt=wrt),
                lambda wrt=wrt: m.jmp(y, None, ctx.tensor("wrongm", b, n[wrt] + 1, 2), wrt=wrt),
                lambda wrt=wrt: m.jTmjp(y, None, _wrong(ctx, b, self.nout), wrt=wrt, from_diag=True, to_diag=True),
                lambda wrt=wrt: m.jTmjp(y, None, ctx.tensor("wrongM", b, self.nout + 1, self.nout + 1), wrt=wrt),
                lambda wrt=wrt: m.jmjTp(y, None, _wrong(ctx, b, n[wrt]), wrt=wrt, from_diag=True, to_diag=True),
                lambda wrt=wrt: m.jmjTp(y, None, ctx.tensor("wrongM", b, n[wrt] + 1, n[wrt] + 1), wrt=wrt),
            ]
        _refuse(calls[ctx.choose(len(calls))])


HOPS = [k for k, v in vars(Hist).items() if not k.startswith("_") and k != "t" and callable(v)]
# the ones whose effect may depend on what came before (longer histories)
CORE = ["forward", "larger_batch", "vjp", "same_input_product", "metric", "children", "set_weight", "set_weight_only", "refilled_input", "result_overwritten", "copied", "diag_backprop"]


def history(st, prods, steps, wrts=("input", "weight"), b=1, ops=None, evaluation=False):
    """steps earlier calls, each any of the operations above, then the products at x"""
    ops = ops or HOPS

    def fn(ctx):
        m, x = setup(ctx, st, b)
        if evaluation:
            m.eval()
        h = Hist(ctx, st, b, m, x)
        y, nout = h.y, h.nout
        if ctx.sym:
            # different inputs (equal ones are the repeated-call scenarios)
            ctx.assume(T.not_(T.eq(E.ids_of(x).reshape(-1).tolist()[0], E.ids_of(y).reshape(-1).tolist()[0])))
        n = {"input": h.nin, "weight": h.nw}
        done = []
        for s in range(steps):
            h.step = s
            done.append(ops[ctx.choose(len(ops))])
            getattr(h, done[-1])()
        x, val = h.x, h.val
        if h.changed:
            # the output the module now gives, computed by a model never used before so that no state is refreshed
            val = fresh_model(ctx, st, m)(x)
        else:
            val = val.clone()
        J = JCache(ctx, None, m, val, x)
        Jy = JCache(ctx, None, m, fresh_model(ctx, st, m)(y), y)
        h_ = " then ".join(done)
        # the product is the first call after the history, with and without a given output
        given = (None, val) if steps > 1 else ((None, val)[ctx.choose(2)],)
        for wrt in wrts:
            for p in prods:
                a = p.arg(ctx, b, n[wrt], nout, 2, tag=wrt[0])
                for v in given:
                    allow = NIE if p.forward and not st.fwd else ()
                    no, r = attempt(lambda: p.call(m, x, v, a, wrt), allow)
                    if no:
                        continue
                    ctx.eq("after %s, %s wrt %s (val %s)" % (h_, p.label, wrt, "None" if v is None else "given"), r, lambda: want_stack(p, m, J(wrt), a, wrt) if ctx.sym else None)
                    if v is None:
                        # at an input the history may have used, and back
                        ry = p.call(m, y, None, a, wrt)
                        ctx.eq("after %s, %s wrt %s at another input" % (h_, p.label, wrt), ry, lambda: want_stack(p, m, Jy(wrt), a, wrt) if ctx.sym else None)
                    else:
                        m(y)
                    # and with other state
                    r2 = p.call(m, x, v, a, wrt)
                    ctx.eq("%s wrt %s after one more forward" % (p.label, wrt), r2, r)
        ctx.eq("after %s, the output" % h_, m(x), fresh_model(ctx, st, m)(x))

    return fn


def c11(tier):
    fo, so = [JAC, Prod("jvp"), Prod("jmp"), Prod("vjp"), Prod("mjp")], [Prod("jTmjp"), Prod("jTmjp", True, True), Prod("jmjTp"), Prod("jmjTp", True, True)]
    nk = "histories of up to %d calls out of %d kinds"
    for st in HIST:
        # one product per path, so that it is the first call after the history
        for p in fo + so + ([Prod("jTmjp", True, False), Prod("jTmjp", False, True), Prod("jmjTp", True, False), Prod("jmjTp", False, True)] if tier != "quick" else []):
            for wrt in ("input", "weight"):
                for ev in (False, True):
                    yield Scenario("%s: 1 earlier call, %s wrt %s%s" % (st.name, p.label, wrt, " (evaluation mode)" if ev else ""), history(st, [p], 1, (wrt,), evaluation=ev), max_paths=600, bounds=nk % (2, len(HOPS)))
    for st in HIST1:
        for p in fo + so:
            for wrt in ("input", "weight")[: 2 if st.name.startswith("Conv") else 1]:
                for ev in (False, True):
                    yield Scenario("%s: 1 earlier call, %s wrt %s%s" % (st.name, p.label, wrt, " (evaluation mode)" if ev else ""), history(st, [p], 1, (wrt,), evaluation=ev), max_paths=600, bounds=nk % (2, len(HOPS)))
    for st in HIST if tier != "quick" else HIST[:5]:
        yield Scenario("%s: 2 earlier calls" % st.name, history(st, [Prod("vjp"), Prod("jTmjp", True, True)] if tier == "quick" else fo + so, 2, ops=CORE if tier == "quick" else HOPS), max_paths=3000, bounds=nk % (3, len(CORE if tier == "quick" else HOPS)))
    if tier != "quick":
        for st in HIST[:6]:
            yield Scenario("%s: 3 earlier calls" % st.name, history(st, [Prod("vjp"), Prod("jTmjp", True, True)], 3, ops=CORE), max_paths=6000, bounds=nk % (4, len(CORE)))


# ---------------------------------------------------------------------------------------------- C23
def deep(st):
    def fn(ctx):
        m, x = setup(ctx, st, 2)
        y = ctx.tensor("y", 2, *st.shape)
        c = copy.deepcopy(m)
        ctx.eq("the copy computes the same", c(x), m(x))
        val = m(x)
        nout = val[0].numel()
        n = {"input": x[0].numel(), "weight": nweights(m)}

        def same(a, b, label, at, va=None, vb=None):
            for wrt in ("input", "weight"):
                for p in [JAC, Prod("vjp"), Prod("mjp"), Prod("jvp"), Prod("jTmjp"), Prod("jTmjp", True, True), Prod("jmjTp", True, False)]:
                    arg = p.arg(ctx, 2, n[wrt], nout, 2, tag=wrt[0])
                    no, r = attempt(lambda: p.call(a, at, va, arg, wrt), NIE)
                    if no:
                        continue
                    ctx.eq("%s: %s wrt %s" % (label, p.label, wrt), r, p.call(b, at, vb, arg, wrt))

        same(m, c, "copy and original", x)
        vc = c(x)
        m(y)  # the original sees another input
        same(m, c, "copy unaffected by using the original", x, None, vc)
        if not n["weight"]:
            return
        ps = [JAC, Prod("vjp"), Prod("mjp"), Prod("jvp"), Prod("jmp"), Prod("jTmjp"), Prod("jTmjp", True, True), Prod("jmjTp", True, False)]

        def facts(a):
            """everything observable of a model, with copies of the values"""
            out = [("output", snap(a(x))), ("weights", snap(a.get_weight()))]
            for wrt in ("input", "weight"):
                for p in ps:
                    arg = p.arg(ctx, 2, n[wrt], nout, 2, tag=wrt[0])
                    no, r = attempt(lambda: p.call(a, x, None, arg, wrt), NIE)
                    if not no:
                        out.append(("%s wrt %s" % (p.label, wrt), snap(r)))
            return out

        def compare(label, got, want):
            for (k, a), (_, b) in zip(got, want):
                ctx.eq("%s: %s" % (label, k), a, b)

        f0 = facts(m)
        w2 = ctx.tensor("w2", n["weight"])
        # the same model object re-weighted is the reference for what the weights w2 mean
        keep = m.get_weight()
        m.set_weight(w2)
        f2 = facts(m)
        compare("re-weighting the original leaves the copy", facts(c), f0)
        m.set_weight(keep)
        compare("original restored", facts(m), f0)
        c.set_weight(w2)
        c(y)
        compare("re-weighting the copy leaves the original", facts(m), f0)
        compare("the copy follows its new weights", facts(c), f2)
        d = copy.deepcopy(c)
        compare("a copy of the re-weighted copy", facts(d), f2)
        # in-place training steps
        with torch.no_grad():
            for p in c.parameters():
                p.add_(1.0)
        compare("training the copy in place leaves the original", facts(m), f0)
        compare("training the copy in place leaves a copy of it", facts(d), f2)
        fc = facts(c)
        with torch.no_grad():
            for p in m.parameters():
                p.mul_(2.0)
        compare("training the original in place leaves the copy", facts(c), fc)
        m.set_weight(w2)
        with torch.no_grad():
            for p in m.parameters():
                p.add_(1.0)
        compare("the trained copy equals the original with the same weights", fc, facts(m))

    return fn


def snap(v):
    from symtorch.runner import snapshot

    with no_mode():
        return snapshot(v)


SHARED = [
    ("Tanh", lambda: nnj.Tanh()),
    ("ReLU", lambda: nnj.ReLU()),
    ("Sinusoidal", lambda: nnj.Sinusoidal()),
    ("Sigmoid", lambda: nnj.Sigmoid()),
    ("Softplus", lambda: nnj.Softplus(beta=2.0, threshold=3.0)),
]


def shared(mk):
    """one activation object at two positions against two objects"""

    def fn(ctx):
        l1, l2 = ctx.model(lambda: Lin(2, 2)), ctx.model(lambda: Lin(2, 1))
        act = mk()
        m = Seq(l1, act, l2, act)
        o = Seq(l1, mk(), l2, mk())
        x = ctx.tensor("x", 2, 2)
        compare_models(ctx, m, o, x, True)

    return fn


def shared_two_models(mk):
    def fn(ctx):
        l1, l2 = ctx.model(lambda: Lin(2, 2)), ctx.model(lambda: Lin(2, 2))
        act = mk()
        m1, m2 = Seq(l1, act), Seq(act, l2)
        o1, o2 = Seq(l1, mk()), Seq(mk(), l2)
        x, y = ctx.tensor("x", 2, 2), ctx.tensor("y", 2, 2)
        v1 = m1(x)
        v2 = m2(y)
        m1(y)
        compare_models(ctx, m1, o1, x, True, v1)
        compare_models(ctx, m2, o2, y, True, v2)

    return fn


def shared_pool(ctx):
    act = nnj.MaxPool2d((1, 2))
    c1 = ctx.model(lambda: nnj.Conv2d(1, 1, 1))
    m = Seq(act, c1, act)
    o = Seq(nnj.MaxPool2d((1, 2)), c1, nnj.MaxPool2d((1, 2)))
    x = ctx.tensor("x", 1, 1, 1, 4)
    compare_models(ctx, m, o, x, False)


def shared_seq(ctx):
    act = Seq(nnj.Tanh(), nnj.Sinusoidal())
    l = ctx.model(lambda: Lin(1, 2))
    m = Seq(act, l, act)
    o = Seq(Seq(nnj.Tanh(), nnj.Sinusoidal()), l, Seq(nnj.Tanh(), nnj.Sinusoidal()))
    x = ctx.tensor("x", 2, 1)
    compare_models(ctx, m, o, x, True)


def shared_in_skip(ctx):
    act = nnj.Tanh()
    l = ctx.model(lambda: Lin(2, 1))
    m = Seq(act, Skip(act, l), act)
    o = Seq(nnj.Tanh(), Skip(nnj.Tanh(), l), nnj.Tanh())
    x = ctx.tensor("x", 2, 2)
    compare_models(ctx, m, o, x, True)


def compare_models(ctx, m, o, x, fwd, val=None):
    b = x.shape[0]
    ctx.eq("forward", m(x), o(x))
    val = m(x) if val is None else val
    nout = val[0].numel()
    for wrt in ("input", "weight"):
        n = x[0].numel() if wrt == "input" else nweights(m)
        for p in ALL:
            if p.forward and not fwd:
                continue
            a = p.arg(ctx, b, n, nout, 2, tag=wrt[0])
            for v in (None, val):
                ctx.eq("%s wrt %s: shared object / separate objects" % (p.label, wrt), p.call(m, x, v, a, wrt), p.call(o, x, None, a, wrt))


def c23(tier):
    for st in stacks(tier) + skips(tier):
        yield _sc("deep copy", st, 2, deep(st))
        yield from in_states(lambda l: deep(l), st, "deep copy", STATES[:4] + LAYOUTS[:2])
    for name, mk in [("Linear(2,2)", lambda: Lin(2, 2)), ("Conv2d", lambda: nnj.Conv2d(1, 2, (1, 2)))]:
        st = Stack(name, mk, (2,) if name[0] == "L" else (1, 1, 3), fwd=name[0] == "L")
        yield _sc("deep copy", st, 2, deep(st))
    for n, mk in SHARED:
        yield Scenario("one %s object at two positions" % n, shared(mk))
        yield Scenario("one %s object in two models" % n, shared_two_models(mk))
    yield Scenario("one MaxPool2d object at two positions", shared_pool)
    yield Scenario("one parameter-free Sequential at two positions", shared_seq)
    yield Scenario("one Tanh in a stack and in a skip connection", shared_in_skip)
