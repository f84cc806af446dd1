"""C16-C21, C24."""
import copy

from symtorch import extended as X
from symtorch.engine import ST

from .common import *
from .stacks import Stack, fresh_model, skips, stacks, check_products
from . import stacks as S

Seq, Skip, Lin = nnj.Sequential, nnj.SkipConnection, nnj.Linear


# ---------------------------------------------------------------------------------------------- C24
def unusual(tier):
    C, P, U = nnj.Conv2d, nnj.MaxPool2d, nnj.Upsample
    L = []

    def add(name, build, *shapes):
        for s in shapes:
            L.append(Layer(name, build, s, fwd=False))

    for vm in (True, False):
        t = "" if vm else ",novmap"
        add("Conv2d(1,1,(1,2),dilation=2%s)" % t, lambda vm=vm: C(1, 1, (1, 2), dilation=2, use_vmap_for_backprop=vm), (1, 1, 4), (1, 2, 3))
        add("Conv2d(2,1,2,dilation=2%s)" % t, lambda vm=vm: C(2, 1, 2, dilation=2, use_vmap_for_backprop=vm), (2, 3, 3))
        add("Conv2d(2,1,2,dilation=(1,2),pad=1%s)" % t, lambda vm=vm: C(2, 1, 2, dilation=(1, 2), padding=1, use_vmap_for_backprop=vm), (2, 2, 2))
        add("Conv2d(1,1,(3,1),dilation=(2,1),pad=(2,0)%s)" % t, lambda vm=vm: C(1, 1, (3, 1), dilation=(2, 1), padding=(2, 0), use_vmap_for_backprop=vm), (1, 3, 1))
        add("Conv2d(1,2,1,dilation=3%s)" % t, lambda vm=vm: C(1, 2, 1, dilation=3, use_vmap_for_backprop=vm), (1, 2, 2))
        add("Conv2d(2,2,(1,2),groups=2%s)" % t, lambda vm=vm: C(2, 2, (1, 2), groups=2, use_vmap_for_backprop=vm), (2, 1, 3))
        add("Conv2d(2,4,1,groups=2%s)" % t, lambda vm=vm: C(2, 4, 1, groups=2, use_vmap_for_backprop=vm), (2, 1, 2))
        add("Conv2d(4,2,1,groups=2,nobias%s)" % t, lambda vm=vm: C(4, 2, 1, groups=2, bias=False, use_vmap_for_backprop=vm), (4, 1, 2))
        add("Conv2d(1,1,(1,2),pad=2%s)" % t, lambda vm=vm: C(1, 1, (1, 2), padding=2, use_vmap_for_backprop=vm), (1, 1, 2))
        for mode in ("circular", "reflect", "replicate"):
            add("Conv2d(1,1,(1,3),pad=(0,1),%s%s)" % (mode, t), lambda vm=vm, mode=mode: C(1, 1, (1, 3), padding=(0, 1), padding_mode=mode, use_vmap_for_backprop=vm), (1, 1, 3))
            add("Conv2d(1,1,2,pad=1,%s%s)" % (mode, t), lambda vm=vm, mode=mode: C(1, 1, 2, padding=1, padding_mode=mode, use_vmap_for_backprop=vm), (1, 2, 2))
            add("Conv2d(1,1,2,pad=0,%s%s)" % (mode, t), lambda vm=vm, mode=mode: C(1, 1, 2, padding=0, padding_mode=mode, use_vmap_for_backprop=vm), (1, 2, 3))
        for pad in ("same", "valid"):
            add("Conv2d(1,1,(1,3),padding='%s'%s)" % (pad, t), lambda vm=vm, pad=pad: C(1, 1, (1, 3), padding=pad, use_vmap_for_backprop=vm), (1, 1, 3))
        for st in (2, (1, 2)):
            add("Conv2d(1,1,1,stride=%s%s)" % (st, t), lambda vm=vm, st=st: C(1, 1, 1, stride=st, use_vmap_for_backprop=vm), (1, 2, 3))
    # the last columns are not covered by a window
    add("MaxPool2d(2) odd sizes", lambda: P(2), (1, 3, 2), (1, 2, 3), (2, 3, 3))
    add("MaxPool2d((1,2))", lambda: P((1, 2)), (2, 2, 2))
    add("MaxPool2d((1,2),stride=(1,3))", lambda: P((1, 2), stride=(1, 3)), (1, 1, 5))
    add("MaxPool2d((1,2),stride=1)", lambda: P((1, 2), stride=1), (2, 1, 3))
    add("MaxPool2d((1,2),ceil_mode)", lambda: P((1, 2), ceil_mode=True), (1, 1, 3), (1, 2, 3))
    add("MaxPool2d(2,stride=1,ceil_mode)", lambda: P(2, stride=1, ceil_mode=True), (1, 2, 3))
    add("MaxPool2d((1,2),dilation=2)", lambda: P((1, 2), stride=1, dilation=(1, 2)), (1, 1, 4))
    add("MaxPool2d((1,2),dilation=2,default stride)", lambda: P((1, 2), dilation=2), (1, 1, 4))
    add("MaxPool2d((1,2),pad=(0,1))", lambda: P((1, 2), padding=(0, 1)), (1, 1, 2), (1, 1, 3))
    add("MaxPool2d((1,3),stride=2,pad=(0,1),ceil_mode)", lambda: P((1, 3), stride=2, padding=(0, 1), ceil_mode=True), (1, 1, 4))
    add("MaxPool2d(1)", lambda: P(1), (1, 2, 2))
    for mode in ("nearest", "nearest-exact", "bilinear", "bicubic"):
        for sf in (2, 1, 3, 1.5, (1, 2), (2, 1), (2, 3), 0.5, (1.0, 2.0), 2.5):
            if mode == "bicubic" and sf not in (2, 1):
                continue
            add("Upsample(scale_factor=%s,%s)" % (sf, mode), lambda mode=mode, sf=sf: U(scale_factor=sf, mode=mode), (1, 2, 2), *([(1, 1, 3)] if sf in (1.5, 0.5, 2.5) else []))
    add("Upsample(2,bilinear,align_corners)", lambda: U(scale_factor=2, mode="bilinear", align_corners=True), (1, 2, 2))
    add("Upsample(size=4)", lambda: U(size=4), (1, 2, 2))
    add("Upsample(size=(2,6))", lambda: U(size=(2, 6)), (1, 2, 2))
    add("Upsample(size=(1,3))", lambda: U(size=(1, 3)), (1, 2, 2))
    add("Upsample(2,recompute)", lambda: U(scale_factor=2, recompute_scale_factor=True), (1, 1, 2))
    add("Upsample(1.5,recompute)", lambda: U(scale_factor=1.5, recompute_scale_factor=True), (1, 2, 2))
    return L


def pool_grid():
    """(settings, input shape): every combination of pooling settings on a size no stride divides"""
    for k in ((1, 2), (1, 3), (2, 1)):
        for st in (None, 1, (1, 2), (2, 3)):
            for pad in (0, tuple(int(i > 1) for i in k)):
                for d in (1, 2):
                    for ceil in (False, True):
                        kw = dict(kernel_size=k, stride=st, padding=pad, dilation=d, ceil_mode=ceil)
                        yield kw, (1, 4, 1) if k == (2, 1) else (1, 1, 6 if d == 2 and k == (1, 3) else 4)


def conv_grid(modes=("zeros", "circular", "reflect", "replicate")):
    for k in ((1, 2), (2, 1), 2):
        for pad in (0, 1, (0, 1), (1, 0)):
            for d in (1, (1, 2), (2, 1)):
                for g in (1, 2):
                    for mode in modes:
                        for bias in (True, False):
                            if mode != "zeros" and (pad == 0 or g == 2):
                                continue
                            yield dict(in_channels=2, out_channels=2, kernel_size=k, padding=pad, dilation=d, groups=g, padding_mode=mode, bias=bias), (2, 3, 3)


def upsample_grid():
    for sf in (1, 2, (1, 2), (2, 1), 1.5, 0.5):
        for mode in ("nearest", "nearest-exact", "bilinear", "bicubic"):
            for rec in (None, True):
                for al in (None, True) if mode[0] == "b" else (None,):
                    yield dict(scale_factor=sf, mode=mode, recompute_scale_factor=rec, align_corners=al), (1, 2, 2)
    for size in (3, (2, 3), (4, 2), (1, 1)):
        for mode in ("nearest", "nearest-exact", "bilinear"):
            for al in (None, True) if mode[0] == "b" else (None,):
                yield dict(size=size, mode=mode, align_corners=al), (1, 2, 2)


def combos():
    """library layers with every combination of settings"""
    for kw, shape in pool_grid():
        yield Layer("MaxPool2d(%s)" % kw, lambda kw=kw: nnj.MaxPool2d(**kw), shape, fwd=False)
    for kw, shape in conv_grid():
        if kw["padding_mode"] == "zeros" or kw["bias"]:
            for vm in (True, False) if kw["bias"] and kw["groups"] == 1 else (True,):
                k2 = dict(kw, in_channels=kw["groups"], use_vmap_for_backprop=vm)
                yield Layer("Conv2d(%s)" % k2, lambda kw=k2: nnj.Conv2d(**kw), (kw["groups"],) + ((2, 3) if kw["dilation"] != (2, 1) else (3, 2)), fwd=False)
    for kw, shape in upsample_grid():
        yield Layer("Upsample(%s)" % kw, lambda kw=kw: nnj.Upsample(**kw), shape, fwd=False)


def right_or_refused(lay, b, prods, wrts, val_given=True):
    def fn(ctx):
        try:
            m, x = setup(ctx, lay, b)
            val = m(x)
        except (E.Unsupported, T.NonFinite):
            raise
        except Exception:
            return  # the constructor or the forward pass refuses
        nout = val[0].numel()
        J = JCache(ctx, lay, m, val, x)
        for wrt in wrts:
            n = J.n(wrt)
            for p in prods:
                a = p.arg(ctx, b, n, nout, 2, tag=wrt[0])
                for v in (None, val) if val_given else (None,):
                    try:
                        r = p.call(m, x, v, a, wrt)
                    except (E.Unsupported, T.NonFinite, T.TermLimit):
                        raise
                    except Exception:
                        continue
                    ctx.eq("%s wrt %s" % (p.label, wrt), r, lambda: terms_or_none(p.want(J(wrt), a)))

    return fn


def torch_layer(cls, kw):
    return getattr(nn, cls)(**{k: v for k, v in kw.items() if k != "use_vmap_for_backprop"})


def function_or_refused(cls, kw, shape, b=2):
    """the forward pass under these settings is that of the torch layer, or the settings are refused"""

    def fn(ctx):
        try:
            with no_mode():
                r = torch_layer(cls, kw)
                r(torch.zeros(b, *shape))
        except Exception:
            return  # torch refuses
        try:
            m = ctx.model(lambda: getattr(nnj, cls)(**kw))
        except (E.Unsupported, T.NonFinite):
            raise
        except Exception:
            return
        _share(m, r)
        x = ctx.tensor("x", b, *shape)
        try:
            y = m(x)
        except (E.Unsupported, T.NonFinite, T.TermLimit):
            raise
        except Exception:
            return
        z = r(x)
        ctx.true("same shape", tuple(y.shape) == tuple(z.shape))
        ctx.eq("same output", y, z)

    return fn


def function_settings():
    """(class, settings, input shape)"""
    for kw, shape in pool_grid():
        yield "MaxPool2d", kw, shape
    for kw, shape in conv_grid():
        if kw["groups"] == 1 or kw["bias"]:
            yield "Conv2d", dict(kw, in_channels=kw["groups"]), (kw["groups"],) + shape[1:]
    for k in ((1, 2), (2, 1), 2, (1, 3), 3, 1):
        for pad in ("same", "valid"):
            for d in (1, 2):
                for bias in (True, False):
                    yield "Conv2d", dict(in_channels=1, out_channels=1, kernel_size=k, padding=pad, dilation=d, bias=bias), (1, 3, 3) if d == 1 or k in (1, 2) else (1, 3, 5)
        for st in (2, (1, 2), (2, 1)):
            yield "Conv2d", dict(in_channels=1, out_channels=1, kernel_size=k, stride=st), (1, 3, 4)
    for kw, shape in upsample_grid():
        yield "Upsample", kw, shape


def functions(tier, step=1):
    seen = set()
    for k, (cls, kw, shape) in enumerate(function_settings()):
        if k % step and not isinstance(kw.get("padding"), str) and "stride" not in kw:
            continue
        nm = "%s(%s) on %s" % (cls, kw, shape)
        if nm not in seen:
            seen.add(nm)
            yield Scenario("%s forward" % nm, function_or_refused(cls, kw, shape, 1 if tier == "quick" else 2), bounds="input %s" % (shape,))


def c24(tier):
    yield from functions(tier, 3 if tier == "quick" else 1)
    for lay in unusual(tier):
        for b in (2,) if tier == "quick" else (1, 2, 3):
            for wrt in ("input", "weight") if lay.name.startswith("Conv") else ("input",):
                nm = "%s on %s b=%d wrt %s" % (lay.name, lay.shape, b, wrt)
                yield Scenario(nm + " first order", right_or_refused(lay, b, [JAC] + FWD + BWD, (wrt,)), bounds="batch %d, input %s" % (b, lay.shape))
                yield Scenario(nm + " metrics", right_or_refused(lay, b, JTMJ + JMJT, (wrt,)), bounds="batch %d, input %s" % (b, lay.shape))


    seen = set()
    for lay in combos():
        if lay.name not in seen:
            seen.add(lay.name)
            for wrt in ("input", "weight") if lay.name.startswith("Conv") else ("input",):
                yield Scenario("%s wrt %s" % (lay.name, wrt), right_or_refused(lay, 1 if tier == "quick" else 2, [JAC, Prod("vjp"), Prod("mjp")] + (JTMJ if tier != "quick" else [JTMJ[0], JTMJ[3]]), (wrt,), tier != "quick"), bounds="input %s" % (lay.shape,))


# ---------------------------------------------------------------------------------------------- C16
def torch_models(tier):
    """(name, build, input shape, refusable, products supported)"""
    Q, L, C, P = nn.Sequential, nn.Linear, nn.Conv2d, nn.MaxPool2d
    out = [
        ("Linear", lambda: Q(L(3, 2)), (3,)),
        ("Linear without bias", lambda: Q(L(2, 3, bias=False)), (2,)),
        ("square Linears", lambda: Q(L(2, 2), L(2, 2), L(2, 2, bias=False)), (2,)),
        ("Linear-Tanh-Linear", lambda: Q(L(2, 3), nn.Tanh(), L(3, 1)), (2,)),
        ("ReLU-Linear-Sigmoid", lambda: Q(nn.ReLU(), L(2, 2), nn.Sigmoid()), (2,)),
        ("Softplus", lambda: Q(nn.Softplus(), L(1, 2)), (1,)),
        ("Softplus(2,3)", lambda: Q(L(1, 1), nn.Softplus(beta=2, threshold=3)), (1,)),
        ("Softplus(0.5)", lambda: Q(nn.Softplus(beta=0.5)), (2,)),
        ("nested", lambda: Q(L(2, 2), Q(nn.Tanh(), L(2, 2), Q(nn.ReLU())), L(2, 1, bias=False)), (2,)),
        ("Flatten", lambda: Q(nn.Flatten(), L(4, 2)), (1, 2, 2)),
        ("Flatten(start_dim=2)", lambda: Q(nn.Flatten(start_dim=2)), (2, 1, 2)),
        ("Flatten(0)", lambda: Q(nn.Flatten(0)), (2, 1, 2)),
        ("Flatten(1,2)", lambda: Q(nn.Flatten(1, 2)), (2, 1, 2)),
        ("Conv2d", lambda: Q(C(1, 2, 2)), (1, 2, 3)),
        ("Conv2d square channels", lambda: Q(C(2, 2, 2), C(2, 2, 1)), (2, 2, 3)),
        ("Conv2d without bias", lambda: Q(C(2, 1, (1, 2), bias=False)), (2, 1, 3)),
        ("Conv2d padding", lambda: Q(C(1, 1, 2, padding=1)), (1, 2, 2)),
        ("Conv2d (2,1) pad (1,0)", lambda: Q(C(1, 2, (2, 1), padding=(1, 0))), (1, 2, 2)),
        ("Conv2d (1,2) pad (0,1)", lambda: Q(C(1, 1, (1, 2), padding=(0, 1))), (1, 2, 2)),
        ("Conv2d dilation", lambda: Q(C(1, 1, (1, 2), dilation=2)), (1, 1, 4)),
        ("Conv2d dilation (1,2)", lambda: Q(C(1, 1, 2, dilation=(1, 2))), (1, 2, 3)),
        ("Conv2d groups", lambda: Q(C(2, 2, (1, 2), groups=2)), (2, 1, 3)),
        ("Conv2d circular", lambda: Q(C(1, 1, (1, 3), padding=(0, 1), padding_mode="circular")), (1, 1, 3)),
        ("Conv2d reflect", lambda: Q(C(1, 1, (1, 3), padding=(0, 1), padding_mode="reflect")), (1, 1, 3)),
        ("Conv2d same", lambda: Q(C(1, 1, (1, 3), padding="same")), (1, 1, 3)),
        ("Conv2d stride 2", lambda: Q(C(1, 1, 1, stride=2)), (1, 1, 3)),
        ("Conv2d stride (1,2)", lambda: Q(C(1, 1, 1, stride=(1, 2))), (1, 1, 3)),
        ("MaxPool2d", lambda: Q(P((1, 2))), (1, 1, 4)),
        ("MaxPool2d(2)", lambda: Q(P(2)), (1, 2, 2)),
        ("MaxPool2d stride 1", lambda: Q(P((1, 2), stride=1)), (1, 1, 3)),
        ("MaxPool2d stride (1,3)", lambda: Q(P((1, 2), stride=(1, 3))), (1, 1, 5)),
        ("MaxPool2d padding", lambda: Q(P((1, 2), padding=(0, 1))), (1, 1, 2)),
        ("MaxPool2d dilation", lambda: Q(P((1, 2), dilation=2, stride=1)), (1, 1, 4)),
        ("MaxPool2d ceil_mode", lambda: Q(P((1, 2), ceil_mode=True)), (1, 1, 3)),
        ("Upsample 2", lambda: Q(nn.Upsample(scale_factor=2)), (1, 1, 2)),
        ("Upsample 3", lambda: Q(nn.Upsample(scale_factor=3)), (2, 1, 1)),
        ("Upsample (1,2)", lambda: Q(nn.Upsample(scale_factor=(1, 2))), (1, 1, 2)),
        ("Upsample 1.5", lambda: Q(nn.Upsample(scale_factor=1.5)), (1, 1, 2)),
        ("Upsample size", lambda: Q(nn.Upsample(size=(2, 3))), (1, 1, 2)),
        ("Upsample bilinear", lambda: Q(nn.Upsample(scale_factor=2, mode="bilinear")), (1, 1, 2)),
        ("Upsample bilinear align", lambda: Q(nn.Upsample(scale_factor=2, mode="bilinear", align_corners=True)), (1, 1, 2)),
        ("image stack", lambda: Q(C(1, 2, (1, 2)), nn.ReLU(), P((1, 2)), nn.Flatten(), L(2, 1)), (1, 1, 3)),
        ("image stack 2", lambda: Q(nn.Upsample(scale_factor=2), C(1, 1, (2, 3), bias=False), nn.Tanh()), (1, 1, 2)),
        ("two nested convolutions", lambda: Q(Q(C(1, 1, (1, 2)), nn.Tanh()), Q(C(1, 2, 1), nn.Sigmoid())), (1, 1, 3)),
        ("empty nested", lambda: Q(L(1, 1), Q(L(1, 1, bias=False), nn.Sigmoid()), Q(Q(L(1, 2)))), (1,)),
    ]
    if tier == "thorough":
        out += [
            ("deep", lambda: Q(*[l for k in range(4) for l in (L(2, 2, bias=bool(k % 2)), nn.Tanh())]), (2,)),
            ("Conv2d 3x3", lambda: Q(C(2, 2, 3, padding=1), nn.ReLU(), C(2, 1, (2, 3), padding=(0, 1))), (2, 2, 2)),
            ("all layers", lambda: Q(C(1, 1, 1), nn.Tanh(), nn.Upsample(scale_factor=2), nn.ReLU(), P((2, 1)), nn.Sigmoid(), nn.Flatten(), nn.Softplus(), L(2, 1)), (1, 1, 1)),
        ]
    return out


# a conversion may refuse these (the library has no such layer or documents the restriction)
MAY_REFUSE = ("stride 2", "stride (1,2)", "same", "Flatten(", "groups", "circular", "reflect")


def settings(m):
    return [
        (type(l).__name__, {k: v for k, v in vars(l).items() if isinstance(v, (int, float, str, bool, tuple, type(None)))})
        for l in m.modules()
    ]


def convert(name, build, shape, b=2):
    def fn(ctx):
        src = ctx.model(build)
        before = settings(src)
        ids = [id(p) for p in src.parameters()]
        names = [n for n, _ in src.named_parameters()]
        W = {"source weight %d" % k: p for k, p in enumerate(src.parameters())}
        g = Guard(**W)
        x = ctx.tensor("x", b, *shape)
        refused = False
        try:
            m = nnj.convert_to_nnj(src)
        except (E.Unsupported, T.NonFinite, T.TermLimit):
            raise
        except Exception:
            if any(s in name for s in MAY_REFUSE):
                refused = True
            else:
                raise
        g.check(ctx, "conversion")
        ctx.true("the source keeps its settings", settings(src) == before)
        ctx.true("the source keeps its parameters", [id(p) for p in src.parameters()] == ids and [n for n, _ in src.named_parameters()] == names)
        if refused:
            return
        ctx.true("a Sequential of the library", isinstance(m, nnj.Sequential))
        y, z = m(x), src(x)
        g.check(ctx, "forward of the converted model")
        ctx.eq("same output", y, z)
        ws = [p.detach().reshape(-1) for p in src.parameters()]
        if ws:
            ctx.eq("same weights in the same order", m.get_weight(), torch.cat(ws))
            ctx.true("same number of parameters", sum(p.numel() for p in m.parameters()) == m._n_params)
            # another weight vector: still the same function
            w = ctx.tensor("w", m._n_params)
            m.set_weight(w)
            with torch.no_grad():
                k = 0
                for p in src.parameters():
                    p.copy_(w[k : k + p.numel()].reshape(p.shape))
                    k += p.numel()
            ctx.eq("same output for other weights", m(x), src(x))
        # converting twice gives the same function
        ctx.eq("converting again", nnj.convert_to_nnj(src)(x), src(x))

    return fn


def convert_products(name, build, shape):
    """Jacobians of the converted model are derivatives of the source model"""

    def fn(ctx):
        src = ctx.model(build)
        x = ctx.tensor("x", 2, *shape)
        try:
            m = nnj.convert_to_nnj(src)
            val = m(x)
        except (E.Unsupported, T.NonFinite, T.TermLimit):
            raise
        except Exception:
            return
        z = src(x)
        for wrt in ("input", "weight"):
            no, r = attempt(lambda: m.jacobian(x, val, wrt=wrt), Exception)
            if no:
                continue
            ctx.eq("jacobian of the converted model wrt %s" % wrt, r, lambda: terms_or_none(O.jac_input(z, x) if wrt == "input" else O.jac_weight(z, list(src.parameters()))))

    return fn


def reused_modules():
    """torch models in which one module object stands at several positions"""
    Q, L, C = nn.Sequential, nn.Linear, nn.Conv2d

    def two(act):
        return lambda: (lambda a: Q(L(2, 2), a, L(2, 1), a))(act())

    out = [("one %s object twice" % n, two(f), (2,)) for n, f in (("Tanh", nn.Tanh), ("ReLU", nn.ReLU), ("Sigmoid", nn.Sigmoid), ("Softplus", nn.Softplus))]
    out += [
        ("one Linear object twice", lambda: (lambda l: Q(l, nn.Tanh(), l))(L(2, 2)), (2,)),
        ("one Linear object in a row", lambda: (lambda l: Q(l, l, L(2, 1)))(L(2, 2, bias=False)), (2,)),
        ("one Conv2d object twice", lambda: (lambda l: Q(l, nn.ReLU(), l))(C(1, 1, (1, 2))), (1, 1, 3)),
        ("one MaxPool2d object twice", lambda: (lambda l: Q(l, nn.Tanh(), l))(nn.MaxPool2d((1, 2))), (1, 1, 4)),
        ("one Flatten object twice", lambda: (lambda l: Q(l, L(2, 2), l))(nn.Flatten()), (1, 2)),
        ("one nested Sequential twice", lambda: (lambda l: Q(l, L(2, 2), l))(Q(nn.Tanh(), L(2, 2))), (2,)),
        ("one Tanh at two depths", lambda: (lambda a: Q(a, Q(L(1, 2), a), Q(Q(a))))(nn.Tanh()), (1,)),
        ("one Upsample object twice", lambda: (lambda l: Q(l, nn.Sigmoid(), l))(nn.Upsample(scale_factor=2)), (1, 1, 1)),
    ]
    return out


def convert_reused(build, shape):
    def fn(ctx):
        src = ctx.model(build)
        x = ctx.tensor("x", 2, *shape)
        W = {"source weight %d" % k: p for k, p in enumerate(src.parameters())}
        g = Guard(**W)
        n = len(list(src))
        m = nnj.convert_to_nnj(src)
        g.check(ctx, "conversion")
        ctx.true("as many layers as the source", len(list(m)) == n == len(list(src)))
        z = src(x)
        y = m(x)
        ctx.eq("same output", y, z)
        ctx.eq("jacobian wrt input", m.jacobian(x, y), lambda: terms_or_none(O.jac_input(z, x)))
        v = ctx.tensor("v", 2, y[0].numel())
        ctx.eq("vjp wrt input", m.vjp(x, y, v), lambda: terms_or_none(O.vj(O.jac_input(z, x), O.L(v))))

    return fn


def sized_torch_models():
    Q, L, C = nn.Sequential, nn.Linear, nn.Conv2d
    out = []
    for n in sizes(66, (5, 9)):
        out += [
            ("Linear(%d,1)" % n, lambda n=n: Q(L(n, 1)), (n,)),
            ("Linear(1,%d)" % n, lambda n=n: Q(L(1, n)), (1,)),
            ("Conv2d(%d,1,1)" % n, lambda n=n: Q(C(n, 1, 1)), (n, 1, 1)),
            ("Conv2d(1,%d,1)" % n, lambda n=n: Q(C(1, n, 1)), (1, 1, 1)),
            ("Conv2d(1,1,(1,%d))" % n, lambda n=n: Q(C(1, 1, (1, n))), (1, 1, n)),
            ("Flatten of %d pixels" % n, lambda n=n: Q(nn.Flatten(), L(n, 1)), (1, 1, n)),
        ]
    for n in sizes(34, (5, 9)):
        out += [
            ("%d linear layers" % n, lambda n=n: Q(*[L(1, 1, bias=bool(k % 2)) for k in range(n)]), (1,)),
            ("%d nested" % n, lambda n=n: _nest(n), (1,)),
            ("%d activations" % n, lambda n=n: Q(*[(nn.ReLU() if k % 2 else nn.Upsample(scale_factor=1)) for k in range(n)]), (1, 1, 1)),
        ]
    return out


def _nest(n):
    m = nn.Linear(1, 1)
    for k in range(min(n, 12)):
        m = nn.Sequential(m, nn.Tanh()) if k % 3 == 0 else nn.Sequential(m)
    return nn.Sequential(m, nn.Linear(1, 1, bias=False))


def softplus_grid():
    for beta in (0.5, 1, 2, 30):
        for th in (0, 1, 20, 40):
            yield dict(beta=beta, threshold=th), (1,)


def convert_grid(kind, configs):
    """one of many settings, then the conversion of the single layer between two others"""

    def fn(ctx):
        kw, shape = configs[ctx.choose(len(configs))]
        try:
            with no_mode():
                getattr(nn, kind)(**kw)(torch.zeros(1, *shape))
        except Exception:
            return  # torch itself refuses the settings or the size
        src = ctx.model(lambda: nn.Sequential(nn.Tanh(), nn.Sequential(getattr(nn, kind)(**kw)), nn.Sigmoid()) if kw.get("kernel_size") == (2, 1) else nn.Sequential(getattr(nn, kind)(**kw)))
        x = ctx.tensor("x", 1, *shape)
        try:
            m = nnj.convert_to_nnj(src)
        except (E.Unsupported, T.NonFinite, T.TermLimit):
            raise
        except Exception:
            if kind == "Conv2d" and (kw["groups"] > 1 or kw["padding_mode"] != "zeros"):
                return
            raise
        ctx.eq("%s(%s): same output" % (kind, kw), m(x), src(x))

    return fn


def c16(tier):
    for kind, g in (("MaxPool2d", list(pool_grid())), ("Conv2d", list(conv_grid())), ("Upsample", list(upsample_grid())), ("Softplus", list(softplus_grid()))):
        for k in range(0, len(g), 12):
            yield Scenario("convert %s with every combination of settings, part %d" % (kind, k // 12), convert_grid(kind, g[k : k + 12]), max_paths=100, bounds="%d settings" % len(g))
    for name, build, shape in sized_torch_models():
        yield Scenario("convert: %s" % name, convert(name, build, shape, 1), bounds="batch 1, input %s" % (shape,))
    for name, build, shape in reused_modules():
        yield Scenario("convert: %s" % name, convert_reused(build, shape), bounds="batch 2, input %s" % (shape,))
    for name, build, shape in torch_models(tier):
        for b in (2,) if tier == "quick" else (1, 2, 3):
            yield Scenario("convert %s b=%d" % (name, b), convert(name, build, shape, b), bounds="batch %d, input %s" % (b, shape))
        if not any(s in name for s in MAY_REFUSE + ("Upsample (", "Upsample 1.5", "Upsample size", "bilinear")):
            yield Scenario("convert %s, Jacobian" % name, convert_products(name, build, shape), bounds="batch 2, input %s" % (shape,))


# ---------------------------------------------------------------------------------------------- C17
def weights(st, b=2):
    def fn(ctx):
        m, x = setup(ctx, st, b)
        n = nweights(m)
        if n == 0:
            ctx.true("no parameters counted", m._n_params == 0)
            return
        want = torch.cat([p.detach().reshape(-1) for p in m.parameters()])
        g0 = m.get_weight()
        ctx.eq("get_weight is the parameters in order", g0, want)
        ctx.true("_n_params", m._n_params == n)
        ctx.true("get_weight does not require grad", not g0.requires_grad)
        y0 = m(x)
        ps = [JAC, Prod("jvp"), Prod("jmp"), Prod("vjp"), Prod("mjp"), Prod("jTmjp"), Prod("jTmjp", True, True), Prod("jmjTp", True, True)]
        before = products(ctx, m, x, n, ps, "old")
        m.set_weight(g0)
        ctx.eq("set_weight(get_weight()) keeps the weights", m.get_weight(), want)
        ctx.eq("set_weight(get_weight()) keeps the output", m(x), y0)
        keep = m.get_weight()
        from symtorch.runner import snapshot

        with no_mode():
            ks = snapshot(keep)
        w = ctx.tensor("w", n)
        twin = ctx.model(st.build)  # a model that has never been used
        g = Guard(w=w)
        m.set_weight(w)
        g.check(ctx, "set_weight")
        ctx.eq("get_weight after set_weight", m.get_weight(), w)
        ctx.eq("an earlier get_weight does not change", keep, ks)
        # reference: copy the entries by hand
        with torch.no_grad():
            k = 0
            for p in twin.parameters():
                p.copy_(w[k : k + p.numel()].reshape(p.shape))
                k += p.numel()
        y = m(x)
        ctx.eq("forward uses the new weights", y, twin(x))
        nout = y[0].numel()
        jw = m.jacobian(x, None, wrt="weight")
        ctx.true("last dimension of the weight Jacobian", jw.shape[-1] == n)
        for wrt in ("input", "weight"):
            nn_ = x[0].numel() if wrt == "input" else n
            for p in ps:
                a = p.arg(ctx, b, nn_, nout, 2, tag=wrt[0])
                no, r = attempt(lambda: p.call(m, x, None, a, wrt), NIE)
                if not no:
                    ctx.eq("%s wrt %s uses the new weights" % (p.label, wrt), r, p.call(twin, x, None, a, wrt))
        ctx.eq("weight Jacobian is the derivative with respect to get_weight()", jw, lambda: Terms([[T.grad(o, O.L(w)) for o in vs] for vs in O.flat(y)]))
        # a second vector; then back
        v = ctx.tensor("v", n)
        m.set_weight(v)
        ctx.eq("second set_weight", m.get_weight(), v)
        m.set_weight(keep)
        ctx.eq("restoring", m.get_weight(), ks)
        ctx.eq("restored output", m(x), y0)
        for (k, u), (_, v_) in zip(products(ctx, m, x, n, ps, "old"), before):
            ctx.eq("restored: " + k, u, v_)
        # two models given the same vector; training one of them reaches neither the vector nor the other
        shared_w = ctx.tensor("sw", n)
        m.set_weight(shared_w)
        twin.set_weight(shared_w)
        with no_mode():
            ss = snapshot(shared_w)
        with torch.no_grad():
            for p in m.parameters():
                p.mul_(2.0)
        ctx.eq("training leaves the vector given to set_weight", shared_w, ss)
        ctx.eq("training leaves another model given the same vector", twin.get_weight(), ss)
        m.set_weight(shared_w)
        with torch.no_grad():
            shared_w.add_(1.0)
        ctx.eq("changing the vector afterwards leaves the model", m.get_weight(), ss)
        m.set_weight(keep)
        # later weight changes do not reach vectors read before
        got = m.get_weight()
        with no_mode():
            gs = snapshot(got)
        with torch.no_grad():
            for p in m.parameters():
                p.add_(1.0)
        ctx.eq("get_weight's result does not alias the weights", got, gs)
        ctx.eq("in-place training is visible in get_weight", m.get_weight(), gs_plus(ctx, gs))
        twin = fresh_model(ctx, st, m)
        ctx.eq("in-place training is visible in the output", m(x), twin(x))
        for (k, u), (_, v_) in zip(products(ctx, m, x, n, ps, "new"), products(ctx, twin, x, n, ps, "new")):
            ctx.eq("in-place training is visible in " + k, u, v_)

    return fn


def products(ctx, m, x, n, ps, tag):
    from .stacks import snap

    out = []
    b, nout = x.shape[0], m(x)[0].numel()
    for wrt in ("input", "weight"):
        k = x[0].numel() if wrt == "input" else n
        for p in ps:
            a = p.arg(ctx, b, k, nout, 2, tag=wrt[0] + tag)
            no, r = attempt(lambda: p.call(m, x, None, a, wrt), NIE)
            if not no:
                out.append(("%s wrt %s" % (p.label, wrt), snap(r)))
    return out


def gs_plus(ctx, s):
    from symtorch.runner import Snap

    if isinstance(s, Snap):
        return Terms([T.add(i, 1) for i in s.ids.tolist()])
    return s + 1


def layer_weights(ctx):
    """weights of a stack in the order of its layers"""
    a, b, c = ctx.model(lambda: Lin(1, 2)), ctx.model(lambda: nnj.Conv2d(1, 1, (1, 2))), ctx.model(lambda: Lin(1, 1, bias=False))
    m = Seq(a, Seq(nnj.Reshape(1, 1, 2), b), nnj.Flatten(), Skip(c))
    ctx.eq("stack order", m.get_weight(), torch.cat([a.get_weight(), b.get_weight(), c.get_weight()]))
    w = ctx.tensor("w", m._n_params)
    m.set_weight(w)
    ctx.eq("layer 0", a.get_weight(), w[:4])
    ctx.eq("layer 1", b.get_weight(), w[4:7])
    ctx.eq("layer 3", c.get_weight(), w[7:])
    ctx.eq("weight matrix first, row by row", a.weight.detach().reshape(-1), w[:2])
    ctx.eq("then bias", a.bias.detach(), w[2:4])


def c17(tier):
    for st in layers(tier) + stacks(tier) + skips(tier):
        yield Scenario("%s weights" % st.name, weights(st), bounds="batch 2")
        yield from in_states(lambda l: weights(l), st, "weights")
    yield Scenario("order of a mixed stack", layer_weights)
    for n in sizes(34, (5,)):
        yield Scenario("Linear(%d,1) weights" % n, weights(Layer("", lambda n=n: Lin(n, 1), (n,)), 1))
        yield Scenario("Linear(1,%d) weights" % n, weights(Layer("", lambda n=n: Lin(1, n), (1,)), 1))
        yield Scenario("Conv2d(%d,1,1) weights" % n, weights(Layer("", lambda n=n: nnj.Conv2d(n, 1, 1), (n, 1, 1), fwd=False), 1))
        yield Scenario("Conv2d(1,%d,1) weights" % n, weights(Layer("", lambda n=n: nnj.Conv2d(1, n, 1), (1, 1, 1), fwd=False), 1))
    for n in sizes(18, (5,)):
        yield Scenario("%d layers" % n, weights(Stack("", lambda n=n: Seq(*[Lin(1, 1, bias=bool(k % 2)) for k in range(n)]), (1,)), 1))


# ---------------------------------------------------------------------------------------------- C18
class RefL2(nn.Module):
    def __init__(self, eps):
        super().__init__()
        self.eps = eps

    def forward(self, x):
        f = x.reshape(x.shape[0], -1)
        n = ((f * f).sum(1) ** 0.5 + self.eps).reshape((-1,) + (1,) * (x.dim() - 1))
        return x / n


class RefFn(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def forward(self, x):
        return self.f(x)


class RefCat(nn.Module):
    def __init__(self, *ls):
        super().__init__()
        self.s = nn.Sequential(*ls)

    def forward(self, x):
        return torch.cat([x, self.s(x)], dim=1)


def counterparts(tier):
    """(layer, torch counterpart)"""
    C, P, Q = nn.Conv2d, nn.MaxPool2d, nn.Sequential
    N = nnj
    out = []

    def add(name, shape, build, ref, pre=None, jac=True):
        out.append((Layer(name, build, shape, pre=pre), ref, jac))

    add("Linear", (3,), lambda: Lin(3, 2), lambda: nn.Linear(3, 2))
    add("Linear nobias", (2,), lambda: Lin(2, 3, bias=False), lambda: nn.Linear(2, 3, bias=False))
    for shape in ((3,), (1, 2, 2)):
        add("Tanh%s" % (shape,), shape, lambda: N.Tanh(), lambda: nn.Tanh())
        add("ReLU%s" % (shape,), shape, lambda: N.ReLU(), lambda: nn.ReLU())
        add("Sigmoid%s" % (shape,), shape, lambda: N.Sigmoid(), lambda: nn.Sigmoid())
        add("Softplus%s" % (shape,), shape[:1] if len(shape) == 1 else (1, 1, 2), lambda: N.Softplus(), lambda: nn.Softplus())
        add("Sinusoidal%s" % (shape,), shape, lambda: N.Sinusoidal(), lambda: RefFn(torch.sin))
        add("TruncExp%s" % (shape,), shape, lambda: N.TruncExp(), lambda: RefFn(torch.exp))
        add("L2Norm%s" % (shape,), shape, lambda: N.L2Norm(), lambda: RefL2(1e-6), pre=nonzero_norm)
        add("L2Norm(eps=0.25)%s" % (shape,), shape, lambda: N.L2Norm(eps=0.25), lambda: RefL2(0.25), pre=nonzero_norm)
        add("Flatten%s" % (shape,), shape, lambda: N.Flatten(), lambda: nn.Flatten())
    add("Softplus(2,3)", (2,), lambda: N.Softplus(beta=2.0, threshold=3.0), lambda: nn.Softplus(2.0, 3.0))
    add("Softplus(0.5,1) positional", (2,), lambda: N.Softplus(0.5, 1.0), lambda: nn.Softplus(0.5, 1.0))
    add("Flatten(2,3,1)", (2, 3, 1), lambda: N.Flatten(), lambda: nn.Flatten())
    add("Reshape(2,1,2)", (4,), lambda: N.Reshape(2, 1, 2), lambda: nn.Unflatten(1, (2, 1, 2)))
    add("Reshape(4)", (2, 1, 2), lambda: N.Reshape(4), lambda: nn.Flatten())
    add("Reshape(3,2)", (2, 3), lambda: N.Reshape(3, 2), lambda: RefFn(lambda x: x.flatten(1).unflatten(1, (3, 2))))
    for vm in (True, False):
        k = dict(use_vmap_for_backprop=vm)
        t = "" if vm else " novmap"
        add("Conv2d" + t, (2, 2, 3), lambda k=k: N.Conv2d(2, 2, 2, **k), lambda: C(2, 2, 2))
        add("Conv2d pad" + t, (1, 2, 3), lambda k=k: N.Conv2d(1, 2, (2, 3), padding=(1, 0), **k), lambda: C(1, 2, (2, 3), padding=(1, 0)))
        add("Conv2d pad nobias" + t, (2, 2, 1), lambda k=k: N.Conv2d(2, 1, (1, 2), padding=(0, 1), bias=False, **k), lambda: C(2, 1, (1, 2), padding=(0, 1), bias=False))
    add("Conv2d dilation", (1, 1, 4), lambda: N.Conv2d(1, 1, (1, 2), dilation=2), lambda: C(1, 1, (1, 2), dilation=2), jac=False)
    add("Conv2d groups", (2, 1, 2), lambda: N.Conv2d(2, 2, 1, groups=2), lambda: C(2, 2, 1, groups=2), jac=False)
    add("Conv2d circular", (1, 1, 3), lambda: N.Conv2d(1, 1, (1, 3), padding=(0, 1), padding_mode="circular"), lambda: C(1, 1, (1, 3), padding=(0, 1), padding_mode="circular"), jac=False)
    add("MaxPool2d", (2, 2, 2), lambda: N.MaxPool2d(2), lambda: P(2))
    add("MaxPool2d stride", (1, 1, 4), lambda: N.MaxPool2d((1, 2), stride=1), lambda: P((1, 2), stride=1))
    add("MaxPool2d pad", (1, 1, 4), lambda: N.MaxPool2d((1, 3), stride=2, padding=(0, 1)), lambda: P((1, 3), stride=2, padding=(0, 1)))
    add("MaxPool2d dilation", (1, 1, 4), lambda: N.MaxPool2d((1, 2), stride=1, dilation=(1, 2)), lambda: P((1, 2), stride=1, dilation=(1, 2)), jac=False)
    add("MaxPool2d ceil", (1, 1, 3), lambda: N.MaxPool2d((1, 2), ceil_mode=True), lambda: P((1, 2), ceil_mode=True), jac=False)
    add("Upsample 2", (2, 1, 2), lambda: N.Upsample(scale_factor=2), lambda: nn.Upsample(scale_factor=2))
    add("Upsample 3", (1, 1, 2), lambda: N.Upsample(scale_factor=3), lambda: nn.Upsample(scale_factor=3))
    add("Upsample bilinear", (1, 1, 2), lambda: N.Upsample(scale_factor=2, mode="bilinear"), lambda: nn.Upsample(scale_factor=2, mode="bilinear"), jac=False)
    add("Upsample size", (1, 1, 2), lambda: N.Upsample(size=(2, 3)), lambda: nn.Upsample(size=(2, 3)), jac=False)
    L = nn.Linear
    add("Seq(Lin,Tanh,Lin)", (2,), lambda: Seq(Lin(2, 3), N.Tanh(), Lin(3, 1)), lambda: Q(L(2, 3), nn.Tanh(), L(3, 1)))
    add("Seq nested", (2,), lambda: Seq(Lin(2, 2), Seq(N.ReLU(), Lin(2, 1)), N.Sigmoid()), lambda: Q(L(2, 2), Q(nn.ReLU(), L(2, 1)), nn.Sigmoid()))
    add("Seq add_hooks=False", (2,), lambda: Seq(Lin(2, 2), N.Tanh(), add_hooks=False), lambda: Q(L(2, 2), nn.Tanh()), jac=False)
    add("Seq add_hooks=False deep", (2,), lambda: Seq(Lin(2, 2), Skip(N.Tanh(), Lin(2, 1), add_hooks=False), Seq(Lin(3, 2), N.ReLU(), add_hooks=False), Lin(2, 1), add_hooks=False), lambda: Q(L(2, 2), RefCat(nn.Tanh(), L(2, 1)), Q(L(3, 2), nn.ReLU()), L(2, 1)), jac=False)
    add("Skip add_hooks=False", (2,), lambda: Skip(Lin(2, 1), N.Tanh(), add_hooks=False), lambda: RefCat(L(2, 1), nn.Tanh()), jac=False)
    add("Seq of hook-less parts", (2,), lambda: Seq(Seq(Lin(2, 2), N.Tanh(), add_hooks=False), Lin(2, 1)), lambda: Q(Q(L(2, 2), nn.Tanh()), L(2, 1)), jac=False)
    add("Seq same activation", (2,), lambda: (lambda a: Seq(Lin(2, 2), a, Lin(2, 2), a))(N.Tanh()), lambda: Q(L(2, 2), nn.Tanh(), L(2, 2), nn.Tanh()))
    add("Seq empty", (2,), lambda: Seq(), lambda: Q(), jac=False)
    add("Skip(Lin)", (2,), lambda: Skip(Lin(2, 1)), lambda: RefCat(L(2, 1)))
    add("Skip(Lin,Tanh,Lin)", (2,), lambda: Skip(Lin(2, 1), N.Tanh(), Lin(1, 2)), lambda: RefCat(L(2, 1), nn.Tanh(), L(1, 2)))
    add("Skip(Skip)", (1,), lambda: Skip(Skip(Lin(1, 1)), N.Tanh()), lambda: RefCat(RefCat(L(1, 1)), nn.Tanh()))
    add("Skip image", (1, 1, 2), lambda: Skip(N.Conv2d(1, 2, 1)), lambda: RefCat(C(1, 2, 1)))
    add("Seq(Conv,Skip,Flatten,Lin)", (1, 1, 3), lambda: Seq(N.Conv2d(1, 1, (1, 2)), Skip(N.Tanh()), N.Flatten(), Lin(4, 1)), lambda: Q(C(1, 1, (1, 2)), RefCat(nn.Tanh()), nn.Flatten(), L(4, 1)))
    for n in sizes(130, (5,)):
        add("Linear(%d,1)" % n, (n,), lambda n=n: Lin(n, 1), lambda n=n: L(n, 1), jac=n < 40)
        add("Linear(1,%d)" % n, (1,), lambda n=n: Lin(1, n), lambda n=n: L(1, n), jac=n < 20)
        add("Conv2d(%d,1,1)" % n, (n, 1, 1), lambda n=n: N.Conv2d(n, 1, 1), lambda n=n: C(n, 1, 1), jac=n < 40)
        add("Conv2d(1,%d,1)" % n, (1, 1, 1), lambda n=n: N.Conv2d(1, n, 1), lambda n=n: C(1, n, 1), jac=n < 20)
        add("Conv2d(1,1,(2,1)) h%d" % n, (1, n, 1), lambda n=n: N.Conv2d(1, 1, (2, 1)), lambda n=n: C(1, 1, (2, 1)), jac=n < 20)
        add("Tanh(%d)" % n, (n,), lambda: N.Tanh(), lambda: nn.Tanh(), jac=n < 20)
        add("Upsample w%d" % n, (1, 1, n), lambda: N.Upsample(scale_factor=2), lambda: nn.Upsample(scale_factor=2), jac=n < 12)
        if n < 40:
            add("%d layers" % n, (1,), lambda n=n: Seq(*[Lin(1, 1, bias=bool(k % 2)) for k in range(n)]), lambda n=n: Q(*[L(1, 1, bias=bool(k % 2)) for k in range(n)]), jac=False)
            add("Skip of %d layers" % n, (1,), lambda n=n: Skip(*[N.Tanh() for k in range(n)]), lambda n=n: RefCat(*[nn.Tanh() for k in range(n)]), jac=False)
    add("Seq(Conv,MaxPool,ReLU,Flatten)", (1, 1, 3), lambda: Seq(N.Conv2d(1, 1, (1, 2)), N.MaxPool2d((1, 2)), N.ReLU(), N.Flatten()), lambda: Q(C(1, 1, (1, 2)), P((1, 2)), nn.ReLU(), nn.Flatten()))
    return out


def same_function(lay, ref, b, train, layout=None):
    def fn(ctx):
        m, x = setup(ctx, lay, b)
        x = relay(x, layout)
        with no_mode():
            r = ref()
        with torch.no_grad():
            ps, qs = list(m.parameters()), list(r.parameters())
            ctx.true("same parameters", [tuple(p.shape) for p in ps] == [tuple(q.shape) for q in qs])
        if not train:
            m.eval()
        _share(m, r)
        y, z = m(x), r(x)
        ctx.eq("same output", y, z)
        ctx.eq("same output again", m(x), z)
        ctx.true("same type", y.dtype == z.dtype)
        with torch.no_grad():
            ctx.eq("same output without gradients", m(x), z)
        m.eval()
        ctx.eq("same output in evaluation mode", m(x), z)
        m.train()
        ctx.eq("same output in training mode", m(x), z)

    return fn


def any_rank(build, ref, shape):
    """inputs of other ranks than a batch of samples, which the torch layers accept"""

    def fn(ctx):
        m = ctx.model(build)
        with no_mode():
            r = ref()
        _share(m, r)
        x = ctx.tensor("x", *shape)
        y, z = m(x), r(x)
        ctx.eq("same output", y, z)
        ctx.true("same shape", tuple(y.shape) == tuple(z.shape))
        m.eval()
        ctx.eq("same output in evaluation mode", m(x), z)

    return fn


def ranks():
    N, Lin, Seq, Skip = nnj, nnj.Linear, nnj.Sequential, nnj.SkipConnection
    act = [
        ("Tanh", lambda: N.Tanh(), lambda: nn.Tanh()),
        ("ReLU", lambda: N.ReLU(), lambda: nn.ReLU()),
        ("Sigmoid", lambda: N.Sigmoid(), lambda: nn.Sigmoid()),
        ("Softplus", lambda: N.Softplus(), lambda: nn.Softplus()),
        ("Sinusoidal", lambda: N.Sinusoidal(), lambda: RefFn(torch.sin)),
        ("TruncExp", lambda: N.TruncExp(), lambda: RefFn(torch.exp)),
        ("Sequential of activations", lambda: Seq(N.Tanh(), N.Sigmoid()), lambda: nn.Sequential(nn.Tanh(), nn.Sigmoid())),
    ]
    for name, a, r in act:
        for shape in ((), (2,), (2, 1), (1, 2, 2), (1, 1, 1, 2), (1, 1, 2, 1, 2)):
            yield name, a, r, shape
    for shape in ((3,), (2, 3), (2, 1, 3), (1, 2, 1, 3)):
        yield "Linear", lambda: Lin(3, 2), lambda: nn.Linear(3, 2), shape
        if len(shape) > 1:
            yield "Linear without bias", lambda: Lin(3, 2, bias=False), lambda: nn.Linear(3, 2, bias=False), shape
        yield "Lin-Tanh-Lin", lambda: Seq(Lin(3, 1), N.Tanh(), Lin(1, 2)), lambda: nn.Sequential(nn.Linear(3, 1), nn.Tanh(), nn.Linear(1, 2)), shape
    for shape in ((2, 2, 3), (2, 2, 2, 3)):
        yield "Conv2d", lambda: N.Conv2d(2, 1, 2), lambda: nn.Conv2d(2, 1, 2), shape
        yield "MaxPool2d", lambda: N.MaxPool2d((1, 2)), lambda: nn.MaxPool2d((1, 2)), shape
    for shape in ((2, 2), (2, 1, 2), (1, 2, 2), (1, 2, 1, 2), (1, 2, 1, 1, 2)):
        yield "SkipConnection", lambda: Skip(N.Tanh()), lambda: RefCat(nn.Tanh()), shape
        yield "Flatten", lambda: N.Flatten(), lambda: nn.Flatten(), shape
    for shape in ((1, 2, 2), (2, 1, 2), (1, 1, 2, 2), (1, 1, 1, 2, 2)):
        yield "Upsample", lambda: N.Upsample(scale_factor=2), lambda: nn.Upsample(scale_factor=2), shape
        yield "L2Norm", lambda: N.L2Norm(), lambda: RefL2(1e-6), shape
        yield "Reshape", lambda: N.Reshape(2, -1), lambda: RefFn(lambda x: x.flatten(1).unflatten(1, (2, -1))), shape


def _share(m, r):
    """give r the parameters of m (by position)"""
    src = [p for mod in _mods(m) for p in mod._parameters.values() if p is not None]
    k = 0
    for mod in _mods(r):
        for n, p in mod._parameters.items():
            if p is not None:
                mod._parameters[n] = src[k]
                k += 1
    assert k == len(src)


def _mods(m):
    return list(m.modules())


def _autograd(val, x, ps, b):
    """(d val / d x, d val / d parameters) sample by sample and output by output, by torch autograd"""
    flat = val.reshape(b, -1)
    ji, jw = [], []
    for s in range(b):
        ri, rw = [], []
        for i in range(flat.shape[1]):
            g = torch.autograd.grad(flat[s, i], [x] + ps, retain_graph=True, allow_unused=True)
            g = [torch.zeros_like(t) if u is None else u for u, t in zip(g, [x] + ps)]
            ri.append(g[0][s].reshape(-1))
            if ps:
                rw.append(torch.cat([u.reshape(-1) for u in g[1:]]))
        ji.append(torch.stack(ri))
        if ps:
            jw.append(torch.stack(rw))
    return torch.stack(ji), torch.stack(jw) if ps else None


def autograd_jac(lay, ref, b, jac, train=True):
    """torch autograd through the forward pass against the library's Jacobian, and against autograd through the
    torch counterpart"""

    def fn(ctx):
        m, x0 = setup(ctx, lay, b)
        with no_mode():
            r = ref()
        _share(m, r)
        if not train:
            m.eval()
        with no_mode():
            x = x0.detach()
        x = x.requires_grad_(True)
        ps = list(m.parameters())
        for p in ps:
            ctx.true("parameters stay trainable", p.requires_grad)
        val = m(x)
        ctx.true("the output is differentiable", val.requires_grad)
        ji, jw = _autograd(val, x, ps, b)
        if not isinstance(m, nnj.TruncExp):  # its gradient is clamped on purpose
            ri, rw = _autograd(r(x), x, ps, b)
            ctx.eq("autograd wrt input as through the torch counterpart", ji, ri)
        if ps:
            ctx.eq("autograd wrt weight as through the torch counterpart", jw, rw)
        if jac:
            ctx.eq("autograd and jacobian wrt input", ji, m.jacobian(x.detach(), None))
            if ps:
                ctx.eq("autograd and jacobian wrt weight", jw, m.jacobian(x.detach(), None, wrt="weight"))
        # products do not disturb training: a graph built before still works
        g = torch.autograd.grad(val.reshape(b, -1).sum(), [x] + ps, allow_unused=True)
        ctx.eq("summed gradient", g[0].reshape(b, -1), ji.sum(1))

    return fn


def autograd_where(lay, ref, b, train, what):
    """training: gradients reach exactly what requires them (frozen parameters, an input that needs none)"""

    def fn(ctx):
        m, x0 = setup(ctx, lay, b)
        with no_mode():
            r = ref()
        _share(m, r)
        if not train:
            m.eval()
        with no_mode():
            x = x0.detach()
        ps = list(m.parameters())
        if what == "weights only":
            ts = ps
        elif what == "input only":
            for p in ps:
                p.requires_grad_(False)
            x = x.requires_grad_(True)
            ts = [x]
        else:
            for p in ps[1:]:
                p.requires_grad_(False)
            x = x.requires_grad_(True)
            ts = [x, ps[0]]
        y, z = m(x), r(x)
        ctx.true("the output is differentiable exactly if the torch counterpart's is", y.requires_grad == z.requires_grad)
        for i in range(y.reshape(-1).shape[0]):
            g = torch.autograd.grad(y.reshape(-1)[i], ts, retain_graph=True, allow_unused=True)
            h = torch.autograd.grad(z.reshape(-1)[i], ts, retain_graph=True, allow_unused=True)
            for t, u, v in zip(ts, g, h):
                ctx.eq("gradient of output %d" % i, torch.zeros_like(t) if u is None else u, torch.zeros_like(t) if v is None else v)

    return fn


def c18(tier):
    yield from functions(tier)
    for name, build, ref, shape in ranks():
        yield Scenario("%s of a tensor of shape %s" % (name, shape), any_rank(build, ref, shape), bounds="shape %s" % (shape,))
    for lay, ref, jac in counterparts(tier)[:10]:
        for b in sizes(1100 if numel(lay.shape) == 1 else 66, (5, 9)):
            yield Scenario("%s b=%d forward" % (lay.name, b), same_function(lay, ref, b, True), bounds="batch %d, input %s" % (b, lay.shape))
    for lay, ref, jac in counterparts(tier):
        for b in (2, 1) if tier == "quick" else (1, 2, 3):
            yield Scenario("%s b=%d forward" % (lay.name, b), same_function(lay, ref, b, True), bounds="batch %d, input %s" % (b, lay.shape))
        yield Scenario("%s b=2 forward (eval mode)" % lay.name, same_function(lay, ref, 2, False), bounds="batch 2, input %s" % (lay.shape,))
        for kind in LAYOUTS + STATES:
            l = stated(lay, kind) if kind in STATES else lay
            yield Scenario("%s b=2 forward, %s" % (lay.name, kind), in_state(kind, same_function(l, ref, 2, kind not in STATES[:1], kind)), bounds="batch 2, input %s, %s" % (lay.shape, kind))
        if jac or numel(lay.shape) < 12:
            for b in (2,) if tier == "quick" else (1, 2, 3):
                for train in (True, False):
                    t = "" if train else " (eval mode)"
                    yield Scenario("%s b=%d autograd%s" % (lay.name, b, t), autograd_jac(lay, ref, b, jac, train), bounds="batch %d, input %s" % (b, lay.shape))
            if numel(lay.shape) < 12 and not lay.name.startswith("TruncExp"):
                with no_mode():
                    np_ = len(list(ref().parameters()))
                for what in ("weights only", "input only", "first weight") if np_ else ("input only",):
                    for train in (True, False):
                        t = "" if train else " (eval mode)"
                        yield Scenario("%s autograd, %s%s" % (lay.name, what, t), autograd_where(lay, ref, 1 if train else 2, train, what), bounds="batch %d, input %s" % (1 if train else 2, lay.shape))


# ---------------------------------------------------------------------------------------------- C19
def spd(ctx, name, b, n):
    """every symmetric positive definite matrix is L L^T with positive diagonal"""
    D = ctx.tensor(name + "d", b, n, positive=True)
    Lo = ctx.tensor(name + "l", b, n * (n - 1) // 2) if n > 1 else None
    rows_ = []
    k = 0
    z = torch.zeros_like(D[:, 0])
    for i in range(n):
        r = []
        for j in range(n):
            if j < i:
                r.append(Lo[:, k])
                k += 1
            elif j == i:
                r.append(D[:, i])
            else:
                r.append(z)
        rows_.append(torch.stack(r, dim=1))
    L = torch.stack(rows_, dim=1)
    return torch.einsum("bij,bkj->bik", L, L)


def invert(shapes, b):
    """shapes: n or nested lists of n"""

    def fn(ctx):
        cnt = [0]

        def build(s):
            if isinstance(s, list):
                return [build(t) for t in s]
            cnt[0] += 1
            return spd(ctx, "A%d" % cnt[0], b, s)

        A = build(shapes)
        from symtorch.runner import snapshot

        with no_mode():
            before = snapshot(A)
        R = nnj.invert_block_diagonal(A)
        ctx.eq("the argument is untouched", A, before)

        def prod(a, r):
            if isinstance(a, list):
                ctx.true("same structure", isinstance(r, (list, tuple)) and len(r) == len(a))
                for u, v in zip(a, r):
                    prod(u, v)
                return
            n = a.shape[-1]
            ctx.true("same shape", tuple(r.shape) == tuple(a.shape))
            eye = lambda: Terms(O.eye(b, n))
            ctx.eq("A A^-1 = 1", torch.einsum("bij,bjk->bik", a, r), eye)
            ctx.eq("A^-1 A = 1", torch.einsum("bij,bjk->bik", r, a), eye)

        prod(A, R)

    return fn


def invert_big(n):
    """diagonal except for the coordinates 0 and n-1, and 1 and n//2, which are coupled"""

    def fn(ctx):
        D = ctx.tensor("d", 1, n, positive=True)
        c = ctx.tensor("c", 2)
        rows_ = []
        z = torch.zeros_like(D[:, 0])
        pairs = {n - 1: (0, 0)}
        if n // 2 > 1 and n // 2 < n - 1:
            pairs[n // 2] = (1, 1)
        for i in range(n):
            r = [z] * n
            r[i] = D[:, i]
            if i in pairs:
                j, k = pairs[i]
                r[j] = c[k : k + 1]
            rows_.append(torch.stack(r, dim=1))
        L = torch.stack(rows_, dim=1)
        A = torch.einsum("bij,bkj->bik", L, L)
        R = nnj.invert_block_diagonal(A)
        ctx.true("same shape", tuple(R.shape) == tuple(A.shape))
        eye = lambda: Terms(O.eye(1, n))
        ctx.eq("A A^-1 = 1", torch.einsum("bij,bjk->bik", A, R), eye)
        S = nnj.invert_block_diagonal([A])
        ctx.eq("same in a list", S[0], R)

    return fn


def invert_ggn(ctx):
    """the list a Sequential returns, made definite by adding the identity"""
    m = ctx.model(lambda: Seq(Lin(1, 1, bias=False), Lin(1, 1, bias=False)))
    x = ctx.tensor("x", 1, 1)
    B = m.jTmjp(x, None, None, wrt="weight")
    B = [t + 1.0 for t in B]
    R = nnj.invert_block_diagonal(B)
    for t, r in zip(B, R):
        ctx.eq("inverse of a 1x1 block", t * r, lambda: Terms([[[1]]]))


def c19(tier):
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    for n in ns:
        for b in (1, 2) if n < 4 else (1,):
            yield Scenario("matrix %dx%d b=%d" % (n, n, b), invert(n, b), bounds="every symmetric positive definite %dx%d matrix, batch %d" % (n, n, b))
    for s in ([1, 2], [2, 1, 1], [[1], 2], [[1, [2]], 1], [[[1]]]):
        yield Scenario("blocks %s" % s, invert(s, 1), bounds="lists of symmetric positive definite blocks of sizes %s" % s)
    for s, b in (([1, 2], 2), ([2, 2], 2), ([1, 1], 3), ([1, 1, 1], 2), ([1, [1, 1]], 2), ([[2], [2]], 2), ([2, 1, 2], 2)):
        yield Scenario("blocks %s b=%d" % (s, b), invert(s, b), bounds="batch %d, lists of symmetric positive definite blocks of sizes %s" % (b, s))
    yield Scenario("blocks of a stack", invert_ggn)
    for n in sizes(130, (5,)):
        yield Scenario("batch %d of 1x1" % n, invert(1, n))
        yield Scenario("list of %d blocks" % n, invert([1] * n, 1))
    for n in sizes(66, (5, 8)):
        yield Scenario("matrix %dx%d with a coupled pair" % (n, n), invert_big(n), bounds="positive definite %dx%d matrices that are diagonal except for one coupled pair of coordinates" % (n, n))


# ---------------------------------------------------------------------------------------------- C20
def unrounded(r):
    if isinstance(r, (list, tuple)):
        return [unrounded(t) for t in r]
    if r is None:
        return None
    memo = {}
    i = E.ids_of(r)
    return Terms(torch.tensor([T.unround(t, memo) for t in i.reshape(-1).tolist()], dtype=torch.int64).reshape(i.shape))


def double(ctx, label, r):
    """double precision, and no rounding to less on the way"""
    for t in S._flat(r) if isinstance(r, list) else [r]:
        if t is not None:
            ctx.true("%s has double precision" % label, t.dtype == torch.float64)
    ctx.eq("%s is never rounded to less" % label, r, lambda: unrounded(r) if ctx.sym else None)


def double_products(st, b, prods, wrts=("input", "weight")):
    def fn(ctx):
        m, x = setup(ctx, st, b)
        val = m(x)
        double(ctx, "forward", val)
        nout = val[0].numel()
        for wrt in wrts:
            n = x[0].numel() if wrt == "input" else nweights(m)
            for p in prods:
                a = p.arg(ctx, b, n, nout, 2, tag=wrt[0])
                for v in (None, val):
                    for arg in (a, None) if p.metric else (a,):
                        no, r = attempt(lambda: p.call(m, x, v, arg, wrt), NIE if p.forward and not st.fwd else ())
                        if not no:
                            double(ctx, "%s wrt %s" % (p.label, wrt), r)
                        if p.metric and p.fd and p.td:
                            no, r = attempt(lambda: p.call(m, x, v, arg, wrt, diag_backprop=True), NIE)
                            if not no:
                                double(ctx, "%s diag_backprop wrt %s" % (p.label, wrt), r)
        if nweights(m):
            double(ctx, "get_weight", m.get_weight())
            m.set_weight(ctx.tensor("nw", nweights(m)))
            double(ctx, "forward after set_weight", m(x))
            double(ctx, "get_weight after set_weight", m.get_weight())

    return fn


def used_before(st):
    """the model served in single precision (other values, the same shapes) before it was converted"""

    def build():
        m = st.build()
        x = torch.rand(2, *st.shape) + 0.5
        val = m(x)
        for wrt in ("input", "weight"):
            n = x[0].numel() if wrt == "input" else nweights(m)
            if n == 0:
                continue
            for p in ALL:
                shape = p.shape(2, n, val[0].numel(), 2)
                for a in (None if shape is None else torch.rand(shape), None):
                    if a is None and not p.metric and p.name != "jacobian":
                        continue
                    attempt(lambda: p.call(m, x, None, a, wrt), NIE)
        return m

    return type(st)(st.name, build, st.shape, fwd=st.fwd, pre=st.pre)


def double_like(like, mod):
    from .likelihoods import AGG, LIKE, target

    def fn(ctx):
        m = ctx.model(mod.build)
        x = ctx.tensor("x", 2, *mod.shape)
        t = target(ctx, like, "t", 2, mod.out)
        for mode in AGG:
            for sh in ("diag", "full"):
                for bp in ("exact", "approx"):
                    if bp == "approx" and (sh == "full" or like == "LogBernoulli"):
                        continue
                    lk = LIKE[like](aggregate_batch=mode, metric_shape=sh, metric_backprop=bp)
                    double(ctx, "%s value" % mode, lk(x, m, t))
                    for wrt in ("weight", "input"):
                        if sh == "diag" and bp == "exact":
                            double(ctx, "%s gradient wrt %s" % (mode, wrt), lk.gradient(x, m, t, wrt=wrt))
                        double(ctx, "%s %s %s ggn wrt %s" % (mode, sh, bp, wrt), lk.ggn(x, m, t, wrt=wrt))

    return fn


def double_convert(name, build, shape):
    def fn(ctx):
        src = ctx.model(build)
        x = ctx.tensor("x", 2, *shape)
        try:
            m = nnj.convert_to_nnj(src)
        except (E.Unsupported, T.NonFinite, T.TermLimit):
            raise
        except Exception:
            return
        double(ctx, "converted model", m(x))
        if nweights(m):
            double(ctx, "converted weights", m.get_weight())
        no, j = attempt(lambda: m.jacobian(x), Exception)
        if not no:
            double(ctx, "jacobian of the converted model", j)

    return fn


def double_invert(ctx):
    A = spd(ctx, "A", 2, 2)
    double(ctx, "inverse", nnj.invert_block_diagonal(A))
    double(ctx, "list of inverses", nnj.invert_block_diagonal([A, [A]]))


def c20(tier):
    from .likelihoods import LIKE, models

    D = dict(dtype=torch.float64)
    for lay in layers(tier):
        for b in (2,) if tier == "quick" else (1, 2, 3):
            for w in ("input", "weight"):
                yield Scenario("%s b=%d wrt %s in double precision" % (lay.name, b, w), double_products(lay, b, ALL, (w,)), bounds="batch %d, input %s" % (b, lay.shape), **D)
    for st in stacks(tier) + skips(tier):
        for w in ("input", "weight"):
            yield Scenario("%s wrt %s in double precision" % (st.name, w), double_products(st, 2, ALL, (w,)), bounds="batch 2, input %s" % (st.shape,), **D)
    for st in layers(tier) + stacks(tier) + skips(tier):
        yield Scenario("%s in double precision after use in single precision" % st.name, double_products(used_before(st), 2, ALL), bounds="batch 2, input %s" % (st.shape,), **D)
    for st in layers(tier) + stacks(tier) + skips(tier):
        yield from in_states(lambda l: double_products(l, 2, ALL), st, "in double precision", **D)
    for lay, ref in precise_settings():
        for b in (1, 2):
            yield Scenario("%s b=%d: settings are not rounded" % (lay.name, b), same_function(lay, ref, b, True), bounds="batch %d" % b, **D)
    for lay, b in double_sized():
        yield Scenario("%s b=%d in double precision" % (lay.name, b), double_products(lay, b, ALL), **D)
    for like in LIKE:
        for mod in models(tier):
            yield Scenario("%s of %s in double precision" % (like, mod.name), double_like(like, mod), bounds="batch 2", **D)
    for name, build, shape in torch_models(tier):
        yield Scenario("convert %s in double precision" % name, double_convert(name, build, shape), bounds="batch 2", **D)
    yield Scenario("invert_block_diagonal in double precision", double_invert, bounds="2x2 blocks", **D)


def precise_settings():
    """settings that single precision cannot represent"""
    return [
        (Layer("L2Norm(eps=0.1)", lambda: nnj.L2Norm(eps=0.1), (2,), pre=nonzero_norm), lambda: RefL2(0.1)),
        (Layer("L2Norm()", lambda: nnj.L2Norm(), (2,), pre=nonzero_norm), lambda: RefL2(1e-6)),
        (Layer("Softplus(0.1, 0.3)", lambda: nnj.Softplus(0.1, 0.3), (2,)), lambda: nn.Softplus(0.1, 0.3)),
    ]


def double_sized():
    from .layers_props import sized

    return sized(lim_batch=66, lim_dim=18)


# ---------------------------------------------------------------------------------------------- C21
def extreme_layers(tier):
    L = [
        ("Tanh", nnj.Tanh), ("ReLU", nnj.ReLU), ("Sigmoid", nnj.Sigmoid), ("Sinusoidal", nnj.Sinusoidal),
        ("Softplus", nnj.Softplus), ("Softplus(beta=3)", lambda: nnj.Softplus(beta=3)),
        ("Softplus(beta=0.5,threshold=5)", lambda: nnj.Softplus(beta=0.5, threshold=5)),
        ("Softplus(beta=10,threshold=60)", lambda: nnj.Softplus(beta=10, threshold=60)),
        ("TruncExp", nnj.TruncExp), ("L2Norm", nnj.L2Norm), ("L2Norm(eps=0.1)", lambda: nnj.L2Norm(eps=0.1)),
        ("Reshape", lambda: nnj.Reshape(-1)), ("Flatten", nnj.Flatten),
    ]
    return L


def away_from_origin(ctx, name, b, n):
    """every sample has an entry of magnitude 1e-10 or more; the others may be anything"""
    rows = []
    for r in range(b):
        k = ctx.choose(n)
        rows.append(torch.cat([ctx.bounded("%s%d%d" % (name, r, j), 1, lo=1e-10 if j == k else 0) for j in range(n)]))
    return torch.stack(rows)


def extreme_layer(name, build, b, n, with_val):
    def fn(ctx):
        m = ctx.model(build)
        if "L2Norm" in name:
            x = away_from_origin(ctx, "x", b, n)
        else:
            x = ctx.bounded("x", b, n)
        val = m(x)
        if name != "TruncExp":  # exp of a large number is not representable
            ctx.finite("output", val)
        v = val if with_val else None
        ctx.finite("jacobian", m.jacobian(x, v))
        k = 1
        ctx.finite("jvp", m.jvp(x, v, ctx.bounded("v", b, n)))
        ctx.finite("vjp", m.vjp(x, v, ctx.bounded("u", b, n)))
        ctx.finite("jmp", m.jmp(x, v, ctx.bounded("M", b, n, k)))
        ctx.finite("mjp", m.mjp(x, v, ctx.bounded("N", b, k, n)))
        F, D = ctx.bounded("F", b, n, n), ctx.bounded("D", b, n)
        for fd in (False, True):
            for td in (False, True):
                a = D if fd else F
                ctx.finite("jTmjp(%s,%s)" % (fd, td), m.jTmjp(x, v, a, from_diag=fd, to_diag=td))
                ctx.finite("jmjTp(%s,%s)" % (fd, td), m.jmjTp(x, v, a, from_diag=fd, to_diag=td))

    return fn


def l2norm_origin(ctx):
    """the origin, alone and next to an ordinary sample"""
    m = ctx.model(lambda: nnj.L2Norm())
    x = torch.cat([ctx.const([[0.0, 0.0]]), away_from_origin(ctx, "x", 1, 2)], dim=0)
    ctx.finite("output", m(x))
    ctx.finite("jacobian", m.jacobian(x))
    ctx.finite("vjp", m.vjp(x, None, ctx.bounded("u", 2, 2)))
    ctx.finite("jTmjp", m.jTmjp(x, None, ctx.bounded("D", 2, 2), from_diag=True, to_diag=True))


class Logits(nnj.AbstractJacobian, nn.Module):
    """a model whose output and Jacobian are the given tensors"""

    def __init__(self, val, J):
        super().__init__()
        self.v, self.J = (val,), (J,)
        self._n_params = J.shape[2]

    def forward(self, x):
        return self.v[0]

    def jacobian(self, x, val=None, wrt="input"):
        return self.J[0]


def extreme_like(like, out, mode, b=1, parts=("value", "gradient", "diag", "full")):
    from .likelihoods import LIKE, target

    def fn(ctx):
        n = numel(out)
        val = ctx.bounded("z", b, *out)
        m = Logits(val, ctx.bounded("J", b, n, 1))
        x = ctx.bounded("x", b, 1)
        if like == "LogGaussian":
            t = ctx.bounded("t", b, *out)
        else:
            t = target(ctx, like, "t", b, out)
        if "value" in parts:
            ctx.finite("value", LIKE[like](aggregate_batch=mode)(x, m, t))
        if "gradient" in parts:
            ctx.finite("gradient", LIKE[like](aggregate_batch=mode).gradient(x, m, t, wrt="weight"))
        for sh in ("diag", "full"):
            if sh in parts:
                ctx.finite("ggn " + sh, LIKE[like](aggregate_batch=mode, metric_shape=sh).ggn(x, m, t, wrt="weight"))

    return fn


def extreme_stack(like, build, out):
    from .likelihoods import LIKE, target

    def fn(ctx):
        m = ctx.model(build)
        if ctx.sym:
            for p in m.parameters():
                for k, i in enumerate(p.ids.reshape(-1).tolist()):
                    X.VB[i] = (0, 50.0)
                    ST.path.conds += [c for c in (T.ge(T.const(50), i), T.ge(i, T.const(-50))) if c not in ST.path.conds]
        x = ctx.bounded("x", 1, 1, hi=100.0)
        t = ctx.bounded("t", 1, *out) if like == "LogGaussian" else target(ctx, like, "t", 1, out)
        ctx.finite("value", LIKE[like]()(x, m, t))
        for wrt in ("weight", "input"):
            ctx.finite("gradient " + wrt, LIKE[like]().gradient(x, m, t, wrt=wrt))
            ctx.finite("ggn " + wrt, LIKE[like]().ggn(x, m, t, wrt=wrt))

    return fn


def c21(tier):
    deep = tier == "thorough"
    S = lambda name, fn, **kw: Scenario(name, fn, max_paths=6000 if deep else 2500, ext=True, **kw)
    for name, build in extreme_layers(tier):
        for b, n in [(1, 1), (1, 2)] + ([(2, 2), (1, 3)] if deep else []):
            for wv in (False, True):
                yield S("%s batch %d x %d, val %s" % (name, b, n, "given" if wv else "None"), extreme_layer(name, build, b, n, wv),
                        bounds="batch %d, %d features, all magnitudes up to 1e4" % (b, n))
    yield S("L2Norm at the origin", l2norm_origin)
    for like in ("LogGaussian", "LogBinaryBernoulli", "LogBernoulli"):
        for out in [(1,), (2,), (3,)] + ([(2, 2), (4,)] if deep else []):
            for mode in ("return all", "sum", "average"):
                for b in (1, 2) if numel(out) <= 2 or deep else (1,):
                    if mode != "return all" and (b == 1 or numel(out) == 3):
                        continue
                    for part in ("value", "gradient", "diag", "full"):
                        yield S("%s %s %s batch %d %s" % (like, out, mode, b, part), extreme_like(like, out, mode, b, (part,)),
                                bounds="batch %d, logits %s, all magnitudes up to 1e4" % (b, out))
        yield S("%s Linear(1,2)" % like, extreme_stack(like, lambda: Lin(1, 2), (2,)))
        yield S("%s Seq(Linear,Sigmoid)" % like, extreme_stack(like, lambda: Seq(Lin(1, 2), nnj.Sigmoid()), (2,)))
        yield S("%s Seq(Linear,Softplus)" % like, extreme_stack(like, lambda: Seq(Lin(1, 2), nnj.Softplus()), (2,)))
