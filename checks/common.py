"""Layer configurations, abstract stub layers and helpers shared by the property modules."""
import ast
import os

import torch
from torch import nn

import nnj
from symtorch import engine as E
from symtorch import oracle as O
from symtorch import terms as T
from symtorch.runner import Ctx, Scenario, Terms, REPO, no_mode

NIE = NotImplementedError


class Layer:
    def __init__(self, name, build, shape, fwd=True, jmp=None, pre=None, jac=None, big=False):
        self.name = name
        self.build = build
        self.shape = shape  # per-sample input shape
        self.fwd = fwd  # forward products must be supported
        self.pre = pre  # assumption on the input
        self.jac = jac  # oracle override for the input Jacobian
        self.big = big


def nonzero_norm(ctx, x):
    if ctx.sym:
        for row in O.flat(x):
            ctx.assume(T.gt0(T.dot(row, row)))


def trunc_jac(val, x):
    def d(i):
        c = T.ite(T.gt(T.const(-15), i), T.const(-15), i)
        c = T.ite(T.gt(c, T.const(15)), T.const(15), c)
        return T.fn("exp", c)

    return [O.diag([d(i) for i in row]) for row in O.flat(x)]


def layers(tier="quick"):
    C, Lin = nnj.Conv2d, nnj.Linear
    out = [
        Layer("Linear(3,2)", lambda: Lin(3, 2), (3,)),
        Layer("Linear(2,3,nobias)", lambda: Lin(2, 3, bias=False), (2,)),
        Layer("Tanh", lambda: nnj.Tanh(), (3,)),
        Layer("Tanh-img", lambda: nnj.Tanh(), (1, 2, 2)),
        Layer("ReLU", lambda: nnj.ReLU(), (3,)),
        Layer("Sigmoid", lambda: nnj.Sigmoid(), (3,)),
        Layer("Sigmoid-img", lambda: nnj.Sigmoid(), (2, 1, 2)),
        Layer("Sinusoidal", lambda: nnj.Sinusoidal(), (3,)),
        Layer("Softplus", lambda: nnj.Softplus(), (2,)),
        Layer("Softplus(beta=2,threshold=3)", lambda: nnj.Softplus(beta=2.0, threshold=3.0), (2,)),
        Layer("TruncExp", lambda: nnj.TruncExp(), (2,), jac=trunc_jac),
        Layer("L2Norm", lambda: nnj.L2Norm(), (3,), pre=nonzero_norm),
        Layer("L2Norm(eps=0.5)-img", lambda: nnj.L2Norm(eps=0.5), (1, 1, 2), pre=nonzero_norm),
        Layer("Flatten", lambda: nnj.Flatten(), (2, 1, 2)),
        Layer("Reshape(2,1,2)", lambda: nnj.Reshape(2, 1, 2), (4,)),
        Layer("Conv2d(2,2,2)", lambda: C(2, 2, 2), (2, 3, 3), fwd=False),
        Layer("Conv2d(2,2,2,pad1,novmap)", lambda: C(2, 2, 2, padding=1, use_vmap_for_backprop=False), (2, 2, 2), fwd=False),
        Layer("Conv2d(1,2,(2,3),pad(1,0))", lambda: C(1, 2, (2, 3), padding=(1, 0)), (1, 2, 4), fwd=False),
        Layer("Conv2d(2,3,(1,2),pad(0,1),nobias)", lambda: C(2, 3, (1, 2), padding=(0, 1), bias=False), (2, 2, 1), fwd=False),
        Layer("Conv2d(2,1,(3,1),pad(1,0),nobias,novmap)", lambda: C(2, 1, (3, 1), padding=(1, 0), bias=False, use_vmap_for_backprop=False), (2, 3, 2), fwd=False),
        Layer("MaxPool2d(2)", lambda: nnj.MaxPool2d(2), (2, 2, 4), fwd=False),
        Layer("MaxPool2d(2,stride=1)", lambda: nnj.MaxPool2d(2, stride=1), (1, 2, 3), fwd=False),
        Layer("MaxPool2d((1,3),stride=2,pad(0,1))", lambda: nnj.MaxPool2d((1, 3), stride=2, padding=(0, 1)), (1, 2, 4), fwd=False),
        Layer("Upsample(2)", lambda: nnj.Upsample(scale_factor=2), (2, 1, 2), fwd=False),
        Layer("Upsample(3)", lambda: nnj.Upsample(scale_factor=3), (1, 1, 2), fwd=False),
        Layer("Linear(1,3)", lambda: Lin(1, 3), (1,)),
        Layer("Linear(3,1)", lambda: Lin(3, 1), (3,)),
        Layer("Linear(1,1,nobias)", lambda: Lin(1, 1, bias=False), (1,)),
        Layer("ReLU-img", lambda: nnj.ReLU(), (2, 1, 2)),
        Layer("Tanh of pairs", lambda: nnj.Tanh(), (2, 2)),
        Layer("L2Norm of pairs", lambda: nnj.L2Norm(), (1, 2), pre=nonzero_norm),
        Layer("Tanh one element", lambda: nnj.Tanh(), (1,)),
        Layer("Softplus(beta=.5,threshold=1)-img", lambda: nnj.Softplus(0.5, 1.0), (1, 1, 2)),
        Layer("Sinusoidal-img", lambda: nnj.Sinusoidal(), (2, 2, 1)),
        Layer("TruncExp-img", lambda: nnj.TruncExp(), (1, 2, 1), jac=trunc_jac),
        Layer("L2Norm one element", lambda: nnj.L2Norm(eps=0.25), (1,), pre=nonzero_norm),
        Layer("Flatten of vectors", lambda: nnj.Flatten(), (3,)),
        Layer("Flatten of pairs", lambda: nnj.Flatten(), (2, 3)),
        Layer("Reshape(3,2)", lambda: nnj.Reshape(3, 2), (2, 3)),
        Layer("Reshape(1)", lambda: nnj.Reshape(1), (1,)),
        Layer("Conv2d(1,1,1)", lambda: C(1, 1, 1), (1, 2, 3), fwd=False),
        Layer("Conv2d(1,1,1) one pixel", lambda: C(1, 1, 1), (1, 1, 1), fwd=False),
        Layer("Conv2d(3,1,1,novmap) one pixel", lambda: C(3, 1, 1, use_vmap_for_backprop=False), (3, 1, 1), fwd=False),
        Layer("Conv2d(1,3,(2,1))", lambda: C(1, 3, (2, 1)), (1, 3, 2), fwd=False),
        Layer("MaxPool2d(2) one window", lambda: nnj.MaxPool2d(2), (1, 2, 2), fwd=False),
        Layer("MaxPool2d((2,1))-2ch", lambda: nnj.MaxPool2d((2, 1)), (2, 2, 2), fwd=False),
        Layer("Upsample(2)-3x2", lambda: nnj.Upsample(scale_factor=2), (1, 3, 2), fwd=False),
        Layer("Upsample(1)", lambda: nnj.Upsample(scale_factor=1), (2, 1, 2), fwd=False),
    ]
    if tier == "thorough":
        out += [
            Layer("Linear(6,5)", lambda: Lin(6, 5), (6,)),
            Layer("ReLU-img", lambda: nnj.ReLU(), (2, 2, 2)),
            Layer("Conv2d(3,2,3,pad1)", lambda: C(3, 2, 3, padding=1), (3, 3, 3), fwd=False),
            Layer("Conv2d(3,2,3,pad1,novmap)", lambda: C(3, 2, 3, padding=1, use_vmap_for_backprop=False), (3, 3, 3), fwd=False),
            Layer("Conv2d(2,3,(3,2),pad(2,1))", lambda: C(2, 3, (3, 2), padding=(2, 1)), (2, 3, 2), fwd=False),
            Layer("MaxPool2d(2)-2ch", lambda: nnj.MaxPool2d(2), (2, 4, 4), fwd=False),
            Layer("MaxPool2d(3,stride=1)", lambda: nnj.MaxPool2d(3, stride=1), (1, 3, 4), fwd=False),
            Layer("MaxPool2d(2,stride=1,pad=1)", lambda: nnj.MaxPool2d(2, stride=1, padding=1), (1, 2, 2), fwd=False),
            Layer("Upsample(2)-3x3", lambda: nnj.Upsample(scale_factor=2), (2, 3, 3), fwd=False),
        ]
    return out


def numel(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def batches(tier):
    return (2, 1) if tier == "quick" else (3, 2, 1)


def setup(ctx, lay, b, name="x"):
    m = ctx.model(lay.build)
    x = ctx.tensor(name, b, *lay.shape)
    if lay.pre:
        lay.pre(ctx, x)
    state = getattr(lay, "state", None)
    prepare(ctx, m, x, state)
    return m, relay(x, state) if state else x


def stated(lay, state):
    """the same configuration in one of the states below"""
    import copy

    lay = copy.copy(lay)
    lay.state = state
    return lay


def in_states(mk, lay, name, states=None, **kw):
    """the scenario mk(configuration) for every state"""
    for state in states or STATES + LAYOUTS[:2]:
        yield Scenario("%s %s, %s" % (lay.name, name, state), in_state(state, mk(stated(lay, state))), bounds="%s, input %s, %s" % (lay.name, lay.shape, state), **kw)


LAYOUTS = ("strided", "transposed", "expanded")
# what state the module and the caller may be in
STATES = ("evaluation mode, used before", "frozen", "first half frozen", "second half frozen", "requires_grad", "under no_grad")


def prepare(ctx, m, x, state):
    """brings the module into one of the states; the values the properties speak of do not depend on it"""
    if state == "evaluation mode, used before":
        m.eval()
        u = ctx.tensor("used", *x.shape)
        with torch.no_grad():
            m(u)
            try:  # a layer may have no Jacobian (C24): then it was only refused before
                m.jacobian(u, None)
            except E.Unsupported:
                raise
            except Exception:
                pass
    elif state in ("frozen", "first half frozen", "second half frozen"):
        ps = list(m.parameters())
        h = (len(ps) + 1) // 2
        for k, p in enumerate(ps):
            p.requires_grad_(not (state == "frozen" or (k < h) == (state == "first half frozen")))


def in_state(state, fn):
    """the scenario run by a caller who switched gradients off"""
    if state != "under no_grad":
        return fn

    def run(ctx):
        with torch.no_grad():
            return fn(ctx)

    return run


def relay(t, kind):
    """the same values in another memory layout (expanded: the first sample repeated with stride 0)"""
    if t is None or kind is None:
        return t
    if isinstance(t, list):
        return [relay(u, kind) for u in t]
    if kind in STATES:
        return t.detach().requires_grad_(True) if kind == "requires_grad" else t
    t = t.detach()
    if kind == "strided":
        return torch.stack([t, t], dim=-1)[..., 0]
    if kind == "transposed":
        d = list(range(t.dim()))[::-1]
        return t.permute(d).contiguous().permute(d)
    return t[:1].expand(t.shape)


def jac(ctx, lay, m, val, x, wrt):
    """oracle Jacobian, None when there are no parameters"""
    with no_mode():
        if wrt == "weight":
            return O.jac_weight(val, list(m.parameters()))
        if lay is not None and lay.jac:
            return lay.jac(val, x)
        return O.jac_input(val, x)


def terms_or_none(v):
    return None if v is None else Terms(v)


class JCache:
    """oracle Jacobians of one run, computed once"""

    def __init__(self, ctx, lay, m, val, x):
        self.a = (ctx, lay, m, val, x)
        self.d = {}

    def __call__(self, wrt):
        if wrt not in self.d:
            self.d[wrt] = jac(*self.a, wrt)
        return self.d[wrt]

    def n(self, wrt):
        ctx, lay, m, val, x = self.a
        if wrt == "weight":
            return sum(p.numel() for p in m.parameters())
        return x[0].numel()


# ---------------------------------------------------------------------------------------------- abstract layers
class Stub(nnj.AbstractJacobian, nn.Module):
    """A layer that computes an arbitrary function: outputs and Jacobians are uninterpreted functions of the input
    (fresh variables per distinct input).  The Jacobian also depends on the output it is handed, so that a wrong
    activation passed to it is visible.  Its own products are written out independently of the library."""

    def __init__(self, ctx, name, nin, out_shape, nparams=0):
        super().__init__()
        self.c = (ctx,)
        self.nm = name
        self.nin = nin
        self.out_shape = tuple(out_shape)
        self.nout = numel(out_shape)
        self._n_params = nparams
        self.seen = []
        self.seenj = []
        if nparams:
            with no_mode():
                self.p = nn.Parameter(torch.zeros(nparams))
            if ctx.sym:
                with no_mode():
                    E.symbolize_module(self, name + ".w")
            else:
                with torch.no_grad():
                    self.p.copy_(ctx.tensor(name + ".w0", nparams))

    # -- uninterpreted functions
    def _key(self, table, rows, fresh):
        for k, v in table:
            if k == rows:
                return v
        v = fresh(len(table))
        table.append((rows, v))
        return v

    def _row(self, t, i):
        if isinstance(t, E.SymTensor):
            return tuple(t.ids[i].reshape(-1).tolist())
        return tuple(t[i].detach().reshape(-1).tolist())

    def forward(self, x):
        ctx = self.c[0]
        with no_mode():
            assert x[0].numel() == self.nin, "stub %s got input of %d elements, expected %d" % (self.nm, x[0].numel(), self.nin)
            rows = [
                self._key(self.seen, self._row(x, i), lambda k: ctx.tensor("%s.y%d" % (self.nm, k), self.nout))
                for i in range(x.shape[0])
            ]
            return _stack(rows, (x.shape[0],) + self.out_shape)

    def J(self, x, val, wrt):
        """the Jacobian (b, nout, n) as an ordinary tensor in whatever mode"""
        ctx = self.c[0]
        n = self.nin if wrt == "input" else self._n_params
        if n == 0 and wrt == "weight":
            return None
        out = []
        if val is None:
            val = self.forward(x)
        with no_mode():
            own = self.forward(x)
            for i in range(x.shape[0]):
                key = (self._row(x, i), self._row(val, i), wrt)
                if val[i].numel() != self.nout:
                    raise RuntimeError("stub %s got val of %d elements, expected %d" % (self.nm, val[i].numel(), self.nout))
                out.append(
                    self._key(self.seenj, key, lambda k: ctx.tensor("%s.J%s%d" % (self.nm, wrt[0], k), self.nout, n))
                )
            return _stack(out, (x.shape[0], self.nout, n))

    def jacobian(self, x, val=None, wrt="input"):
        return self.J(x, val, wrt)

    @torch.no_grad()
    def jvp(self, x, val, vector, wrt="input"):
        J = self.J(x, val, wrt)
        return None if J is None else torch.einsum("bij,bj->bi", J, vector)

    @torch.no_grad()
    def jmp(self, x, val, matrix, wrt="input"):
        J = self.J(x, val, wrt)
        if matrix is None:
            return J
        return None if J is None else torch.einsum("bij,bjk->bik", J, matrix)

    @torch.no_grad()
    def vjp(self, x, val, vector, wrt="input"):
        J = self.J(x, val, wrt)
        return None if J is None else torch.einsum("bi,bij->bj", vector, J)

    @torch.no_grad()
    def mjp(self, x, val, matrix, wrt="input"):
        J = self.J(x, val, wrt)
        if matrix is None:
            return J
        return None if J is None else torch.einsum("bri,bij->brj", matrix, J)

    @torch.no_grad()
    def jTmjp(self, x, val, matrix, wrt="input", from_diag=False, to_diag=False, diag_backprop=False):
        J = self.J(x, val, wrt)
        if J is None:
            return None
        if matrix is None:
            matrix, from_diag = torch.ones(x.shape[0], self.nout, dtype=x.dtype), True
        if from_diag:
            matrix = torch.diag_embed(matrix)
        r = torch.einsum("bji,bjk,bkl->bil", J, matrix, J)
        return torch.einsum("bii->bi", r) if to_diag else r

    @torch.no_grad()
    def jmjTp(self, x, val, matrix, wrt="input", from_diag=False, to_diag=False, diag_backprop=False):
        J = self.J(x, val, wrt)
        if J is None:
            return None
        if matrix is None:
            matrix, from_diag = torch.ones(x.shape[0], J.shape[2], dtype=x.dtype), True
        if from_diag:
            matrix = torch.diag_embed(matrix)
        r = torch.einsum("bij,bjk,blk->bil", J, matrix, J)
        return torch.einsum("bii->bi", r) if to_diag else r

    # -- oracle side (term ids)
    def oJ(self, x, wrt):
        J = self.J(x, None, wrt)
        return None if J is None else O.L(J)

    def __deepcopy__(self, memo):
        r = object.__new__(Stub)
        nn.Module.__init__(r)
        for k, v in self.__dict__.items():
            if k not in ("_parameters",):
                r.__dict__[k] = v
        import copy

        r._parameters = copy.deepcopy(self._parameters, memo)
        memo[id(self)] = r
        return r


def _stack(rows, shape):
    if isinstance(rows[0], E.SymTensor):
        return E.SymTensor(
            torch.stack([r.ids.reshape(-1) for r in rows]).reshape(shape),
            torch.stack([r.shadow.reshape(-1) for r in rows]).reshape(shape),
        )
    return torch.stack([r.reshape(-1) for r in rows]).reshape(shape)


# ---------------------------------------------------------------------------------------------- sizes named in the code
def _fold(n):
    """value of an integer constant expression, None otherwise"""
    if isinstance(n, ast.Constant):
        return n.value if isinstance(n.value, int) and not isinstance(n.value, bool) else None
    if isinstance(n, ast.BinOp):
        u, v = _fold(n.left), _fold(n.right)
        if u is None or v is None:
            return None
        if isinstance(n.op, ast.Mult):
            return u * v
        if isinstance(n.op, ast.Add):
            return u + v
        if isinstance(n.op, ast.Sub):
            return u - v
        if isinstance(n.op, ast.LShift) and 0 <= v < 32:
            return u << v
        if isinstance(n.op, ast.Pow) and 0 <= v < 32 and abs(u) <= 64:
            return u**v
    return None


_KS = None


def source_sizes():
    """integers written in the library's code (thresholds, chunk sizes): the sizes explored include them and the next"""
    global _KS
    if _KS is None:
        ks = set(int(v) for v in os.environ.get("VERIF_EXTRA_SIZES", "").split(",") if v)
        root = os.path.join(REPO, "nnj")
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                try:
                    tree = ast.parse(open(os.path.join(d, f)).read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    v = _fold(n)
                    if v is not None:
                        ks.add(abs(v))
        _KS = ks
    return _KS


def sizes(limit, base=(), most=14):
    """base sizes and those suggested by the code's own integers, up to limit"""
    out = sorted(set(v for k in source_sizes() for v in (k, k + 1) if 3 < v <= limit))
    if len(out) > most:
        out = out[: most // 2] + out[-(most // 2) :]
    return sorted(set(out) | set(v for v in base if v <= limit))


def compared_sizes(limit=66):
    return sizes(limit)


# ---------------------------------------------------------------------------------------------- products
class Prod:
    """one Jacobian product of the library's interface"""

    def __init__(self, name, fd=False, td=False):
        self.name, self.fd, self.td = name, fd, td

    @property
    def label(self):
        if self.name in ("jTmjp", "jmjTp"):
            return "%s(%s->%s)" % (self.name, "diag" if self.fd else "full", "diag" if self.td else "full")
        return self.name

    @property
    def metric(self):
        return self.name in ("jTmjp", "jmjTp")

    def shape(self, b, nin, nout, k=2):
        """shape of the argument; nin = size of what is differentiated"""
        n = self.name
        if n == "jacobian":
            return None
        if n == "jvp":
            return (b, nin)
        if n == "jmp":
            return (b, nin, k)
        if n == "vjp":
            return (b, nout)
        if n == "mjp":
            return (b, k, nout)
        q = nout if n == "jTmjp" else nin
        return (b, q) if self.fd else (b, q, q)

    def arg(self, ctx, b, nin, nout, k=2, tag=""):
        s = self.shape(b, nin, nout, k)
        if s is None:
            return None
        return ctx.tensor("%s%s%s" % (self.name, "d" if self.fd else "", tag), *s)

    def call(self, m, x, val, arg, wrt, **kw):
        if self.name == "jacobian":
            return m.jacobian(x, val, wrt=wrt)
        if self.metric:
            return getattr(m, self.name)(x, val, arg, wrt=wrt, from_diag=self.fd, to_diag=self.td, **kw)
        return getattr(m, self.name)(x, val, arg, wrt=wrt)

    def want(self, J, arg):
        """oracle: nested lists of ids"""
        if J is None:
            return None
        if self.name == "jacobian":
            return J
        a = O.L(arg)
        f = {"jvp": O.jv, "jmp": O.jm, "vjp": O.vj, "mjp": O.mj}.get(self.name)
        if f:
            return f(J, a)
        return (O.jTmj if self.name == "jTmjp" else O.jmjT)(J, a, self.fd, self.td)

    @property
    def forward(self):
        return self.name in ("jvp", "jmp", "jmjTp")


JAC = Prod("jacobian")
FLAGS = [(False, False), (True, False), (False, True), (True, True)]
FWD = [Prod("jvp"), Prod("jmp")]
BWD = [Prod("vjp"), Prod("mjp")]
JTMJ = [Prod("jTmjp", a, b) for a, b in FLAGS]
JMJT = [Prod("jmjTp", a, b) for a, b in FLAGS]
ALL = [JAC] + FWD + BWD + JTMJ + JMJT


def attempt(f, allow):
    """(refused, value)"""
    try:
        return False, f()
    except (E.Unsupported, T.NonFinite, T.TermLimit):
        raise
    except allow:
        return True, None


def nweights(m):
    return sum(p.numel() for p in m.parameters())


def leaf_blocks(m, off=0):
    """nested (offset, size) of the weight blocks of a stack, like the list jTmjp returns; None without parameters"""
    if isinstance(m, nnj.Sequential):
        out = []
        for c in m:
            b = leaf_blocks(c, off)
            if b is not None:
                out.append(b)
            off += nweights(c)
        return out or None
    if isinstance(m, nnj.SkipConnection):
        return leaf_blocks(next(iter(m.children())), off)
    n = nweights(m)
    return (off, n) if n else None


def flat_blocks(b):
    if b is None:
        return []
    if isinstance(b, tuple):
        return [b]
    return [x for y in b for x in flat_blocks(y)]


def sub_block(M, off, n):
    """rows/cols off..off+n of a batch of matrices (nested ids)"""
    return [[r[off : off + n] for r in Mb[off : off + n]] for Mb in M]


def cols(J, off, n):
    return [[r[off : off + n] for r in Jb] for Jb in J]


def want_stack(p, m, J, arg, wrt):
    """the documented result for a stack: with respect to weights, full jTmjp is a list of blocks and jmjTp uses the
    diagonal blocks of its matrix only"""
    if J is None:
        return None
    if wrt == "weight" and p.metric and isinstance(m, (nnj.Sequential, nnj.SkipConnection)):
        bl = leaf_blocks(m)
        a = O.L(arg)
        if p.name == "jTmjp" and not p.td:

            def rec(b):
                if isinstance(b, tuple):
                    return Terms(O.jTmj(cols(J, *b), a, p.fd, False))
                return [rec(c) for c in b]

            return rec(bl)
        if p.name == "jmjTp":
            tot = None
            for off, n in flat_blocks(bl):
                aa = [v[off : off + n] for v in a] if p.fd else sub_block(a, off, n)
                r = O.jmjT(cols(J, off, n), aa, p.fd, p.td)
                if tot is None:
                    tot = r
                elif p.td:
                    tot = [[T.add(x, y) for x, y in zip(u, v)] for u, v in zip(tot, r)]
                else:
                    tot = [O.add(u, v) for u, v in zip(tot, r)]
            return Terms(tot)
    return Terms(p.want(J, arg))


class Guard:
    """remembers the values of tensors (for the no-mutation property)"""

    def __init__(self, **tensors):
        from symtorch.runner import snapshot

        with no_mode():
            self.t = {k: (v, snapshot(v)) for k, v in tensors.items() if v is not None}

    def check(self, ctx, label):
        for k, (v, s) in self.t.items():
            ctx.eq("%s leaves %s as it was" % (label, k), v, s)
