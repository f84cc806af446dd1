"""Symbolic execution of real PyTorch code.

A SymTensor is a torch.Tensor wrapper subclass holding
  * ids    - an int64 tensor of term ids (one symbolic scalar per element), and
  * shadow - an ordinary tensor of the real dtype: the same computation at one concrete point.
The library's own Python code runs unchanged; every ATen operator it reaches is intercepted.  The real
kernel runs on the shadow (so shapes, dtypes, strides, aliasing and errors are the real ones).  Operators
that only move data run their real kernel on the id tensor as well; arithmetic is done element-wise on terms.
"""
import functools
import itertools
import math
import random

import torch
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes
from torch.utils._pytree import tree_flatten, tree_map, tree_unflatten

from . import terms as T
from fractions import Fraction


class Unsupported(Exception):
    """the encoding does not cover this operator"""


class Infeasible(BaseException):
    pass


# ------------------------------------------------------------------------------------------------ state
class State:
    def __init__(self):
        self.env = {}  # shadow value of every variable
        self.path = None  # path explorer
        self.ops = {}
        self.rng = random.Random(1)
        self.depth = 0
        self.ext = False  # single-precision range semantics (extended.py)
        self.double = False  # inputs and weights have double precision: single-precision values count as rounded


ST = State()


def shadow_value():
    # a value in [-2, 2], away from 0, representable in float32 with few digits
    v = 0.0
    while abs(v) < 0.05:
        v = round(ST.rng.random() * 4 - 2, 3)
    return v


def new_var(name, value=None):
    i = T.var(name)
    if i not in ST.env:
        ST.env[i] = shadow_value() if value is None else value
    return i


_fresh = [0]


def fresh_var(prefix, value=None):
    _fresh[0] += 1
    return new_var("%s!%d" % (prefix, _fresh[0]), value)


# ------------------------------------------------------------------------------------------------ tensors
class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, ids, shadow, requires_grad=False):
        if type(shadow) is not torch.Tensor:
            raise AssertionError("shadow is %s" % type(shadow))
        r = torch.Tensor._make_wrapper_subclass(
            cls,
            shadow.size(),
            strides=shadow.stride(),
            storage_offset=shadow.storage_offset(),
            dtype=shadow.dtype,
            device=shadow.device,
            requires_grad=requires_grad,
        )
        r.ids = ids
        r.shadow = shadow
        return r

    def __repr__(self):
        return "SymTensor(%s, %s)" % (tuple(self.shape), self.dtype)

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        h = _TF.get(func)
        if h is not None:
            r = h(*args, **kwargs)
            if r is not NotImplemented:
                return r
        with torch._C.DisableTorchFunctionSubclass():
            return func(*args, **kwargs)

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        if self.grad_fn is not None:
            raise RuntimeError("Only Tensors created explicitly by the user (graph leaves) support the deepcopy protocol")
        with _disable_current_modes():
            r = SymTensor(self.ids.clone(), self.shadow.clone(), requires_grad=self.requires_grad)
        if getattr(self, "_is_param", False):
            r._is_param = True
        memo[id(self)] = r
        return r


def _tf_item(t):
    if isinstance(t, SymTensor) and t.numel() == 1:
        i = int(t.ids.reshape(()))
        if T.kind[i] == T.C:
            return _pynum(i, t.dtype)
        if t.dtype == torch.bool:
            return ST.path.fork(i)
        if not t.dtype.is_floating_point:
            return _concretize_int(i)
        return t.detach().reshape(())
    return NotImplemented


def _tf_bool(t):
    if isinstance(t, SymTensor) and t.numel() == 1:
        i = int(t.ids.reshape(()))
        return ST.path.fork(i if t.dtype == torch.bool else T.n2b(i))
    return NotImplemented


def _tf_tolist(t):
    if isinstance(t, SymTensor):
        if t.dim() == 0:
            return _tf_item(t)
        return [_tf_tolist(t[i]) for i in range(t.shape[0])]
    return NotImplemented


def _tf_data_get(t):
    if isinstance(t, SymTensor):
        return SymTensor(t.ids.view(t.ids.shape), t.shadow.view(t.shadow.shape))
    return NotImplemented


def _tf_data_set(t, v):
    if isinstance(t, SymTensor):
        if not isinstance(v, SymTensor):
            v = lift(v)
        if tuple(v.shape) != tuple(t.shape) or v.dtype != t.dtype:
            # the wrapper takes the metadata of the new value, as torch does it
            with torch._C.DisableTorchFunctionSubclass():
                torch.Tensor.data.__set__(t, v)
            if tuple(v.shape) != tuple(t.shape) or v.dtype != t.dtype:
                raise Unsupported("data set with different shape/dtype")
        t.ids = v.ids
        t.shadow = v.shadow.detach()
        return None
    if isinstance(v, SymTensor):
        raise Unsupported("plain.data = symbolic")
    return NotImplemented


def _tf_data_ptr(t):
    # identity of the memory, as the real run would see it
    return t.shadow.data_ptr() if isinstance(t, SymTensor) else NotImplemented


_TF = {
    torch.Tensor.data_ptr: _tf_data_ptr,
    torch.Tensor.item: _tf_item,
    torch.Tensor.__bool__: _tf_bool,
    torch.Tensor.tolist: _tf_tolist,
    torch.Tensor.data.__get__: _tf_data_get,
    torch.Tensor.data.__set__: _tf_data_set,
}


def _pynum(i, dtype):
    v = T.data[i]
    if dtype == torch.bool:
        return bool(v)
    if dtype.is_floating_point:
        return float(v)
    return int(v)


def leafconds(i, cond=T.TRUE):
    """an ITE tree over integer constants as [(value, condition)]"""
    if T.kind[i] == T.C:
        return [(int(T.data[i]), cond)]
    if T.kind[i] == T.ITE:
        c, x, y = T.data[i]
        return leafconds(x, T.and_([cond, c])) + leafconds(y, T.and_([cond, T.not_(c)]))
    raise Unsupported("symbolic integer")


def leafmap(i, f):
    if T.kind[i] == T.C:
        return f(int(T.data[i]))
    if T.kind[i] == T.ITE:
        c, x, y = T.data[i]
        return T.ite(c, leafmap(x, f), leafmap(y, f))
    raise Unsupported("symbolic integer")


def _concretize_int(i):
    lc = leafconds(i)
    for v, c in lc[:-1]:
        if ST.path.fork(c):
            return v
    return lc[-1][0]


# ------------------------------------------------------------------------------------------------ lifting
def num_id(v, dtype=torch.float32):
    if isinstance(v, bool):
        return 1 if v else 0
    if isinstance(v, int):
        return T.const(v)
    if isinstance(v, float):
        if math.isinf(v):
            return T.inf() if v > 0 else T.neg(T.inf())
        if math.isnan(v):
            return T.fn("nan", T.ZERO)
        return T.const(T.float_to_num(v, single=(dtype == torch.float32)))
    raise Unsupported("number %r" % (v,))


def ids_of(t, dtype=None):
    """term ids of a tensor or number"""
    if isinstance(t, SymTensor):
        return t.ids
    if isinstance(t, torch.Tensor):
        flat = t.detach().reshape(-1).tolist()
        r = torch.tensor([num_id(v, t.dtype) for v in flat], dtype=torch.int64)
        return r.reshape(t.shape)
    # a Python scalar has double precision
    return torch.tensor(num_id(t, torch.float64), dtype=torch.int64)


def lift(t):
    ids = torch.empty_strided(t.size(), t.stride(), dtype=torch.int64) if _dense(t) else torch.empty(
        t.shape, dtype=torch.int64
    )
    ids.copy_(ids_of(t))
    return SymTensor(ids, t.detach())


def _dense(t):
    return not any(s == 0 and n > 1 for s, n in zip(t.stride(), t.shape))


def real(t):
    return t.shadow if isinstance(t, SymTensor) else t


def wrap(ids, r):
    """pair ids with the shadow result r"""
    if not r.dtype.is_floating_point:
        flat = ids.reshape(-1).tolist()
        if all(T.kind[i] == T.C for i in flat):
            if r.dtype == torch.bool:
                return torch.tensor([bool(T.data[i]) for i in flat], dtype=torch.bool).reshape(r.shape)
            return torch.tensor([int(T.data[i]) for i in flat], dtype=r.dtype).reshape(r.shape)
    if ids.stride() != r.stride() and _dense(r):
        j = torch.empty_strided(r.size(), r.stride(), dtype=torch.int64)
        j.copy_(ids)
        ids = j
    return SymTensor(ids, r.detach())


def mk(lst, shape):
    return torch.tensor(lst, dtype=torch.int64).reshape(shape)


# ------------------------------------------------------------------------------------------------ dispatch
class SymMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


RANDOM = {
    "randn", "rand", "randn_like", "rand_like", "normal", "uniform", "normal_", "uniform_", "bernoulli",
    "bernoulli_", "randint", "randperm", "exponential_", "random_", "native_dropout", "multinomial",
}
EMPTY = {"empty", "empty_like", "empty_strided", "new_empty", "new_empty_strided", "empty_permuted"}


def _has_sym(args, kwargs):
    for a in tree_flatten((args, kwargs))[0]:
        if isinstance(a, SymTensor):
            return True
    return False


def _is_mut(func):
    a = func._schema.arguments
    return bool(a) and a[0].alias_info is not None and a[0].alias_info.is_write


def dispatch(func, args, kwargs):
    name = func.overloadpacket.__name__
    ov = func._overloadname
    sym = _has_sym(args, kwargs)
    if not sym:
        out = func(*args, **kwargs)
        if name.endswith("_") and args and isinstance(args[0], torch.Tensor):
            return args[0]
        if name in RANDOM:
            return tree_map(lambda t: _fresh_like(t, "rand") if _isf(t) else t, out)
        if name in EMPTY:
            return tree_map(lambda t: _fresh_like(t, "uninit", 0.37) if _isf(t) else t, out)
        # in-place / view-of-plain results keep aliasing only if left plain
        if name != "lift_fresh" and (func.is_view or name in ("detach", "alias")):
            return out
        return tree_map(lambda t: lift(t) if _isf(t) else t, out)
    ST.ops[name] = ST.ops.get(name, 0) + 1
    if ST.double and name not in ("copy_", "_to_copy", "to"):
        args, kwargs = _promote(args, kwargs)
    h = SPECIAL.get(name)
    if h is not None:
        r = h(func, args, kwargs)
        if r is not NotImplemented:
            return r
    base = name[:-1] if name.endswith("_") and not name.endswith("__") else name
    mut = _is_mut(func)
    if base in HANDLERS:
        if mut:
            return _run_mut(HANDLERS[base], func, args, kwargs)
        rout = func(*tree_map(real, args), **tree_map(real, kwargs))
        ids = HANDLERS[base](rout, func, args, kwargs)
        return _pair(ids, rout)
    if base in MOVE and not mut:
        return _run_move(func, args, kwargs)
    if mut and base in MOVE:
        raise Unsupported("in-place " + name)
    d = _decomp(func)
    if d is not None:
        with torch._C._DisableTorchDispatch() if False else _null():
            return d(*args, **kwargs)
    r = func.decompose(*args, **kwargs)
    if r is not NotImplemented:
        return r
    raise Unsupported("operator %s" % func)


def _promote(args, kwargs):
    """operands of lower precision met by double-precision ones have been rounded"""
    fl, spec = tree_flatten((args, kwargs))
    ds = {a.dtype for a in fl if isinstance(a, torch.Tensor) and a.dtype.is_floating_point}
    if torch.float64 not in ds or len(ds) == 1:
        return args, kwargs

    def f(a):
        if not isinstance(a, torch.Tensor) or not a.dtype.is_floating_point or a.dtype == torch.float64:
            return a
        n = "round32" if a.dtype == torch.float32 else "round16"
        return SymTensor(_map1(ids_of(a), lambda i: T.fn(n, i)), real(a))

    return tree_unflatten([f(a) for a in fl], spec)


class _null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


_dec = None
_NO_DECOMP = {"convolution_backward"}


def _decomp(func):
    global _dec
    if _dec is None:
        from torch._decomp import decomposition_table

        _dec = decomposition_table
    d = _dec.get(func)
    if d is None:
        d = _dec.get(func.overloadpacket)
    return d


def _isf(t):
    return isinstance(t, torch.Tensor) and t.dtype.is_floating_point and not isinstance(t, SymTensor)


def _fresh_like(t, prefix, value=None):
    vals = t.detach().reshape(-1).tolist()
    lst = [fresh_var(prefix, v if value is None else value) for v in vals]
    sh = torch.tensor([ST.env[i] for i in lst], dtype=t.dtype).reshape(t.shape)
    return SymTensor(mk(lst, t.shape), sh)


def _pair(ids, rout):
    if isinstance(rout, torch.Tensor):
        return wrap(ids, rout)
    if isinstance(rout, (tuple, list)):
        return type(rout)(_pair(i, r) for i, r in zip(ids, rout)) if type(rout) in (tuple, list) else tuple(
            _pair(i, r) for i, r in zip(ids, rout)
        )
    return rout


def _run_mut(h, func, args, kwargs):
    self = args[0]
    if not isinstance(self, SymTensor):
        if isinstance(self, torch.Tensor) and not self.dtype.is_floating_point:
            raise Unsupported("symbolic write into a plain integer tensor")
        raise Unsupported("symbolic write into a tensor created outside the symbolic run")
    rargs = tree_map(real, args)
    # ids first: the functional handler must see the values before the update
    pre = rargs[0].clone()
    rout = func(pre, *rargs[1:], **tree_map(real, kwargs))
    ids = h(rout, func, args, kwargs)
    rargs[0].copy_(pre)
    if self.dtype != torch.bool:
        src = ids
        dts = [real(a).dtype for a in args[1:] if isinstance(a, torch.Tensor) and real(a).dtype.is_floating_point
               and real(a).dim() > 0]
        if dts and any(_lower(d, self.dtype) for d in dts):
            src = _cast_ids(ids, dts[0], self.dtype)
        ids = src
    self.ids.copy_(ids)
    return self


def _lower(src, dst):
    return torch.finfo(src).bits > torch.finfo(dst).bits


def _cast_ids(ids, src, dst):
    if src == dst or not isinstance(ids, torch.Tensor):
        return ids
    if dst == torch.bool:
        return _map1(ids, T.n2b)
    if src == torch.bool:
        return _map1(ids, T.b2n)
    if dst.is_floating_point and src.is_floating_point:
        if _lower(src, dst):
            n = "round32" if dst == torch.float32 else "round16"
            return _map1(ids, lambda i: T.fn(n, i))
        if ST.double:
            return _map1(ids, lambda i: T.fn("round32" if src == torch.float32 else "round16", i))
        return ids
    if dst.is_floating_point:
        return ids
    if src.is_floating_point:  # float -> int
        def f(i):
            if T.kind[i] == T.C:
                return T.const(int(T.data[i]))
            if T.kind[i] == T.ITE:
                c, x, y = T.data[i]
                return T.ite(c, f(x), f(y))
            raise Unsupported("symbolic float to int")

        return _map1(ids, f)
    return ids


def _map1(ids, f):
    return mk([f(i) for i in ids.reshape(-1).tolist()], ids.shape)


# ------------------------------------------------------------------------------------------------ data movement
MOVE = {
    "view", "_unsafe_view", "reshape", "_reshape_alias", "expand", "permute", "transpose", "t", "squeeze", "unsqueeze",
    "select", "slice", "split", "split_with_sizes", "unbind", "diagonal", "as_strided", "alias", "detach", "clone",
    "cat", "stack", "flip", "repeat", "diag_embed", "tril", "triu", "roll", "unfold", "im2col", "lift_fresh",
    "contiguous", "movedim", "upsample_nearest2d", "_upsample_nearest_exact2d", "upsample_nearest1d", "pixel_shuffle",
    "pixel_unshuffle", "channel_shuffle", "chunk", "view_as", "expand_as", "narrow", "rot90", "diag",
    "select_backward", "slice_backward", "as_strided_copy", "view_copy", "diagonal_copy", "reflection_pad2d",
    "replication_pad2d", "reflection_pad1d", "replication_pad1d", "diagonal_scatter", "select_scatter", "slice_scatter", "diagonal_backward",
    "repeat_interleave", "tile", "hstack", "vstack", "concat", "swapaxes", "select_copy", "slice_copy", "squeeze_copy",
    "unsqueeze_copy", "permute_copy", "transpose_copy", "t_copy", "expand_copy", "alias_copy", "detach_copy",
    "take", "unsafe_split", "unsafe_chunk", "block_diag", "_conj", "resolve_conj", "resolve_neg", "fliplr", "flipud",
}
_FLOATMOVE = {"upsample_nearest2d", "_upsample_nearest_exact2d", "upsample_nearest1d", "im2col", "reflection_pad2d",
              "replication_pad2d", "reflection_pad1d", "replication_pad1d", "pixel_shuffle"}


def _run_move(func, args, kwargs):
    name = func.overloadpacket.__name__
    rout = func(*tree_map(real, args), **tree_map(real, kwargs))
    # floating plain tensors in the same call become constants; index/int tensors stay
    anyf = True

    def conv(a):
        if isinstance(a, SymTensor):
            return a.ids
        if isinstance(a, torch.Tensor) and (a.dtype.is_floating_point):
            return ids_of(a)
        return a

    if name in ("cat", "stack", "select_scatter", "slice_scatter", "diagonal_scatter", "hstack", "vstack", "block_diag"):
        def conv2(a):  # noqa: mixed int/bool plain operands are data here
            if isinstance(a, SymTensor):
                return a.ids
            if isinstance(a, torch.Tensor):
                return ids_of(a)
            return a

        iargs = tree_map(conv2, args)
    else:
        iargs = tree_map(conv, args)
    kw = {k: v for k, v in kwargs.items() if k not in ("dtype",)}
    ikw = tree_map(conv, kw)
    if name in _FLOATMOVE:
        iargs = tree_map(lambda a: a.double() if isinstance(a, torch.Tensor) and a.dtype == torch.int64 else a, iargs)
        iout = func(*iargs, **ikw)
        iout = tree_map(lambda a: a.round().long() if isinstance(a, torch.Tensor) else a, iout)
    else:
        iout = func(*iargs, **ikw)
    if name == "cat" and isinstance(rout, torch.Tensor):
        # dtype promotion inside cat can only widen
        pass
    return _pair_move(iout, rout)


def _pair_move(iout, rout):
    if isinstance(rout, torch.Tensor):
        if not rout.dtype.is_floating_point:
            return wrap_keep(iout, rout)
        if iout.stride() != rout.stride() and _dense(rout):
            j = torch.empty_strided(rout.size(), rout.stride(), dtype=torch.int64)
            j.copy_(iout)
            iout = j
        return SymTensor(iout, rout.detach())
    if isinstance(rout, (tuple, list)):
        return type(rout)(_pair_move(i, r) for i, r in zip(iout, rout))
    return rout


def wrap_keep(ids, r):
    return SymTensor(ids, r.detach())


# ------------------------------------------------------------------------------------------------ special ops
SPECIAL = {}


def special(*names):
    def deco(f):
        for n in names:
            SPECIAL[n] = f
        return f

    return deco


@special("_local_scalar_dense")
def _lsd(func, args, kwargs):
    t = args[0]
    i = int(t.ids.reshape(()))
    if T.kind[i] == T.C:
        return _pynum(i, t.dtype)
    if t.dtype == torch.bool:
        return ST.path.fork(i)
    if not t.dtype.is_floating_point:
        return _concretize_int(i)
    raise Unsupported("symbolic float used as a Python number")


@special("_has_same_storage_numel")
def _same_numel(func, args, kwargs):
    return tuple(args[0].shape) == tuple(args[1].shape)


@special("hypot")
def _hypot(func, args, kwargs):
    return (args[0] * args[0] + args[1] * args[1]).sqrt()


@special("equal")
def _equal(func, args, kwargs):
    a, b = args
    if tuple(a.shape) != tuple(b.shape):
        return False
    if a.dtype != b.dtype:
        return func(real(a), real(b))  # the real error or answer
    c = [T.eq(x, y) for x, y in zip(ids_of(a).reshape(-1).tolist(), ids_of(b).reshape(-1).tolist())]
    return ST.path.fork(T.and_(c))


@special("allclose")
def _allclose(func, args, kwargs):
    a, b = args[0], args[1]
    rtol = args[2] if len(args) > 2 else kwargs.get("rtol", 1e-5)
    atol = args[3] if len(args) > 3 else kwargs.get("atol", 1e-8)
    A, B = torch.broadcast_tensors(ids_of(a), ids_of(b))
    c = []
    for x, y in zip(A.reshape(-1).tolist(), B.reshape(-1).tolist()):
        if x == y:
            continue
        tol = T.add(num_id(float(atol), torch.float64), T.mul(num_id(float(rtol), torch.float64), T.abs_(y)))
        c.append(T.ge(tol, T.abs_(T.sub(x, y))))
    return ST.path.fork(T.and_(c))


@special("detach", "alias")
def _detach(func, args, kwargs):
    t = args[0]
    return SymTensor(t.ids.view(t.ids.shape), t.shadow.view(t.shadow.shape))


@special("zeros_like", "ones_like", "full_like", "new_zeros", "new_ones", "new_full", "new_tensor")
def _like(func, args, kwargs):
    r = func(*tree_map(real, args), **kwargs)
    return lift(r) if r.dtype.is_floating_point else r


@special("empty_like", "new_empty", "new_empty_strided")
def _emptylike(func, args, kwargs):
    r = func(*tree_map(real, args), **kwargs)
    return _fresh_like(r, "uninit", 0.37) if r.dtype.is_floating_point else r


@special("randn_like", "rand_like", "bernoulli", "native_dropout")
def _randlike(func, args, kwargs):
    r = func(*tree_map(real, args), **kwargs)
    return tree_map(lambda t: _fresh_like(t, "rand") if _isf(t) else t, r)


@special("uniform_", "normal_", "exponential_", "random_", "bernoulli_")
def _rand_(func, args, kwargs):
    t = args[0]
    func(t.shadow, *args[1:], **kwargs)
    vals = t.shadow.detach().reshape(-1).tolist()
    t.ids.copy_(mk([fresh_var("rand", v) for v in vals], t.shape))
    return t


@special("copy_")
def _copy_(func, args, kwargs):
    dst, src = args[0], args[1]
    if not isinstance(dst, SymTensor):
        raise Unsupported("symbolic write into a tensor created outside the symbolic run")
    dst.shadow.copy_(real(src))
    dst.ids.copy_(_cast_ids(ids_of(src), real(src).dtype, dst.dtype))
    return dst


@special("fill_", "zero_")
def _fill_(func, args, kwargs):
    t = args[0]
    v = args[1] if len(args) > 1 else 0
    func(t.shadow, *tree_map(real, args[1:]))
    t.ids.copy_(ids_of(v).expand(t.ids.shape))
    return t


@special("_to_copy", "to")
def _to_copy(func, args, kwargs):
    t = args[0]
    r = func(t.shadow, *args[1:], **kwargs)
    ids = _cast_ids(t.ids.clone(), t.dtype, r.dtype)
    return wrap(ids, r)


@special("set_", "resize_", "set_data", "nonzero_static")
def _nope(func, args, kwargs):
    raise Unsupported(str(func))


@special("nonzero")
def _nonzero(func, args, kwargs):
    t = args[0]
    conds = [i if t.dtype == torch.bool else T.n2b(i) for i in t.ids.reshape(-1).tolist()]
    vals = torch.tensor([ST.path.fork(c) if T.kind[c] != T.C else bool(T.data[c]) for c in conds]).reshape(t.shape)
    return func(vals)


@special("masked_select")
def _masked_select(func, args, kwargs):
    a, m = args
    if isinstance(m, SymTensor):
        conds = m.ids.reshape(-1).tolist()
        m = torch.tensor([ST.path.fork(c) if T.kind[c] != T.C else bool(T.data[c]) for c in conds]).reshape(m.shape)
    if not isinstance(a, SymTensor):
        a = lift(a) if a.dtype.is_floating_point else a
    ids, mm = torch.broadcast_tensors(a.ids, m)
    sh, mm = torch.broadcast_tensors(a.shadow, m)
    return SymTensor(ids[mm], sh[mm])


@special("is_same_size")
def _iss(func, args, kwargs):
    return tuple(args[0].shape) == tuple(args[1].shape)


@special("isnan", "isinf", "isneginf", "isposinf")
def _isnan(func, args, kwargs):
    if ST.ext:
        from . import extended as X

        n = func.overloadpacket.__name__
        want = {"isnan": ("nan",), "isinf": ("inf", "-inf"), "isneginf": ("-inf",), "isposinf": ("inf",)}[n]
        return torch.tensor([X.sp(i) in want for i in ids_of(args[0]).reshape(-1).tolist()]).reshape(args[0].shape)
    return torch.zeros(args[0].shape, dtype=torch.bool)


@special("isfinite")
def _isfinite(func, args, kwargs):
    if ST.ext:
        from . import extended as X

        return torch.tensor([X.sp(i) == "" for i in ids_of(args[0]).reshape(-1).tolist()]).reshape(args[0].shape)
    return torch.ones(args[0].shape, dtype=torch.bool)


@special("_assert_async", "_functional_assert_async")
def _aa(func, args, kwargs):
    t = args[0]
    if not _tf_bool(t):
        raise RuntimeError("assertion failed")


# ------------------------------------------------------------------------------------------------ arithmetic
HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


def bc(*ops):
    return torch.broadcast_tensors(*[ids_of(o) for o in ops])


def ew(rout, f, *ops):
    ts = bc(*ops)
    ls = [t.reshape(-1).tolist() for t in ts]
    return mk([f(*xs) for xs in zip(*ls)], ts[0].shape)


def _downcast(ids, func, args, rout):
    return ids


def ew1(name):
    def h(rout, func, args, kwargs):
        return _map1(ids_of(args[0]), lambda i: T.fn(name, i))

    return h


for _n in ("exp", "log", "sin", "cos", "tanh", "sigmoid", "sqrt"):
    HANDLERS[_n] = ew1(_n)


@handler("add", "sub", "rsub")
def h_add(rout, func, args, kwargs):
    n = func.overloadpacket.__name__.rstrip("_")
    a, b = args[0], args[1]
    alpha = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
    al = int(ids_of(alpha))
    if n == "rsub":
        a, b = b, a
    bb = [a, b]
    # rsub: other - alpha*self
    if n == "add":
        return ew(rout, lambda x, y: T.add(x, T.mul(al, y)), a, b)
    return ew(rout, lambda x, y: T.sub(x, T.mul(al, y)), a, b)


@handler("mul", "multiply")
def h_mul(rout, func, args, kwargs):
    if rout.dtype == torch.bool:
        return ew(rout, lambda x, y: T.and_([x, y]), args[0], args[1])
    if not rout.dtype.is_floating_point:
        return ew(rout, _int2(lambda x, y: x * y), args[0], args[1])
    return ew(rout, T.mul, args[0], args[1])


def _int2(f):
    def g(x, y):
        return leafmap(x, lambda u: leafmap(y, lambda v: T.const(f(u, v))))

    return g


def tdiv(x, y):
    if y == 0 and not ST.ext:
        if x == 0:
            return T.fn("nan", T.ZERO)
        raise Unsupported("division by constant zero")
    return T.div(x, y)


@handler("div", "divide", "true_divide")
def h_div(rout, func, args, kwargs):
    mode = kwargs.get("rounding_mode")
    if mode is not None:
        if not rout.dtype.is_floating_point:
            f = (lambda u, v: u // v) if mode == "floor" else (lambda u, v: int(u / v))
            return ew(rout, _int2(f), args[0], args[1])
        raise Unsupported("rounded division")
    return ew(rout, tdiv, args[0], args[1])


@handler("floor_divide")
def h_fdiv(rout, func, args, kwargs):
    return ew(rout, _int2(lambda u, v: u // v), args[0], args[1])


@handler("remainder", "fmod")
def h_rem(rout, func, args, kwargs):
    if rout.dtype.is_floating_point:
        raise Unsupported("float remainder")
    return ew(rout, _int2(lambda u, v: u % v), args[0], args[1])


@handler("neg")
def h_neg(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), T.neg)


@handler("abs")
def h_abs(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), T.abs_)


def sgn(i):
    return T.ite(T.gt(i, 0), 1, T.ite(T.gt(0, i), T.const(-1), 0))


@handler("sign", "sgn")
def h_sign(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), sgn)


@handler("square")
def h_square(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), lambda i: T.mul(i, i))


@handler("reciprocal")
def h_recip(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), lambda i: tdiv(1, i))


@handler("rsqrt")
def h_rsqrt(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), lambda i: tdiv(1, T.fn("sqrt", i)))


@handler("expm1")
def h_expm1(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), lambda i: T.sub(T.fn("exp", i), 1))


@handler("log1p")
def h_log1p(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), lambda i: T.fn("log", T.add(i, 1)))


@handler("tan")
def h_tan(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), lambda i: T.div(T.fn("sin", i), T.fn("cos", i)))


@handler("sinh")
def h_sinh(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), T.sinh)


@handler("cosh")
def h_cosh(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), T.cosh)


@handler("exp2")
def h_exp2(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), lambda i: T.fn("exp", T.mul(i, T.fn("log", T.const(2)))))


@handler("log2", "log10")
def h_log2(rout, func, args, kwargs):
    b = 2 if "2" in func.overloadpacket.__name__ else 10
    return _map1(ids_of(args[0]), lambda i: T.div(T.fn("log", i), T.fn("log", T.const(b))))


def tpow(x, y):
    if T.kind[y] == T.C:
        e = Fraction(T.data[y])
        if e.denominator == 1:
            if x == 0 and e < 0 and not ST.ext:
                raise Unsupported("0**negative")
            return T.powi(x, e.numerator)
        if e.denominator == 2:
            return T.powi(T.fn("sqrt", x), e.numerator)
    if T.kind[y] == T.ITE:
        c, u, v = T.data[y]
        return T.ite(c, tpow(x, u), tpow(x, v))
    return T.fn("exp", T.mul(y, T.fn("log", x)))


@handler("pow")
def h_pow(rout, func, args, kwargs):
    return ew(rout, tpow, args[0], args[1])


def softplus_t(i, beta, thr):
    b = T.mul(i, beta)
    return T.ite(T.gt(b, thr), i, T.div(T.fn("log", T.add(1, T.fn("exp", b))), beta))


@handler("softplus")
def h_softplus(rout, func, args, kwargs):
    beta = args[1] if len(args) > 1 else kwargs.get("beta", 1)
    thr = args[2] if len(args) > 2 else kwargs.get("threshold", 20)
    bi, ti = int(ids_of(beta)), int(ids_of(thr))
    return _map1(ids_of(args[0]), lambda i: softplus_t(i, bi, ti))


@handler("softplus_backward")
def h_softplus_b(rout, func, args, kwargs):
    g, x, beta, thr = args
    bi, ti = int(ids_of(beta)), int(ids_of(thr))
    return ew(
        rout, lambda u, i: T.ite(T.gt(T.mul(i, bi), ti), u, T.mul(u, T.fn("sigmoid", T.mul(i, bi)))), g, x
    )


@handler("log_sigmoid_forward")
def h_logsig(rout, func, args, kwargs):
    if ST.ext:
        from . import extended as X

        return (_map1(ids_of(args[0]), X.k_logsigmoid), ids_of(rout[1]))
    r = _map1(ids_of(args[0]), lambda i: T.neg(T.fn("log", T.add(1, T.fn("exp", T.neg(i))))))
    return (r, ids_of(rout[1]))


@handler("relu")
def h_relu(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), lambda i: T.ite(T.gt(i, 0), i, 0))


@handler("leaky_relu")
def h_leaky(rout, func, args, kwargs):
    s = args[1] if len(args) > 1 else kwargs.get("negative_slope", 0.01)
    si = int(ids_of(s))
    return _map1(ids_of(args[0]), lambda i: T.ite(T.gt(i, 0), i, T.mul(i, si)))


@handler("silu")
def h_silu(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), lambda i: T.mul(i, T.fn("sigmoid", i)))


@handler("threshold")
def h_thr(rout, func, args, kwargs):
    t, v = int(ids_of(args[1])), int(ids_of(args[2]))
    return _map1(ids_of(args[0]), lambda i: T.ite(T.gt(i, t), i, v))


@handler("threshold_backward")
def h_thrb(rout, func, args, kwargs):
    t = int(ids_of(args[2]))
    return ew(rout, lambda g, i: T.ite(T.gt(i, t), g, 0), args[0], args[1])


@handler("tanh_backward")
def h_tanhb(rout, func, args, kwargs):
    return ew(rout, lambda g, y: T.mul(g, T.sub(1, T.mul(y, y))), args[0], args[1])


@handler("sigmoid_backward")
def h_sigb(rout, func, args, kwargs):
    return ew(rout, lambda g, y: T.mul(g, T.mul(y, T.sub(1, y))), args[0], args[1])


@handler("hardtanh")
def h_hardtanh(rout, func, args, kwargs):
    lo = args[1] if len(args) > 1 else kwargs.get("min_val", -1)
    hi = args[2] if len(args) > 2 else kwargs.get("max_val", 1)
    return _clamp(ids_of(args[0]), lo, hi)


def _clamp(ids, lo, hi):
    x = ids
    sh = [x]
    L = ids_of(lo) if lo is not None else None
    H = ids_of(hi) if hi is not None else None
    ops = [x] + [o for o in (L, H) if o is not None]
    ts = torch.broadcast_tensors(*ops)
    out = []
    for row in zip(*[t.reshape(-1).tolist() for t in ts]):
        v = row[0]
        k = 1
        if L is not None:
            v = T.ite(T.gt(row[k], v), row[k], v)
            k += 1
        if H is not None:
            v = T.ite(T.gt(v, row[k]), row[k], v)
        out.append(v)
    return mk(out, ts[0].shape)


@handler("clamp")
def h_clamp(rout, func, args, kwargs):
    lo = args[1] if len(args) > 1 else kwargs.get("min")
    hi = args[2] if len(args) > 2 else kwargs.get("max")
    return _clamp(ids_of(args[0]), lo, hi)


@handler("clamp_min")
def h_clamp_min(rout, func, args, kwargs):
    return _clamp(ids_of(args[0]), args[1], None)


@handler("clamp_max")
def h_clamp_max(rout, func, args, kwargs):
    return _clamp(ids_of(args[0]), None, args[1])


@handler("maximum", "fmax")
def h_max2(rout, func, args, kwargs):
    return ew(rout, lambda x, y: T.ite(T.gt(y, x), y, x), args[0], args[1])


@handler("minimum", "fmin")
def h_min2(rout, func, args, kwargs):
    return ew(rout, lambda x, y: T.ite(T.gt(x, y), y, x), args[0], args[1])


def _cond_ids(c):
    ids = ids_of(c)
    if real(c).dtype != torch.bool if isinstance(c, torch.Tensor) else False:
        return _map1(ids, T.n2b)
    return ids


@handler("where")
def h_where(rout, func, args, kwargs):
    return ew(rout, T.ite, _plain_ids(_cond_ids(args[0])), args[1], args[2])


class _Ids:
    pass


def _plain_ids(ids):
    # ids tensor passed through ids_of(): mark as symbolic by wrapping with a dummy shadow
    return SymTensor(ids, torch.zeros(ids.shape, dtype=torch.bool))


@handler("masked_fill")
def h_mfill(rout, func, args, kwargs):
    return ew(rout, lambda x, m, v: T.ite(m, v, x), args[0], args[1], args[2])


@handler("masked_scatter")
def h_mscat(rout, func, args, kwargs):
    raise Unsupported("masked_scatter")


def cmp(f):
    def h(rout, func, args, kwargs):
        return ew(rout, f, args[0], args[1])

    return h


HANDLERS["gt"] = HANDLERS["greater"] = cmp(lambda a, b: T.gt(a, b))
HANDLERS["lt"] = HANDLERS["less"] = cmp(lambda a, b: T.gt(b, a))
HANDLERS["ge"] = cmp(lambda a, b: T.ge(a, b))
HANDLERS["le"] = cmp(lambda a, b: T.ge(b, a))


def _eqg(a, b):
    if T.is_bool(a) and T.is_bool(b) and (T.kind[a] >= T.GT or T.kind[b] >= T.GT):
        return T.bite(a, b, T.not_(b))
    return T.eq(a, b)


HANDLERS["eq"] = cmp(_eqg)
HANDLERS["ne"] = cmp(lambda a, b: T.not_(_eqg(a, b)))


def _nb(i):
    return i if T.is_bool(i) else T.n2b(i)


HANDLERS["logical_and"] = HANDLERS["bitwise_and"] = HANDLERS["__and__"] = cmp(lambda a, b: T.and_([_nb(a), _nb(b)]))
HANDLERS["logical_or"] = HANDLERS["bitwise_or"] = HANDLERS["__or__"] = cmp(lambda a, b: T.or_([_nb(a), _nb(b)]))
HANDLERS["logical_xor"] = HANDLERS["bitwise_xor"] = cmp(lambda a, b: T.bite(_nb(a), T.not_(_nb(b)), _nb(b)))


@handler("logical_not", "bitwise_not")
def h_not(rout, func, args, kwargs):
    return _map1(ids_of(args[0]), lambda i: T.not_(_nb(i)))


@handler("nan_to_num")
def h_n2n(rout, func, args, kwargs):
    if ST.ext:
        from . import extended as X

        g = lambda k, key, d: num_id(float(args[k] if len(args) > k and args[k] is not None else kwargs.get(key) if kwargs.get(key) is not None else d))
        m = {"nan": g(1, "nan", 0.0), "inf": g(2, "posinf", 3.4028234e38), "-inf": g(3, "neginf", -3.4028234e38)}
        return _map1(ids_of(args[0]), lambda i: m.get(X.sp(i), i))
    return ids_of(args[0]).clone()


@handler("heaviside")
def h_heav(rout, func, args, kwargs):
    return ew(rout, lambda x, v: T.ite(T.gt(x, 0), 1, T.ite(T.eq(x, 0), v, 0)), args[0], args[1])


@handler("addcmul")
def h_addcmul(rout, func, args, kwargs):
    v = int(ids_of(kwargs.get("value", 1)))
    return ew(rout, lambda a, b, c: T.add(a, T.mul(v, T.mul(b, c))), *args[:3])


@handler("addcdiv")
def h_addcdiv(rout, func, args, kwargs):
    v = int(ids_of(kwargs.get("value", 1)))
    return ew(rout, lambda a, b, c: T.add(a, T.mul(v, tdiv(b, c))), *args[:3])


@handler("lerp")
def h_lerp(rout, func, args, kwargs):
    return ew(rout, lambda a, b, w: T.add(a, T.mul(w, T.sub(b, a))), *args[:3])


@handler("constant_pad_nd")
def h_cpad(rout, func, args, kwargs):
    v = args[2] if len(args) > 2 else kwargs.get("value", 0)
    return torch.constant_pad_nd(ids_of(args[0]), args[1], int(ids_of(v)))


@handler("fill")
def h_fill(rout, func, args, kwargs):
    return ids_of(args[1]).expand(args[0].shape).clone()


# ------------------------------------------------------------------------------------------------ contractions
def _mm(A, B):
    """A: list of rows, B: list of columns"""
    return [[T.dot(r, c) for c in B] for r in A]


@handler("mm")
def h_mm(rout, func, args, kwargs):
    A, B = ids_of(args[0]).tolist(), ids_of(args[1]).t().tolist()
    return mk(_mm(A, B), rout.shape)


@handler("bmm")
def h_bmm(rout, func, args, kwargs):
    A, B = ids_of(args[0]).tolist(), ids_of(args[1]).transpose(1, 2).tolist()
    return mk([_mm(a, b) for a, b in zip(A, B)], rout.shape)


@handler("mv")
def h_mv(rout, func, args, kwargs):
    A, v = ids_of(args[0]).tolist(), ids_of(args[1]).tolist()
    return mk([T.dot(r, v) for r in A], rout.shape)


@handler("dot", "vdot")
def h_dot(rout, func, args, kwargs):
    return mk(T.dot(ids_of(args[0]).tolist(), ids_of(args[1]).tolist()), ())


@handler("addmm", "addmv", "baddbmm", "addbmm")
def h_addmm(rout, func, args, kwargs):
    n = func.overloadpacket.__name__.rstrip("_")
    beta, alpha = int(ids_of(kwargs.get("beta", 1))), int(ids_of(kwargs.get("alpha", 1)))
    f = {"addmm": h_mm, "addmv": h_mv, "baddbmm": h_bmm}.get(n)
    if n == "addbmm":
        A, B = ids_of(args[1]).tolist(), ids_of(args[2]).transpose(1, 2).tolist()
        parts = [_mm(a, b) for a, b in zip(A, B)]
        p = mk(
            [[T.addn([q[i][j] for q in parts]) for j in range(len(parts[0][0]))] for i in range(len(parts[0]))],
            rout.shape,
        )
    else:
        p = f(rout, func, args[1:], kwargs)
    s = ids_of(args[0])
    s, p = torch.broadcast_tensors(s, p)
    return mk(
        [T.add(T.mul(beta, x), T.mul(alpha, y)) for x, y in zip(s.reshape(-1).tolist(), p.reshape(-1).tolist())],
        rout.shape,
    )


# ------------------------------------------------------------------------------------------------ reductions
def _dims(t, dim):
    n = t.dim()
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return list(range(n))
    if isinstance(dim, int):
        dim = [dim]
    return [d % n if n else 0 for d in dim]


def _groups(ids, dims):
    """list of element lists over the reduced dims, in row-major order of kept dims, and kept shape"""
    if ids.dim() == 0:
        return [[int(ids)]], ()
    keep = [d for d in range(ids.dim()) if d not in dims]
    p = ids.permute(keep + dims)
    ks = [ids.shape[d] for d in keep]
    n = 1
    for d in dims:
        n *= ids.shape[d]
    m = 1
    for k in ks:
        m *= k
    return p.reshape(m, n).tolist(), ks


def reduce(rout, args, kwargs, f, dimkey="dim", pos=1):
    t = args[0]
    dim = args[pos] if len(args) > pos else kwargs.get(dimkey)
    ids = ids_of(t)
    g, _ = _groups(ids, _dims(ids, dim))
    return mk([f(x) for x in g], rout.shape)


def _num(i):
    return T.b2n(i) if T.kind[i] >= T.GT else i


@handler("sum")
def h_sum(rout, func, args, kwargs):
    ids = ids_of(args[0])
    if args[0].dtype.is_floating_point and kwargs.get("dtype") is not None:
        src = _cast_ids(ids, args[0].dtype, kwargs["dtype"])
        args = (SymTensor(src, real(args[0])),) + tuple(args[1:])
    return reduce(rout, args, kwargs, lambda x: T.addn([_num(i) for i in x]))


@handler("mean")
def h_mean(rout, func, args, kwargs):
    return reduce(rout, args, kwargs, lambda x: T.scale(T.addn(x), Fraction(1, len(x))))


def _prod(x):
    r = 1
    for i in x:
        r = T.mul(r, i)
    return r


@handler("prod")
def h_prod(rout, func, args, kwargs):
    return reduce(rout, args, kwargs, _prod)


def _max(x):
    return T_select_max(x)[0]


def argmax_conds(x):
    """conditions 'position k holds the first maximum' for k = 0..n-2 (the last is the rest)"""
    return [
        T.and_([T.gt(x[k], x[j]) for j in range(k)] + [T.ge(x[k], x[j]) for j in range(k + 1, len(x))])
        for k in range(len(x))
    ]


def T_select_max(x, leaves=None):
    leaves = leaves if leaves is not None else list(range(len(x)))
    if len(x) == 1:
        return x[0], T.const(leaves[0])
    c = argmax_conds(x)
    v, i = x[-1], T.const(leaves[-1])
    for k in range(len(x) - 2, -1, -1):
        v = T.ite(c[k], x[k], v)
        i = T.ite(c[k], T.const(leaves[k]), i)
    return v, i


@handler("amax")
def h_amax(rout, func, args, kwargs):
    return reduce(rout, args, kwargs, _max)


@handler("amin")
def h_amin(rout, func, args, kwargs):
    return reduce(rout, args, kwargs, lambda x: T.neg(_max([T.neg(i) for i in x])))


@handler("max", "min")
def h_max(rout, func, args, kwargs):
    mn = func.overloadpacket.__name__ == "min"
    s = T.neg if mn else (lambda i: i)
    if len(args) > 1 and isinstance(args[1], torch.Tensor):
        return (h_min2 if mn else h_max2)(rout, func, args, kwargs)
    ids = ids_of(args[0])
    dim = args[1] if len(args) > 1 else kwargs.get("dim")
    g, _ = _groups(ids, _dims(ids, dim))
    r = [T_select_max([s(i) for i in x]) for x in g]
    if dim is None:
        return mk([s(a) for a, _ in r], rout.shape)
    return (mk([s(a) for a, _ in r], rout[0].shape), mk([b for _, b in r], rout[1].shape))


@handler("argmax", "argmin")
def h_argmax(rout, func, args, kwargs):
    s = T.neg if func.overloadpacket.__name__ == "argmin" else (lambda i: i)
    return reduce(rout, args, kwargs, lambda x: T_select_max([s(i) for i in x])[1])


@handler("any")
def h_any(rout, func, args, kwargs):
    return reduce(rout, args, kwargs, lambda x: T.or_([_nb(i) for i in x]))


@handler("all")
def h_all(rout, func, args, kwargs):
    return reduce(rout, args, kwargs, lambda x: T.and_([_nb(i) for i in x]))


@handler("logsumexp")
def h_lse(rout, func, args, kwargs):
    if ST.ext:
        from . import extended as X

        return reduce(rout, args, kwargs, X.k_lse)
    return reduce(rout, args, kwargs, lambda x: T.fn("log", T.addn([T.fn("exp", i) for i in x])))


@handler("logaddexp")
def h_lae(rout, func, args, kwargs):
    if ST.ext:
        from . import extended as X

        return ew(rout, lambda a, b: X.k_lse([a, b]), args[0], args[1])
    return ew(rout, lambda a, b: T.fn("log", T.add(T.fn("exp", a), T.fn("exp", b))), args[0], args[1])


def _softmax(rout, args, log):
    ids = ids_of(args[0])
    d = _dims(ids, args[1])
    if ids.dim() == 0:
        return mk([0 if log else 1], ())
    moved = ids.movedim(d[0], -1)
    shp = moved.shape
    out = []
    for row in moved.reshape(-1, shp[-1]).tolist():
        if ST.ext:
            from . import extended as X

            out.append(X.k_softmax(row, log))
            continue
        e = [T.fn("exp", i) for i in row]
        s = T.addn(e)
        if log:
            ls = T.fn("log", s)
            out.append([T.sub(i, ls) for i in row])
        else:
            out.append([T.div(i, s) for i in e])
    return mk(out, shp).movedim(-1, d[0])


@handler("_softmax", "softmax")
def h_softmax(rout, func, args, kwargs):
    return _softmax(rout, args, False)


@handler("_log_softmax", "log_softmax")
def h_logsoftmax(rout, func, args, kwargs):
    return _softmax(rout, args, True)


@handler("linalg_vector_norm")
def h_vnorm(rout, func, args, kwargs):
    o = args[1] if len(args) > 1 else kwargs.get("ord", 2)
    dim = args[2] if len(args) > 2 else kwargs.get("dim")
    ids = ids_of(args[0])
    g, _ = _groups(ids, _dims(ids, dim))
    if o == 2:
        f = lambda x: T.fn("sqrt", T.dot(x, x))
    elif o == 1:
        f = lambda x: T.addn([T.abs_(i) for i in x])
    elif o == math.inf:
        f = lambda x: _max([T.abs_(i) for i in x])
    elif o == 0:
        f = lambda x: T.addn([T.b2n(T.n2b(i)) for i in x])
    else:
        raise Unsupported("norm %r" % o)
    return mk([f(x) for x in g], rout.shape)


@handler("cumsum")
def h_cumsum(rout, func, args, kwargs):
    ids = ids_of(args[0])
    d = _dims(ids, args[1])[0]
    m = ids.movedim(d, -1)
    out = []
    for row in m.reshape(-1, m.shape[-1]).tolist():
        s = 0
        o = []
        for i in row:
            s = T.add(s, i)
            o.append(s)
        out.append(o)
    return mk(out, m.shape).movedim(-1, d)


@handler("trace")
def h_trace(rout, func, args, kwargs):
    return mk(T.addn(torch.diagonal(ids_of(args[0])).tolist()), ())


@handler("var", "std")
def h_var(rout, func, args, kwargs):
    corr = kwargs.get("correction", 1)
    if corr is None:
        corr = 1

    def f(x):
        m = T.scale(T.addn(x), Fraction(1, len(x)))
        d = [T.sub(i, m) for i in x]
        v = T.scale(T.dot(d, d), Fraction(1, len(x) - int(corr)))
        return T.fn("sqrt", v) if func.overloadpacket.__name__ == "std" else v

    return reduce(rout, args, kwargs, f)


# ------------------------------------------------------------------------------------------------ indexing
def _strides(shape):
    s = []
    a = 1
    for n in reversed(shape):
        s.append(a)
        a *= n
    return list(reversed(s))


def _index_plan(shape, indices):
    """advanced indexing: yields for every output position the flat base offset and the index-tensor positions"""
    indices = list(indices) + [None] * (len(shape) - len(indices))
    dims = [d for d, i in enumerate(indices) if i is not None]
    tens = torch.broadcast_tensors(*[ids_of(indices[d]) for d in dims])
    bs = list(tens[0].shape)
    adj = all(b == a + 1 for a, b in zip(dims, dims[1:]))
    rest = [d for d in range(len(shape)) if d not in dims]
    st = _strides(shape)
    if adj:
        pre = [d for d in rest if d < dims[0]]
        post = [d for d in rest if d > dims[0]]
    else:
        pre, post = [], rest
    oshape = [shape[d] for d in pre] + bs + [shape[d] for d in post]
    flat = [t.reshape(-1).tolist() for t in tens]
    return dims, flat, pre, post, bs, st, oshape


def _expand_bool(indices):
    out = []
    for i in indices:
        if isinstance(i, torch.Tensor) and real(i).dtype in (torch.bool, torch.uint8):
            if isinstance(i, SymTensor):
                conds = i.ids.reshape(-1).tolist()
                i = torch.tensor([ST.path.fork(c) if T.kind[c] != T.C else bool(T.data[c]) for c in conds]).reshape(
                    i.shape
                )
            out.extend(i.nonzero(as_tuple=True))
        else:
            out.append(i)
    return out


def _positions(shape, indices):
    """[(output position order)] -> list of [(flat base position, condition)], and the output shape"""
    dims, flat, pre, post, bs, st, oshape = _index_plan(shape, indices)
    nb = 1
    for n in bs:
        nb *= n
    res = []
    for p in itertools.product(*[range(shape[d]) for d in pre]):
        off0 = sum(i * st[d] for i, d in zip(p, pre))
        for k in range(nb):
            alts = [(0, T.TRUE)]
            for d, f in zip(dims, flat):
                nxt = []
                for v, c in leafconds(f[k]):
                    if v < 0:
                        v += shape[d]
                    if not (0 <= v < shape[d]):
                        raise IndexError("index %d is out of bounds for dimension with size %d" % (v, shape[d]))
                    for o, cc in alts:
                        c2 = T.and_([cc, c])
                        if c2 != 0:
                            nxt.append((o + v * st[d], c2))
                alts = nxt
            for q in itertools.product(*[range(shape[d]) for d in post]):
                off1 = sum(i * st[d] for i, d in zip(q, post))
                res.append([(off0 + o + off1, c) for o, c in alts])
    return res, oshape


def _pick(base, alts):
    r = base[alts[-1][0]]
    for o, c in reversed(alts[:-1]):
        r = T.ite(c, base[o], r)
    return r


@special("index")
def s_index(func, args, kwargs):
    t, indices = args
    indices = _expand_bool(indices)
    rout = func(real(t), [real(i) if i is not None else None for i in indices])
    ids = ids_of(t)
    if not any(isinstance(i, SymTensor) for i in indices):
        return _pair_move(func(ids, indices), rout)
    pos, oshape = _positions(list(ids.shape), indices)
    base = ids.reshape(-1).tolist()
    return wrap(mk([_pick(base, a) for a in pos], oshape), rout)


def _index_put_ids(ids, indices, values, accumulate):
    pos, oshape = _positions(list(ids.shape), indices)
    base = ids.reshape(-1).tolist()
    vals = ids_of(values).expand(oshape).reshape(-1).tolist()
    for alts, v in zip(pos, vals):
        for o, c in alts:
            new = T.add(base[o], v) if accumulate else v
            base[o] = T.ite(c, new, base[o])
    return mk(base, ids.shape)


@special("index_put_", "index_put", "_index_put_impl_", "_unsafe_index_put")
def s_index_put(func, args, kwargs):
    t, indices, values = args[:3]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    name = func.overloadpacket.__name__
    inplace = name.endswith("_")
    if not isinstance(t, SymTensor):
        if inplace:
            raise Unsupported("symbolic write into a tensor created outside the symbolic run")
        t = lift(t)
    masks = [i for i in indices if isinstance(i, SymTensor) and i.dtype == torch.bool]
    if masks and len(indices) == 1 and real(values).numel() == 1 and masks[0].dim() <= t.dim() and not acc:
        m = masks[0].ids
        m = m.reshape(list(m.shape) + [1] * (t.dim() - m.dim()))
        rsh = t.shadow.clone()
        func(rsh, [real(i) for i in indices], real(values))
        new = ew(None, lambda x, c, v: T.ite(c, v, x), t, _plain_ids(m), values)
    else:
        indices = _expand_bool(indices)
        rsh = t.shadow.clone()
        torch.ops.aten.index_put_(rsh, [real(i) if i is not None else None for i in indices], real(values), acc)
        if real(values).dtype != t.dtype:
            pass  # the real call above raises on dtype mismatch
        new = _index_put_ids(t.ids, indices, values, acc)
    if inplace:
        t.shadow.copy_(rsh)
        t.ids.copy_(new)
        return t
    return wrap(new, rsh)


def _gather_pos(shape, dim, index):
    st = _strides(shape)
    ids = ids_of(index)
    fl = ids.reshape(-1).tolist()
    out = []
    for k, p in enumerate(itertools.product(*[range(n) for n in ids.shape])):
        alts = []
        for v, c in leafconds(fl[k]):
            if not (0 <= v < shape[dim]):
                raise RuntimeError("index %d is out of bounds for dimension %d with size %d" % (v, dim, shape[dim]))
            o = sum((v if d == dim else i) * st[d] for d, i in enumerate(p))
            alts.append((o, c))
        out.append(alts)
    return out


@special("gather")
def s_gather(func, args, kwargs):
    t, dim, index = args[:3]
    rout = func(real(t), dim, real(index))
    ids = ids_of(t)
    base = ids.reshape(-1).tolist()
    pos = _gather_pos(list(ids.shape), dim % max(ids.dim(), 1), index)
    return wrap(mk([_pick(base, a) for a in pos], rout.shape), rout)


def _scatter(func, args, kwargs, mode):
    t, dim, index, src = args[:4]
    inplace = func.overloadpacket.__name__.endswith("_")
    red = kwargs.get("reduce", args[4] if len(args) > 4 else None)
    if mode is None and red is not None:
        mode = {"sum": "add", "add": "add", "multiply": "mul", "prod": "mul"}.get(red)
        if mode is None or kwargs.get("include_self", True) is False:
            raise Unsupported("scatter reduce " + str(red))
    if not isinstance(t, SymTensor):
        if inplace:
            raise Unsupported("symbolic write into a tensor created outside the symbolic run")
        t = lift(t)
    rsh = t.shadow.clone()
    rs = func(rsh, dim, real(index), real(src), *args[4:], **kwargs)
    if not inplace:
        rsh = rs
    base = t.ids.reshape(-1).tolist()
    pos = _gather_pos(list(t.shape), dim % max(t.dim(), 1), index)
    ix = ids_of(index)
    if isinstance(src, torch.Tensor) and src.dim() > 0:
        s = ids_of(src)[tuple(slice(0, n) for n in ix.shape)].reshape(-1).tolist()
    else:
        s = [int(ids_of(src))] * len(pos)
    for alts, v in zip(pos, s):
        for o, c in alts:
            new = {"add": lambda: T.add(base[o], v), "mul": lambda: T.mul(base[o], v), None: lambda: v}[mode]()
            base[o] = T.ite(c, new, base[o])
    new = mk(base, t.shape)
    if inplace:
        t.shadow.copy_(rsh)
        t.ids.copy_(new)
        return t
    return wrap(new, rsh)


@special("scatter", "scatter_")
def s_scatter(func, args, kwargs):
    return _scatter(func, args, kwargs, None)


@special("scatter_add", "scatter_add_")
def s_scatter_add(func, args, kwargs):
    return _scatter(func, args, kwargs, "add")


@special("scatter_reduce", "scatter_reduce_")
def s_scatter_reduce(func, args, kwargs):
    t, dim, index, src, red = args[:5]
    if red != "sum":
        raise Unsupported("scatter_reduce " + red)
    return _scatter(func, args, kwargs, None)


@special("index_select")
def s_index_select(func, args, kwargs):
    t, dim, index = args
    rout = func(real(t), dim, real(index))
    ids = ids_of(t)
    if not isinstance(index, SymTensor):
        return wrap(torch.index_select(ids, dim, index), rout)
    d = dim % ids.dim()
    idx = [None] * d + [index]
    pos, oshape = _positions(list(ids.shape), idx)
    base = ids.reshape(-1).tolist()
    return wrap(mk([_pick(base, a) for a in pos], oshape), rout)


@special("index_add", "index_add_")
def s_index_add(func, args, kwargs):
    t, dim, index, src = args[:4]
    al = int(ids_of(kwargs.get("alpha", 1)))
    inplace = func.overloadpacket.__name__.endswith("_")
    if not isinstance(t, SymTensor):
        if inplace:
            raise Unsupported("symbolic write into a tensor created outside the symbolic run")
        t = lift(t)
    rsh = t.shadow.clone()
    rs = func(rsh, dim, real(index), real(src), **kwargs)
    d = dim % t.dim()
    s = _map1(ids_of(src), lambda i: T.mul(al, i))
    new = _index_put_ids(t.ids, [None] * d + [index], _plain_ids(s), True)
    if inplace:
        t.shadow.copy_(rsh)
        t.ids.copy_(new)
        return t
    return wrap(new, rs)


@special("one_hot")
def s_one_hot(func, args, kwargs):
    t, n = args[0], args[1] if len(args) > 1 else kwargs.get("num_classes", -1)
    if n < 0:
        raise Unsupported("one_hot without num_classes")
    rout = func(real(t), n)
    out = []
    for i in t.ids.reshape(-1).tolist():
        out.append([T.b2n(T.eq(i, T.const(k))) for k in range(n)])
    return wrap(mk(out, rout.shape), rout)


# ------------------------------------------------------------------------------------------------ convolution
def _pair2(v, n=2):
    v = list(v) if isinstance(v, (list, tuple)) else [v]
    return v * n if len(v) == 1 else v


@functools.lru_cache(maxsize=256)
def conv_taps(ish, wsh, osh, stride, padding, dilation, transposed, groups):
    """triples (out, in, weight) of flat positions with out += in * weight"""
    n = len(ish) - 2
    ist, wst, ost = _strides(ish), _strides(wsh), _strides(osh)
    taps = []
    B = ish[0]
    if not transposed:
        co, cig = wsh[0], wsh[1]
        cog = co // groups
        for b in range(B):
            for o in range(co):
                g = o // cog
                for pos in itertools.product(*[range(s) for s in osh[2:]]):
                    ob = b * ost[0] + o * ost[1] + sum(p * s for p, s in zip(pos, ost[2:]))
                    for k in itertools.product(*[range(s) for s in wsh[2:]]):
                        q = [pos[d] * stride[d] - padding[d] + k[d] * dilation[d] for d in range(n)]
                        if any(x < 0 or x >= s for x, s in zip(q, ish[2:])):
                            continue
                        for c in range(cig):
                            i = b * ist[0] + (g * cig + c) * ist[1] + sum(x * s for x, s in zip(q, ist[2:]))
                            w = o * wst[0] + c * wst[1] + sum(x * s for x, s in zip(k, wst[2:]))
                            taps.append((ob, i, w))
    else:
        ci, cog = wsh[0], wsh[1]
        cig = ci // groups
        for b in range(B):
            for c in range(ci):
                g = c // cig
                for pos in itertools.product(*[range(s) for s in ish[2:]]):
                    i = b * ist[0] + c * ist[1] + sum(p * s for p, s in zip(pos, ist[2:]))
                    for k in itertools.product(*[range(s) for s in wsh[2:]]):
                        q = [pos[d] * stride[d] - padding[d] + k[d] * dilation[d] for d in range(n)]
                        if any(x < 0 or x >= s for x, s in zip(q, osh[2:])):
                            continue
                        for o in range(cog):
                            ob = b * ost[0] + (g * cog + o) * ost[1] + sum(x * s for x, s in zip(q, ost[2:]))
                            w = c * wst[0] + o * wst[1] + sum(x * s for x, s in zip(k, wst[2:]))
                            taps.append((ob, i, w))
    return taps


def _accumulate(n, trips, A, B):
    la = [[] for _ in range(n)]
    lb = [[] for _ in range(n)]
    for o, i, j in trips:
        a, b = A[i], B[j]
        if a and b:
            la[o].append(a)
            lb[o].append(b)
    return [T.dot(x, y) for x, y in zip(la, lb)]


@handler("convolution", "_convolution")
def h_conv(rout, func, args, kwargs):
    inp, w, bias, stride, padding, dilation, transposed, opad, groups = args[:9]
    n = inp.dim() - 2
    taps = conv_taps(
        tuple(inp.shape), tuple(w.shape), tuple(rout.shape), tuple(_pair2(stride, n)), tuple(_pair2(padding, n)),
        tuple(_pair2(dilation, n)), bool(transposed), groups,
    )
    A, W = ids_of(inp).reshape(-1).tolist(), ids_of(w).reshape(-1).tolist()
    out = _accumulate(rout.numel(), taps, A, W)
    if bias is not None:
        bl = ids_of(bias).reshape(-1).tolist()
        sp = 1
        for s in rout.shape[2:]:
            sp *= s
        c = rout.shape[1]
        out = [T.add(v, bl[(k // sp) % c]) for k, v in enumerate(out)]
    return mk(out, rout.shape)


@handler("convolution_backward")
def h_convb(rout, func, args, kwargs):
    g, inp, w, bsz, stride, padding, dilation, transposed, opad, groups, mask = args
    n = inp.dim() - 2
    taps = conv_taps(
        tuple(inp.shape), tuple(w.shape), tuple(g.shape), tuple(_pair2(stride, n)), tuple(_pair2(padding, n)),
        tuple(_pair2(dilation, n)), bool(transposed), groups,
    )
    G, A, W = (ids_of(t).reshape(-1).tolist() for t in (g, inp, w))
    gi = gw = gb = None
    if mask[0]:
        gi = mk(_accumulate(inp.numel(), [(i, o, k) for o, i, k in taps], G, W), inp.shape)
    if mask[1]:
        gw = mk(_accumulate(w.numel(), [(k, o, i) for o, i, k in taps], G, A), w.shape)
    if mask[2]:
        gb = _map_sum_bias(g)
    return (gi, gw, gb)


def _map_sum_bias(g):
    ids = ids_of(g)
    dims = [d for d in range(ids.dim()) if d != 1]
    gr, ks = _groups(ids, dims)
    return mk([T.addn(x) for x in gr], ks)


# ------------------------------------------------------------------------------------------------ pooling
def _pool_windows(hw, ohw, k, s, p, d):
    H, W = hw
    for oh in range(ohw[0]):
        for ow in range(ohw[1]):
            win = []
            for a in range(k[0]):
                for b in range(k[1]):
                    y, x = oh * s[0] - p[0] + a * d[0], ow * s[1] - p[1] + b * d[1]
                    if 0 <= y < H and 0 <= x < W:
                        win.append(y * W + x)
            yield win


@handler("max_pool2d_with_indices")
def h_maxpool(rout, func, args, kwargs):
    t = args[0]
    k = _pair2(args[1])
    s = _pair2(args[2]) if len(args) > 2 and len(_pair2(args[2])) and args[2] else k
    p = _pair2(args[3]) if len(args) > 3 else [0, 0]
    d = _pair2(args[4]) if len(args) > 4 else [1, 1]
    val, idx = rout
    H, W = t.shape[-2:]
    planes = ids_of(t).reshape(-1, H * W).tolist()
    vo, io = [], []
    wins = list(_pool_windows((H, W), val.shape[-2:], k, s, p, d))
    for pl in planes:
        for win in wins:
            v, i = T_select_max([pl[q] for q in win], win)
            vo.append(v)
            io.append(i)
    return (mk(vo, val.shape), mk(io, idx.shape))


@handler("max_pool2d_with_indices_backward")
def h_maxpoolb(rout, func, args, kwargs):
    g, t = args[0], args[1]
    idx = args[-1] if len(args) >= 8 else kwargs["indices"]
    H, W = t.shape[-2:]
    n = ids_of(t).reshape(-1, H * W).shape[0]
    gl = ids_of(g).reshape(n, -1).tolist()
    il = ids_of(idx).reshape(n, -1).tolist()
    out = []
    for gr, ir in zip(gl, il):
        acc = [[] for _ in range(H * W)]
        for gv, iv in zip(gr, ir):
            for v, c in leafconds(iv):
                acc[v].append(T.ite(c, gv, 0))
        out.append([T.addn(a) for a in acc])
    return mk(out, rout.shape)


@special("max_unpool2d")
def s_unpool(func, args, kwargs):
    t, idx, osz = args
    rout = func(real(t), real(idx), osz)
    n = ids_of(t).reshape(-1, t.shape[-1] * t.shape[-2]).shape[0]
    tl = ids_of(t).reshape(n, -1).tolist()
    il = ids_of(idx).reshape(n, -1).tolist()
    out = []
    for tr, ir in zip(tl, il):
        acc = [0] * (osz[0] * osz[1])
        for tv, iv in zip(tr, ir):
            for v, c in leafconds(iv):
                acc[v] = T.ite(c, tv, acc[v])
        out.append(acc)
    return wrap(mk(out, rout.shape), rout)


@handler("avg_pool2d")
def h_avgpool(rout, func, args, kwargs):
    t = args[0]
    k = _pair2(args[1])
    s = _pair2(args[2]) if len(args) > 2 and args[2] else k
    p = _pair2(args[3]) if len(args) > 3 else [0, 0]
    cip = args[5] if len(args) > 5 else True
    dv = args[6] if len(args) > 6 else None
    if any(p) and not cip:
        raise Unsupported("avg_pool2d padding")
    H, W = t.shape[-2:]
    out = []
    for pl in ids_of(t).reshape(-1, H * W).tolist():
        for win in _pool_windows((H, W), rout.shape[-2:], k, s, p, [1, 1]):
            out.append(T.scale(T.addn([pl[q] for q in win]), Fraction(1, dv or k[0] * k[1])))
    return mk(out, rout.shape)


def _linear_map(func):
    """operators that are linear in their first tensor with fixed coefficients: coefficients from the real kernel"""

    def h(rout, func_, args, kwargs):
        t = args[0]
        n = t.numel()
        eye = torch.eye(n, dtype=torch.float64).reshape(n, *t.shape)
        cols = [func_(eye[i].reshape(t.shape), *tree_map(real, args[1:]), **kwargs).reshape(-1) for i in range(n)]
        M = torch.stack(cols, dim=1).tolist()
        ids = ids_of(t).reshape(-1).tolist()
        out = []
        for row in M:
            out.append(T.addn([T.mul(num_id(c, torch.float64), i) for c, i in zip(row, ids) if c]))
        return mk(out, rout.shape)

    return h


for _n in (
    "upsample_bilinear2d", "upsample_bicubic2d", "upsample_nearest2d_backward", "upsample_bilinear2d_backward",
    "col2im", "upsample_linear1d", "_upsample_nearest_exact2d_backward", "_adaptive_avg_pool2d",
    "avg_pool2d_backward", "unfold_backward", "upsample_bicubic2d_backward",
):
    HANDLERS[_n] = _linear_map(_n)


# ------------------------------------------------------------------------------------------------ linear algebra
def _chol(M):
    n = len(M)
    L = [[0] * n for _ in range(n)]
    for j in range(n):
        s = T.sub(M[j][j], T.dot(L[j][:j], L[j][:j]))
        L[j][j] = T.fn("sqrt", _canon(s))
        for i in range(j + 1, n):
            L[i][j] = _canon(T.div(T.sub(M[i][j], T.dot(L[i][:j], L[j][:j])), L[j][j]))
    return L


def _canon(a):
    return T.expand(a)


def _inv_lower(L):
    n = len(L)
    X = [[0] * n for _ in range(n)]
    for j in range(n):
        X[j][j] = T.div(1, L[j][j])
        for i in range(j + 1, n):
            s = T.dot(L[i][j:i], [X[k][j] for k in range(j, i)])
            X[i][j] = T.div(T.neg(s), L[i][i])
    return X


def _transp(M):
    return [list(r) for r in zip(*M)]


def _matmul(A, B):
    return _mm(A, _transp(B))


def _det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return T.addn(
        [
            T.scale(T.mul(M[0][j], _det([r[:j] + r[j + 1 :] for r in M[1:]])), (-1) ** j)
            for j in range(n)
            if M[0][j] != 0
        ]
    )


def _inv(M):
    n = len(M)
    d = _det(M)
    if n == 1:
        return [[T.div(1, d)]]
    return [
        [
            T.div(
                T.scale(_det([r[:i] + r[i + 1 :] for k, r in enumerate(M) if k != j]), (-1) ** (i + j)), d
            )
            for j in range(n)
        ]
        for i in range(n)
    ]


def _batch(ids):
    n, m = ids.shape[-2:]
    return ids.reshape(-1, n, m).tolist()


def _dense_t(M, upper):
    return _transp(M) if upper else M


@handler("linalg_cholesky_ex", "cholesky", "linalg_cholesky")
def h_chol(rout, func, args, kwargs):
    upper = kwargs.get("upper", args[1] if len(args) > 1 else False)
    r0 = rout[0] if isinstance(rout, tuple) else rout
    out = [_dense_t(_chol(m), upper) for m in _batch(ids_of(args[0]))]
    o = mk(out, r0.shape)
    return (o, ids_of(rout[1])) if isinstance(rout, tuple) else o


@handler("cholesky_inverse")
def h_cholinv(rout, func, args, kwargs):
    upper = kwargs.get("upper", args[1] if len(args) > 1 else False)
    out = []
    for m in _batch(ids_of(args[0])):
        L = _transp(m) if upper else m
        n = len(L)
        L = [[L[i][j] if j <= i else 0 for j in range(n)] for i in range(n)]
        X = _inv_lower(L)
        out.append(_matmul(_transp(X), X))
    return mk(out, rout.shape)


@handler("cholesky_solve")
def h_cholsolve(rout, func, args, kwargs):
    upper = kwargs.get("upper", args[2] if len(args) > 2 else False)
    B, Lt = ids_of(args[0]), ids_of(args[1])
    bsh = torch.broadcast_shapes(B.shape[:-2], Lt.shape[:-2])
    B, Lt = B.expand(*bsh, *B.shape[-2:]), Lt.expand(*bsh, *Lt.shape[-2:])
    out = []
    for bm, m in zip(_batch(B), _batch(Lt)):
        L = _transp(m) if upper else m
        n = len(L)
        L = [[L[i][j] if j <= i else 0 for j in range(n)] for i in range(n)]
        X = _inv_lower(L)
        out.append(_matmul(_matmul(_transp(X), X), bm))
    return mk(out, rout.shape)


@handler("linalg_inv_ex", "inverse", "linalg_inv")
def h_inv(rout, func, args, kwargs):
    r0 = rout[0] if isinstance(rout, tuple) else rout
    o = mk([_inv(m) for m in _batch(ids_of(args[0]))], r0.shape)
    return (o, ids_of(rout[1])) if isinstance(rout, tuple) else o


@handler("_linalg_solve_ex")
def h_solve(rout, func, args, kwargs):
    A, B = ids_of(args[0]), ids_of(args[1])
    vec = B.dim() == A.dim() - 1
    if vec:
        B = B.unsqueeze(-1)
    bsh = torch.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A, B = A.expand(*bsh, *A.shape[-2:]), B.expand(*bsh, *B.shape[-2:])
    out = [_matmul(_inv(a), b) for a, b in zip(_batch(A), _batch(B))]
    return (mk(out, rout[0].shape), ids_of(rout[1]), ids_of(rout[2]), ids_of(rout[3]))


@handler("linalg_solve_triangular")
def h_soltri(rout, func, args, kwargs):
    A, B = ids_of(args[0]), ids_of(args[1])
    upper, left, unit = kwargs["upper"], kwargs.get("left", True), kwargs.get("unitriangular", False)
    bsh = torch.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A, B = A.expand(*bsh, *A.shape[-2:]), B.expand(*bsh, *B.shape[-2:])
    out = []
    for a, b in zip(_batch(A), _batch(B)):
        n = len(a)
        if upper:
            a = [[a[i][j] if j >= i else 0 for j in range(n)] for i in range(n)]
            inv = _transp(_inv_lower(_transp(a)))
        else:
            a = [[a[i][j] if j <= i else 0 for j in range(n)] for i in range(n)]
            inv = _inv_lower(a)
        if unit:
            raise Unsupported("unitriangular")
        out.append(_matmul(inv, b) if left else _matmul(b, inv))
    return mk(out, rout.shape)


@handler("_linalg_det")
def h_det(rout, func, args, kwargs):
    raise Unsupported("det")


@special("linalg_pinv", "_linalg_svd", "_linalg_eigh", "linalg_eig", "linalg_qr", "linalg_lu_factor_ex", "linalg_lu")
def s_unsup(func, args, kwargs):
    raise Unsupported(str(func))


@handler("_euclidean_dist", "cdist", "_cdist_forward")
def h_cdist(rout, func, args, kwargs):
    raise Unsupported("cdist")


# ------------------------------------------------------------------------------------------------ building inputs
def sym(name, shape, dtype=torch.float32, values=None, requires_grad=False):
    """a tensor of fresh real variables name[i]"""
    n = 1
    for s in shape:
        n *= s
    lst = []
    for k in range(n):
        v = None if values is None else values[k]
        lst.append(new_var("%s[%d]" % (name, k), v))
    sh = torch.tensor([ST.env[i] for i in lst], dtype=dtype).reshape(shape)
    return SymTensor(mk(lst, shape), sh, requires_grad=requires_grad)


def symbolize_module(mod, prefix="w"):
    """replace every parameter of the module tree by a tensor of fresh variables (shared ones stay shared)"""
    seen = {}
    n = 0
    for m in mod.modules():
        for k, p in list(m._parameters.items()):
            if p is None:
                continue
            if id(p) not in seen:
                s = sym("%s%d" % (prefix, n), tuple(p.shape), p.dtype)
                n += 1
                q = torch.nn.Parameter(s, requires_grad=p.requires_grad)
                q.ids, q.shadow = q.ids, q.shadow
                seen[id(p)] = q
            m._parameters[k] = seen[id(p)]
    return mod


def term_tensor(ids_nested, dtype=torch.float32):
    """a SymTensor from nested lists of ids, shadow evaluated from the terms"""
    ids = torch.tensor(ids_nested, dtype=torch.int64)
    vals = T.evaluate(ids.reshape(-1).tolist(), ST.env)
    return SymTensor(ids, torch.tensor([float(v) for v in vals], dtype=dtype).reshape(ids.shape))
