"""Single-precision range semantics for the terms (property C21).

Values are reals below the overflow threshold, or one of INF, NINF, NAN.  Which of these a scalar is, is always
decided along a path: an operation that may overflow, underflow to zero, divide by zero or leave a function's domain
forks the path on exactly that condition (z3 decides which sides exist for inputs within the stated magnitude).
On each path the finite scalars are ordinary terms.  Saturation that matters for NaNs is included (sigmoid and tanh
become exactly 0 / 1); rounding of ordinary results is not.
"""
import contextlib
import math
from fractions import Fraction

from . import engine as E
from . import terms as T
from .engine import ST

MAX = Fraction(340282346638528859811704183484516925440)
TINY = Fraction(7, 10**46)
EXP_HI = Fraction("88.7228")
EXP_LO = Fraction("-103.972")
SIG_HI = Fraction("17.33")
SIG_LO = Fraction("-88.7228")
TANH = Fraction("9.02")
DEFAULT = 1e4
MAXF = 3.4028234e38

O = {}  # the original operations
_busy = [False]
VB = {}  # variable id -> (lower bound of |v|, upper bound of |v|)


def INF():
    return T._mk(T.V, "INF!")


def NINF():
    return T._mk(T.V, "NINF!")


def NAN():
    return T._mk(T.V, "NAN!")


def special(a):
    return T.kind[a] == T.V and T.data[a] in ("INF!", "NINF!", "NAN!")


def sp(a):
    """'inf' '-inf' 'nan' or ''"""
    if T.kind[a] != T.V:
        return ""
    return {"INF!": "inf", "NINF!": "-inf", "NAN!": "nan"}.get(T.data[a], "")


def mkinf(sign):
    return INF() if sign > 0 else NINF()


# ---------------------------------------------------------------------------------------------- magnitude bounds
PB = {}  # bounds of |t| known on this path, from the operations that produced t: id -> [lower, upper]
_UB, _LB = {}, {}


def reset_path():
    PB.clear()
    _UB.clear()
    _LB.clear()


def know(t, lo=0.0, hi=math.inf):
    """record a bound of |t| valid on this path"""
    o = PB.get(t)
    PB[t] = (lo, hi) if o is None else (max(lo, o[0]), min(hi, o[1]))
    _UB.pop(t, None)
    _LB.pop(t, None)
    return t


def ub(a):
    r = _UB.get(a)
    if r is None:
        r = _ub(a)
        if a in PB:
            r = min(r, PB[a][1])
        _UB[a] = r
    return r


def _ub(a):
    k, d = T.kind[a], T.data[a]
    if k == T.C:
        return abs(float(d)) if abs(d) < MAX else math.inf
    if k == T.V:
        return VB.get(a, (0, DEFAULT))[1]
    if k == T.SUM:
        return abs(float(d[0])) + sum(abs(float(w)) * ub(t) for t, w in d[1])
    if k == T.PROD:
        r = 1.0
        for t, e in d:
            try:
                f = ub(t) ** e if e > 0 else (math.inf if lb(t) == 0 else (1 / lb(t)) ** (-e))
            except OverflowError:
                f = math.inf
            r = r * f if not (r == 0 or f == 0) else 0.0
        return r
    if k == T.FN:
        n, x = d[0], d[1]
        if n == "exp":
            return math.exp(min(ub(x), 88.72))
        if n in ("sigmoid", "tanh", "sin", "cos"):
            return 1.0
        if n == "log":
            lo = max(lb(x), float(TINY))
            hi = ub(x)
            return max(abs(math.log(lo)), abs(math.log(hi)) if 0 < hi < math.inf else 89.0)
        if n == "sqrt":
            return math.sqrt(ub(x)) if ub(x) < math.inf else math.inf
    return math.inf


def lb(a):
    """a lower bound of |a|"""
    r = _LB.get(a)
    if r is None:
        r = _lb(a)
        if a in PB:
            r = max(r, PB[a][0])
        _LB[a] = r
    return r


def _lb(a):
    k, d = T.kind[a], T.data[a]
    if k == T.C:
        return abs(float(d))
    if k == T.V:
        return VB.get(a, (0, DEFAULT))[0]
    if k == T.SUM:
        s = [w > 0 for t, w in d[1]]
        if all(T.is_nonneg(t) for t, w in d[1]) and (all(s) and d[0] >= 0 or not any(s) and d[0] <= 0):
            return abs(float(d[0])) + sum(abs(float(w)) * lb(t) for t, w in d[1])
        return 0.0
    if k == T.PROD:
        r = 1.0
        for t, e in d:
            r *= lb(t) ** e if e > 0 else (0.0 if ub(t) == math.inf else ub(t) ** e if ub(t) > 0 else 0.0)
        return r
    if k == T.FN:
        n, x = d[0], d[1]
        if n == "exp":
            return math.exp(-ub(x)) if ub(x) < 103 else float(TINY)
        if n == "sigmoid":
            return 2e-39
        if n == "sqrt":
            return math.sqrt(lb(x))
    return 0.0


# ---------------------------------------------------------------------------------------------- forks
def outer(f):
    """only outermost calls have range semantics; calls inside the term constructors are plain algebra"""

    def g(*a):
        if _busy[0]:
            return O[f.__name__](*a)
        return f(*a)

    g.__name__ = f.__name__
    return g


def plain(name, *a):
    _busy[0] = True
    try:
        return O[name](*a)
    finally:
        _busy[0] = False


def fork(c):
    if c in (0, 1):
        return bool(c)
    was, _busy[0] = _busy[0], True
    try:
        return ST.path.fork(c)
    finally:
        _busy[0] = was


def above(a, c):
    """a > constant c, decided on this path"""
    if ub(a) <= float(c) and c > 0:
        return False
    return fork(plain("gt", a, T.const(c)))


def below(a, c):
    if ub(a) <= float(-c) and c < 0:
        return False
    return fork(plain("gt", T.const(c), a))


def impossible(c, alone=False):
    """z3 refutes c on this path (alone: without the help of the path condition)"""
    if c in (0, 1):
        return c == 0
    was, _busy[0] = _busy[0], True
    try:
        return not ST.path.prover.feasible([c] if alone else ST.path.conds + [c])
    finally:
        _busy[0] = was


def fin(t, hi=math.inf, lo=0.0):
    """t with the operands' bounds; overflow decided on this path"""
    if T.kind[t] != T.C and (hi < math.inf or lo > 0):
        know(t, lo, hi)
    u = ub(t)
    if u > 1e12 and T.kind[t] == T.PROD and len(T.data[t]) <= 3 and any(e < 0 for _, e in T.data[t]):
        # a quotient: is its magnitude at most 1?
        if impossible(plain("gt", t, 1), True) and (T.is_nonneg(t) or impossible(plain("gt", T.const(-1), t), True)):
            know(t, 0.0, 1.0)
            u = 1.0
    if u <= MAXF:
        return t
    if not T.is_nonneg(plain("scale", t, -1)) and fork(plain("gt", t, T.const(MAX))):
        return INF()
    if not T.is_nonneg(t) and fork(plain("gt", T.const(-MAX), t)):
        return NINF()
    return t


def iszero(d):
    """underflows to zero or is zero"""
    if T.kind[d] == T.C:
        return abs(T.data[d]) < TINY
    if lb(d) >= float(TINY) * 0.999:
        return False
    return fork(T.and_([plain("gt", T.const(TINY), d), plain("gt", d, T.const(-TINY))]))


def sign(a):
    """1, 0 or -1 on this path"""
    s = sp(a)
    if s:
        return 1 if s == "inf" else -1
    if T.kind[a] == T.C:
        return (T.data[a] > 0) - (T.data[a] < 0)
    if T.is_pos(a):
        return 1
    if fork(plain("gt0", a)):
        return 1
    if T.is_nonneg(a):
        return 0
    return 0 if fork(plain("eq0", a)) else -1


def _times(u, v):
    return 0.0 if u == 0 or v == 0 else u * v


def _pow(u, n):
    try:
        return u**n
    except OverflowError:
        return math.inf


# ---------------------------------------------------------------------------------------------- operations
@outer
def addn(ids):
    ids = list(ids)
    ss = {sp(a) for a in ids} - {""}
    if not ss:
        return fin(plain("addn", ids), sum(ub(a) for a in ids), sum(lb(a) for a in ids) if all(T.is_nonneg(a) for a in ids) else 0.0)
    if "nan" in ss or len(ss) > 1:
        return NAN()
    return INF() if "inf" in ss else NINF()


@outer
def add(a, b):
    if special(a) or special(b):
        return addn([a, b])
    return fin(plain("add", a, b), ub(a) + ub(b), lb(a) + lb(b) if T.is_nonneg(a) and T.is_nonneg(b) else 0.0)


@outer
def scale(a, c):
    if special(a):
        return mul(a, T.const(c))
    return fin(plain("scale", a, c), ub(a) * abs(float(c)), lb(a) * abs(float(c)))


@outer
def neg(a):
    s = sp(a)
    if s:
        return {"nan": NAN, "inf": NINF, "-inf": INF}[s]()
    return know(plain("neg", a), lb(a), ub(a))


@outer
def sub(a, b):
    if special(a) or special(b):
        return addn([a, neg(b)])
    return fin(plain("sub", a, b), ub(a) + ub(b))


@outer
def mul(a, b):
    if special(a) or special(b):
        if "nan" in (sp(a), sp(b)):
            return NAN()
        s = sign(a) * sign(b)
        return NAN() if s == 0 else mkinf(s)
    return fin(plain("mul", a, b), _times(ub(a), ub(b)), lb(a) * lb(b))


@outer
def powi(a, n):
    if n == 0:
        return 1
    if n < 0:
        return recip(powi(a, -n))
    s = sp(a)
    if s == "nan":
        return a
    if s:
        return INF() if s == "inf" or n % 2 == 0 else NINF()
    return fin(plain("powi", a, n), _pow(ub(a), n), _pow(lb(a), n))


@outer
def recip(a):
    return div(1, a)


@outer
def div(a, b):
    if "nan" in (sp(a), sp(b)):
        return NAN()
    if special(b):
        return NAN() if special(a) else 0
    if iszero(b):
        if special(a):
            return a
        return NAN() if sign(a) == 0 or iszero(a) else mkinf(sign(a))
    if special(a):
        return mul(a, T.const(sign(b)))
    return fin(plain("div", a, b), _times(ub(a), 1 / lb(b) if lb(b) > 0 else math.inf), lb(a) / ub(b) if 0 < ub(b) < math.inf else 0.0)


@outer
def dot(la, lb_):
    la, lb_ = list(la), list(lb_)
    if any(special(a) for a in la) or any(special(b) for b in lb_):
        return addn([mul(a, b) for a, b in zip(la, lb_)])
    t = plain("dot", la, lb_)
    if ub(t) <= MAXF:
        return know(t, 0.0, sum(_times(ub(a), ub(b)) for a, b in zip(la, lb_)))
    return addn([mul(a, b) for a, b in zip(la, lb_)])


@outer
def fn(name, a):
    if name == "nan":
        return NAN()
    if name.startswith("round"):
        return a
    s = sp(a)
    if s == "nan":
        return a
    if name == "exp":
        if s:
            return INF() if s == "inf" else 0
        if above(a, EXP_HI):
            return INF()
        if below(a, EXP_LO):
            return 0
        t = plain("fn", name, a)
        hi = math.exp(min(ub(a), 88.72))
        if hi > 1e6 and impossible(plain("gt0", a)):
            hi = 1.0
        return know(t, math.exp(-ub(a)) if ub(a) < 103 else float(TINY), hi)
    if name == "sigmoid":
        if s:
            return 1 if s == "inf" else 0
        if above(a, SIG_HI):
            return 1
        if below(a, SIG_LO):
            return 0
        return know(plain("fn", name, a), 2e-39, 1.0)
    if name == "tanh":
        if s:
            return T.const(1 if s == "inf" else -1)
        if above(a, TANH):
            return 1
        if below(a, -TANH):
            return T.const(-1)
        return plain("fn", name, a)
    if name in ("sin", "cos"):
        return NAN() if s else plain("fn", name, a)
    if name == "log":
        if s:
            return INF() if s == "inf" else NAN()
        if iszero(a):
            return NINF()
        if not T.is_pos(a) and fork(plain("gt", 0, a)):
            return NAN()
        lo, hi = max(lb(a), float(TINY)), ub(a)
        return know(plain("fn", name, a), 0.0, max(abs(math.log(lo)), abs(math.log(hi)) if 0 < hi < math.inf else 89.0))
    if name == "sqrt":
        if s:
            return INF() if s == "inf" else NAN()
        if not T.is_nonneg(a) and fork(plain("gt", 0, a)):
            return NAN()
        return know(plain("fn", name, a), math.sqrt(lb(a)), math.sqrt(ub(a)))
    if s:
        return NAN()
    return plain("fn", name, a)


@outer
def gt(a, b):
    x, y = sp(a), sp(b)
    if "nan" in (x, y):
        return 0
    if x or y:
        if x == y:
            return 0
        return 1 if x == "inf" or y == "-inf" else 0
    return plain("gt", a, b)


@outer
def ge(a, b):
    if "nan" in (sp(a), sp(b)):
        return 0
    return T.not_(gt(b, a))


@outer
def eq(a, b):
    x, y = sp(a), sp(b)
    if x or y:
        return 1 if x == y != "nan" else 0
    return plain("eq", a, b)


@outer
def gt0(a):
    return gt(a, 0)


@outer
def eq0(a):
    return eq(a, 0)


@outer
def ite(c, x, y):
    if x == y:
        return x
    return x if fork(c) else y


@outer
def inf():
    return INF()


# robust kernels, as torch computes them
def k_lse(row):
    m = E._max(row)
    s = sp(m)
    if s:
        return m
    return T.add(m, T.fn("log", T.addn([T.fn("exp", T.sub(i, m)) for i in row])))


def k_softmax(row, log):
    m = E._max(row)
    e = [T.fn("exp", T.sub(i, m)) for i in row]
    s = T.addn(e)
    if log:
        ls = T.fn("log", s)
        return [T.sub(T.sub(i, m), ls) for i in row]
    return [T.div(i, s) for i in e]


def k_logsigmoid(i):
    return T.sub(T.ite(T.gt(i, 0), 0, i), T.fn("log", T.add(1, T.fn("exp", T.neg(T.abs_(i))))))


NAMES = ["addn", "add", "scale", "neg", "sub", "mul", "powi", "recip", "div", "dot", "fn", "gt", "ge", "eq", "gt0",
         "eq0", "ite", "inf"]
for _n in NAMES:
    O[_n] = getattr(T, _n)
_EXT = {n: globals()[n] for n in NAMES}


@contextlib.contextmanager
def active():
    for n in NAMES:
        setattr(T, n, _EXT[n])
    ST.ext = True
    _busy[0] = False
    try:
        yield
    finally:
        ST.ext = False
        for n in NAMES:
            setattr(T, n, O[n])


GRID = [-104, -89, -70, -50, -35, -20, -10, -5, -1, 1, 5, 10, 20, 35, 50, 70, 89]


def axioms(z3, num, a, name, f, y):
    """brackets for the transcendental atoms"""
    ax = []
    for c in GRID:
        if name == "exp":
            q = Fraction(math.exp(c))
            ax.append(z3.Implies(y >= c, f >= num(q * Fraction(999, 1000))))
            ax.append(z3.Implies(y <= c, f <= num(q * Fraction(1001, 1000))))
        elif name == "sigmoid":
            q = Fraction(1 / (1 + math.exp(-c))) if c < 30 else Fraction(1)
            ax.append(z3.Implies(y >= c, f >= num(q * Fraction(999999, 1000000))))
            ax.append(z3.Implies(y <= c, f <= num(q * Fraction(1000001, 1000000))))
        elif name == "log":
            q = Fraction(math.exp(c))
            ax.append(z3.Implies(y >= num(q), f >= c - num(Fraction(1, 1000))))
            ax.append(z3.Implies(z3.And(y > 0, y <= num(q)), f <= c + num(Fraction(1, 1000))))
    return ax
