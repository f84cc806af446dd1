"""Hash-consed symbolic terms over the reals (and booleans).

Every scalar of a symbolic tensor is an integer term id.  Ids are allocated bottom-up, so the numeric
order of ids is a topological order of the DAG.  id 0 is the number 0 *and* the boolean False, id 1 is
the number 1 *and* the boolean True, so that torch kernels which fill with zeros can run on id tensors.

Construction applies only identities that hold for all reals (plus x * x^-1 = 1, whose definedness
side condition x != 0 is made explicit to the solver in smt.py).
"""
import math
import struct
from fractions import Fraction

ZERO = FALSE = 0
ONE = TRUE = 1

# kinds
C, V, SUM, PROD, FN, ITE, GT, EQ, NOT, AND, OR, BV = range(12)

kind = []
data = []
_intern = {}
_memo = {}


POSITIVE = set()  # variables declared positive by the scenario


class TermLimit(Exception):
    """the DAG grew beyond the stated bound"""


MAX_TERMS = 6_000_000


def reset():
    kind.clear()
    data.clear()
    POSITIVE.clear()
    _intern.clear()
    _memo.clear()
    kind.extend([C, C])
    data.extend([0, 1])
    _intern[(C, 0)] = 0
    _intern[(C, 1)] = 1


def _mk(k, d):
    key = (k, d)
    r = _intern.get(key)
    if r is None:
        r = len(kind)
        if r > MAX_TERMS:
            raise TermLimit(r)
        _intern[key] = r
        kind.append(k)
        data.append(d)
    return r


# ---------------------------------------------------------------- constants
def _norm_num(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


_float_cache = {}


def float_to_num(x, single=False):
    """A float constant as the rational it stands for: small ratio or shortest decimal."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return _norm_num(x)
    key = (x, single)
    r = _float_cache.get(key)
    if r is not None:
        return r
    if math.isinf(x) or math.isnan(x):
        raise NonFinite(x)
    if x == int(x) and abs(x) < 1e15:
        r = int(x)
    else:
        r = None
        cand = Fraction(x).limit_denominator(720)
        if cand != 0:
            f = cand.numerator / cand.denominator
            if single:
                same = struct.pack("f", f) == struct.pack("f", x)
            else:
                same = f == x
            if same:
                r = cand
        if r is None:
            if single:
                for p in range(1, 10):
                    s = "%.*g" % (p, x)
                    if struct.pack("f", float(s)) == struct.pack("f", x):
                        r = Fraction(s)
                        break
                else:
                    r = Fraction(x)
            else:
                r = Fraction(repr(x))
        r = _norm_num(r)
    _float_cache[key] = r
    return r


class NonFinite(Exception):
    pass


def const(c):
    return _mk(C, _norm_num(c))


def var(name):
    return _mk(V, name)


def bvar(name):
    return _mk(BV, name)


_fresh = [0]


def fresh(prefix="u"):
    _fresh[0] += 1
    return _mk(V, "%s!%d" % (prefix, _fresh[0]))


def is_const(a):
    return kind[a] == C


def is_bool(a):
    return kind[a] >= GT or a <= 1


# ---------------------------------------------------------------- sums
def _lin(a):
    k = kind[a]
    if k == SUM:
        return data[a]
    if k == C:
        return (data[a], ())
    return (0, ((a, 1),))


def _mk_sum(c, d):
    items = [(t, _norm_num(k)) for t, k in d.items() if k != 0]
    c = _norm_num(c)
    if not items:
        return const(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort()
    # sum of c_i * ite(...) over one condition: merge   (keeps derivative-of-ite forms canonical)
    return _mk(SUM, (c, tuple(items)))


def addn(ids):
    c = 0
    d = {}
    n = 0
    last = 0
    for a in ids:
        if a == 0:
            continue
        n += 1
        last = a
        k = kind[a]
        if k == SUM:
            cc, items = data[a]
            c += cc
            for t, w in items:
                d[t] = d.get(t, 0) + w
        elif k == C:
            c += data[a]
        else:
            d[a] = d.get(a, 0) + 1
    if n == 0:
        return 0
    if n == 1:
        return last
    return _mk_sum(c, d)


def add(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a > b:
        a, b = b, a
    key = ("+", a, b)
    r = _memo.get(key)
    if r is None:
        r = _memo[key] = addn((a, b))
    return r


def scale(a, c):
    if c == 0 or a == 0:
        return 0
    if c == 1:
        return a
    key = ("s", a, c)
    r = _memo.get(key)
    if r is not None:
        return r
    k = kind[a]
    if k == C:
        r = const(data[a] * c)
    elif k == SUM:
        cc, items = data[a]
        r = _mk_sum(cc * c, {t: w * c for t, w in items})
    elif k == ITE:
        cd, x, y = data[a]
        if kind[x] == C and kind[y] == C:
            r = ite(cd, scale(x, c), scale(y, c))
        else:
            r = _mk_sum(0, {a: c})
    else:
        r = _mk_sum(0, {a: c})
    _memo[key] = r
    return r


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if b == 0:
        return a
    if a == b:
        return 0
    return add(a, scale(b, -1))


# ---------------------------------------------------------------- products
def _factors(a):
    """a as (coef, {factor: exp})"""
    k = kind[a]
    if k == C:
        return data[a], {}
    if k == PROD:
        return 1, dict(data[a])
    if k == SUM:
        c, items = data[a]
        if c == 0 and len(items) == 1:
            t, w = items[0]
            if kind[t] == PROD:
                return w, dict(data[t])
            return w, {t: 1}
        coef, mono, p = _prim(a)
        f = dict(mono)
        if p != 1:
            f[p] = f.get(p, 0) + 1
        return coef, f
    return 1, {a: 1}


def _prim(a):
    """SUM a = coef * monomial * primitive sum (leading coefficient 1, no common factor, no negative powers)."""
    key = ("p", a)
    r = _memo.get(key)
    if r is not None:
        return r
    c, items = data[a]
    n = len(items) + (1 if c != 0 else 0)
    facs = []
    for t, w in items:
        facs.append(dict(data[t]) if kind[t] == PROD else {t: 1})
    common = {}
    if n > 1:
        keys = {}
        for f in facs:
            for t in f:
                keys[t] = keys.get(t, 0) + 1
        for t, cnt in keys.items():
            m = min((f.get(t, 0) for f in facs))
            if c != 0:
                m = min(m, 0)
            if m != 0:
                common[t] = m
    lead = items[0][1]
    if not common and lead == 1:
        r = (1, (), a)
    else:
        d = {}
        cc = 0
        inv = Fraction(1) / lead
        for (t, w), f in zip(items, facs):
            if common:
                for q, m in common.items():
                    e = f.get(q, 0) - m
                    if e:
                        f[q] = e
                    else:
                        f.pop(q, None)
                t2 = _mk_prod_raw(f)
            else:
                t2 = t
            if kind[t2] == C:
                cc += data[t2] * w * inv
            else:
                d[t2] = d.get(t2, 0) + w * inv
        if c != 0:
            f = {q: -m for q, m in common.items()}
            t2 = _mk_prod_raw(f)
            if kind[t2] == C:
                cc += data[t2] * c * inv
            else:
                d[t2] = d.get(t2, 0) + c * inv
        p = _mk_sum(cc, d)
        if kind[p] == SUM and (p == a or common):
            # the leading coefficient may have moved with the new ids
            l2 = data[p][1][0][1]
            if l2 != 1:
                p = scale(p, Fraction(1) / l2)
                lead = lead * l2
        r = (_norm_num(lead), tuple(sorted(common.items())), p)
        _memo[("p", p)] = (1, (), p)
    _memo[key] = r
    return r


def _mk_prod_raw(f):
    items = [(t, e) for t, e in f.items() if e != 0]
    if not items:
        return 1
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort()
    return _mk(PROD, tuple(items))


def _build_prod(coef, f):
    """normalise a factor dict: sqrt powers, ite merging, constants"""
    if coef == 0:
        return 0
    again = None
    ites = None
    for t, e in f.items():
        if e == 0:
            continue
        k = kind[t]
        if k == FN and data[t][0] == "sqrt" and (e >= 2 or e <= -2 or e == -1):
            # sqrt(u)^-1 = sqrt(u) * u^-1
            q, rmd = divmod(e, 2)
            again = (t, rmd, data[t][1], q)
            break
        if k == ITE:
            if e != 1:
                cd, x, y = data[t]
                again = (t, 0, ite(cd, powi(x, e), powi(y, e)), 1)
                break
            if ites is None:
                ites = []
            ites.append(t)
    if again is not None:
        t, e1, base, e2 = again
        g = dict(f)
        g[t] = e1
        if e1 == 0:
            del g[t]
        r = _build_prod(1, g)
        return scale(mul(r, powi(base, e2)), coef)
    if ites is not None and len(ites) > 1:
        by = {}
        for t in ites:
            by.setdefault(data[t][0], []).append(t)
        if len(by) < len(ites):
            g = {t: e for t, e in f.items() if kind[t] != ITE}
            r = None
            parts = []
            for cd, ts in by.items():
                x, y = data[ts[0]][1], data[ts[0]][2]
                for t in ts[1:]:
                    x = mul(x, data[t][1])
                    y = mul(y, data[t][2])
                parts.append(ite(cd, x, y))
            r = _build_prod(1, g)
            for p in parts:
                r = mul(r, p)
            return scale(r, coef)
    t = _mk_prod_raw(f)
    if kind[t] == C:
        return const(data[t] * coef)
    return scale(t, coef)


def mul(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    if kind[a] == C:
        return scale(b, data[a])
    if kind[b] == C:
        return scale(a, data[b])
    if a > b:
        a, b = b, a
    key = ("*", a, b)
    r = _memo.get(key)
    if r is not None:
        return r
    c1, f1 = _factors(a)
    c2, f2 = _factors(b)
    for t, e in f2.items():
        n = f1.get(t, 0) + e
        if n:
            f1[t] = n
        else:
            f1.pop(t, None)
    r = _build_prod(c1 * c2, f1)
    _memo[key] = r
    return r


def powi(a, n):
    if n == 0:
        return 1
    if n == 1:
        return a
    if a == 0:
        if n < 0:
            raise NonFinite("1/0")
        return 0
    key = ("^", a, n)
    r = _memo.get(key)
    if r is not None:
        return r
    k = kind[a]
    if k == C:
        r = const(Fraction(data[a]) ** n)
    elif k == ITE:
        cd, x, y = data[a]
        if n < 0 and (x == 0 or y == 0):
            r = _mk(PROD, ((a, n),))
        else:
            r = ite(cd, powi(x, n), powi(y, n))
    else:
        c, f = _factors(a)
        r = _build_prod(Fraction(c) ** n, {t: e * n for t, e in f.items()})
    _memo[key] = r
    return r


def recip(a):
    return powi(a, -1)


def div(a, b):
    if kind[b] == C:
        if b == 0:
            raise NonFinite("x/0")
        return scale(a, Fraction(1) / data[b])
    return mul(a, powi(b, -1))


def dot(la, lb):
    """sum_i la[i]*lb[i]"""
    c = 0
    d = {}
    for a, b in zip(la, lb):
        if a == 0 or b == 0:
            continue
        t = mul(a, b)
        k = kind[t]
        if k == SUM:
            cc, items = data[t]
            c += cc
            for q, w in items:
                d[q] = d.get(q, 0) + w
        elif k == C:
            c += data[t]
        else:
            d[t] = d.get(t, 0) + 1
    return _mk_sum(c, d)


EXPAND_LIMIT = 400


def expand(a):
    """distribute products over sums (positive integer powers only) when the result stays small"""
    key = ("x", a)
    r = _memo.get(key)
    if r is not None:
        return r
    r = a
    k = kind[a]
    if k == SUM:
        c, items = data[a]
        parts = []
        ch = False
        for t, w in items:
            e = expand(t)
            if e != t:
                ch = True
            parts.append(scale(e, w))
        if ch:
            r = addn(parts + [const(c)])
    elif k == PROD:
        sums = []
        mono = 1
        size = 1
        for t, e in data[a]:
            x = expand(t) if e > 0 else t
            if kind[x] == SUM and e > 0:
                n = len(data[x][1]) + (data[x][0] != 0)
                for _ in range(e):
                    sums.append(x)
                    size *= n
            else:
                mono = mul(mono, powi(x, e))
        if sums and size <= EXPAND_LIMIT:
            cur = {mono: 1}
            for x in sums:
                c, items = data[x]
                nxt = {}
                for m, w in cur.items():
                    if c != 0:
                        nxt[m] = nxt.get(m, 0) + w * c
                    for t, v in items:
                        q = mul(m, t)
                        cc, qi = _lin(q)
                        if cc == 0 and len(qi) == 1:
                            nxt[qi[0][0]] = nxt.get(qi[0][0], 0) + w * v * qi[0][1]
                        else:
                            nxt[q] = nxt.get(q, 0) + w * v
                cur = nxt
            r = addn([scale(m, w) for m, w in cur.items()])
    _memo[key] = r
    if r != a:
        _memo[("x", r)] = r
    return r


# ---------------------------------------------------------------- sign facts (sound, incomplete)
def is_pos(a):
    key = ("pos", a)
    r = _memo.get(key)
    if r is not None:
        return r
    k = kind[a]
    r = False
    if k == C:
        r = data[a] > 0
    elif k == V:
        r = a in POSITIVE
    elif k == FN:
        r = data[a][0] in ("exp", "sigmoid")
    elif k == PROD:
        r = all(is_pos(t) for t, e in data[a])
    elif k == SUM:
        c, items = data[a]
        if c >= 0 and all(w > 0 and is_nonneg(t) for t, w in items):
            r = c > 0 or any(is_pos(t) for t, w in items)
    elif k == ITE:
        r = is_pos(data[a][1]) and is_pos(data[a][2])
    _memo[key] = r
    return r


def is_nonneg(a):
    key = ("nn", a)
    r = _memo.get(key)
    if r is not None:
        return r
    k = kind[a]
    if k == C:
        r = data[a] >= 0
    elif is_pos(a):
        r = True
    elif k == FN:
        r = data[a][0] == "sqrt"
    elif k == PROD:
        r = all(e % 2 == 0 or is_nonneg(t) for t, e in data[a])
    elif k == SUM:
        c, items = data[a]
        r = c >= 0 and all(w > 0 and is_nonneg(t) for t, w in items)
    elif k == ITE:
        cd, x, y = data[a]
        r = (is_nonneg(x) or _cond_implies_pos(cd, x)) and is_nonneg(y)
    else:
        r = False
    _memo[key] = r
    return r


def _cond_implies_pos(cd, x):
    return kind[cd] == GT and (data[cd] == x or gt0(x) == cd)


# ---------------------------------------------------------------- booleans
def not_(c):
    if c == 0:
        return 1
    if c == 1:
        return 0
    if kind[c] == NOT:
        return data[c]
    return _mk(NOT, c)


def and_(cs):
    s = set()
    for c in cs:
        if c == 0:
            return 0
        if c == 1:
            continue
        if kind[c] == AND:
            s.update(data[c])
        else:
            s.add(c)
    for c in s:
        if kind[c] == NOT and data[c] in s:
            return 0
    if not s:
        return 1
    if len(s) == 1:
        return next(iter(s))
    return _mk(AND, tuple(sorted(s)))


def or_(cs):
    s = set()
    for c in cs:
        if c == 1:
            return 1
        if c == 0:
            continue
        if kind[c] == OR:
            s.update(data[c])
        else:
            s.add(c)
    for c in s:
        if kind[c] == NOT and data[c] in s:
            return 1
    if not s:
        return 0
    if len(s) == 1:
        return next(iter(s))
    return _mk(OR, tuple(sorted(s)))


def gt0(a):
    """a > 0"""
    key = (">", a)
    r = _memo.get(key)
    if r is not None:
        return r
    k = kind[a]
    if k == C:
        r = 1 if data[a] > 0 else 0
    elif k == ITE:
        cd, x, y = data[a]
        r = bite(cd, gt0(x), gt0(y))
    elif is_pos(a):
        r = 1
    elif k == SUM and is_nonneg(scale(a, -1)):
        r = 0
    elif k == FN and data[a][0] in ("tanh", "round32", "round16"):
        r = gt0(data[a][1])
    elif k == FN and data[a][0] == "sqrt":
        r = gt0(data[a][1])
    elif k == SUM:
        c, items = data[a]
        lead = abs(items[0][1])
        if lead != 1:
            r = gt0(scale(a, Fraction(1) / lead))
        else:
            r = _mk(GT, a)
    else:
        r = _mk(GT, a)
    _memo[key] = r
    return r


def eq0(a):
    key = ("=", a)
    r = _memo.get(key)
    if r is not None:
        return r
    k = kind[a]
    if k == C:
        r = 1 if data[a] == 0 else 0
    elif k == ITE:
        cd, x, y = data[a]
        r = bite(cd, eq0(x), eq0(y))
    elif is_pos(a):
        r = 0
    elif k == SUM:
        c, items = data[a]
        if c == 0 and len(items) == 1:
            r = eq0(items[0][0])
        else:
            lead = items[0][1]
            r = eq0(scale(a, Fraction(1) / lead)) if lead != 1 else _mk(EQ, a)
    elif k == PROD and all(e > 0 for t, e in data[a]):
        r = or_([eq0(t) for t, e in data[a]])
    elif k == FN and data[a][0] in ("tanh", "sqrt"):
        r = eq0(data[a][1])
    else:
        r = _mk(EQ, a)
    _memo[key] = r
    return r


INF = None  # id of the +infinity marker


def inf():
    return _mk(V, "INF!")


def _inf_sign(a):
    """sign of the infinity marker in a sum, 0 if absent"""
    i = _intern.get((V, "INF!"))
    if i is None:
        return 0
    if a == i:
        return 1
    if kind[a] == SUM:
        for t, w in data[a][1]:
            if t == i:
                return 1 if w > 0 else -1
    return 0


def gt(a, b):
    if kind[a] == ITE or kind[b] == ITE:
        t = data[a][0] if kind[a] == ITE else data[b][0]
        a1, a0 = (data[a][1], data[a][2]) if kind[a] == ITE and data[a][0] == t else (a, a)
        b1, b0 = (data[b][1], data[b][2]) if kind[b] == ITE and data[b][0] == t else (b, b)
        return bite(t, gt(a1, b1), gt(a0, b0))
    d = sub(a, b)
    s = _inf_sign(d)
    if s:
        return 1 if s > 0 else 0
    return gt0(expand(d))


def ge(a, b):
    return not_(gt(b, a))


def eq(a, b):
    if kind[a] == ITE or kind[b] == ITE:
        t = data[a][0] if kind[a] == ITE else data[b][0]
        a1, a0 = (data[a][1], data[a][2]) if kind[a] == ITE and data[a][0] == t else (a, a)
        b1, b0 = (data[b][1], data[b][2]) if kind[b] == ITE and data[b][0] == t else (b, b)
        return bite(t, eq(a1, b1), eq(a0, b0))
    d = sub(a, b)
    if _inf_sign(d):
        return 0
    return eq0(expand(d))


def bite(c, x, y):
    if c == 1:
        return x
    if c == 0:
        return y
    if x == y:
        return x
    if x == 1 and y == 0:
        return c
    if x == 0 and y == 1:
        return not_(c)
    return or_([and_([c, x]), and_([not_(c), y])])


def ite(c, x, y):
    if c == 1:
        return x
    if c == 0:
        return y
    if x == y:
        return x
    if kind[c] == NOT:
        return ite(data[c], y, x)
    if is_bool(x) and is_bool(y) and (kind[x] >= GT or kind[y] >= GT):
        return bite(c, x, y)
    key = ("ite", c, x, y)
    r = _memo.get(key)
    if r is not None:
        return r
    # conditions are tested in increasing id order (ordered decision tree), so that the same case
    # distinction built in different orders becomes the same term
    tx = data[x][0] if kind[x] == ITE else None
    ty = data[y][0] if kind[y] == ITE else None
    low = c
    if tx is not None and tx < low:
        low = tx
    if ty is not None and ty < low:
        low = ty
    if low == c:
        if tx == c:
            x = data[x][1]
        if ty == c:
            y = data[y][2]
        r = x if x == y else _mk(ITE, (c, x, y))
    else:
        x1, x0 = (data[x][1], data[x][2]) if tx == low else (x, x)
        y1, y0 = (data[y][1], data[y][2]) if ty == low else (y, y)
        a, b = ite(c, x1, y1), ite(c, x0, y0)
        r = a if a == b else _mk(ITE, (low, a, b))
    _memo[key] = r
    return r


def b2n(c):
    """bool -> number"""
    return ite(c, 1, 0)


def n2b(a):
    """number -> bool (a != 0)"""
    if kind[a] >= GT or a <= 1:
        return a
    return not_(eq0(a))


def max2(a, b):
    return ite(gt(a, b), a, b)


def min2(a, b):
    return ite(gt(a, b), b, a)


# ---------------------------------------------------------------- functions
def fn(name, a):
    key = ("f", name, a)
    r = _memo.get(key)
    if r is None:
        r = _memo[key] = _fn(name, a)
    return r


def _isqrt_exact(q):
    q = Fraction(q)
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return Fraction(n, d)
    return None


def _lead_neg(a):
    return kind[a] == SUM and data[a][1][0][1] < 0


def _fn(name, a):
    if kind[a] in (SUM, PROD):
        a = expand(a)
    k = kind[a]
    if k == ITE:
        cd, x, y = data[a]
        return ite(cd, fn(name, x), fn(name, y))
    if _inf_sign(a):
        sg = _inf_sign(a)
        if name == "exp":
            return inf() if sg > 0 else 0
        if name == "sigmoid":
            return 1 if sg > 0 else 0
        if name == "tanh":
            return const(sg)
        if name in ("log", "sqrt") and sg > 0:
            return inf()
        if not name.startswith("round"):
            raise NonFinite(name + "(inf)")
        return a
    if name in ("round32", "round16"):
        if k == C:
            v = data[a]
            if name == "round32":
                w = Fraction(struct.unpack("f", struct.pack("f", float(v)))[0])
            else:
                w = Fraction(struct.unpack("e", struct.pack("e", float(v)))[0])
            if w == v:
                return a
            return _mk(FN, (name, a))
        if k == FN and data[a][0] == name:
            return a
        return _mk(FN, (name, a))
    if name == "tanh":
        if a == 0:
            return 0
        if _lead_neg(a) or (k == C and data[a] < 0):
            return neg(fn("tanh", neg(a)))
        return _mk(FN, ("tanh", a))
    if name == "sigmoid":
        if a == 0:
            return const(Fraction(1, 2))
        if _lead_neg(a) or (k == C and data[a] < 0):
            return sub(1, fn("sigmoid", neg(a)))
        return _mk(FN, ("sigmoid", a))
    if name == "sin":
        if a == 0:
            return 0
        if _lead_neg(a) or (k == C and data[a] < 0):
            return neg(fn("sin", neg(a)))
        return _mk(FN, ("sin", a))
    if name == "cos":
        if a == 0:
            return 1
        if _lead_neg(a) or (k == C and data[a] < 0):
            return fn("cos", neg(a))
        return _mk(FN, ("cos", a))
    if name == "exp":
        c, items = _lin(a)
        r = 1
        if c != 0:
            # exp of a rational constant: e^(p/q) = (e^(1/q))^p
            q = Fraction(c)
            r = powi(_mk(FN, ("exp", const(Fraction(1, q.denominator)))), q.numerator)
        for t, w in items:
            w = Fraction(w)
            if kind[t] == ITE:
                cd, x, y = data[t]
                r = mul(r, ite(cd, fn("exp", scale(x, w)), fn("exp", scale(y, w))))
                continue
            if kind[t] == FN and data[t][0] == "log":
                if w.denominator == 1:
                    r = mul(r, powi(data[t][1], w.numerator))
                    continue
            base = _mk(FN, ("exp", scale(t, Fraction(1, w.denominator))))
            r = mul(r, powi(base, w.numerator))
        return r
    if name == "log":
        if a == 1:
            return 0
        if k == C:
            return _mk(FN, ("log", a))
        coef, f = _factors(a)
        r = 0
        rest = {}
        for t, e in f.items():
            if kind[t] == FN and data[t][0] == "exp":
                r = add(r, scale(data[t][1], e))
            elif is_pos(t):
                r = add(r, scale(_mk(FN, ("log", t)), e))
            else:
                rest[t] = e
        if rest:
            t = _mk_prod_raw(rest)
            if coef < 0:
                t = neg(t)
                coef = -coef
            r = add(r, _mk(FN, ("log", t)))
        if coef != 1:
            r = add(r, fn("log", const(coef)))
        return r
    if name == "sqrt":
        if k == C:
            e = _isqrt_exact(data[a]) if data[a] >= 0 else None
            if e is not None:
                return const(e)
            return _mk(FN, ("sqrt", a))
        coef, f = _factors(a)
        if f and all(e % 2 == 0 for e in f.values()):
            e = _isqrt_exact(coef) if coef > 0 else None
            if e is not None:
                r = 1
                for t, m in f.items():
                    b = powi(t, m // 2)
                    r = mul(r, abs_(b))
                return scale(r, e)
        return _mk(FN, ("sqrt", a))
    return _mk(FN, (name, a))


def abs_(a):
    if is_nonneg(a):
        return a
    if _lead_neg(a):
        a = neg(a)
        if is_nonneg(a):
            return a
    return ite(gt0(a), a, neg(a))


def sinh(a):
    return scale(sub(fn("exp", a), fn("exp", neg(a))), Fraction(1, 2))


def cosh(a):
    return scale(add(fn("exp", a), fn("exp", neg(a))), Fraction(1, 2))


# ---------------------------------------------------------------- traversal
def children(a):
    k = kind[a]
    d = data[a]
    if k == SUM:
        return [t for t, _ in d[1]]
    if k == PROD:
        return [t for t, _ in d]
    if k == FN:
        return list(d[1:])
    if k == ITE:
        return list(d)
    if k in (GT, EQ, NOT):
        return [d]
    if k in (AND, OR):
        return list(d)
    return []


def reachable(roots):
    seen = set()
    stack = list(roots)
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        stack.extend(children(a))
    return seen


def variables(roots):
    return sorted(a for a in reachable(roots) if kind[a] in (V, BV))


def atoms(roots, numeric_only=True):
    """condition atoms (GT/EQ/BV) that decide the ITEs below roots"""
    return sorted(a for a in reachable(roots) if kind[a] in (GT, EQ, BV))


def ite_conds(roots):
    """conditions of the ITEs reachable without entering a condition"""
    conds = set()
    seen = set()
    stack = list(roots)
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        if kind[a] == ITE:
            conds.add(data[a][0])
            stack.extend(data[a][1:])
        elif kind[a] >= GT:
            conds.add(a)
        else:
            stack.extend(children(a))
    return sorted(conds)


def kinks(roots):
    """arguments of the comparisons in the conditions of the ITEs: the case distinctions change where one is zero"""
    out = set()
    for a in reachable([c for c in ite_conds(roots) if c > 1]):
        if kind[a] == GT:
            out.add(data[a])
    return sorted(out)


def cofactor(a, sub, memo):
    """a with some atoms replaced by truth values (sub: {atom: 0/1})"""
    r = memo.get(a)
    if r is not None:
        return r
    k = kind[a]
    d = data[a]
    if a in sub:
        r = sub[a]
    elif k in (C, V, BV):
        r = a
    elif k == SUM:
        new = [(t, cofactor(t, sub, memo), w) for t, w in d[1]]
        if all(t == n for t, n, w in new):
            r = a
        else:
            r = addn([const(d[0])] + [scale(n, w) for t, n, w in new])
    elif k == PROD:
        new = [(t, cofactor(t, sub, memo), e) for t, e in d]
        if all(t == n for t, n, e in new):
            r = a
        else:
            r = 1
            for t, n, e in new:
                r = mul(r, powi(n, e))
    elif k == FN:
        n = cofactor(d[1], sub, memo)
        r = a if n == d[1] else fn(d[0], n)
    elif k == ITE:
        c = cofactor(d[0], sub, memo)
        if c == 1:
            r = cofactor(d[1], sub, memo)
        elif c == 0:
            r = cofactor(d[2], sub, memo)
        else:
            r = ite(c, cofactor(d[1], sub, memo), cofactor(d[2], sub, memo))
    elif k == GT:
        n = cofactor(d, sub, memo)
        r = a if n == d else gt0(n)
    elif k == EQ:
        n = cofactor(d, sub, memo)
        r = a if n == d else eq0(n)
    elif k == NOT:
        r = not_(cofactor(d, sub, memo))
    elif k == AND:
        r = and_([cofactor(t, sub, memo) for t in d])
    elif k == OR:
        r = or_([cofactor(t, sub, memo) for t in d])
    memo[a] = r
    return r


def to_exp(a, memo):
    """rewrite sigmoid and tanh through exp"""
    r = memo.get(a)
    if r is not None:
        return r
    k = kind[a]
    d = data[a]
    if k == SUM:
        r = addn([const(d[0])] + [scale(to_exp(t, memo), w) for t, w in d[1]])
    elif k == PROD:
        r = 1
        for t, e in d:
            r = mul(r, powi(to_exp(t, memo), e))
    elif k == FN:
        n = to_exp(d[1], memo)
        if d[0] == "sigmoid":
            e = fn("exp", n)
            r = div(e, add(1, e))
        elif d[0] == "tanh":
            e = fn("exp", scale(n, 2))
            r = sub(1, div(const(2), add(1, e)))
        else:
            r = fn(d[0], n)
    elif k == ITE:
        r = ite(d[0], to_exp(d[1], memo), to_exp(d[2], memo))
    else:
        r = a
    memo[a] = r
    return r


def subst(a, sub, memo):
    """replace variables by terms"""
    r = memo.get(a)
    if r is not None:
        return r
    k = kind[a]
    d = data[a]
    if k == V:
        r = sub.get(a, a)
    elif k == SUM:
        r = addn([const(d[0])] + [scale(subst(t, sub, memo), w) for t, w in d[1]])
    elif k == PROD:
        r = 1
        for t, e in d:
            u = subst(t, sub, memo)
            if u == 0 and e < 0:
                raise NonFinite("division by zero")
            r = mul(r, powi(u, e))
    elif k == FN:
        r = fn(d[0], subst(d[1], sub, memo))
    elif k == ITE:
        r = ite(subst(d[0], sub, memo), subst(d[1], sub, memo), subst(d[2], sub, memo))
    elif k == GT:
        r = gt0(subst(d, sub, memo))
    elif k == EQ:
        r = eq0(subst(d, sub, memo))
    elif k == NOT:
        r = not_(subst(d, sub, memo))
    elif k == AND:
        r = and_([subst(t, sub, memo) for t in d])
    elif k == OR:
        r = or_([subst(t, sub, memo) for t in d])
    else:
        r = a
    memo[a] = r
    return r


def implied_zero(lits):
    """terms that the literals force to be zero"""
    neg_gt, out = set(), []
    for c in lits:
        if c > 1 and kind[c] == EQ:
            out.append(data[c])
        if c > 1 and kind[c] == NOT and kind[data[c]] == GT:
            neg_gt.add(data[data[c]])
    for g in neg_gt:
        if g < neg(g) and neg(g) in neg_gt:
            out.append(g)
    return out


def solve_for(g):
    """(v, t) with g = 0 iff v = t for a variable v, or None"""
    c, items = _lin(g)
    for v, w in items:
        if kind[v] == V and v not in POSITIVE:
            rest = addn([const(c)] + [scale(t, u) for t, u in items if t != v])
            if v not in variables([rest]):
                return v, scale(rest, Fraction(-1) / Fraction(w))
    return None


def unround(a, memo):
    """the value without the roundings"""
    r = memo.get(a)
    if r is not None:
        return r
    k = kind[a]
    d = data[a]
    if k == SUM:
        r = addn([const(d[0])] + [scale(unround(t, memo), w) for t, w in d[1]])
    elif k == PROD:
        r = 1
        for t, e in d:
            r = mul(r, powi(unround(t, memo), e))
    elif k == FN:
        n = unround(d[1], memo)
        r = n if d[0] in ("round32", "round16") else fn(d[0], n)
    elif k == ITE:
        r = ite(unround(d[0], memo), unround(d[1], memo), unround(d[2], memo))
    elif k == GT:
        r = gt0(unround(d, memo))
    elif k == EQ:
        r = eq0(unround(d, memo))
    elif k == NOT:
        r = not_(unround(d, memo))
    elif k == AND:
        r = and_([unround(t, memo) for t in d])
    elif k == OR:
        r = or_([unround(t, memo) for t in d])
    else:
        r = a
    memo[a] = r
    return r


# ---------------------------------------------------------------- differentiation (the oracle's calculus)
def dfn(name, arg, whole):
    if name == "tanh":
        return sub(1, mul(whole, whole))
    if name == "sigmoid":
        return mul(whole, sub(1, whole))
    if name == "exp":
        return whole
    if name == "log":
        return recip(arg)
    if name == "sin":
        return fn("cos", arg)
    if name == "cos":
        return neg(fn("sin", arg))
    if name == "sqrt":
        return scale(recip(whole), Fraction(1, 2))
    if name in ("round32", "round16"):
        return 1
    raise NotImplementedError("derivative of " + name)


def grad(out, wrt):
    """list of d out / d wrt[i] (reverse mode over the DAG; derivative of ite taken branchwise)"""
    wrtset = set(wrt)
    # restrict to nodes that reach a wrt variable through numeric edges
    key = None
    order = []
    seen = set()
    stack = [out]
    while stack:
        a = stack.pop()
        if a in seen:
            continue
        seen.add(a)
        order.append(a)
        k = kind[a]
        d = data[a]
        if k == SUM:
            stack.extend(t for t, _ in d[1])
        elif k == PROD:
            stack.extend(t for t, _ in d)
        elif k == FN:
            stack.extend(d[1:])
        elif k == ITE:
            stack.append(d[1])
            stack.append(d[2])
    order.sort()
    dep = set()
    for a in order:
        if a in wrtset:
            dep.add(a)
            continue
        k = kind[a]
        d = data[a]
        if k == SUM:
            if any(t in dep for t, _ in d[1]):
                dep.add(a)
        elif k == PROD:
            if any(t in dep for t, _ in d):
                dep.add(a)
        elif k == FN:
            if any(t in dep for t in d[1:]):
                dep.add(a)
        elif k == ITE:
            if d[1] in dep or d[2] in dep:
                dep.add(a)
    adj = {out: [1]}
    for a in reversed(order):
        if a not in dep or a not in adj:
            continue
        g = addn(adj[a])
        adj[a] = g
        if a in wrtset or g == 0:
            continue
        k = kind[a]
        d = data[a]
        if k == SUM:
            for t, w in d[1]:
                if t in dep:
                    adj.setdefault(t, []).append(scale(g, w))
        elif k == PROD:
            for t, e in d:
                if t in dep:
                    f = dict(d)
                    if e == 1:
                        del f[t]
                    else:
                        f[t] = e - 1
                    adj.setdefault(t, []).append(scale(mul(g, _build_prod(1, f)), e))
        elif k == FN:
            t = d[1]
            adj.setdefault(t, []).append(mul(g, dfn(d[0], t, a)))
        elif k == ITE:
            c, x, y = d
            if x in dep:
                adj.setdefault(x, []).append(ite(c, g, 0))
            if y in dep:
                adj.setdefault(y, []).append(ite(c, 0, g))
    return [(adj[w] if isinstance(adj[w], int) else addn(adj[w])) if w in adj else 0 for w in wrt]


# ---------------------------------------------------------------- numeric evaluation
def evaluate(roots, env, mp=None):
    """evaluate term ids at env: {var id: number}; floats, or mpmath numbers when mp is given"""
    vals = {}
    m = mp if mp is not None else math
    for a in sorted(reachable(roots)):
        k = kind[a]
        d = data[a]
        if k == C:
            if mp is not None:
                v = mp.mpf(d.numerator) / d.denominator if isinstance(d, Fraction) else mp.mpf(d)
            else:
                v = float(d)
            if a <= 1:
                vals[a] = v
                continue
        elif k in (V, BV):
            v = env[a]
        elif k == SUM:
            v = d[0]
            if isinstance(v, Fraction):
                v = v.numerator / v.denominator if mp is None else mp.mpf(v.numerator) / v.denominator
            for t, w in d[1]:
                if isinstance(w, Fraction):
                    w = w.numerator / w.denominator if mp is None else mp.mpf(w.numerator) / w.denominator
                v = v + w * vals[t]
        elif k == PROD:
            v = 1
            for t, e in d:
                b = vals[t]
                if e < 0 and b == 0:
                    v = v * float("nan")
                else:
                    try:
                        v = v * b**e
                    except OverflowError:
                        v = float("nan")
        elif k == FN:
            x = vals[d[1]]
            n = d[0]
            try:
                if n == "tanh":
                    v = m.tanh(x)
                elif n == "sigmoid":
                    v = 1 / (1 + m.exp(-x)) if x > -700 else m.exp(x)
                elif n == "exp":
                    v = m.exp(x)
                elif n == "log":
                    v = m.log(x) if x > 0 else float("nan")
                elif n == "sin":
                    v = m.sin(x)
                elif n == "cos":
                    v = m.cos(x)
                elif n == "sqrt":
                    v = m.sqrt(x) if x >= 0 else float("nan")
                elif n == "round32":
                    v = x if mp is not None else struct.unpack("f", struct.pack("f", x))[0]
                elif n == "round16":
                    v = x if mp is not None else struct.unpack("e", struct.pack("e", x))[0]
                else:
                    raise NotImplementedError(n)
            except OverflowError:
                v = float("inf")
            except ValueError:
                v = float("nan")
        elif k == ITE:
            v = vals[d[1]] if vals[d[0]] else vals[d[2]]
        elif k == GT:
            v = vals[d] > 0
        elif k == EQ:
            v = vals[d] == 0
        elif k == NOT:
            v = not vals[d]
        elif k == AND:
            v = all(vals[t] for t in d)
        elif k == OR:
            v = any(vals[t] for t in d)
        vals[a] = v
    return [vals[r] for r in roots]


def show(a, depth=4):
    k = kind[a]
    d = data[a]
    if k == C:
        return str(d)
    if k in (V, BV):
        return d
    if depth == 0:
        return "…"
    if k == SUM:
        s = [str(d[0])] if d[0] != 0 else []
        s += [("" if w == 1 else str(w) + "*") + show(t, depth - 1) for t, w in d[1]]
        return "(" + " + ".join(s) + ")"
    if k == PROD:
        return "*".join(show(t, depth - 1) + ("" if e == 1 else "^%d" % e) for t, e in d)
    if k == FN:
        return d[0] + "(" + show(d[1], depth - 1) + ")"
    if k == ITE:
        return "ite(%s, %s, %s)" % tuple(show(t, depth - 1) for t in d)
    if k == GT:
        return show(d, depth - 1) + ">0"
    if k == EQ:
        return show(d, depth - 1) + "=0"
    if k == NOT:
        return "!(" + show(d, depth - 1) + ")"
    return ("&" if k == AND else "|").join("(" + show(t, depth - 1) + ")" for t in d)


reset()
