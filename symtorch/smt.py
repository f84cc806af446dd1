"""Deciding equalities and assertions over terms with z3.

prove_eq(pairs)  - for all values of the variables satisfying assumptions and path conditions: l == r?
prove(cond)      - same for a boolean term.

An equality is decided in up to three steps, each of which ends in a z3 verdict on "exists values with l != r":
  1. fractions cleared, transcendental atoms and case distinctions opaque: polynomial (in)equality;
  2. sigmoid and tanh rewritten through exp;
  3. case split over the conditions of the ITEs, every branch checked for feasibility by z3 and closed as in 1/2,
     or by z3's nonlinear solver with the function axioms.
A branch that is feasible and not closed is a candidate counterexample; it is only reported after replay.
"""
import random
import sys
import time
from fractions import Fraction

from . import terms as T

_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.path.append(_P)
import z3  # noqa: E402

sys.path.remove(_P)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.equalities = 0
        self.identical = 0
        self.splits = 0

    def as_dict(self):
        return dict(self.__dict__)


class Unresolved(Exception):
    pass


class Prover:
    def __init__(self, timeout_ms=20000, seed=1):
        self.stats = Stats()
        self.timeout = timeout_ms
        self.zc = {}
        self.fr = {}
        self.assume = []  # bool term ids
        self.rng = random.Random(seed)
        self.max_leaves = 4096
        self.brackets = False

    # -------------------------------------------------------------- z3 conversion (plain, with division)
    def z(self, root):
        zc = self.zc
        if root in zc:
            return zc[root]
        stack = [root]
        while stack:
            a = stack[-1]
            if a in zc:
                stack.pop()
                continue
            todo = [t for t in T.children(a) if t not in zc] if T.kind[a] != T.FN else []
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            zc[a] = self._z1(a)
        return zc[root]

    def _num(self, c):
        if isinstance(c, Fraction):
            return z3.RealVal("%d/%d" % (c.numerator, c.denominator))
        return z3.RealVal(int(c))

    def _z1(self, a):
        k, d = T.kind[a], T.data[a]
        zc = self.zc
        if k == T.C:
            return self._num(d)
        if k == T.V:
            return z3.Real("v%d" % a)
        if k == T.BV:
            return z3.Bool("b%d" % a)
        if k == T.SUM:
            parts = [zc[t] if w == 1 else self._num(w) * zc[t] for t, w in d[1]]
            if d[0] != 0:
                parts.append(self._num(d[0]))
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if k == T.PROD:
            num, den = [], []
            for t, e in d:
                (num if e > 0 else den).extend([zc[t]] * abs(e))
            n = z3.Product(num) if num else z3.RealVal(1)
            if den:
                return n / (z3.Product(den) if len(den) > 1 else den[0])
            return n
        if k == T.FN:
            return z3.Real("f%d" % a)
        if k == T.ITE:
            return z3.If(self._zb(d[0]), zc[d[1]], zc[d[2]])
        if k == T.GT:
            return zc[d] > 0
        if k == T.EQ:
            return zc[d] == 0
        if k == T.NOT:
            return z3.Not(self._zb(d))
        if k == T.AND:
            return z3.And([self._zb(t) for t in d])
        if k == T.OR:
            return z3.Or([self._zb(t) for t in d])
        raise AssertionError(k)

    def _zb(self, a):
        if a == 0:
            return z3.BoolVal(False)
        if a == 1:
            return z3.BoolVal(True)
        return self.z(a)

    # -------------------------------------------------------------- fractions
    def frac(self, root):
        """(numerator z3 expr, {base id: exponent}); base stands for the numerator of frac(base)"""
        fr = self.fr
        stack = [root]
        while stack:
            a = stack[-1]
            if a in fr:
                stack.pop()
                continue
            k, d = T.kind[a], T.data[a]
            if k == T.SUM:
                ch = [t for t, _ in d[1]]
            elif k == T.PROD:
                ch = [t for t, _ in d]
            else:
                ch = []
            todo = [t for t in ch if t not in fr]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            if k == T.SUM:
                common = {}
                for t, _ in d[1]:
                    for b, e in fr[t][1].items():
                        if common.get(b, 0) < e:
                            common[b] = e
                parts = []
                for t, w in d[1]:
                    n, den = fr[t]
                    f = [n] if w == 1 else [self._num(w), n]
                    for b, e in common.items():
                        m = e - den.get(b, 0)
                        f.extend([fr[b][0]] * m)
                    parts.append(z3.Product(f) if len(f) > 1 else f[0])
                if d[0] != 0:
                    f = [self._num(d[0])]
                    for b, e in common.items():
                        f.extend([fr[b][0]] * e)
                    parts.append(z3.Product(f) if len(f) > 1 else f[0])
                fr[a] = (z3.Sum(parts) if len(parts) > 1 else parts[0], common)
            elif k == T.PROD:
                num = []
                den = {}
                for t, e in d:
                    n, dd = fr[t]
                    if e > 0:
                        num.extend([n] * e)
                        for b, x in dd.items():
                            den[b] = den.get(b, 0) + x * e
                    else:
                        den[t] = den.get(t, 0) - e
                        for b, x in dd.items():
                            num.extend([fr[b][0]] * (x * -e))
                fr[a] = (z3.Product(num) if len(num) > 1 else (num[0] if num else z3.RealVal(1)), den)
            elif k == T.ITE:
                fr[a] = (z3.Real("i%d" % a), {})
            elif k in (T.C, T.V, T.FN):
                fr[a] = (self.z(a), {})
            else:
                fr[a] = (z3.If(self._zb(a), z3.RealVal(1), z3.RealVal(0)), {})
        return fr[root]

    def residual(self, l, r):
        """z3 polynomial that vanishes iff l == r wherever both are defined"""
        n, den = self.frac(T.sub(l, r))
        return n

    def poly_zero(self, l, r):
        if l == r:
            return True
        t0 = time.time()
        try:
            e = z3.simplify(self.residual(l, r), som=True, som_blowup=100000, flat=True)
        finally:
            self.stats.solver_s += time.time() - t0
        return z3.is_rational_value(e) and e.as_fraction() == 0

    # -------------------------------------------------------------- axioms for function atoms
    def axioms(self, roots):
        ax = []
        reach = T.reachable(roots)
        sc = {}
        for a in sorted(reach):
            if T.kind[a] == T.V and a in T.POSITIVE:
                ax.append(self.z(a) > 0)
            if T.kind[a] != T.FN:
                continue
            n, x = T.data[a][0], T.data[a][1]
            f = self.z(a)
            if self.brackets:
                from . import extended as X

                ax += X.axioms(z3, self._num, a, n, f, self.z(x))
            if n == "exp":
                ax.append(f > 0)
                y = self.z(x)
                ax.append(f >= y + 1)
                ax.append(z3.Implies(y <= 0, f <= 1))
                ax.append((f == 1) == (y == 0))
            elif n == "sqrt":
                y = self.z(x)
                ax.append(f >= 0)
                ax.append(z3.Implies(y >= 0, f * f == y))
            elif n == "sigmoid":
                ax.append(z3.And(f > 0, f < 1))
                y = self.z(x)
                ax.append((f > self._num(Fraction(1, 2))) == (y > 0))
                ax.append((f == self._num(Fraction(1, 2))) == (y == 0))
            elif n == "tanh":
                ax.append(z3.And(f > -1, f < 1))
                y = self.z(x)
                ax.append((f > 0) == (y > 0))
                ax.append((f == 0) == (y == 0))
            elif n == "log":
                y = self.z(x)
                ax.append(z3.Implies(y > 0, f <= y - 1))
                ax.append(z3.Implies(y >= 1, f >= 0))
                ax.append(z3.Implies(y == 1, f == 0))
            elif n in ("sin", "cos"):
                sc.setdefault(x, {})[n] = f
                ax.append(z3.And(f >= -1, f <= 1))
                ax.append(z3.Implies(self.z(x) == 0, f == (0 if n == "sin" else 1)))
            elif n in ("round32", "round16"):
                y = self.z(x)
                ax.append((f > 0) == (y > 0))
                ax.append((f == 0) == (y == 0))
        for x, d in sc.items():
            if len(d) == 2:
                ax.append(d["sin"] * d["sin"] + d["cos"] * d["cos"] == 1)
        for a in reach:
            if T.kind[a] == T.PROD:
                for t, e in T.data[a]:
                    if e < 0:
                        ax.append(self.z(t) != 0)
        return ax

    def _check(self, s, count=True):
        t0 = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r

    def solver(self, bools, timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        s.set("random_seed", 7)
        roots = [b for b in bools if b > 1]
        for b in bools:
            s.add(self._zb(b))
        for x in self.axioms(roots):
            s.add(x)
        return s

    _feas = None

    def feasible(self, bools):
        """False only if z3 refutes the conjunction"""
        if self._feas is None:
            self._feas = {}
        key = frozenset(b for b in bools if b != 1)
        if 0 in key:
            return False
        if not key:
            return True
        r = self._feas.get(key)
        if r is None:
            r = self._check(self.solver(sorted(key), 5000)) != z3.unsat
            self._feas[key] = r
        return r

    # -------------------------------------------------------------- parts of a difference that vanish separately
    def parts(self, d):
        """terms whose sum is d after multiplication with products of variables: if each is zero, so is d.
        Summands are grouped by their factors among the variables that occur nowhere else (coefficients of a
        polynomial in those variables), and then by shared variables."""
        if T.kind[d] != T.SUM:
            return [d]
        const, ts = T.data[d]
        if len(ts) > 2000 or len(ts) < 2:
            return [d]
        if self._vars is None:
            self._vars = {}
        fac = []
        inner = set()
        for t, w in ts:
            if T.kind[t] == T.V:
                fac.append(((t,), [], w))
                continue
            vs, rest = [], []
            if T.kind[t] == T.PROD:
                for u, e in T.data[t]:
                    if T.kind[u] == T.V and e > 0:
                        vs.extend([u] * e)
                    else:
                        rest.append((u, e))
            else:
                rest.append((t, 1))
            for u, _ in rest:
                inner |= self.vars_of(u)
            fac.append((tuple(vs), rest, w))
        groups = {}
        for vs, rest, w in fac:
            key = tuple(v for v in vs if v not in inner)
            o = 1
            for v in vs:
                if v in inner:
                    o = T.mul(o, v)
            for u, e in rest:
                o = T.mul(o, u if e == 1 else T.powi(u, e))
            groups.setdefault(key, []).append(T.scale(o, w))
        if const != 0:
            groups.setdefault((), []).append(T.const(const))
        out = []
        for key, g in groups.items():
            out += self.components(g)
        return [o for o in out if o != 0]

    _vars = None
    whole = False

    def vars_of(self, u):
        r = self._vars.get(u)
        if r is None:
            r = self._vars[u] = frozenset(v for v in T.variables([u]) if T.kind[v] == T.V)
        return r

    def components(self, g):
        """sums over classes of summands that share no variable"""
        if len(g) == 1:
            return g
        rep = {}

        def find(v):
            while rep.setdefault(v, v) != v:
                rep[v] = rep[rep[v]]
                v = rep[v]
            return v

        vs = [self.vars_of(t) if t > 1 else frozenset() for t in g]
        for s in vs:
            it = iter(s)
            f = next(it, None)
            for v in it:
                a, b = find(f), find(v)
                if a != b:
                    rep[a] = b
        cl, consts = {}, []
        for t, s in zip(g, vs):
            if s:
                cl.setdefault(find(next(iter(s))), []).append(t)
            else:
                consts.append(t)
        if len(cl) < 2 or consts and T.addn(consts) != 0:
            # a constant left over can only cancel against one of the classes: keep everything together
            return [T.addn(g)]
        return [T.addn(c) for c in cl.values()]

    # -------------------------------------------------------------- the proof search
    def prove_eq(self, pairs, conds, whole=False):
        """pairs: [(l, r)].  Returns None when every pair is proved equal under conds, otherwise a candidate
        (index, literals) for the first pair that could not be proved."""
        st = self.stats
        open_ = []
        exprs = []
        st.equalities += len(pairs)
        for k, (l, r) in enumerate(pairs):
            if l == r:
                st.identical += 1
                continue
            ps = [T.sub(l, r)] if whole else self.parts(T.sub(l, r))
            for d in ps:
                t0 = time.time()
                e = z3.simplify(self.residual(d, 0), som=True, som_blowup=100000, flat=True)
                st.solver_s += time.time() - t0
                exprs.append(e)
                if not (z3.is_rational_value(e) and e.as_fraction() == 0):
                    open_.append((k, d, len(ps) > 1))
        # one solver query for the whole assertion (violated iff some residual is non-zero)
        s = z3.Solver()
        s.set("timeout", self.timeout)
        zero = [e for e in exprs if z3.is_rational_value(e) and e.as_fraction() == 0]
        s.add(z3.Or([e != 0 for e in zero] + [self.z(l) != self.z(r) for l, r in pairs if l == r]))
        if self._check(s) != z3.unsat:
            raise Unresolved("identity query")
        leaves = {}
        for k, d, part in open_:
            self.whole = whole
            c = self._split(d, 0, list(conds), {}, leaves.setdefault(k, [0]))
            if c is not None:
                c["part"] = c.get("part") or part
                # the part differs: so do the sides, for almost all values of the variables it was multiplied with
                c["l"], c["r"] = pairs[k]
                return k, c
        return None

    def _split(self, l, r, lits, memo, leaves):
        if l == r or self.poly_zero(l, r):
            return None
        at = T.ite_conds([l, r])
        if not at:
            ps = [] if self.whole else self.parts(T.sub(l, r))
            if len(ps) > 1:
                for d in ps:
                    c = self._split(d, 0, lits, memo, leaves)
                    if c is not None:
                        c["part"] = True
                        return c
                return None
            return self._leaf(l, r, lits, leaves)
        a = at[0]
        self.stats.splits += 1
        for v in (1, 0):
            lit = a if v else T.not_(a)
            nl = lits + [lit]
            if not self.feasible(nl):
                continue
            m = {}
            c = self._split(T.cofactor(l, {a: v}, m), T.cofactor(r, {a: v}, m), nl, memo, leaves)
            if c is not None:
                return c
        return None

    def _leaf(self, l, r, lits, leaves):
        leaves[0] += 1
        if leaves[0] > self.max_leaves:
            raise Unresolved("too many cases")
        m = {}
        l2, r2 = T.to_exp(l, m), T.to_exp(r, m)
        if l2 == r2 or self.poly_zero(l2, r2):
            return None
        gs = T.implied_zero(lits)
        l3, r3 = l2, r2
        while gs:
            # variables given by equations among the branch conditions
            e = T.solve_for(gs[0])
            gs = gs[1:]
            if e is None:
                continue
            m = {}
            try:
                l3, r3 = T.subst(l3, {e[0]: e[1]}, m), T.subst(r3, {e[0]: e[1]}, m)
                gs = [T.subst(g, {e[0]: e[1]}, m) for g in gs]
            except T.NonFinite:
                break
            if l3 == r3 or self.poly_zero(l3, r3):
                return None
        # nonlinear solver with axioms and the branch conditions
        bools = [b for b in lits if b != 1]
        s = self.solver(bools, min(self.timeout, 10000))
        for x in self.axioms([l2, r2]):
            s.add(x)
        s.add(self.residual(l2, r2) != 0)
        res = self._check(s)
        if res == z3.unsat:
            return None
        if res == z3.sat:
            mod = s.model()
            return {"lits": lits, "l": l, "r": r, "model": self._model(mod, [l2, r2] + bools), "sat": True}
        return {"lits": lits, "l": l, "r": r, "model": None, "sat": False}

    def prove(self, cond, conds):
        """boolean assertion.  None if proved, else a candidate"""
        self.stats.equalities += 1
        if cond == 1:
            self.stats.identical += 1
            return None
        nl = list(conds) + [T.not_(cond)]
        if 0 in nl:
            return None
        s = self.solver([b for b in nl if b != 1])
        r = self._check(s)
        if r == z3.unsat:
            return None
        return {
            "lits": nl, "l": cond, "r": 1, "model": self._model(s.model(), nl) if r == z3.sat else None,
            "sat": r == z3.sat,
        }

    # -------------------------------------------------------------- models
    def _model(self, mod, roots):
        env = {}
        for a in T.variables([r for r in roots if r > 1]):
            v = mod.eval(self.z(a), model_completion=False)
            if T.kind[a] == T.BV:
                env[a] = z3.is_true(v)
            elif z3.is_rational_value(v):
                env[a] = v.as_fraction()
            elif z3.is_algebraic_value(v):
                env[a] = v.approx(20).as_fraction()
        return env

    def visible(self, l, r, lits):
        """models where l and r differ visibly (transcendental atoms relaxed to their axioms)"""
        if not (l > 1 or r > 1):
            return
        m = {}
        l2, r2 = T.to_exp(l, m), T.to_exp(r, m)
        bools = [b for b in lits if b != 1]
        vs = [v for v in T.variables([x for x in [l2, r2] + bools if x > 1]) if T.kind[v] == T.V]
        for delta in (Fraction(1), Fraction(1, 20)):
            s = self.solver(bools, 4000)
            for x in self.axioms([l2, r2]):
                s.add(x)
            for v in vs:
                s.add(self.z(v) <= 100, self.z(v) >= -100)
            d = self.z(l2) - self.z(r2)
            q = self._num(delta)
            s.add(z3.Or(d >= q, d <= -q))
            if self._check(s) == z3.sat:
                yield self._model(s.model(), [x for x in [l2, r2] + bools if x > 1])

    def points(self, lits, roots, base_env, n=12, bound=None):
        """concrete points satisfying lits (as z3 sees them), generic where possible"""
        bools = [b for b in lits if b != 1]
        vs = [v for v in T.variables(bools) if T.kind[v] == T.V]
        bvs = [v for v in T.variables(bools) if T.kind[v] == T.BV]
        for k in range(n):
            s = self.solver(bools, 5000)
            if bound:
                s.push()
                for v in vs:
                    s.add(self.z(v) <= bound, self.z(v) >= -bound)
                if self._check(s) != z3.sat:
                    s.pop()
            if self._check(s) != z3.sat:
                return
            env = {}
            order = list(vs)
            self.rng.shuffle(order)
            for v in order[:40]:
                if k == 0 and v in base_env:
                    q = Fraction(str(base_env[v]))
                else:
                    q = Fraction(self.rng.randint(-3000, 3000), 1000)
                s.push()
                s.add(self.z(v) == self._num(q))
                if s.check() == z3.sat:
                    continue
                s.pop()
            if self._check(s) != z3.sat:
                return
            m = s.model()
            for v in vs:
                x = m.eval(self.z(v), model_completion=True)
                env[v] = x.as_fraction() if z3.is_rational_value(x) else x.approx(20).as_fraction()
            for v in bvs:
                env[v] = z3.is_true(m.eval(self.z(v), model_completion=True))
            yield env
