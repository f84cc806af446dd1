"""Scenarios: run the real code symbolically over all paths, decide the assertions with z3, replay counterexamples."""
import contextlib
import functools
import hashlib
import json
import math
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction

import torch

from . import engine as E
from . import extended as X
from . import smt
from . import terms as T
from .engine import ST, SymTensor, Unsupported

warnings.filterwarnings("ignore")
REPO = os.environ.get("NNJ_REPO", "/repo")


class Abort(BaseException):
    """this path is outside the scenario's assumptions"""


class Path:
    """depth-first exploration by re-execution"""

    def __init__(self, prefix, prover):
        self.prefix = prefix
        self.trace = []  # decisions taken: ('b', cond, value) / ('c', n, k)
        self.conds = []
        self.pending = []
        self.prover = prover

    def fork(self, cond):
        if cond in (0, 1):
            return bool(cond)
        if cond in self.conds:
            return True
        if T.not_(cond) in self.conds:
            return False
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k][2]
        else:
            t = self.prover.feasible(self.conds + [cond])
            f = self.prover.feasible(self.conds + [T.not_(cond)])
            if not t and not f:
                raise Abort()
            if t and f:
                # prefer the shadow's side first so that at least one path is validated against the real run
                v = self._shadow(cond)
                self.pending.append(self.trace + [("b", None, not v)])
            else:
                v = t
        self.trace.append(("b", None, v))
        self.conds.append(cond if v else T.not_(cond))
        return v

    def _shadow(self, cond):
        try:
            return bool(T.evaluate([cond], ST.env)[0])
        except Exception:
            return True

    def choose(self, n):
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k][2]
        else:
            v = 0
            for j in range(1, n):
                self.pending.append(self.trace + [("c", n, j)])
        self.trace.append(("c", n, v))
        return v

    def choices(self):
        return [t[2] for t in self.trace if t[0] == "c"]


def _outside(f):
    """run the harness's own tensor code outside the symbolic mode"""

    @functools.wraps(f)
    def g(self, *a, **k):
        with no_mode():
            return f(self, *a, **k)

    return g


class Ctx:
    def __init__(self, mode, dtype=torch.float32, env=None, choices=None, fullenv=None):
        self.mode = mode
        self.sym = mode == "sym"
        self.dtype = dtype
        self.env = env or {}  # name -> number (concrete mode)
        self.checks = []  # (label, lhs, rhs)
        self.assumptions = []
        self._choices = list(choices or [])
        self.nmodels = 0
        self.inputs = {}
        self.tensors = []  # keep mutation references
        self.rng = random.Random(5)

    # ---- inputs
    @_outside
    def tensor(self, name, *shape, dtype=None, positive=False, values=None, unit=False):
        """arbitrary reals; positive: > 0; unit: in [0, 1]"""
        dtype = dtype or self.dtype
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, torch.Size)):
            shape = tuple(shape[0])
        if self.sym:
            if positive and values is None:
                n = 1
                for s in shape:
                    n *= s
                values = [abs(E.shadow_value()) + 0.1 for _ in range(n)]
            if unit:
                n = 1
                for s in shape:
                    n *= s
                values = [round(0.05 + 0.25 * abs(E.shadow_value()) % 0.25, 4) for _ in range(n)]
            t = E.sym(name, shape, dtype, values)
            if unit:
                for i in t.ids.reshape(-1).tolist():
                    ST.path.conds += [c for c in (T.ge(i, 0), T.ge(1, i)) if c not in ST.path.conds]
            if positive:
                for i in t.ids.reshape(-1).tolist():
                    T.POSITIVE.add(i)
            self.inputs[name] = t
            return t
        n = 1
        for s in shape:
            n *= s
        vals = [float(self.env.get("%s[%d]" % (name, k), 0.5)) for k in range(n)]
        return torch.tensor(vals, dtype=dtype).reshape(shape)

    @_outside
    def const(self, data, dtype=None):
        t = torch.tensor(data, dtype=dtype or self.dtype)
        return E.lift(t) if self.sym and not isinstance(t, SymTensor) else t

    def model(self, build, prefix=None):
        """build() constructs a module with the library's own constructors; parameters become arbitrary reals"""
        prefix = prefix or "m%dw" % self.nmodels
        self.nmodels += 1
        with no_mode():
            m = build()
            if self.dtype != torch.float32:
                m = m.to(self.dtype)
        if self.sym:
            with no_mode():
                E.symbolize_module(m, prefix)
        else:
            seen = []
            n = 0
            for mod in m.modules():
                for p in mod._parameters.values():
                    if p is None or any(p is q for q in seen):
                        continue
                    seen.append(p)
                    vals = [float(self.env.get("%s%d[%d]" % (prefix, n, k), 0.5)) for k in range(p.numel())]
                    with torch.no_grad():
                        p.copy_(torch.tensor(vals, dtype=p.dtype).reshape(p.shape))
                    n += 1
        return m

    def choose(self, n):
        """nondeterministic choice among n alternatives (all are explored)"""
        if self.sym:
            return ST.path.choose(n)
        return self._choices.pop(0) if self._choices else 0

    @_outside
    def assume(self, cond):
        """restrict the inputs (boolean term id or None in concrete mode)"""
        if self.sym:
            c = cond() if callable(cond) else cond
            if c == 0:
                raise Abort()
            if c != 1:
                ST.path.conds.append(c)

    # ---- assertions
    @_outside
    def eq(self, label, lhs, rhs, rtol=None):
        self.checks.append(("eq", label, snapshot(lhs), snapshot(rhs() if callable(rhs) and self.sym else (None if callable(rhs) else rhs)), callable(rhs)))

    @_outside
    def true(self, label, cond):
        """a Python boolean that must hold on every path"""
        self.checks.append(("true", label, bool(cond), True, False))

    @_outside
    def holds(self, label, cond_ids, conc=None):
        """a boolean term that must hold; conc() gives its value in concrete mode"""
        self.checks.append(
            ("holds", label, cond_ids() if self.sym else (conc() if conc else True), True, False)
        )

    @_outside
    def finite(self, label, v):
        """no entry is infinite or NaN"""
        bad = []
        for t in _leaves(v):
            if self.sym:
                bad += [X.sp(i) for i in E.ids_of(t).reshape(-1).tolist() if X.sp(i)]
            elif not bool(torch.isfinite(t).all()):
                bad += [str(e) for e in t.reshape(-1).tolist() if not math.isfinite(e)]
        self.checks.append(("true", label + " is finite" + (" (got %s)" % bad[0] if bad else ""), not bad, True, False))

    @_outside
    def bounded(self, name, *shape, hi=1e4, lo=0):
        """arbitrary values with lo <= |v| <= hi"""
        t = self.tensor(name, *shape)
        if self.sym:
            was, X._busy[0] = X._busy[0], True
            try:
                h, l = T.const(T.float_to_num(hi)), T.const(T.float_to_num(lo))
                for i in t.ids.reshape(-1).tolist():
                    X.VB[i] = (lo, hi)
                    cs = [T.ge(h, i), T.ge(i, T.neg(h))]
                    if lo:
                        cs.append(T.or_([T.ge(i, l), T.ge(T.neg(l), i)]))
                    ST.path.conds += [c for c in cs if c not in ST.path.conds]
            finally:
                X._busy[0] = was
        return t

    def fail(self, label):
        self.true(label, False)


@contextlib.contextmanager
def no_mode():
    """run outside the symbolic mode (constructors)"""
    from torch.utils._python_dispatch import _disable_current_modes

    with _disable_current_modes():
        yield


def snapshot(v):
    """values now (later in-place changes must not affect a recorded result)"""
    if isinstance(v, SymTensor):
        return Snap(v.ids.clone(), v.shadow.clone())
    if isinstance(v, torch.Tensor):
        return v.detach().clone()
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    return v


def _leaves(v):
    if v is None:
        return []
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in _leaves(x)]
    return [v]


class Snap:
    def __init__(self, ids, shadow):
        self.ids = ids
        self.shadow = shadow

    @property
    def shape(self):
        return tuple(self.ids.shape)


class Terms:
    """an oracle value: nested lists of term ids"""

    def __init__(self, nested, dtype=None):
        self.ids = torch.tensor(nested, dtype=torch.int64) if not isinstance(nested, torch.Tensor) else nested
        self.dtype = dtype

    @property
    def shape(self):
        return tuple(self.ids.shape)


def flatten_pairs(l, r, path=""):
    """structural comparison; yields ('pair', l_id, r_id, where) or ('shape', message)"""
    if l is None or r is None:
        if l is not r:
            yield ("shape", "%s: got %s, expected %s" % (path, _desc(l), _desc(r)))
        return
    if isinstance(l, (list, tuple)) or isinstance(r, (list, tuple)):
        if not (isinstance(l, (list, tuple)) and isinstance(r, (list, tuple))) or len(l) != len(r):
            yield ("shape", "%s: got %s, expected %s" % (path, _desc(l), _desc(r)))
            return
        for k, (a, b) in enumerate(zip(l, r)):
            yield from flatten_pairs(a, b, path + "[%d]" % k)
        return
    if isinstance(l, (bool, int, float, str)) or isinstance(r, (bool, int, float, str)):
        if l != r:
            yield ("shape", "%s: got %r, expected %r" % (path, l, r))
        return
    ls, rs = tuple(l.shape), tuple(r.shape)
    if ls != rs:
        yield ("shape", "%s: got shape %s, expected %s" % (path, ls, rs))
        return
    yield ("tensors", l, r, path)


def _desc(v):
    if v is None:
        return "None"
    if isinstance(v, (list, tuple)):
        return "list of %d" % len(v)
    if hasattr(v, "shape"):
        return "tensor of shape %s" % (tuple(v.shape),)
    return repr(v)


def ids_list(v):
    if isinstance(v, (Snap, Terms)):
        return v.ids.reshape(-1).tolist()
    return E.ids_of(v).reshape(-1).tolist()


# ------------------------------------------------------------------------------------------------ coverage of /repo
class Coverage:
    TOOL = 3

    def __init__(self):
        self.lines = {}
        self.funcs = set()
        self.root = os.path.join(REPO, "nnj") + os.sep

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "symtorch")
        except ValueError:
            return
        ev = m.events

        def on_line(code, line):
            if code.co_filename.startswith(self.root):
                self.lines.setdefault(code.co_filename[len(self.root) :], set()).add(line)
            return m.DISABLE

        def on_start(code, off):
            if code.co_filename.startswith(self.root):
                self.funcs.add(code.co_filename[len(self.root) :] + ":" + code.co_qualname)
            return m.DISABLE

        m.register_callback(self.TOOL, ev.LINE, on_line)
        m.register_callback(self.TOOL, ev.PY_START, on_start)
        m.set_events(self.TOOL, ev.LINE | ev.PY_START)

    def stop(self):
        m = sys.monitoring
        try:
            m.set_events(self.TOOL, 0)
            m.restart_events()
            m.free_tool_id(self.TOOL)
        except ValueError:
            pass


# ------------------------------------------------------------------------------------------------ scenario
class Scenario:
    def __init__(self, name, fn, max_paths=256, tier="quick", timeout_ms=20000, bounds="", dtype=torch.float32, ext=False):
        self.name = name
        self.dtype = dtype  # float64: replay in double precision only, with a tolerance below single precision
        self.fn = fn
        self.max_paths = max_paths
        self.tier = tier
        self.timeout_ms = timeout_ms
        self.bounds = bounds
        self.ext = ext  # single-precision range semantics


def _unround(env, lits):
    """move values off the single-precision grid, staying inside the region"""
    out = {a: (v if isinstance(v, bool) else float(v) * (1 + math.pi * 1e-5) + 1e-6 * math.e) for a, v in env.items()}
    try:
        if all(T.evaluate([c], out)[0] for c in lits):
            return out
    except Exception:
        pass
    return env


def _names(env):
    return {T.data[a]: v for a, v in env.items() if T.kind[a] in (T.V, T.BV)}


def run_concrete(sc, names, choices, dtype):
    """replay on the unmodified library with ordinary tensors"""
    ctx = Ctx("conc", dtype, names, choices)
    torch.manual_seed(0)
    try:
        sc.fn(ctx)
    except (Abort, E.Infeasible):
        return ctx, None
    except Exception as e:  # the library's own exception
        return ctx, e
    return ctx, None


def _round_env(env, dtype):
    out = {}
    for a, v in env.items():
        if isinstance(v, bool):
            out[a] = v
        else:
            out[a] = float(torch.tensor(float(v), dtype=dtype))
    return out


def _tensor_vals(v):
    if isinstance(v, torch.Tensor):
        return [float(x) for x in v.detach().to(torch.float64).reshape(-1).tolist()]
    raise TypeError(v)


class Result:
    def __init__(self, name):
        self.name = name
        self.status = "ok"
        self.message = ""
        self.replay = None
        self.paths = 0
        self.checks = 0
        self.pairs = 0
        self.stats = None
        self.validated = 0
        self.ops = {}
        self.funcs = set()
        self.lines = {}
        self.wall = 0.0
        self.vars = 0
        self.terms = 0
        self.domain_probes = 0
        self.witness = None


def close(l, r, dtype, tight=False):
    if math.isnan(r) or math.isinf(r):
        return True
    if math.isnan(l) or math.isinf(l):
        return False
    rt, at = (2e-3, 2e-3) if dtype == torch.float32 else ((1e-10, 1e-11) if tight else (1e-6, 1e-8))
    return abs(l - r) <= at + rt * max(abs(r), abs(l))


def _limit(t, env, a):
    """the reference is a derivative taken case by case: where a case distinction changes (and only there) it need
    not be the derivative.  True if it tends to a from every side, i.e. a is the derivative there."""
    if t <= 1 or not any(float(g) == 0 for g in T.evaluate(T.kinks([t]), env)):
        return False
    rng = random.Random(3)
    vs = [v for v in T.variables([t]) if T.kind[v] == T.V]
    for _ in range(12):
        e = dict(env)
        for v in vs:
            e[v] = float(e[v]) + rng.choice((-1, 1)) * rng.uniform(1, 2) * 1e-9 * (1 + abs(float(e[v])))
        b = float(T.evaluate([t], e)[0])
        if not abs(a - b) <= 1e-2 * (1 + abs(a)):
            return False
    return True


def compare_concrete(ctx, symchecks, env, dtype, tight=False):
    """compare a concrete run against the oracle terms / its own right-hand sides; returns a message or None"""
    for k, ch in enumerate(ctx.checks):
        kind, label, lhs, rhs, oracle = ch
        if kind == "true":
            if not lhs:
                return "%s is false" % label
            continue
        if kind == "holds":
            if not lhs:
                return "%s does not hold" % label
            continue
        if oracle:
            if k >= len(symchecks) or symchecks[k][1] != label:
                continue
            rhs = symchecks[k][3]
        for p in flatten_pairs(lhs, rhs, label):
            if p[0] == "shape":
                return p[1]
            _, l, r, where = p
            if isinstance(l, torch.Tensor) and l.dtype == torch.bool:
                continue
            lv = _tensor_vals(l)
            if isinstance(r, (Terms, Snap)):
                rv = [float(x) for x in T.evaluate(ids_list(r), env)]
            else:
                rv = _tensor_vals(r)
            for j, (a, b) in enumerate(zip(lv, rv)):
                if not close(a, b, dtype, tight):
                    if oracle and isinstance(r, (Terms, Snap)) and _limit(ids_list(r)[j], env, a):
                        ctx.at_kink = True
                        continue
                    return "%s entry %d: got %.9g, expected %.9g" % (where, j, a, b)
    return None


def run_scenario(sc, seed=1, cov=None, deadline=None, limit=None):
    res = Result(sc.name)
    t0 = time.time()
    import signal

    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit) if limit else 0)
    try:
        _run_scenario(sc, seed, res, deadline)
    except Unsupported as e:
        res.status, res.message = "undecided", "operator not encoded: %s (%s)" % (e, _where())
    except (smt.Unresolved, T.TermLimit) as e:
        res.status, res.message = "undecided", "%s %s" % (type(e).__name__, e)
    except T.NonFinite as e:
        res.status, res.message = "undecided", "non-finite constant %s" % e
    except MemoryError:
        res.status, res.message = "undecided", "memory limit of the scenario reached"
    except Exception as e:
        if "out of memory" in str(e):  # z3's own
            res.status, res.message = "undecided", "memory limit of the scenario reached"
        else:
            res.status, res.message = "error", traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res.wall = time.time() - t0
    res.ops = dict(ST.ops)
    res.terms = len(T.kind)
    return res


def _where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    for f in reversed(tb):
        if f.filename.startswith(REPO):
            return "%s:%d" % (f.filename, f.lineno)
    return ""


def _alarm(*_):
    raise smt.Unresolved("time limit of the scenario reached")


def _run_scenario(sc, seed, res, deadline):
    T.reset()
    E.ST.__init__()
    X.VB.clear()
    ST.rng.seed(seed * 7919 + 13)
    ST.double = sc.dtype == torch.float64
    prover = smt.Prover(sc.timeout_ms, seed)
    prover.brackets = sc.ext
    res.stats = prover.stats.as_dict()
    work = [[]]
    notes = []
    while work:
        prefix = work.pop()
        E._fresh[0] = 0
        res.paths += 1
        if res.paths > sc.max_paths:
            raise smt.Unresolved("more than %d paths" % sc.max_paths)
        path = Path(prefix, prover)
        ST.path = path
        X.reset_path()
        ctx = Ctx("sym", sc.dtype)
        exc = None
        torch.manual_seed(0)
        try:
            with X.active() if sc.ext else contextlib.nullcontext(), E.SymMode():
                sc.fn(ctx)
        except Abort:
            work.extend(path.pending)
            continue
        except (T.TermLimit, smt.Unresolved):
            raise
        except (Unsupported, T.NonFinite) as e:
            # what was asserted before is still decided
            if isinstance(e, Unsupported):
                notes.append("operator not encoded: %s (%s)" % (e, _where()))
            else:
                notes.append("non-finite constant %s" % e)
        except Exception as e:
            if isinstance(e, MemoryError) or "allocate memory" in str(e):
                raise smt.Unresolved("memory limit of the scenario reached")
            exc = e
            tb = traceback.format_exc()
        work.extend(path.pending)
        if exc is not None:
            v = replay_exception(sc, path, exc, prover, res)
            if v == "outside":
                continue
            if v is None:
                raise RuntimeError("exception in the symbolic run that does not reproduce: %s\n%s" % (exc, tb[-1200:]))
            res.status, res.message, res.replay = "violation", v[0], v[1]
            return
        # vacuity: the path must be feasible
        if not prover.feasible(path.conds):
            continue
        onshadow = all(_ev(c) for c in path.conds)
        if onshadow:
            validate(ctx, res)
        for k, ch in enumerate(ctx.checks):
            kind, label, lhs, rhs, oracle = ch
            res.checks += 1
            cand = None
            msg = None
            if len(notes) > 3 or deadline and time.time() > deadline:
                raise smt.Unresolved("; ".join(notes[:4]) or "time limit of the tier reached")
            if kind == "true":
                if not lhs:
                    cand, msg = {"lits": path.conds, "model": {}, "sat": True, "l": 1, "r": 1}, label
            elif kind == "holds":
                cand = prover.prove(lhs, path.conds)
                msg = label
            else:
                pairs = []
                for p in flatten_pairs(lhs, rhs, label):
                    if p[0] == "shape":
                        cand, msg = {"lits": path.conds, "model": {}, "sat": True, "l": 1, "r": 1}, p[1]
                        break
                    pairs.extend(zip(ids_list(p[1]), ids_list(p[2])))
                res.pairs += len(pairs)
                if cand is None and pairs:
                    try:
                        c = prover.prove_eq(pairs, path.conds)
                    except smt.Unresolved as e:
                        if "time limit" in str(e):
                            raise
                        notes.append("%s: %s" % (label, e))
                        continue
                    if c is not None:
                        cand = c[1]
                        msg = "%s entry %d" % (label, c[0])
            if cand is not None:
                res.kinky = False
                v = replay_candidate(sc, path, ctx, cand, prover, res)
                res.stats = prover.stats.as_dict()
                if v is None and oracle and res.kinky:
                    # only where the reference changes cases, and there the result is the limit: elsewhere?
                    off = [T.not_(T.eq0(g)) for g in T.kinks([r for _, r in pairs if r > 1])]
                    try:
                        if prover.prove_eq(pairs, path.conds + off) is None:
                            continue
                    except smt.Unresolved as e:
                        if "time limit" in str(e):
                            raise
                if v is None and cand.get("part"):
                    # a part of the difference is not zero, the whole may still be
                    try:
                        if prover.prove_eq(pairs, path.conds, whole=True) is None:
                            continue
                    except smt.Unresolved as e:
                        if "time limit" in str(e):
                            raise
                if v is None:
                    notes.append("candidate for '%s' not confirmed by replay (%s)" % (msg, "sat" if cand["sat"] else "unknown"))
                    continue
                res.status, res.message, res.replay = "violation", v[0], v[1]
                return
        res.stats = prover.stats.as_dict()
        res.vars = max(res.vars, len(ST.env))
        if deadline and time.time() > deadline:
            raise smt.Unresolved("time limit of the tier reached")
    res.stats = prover.stats.as_dict()
    if notes:
        raise smt.Unresolved("; ".join(notes[:4]))
    res.env = {T.data[a]: ST.env[a] for a in list(ST.env)[:4]}


def _ev(c):
    try:
        return bool(T.evaluate([c], ST.env)[0])
    except Exception:
        return False


def validate(ctx, res):
    """the encoding against the real run at the shadow point"""
    for kind, label, lhs, rhs, oracle in ctx.checks:
        for side in (lhs, rhs):
            for s in _snaps(side):
                if s.shadow.dtype == torch.bool:
                    continue
                ids = s.ids.reshape(-1).tolist()
                ev = T.evaluate(ids, ST.env)
                for a, b in zip(s.shadow.reshape(-1).tolist(), ev):
                    b = float(b)
                    if math.isnan(a) or math.isinf(a) or math.isnan(b) or math.isinf(b):
                        continue
                    if abs(a - b) > 5e-3 * (1 + abs(a) + abs(b)):
                        raise RuntimeError("encoding mismatch in '%s': real %r, encoded %r" % (label, a, b))
                    res.validated += 1


def _snaps(v):
    if isinstance(v, Snap):
        return [v]
    if isinstance(v, (list, tuple)):
        return [s for x in v for s in _snaps(x)]
    return []


def _full_env(model):
    env = dict(ST.env)
    for a, v in (model or {}).items():
        env[a] = v
    for a in range(len(T.kind)):
        if T.kind[a] == T.V and a not in env:
            env[a] = 0.5
    return env


def candidate_points(cand, path, prover):
    roots = [cand["l"], cand["r"]]
    if cand["model"] is not None:
        yield _full_env(cand["model"])
    # the shadow point, if it lies in the region
    if all(_ev(c) for c in cand["lits"]):
        yield dict(ST.env)
    if cand["l"] != cand["r"] and cand["l"] > 1 or cand["r"] > 1:
        for m in prover.visible(cand["l"], cand["r"], cand["lits"]):
            yield _full_env(m)
    for bound in (3, 40, None):
        for env in prover.points(cand["lits"], roots, ST.env, n=8, bound=bound):
            yield _full_env(env)


def replay_candidate(sc, path, ctx, cand, prover, res):
    tried = 0
    start = time.time()
    for env in candidate_points(cand, path, prover):
        if time.time() - start > 60:
            break
        for dtype in (torch.float32, torch.float64) if sc.dtype == torch.float32 else (torch.float64,):
            e = _round_env(env if sc.dtype == torch.float32 else _unround(env, cand["lits"]), dtype)
            names = _names(e)
            cctx, exc = run_concrete(sc, names, path.choices(), dtype)
            if exc is not None:
                msg = "raises %s: %s" % (type(exc).__name__, str(exc)[:200])
            else:
                msg = compare_concrete(cctx, ctx.checks, e, dtype, sc.dtype == torch.float64)
                if getattr(cctx, "at_kink", False):
                    res.kinky = True
            tried += 1
            if msg is not None:
                return msg, {"env": names, "choices": path.choices(), "dtype": str(dtype)}
        if tried > (8 if res.kinky else 60):
            break
    return None


def replay_exception(sc, path, exc, prover, res):
    if not prover.feasible(path.conds):
        return "outside"
    cand = {"lits": path.conds, "model": None, "l": 1, "r": 1, "sat": True}
    tried = 0
    for env in candidate_points(cand, path, prover):
        e = _round_env(env, sc.dtype)
        names = _names(e)
        cctx, cexc = run_concrete(sc, names, path.choices(), sc.dtype)
        if cexc is not None:
            if sc.dtype == torch.float64 and run_concrete(sc, names, path.choices(), torch.float32)[1] is not None:
                raise smt.Unresolved("raises in single precision as well: %s" % str(cexc)[:200])
            return "raises %s: %s" % (type(cexc).__name__, str(cexc)[:300]), {
                "env": names, "choices": path.choices(), "dtype": str(sc.dtype),
            }
        tried += 1
        if tried > 20:
            break
    return None
