"""Reference values built from terms: derivatives of the real forward pass and textbook products."""
import torch

from . import engine as E
from . import terms as T
from .runner import Terms


def L(t):
    """nested lists of ids"""
    return E.ids_of(t).tolist()


def flat(t):
    """(b, n) ids"""
    i = E.ids_of(t)
    return i.reshape(i.shape[0], -1).tolist()


def jac_input(val, x):
    """J[b][i][j] = d val[b,i] / d x[b,j]"""
    return [[T.grad(o, xs) for o in vs] for vs, xs in zip(flat(val), flat(x))]


def param_ids(params):
    ids = []
    for p in params:
        ids.extend(E.ids_of(p).reshape(-1).tolist())
    return ids


def jac_weight(val, params):
    ws = param_ids(params)
    if not ws:
        return None
    return [[T.grad(o, ws) for o in vs] for vs in flat(val)]


def tr(M):
    return [list(r) for r in zip(*M)]


def mm(A, B):
    Bt = tr(B)
    return [[T.dot(r, c) for c in Bt] for r in A]


def diag(v):
    n = len(v)
    return [[v[i] if i == j else 0 for j in range(n)] for i in range(n)]


def getdiag(M):
    return [M[i][i] for i in range(len(M))]


def add(A, B):
    return [[T.add(x, y) for x, y in zip(r, s)] for r, s in zip(A, B)]


def jv(J, v):
    return [[T.dot(r, vb) for r in Jb] for Jb, vb in zip(J, v)]


def vj(J, v):
    return [[T.dot(c, vb) for c in tr(Jb)] for Jb, vb in zip(J, v)]


def jm(J, M):
    return [mm(Jb, Mb) for Jb, Mb in zip(J, M)]


def mj(J, M):
    return [mm(Mb, Jb) for Jb, Mb in zip(J, M)]


def jTmj(J, M, from_diag, to_diag):
    out = []
    for Jb, Mb in zip(J, M):
        if from_diag:
            Mb = diag(Mb)
        r = mm(tr(Jb), mm(Mb, Jb)) if not to_diag else None
        if to_diag:
            MJ = mm(Mb, Jb)
            r = [T.dot(c, d) for c, d in zip(tr(Jb), tr(MJ))]
        out.append(r)
    return out


def jmjT(J, M, from_diag, to_diag):
    return jTmj([tr(Jb) for Jb in J], M, from_diag, to_diag)


def eye(b, n):
    return [diag([1] * n) for _ in range(b)]
