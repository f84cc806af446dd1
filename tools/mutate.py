"""Mutation sweep: small changes of the library that survive its tests, against the checks.
   mutate.py OUTDIR [--sample N] [--files a.py,b.py] [--seed S] [--jobs J]
Writes OUTDIR/results.jsonl; survivors are what the checks miss (equivalent mutants included)."""
import argparse, ast, copy, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ORDER = {
    "linear.py": "C01 C03 C04 C05 C06 C10 C12 C17 C20 C22",
    "conv2d.py": "C02 C04 C05 C06 C24 C10 C12 C20 C22 C03",
    "maxpool2d.py": "C01 C04 C05 C24 C11 C20 C22 C18",
    "upsample.py": "C01 C04 C05 C24 C20 C22 C18",
    "log_likelihoods.py": "C14 C15 C21 C22 C12 C20",
    "sequential.py": "C07 C09 C10 C11 C23 C08 C17",
    "skipconnection.py": "C08 C09 C10 C23 C17",
    "utils.py": "C16 C19",
    "abstract_jacobian.py": "C13 C10 C17 C03 C04 C05 C06",
    "abstract_diagonal_jacobian.py": "C13 C03 C04 C05 C06 C10 C12 C20",
}
ALLP = ["C%02d" % k for k in range(1, 25)]


class Site:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


def mutants(src):
    """yield (description, new source)"""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    parents = {}
    for n in nodes:
        for f, v in ast.iter_fields(n):
            for k, c in enumerate(v) if isinstance(v, list) else [(None, v)]:
                if isinstance(c, ast.AST):
                    parents[id(c)] = (n, f, k)
    doc = set()
    ann = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                doc.add(id(n.body[0])), doc.add(id(n.body[0].value))
        for f in ("annotation", "returns"):
            v = getattr(n, f, None)
            if isinstance(v, ast.AST):
                ann |= {id(c) for c in ast.walk(v)}

    def put(n, new):
        p, f, k = parents[id(n)]
        if k is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[k] = new

    def out(n, new, what):
        put(n, new)
        try:
            s = ast.unparse(ast.fix_missing_locations(tree))
        finally:
            put(new if id(new) in parents else n, n) if False else None
        p, f, k = parents[id(n)]
        if k is None:
            setattr(p, f, n)
        else:
            getattr(p, f)[k] = n
        return ("%d: %s" % (getattr(n, "lineno", 0), what), s)

    C = ast.Constant
    for n in nodes:
        if id(n) in doc or id(n) in ann:
            continue
        if isinstance(n, C):
            v = n.value
            if isinstance(v, bool):
                yield out(n, C(not v), "%s -> %s" % (v, not v))
            elif isinstance(v, int):
                for d in (1, -1):
                    yield out(n, C(v + d), "%s -> %s" % (v, v + d))
            elif isinstance(v, float):
                yield out(n, C(v * 2), "%s -> %s" % (v, v * 2))
                yield out(n, C(v + 1), "%s -> %s" % (v, v + 1))
            elif isinstance(v, str) and "->" in v:
                ins, o = v.replace(" ", "").split("->")
                ops = ins.split(",")
                seen = {v}
                for i in range(len(o) - 1):
                    w = ins + "->" + o[:i] + o[i + 1] + o[i] + o[i + 2 :]
                    if w not in seen:
                        seen.add(w)
                        yield out(n, C(w), "%s -> %s" % (v, w))
                for q in range(len(ops)):
                    for i in range(len(ops[q]) - 1):
                        p = ops[q]
                        p = p[:i] + p[i + 1] + p[i] + p[i + 2 :]
                        w = ",".join(ops[:q] + [p] + ops[q + 1 :]) + "->" + o
                        if w not in seen:
                            seen.add(w)
                            yield out(n, C(w), "%s -> %s" % (v, w))
            elif v in ("input", "weight"):
                w = "weight" if v == "input" else "input"
                yield out(n, C(w), "%s -> %s" % (v, w))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for o in alt.get(type(n.ops[0]), []):
                yield out(n, ast.Compare(n.left, [o()], n.comparators), "compare %s -> %s" % (type(n.ops[0]).__name__, o.__name__))
        elif isinstance(n, ast.BinOp):
            alt = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add, ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Mult]}
            for o in alt.get(type(n.op), []):
                yield out(n, ast.BinOp(n.left, o(), n.right), "binop -> %s" % o.__name__)
            yield out(n, n.left, "right operand dropped")
            yield out(n, n.right, "left operand dropped")
        elif isinstance(n, ast.UnaryOp):
            yield out(n, n.operand, "unary dropped")
        elif isinstance(n, ast.BoolOp):
            yield out(n, ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values), "and/or")
            for v in n.values:
                yield out(n, v, "only one operand of and/or")
        elif isinstance(n, ast.If):
            yield out(n.test, C(True), "if True")
            yield out(n.test, C(False), "if False")
        elif isinstance(n, ast.IfExp):
            yield out(n, n.body, "conditional -> first")
            yield out(n, n.orelse, "conditional -> second")
        elif isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    yield out(n, ast.Call(n.func, n.args, n.keywords[:k] + n.keywords[k + 1 :]), "keyword %s dropped" % kw.arg)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.AST) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("torch", "nn", "F", "nnj", "self", "np")):
                yield out(n, n.func.value, "call .%s dropped" % n.func.attr)
            for k in range(len(n.args) - 1):
                a = list(n.args)
                a[k], a[k + 1] = a[k + 1], a[k]
                yield out(n, ast.Call(n.func, a, n.keywords), "arguments %d,%d swapped" % (k, k + 1))
            if isinstance(n.func, ast.Name) and n.func.id == "reversed":
                yield out(n, n.args[0], "reversed dropped")
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            alt = {"x": ["val"], "val": ["x"], "from_diag": ["to_diag"], "to_diag": ["from_diag"], "diag_backprop": ["to_diag"], "h1": ["w1"], "w1": ["h1"], "h2": ["w2", "h1"], "w2": ["h2"], "c1": ["c2"], "c2": ["c1"], "kernel_h": ["kernel_w"], "kernel_w": ["kernel_h"]}
            for o in alt.get(n.id, []):
                yield out(n, ast.Name(o, ast.Load()), "%s -> %s" % (n.id, o))
        elif isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
            if isinstance(n, ast.Assign):
                t = n.targets[0].id
                # only re-assignments can be dropped and still run
                if sum(isinstance(m, ast.Name) and m.id == t and isinstance(m.ctx, ast.Store) for m in nodes) < 2:
                    continue
            yield out(n, ast.Pass(), "statement dropped: %s" % ast.unparse(n)[:60])
            if isinstance(n, ast.AugAssign):
                yield out(n, ast.Assign([n.target], n.value, lineno=n.lineno), "augmented assignment -> assignment")
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Slice):
            yield out(n, n.value, "slice dropped")


def run(job):
    k, f, what, src, outdir, repo = job
    d = os.path.join(outdir, "m%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/ev/replay")
    subprocess.run("git -C %s archive HEAD nnj tests | tar x -C %s" % (repo, d), shell=True, check=True)
    with open(os.path.join(d, "nnj", f), "w") as fh:
        fh.write(src)
    env = dict(os.environ, PYTHONPATH=d + ":/opt/vp/pytest_plugins", VP_SEED="2", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", NNJ_REPO=d, VERIF_EVIDENCE=d + "/ev")
    rec = {"k": k, "file": f, "what": what}
    try:
        p = subprocess.run([PY, "-m", "pytest", "-p", "vp_seed", "-p", "no:cacheprovider", "-x", "-q", "-o", "python_files=*.py", "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=400)
        t = p.returncode
    except subprocess.TimeoutExpired:
        t = 99
    if t != 0:
        rec["status"] = "killed by tests"
    else:
        first = ORDER.get(f, "C01 C03 C04 C05 C06 C18 C20").split()
        rec["status"] = "SURVIVED"
        rec["other"] = {}
        for c in first + [q for q in ALLP if q not in first]:
            try:
                p = subprocess.run([PY, "-W", "ignore", HERE + "/check.py", "--property", c, "-j", "1", "--first"], env=env, capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired:
                rec["other"][c] = "timeout"
                continue
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                rec["status"] = "caught by " + c
                break
            if p.returncode != 0 or ", 0 undecided, 0 errors" not in p.stdout:
                rec["other"][c] = "rc %d: %s" % (p.returncode, (p.stdout.strip().splitlines() or [""])[-1][:160])
    shutil.rmtree(d, ignore_errors=True)
    with open(os.path.join(outdir, "results.jsonl"), "a") as fh:
        fh.write(json.dumps(rec) + "\n")
    return rec


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("outdir")
    ap.add_argument("--sample", type=int)
    ap.add_argument("--files")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--count", action="store_true")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    jobs = []
    root = os.path.join(a.repo, "nnj")
    for f in sorted(os.listdir(root)):
        if f.endswith(".py") and f != "__init__.py" and (not a.files or f in a.files.split(",")):
            s = open(os.path.join(root, f)).read()
            n = 0
            for what, src in mutants(s):
                jobs.append((f, what, src))
                n += 1
            print(f, n)
    print(len(jobs), "mutants")
    if a.count:
        return
    random.Random(a.seed).shuffle(jobs)
    if a.sample:
        jobs = jobs[: a.sample]
    os.makedirs(a.outdir, exist_ok=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(run, [(k, f, w, s, a.outdir, a.repo) for k, (f, w, s) in enumerate(jobs)]):
            print(r["k"], r["file"], r["what"], "=>", r["status"], r.get("other") or "", flush=True)


if __name__ == "__main__":
    main()
