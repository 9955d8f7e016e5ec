"""Mutation sampling: which small changes of covered lines do the checks miss?

mutate.py SEED COUNT [FILESUBSTRING]  > log      (needs /tmp/cov/map.json, see tools/covmap)
Works in scratch clones under /tmp/mut; touches neither /repo nor /verif's tracked files.
"""
import ast, json, os, random, shutil, subprocess, sys, threading, queue, time
PY = "/opt/venv/bin/python"
OWN = {  # file -> properties whose checks are asked first
 "tensor_algebra/tensors/canonical_tensor": "C01 C03 C07 C02 C11 C08 C28 C04", "tensor_algebra/tensors/diagonal_tensor": "C01 C03 C07 C02 C28 C04",
 "tensor_algebra/tensors/sparse_tensor": "C01 C03 C07 C02 C28 C04", "tensor_algebra/tensors/full_tensor": "C01 C03 C07 C02 C08 C28 C04",
 "tensor_algebra/tensors/tree_based_tensor": "C01 C03 C07 C10 C08 C11 C28 C02 C04", "tensor_algebra/tensors/dimension_tree": "C05 C06 C04",
 "tensor_algebra/tools/truncator": "C09", "tools/grids": "C15", "tools/multi_indices": "C12 C13 C14", "tools/utils": "C14 C12 C01",
 "approximation/bases": "C18 C25 C15", "approximation/bases/BSplines": "C25", "approximation/bases/piecewise": "C25",
 "tensor_learning/tensor_learning": "C23 C27", "tensor_learning/canonical": "C27 C23", "tensor_learning/tree_based": "C27 C28 C23",
 "principal_component": "C24", "integration": "C20", "model_selection": "C21", "learning/linear_model_learning_density": "C29",
 "learning/linear_model_learning_square": "C22", "learning/": "C22 C29 C27", "functions/function.py": "C26", "functions/functional_tensor": "C18 C11 C26",
 "functions/tensoriz": "C14 C26", "functions/": "C26", "functions/measures": "C19", "functions/polynomials": "C17 C20", "linear_algebra": "C16",
}
def owners(rel):
    best = max((k for k in OWN if k in rel), key=len, default=None)
    return OWN[best].split() if best else []

def mutants(rel, src, cov):
    tree = ast.parse(src)
    L = src.splitlines(keepends=True)
    off = [0]
    for l in L: off.append(off[-1] + len(l.encode()))
    b = src.encode()
    def pos(n): return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    def seg(n): s, e = pos(n); return b[s:e].decode()
    out = []
    def rep(n, txt, kind):
        s, e = pos(n)
        out.append((n.lineno, kind, seg(n).split("\n")[0][:70], txt.split("\n")[0][:70], (b[:s] + txt.encode() + b[e:]).decode()))
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
    DROP = {"np.sort", "deepcopy", "copy.deepcopy", "np.unique", "np.flip", "np.abs", "np.transpose", "np.argsort", "np.array", "np.sqrt", "np.squeeze", "np.conj", "list", "np.fliplr", "np.flipud"}
    SWAP = {"np.max": "np.min", "np.min": "np.max", "np.all": "np.any", "np.any": "np.all", "np.maximum": "np.minimum", "np.minimum": "np.maximum", "np.argmax": "np.argmin", "np.argmin": "np.argmax", "np.mean": "np.sum", "np.cumsum": "np.ravel", "np.hstack": "np.concatenate", "np.ones": "np.zeros", "np.zeros": "np.ones", "tensap.fast_setdiff": "np.setdiff1d", "tensap.fast_intersect": "np.intersect1d", "np.setdiff1d": "np.intersect1d"}
    def walk(n, fn, skip):
        for c in ast.iter_child_nodes(n):
            f, sk = fn, skip
            if isinstance(c, (ast.FunctionDef,)):
                f = c.name
                if f.startswith("plot") or f in ("__repr__", "__str__") or "display" in f: continue
            if isinstance(c, (ast.Raise, ast.Assert)) : continue
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant): continue
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and ast.unparse(c.value.func) in ("print", "warnings.warn"): continue
            if isinstance(c, ast.If) and "display" in ast.unparse(c.test): continue
            if f and isinstance(c, (ast.expr, ast.stmt)):
                ok = c.lineno in cov or sk
                if isinstance(c, ast.stmt): ok = sk = c.lineno in cov
                if ok: muts(c)
            walk(c, f, sk)
    def muts(c):
        if isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in CMP:
            rep(c, seg(c.left) + " " + CMP[type(c.ops[0])] + " " + seg(c.comparators[0]), "cmp") if "\n" not in seg(c) else None
        elif isinstance(c, ast.BinOp) and type(c.op) in BIN and not isinstance(c.left, ast.Constant) or isinstance(c, ast.BinOp) and type(c.op) in BIN and isinstance(getattr(c.left, "value", 0), (int, float)):
            s1, e1 = pos(c.left); s2, _ = pos(c.right)
            mid = b[e1:s2].decode()
            o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(c.op)]
            if mid.count(o) == 1:
                s, e = pos(c)
                out.append((c.lineno, "bin", seg(c).split("\n")[0][:70], BIN[type(c.op)], (b[:e1] + mid.replace(o, BIN[type(c.op)]).encode() + b[s2:]).decode()))
        elif isinstance(c, ast.Constant) and isinstance(c.value, int) and not isinstance(c.value, bool) and 0 <= c.value <= 3:
            rep(c, str(c.value + 1), "const")
            if c.value == 1: rep(c, "0", "const")
        elif isinstance(c, ast.Constant) and isinstance(c.value, bool):
            rep(c, str(not c.value), "bool")
        elif isinstance(c, ast.BoolOp) and len(c.values) == 2:
            s1, e1 = pos(c.values[0]); s2, _ = pos(c.values[1])
            mid = b[e1:s2].decode(); o = "and" if isinstance(c.op, ast.And) else "or"
            if mid.count(o) == 1:
                out.append((c.lineno, "boolop", seg(c).split("\n")[0][:70], "", (b[:e1] + mid.replace(o, "or" if o == "and" else "and").encode() + b[s2:]).decode()))
        elif isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.Not, ast.USub)) and not isinstance(c.operand, ast.Constant):
            rep(c, seg(c.operand), "unary")
        elif isinstance(c, ast.Call):
            f = ast.unparse(c.func)
            if f in DROP and len(c.args) >= 1: rep(c, "(" + seg(c.args[0]) + ")", "drop")
            if f in SWAP: rep(c.func, SWAP[f], "swap")
        elif isinstance(c, ast.If):
            if "\n" not in seg(c.test):
                rep(c.test, "(" + seg(c.test) + ") and False", "iffalse"); rep(c.test, "(" + seg(c.test) + ") or True", "iftrue")
        elif isinstance(c, (ast.Assign,)) and isinstance(c.targets[0], (ast.Attribute, ast.Subscript)) or isinstance(c, ast.AugAssign) or isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) or isinstance(c, (ast.Break, ast.Continue)):
            rep(c, "pass", "delete")
        elif isinstance(c, ast.Assign) and isinstance(c.targets[0], ast.Name) and isinstance(c.value, (ast.Call, ast.Subscript)) and c.targets[0].id in [x.id for x in ast.walk(c.value) if isinstance(x, ast.Name)]:
            rep(c, "pass", "delete")
    walk(tree, None, False)
    res = []
    for m in out:
        try: ast.parse(m[4])
        except SyntaxError: continue
        res.append(m)
    return res

def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    workers = int(os.environ.get("MUT_WORKERS", "7"))
    M = json.load(open("/tmp/cov/map.json"))
    rng = random.Random(seed)
    allm = []
    for rel in sorted(M):
        if sub and sub not in rel or "benchmark" in rel: continue
        src = open("/repo/" + rel).read()
        cov = {int(k) for k in M[rel]}
        ms = mutants(rel, src, cov)
        allm += [(rel,) + m for m in ms]
    rng.shuffle(allm)
    print("candidates", len(allm), flush=True)
    allm = allm[:count]
    q = queue.Queue()
    for m in allm: q.put(m)
    lock = threading.Lock()
    tally = {}
    def work(k):
        d = "/tmp/mut/w%d" % k
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        e = dict(os.environ)
        e.update(PYTHONPATH=d + "/repo", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
                 OMP_NUM_THREADS="1", VP_REPO=d + "/repo", VERIF_OUT=d + "/out", VERIF_WORKERS="2", VERIF_SEED="1", VERIF_TIER="quick")
        while True:
            try: rel, line, kind, old, new, txt = q.get_nowait()
            except queue.Empty: break
            p = d + "/repo/" + rel
            orig = open(p).read()
            open(p, "w").write(txt)
            t = time.time()
            try:
                r = subprocess.run([PY, "-c", "import tensap"], env=e, capture_output=True)
                hit = "import" if r.returncode else None
                tried = []
                if not hit:
                    own = owners(rel)
                    cv = M[rel].get(str(line), [])
                    # nearest covered statement line above for inner expression lines
                    l = line
                    while not cv and l > line - 8: l -= 1; cv = M[rel].get(str(l), [])
                    order = [c for c in own if c in cv] + [c for c in cv if c not in own]
                    for c in order[:4]:
                        tried.append(c)
                        try:
                            r = subprocess.run([PY, "checks/run.py", c], cwd=os.environ.get("MUT_VERIF", "/verif"), env=e, capture_output=True, text=True, timeout=600)
                        except subprocess.TimeoutExpired:
                            hit = c + ":timeout"; break
                        if r.returncode == 1: hit = c; break
                        if r.returncode not in (0, 1): hit = c + ":rc%d" % r.returncode; break
            finally:
                open(p, "w").write(orig)
            with lock:
                tag = "KILLED" if hit else "SURVIVED"
                tally[tag] = tally.get(tag, 0) + 1
                print("%s %s:%d [%s] %s -> %s | hit=%s tried=%s %.0fs" % (tag, rel, line, kind, old, new, hit, ",".join(tried), time.time() - t), flush=True)
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(tally)
main()
