"""Small mechanical changes of /repo's modules, to find what no check notices.

mutants.py OUT.jsonl [--files substr,...] [--max N] [--seed S] [--jobs J] [--div D]
Each mutant is applied to a copy of /repo mounted in a private namespace; the checks listed for its file run one after the
other (N_QUICK/D runs each, one worker) until one reports a violation."""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
T = "convst/transformers/"
K = ["C01", "C02", "C04", "C03", "C19", "C16"]
FILES = {
    T + "_commons.py": K,
    T + "_univariate_same_length.py": K,
    T + "_univariate_variable_length.py": K,
    T + "_multivariate_same_length.py": K,
    T + "_multivariate_variable_length.py": K,
    T + "rdst.py": ["C01", "C05", "C02", "C04", "C03", "C13", "C06", "C14", "C19", "C07", "C08"],
    T + "_input_transformers.py": ["C18", "C05", "C09", "C03", "C01"],
    "convst/classifiers/rdst_ensemble.py": ["C09", "C02", "C01", "C04", "C05", "C13", "C03", "C06", "C08", "C14", "C07", "C18", "C19"],
    "convst/classifiers/rdst_ridge.py": ["C09", "C02", "C01", "C04", "C05", "C13", "C03", "C06", "C08", "C14", "C07", "C19"],
    "convst/utils/dataset_utils.py": ["C11", "C10", "C19"],
    "convst/utils/experiments_utils.py": ["C10", "C12", "C19"],
    "convst/utils/checks_utils.py": ["C05", "C13", "C01", "C02", "C19"],
    "convst/interpreters/rdst_interpreter.py": ["C16"],
    "convst/utils/plot_utils.py": ["C17"],
    "PaperScripts/test_models.py": ["C12"],
}
NQ = {"C01": 2000, "C02": 3000, "C03": 1000, "C04": 3600, "C05": 800, "C06": 800, "C07": 2400, "C08": 1600, "C09": 1200, "C10": 5000,
      "C11": 9000, "C12": 4500, "C13": 1100, "C14": 1000, "C16": 2600, "C15": 1500, "C17": 1500, "C18": 6000, "C19": 2500}
CMP = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "NotEq": "==", "Is": "is not", "IsNot": "is"}
BIN = {"Add": "-", "Sub": "+", "Mult": "+", "Div": "*", "FloorDiv": "/", "Mod": "+"}
OPS = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!=", "Is": "is", "IsNot": "is not", "Add": "+", "Sub": "-",
       "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**"}


def mutants(path):
    src = open("/repo/" + path, newline="").read()
    nl = "\r\n" if "\r\n" in src else "\n"
    text = src.replace("\r\n", "\n")
    tree = ast.parse(text)
    starts = [0]
    for l in text.split("\n"):
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = text.encode()

    def at(n, end=False):
        return starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    out = []

    def put(a, b, new, what, line):
        m = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(m.decode())
        except SyntaxError:
            return
        out.append({"file": path, "line": line, "what": what, "text": m.decode().replace("\n", nl)})

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list + n.args.defaults:
                doc.update(ast.walk(d))
    inraise = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.keyword) and n.arg in ('figsize', 'seaborn_context', 'linewidth', 'nrows', 'ncols'):
            inraise.update(ast.walk(n))
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) in ("warn", "print", "format"):
            inraise.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in doc or n in inraise:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0]).__name__
            if o in CMP:
                a, b = at(n.left, True), at(n.comparators[0])
                seg = raw[a:b].decode()
                if OPS[o] in seg:
                    put(a, b, seg.replace(OPS[o], CMP[o], 1), "%s -> %s" % (OPS[o], CMP[o]), n.lineno)
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN:
            o = type(n.op).__name__
            a, b = at(n.left, True), at(n.right)
            seg = raw[a:b].decode()
            if OPS[o] in seg:
                put(a, b, seg.replace(OPS[o], BIN[o], 1), "%s -> %s" % (OPS[o], BIN[o]), n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(at(n), at(n, True), str(not n.value), "%s flipped" % n.value, n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            for d in (1, -1):
                put(at(n), at(n, True), repr(n.value + d), "%r -> %r" % (n.value, n.value + d), n.lineno)
        elif isinstance(n, ast.Constant) and n.value is None and 0:
            pass
        elif isinstance(n, ast.BoolOp):
            a, b = at(n.values[0], True), at(n.values[1])
            seg = raw[a:b].decode()
            o = "and" if isinstance(n.op, ast.And) else "or"
            if o in seg:
                put(a, b, seg.replace(o, "or" if o == "and" else "and", 1), "and/or", n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(at(n), at(n.operand), "", "not removed", n.lineno)
        elif isinstance(n, (ast.AugAssign,)):
            put(at(n), at(n, True), "pass", "deleted: " + raw[at(n):at(n, True)].decode()[:60], n.lineno)
            a, b = at(n.target, True), at(n.value)
            seg = raw[a:b].decode()
            if "+=" in seg:
                put(a, b, seg.replace("+=", "=", 1), "+= -> =", n.lineno)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(at(n), at(n, True), "pass", "deleted: " + raw[at(n):at(n, True)].decode()[:60], n.lineno)
        elif isinstance(n, ast.Assign):
            t = n.targets[0]
            if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(t, ast.Name) and isinstance(n.value, ast.Call):
                if isinstance(t, ast.Name):
                    # x = f(x, ...) -> dropped
                    if any(isinstance(q, ast.Name) and q.id == t.id for q in ast.walk(n.value)):
                        put(at(n), at(n, True), "pass", "deleted: " + raw[at(n):at(n, True)].decode()[:60], n.lineno)
                elif not (isinstance(t, ast.Attribute) and raw[at(n.value):at(n.value, True)].decode().split("(")[-1].rstrip(")") == t.attr):
                    put(at(n), at(n, True), "pass", "deleted: " + raw[at(n):at(n, True)].decode()[:60], n.lineno)
        elif isinstance(n, ast.If):
            put(at(n.test), at(n.test, True), "(%s) and False" % raw[at(n.test):at(n.test, True)].decode(), "if never", n.lineno)
            if not n.orelse:
                put(at(n.test), at(n.test, True), "(%s) or True" % raw[at(n.test):at(n.test, True)].decode(), "if always", n.lineno)
        elif isinstance(n, ast.IfExp):
            put(at(n), at(n, True), raw[at(n.body):at(n.body, True)].decode(), "ifexp body", n.lineno)
            put(at(n), at(n, True), raw[at(n.orelse):at(n.orelse, True)].decode(), "ifexp else", n.lineno)
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = at(k), at(k, True)
                    seg = raw[b:b + 3].decode(errors="ignore")
                    m = re.match(rb"\s*,", raw[b:b + 40])
                    put(a, b + (m.end() if m else 0), "", "keyword %s dropped" % k.arg, n.lineno)
            f = getattr(n.func, "attr", getattr(n.func, "id", ""))
            if f in ("clone", "deepcopy", "copy", "abs", "floor", "int", "sorted") and len(n.args) >= 1:
                put(at(n), at(n, True), raw[at(n.args[0]):at(n.args[0], True)].decode(), "%s() unwrapped" % f, n.lineno)
            if f == "astype" or f == "copy" and not n.args:
                put(at(n), at(n, True), raw[at(n.func.value):at(n.func.value, True)].decode(), ".%s() dropped" % f, n.lineno)
            if len(n.args) >= 2 and not any(isinstance(q, ast.Starred) for q in n.args):
                for i in range(min(len(n.args) - 1, 6)):
                    p, q = n.args[i], n.args[i + 1]
                    A, B = raw[at(p):at(p, True)].decode(), raw[at(q):at(q, True)].decode()
                    if A != B and not isinstance(p, ast.Constant) and not isinstance(q, ast.Constant):
                        put(at(p), at(q, True), B + raw[at(p, True):at(q)].decode() + A, "arguments %s, %s swapped" % (A[:20], B[:20]), n.lineno)
        elif isinstance(n, (ast.Break, ast.Continue)):
            put(at(n), at(n, True), "pass", type(n).__name__, n.lineno)
    return out


def run(m, verif, div):
    wt = tempfile.mkdtemp(prefix="mut.", dir="/tmp/mut")
    try:
        shutil.copytree("/repo", wt + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs", "Figures"))
        os.makedirs(wt + "/verif")
        subprocess.check_call("cp -a %s/check %s/simlib %s/KNOWN_FINDINGS.txt %s/properties.jsonl %s/verif/ && mkdir -p %s/verif/evidence" % (
            verif, verif, verif, verif, wt, wt), shell=True)
        open(wt + "/repo/" + m["file"], "w", newline="").write(m["text"])
        t0 = time.time()
        for c in FILES[m["file"]]:
            cmd = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && timeout 600 ./check %s --workers 1 --cases %d" % (
                wt, wt, c, max(50, NQ[c] // div))
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], capture_output=True, text=True, env=dict(os.environ, SIM_NO_MIN="1"))
            if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                line = next((l for l in r.stdout.splitlines() if l.startswith("violation")), "")
                return dict(m, text=None, killed=c, how=line[:200], s=round(time.time() - t0))
            if r.returncode != 0:
                return dict(m, text=None, killed=None, error=c, how=(r.stdout + r.stderr)[-300:], s=round(time.time() - t0))
        return dict(m, text=None, killed=None, s=round(time.time() - t0))
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--max", type=int, default=10 ** 6)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--div", type=int, default=4)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    ms = []
    for f in FILES:
        if not a.files or any(s in f for s in a.files.split(",")):
            ms += mutants(f)
    print(len(ms), "mutants", {f: sum(m["file"] == f for m in ms) for f in FILES})
    if a.list:
        sys.exit()
    random.Random(a.seed).shuffle(ms)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"]))
    ms = [m for m in ms if (m["file"], m["line"], m["what"]) not in done][:a.max]
    verif = tempfile.mkdtemp(prefix="verif.", dir="/tmp/mut")
    subprocess.check_call("cp -a /verif/check /verif/simlib /verif/KNOWN_FINDINGS.txt /verif/properties.jsonl %s/" % verif, shell=True)
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as f:
        for r in ex.map(lambda m: run(m, verif, a.div), ms):
            f.write(json.dumps(r) + "\n")
            f.flush()
    shutil.rmtree(verif)
