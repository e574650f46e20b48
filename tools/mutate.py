"""tools/mutate.py SLOT COUNT SEED [file part…] : random small changes of lines some check reaches (after tools/cover.py), in a scratch copy:
those that pass the stable tests are given to the checks that reach the line -> /tmp/mut/log.SLOT (a tool for the author; no check uses it)
with MUT_LEVEL=class: changes of declarations (class bodies, tables of modules); MUT_LEVEL=subtle: values shared instead of copied, another name, bound, order or exception"""
import ast, glob, json, os, random, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
slot, count, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
parts = sys.argv[4:]
LEVEL = os.environ.get("MUT_LEVEL")
tree = f"/tmp/mut/{slot}"
shutil.rmtree(tree, ignore_errors=True)
shutil.copytree("/repo", tree, ignore=shutil.ignore_patterns(".git", "__pycache__"))
root = f"{tree}/src/DLMS_SPODES/"
cov = {os.path.basename(f)[:-5]: json.load(open(f)) for f in glob.glob("/tmp/cover/*.json")}
size = {k: sum(map(len, v.values())) for k, v in cov.items()}
TESTS = ["test_cosem_pdu.py", "test_overview.py", "test_userfulType.py", "test_version.py"]
STABLE = {t.split("::")[1]for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
log = open(f"/tmp/mut/log.{slot}", "a", buffering=1)
rnd = random.Random(seed)


def stable():
    w = f"/tmp/mut/w{slot}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo/test", w)
    env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1", TZ="UTC")
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rA", "--timeout=60", *TESTS], cwd=w, env=env, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False
    ok = set(re.findall(r"PASSED \S+::(\w+)", p.stdout))
    return STABLE <= ok


def sites(src):
    t = ast.parse(src)
    out = []
    for f in ast.walk(t):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for n in (x for b in f.body for x in ast.walk(b)):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                out.append((n, "cmp"))
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                out.append((n, "int"))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                out.append((n, "bool"))
            elif isinstance(n, (ast.If, ast.While)) or isinstance(n, ast.IfExp):
                out.append((n.test, "neg"))
            elif isinstance(n, ast.BoolOp):
                out.append((n, "andor"))
            elif isinstance(n, ast.BinOp) and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) :
                out.append((n, "arith"))
            elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                if "log" not in ast.unparse(n).split("(")[0]:
                    out.append((n, "del"))
            elif isinstance(n, ast.Return) and n.value is not None:
                out.append((n.value, "retnone"))
            elif isinstance(n, ast.Break):
                out.append((n, "brk"))
            elif isinstance(n, ast.Continue):
                out.append((n, "cont"))
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                out.append((n, "swap"))
    return out


def outside(src):
    """declarations: what is not in a function"""
    out = []

    def walk(n):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.Import, ast.ImportFrom)):
                continue
            if isinstance(x, ast.AnnAssign) and x.value is None:
                if isinstance(n, ast.ClassDef):
                    continue
            if isinstance(x, ast.Constant) and type(x.value) is int:
                out.append((x, "int"))
            elif isinstance(x, ast.Constant) and type(x.value) is bool:
                out.append((x, "bool"))
            elif isinstance(x, ast.Constant) and type(x.value) is bytes and x.value:
                out.append((x, "bytes"))
            elif isinstance(x, ast.Call) and len(x.args) >= 2 and not any(isinstance(a, ast.Starred) for a in x.args):
                out.append((x, "swap"))
            elif isinstance(x, (ast.Tuple, ast.List)) and len(x.elts) >= 2:
                out.append((x, "elts"))
            elif isinstance(x, ast.Attribute) and x.attr in ("STATIC", "DYNAMIC"):
                out.append((x, "classifier"))
            elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "cdt":
                out.append((x, "type"))
            walk(x)
    walk(ast.parse(src))
    return out


def fine(src):
    """names, attributes, copies, bounds, orders and exceptions in functions"""
    out = []
    for f in ast.walk(ast.parse(src)):
        if not isinstance(f, ast.FunctionDef):
            continue
        names = sorted({x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in f.args.args})
        attrs = sorted({x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load)})
        called = {id(x.func) for x in ast.walk(f) if isinstance(x, ast.Call)}
        for n in (x for b in f.body for x in ast.walk(b)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1 and n.id != "self":
                n.other = [x for x in names if x not in (n.id, "self")]
                out.append((n, "name"))
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load) and id(n) not in called and len(attrs) > 1:
                n.other = [x for x in attrs if x != n.attr]
                out.append((n, "attr"))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "get_copy", "values", "strip", "lower", "upper") and not n.args:
                out.append((n, "unwrap"))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "dict", "set", "bytes", "bytearray", "int", "str", "sorted", "reversed", "abs") and len(n.args) == 1:
                out.append((n, "unwrap"))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "min", "max"):
                out.append((n, "other"))
            elif isinstance(n, ast.Call) and n.keywords:
                out.append((n, "kw"))
            elif isinstance(n, ast.Slice) and (n.lower or n.upper) and hasattr(n, "col_offset"):
                out.append((n, "slice"))
            elif isinstance(n, ast.For) and n.iter.lineno == n.iter.end_lineno:
                out.append((n.iter, "order"))
            elif isinstance(n, ast.ExceptHandler) and n.type is not None:
                out.append((n.type, "exc"))
            elif isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):
                out.append((n.exc.func, "exc"))
            elif isinstance(n, ast.match_case) and n.guard is not None:
                out.append((n.guard, "guard"))
    return out


TYPES = ["Unsigned", "LongUnsigned", "DoubleLongUnsigned", "Integer", "Long", "DoubleLong", "OctetString", "VisibleString", "Boolean", "Enum", "Long64Unsigned", "NullData"]


def change(n, kind):
    if kind == "bytes":
        b = bytearray(n.value)
        i = rnd.randrange(len(b))
        b[i] = b[i] + rnd.choice((1, -1)) & 255
        return repr(bytes(b))
    if kind == "elts":
        a = [ast.unparse(x) for x in n.elts]
        i = rnd.randrange(len(a) - 1)
        if rnd.random() < 0.5:
            a[i], a[i + 1] = a[i + 1], a[i]
        else:
            del a[rnd.randrange(len(a))]
        return "(" + ", ".join(a) + ",)" if isinstance(n, ast.Tuple) else "[" + ", ".join(a) + "]"
    if kind == "classifier":
        return ast.unparse(n.value) + (".DYNAMIC" if n.attr == "STATIC" else ".STATIC")
    if kind == "type":
        return "cdt." + rnd.choice([t for t in TYPES if t != n.attr])
    u = ast.unparse
    if kind == "name":
        return rnd.choice(n.other)
    if kind == "attr":
        return "self." + rnd.choice(n.other)
    if kind == "unwrap":
        return u(n.func.value) if isinstance(n.func, ast.Attribute) else u(n.args[0])
    if kind == "other":
        return {"any": "all", "all": "any", "min": "max", "max": "min"}[n.func.id] + u(n)[3:]
    if kind == "kw":
        k = list(n.keywords)
        del k[rnd.randrange(len(k))]
        return f"{u(n.func)}({', '.join([u(x) for x in n.args] + [(x.arg + '=' if x.arg else '**') + u(x.value) for x in k])})"
    if kind == "slice":
        lo, up = n.lower and u(n.lower), n.upper and u(n.upper)
        x = rnd.choice([("", up or ""), (lo or "", ""), (f"({lo}) + 1" if lo else "1", up or ""), (lo or "", f"({up}) - 1" if up else "-1")])
        return f"{x[0]}:{x[1]}"
    if kind == "order":
        return f"reversed(list({u(n)}))" if rnd.random() < 0.6 else f"list({u(n)})[:-1]"
    if kind == "exc":
        return rnd.choice(["ValueError", "KeyError", "TypeError", "AttributeError", "exc.NoObject"])
    if kind == "guard":
        return rnd.choice(["True", f"not ({u(n)})"])
    if kind == "cmp":
        a, b, op = u(n.left), u(n.comparators[0]), type(n.ops[0])
        alt = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}[op]
        return f"({a}) {rnd.choice(alt)} ({b})"
    if kind == "int":
        return str(n.value + rnd.choice([1, -1]))
    if kind == "bool":
        return str(not n.value)
    if kind == "neg":
        return f"not ({u(n)})"
    if kind == "andor":
        return "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(f"({u(v)})" for v in n.values) + ")"
    if kind == "arith":
        alt = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "*", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|", ast.Mod: "//", ast.Pow: "*"}
        o = alt.get(type(n.op))
        return o and f"(({u(n.left)}) {o} ({u(n.right)}))"
    if kind == "del":
        return "pass"
    if kind == "retnone":
        return "None"
    if kind == "brk":
        return "continue"
    if kind == "cont":
        return "break"
    if kind == "swap":
        i = rnd.randrange(len(n.args) - 1)
        a = [u(x) for x in n.args]
        a[i], a[i + 1] = a[i + 1], a[i]
        if a[i] == a[i + 1]:
            return None
        return f"{u(n.func)}({', '.join(a + [(k.arg + '=' if k.arg else '**') + u(k.value) for k in n.keywords])})"


files = {}
for d, _, fs in os.walk(root):
    for f in fs:
        rel = os.path.relpath(os.path.join(d, f), root)
        if f.endswith(".py") and f not in ("relation_to_obis_names.py",) and (not parts or any(p in rel for p in parts)) and any(rel in c for c in cov.values()):
            src = open(root + rel).read()
            ss = [(n, k) for n, k in outside(src)] if LEVEL == "class" else [(n, k) for n, k in fine(src) if any(n.lineno in c.get(rel, ()) for c in cov.values())] if LEVEL == "subtle" else [(n, k) for n, k in sites(src) if any(n.lineno in c.get(rel, ()) for c in cov.values())]
            if ss:
                files[rel] = (src, ss)
pool = [(r, i) for r, (s, ss) in files.items() for i in range(len(ss))]
done = 0
while done < count:
    rel, i = rnd.choice(pool)
    src, ss = files[rel]
    n, kind = ss[i]
    if n.lineno != n.end_lineno:
        continue
    new = change(n, kind)
    if not new:
        continue
    L = src.split("\n")
    raw = L[n.lineno - 1].encode()
    L[n.lineno - 1] = (raw[:n.col_offset] + new.encode() + raw[n.end_col_offset:]).decode()
    out = "\n".join(L)
    try:
        ast.parse(out)
    except SyntaxError:
        continue
    if ast.dump(ast.parse(out)) == ast.dump(ast.parse(src)):
        continue
    open(root + rel, "w").write(out)
    try:
        if not stable():
            continue
        done += 1
        checks = sorted((k for k, c in cov.items() if n.lineno in c.get(rel, ())), key=lambda k: size[k])
        if LEVEL == "class":
            checks = ["C23", "C14"] + [k for k in sorted(cov, key=lambda k: -len(cov[k].get(rel, ()))) if cov[k].get(rel) and k not in ("C23", "C14")][:6]
        res = []
        for c in checks:
            env = dict(os.environ, DST_REPO=tree, DST_JOBS="2", DST_MIN="0", VERIF_SEED="1", VERIF_TIER="quick")
            try:
                p = subprocess.run(["./check.sh", c], cwd=HERE, env=env, capture_output=True, text=True, timeout=600)
                v = "VIOLATION" if "VIOLATION" in p.stdout else f"rc{p.returncode}"
            except subprocess.TimeoutExpired:
                v = "timeout"
            res.append(f"{c}:{v}")
            if v == "VIOLATION":
                break
        st = "killed" if res and res[-1].endswith("VIOLATION") else "SURVIVED"
        log.write(f"{st} {rel}:{n.lineno} {kind} | {raw.decode().strip()[:110]} => {L[n.lineno-1].strip()[:110]} | {' '.join(res)}\n")
    finally:
        open(root + rel, "w").write(src)
