"""tools/groups.py : the classification of logical names by media and groups, as rules -> data/groups.json (written once, reviewed against the Blue Book; the check does not run this)"""
import ast, json
src = open("/repo/src/DLMS_SPODES/cosem_interface_classes/collection.py").read()
f = next(n for n in ast.parse(src).body if isinstance(n, ast.FunctionDef) and n.name == "get_relation_group")
media = {"ABSTRACT": [0], "ELECTRICITY": [1], "HCA": [4], "GAS": [7], "WATER": [8, 9], "THERMAL": [5, 6], "OTHER_MEDIA": [15]}
consts = {t.id: n.value for n in ast.parse(src).body if isinstance(n, (ast.Assign, ast.AnnAssign)) for t in ([n.target] if isinstance(n, ast.AnnAssign) else n.targets) if isinstance(t, ast.Name)}
rules = []


def val(n):
    if isinstance(n, ast.Constant):
        return [n.value]
    if isinstance(n, ast.Tuple):
        return [x for e in n.elts for x in (val(e.value) if isinstance(e, ast.Starred) else val(e))]
    if isinstance(n, ast.Call) and n.func.id == "range":
        return list(range(*[a.value for a in n.args]))
    if isinstance(n, ast.Call) and n.func.id in ("tuple", "list", "chain", "set"):
        return [x for a in n.args for x in val(a)]
    if isinstance(n, ast.Attribute):
        return media[n.attr]
    if isinstance(n, ast.Name):
        return val(consts[n.id])
    raise ValueError(ast.unparse(n))


def dnf(n):
    """condition -> list of {field: (in, set)} conjunctions (each a list)"""
    if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And):
        out = [[]]
        for v in n.values:
            out = [a + b for a in out for b in dnf(v)]
        return out
    if isinstance(n, ast.BoolOp):
        return [c for v in n.values for c in dnf(v)]
    if isinstance(n, ast.Compare):
        if not isinstance(n.left, ast.Attribute) or getattr(n.left.value, "id", "") != "ln":
            n = ast.Compare(n.comparators[0], n.ops, [n.left])
        l = n.left
        assert len(n.ops) == 1 and isinstance(l, ast.Attribute) and l.value.id == "ln", ast.unparse(n)
        op = {ast.Eq: "in", ast.In: "in", ast.NotEq: "not", ast.NotIn: "not"}[type(n.ops[0])]
        return [[[l.attr, op, val(n.comparators[0])]]]
    raise ValueError(ast.unparse(n))


def walk(body, pre):
    """pre: list of conjunction alternatives; returns nothing, appends rules. Falling through means going on with what follows"""
    for st in body:
        if isinstance(st, ast.If):
            c = dnf(st.test)
            walk(st.body, [a + b for a in pre for b in c])
            if st.orelse:
                # elif: only when the test failed; a rule marker keeps the order
                rules.append(["skip", [a + b for a in pre for b in c], None])
                k = len(rules) - 1
                walk(st.orelse, pre)
                rules.append(["end", k, None])
        elif isinstance(st, ast.Return):
            rules.append(["ret", pre, ast.unparse(st.value).split(".")[-1]])
        elif isinstance(st, ast.Expr):
            pass
        else:
            raise ValueError(ast.unparse(st)[:100])


walk(f.body, [[]])
for r in rules:
    if r[0] == "skip":
        r[2] = next(i for i, x in enumerate(rules) if x[0] == "end" and rules[x[1]] is r)
json.dump(rules, open("/verif/data/groups.json", "w"))
print(len(rules), [r for r in rules if r[0] == "ret"][:3], {r[2] for r in rules if r[0] == "ret"})
