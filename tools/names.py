"""tools/names.py : the names of logical names, as rules -> data/names.json (written once, reviewed against the Blue Book and the SPODES annexes; the checks do not run this).
Texts are told by the names of their constants in Values, so the table holds for each language."""
import ast, json
tree = ast.parse(open("/repo/src/DLMS_SPODES/relation_to_OBIS.py").read())
fn = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}


def text(n):
    """expression -> list of tokens"""
    if isinstance(n, ast.JoinedStr):
        return [t for v in n.values for t in text(v)]
    if isinstance(n, ast.FormattedValue):
        return text(n.value)
    if isinstance(n, ast.Constant):
        return [["s", str(n.value)]]
    if isinstance(n, ast.Attribute) and n.value.id in ("rn", "classID"):
        return [[n.value.id, n.attr]]
    if isinstance(n, ast.Call):
        return [["f", n.func.id, n.args[0].id]]
    if isinstance(n, ast.Name):
        return [["v", n.id]]
    if isinstance(n, ast.BinOp):
        return [["v+1", n.left.id]]
    if isinstance(n, ast.Subscript):
        return [["angle", n.slice.id]]
    raise ValueError(ast.unparse(n))


def vals(p):
    """pattern of one field -> (list or None, captured name or None)"""
    if isinstance(p, ast.MatchValue):
        return [p.value.value], None
    if isinstance(p, ast.MatchOr):
        return [x.value.value for x in p.patterns], None
    if isinstance(p, ast.MatchAs):
        return (None if p.pattern is None else vals(p.pattern)[0]), p.name
    raise ValueError(ast.dump(p))


rules = []
for c in fn["get_name"].body[0].cases:
    if isinstance(c.pattern, ast.MatchAs):
        rules.append([None, text(c.body[0].value)])
        break
    ps = [vals(p) for p in c.pattern.patterns]
    sets = [p[0] for p in ps]
    if c.guard is not None:
        g = ast.unparse(c.guard)
        name = next(n.id for n in ast.walk(c.guard) if isinstance(n, ast.Name) and n.id not in ("range",))
        i = [p[1] for p in ps].index(name)
        sets[i] = [x for x in range(256) if eval(g, {name: x})]
    rules.append([sets, text(c.body[-1].value)])
tabs = {}
for f in ("get_obj_names", "get_processing_names", "get_harmonics_name"):
    t = []
    arg = fn[f].args.args[0].arg
    for c in [x for x in fn[f].body if isinstance(x, ast.Match)][0].cases:
        if isinstance(c.pattern, ast.MatchAs) and c.guard is None:
            if isinstance(c.body[0], ast.Return):
                t.append([None, text(c.body[0].value)])
            continue
        v = [x for x in range(256) if eval(ast.unparse(c.guard), {arg: x})] if c.guard is not None else vals(c.pattern)[0]
        t.append([v, text(c.body[0].value)])
    tabs[f] = t
json.dump({"rules": rules, "tables": tabs}, open("/verif/data/names.json", "w"), ensure_ascii=False)
print(len(rules), {k: len(v) for k, v in tabs.items()})
print(rules[-40:-30])
