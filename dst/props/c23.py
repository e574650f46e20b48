"""C23 - objects of every class are what the interface class says: attributes, methods, their types, defaults and the answers they take."""
from .. import axdr_ref as A, bluebook as B, env, objgen as O
from ..engine import Check, Scenario
from ..objgen import G

#: what a refusal may look like
BAD = (ValueError, TypeError, KeyError, IndexError, AttributeError)
LNS = {(40, 2): (0, 0, 25, 9, 0, 255), (47, 1): (0, 0, 25, 6, 0, 255), (64, 1): (0, 0, 43, 0, 0, 255), (10, 0): (0, 0, 12, 0, 0, 255),
       (27, 0): (0, 0, 2, 0, 0, 255), (27, 1): (0, 0, 2, 0, 0, 255)}
LNS.update({(15, v): (0, 0, 40, 0, 1, 255) for v in (0, 1, 2)})
#: attributes which depend on other attributes: an answer is only tried on the type
LINKED = {(71, 2), (7, 2), (7, 3), (7, 6), (71, 3), (71, 4), (71, 5), (21, 2), (21, 3), (5, 2), (5, 3)} | {(15, i) for i in range(2, 10)}


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        O.bind()
        from src.DLMS_SPODES import exceptions as exc
        from src.DLMS_SPODES.version import AppVersion
    G.AppVersion = AppVersion
    G.bad = BAD + (G.ut.UserfulTypesException, exc.DLMSException)


def ln_of(k):
    return LNS.get(k) or O.POOL[k][0]


def new(sim, k):
    c = G.col.Collection()
    return c.add(class_id=G.ut.CosemClassId(k[0]), version=G.cdt.Unsigned(k[1]), logical_name=G.cst.LogicalName(bytearray(ln_of(k))))


def same(sim, what, t, x, value, parts):
    """the value and every part of it reached by its name"""
    sim.check(value.encoding == A.encode(x), "value-wrong", lambda: f"{what}: {value.encoding.hex()}, told {A.encode(x).hex()}")
    tag, v = x
    w, a = t
    parts.append(w)
    if w == "struct":
        sim.check(len(value) == len(a), "parts-wrong", lambda: f"{what}: {len(value)} elements, expected {len(a)}")
        for j, (name, e) in enumerate(a):
            try:
                got = getattr(value, name)
            except AttributeError:
                sim.fail("part-missing", f"{what}: no element {name!r}")
                return
            sim.check(got.encoding == value[j].encoding == A.encode(v[j]), "part-wrong",
                      lambda: f"{what}.{name}: {got.encoding.hex()}, told {A.encode(v[j]).hex()}")
            same(sim, f"{what}.{name}", B.chosen(e, v[j - 1] if j else None), v[j], got, parts)
    elif w == "array":
        sim.check(len(value) == len(v), "parts-wrong", lambda: f"{what}: {len(value)} elements, told {len(v)}")
        for j, y in enumerate(v):
            same(sim, f"{what}[{j}]", a, y, value[j], parts)


def definition(sim, k, o):
    attrs, meths = B.CLASSES[k]
    sim.check(int(o.CLASS_ID) == k[0], "class-wrong", lambda: f"{k}: class id {o.CLASS_ID}")
    sim.check(o.get_attr_length() == len(attrs) + 1, "attributes-wrong", lambda: f"class {k}: {o.get_attr_length()} attributes, expected {len(attrs) + 1}")
    sim.check(o.get_attr(1).contents == bytes(ln_of(k)), "name-lost", lambda: f"class {k}: logical name {o.get_attr(1)}")
    for i, a in enumerate(attrs, 2):
        el = o.get_attr_element(i)
        sim.check(el.NAME == a.name, "attribute-name", lambda: f"class {k} attribute {i}: {el.NAME!r}, expected {a.name!r}")
        dyn, static = el.classifier == G.ic.Classifier.DYNAMIC, el.classifier == G.ic.Classifier.STATIC
        sim.check(not (a.kind == "dyn" and static or a.kind == "static" and dyn), "attribute-kind",
                  lambda: f"class {k} attribute {i} {a.name}: {el.classifier}, expected {a.kind}")
        if a.default is not None:
            got = o.get_attr(i)
            sim.check(got is not None and got.encoding == a.default, "default-wrong",
                      lambda: f"class {k} attribute {i} {a.name}: new object has {got and got.encoding.hex()}, expected {a.default.hex()}")
    if meths:
        told = list(o.it_index_with_meth)[:len(meths)]
        sim.check([i for i, _ in told] == list(range(1, len(meths) + 1)) and all(x is o.get_meth(i) for i, x in told), "method-name", lambda: f"class {k}: methods {[i for i, _ in told]} of {len(meths)}")
    for i, m in enumerate(meths, 1):
        el = o.get_meth_element(i)
        sim.check(el.NAME == m.name, "method-name", lambda: f"class {k} method {i}: {el.NAME!r}, expected {m.name!r}")
        if m.type is not None:
            got = o.get_meth(i).encoding
            tree, end = A.decode(got)
            sim.check(end == len(got) and B.ok(m.type, tree), "argument-wrong", lambda: f"class {k} method {i} {m.name}: a new object has the argument {got.hex()}")


def classes(sim):
    k = sim.pick(sorted(B.CLASSES))
    attrs, meths = B.CLASSES[k]
    o = new(sim, k)
    definition(sim, k, o)
    shown, parts = 0, []
    for _ in sim.steps(2, 8):
        n = sim.draw(len(attrs) + len(meths))
        meth = n >= len(attrs)
        a = meths[n - len(attrs)] if meth else attrs[n]
        i = n - len(attrs) + 1 if meth else n + 2
        if a.type is None:
            continue
        what = f"class {k} {'method' if meth else 'attribute'} {i} {a.name}"
        T = (o.get_meth_element(i) if meth else o.get_attr_element(i)).DATA_TYPE
        x = B.gen(sim, a.type)
        if not B.ok(a.type, x):
            sim.fail("reference", f"{what}: generated {x}")
        stored = not meth and (k[0], i) not in LINKED
        try:
            value = T(A.encode(x))
        except G.bad as e:
            sim.fail("answer-refused", f"{what}: {A.encode(x).hex()} refused: {type(e).__name__}: {e}")
            return
        same(sim, what, a.type, x, value, parts)
        if stored:
            if isinstance(T, G.ut.CHOICE):
                o.clear_attr(i)
            try:
                o.set_attr(i, A.encode(x))
            except G.bad as e:
                sim.fail("answer-refused", f"{what}: {A.encode(x).hex()} refused: {type(e).__name__}: {e}")
                return
            same(sim, what, a.type, x, o.get_attr(i), parts)
        y = None
        for _ in range(3):
            y = B.change(sim, a.type, x)
            if y is not None and not B.ok(a.type, y):
                break
            y = None
        if y is None:
            continue
        shown += 1
        sim.fault("answer not of the type")
        sim.log("answer", k, i, meth, A.encode(x).hex()[:60], A.encode(y).hex()[:60])
        try:
            got = T(A.encode(y))
        except G.bad:
            pass
        else:
            sim.fail("bad-taken", f"{what}: {A.encode(y).hex()} taken as {got.encoding.hex()}")
            return
        if stored:
            try:
                o.set_attr(i, A.encode(y))
            except G.bad:
                pass
            else:
                sim.fail("bad-taken", f"{what}: {A.encode(y).hex()} taken")
                return
            if x[0] not in (1, 2):
                sim.check(o.get_attr(i).encoding == A.encode(x), "bad-damaged", lambda: f"{what}: after a refused answer {o.get_attr(i).encoding.hex()}, told {A.encode(x).hex()}")
    sim.state(k, shown, len(parts))
    sim.log("class", k, shown, len(parts))


def meter(sim):
    spec = sim.pick(sorted(B.SPECS))
    c = G.col.Collection()
    if spec != "DLMS_6":
        c.set_country_ver(G.AppVersion(3, 0))
    if spec == "KPZ1":
        c.set_server_ver(0, G.AppVersion(1, 3, sim.int(0, 29)))
    if spec == "KPZ":
        if sim.chance(0.5):
            c.set_server_ver(0, G.AppVersion(1, sim.pick((3, 4)), sim.int(30, 99)))
    if spec.startswith("KPZ"):
        c.set_manufacturer(b"KPZ")
    elif sim.chance(0.5):
        c.set_manufacturer(b"INC")
    c.set_spec()
    return spec, c


#: names used by meters most, one of these groups differs in the neighbour of a row
GROUP = (0, 1, 2, 3, 4, 7, 8, 10, 96, 97, 98, 99, 127, 128, 130, 199, 200, 240, 254, 255)


def name(sim, spec):
    if sim.chance(0.85):
        r = sim.pick(B.SPECS[spec])
        t = [r.a, sim.pick((0, 0, 0, 1, 2, 64)) if r.b is None else r.b] + [sim.pick(sorted(g)) for g in r.groups]
        while len(t) < 5:
            t.append(sim.pick((0, 0, 1, 2, 10, 35, 100, 255)))
        t.append(255)
        if sim.chance(0.25):
            sim.fault("neighbour")
            j = sim.int(1, 5)
            t[j] = sim.pick((t[j] + 1 & 255, t[j] - 1 & 255, sim.pick(GROUP)))
    else:
        sim.fault("free name")
        t = [sim.pick((0, 1, 1, 6, 8))] + [sim.pick(GROUP) for _ in range(4)] + [sim.pick((255, 255, 101, 0, 128))]
    return tuple(t)


VERSIONS = {7: (1,), 15: (0, 1, 2), 23: (1,), 27: (0, 1), 40: (2,), 47: (0, 1), 64: (0, 1)}


def names(sim):
    """objects put in a meter behind all kinds of logical names"""
    spec, c = meter(sim)
    model = {bytes((0, 0, 42, 0, 0, 255)): (1, 0)}
    refused = 0
    for _ in sim.steps(4, 12):
        if spec != "KPZ1" and sim.chance(0.1):
            with env.quiet():
                c = c.copy()                                         # the names of a meter mean the same in its copy
            sim.log("copy")
        t = name(sim, spec)
        if t[0] == 0 and t[2:5] in {d[1:] for d in B.DEAD}:
            continue
        r = B.row_of(spec, t)
        ids = r.ids if r else B.ANY
        cl = sim.pick(sorted(ids)) if sim.chance(0.7) else sim.pick(sorted(B.ANY) + [2, 12, 17, 61, 111])
        v = sim.pick(VERSIONS.get(cl, (0,))) if sim.chance(0.9) else sim.pick((0, 1, 2, 3, 255))
        good = cl in ids and v in VERSIONS.get(cl, (0,))
        sim.log("add", cl, v, bytes(t).hex(), good)
        if cl == 40 and r is None:
            continue
        try:
            o = c.add(class_id=G.ut.CosemClassId(cl), version=G.cdt.Unsigned(v), logical_name=G.cst.LogicalName(bytearray(t)))
        except G.bad as e:
            sim.check(not good, "object-refused", lambda: f"{spec}: class {cl} version {v} behind {t}: {type(e).__name__}: {e}")
            refused += 1
            sim.fault("refused object")
        else:
            sim.check(good, "object-taken", lambda: f"{spec}: class {cl} version {v} behind {t} taken as {type(o).__name__}, expected one of {sorted(ids)}")
            sim.check(int(o.CLASS_ID) == cl and int(o.VERSION) == v and o.logical_name.contents == bytes(t), "object-wrong",
                      lambda: f"{spec}: class {cl} version {v} behind {t} is {int(o.CLASS_ID)} {o.VERSION} {o.logical_name}")
            model[bytes(t)] = cl, v
            value(sim, spec, c, t, o, r, cl)
        got = {x.logical_name.contents: (int(x.CLASS_ID), int(x.VERSION)) for x in c.values()}
        sim.check(got == model, "collection-wrong", lambda: f"{spec}: after class {cl} behind {t} the meter has {got}, expected {model}")
    sim.state(spec, len(model), refused)
    sim.log("names", spec, len(model), refused)


def value(sim, spec, c, t, o, r, cl):
    """the type the name gives the value"""
    if cl != 1 or r is None:
        return
    el = o.get_attr_element(2)
    dyn, static = el.classifier == G.ic.Classifier.DYNAMIC, el.classifier == G.ic.Classifier.STATIC
    sim.check(not (r.kind == "dyn" and static or r.kind == "static" and dyn), "attribute-kind", lambda: f"{spec} {t}: {el.classifier}, expected {r.kind}")
    if t[2:5] == (0, 2, 1) or t[2:5] == (42, 0, 0) or r.type[0] == "any" and sim.chance(0.8):
        return
    what = f"{spec} {t}"
    x = B.gen(sim, r.type)
    if r.type[0] != "any" and sim.chance(0.5):
        y = B.change(sim, r.type, x)
        if y is not None and not B.ok(r.type, y):
            sim.fault("answer not of the type")
            try:
                o.set_attr(2, A.encode(y))
            except G.bad:
                pass
            else:
                sim.fail("bad-taken", f"{what}: {A.encode(y).hex()} taken")
    if t[2:5] == (96, 12, 4) and sim.chance(0.5):    # the standard gives each port a number
        x = 17, bytes([sim.int(0, 7) + 8 * sim.int(0, 2)])
    try:
        o.set_attr(2, A.encode(x))
    except G.bad as e:
        sim.fail("answer-refused", f"{what}: {A.encode(x).hex()} refused: {type(e).__name__}: {e}")
        return
    sim.check(o.get_attr(2).encoding == A.encode(x), "value-wrong", lambda: f"{what}: {o.get_attr(2).encoding.hex()}, told {A.encode(x).hex()}")


CHECK = Check(
    id="C23",
    scenarios=[Scenario("classes", classes, 10000, 300_000, 300), Scenario("names", names, 10000, 300_000, 300)],
    rule="an object of any class and version of the interface class book, answers to its attributes and methods, objects behind logical names of four specifications; non-trivial: a fault was injected",
    real=["all interface classes", "Collection.add", "data types"],
    stub=["the meter (generated answers)"],
    setup=setup,
)
