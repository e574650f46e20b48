"""C22 - tables edited by clients stay consistent and independent; values are taken over from another meter faithfully."""
from .. import axdr_ref as A, env, objgen as O
from ..engine import Check, Scenario
from ..objgen import G, i8, octet, u8, u16

BAD = (ValueError, TypeError, KeyError, IndexError, AttributeError)
CAL, SPEC, SCHED, SCRIPT = (0, 0, 13, 0, 0, 255), (0, 0, 11, 0, 0, 255), (0, 0, 12, 0, 0, 255), (0, 0, 10, 0, 0, 255)
KINDS = {(20, 0): CAL, (11, 0): SPEC, (10, 0): SCHED, (9, 0): SCRIPT}
DAYS, WEEKS, SEASONS = (5, 9), (4, 8), (3, 7)
TABLES = [(CAL, i) for i in (5, 4, 3, 9, 8, 7)] + [(SPEC, 2), (SCHED, 2), (SCRIPT, 2)]


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        O.bind()
        from src.DLMS_SPODES import exceptions as exc
        from src.DLMS_SPODES.version import AppVersion
    G.AppVersion = AppVersion
    G.bad = BAD + (G.ut.UserfulTypesException, exc.DLMSException)


def new(c, k, t):
    return c.add(class_id=G.ut.CosemClassId(k[0]), version=G.cdt.Unsigned(k[1]), logical_name=G.cst.LogicalName(bytearray(t)))


def key_of(t, tree):
    """what must be unique in the table, None if nothing"""
    if t == SCRIPT:
        return None
    if t == SCHED:
        return A.encode(tree)
    return tree[1][0]


def with_key(t, tree, key):
    return tree[0], [key] + tree[1][1:]


class Client:
    def __init__(self, c, model):
        self.c, self.m = c, model

    def obj(self, t):
        return self.c.get_object(G.cst.LogicalName(bytearray(t)))

    def table(self, k):
        return self.obj(k[0]).get_attr(k[1])

    def weeks(self, i):
        return [e[1][0] for e in self.m[CAL, i + 1]]

    def days(self, i):
        return [e[1][0] for e in self.m[CAL, i + 1]]


def small_key(sim, k):
    t, i = k
    if t == SCHED:
        return u16(sim.pick((1, 2, 3, 9999)))
    if t == SPEC:
        return u16(sim.pick((0, 1, 2, 3, 65535)))
    if i in DAYS:
        return u8(sim.pick((0, 1, 2, 3, 255)))
    return octet(sim.pick((b"\x00", b"\x01", b"W", b"\xff", b"wk12")))


def element(sim, cl, k):
    T = cl.table(k).TYPE
    key = O.gen(sim, T.ELEMENTS[0].TYPE) if k[0] == SCRIPT else small_key(sim, k)
    return 2, [key] + [O.gen(sim, el.TYPE) for el in T.ELEMENTS[1:]]


def duplicates(k, elements):
    if k[0] == SCRIPT:
        return False
    keys = [key_of(k[0], e) for e in elements]
    return any(x in keys[:j] for j, x in enumerate(keys))


def agree(sim, clients, key):
    for n, cl in enumerate(clients):
        for k in TABLES:
            got, want = cl.table(k).encoding, A.encode((1, cl.m[k]))
            sim.check(got == want, key, lambda: f"client {n}, table {k[1]} of {k[0]}: {got.hex()}, expected {want.hex()}")


def links(sim, cl, key="link-wrong"):
    """what the tables and the parameters of methods know about the keys in use"""
    cal = cl.obj(CAL)
    for i in DAYS:
        got = [d.encoding for d in cal.get_attr(i).get_day_ids()]
        sim.check(got == [A.encode(e[1][0]) for e in cl.m[CAL, i]], key, f"day ids of table {i}: {got}")
    for i in WEEKS:
        got = [d.encoding for d in cal.get_attr(i).get_week_profile_names()]
        sim.check(got == [A.encode(e[1][0]) for e in cl.m[CAL, i]], key, f"week names of table {i}: {got}")
    want = [int.from_bytes(e[1][0][1], "big") for e in cl.m[SPEC, 2]]
    sim.check(cl.table((SPEC, 2)).get_indexes() == want, key, "indexes of special days")
    want = [int.from_bytes(e[1][0][1], "big") for e in cl.m[SCHED, 2]]
    s = cl.obj(SCHED)
    who = [s.entries] + [e.index for e in s.entries] + list(s.enable_disable) + [s.insert.index] + list(s.delete)
    for j, w in enumerate(who):
        try:
            got = w.get_indexes()
        except BAD as e:
            sim.fail(key, f"indexes known by part {j} of the schedule: {type(e).__name__}: {e}")
            continue
        sim.check(got == want, key, f"indexes known by part {j} of the schedule: {got}, expected {want}")


def free_index(sim, cl):
    """is an index free for a schedule entry"""
    s = cl.obj(SCHED)
    used = [int.from_bytes(e[1][0][1], "big") for e in cl.m[SCHED, 2]]
    who = [e.index for e in s.entries] + [s.insert.index, s.delete.firstIndex, s.enable_disable.lastIndexB]
    w, n = sim.pick(who), sim.pick(used + [1, 2, 3, 4, 9999, 0, 10000])
    try:
        w.check(str(n))
        ok = True
    except ValueError:
        ok = False
    sim.check(ok == (n not in used and 1 <= n <= 9999), "index-wrong", f"index {n} is {'free' if ok else 'not free'}, in use: {used}")


def answer(sim, cl, k):
    els = [element(sim, cl, k) for _ in range(sim.weighted([(3, 1), (2, 0), (3, 2), (3, 3), (1, 5)]))]
    bad = sim.weighted([(6, None), (1, "dup"), (1, "cut"), (1, "tag"), (1, "short")]) if sim.faulty else None
    if bad == "dup" and els:
        els.append(sim.pick(els))
    e = A.encode((1, els))
    if bad in ("cut", "tag", "short") and els:
        j = sim.draw(len(els))
        if bad == "cut":
            e = e[:sim.int(2, len(e) - 1)]
        elif bad == "tag":
            e = A.encode((1, els[:j] + [(2, els[j][1][:-1] + [(22, b"\x01") if els[j][1][-1][0] != 22 else (3, b"\x01")])] + els[j + 1:]))
        else:
            e = A.encode((1, els[:j] + [(2, els[j][1][:-1])] + els[j + 1:]))
    else:
        bad = "dup" if duplicates(k, els) else None
    if bad:
        sim.fault("answer_" + bad)
    try:
        cl.obj(k[0]).set_attr(k[1], e)
    except BAD as err:
        sim.check(bad is not None, "answer-refused", lambda: f"table {k[1]} of {k[0]}: {type(err).__name__}: {err}")
        return
    sim.check(bad is None, "answer-taken", lambda: f"table {k[1]} of {k[0]} took an answer with fault {bad}: {e.hex()}")
    cl.m[k] = els


def fresh(sim, cl, k):
    """a new element offers a free key and refers to what exists"""
    t, i = k
    cur = cl.m[k]
    if sim.chance(0.08) and t == CAL:
        n = sim.pick((255, 256))
        cl.table(k).clear()
        keep = sim.pick((255, 0, sim.draw(256)))
        model = [with_key(t, element(sim, cl, k), u8(j) if i in DAYS else octet(bytes([j]))) for j in (range(256) if n == 256 else [x for x in range(256) if x != keep])]
        for e in model:
            cl.table(k).append(A.encode(e))
        cur = cl.m[k] = model
        sim.fault("table_full" if n == 256 else "table_nearly_full")
    full = t == CAL and len({e[1][0] for e in cur if len(e[1][0][1]) == 1}) == 256
    none = t == CAL and (i in WEEKS and not cl.days(i) or i in SEASONS and not cl.weeks(i))
    how = sim.pick(("new", "append"))
    tab = cl.table(k)
    try:
        if how == "new":
            el = tab.new_element()
        else:
            tab.append()
            el = tab[len(cur)]
    except ValueError as e:
        sim.check(full or none or t == SCHED and how == "append", "new-refused", f"new element of table {i} of {t}: {e}")
        if t == SCHED and how == "append":
            own = A.encode(A.decode(tab.new_element().encoding)[0])
            sim.check(any(A.encode(x) == own for x in cur), "new-refused", f"new schedule entry: {e}")
        sim.fault("no_free_key" if full else "nothing_to_refer_to" if none else "same_entry")
        return
    except BAD as e:
        sim.fail("new-refused", f"new element of table {i} of {t}: {type(e).__name__}: {e}")
        return
    x = A.decode(el.encoding)[0]
    sim.check(not full and not none, "new-wrong", lambda: f"new element of table {i} although {'no key is free' if full else 'nothing is to refer to'}")
    if t not in (SCHED, SCRIPT):
        sim.check(x[1][0] not in [e[1][0] for e in cur], "new-wrong", lambda: f"the key {x[1][0][1].hex()} of the new element of table {i} of {t} is in use")
    if t == CAL and i in WEEKS:
        sim.check(all(d in cl.days(i) for d in x[1][1:]), "new-wrong", lambda: f"new week refers to days {x[1][1:]}, in the table: {cl.days(i)}")
    if t == CAL and i in SEASONS:
        sim.check(x[1][2] in cl.weeks(i), "new-wrong", lambda: f"new season refers to week {x[1][2]}, in the table: {cl.weeks(i)}")
    if how == "append":
        cl.m[k] = cur + [x]


def put(sim, cl, k):
    """append or insert one element"""
    e = element(sim, cl, k)
    cur, tab = cl.m[k], cl.table(k)
    T = tab.TYPE
    pos = sim.int(0, len(cur)) if sim.chance(0.4) else None
    if sim.chance(0.1) and pos is not None:
        tab.insert(pos, sim.pick((G.cdt.Unsigned(1), G.cdt.NullData(), G.cdt.OctetString(b"\x09\x00"))))
        sim.fault("foreign_element")
        return
    how = sim.pick(("bytes", "tuple", "element")) if pos is None else "element"
    v = A.encode(e) if how == "bytes" else tuple(A.encode(x) for x in e[1]) if how == "tuple" else T(A.encode(e))
    dup = duplicates(k, cur + [e])
    if dup:
        sim.fault("same_key")
    try:
        tab.append(v) if pos is None else tab.insert(pos, v)
    except BAD as err:
        sim.check(dup, "append-refused", lambda: f"table {k[1]} of {k[0]} ({how}): {type(err).__name__}: {err}")
        return
    sim.check(not dup, "append-taken", lambda: f"table {k[1]} of {k[0]} took the key {e[1][0]} twice ({'insert' if pos is not None else how})")
    cl.m[k] = cur + [e] if pos is None else cur[:pos] + [e] + cur[pos:]


def take(sim, cl, k):
    cur, tab = cl.m[k], cl.table(k)
    what = sim.pick(("remove", "pop", "pop at", "clear", "foreign"))
    if what == "clear":
        if sim.chance(0.7):
            return
        tab.clear()
        cl.m[k] = []
    elif what == "foreign":
        tab.remove(sim.pick((G.cdt.Unsigned(1), G.cdt.NullData())))
        sim.fault("foreign_element")
    elif cur:
        j = sim.draw(len(cur))
        if what == "remove":
            j = cur.index(cur[j])
            tab.remove(tab.TYPE(A.encode(cur[j])))
            cl.m[k] = cur[:j] + cur[j + 1:]
        else:
            if what == "pop":
                j = len(cur) - 1
            got = tab.pop() if what == "pop" else tab.pop(j)
            sim.check(got.encoding == A.encode(cur[j]), "pop-wrong", f"popped {got.encoding.hex()}")
            cl.m[k] = cur[:j] + cur[j + 1:]


def edit(sim, cl, k):
    """one part of one element, or the whole element, is set again"""
    cur, tab = cl.m[k], cl.table(k)
    if not cur:
        return
    t = k[0]
    j = sim.draw(len(cur))
    e = element(sim, cl, k)
    n = sim.draw(len(e[1]))
    whole = sim.chance(0.3)
    x = e if whole else (2, cur[j][1][:n] + [e[1][n]] + cur[j][1][n + 1:])
    if any(isinstance(p, G.ut.CHOICE) for p in (tab.TYPE.ELEMENTS[n].TYPE,)):
        return
    m = cur[:j] + [x] + cur[j + 1:]
    dup = duplicates(k, m)
    if dup and t != SPEC:
        return                # keys of the other tables are not guarded in their elements
    if dup:
        sim.fault("same_key")
    try:
        tab[j].set(A.encode(x)) if whole else tab[j][n].set(A.encode(e[1][n]))
    except BAD as err:
        sim.check(dup, "edit-refused", lambda: f"table {k[1]} of {t}, part {'all' if whole else n}: {type(err).__name__}: {err}")
        return
    sim.check(not dup, "edit-taken", lambda: f"table {k[1]} of {t} has the key {x[1][0]} twice")
    cl.m[k] = m


def delete(sim, cl):
    """the parameter of the method that deletes a special day names an existing one"""
    used = [int.from_bytes(e[1][0][1], "big") for e in cl.m[SPEC, 2]]
    n = sim.pick(used + [0, 1, 2, 3, 4, 65535])
    p = cl.obj(SPEC).delete
    try:
        p.set(n)
    except ValueError:
        sim.check(n not in used, "delete-refused", f"special day {n} is not accepted, in use: {used}")
        return
    sim.check(n in used and p.encoding == A.encode(u16(n)), "delete-taken", f"special day {n} is accepted, in use: {used}")


def fork(sim, clients):
    src = sim.pick(clients)
    c = src.c.copy()
    clients.append(Client(c, {k: list(v) for k, v in src.m.items()}))
    sim.log("fork")


def tables(sim):
    sim.faulty = sim.chance(0.8)
    c = G.col.Collection()
    for k, t in KINDS.items():
        new(c, k, t)
    objs = [O.Obj(*k, t) for k, t in KINDS.items()]
    listed = sim.weighted([(3, 3), (1, 1), (1, 2), (1, 0)])
    if listed:
        a = new(c, (15, 0), (0, 0, 40, 0, listed, 255))
        me = O.Obj(15, 0, (0, 0, 40, 0, listed, 255))
        a.set_attr(2, A.encode(O.object_list([(o, {i: sim.pick((3, 1, 3, 1, 2)) for i in range(1, len(O.cls_of(o.c, o.v).A_ELEMENTS) + 2)}, {}) for o in objs + [me]])))
    clients = [Client(c, {k: [] for k in TABLES})]
    for _ in sim.steps(60, 18):
        cl, k = sim.pick(clients), sim.pick(TABLES)
        op = sim.weighted([(5, answer), (4, fresh), (4, put), (3, take), (4, edit), (2, "delete"), (2, "index"), (2, "fork")])
        if op == "fork":
            if len(clients) < 3:
                fork(sim, clients)
        elif op == "delete":
            delete(sim, cl)
        elif op == "index":
            free_index(sim, cl)
        else:
            op(sim, cl, k)
        sim.log(op if isinstance(op, str) else op.__name__, clients.index(cl), k[0][2], k[1])
        agree(sim, clients, "table-wrong")
        links(sim, sim.pick(clients) if op != "fork" else clients[-1])
        sim.state(op if isinstance(op, str) else op.__name__, k, min(len(cl.m[k]), 3), len(clients))


# ---- values taken over from another meter -------------------------------------------------------------------------------

NOT = (7, 15, 21, 71)


def build(sim, objs):
    c = G.col.Collection()
    for o in objs:
        x = new(c, (o.c, o.v), o.t)
        for i, tree in sorted(o.attrs.items()):
            x.set_attr(i, A.encode(tree))
    return c


def shape(tree):
    """what of the type of a value an attribute keeps once it has one"""
    return tree[0]


def values(c):
    return {o.logical_name.contents: [None if a is None else a.encoding for _, a in o.get_index_with_attributes()] for o in c.values()}


def transfer(sim):
    """values of one meter are taken over into another"""
    src = [o for o in O.meter(sim, size=(1, 6))[0] if o.c not in NOT]
    dst = []
    for o in src:
        if sim.chance(0.15):
            sim.fault("object_absent")
            continue
        d = O.Obj(o.c, o.v, o.t)
        O.fill(sim, d, [], sim.pick((0.0, 0.5, 1.0)))
        T = O.cls_of(o.c, o.v)
        for i in list(d.attrs):
            if i in o.attrs and isinstance(T.A_ELEMENTS[i - 2].DATA_TYPE, G.ut.CHOICE) and d.attrs[i][0] != o.attrs[i][0]:
                d.attrs.pop(i)
        if o.c == 5:
            d.attrs.clear()
        dst.append(d)
    extra = [O.Obj(1, 0, (0, 0, 128, 9, 9, 255))] if sim.chance(0.3) else []
    a, b = build(sim, dst + extra), build(sim, src)
    before, given = values(a), values(b)
    whole = sim.chance(0.4)
    with env.quiet():
        if whole:
            todo = [o.t for o in src]
            try:
                got = a.copy_objects_attr_values_from(b)
            except BAD as e:
                sim.fail("transfer-refused", f"{type(e).__name__}: {e}")
                return
            want = len(dst) == len(src)
        else:
            if not src:
                return
            o = sim.pick(src)
            todo = [o.t]
            try:
                got = a.copy_obj_attr_values_from(b.get_object(G.cst.LogicalName(bytearray(o.t))))
            except BAD as e:
                sim.fail("transfer-refused", f"class {o.c}: {type(e).__name__}: {e}")
                return
            want = any(d.t == o.t for d in dst)
    sim.check(got is want, "transfer-told-wrong", f"told {got!r}, expected {want!r}")
    want = {ln: list(v) for ln, v in before.items()}
    for t in todo:
        if bytes(t) in want:
            for i, x in enumerate(given[bytes(t)]):
                if x is not None:
                    want[bytes(t)][i] = x
    got = values(a)
    for ln in want:
        sim.check(got[ln] == want[ln], "transfer-wrong", lambda: f"{ln.hex()}: {[x and x.hex() for x in got[ln]]}, expected {[x and x.hex() for x in want[ln]]}")
    sim.check(values(b) == given, "transfer-touched", "the values of the source changed")
    sim.state(whole, len(src), len(dst))
    # neither meter sees what the other does later
    for o in src:
        for i, tree in o.attrs.items():
            y = b.get_object(G.cst.LogicalName(bytearray(o.t)))
            if sim.chance(0.5) and isinstance(y.get_attr(i), (G.cdt.Array, G.cdt.Structure)):
                for part in y.get_attr(i):
                    part.clear() if isinstance(part, G.cdt.Structure) else None
                if isinstance(y.get_attr(i), G.cdt.Array):
                    y.get_attr(i).clear()
    sim.check(values(a) == got, "transfer-shared", "editing the source changed what was taken over")
    sim.log("transfer", whole, len(src), len(dst))


ARB = (0, 0, 96, 3, 20, 255)


def permissions(sim):
    """an arbitrator: every actor has a permission for each action, none is given when the number of actions becomes another"""
    c = G.col.Collection()
    if sim.chance(0.5):
        c.set_country_ver(G.AppVersion(3, 0))
        c.set_spec()
    o = new(c, (68, 0), ARB)
    model = {2: [], 3: [], 4: [], 5: []}
    for _ in sim.steps(8, 10):
        i = sim.weighted([(4, 2), (4, 3), (1, 4), (1, 5)])
        n = sim.pick((0, 1, 2, 3, 5, 8, 9, 11))
        if i == 2:
            x = [(2, [octet(sim.bytes(6)), u16(sim.int(0, 9))]) for _ in range(n)]
        elif i == 4:
            x = [(1, [u16(sim.int(0, 9)) for _ in range(2)]) for _ in range(n)]
        else:
            k = len(model[2])
            x = []
            for _ in range(sim.pick((0, 1, 2, 3, 8))):
                bits = k if sim.chance(0.7) else sim.int(0, 12)
                b = "".join(str(sim.draw(2)) for _ in range(bits))
                x.append((4, (bits, int(b.ljust(-(-bits // 8) * 8, "0") or "0", 2).to_bytes(-(-bits // 8), "big"))))
        enc = A.encode((1, x))
        op = sim.weighted([(6, "set"), (2, "bad"), (1, "copy")])
        if op == "copy":
            c = c.copy()
            o = c.get_object(G.cst.LogicalName(bytearray(ARB)))
            o.set_attr(2, A.encode((1, model[2])))
            for j in (3, 4, 5):
                o.set_attr(j, A.encode((1, model[j])))
            sim.fault("copy")
        elif op == "bad":
            sim.fault("bad answer")
            bad = enc[:-1] if len(x) else b"\x01\x01\x11\x00"
            if sim.chance(0.5):
                bad = A.encode((1, x + [(17, b"\1")] if not x else x[:-1] + [(17, b"\1")]))
            try:
                o.set_attr(i, bad)
            except G.bad:
                pass
            else:
                sim.fail("bad-taken", f"attribute {i} takes {bad.hex()}")
        else:
            try:
                o.set_attr(i, enc)
            except G.bad as e:
                sim.fail("answer-refused", f"attribute {i}: {enc.hex()}: {type(e).__name__}: {e}")
                return
            model[i] = x
            if i == 2:
                model[3] = [p if p[1][0] == n else (4, (n, bytes(-(-n // 8)))) for p in model[3]]
        for j in (2, 3, 4, 5):
            got, want = o.get_attr(j).encoding, A.encode((1, model[j]))
            sim.check(got == want, "arbitrator-wrong", lambda: f"after {op} of {i}: attribute {j} is {got.hex()}, expected {want.hex()}")
        sim.state(op, i, len(model[2]), len(model[3]))
        sim.log(op, i, enc.hex())


CHECK = Check(
    id="C22",
    scenarios=[Scenario("tables", tables, 3000, 100_000, 200), Scenario("transfer", transfer, 3000, 100_000, 200), Scenario("permissions", permissions, 4000, 100_000, 200)],
    rule="histories of answers, edits and copies of up to three clients over nine tables; non-trivial: a fault was injected",
    real=["activity calendar", "special days table", "schedule", "script table", "arbitrator", "Array", "Structure", "Collection.copy", "Collection.copy_objects_attr_values_from"],
    stub=["the meter (generated answers)"],
    setup=setup,
)
