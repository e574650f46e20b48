"""C19 - a profile is read as asked: the request tells the selection, each column of the answer is the value, of the object, in the unit it was captured with."""
from .. import axdr_ref as A, env, objgen as O
from ..engine import Check, Scenario
from ..objgen import G


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        O.bind()
        import src.DLMS_SPODES.exceptions as exc
        from src.DLMS_SPODES.version import AppVersion
        from src.DLMS_SPODES.relation_to_OBIS import get_name
    G.exc, G.AppVersion, G.get_name = exc, AppVersion, get_name


LOCAL = (ValueError, TypeError, KeyError, IndexError, AttributeError)


def u32(n):
    return 6, n.to_bytes(4, "big")


def ln(*t):
    return tuple(t)


CLOCK = (8, (0, 0, 1, 0, 0, 255))
REGS = [(3, (1, 0, 1, 8, i, 255)) for i in range(3)] + [(3, (1, 1, 1, 8, 0, 255)), (3, (1, 0, 1, 8, 0, 101)), (3, (1, 0, 2, 8, 0, 255)), (3, (1, 0, 32, 7, 0, 255)), (4, (1, 0, 1, 6, 0, 255)), (5, (1, 0, 1, 4, 0, 255)), (1, (0, 0, 128, 1, 1, 255))]
#: profile: its profile of scalers in the national specification
PROFILES = {(1, 0, 99, 1, 0, 255): (1, 0, 94, 7, 4, 255), (1, 0, 98, 1, 0, 255): (1, 0, 94, 7, 1, 255), (1, 0, 98, 2, 0, 255): (1, 0, 94, 7, 2, 255), (1, 0, 94, 7, 0, 255): (1, 0, 94, 7, 3, 255)}
NUM = (5, 6, 15, 16, 17, 18, 20, 21, 22, 23, 24)


def scal(sim):
    return 2, [(15, bytes([sim.pick((0, 1, 255, 254, 3))])), (22, bytes([sim.pick((27, 30, 32, 33, 35, 255))]))]


def definition(d):
    c, t, a, i = d
    return 2, [(18, c.to_bytes(2, "big")), (9, bytes(t)), (15, bytes([a])), (18, i.to_bytes(2, "big"))]


class World:
    """one collection and what the check knows of it"""

    def __init__(self, c):
        self.c, self.attrs, self.caps, self.sort, self.sel, self.asked, self.units_of = c, {}, {}, {}, {}, {}, {}

    def clone(self, c):
        w = World(c)
        w.attrs = {k: v for k, v in self.attrs.items()}
        w.caps, w.sort, w.units_of = dict(self.caps), dict(self.sort), dict(self.units_of)
        return w

    def set(self, d, a, x):
        self.c.get(bytes(d)).set_attr(a, A.encode(x))
        self.attrs[d, a] = x


def column_type(w, d):
    """type a column has: (T of the package to draw values of, tags it may have)"""
    c, t, a, i = d
    if c == 7 and a == 2 and i:
        return column_type(w, w.caps[t][i - 1])
    o = w.c.get(bytes(t))
    x = w.attrs.get((t, a))
    if c == 5 and a in (2, 3) and x is None:
        x = w.attrs.get((t, 5 - a))
    v = o.get_attr(a)
    T = type(v) if v is not None else o.get_attr_element(a).DATA_TYPE
    tags = {x[0]} if x else None
    if i and tags != {2} and not (isinstance(T, type) and issubclass(T, G.cdt.Structure)):
        i = 0
    if i:
        T = T.ELEMENTS[i - 1].TYPE
        tags = {x[1][i - 1][0]} if x else None
    return T, tags


def column_names(w, d):
    """the object, its attribute, and the element captured of it"""
    c, t, a, i = d
    if c == 7 and a == 2 and i:
        return column_names(w, w.caps[t][i - 1])
    o = w.c.get(bytes(t))
    el = o.get_attr_element(a)
    v = o.get_attr(a)
    T = type(v) if v is not None else el.DATA_TYPE
    part = [T.ELEMENTS[i - 1].NAME] if i and isinstance(T, type) and issubclass(T, G.cdt.Structure) else []
    return [G.get_name(o.logical_name), str(el)] + part


def columns(sim, w, n):
    out = []
    for _ in range(n):
        c, t = sim.pick(REGS)
        a, i = 2, 0
        k = sim.draw(6)
        if c in (3, 4) and k == 1:
            a, i = 3, sim.draw(3)
        elif c == 5 and k <= 2:
            a, i = sim.pick(((3, 0), (4, 0), (4, 1), (4, 2)))
        elif c == 4 and k == 2:
            a = sim.pick((4, 5))
        elif c == 3 and k == 2:
            a = 1
        out.append((c, t, a, i))
    return out


def build(sim):
    c = G.col.Collection()
    national = sim.chance(0.5)
    if national:
        c.set_country_ver(G.AppVersion(3, 0))
        c.set_spec()
    w = World(c)
    for cl, t in [CLOCK] + REGS:
        c.add(G.ut.CosemClassId(cl), G.cdt.Unsigned(0), G.cst.LogicalName(bytearray(t)))
    for cl, t in REGS:
        if sim.chance(0.75):
            w.set(t, 2, O.simple(sim, sim.pick(NUM if cl != 1 else (17, 18, 9))))
        if cl in (3, 4) and sim.chance(0.75):
            w.set(t, 3, scal(sim))
        if cl == 5:
            if sim.chance(0.5):
                x = w.attrs.get((t, 2))
                w.set(t, 3, O.simple(sim, x[0] if x else sim.pick(NUM)))
            if sim.chance(0.75):
                w.set(t, 4, scal(sim))
    w.set(CLOCK[1], 2, (9, moment(sim)))
    w.national = national
    for t in sorted(PROFILES)[:sim.int(1, 4)]:
        add_profile(sim, w, t, columns(sim, w, sim.int(1, 5)))
    if len(w.caps) > 1 and sim.chance(0.3):
        """a profile that captures columns of another one"""
        src = sim.pick(sorted(w.caps))
        t = (1, 0, 99, 3, 0, 255)
        add_profile(sim, w, t, [(7, src, 2, 1 + sim.draw(len(w.caps[src]))) for _ in range(sim.int(1, 3))], scales=False)
    return w


def moment(sim):
    return bytes((7, 228 + sim.draw(10), 1 + sim.draw(12), 1 + sim.draw(28), 255, sim.draw(24), sim.draw(60), sim.draw(60), sim.pick((0, 255)), 128, 0, sim.pick((0, 255))))


def add_profile(sim, w, t, cols, scales=True):
    c = w.c
    p = c.add(G.ut.CosemClassId(7), G.cdt.Unsigned(1), G.cst.LogicalName(bytearray(t)))
    caps = [(8, CLOCK[1], 2, 0)] * sim.pick((1, 1, 0)) + cols
    sort = sim.pick(((8, CLOCK[1], 2, 0), (8, CLOCK[1], 2, 0)) + tuple(x for x in caps if x[0] == 3 and x[2] == 2))
    early = sim.chance(0.3)
    if early:
        sim.fault("out_of_order")
        p.set_attr(3, A.encode((1, [definition(d) for d in caps])))
    p.set_attr(6, A.encode(definition(sort)))
    if not early or sim.chance(0.3):
        p.set_attr(3, A.encode((1, [definition(d) for d in caps])))
    w.caps[t], w.sort[t] = caps, sort
    if w.national and scales and t in PROFILES:
        st = PROFILES[t]
        q = c.add(G.ut.CosemClassId(7), G.cdt.Unsigned(1), G.cst.LogicalName(bytearray(st)))
        scols = [(x[0], x[1], 4 if x[0] == 5 else 3, 0) if x[0] in (3, 4, 5) and (x[2] == 2 or (x[0], x[2]) == (5, 3)) else x for x in caps]
        q.set_attr(6, A.encode(definition((8, CLOCK[1], 2, 0))))
        q.set_attr(3, A.encode((1, [definition(d) for d in scols])))
        row = [scal(sim) if y[2] != x[2] else value(sim, w, y) for x, y in zip(caps, scols)]
        q.set_attr(2, A.encode((1, [(2, row)])))
        w.units_of[t] = [x if x[0] == 2 else None for x in row]


def value(sim, w, d):
    if d[:3] == (8, CLOCK[1], 2):
        return 9, moment(sim)
    T, tags = column_type(w, d)
    x = O.gen(sim, T)
    if tags is not None and (x is None or x[0] not in tags):
        x = O.simple(sim, min(tags)) if 2 not in tags else scal(sim)
    return x


def chosen(w, t):
    s = w.sel.get(t)
    caps = w.caps[t]
    if s is None:
        return caps
    if s[0] == 1:
        return list(s[4]) or caps
    return caps[s[3] - 1:s[4] or len(caps)]


def request(w, t):
    s = w.sel.get(t, (2, 1, 0, 1, 0))
    if s[0] == 2:
        par = 2, [u32(s[1]), u32(s[2]), (18, s[3].to_bytes(2, "big")), (18, s[4].to_bytes(2, "big"))]
    else:
        par = 2, [definition(s[1]), s[2], s[3], (1, [definition(d) for d in s[4]])]
    return b"\x00\x07" + bytes(t) + b"\x02\x01" + bytes([s[0]]) + A.encode(par)


def select(sim, w, t):
    p = w.c.get(bytes(t))
    n = len(w.caps[t])
    if sim.chance(0.5):
        a = sim.int(1, n)
        s = 2, sim.pick((1, 2, sim.int(1, 9999))), sim.pick((0, 1, 5, 10_000)), a, sim.pick((0, sim.int(a, n), n))
        tree = 2, [u32(s[1]), u32(s[2]), (18, s[3].to_bytes(2, "big")), (18, s[4].to_bytes(2, "big"))]
    else:
        sort = w.sort[t]
        lo, hi = (value(sim, w, sort) for _ in range(2))
        cols = [x for x in w.caps[t] if sim.chance(0.5)]
        if sim.chance(0.3):
            O.shuffle(sim, cols)
        s = 1, sort, lo, hi, tuple(cols)
        tree = 2, [definition(sort), lo, hi, (1, [definition(d) for d in cols])]
    sim.log("select", t, s[0], s[3] if s[0] == 2 else "", s[4] if s[0] == 2 else len(s[4]))
    before = p.get_attr_descriptor(2, with_selection=True).contents
    if sim.chance(0.15):
        bad = spoil(sim, A.encode(tree))
        sim.fault("bad_selection")
        try:
            p.buffer.selective_access.set_selector(s[0], bad)
        except (ValueError, TypeError, KeyError, IndexError, AttributeError):
            now = p.get_attr_descriptor(2, with_selection=True).contents
            sim.check(now == before or now[10] == s[0], "selection-wrong", "a selection refused left a request of another kind")
            sim.log("refused")
    p.buffer.selective_access.set_selector(s[0], A.encode(tree))
    w.sel[t] = s
    w.fresh = False


def spoil(sim, b):
    return b[:sim.draw(len(b))]


def read(sim, w, t):
    p = w.c.get(bytes(t))
    req = p.get_attr_descriptor(2, with_selection=True).contents
    sim.check(req == request(w, t), "request-wrong", f"selection {w.sel.get(t)}: request {req.hex()}, expected {request(w, t).hex()}")
    cols = chosen(w, t)
    rows = [[value(sim, w, d) for d in cols] for _ in range(sim.pick((1, 2, 0, 3, 5)))]
    for row in rows:
        if any(x is None for x in row):
            return
    tree = 1, [(2, row) for row in rows]
    good = A.encode(tree)
    p_before = p.buffer.encoding
    same = w.asked.get(t) == (tuple(cols), tuple(w.caps[t]))
    if sim.chance(0.3) and rows:
        k = sim.draw(4)
        i = sim.draw(len(cols))
        if k == 2 and len(cols) == 1 or k == 3 and cols[i][0] in (1, 7):
            k = 0  # data which the meter has not told the type of takes structures
        if k == 0:
            bad = good[:sim.draw(len(good))]
        elif k == 1:
            bad = A.encode((1, [(2, row + [(17, b"\x01")]) for row in rows]))
        elif k == 2:
            bad = A.encode((1, [(2, row[:-1]) for row in rows]))
        else:
            x = (2, [(17, b"\1"), (17, b"\1"), (17, b"\1")])
            bad = A.encode((1, [(2, row[:i] + [x] + row[i + 1:]) for row in rows]))
        sim.fault(("cut_answer", "more_columns", "less_columns", "other_column")[k])
        try:
            p.set_attr(2, bad)
        except (ValueError, TypeError, IndexError, KeyError, G.exc.ITEApplication, G.ut.UserfulTypesException):
            now = p.buffer.encoding
            sim.check(not same or now == p_before, "refused-changes", f"an answer refused changed the buffer: {p_before.hex()[:60]} to {now.hex()[:60]}")
        else:
            sim.fail("answer-taken", f"answer {bad.hex()[:80]} for columns {cols} is taken as {len(p.buffer)} rows")
    p.set_attr(2, good)
    w.asked[t] = tuple(cols), tuple(w.caps[t])
    sim.log("read", t, len(cols), len(rows))
    sim.state("read", len(cols), len(rows), w.sel.get(t, "d")[0])
    check(sim, w, t, cols, rows)


def check(sim, w, t, cols, rows):
    p = w.c.get(bytes(t))
    sim.check(p.buffer.encoding == A.encode((1, [(2, r) for r in rows])), "buffer-wrong", f"buffer {p.buffer.encoding.hex()[:80]}, read {A.encode((1, [(2, r) for r in rows])).hex()[:80]}")
    sim.check(len(p.buffer) == len(rows), "buffer-wrong", f"{len(p.buffer)} rows of {len(rows)}")
    for i, row in enumerate(rows):
        got = p.buffer[i]
        for j, x in enumerate(row):
            sim.check(got[j].encoding == A.encode(x), "buffer-wrong", f"row {i} column {j}: {got[j].encoding.hex()}, read {A.encode(x).hex()}")
    objs = p.get_buffer_objects()
    sim.check([bytes(o.logical_name.contents) for o in objs] == [bytes(d[1]) for d in cols] and all(o is w.c.get(bytes(d[1])) for o, d in zip(objs, cols)), "column-wrong",
              f"objects of columns {[str(o.logical_name) for o in objs]}, selected {cols}")
    names = p.get_capture_object_names()
    sim.check(names == [G.get_name(w.c.get(bytes(d[1])).logical_name) for d in w.caps[t]], "column-wrong", lambda: f"names of captured objects {names} of {w.caps[t]}")
    for j, d in enumerate(cols):
        want = ". ".join(column_names(w, d))
        sim.check(p.buffer.TYPE.ELEMENTS[j].NAME == want, "column-wrong", lambda: f"column {j} {d} is named {p.buffer.TYPE.ELEMENTS[j].NAME!r}, expected {want!r}")
    units = p.get_scaler_units_profile()
    sim.check(len(units) == len(cols), "unit-wrong", f"{len(units)} units of {len(cols)} columns {cols} of {w.caps[t]}")
    for j, (d, u) in enumerate(zip(cols, units)):
        if t in w.units_of:
            may = {A.encode(x) if x else None for x, y in zip(w.units_of[t], w.caps[t]) if y == d}
        else:
            x = w.attrs.get((d[1], 3)) if d[0] in (3, 4) and d[2] == 2 else None
            may = {A.encode(x) if x else None}
            if d[0] == 5:
                may |= {A.encode(w.attrs[d[1], 4]) if (d[1], 4) in w.attrs else None}
        sim.check((u.encoding if u is not None else None) in may, "unit-wrong", f"column {j} {d}: unit {u and u.encoding.hex()}, expected {[m and m.hex() for m in may]}")
    for d in cols:
        if d[0] == 7:
            continue
        names, T = w.c.get_name_and_type(G.structs.CaptureObjectDefinition(A.encode(definition(d))))
        sim.check(names == column_names(w, d), "column-wrong", lambda: f"{d} is named {names}, expected {column_names(w, d)}")
        _, tags = column_type(w, d)
        if tags and isinstance(T, type):
            sim.check(T.TAG[0] in tags, "column-wrong", f"type of {d} is {T.__name__}")


def profiles(sim):
    worlds = [build(sim)]
    last = {}
    for _ in sim.steps(12, 8):
        w = sim.pick(worlds)
        op = sim.pick(("read", "read", "read", "read", "select", "select", "value", "unit", "capture", "copy", "other"))
        t = sim.pick(sorted(w.caps))
        if op == "read":
            read(sim, w, t)
        elif op == "select":
            select(sim, w, t)
            sim.fault("select")
        elif op == "value":
            c, o = sim.pick(REGS)
            x = w.attrs.get((o, 2)) or (w.attrs.get((o, 3)) if c == 5 else None)
            w.set(o, 2, O.simple(sim, x[0] if x else sim.pick(NUM if c != 1 else (17, 9))))
            sim.fault("value")
        elif op == "unit":
            c, o = sim.pick(REGS[:6])
            w.set(o, 3, scal(sim))
            sim.fault("unit")
        elif op == "capture":
            """the meter's list of capture objects is other now"""
            if t in w.units_of or any(d[0] == 7 and d[1] == t for caps in w.caps.values() for d in caps) or any(d[0] == 7 for d in w.caps[t]):
                continue
            caps = [(8, CLOCK[1], 2, 0)] + columns(sim, w, sim.int(1, 5))
            w.c.get(bytes(t)).set_attr(3, A.encode((1, [definition(d) for d in caps])))
            w.caps[t] = caps
            w.asked.pop(t, None)
            select(sim, w, t)
            sim.fault("capture_objects")
            read(sim, w, t)
        elif op == "copy" and len(worlds) < 3:
            if any(d[0] == 7 for caps in w.caps.values() for d in caps) or w.units_of:
                continue
            x = w.clone(w.c.copy())
            x.national = w.national
            worlds.append(x)
            sim.fault("copy")
            read(sim, x, t)
        elif op == "other" and len(worlds) < 3:
            worlds.append(build(sim))
        sim.log(op, len(worlds))


def display(sim):
    """what a national meter shows: a column of yes or no for each captured object, objects not known before included"""
    c = G.col.Collection()
    c.set_country_ver(G.AppVersion(3, 0))
    c.set_spec()
    known = {}
    for cl, t in [CLOCK] + REGS:
        """the version of an object not known before is that of another one of its class"""
        if cl not in known.values() or sim.chance(0.7):
            c.add(G.ut.CosemClassId(cl), G.cdt.Unsigned(0), G.cst.LogicalName(bytearray(t)))
            known[t] = cl
    shows = {}
    for n in range(sim.int(1, 2)):
        t = (0, 0, 21, 0, n, 255)
        shows[t] = [c.add(G.ut.CosemClassId(7), G.cdt.Unsigned(1), G.cst.LogicalName(bytearray(t))), None, []]
    for _ in sim.steps(8, 6):
        t = sim.pick(sorted(shows))
        p, caps, rows = shows[t]
        op = sim.weighted([(2, "capture"), (4, "buffer"), (2, "spoiled"), (1, "append")])
        if op == "capture":
            new = [sim.pick([CLOCK] + REGS) + (2, 0) for _ in range(sim.int(1, 5))]
            p.set_attr(3, A.encode((1, [definition(d) for d in new])))
            for d in new if caps is None else ():
                known.setdefault(d[1], d[0])
            shows[t][1:] = new, None
        elif caps is None and op != "append":
            """columns are not known yet"""
            try:
                p.set_attr(2, A.encode((1, [(2, [(3, b"\x01")])])))
                sim.fail("buffer-untyped", f"{t}: a buffer was taken before its columns were known")
            except LOCAL:
                sim.fault("buffer_first")
        elif op == "buffer":
            for d in caps:
                """objects of columns told again are there when they are needed"""
                known.setdefault(d[1], d[0])
            new = [[sim.chance(0.5) for _ in caps] for _ in range(sim.int(0, 3))]
            p.set_attr(2, A.encode((1, [(2, [(3, bytes([x])) for x in r]) for r in new])))
            shows[t][2] = new
        elif op == "spoiled":
            r = [(3, bytes([sim.draw(2)])) for _ in caps]
            how = sim.pick(("short", "long", "type", "cut"))
            if how == "short":
                r = r[:-1]
            elif how == "long":
                r = r + [(3, b"\x01")]
            elif how == "type":
                r[sim.draw(len(r))] = sim.pick(((17, b"\x01"), (0, b""), (22, b"\x01"), (6, bytes(4))))
            e = A.encode((1, [(2, r)]))
            if how == "cut":
                e = e[:sim.int(1, len(e) - 1)]
            sim.fault("answer_" + how)
            for d in caps:
                known.setdefault(d[1], d[0])
            try:
                p.set_attr(2, e)
            except LOCAL:
                pass
            else:
                sim.fail("bad-buffer-taken", f"{t} of {len(caps)} columns took {e.hex()}")
        elif op == "append" and caps is not None and rows is not None:
            new = [sim.chance(0.5) for _ in caps]
            p.buffer.append(A.encode((2, [(3, bytes([x])) for x in new])))
            rows.append(new)
        sim.log(op, len(shows), caps and len(caps))
        sim.state(op, caps is None, rows is None, len(shows))
        for t, (p, caps, rows) in shows.items():
            if caps is None:
                sim.check(p.capture_objects is None, "captures-wrong", lambda: f"{t}: capture objects {p.capture_objects} were never told")
                continue
            sim.check(p.capture_objects.encoding == A.encode((1, [definition(d) for d in caps])), "captures-wrong", lambda: f"{t}: captures {p.capture_objects.encoding.hex()}, expected {caps}")
            if rows is not None:
                sim.check(p.buffer.encoding == A.encode((1, [(2, [(3, bytes([x])) for x in r]) for r in rows])), "buffer-wrong", lambda: f"{t}: buffer {p.buffer.encoding.hex()}, expected {rows}")
                for e, r in zip(p.buffer, rows):
                    sim.check([x.decode() for x in e] == r and all(type(x) is G.cdt.Boolean for x in e), "buffer-wrong", lambda: f"{t}: row {e}, expected {r}")
        have = {bytes(o.logical_name.contents): int(o.CLASS_ID) for o in c.values()}
        bad = {k: have.get(bytes(k)) for k, v in known.items() if have.get(bytes(k)) != v}
        sim.check(not bad and len(have) == len(known) + len(shows) + (bytes((0, 0, 42, 0, 0, 255)) in have), "objects-wrong", lambda: f"captured objects not in the collection: {bad}; it has {len(have)}")


CHECK = Check(
    id="C19",
    scenarios=[Scenario("profiles", profiles, 8000, 120_000, 20), Scenario("display", display, 4000, 60_000, 40)],
    rule="collections of 9 measured objects and 1 to 5 profiles; histories of selections, requests, good, cut and foreign answers, changed values, units and capture objects, copies; non-trivial: a fault",
    real=["ProfileGeneric (requests, buffer, units)", "Collection.get_name_and_type / copy", "useful types, data types"],
    stub=["meter (reference answers)"],
    setup=setup,
)
