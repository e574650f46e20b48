"""C13 - access rights: what an association may read, write and execute is answered by its object list as it is now, for the mode and security in force."""
from .. import axdr_ref as A, env, objgen as O
from ..engine import Check, Scenario
from ..objgen import i8, octet, u16, u8


class M:
    pass


LOCAL = (ValueError, TypeError, KeyError, IndexError, AttributeError)
ASS = [(0, 0, 40, 0, e, 255) for e in range(5)]
NAMES = [((0, 0, 128, 1, e, 255), 1, 2) for e in range(4)] + [((1, 0, 1, 8, 0, 255), 3, 3), ((1, 0, 1, 7, 0, 255), 3, 3), ((0, 0, 1, 0, 0, 255), 8, 9)]
#: green book, attribute access: (read, write); 4..6 only for authenticated exchange
READ = {0: 0, 1: 1, 2: 0, 3: 1, 4: 2, 5: 0, 6: 2}
WRITE = {0: 0, 1: 0, 2: 1, 3: 1, 4: 0, 5: 2, 6: 2}


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        O.bind()
        from src.DLMS_SPODES.types import cdt, cst, ut
        from src.DLMS_SPODES.cosem_interface_classes import collection
        from src.DLMS_SPODES.cosem_interface_classes.association_ln import mechanism_id
        from src.DLMS_SPODES import exceptions, pdu_enums
        from src.DLMS_SPODES.types.implementations import enums
    M.cdt, M.cst, M.ut, M.col, M.exc, M.pdu, M.mech = cdt, cst, ut, collection, exceptions, pdu_enums, mechanism_id
    M.sap = enums.ClientSAP


def ln(t):
    return M.cst.LogicalName(bytearray(t))


def key(t):
    return ".".join(map(str, t))


class Ent:
    """one element of an object list"""

    def __init__(self, sim, t, c, n, ver):
        self.t, self.c = t, c
        self.at = [[i, sim.int(0, 6 if ver else 3), sim.chance(0.3)] for i in range(1, n + 1) if sim.chance(0.9)]
        self.me = [[i, sim.int(0, 2 if ver else 1)] for i in range(1, sim.int(1, 4)) if sim.chance(0.8)]
        if sim.chance(0.05) and self.at:
            self.at.append([self.at[0][0], sim.int(0, 3), False])

    def tree(self, ver):
        return 2, [u16(self.c), u8(0), octet(self.t),
                   (2, [(1, [(2, [i8(i), (22, bytes([m])), (1, [i8(1)]) if s else (0, b"")]) for i, m, s in self.at]),
                        (1, [(2, [i8(i), (22 if ver else 3, bytes([m]))]) for i, m in self.me])])]


class Meter:
    def __init__(self, sim, name):
        self.name = name
        self.real = M.col.Collection()
        self.ver, self.lists, self.ass = {}, {}, {}
        for t in [ASS[0]] + [a for a in ASS[1:] if sim.chance(0.6)]:
            self.ver[t] = sim.int(0, 1)
            self.lists[t] = None
            self.ass[t] = self.real.add(class_id=M.ut.CosemClassId(15), version=M.cdt.Unsigned(self.ver[t]), logical_name=ln(t))

    def new_list(self, sim, t):
        pool = [(a, 15, 8 + self.ver[a]) for a in self.ver] + NAMES
        out = []
        for n, c, k in pool:
            if sim.chance(0.7):
                out.append(Ent(sim, n, c, k, self.ver[t]))
        for i in range(len(out) - 1, 0, -1):
            j = sim.draw(i + 1)
            out[i], out[j] = out[j], out[i]
        if out and sim.chance(0.05):
            e = sim.pick(out)
            out.append(Ent(sim, e.t, e.c, 3, self.ver[t]))
        return out


def encode(ents, ver):
    return A.encode((1, [e.tree(ver) for e in ents]))


def want(m, a, t, i, table):
    """what the object list says: number of `table`, or the error"""
    ents = m.lists[a]
    if ents is None:
        return "empty"
    e = next((e for e in ents if e.t == t), None)
    if e is None:
        return "object"
    hit = next((x for x in (e.at if table is not None else e.me) if x[0] == i), None)
    if hit is None:
        return "index"
    return table[hit[1]] if table is not None else hit[1]


def ask(fn, *a, **k):
    try:
        return fn(*a, **k)
    except M.exc.NoObject:
        return "object"
    except M.exc.ITEApplication:
        return "empty"
    except ValueError:
        return "index"


def policies(sim):
    if sim.chance(0.5):
        p = M.pdu.SecurityPolicyVer0(sim.int(0, 3))
        return p, p in (1, 3)
    p = M.pdu.SecurityPolicyVer1(sim.int(0, 255))
    return p, bool(int(p) & 0b100100)


def query(sim, m):
    a = sim.pick(list(m.ver))
    t = sim.pick([n for n, *_ in NAMES] + list(m.ver)) if sim.chance(0.9) else (0, 0, 199, 1, 1, 255)
    i = sim.int(1, 10)
    kind = sim.pick(("read", "write", "do", "element", "many"))
    q = f"{m.name} {kind} {key(a)} {key(t)}:{i}"
    if kind in ("read", "write"):
        w = want(m, a, t, i, READ if kind == "read" else WRITE)
        p, auth = policies(sim)
        default = sim.chance(0.2)
        if default:
            auth = False
        if not isinstance(w, str):
            w = w == 1 or w == 2 and auth
        k = {} if default else {"security_policy": p}
        if sim.chance(0.5):
            got = ask(m.real.is_readable if kind == "read" else m.real.is_writable, ln(t), i, a[4], **k)
        else:
            got = ask(m.ass[a].is_readable if kind == "read" else m.ass[a].is_writable, ln(t), i, **k)
        q += f" {'default' if default else p!r}"
    elif kind == "do":
        w = want(m, a, t, i, None)
        mech = sim.weighted([(2, None), (1, 0), (1, 1), (1, 2), (1, 5)])
        k = {} if mech is None else {"m_id": M.mech.MechanismIdElement(mech)}
        if w == 2 and mech is None:
            return None
        if not isinstance(w, str):
            w = w == 1 or w == 2 and mech >= 1
        got = ask(m.real.is_accessible, ln(t), i, a[4], **k) if sim.chance(0.5) else ask(m.ass[a].is_accessible, ln(t), i, **k)
        q += f" {mech}"
    else:
        if m.lists[a] is None:
            sim.check(m.ass[a].object_list is None, "rights-wrong", f"{q}: object list without reading it")
            return None
        idx = {i} if kind == "element" else set(sim.int(1, 6) for _ in range(3))
        ws = [want(m, a, t, j, WRITE) for j in sorted(idx)]
        w = "object" if "object" in ws else "index" if all(x == "index" for x in ws) else None
        if w is None and "index" not in ws:
            w = all(x != 0 for x in ws)
        got = ask(m.ass[a].object_list.is_writable, ln(t), idx)
        if w is None:                       # refused and not listed ones together: the answer is one of both
            ok = got == "index" or got is False and 0 in ws
            sim.check(ok, "rights-wrong", f"{q} {sorted(idx)}: {got}, rights {ws}")
            return kind
    sim.check(got == w and (isinstance(w, str) or got is w), "rights-wrong", f"{q}: {got}, the object list says {w}")
    return kind


def audit(sim, m):
    """every element of every list against the real one, and every attribute asked"""
    for a, ents in m.lists.items():
        lst = m.ass[a].object_list
        if ents is None:
            sim.check(lst is None, "list-wrong", f"{m.name} {key(a)}: list appeared")
            continue
        e = encode(ents, m.ver[a])
        sim.check(lst.encoding == e, "list-wrong", f"{m.name} {key(a)}: object list is not the one read")
        for x in ents:
            for i, mode, _ in x.at:
                for p, auth in ((M.pdu.SecurityPolicyVer0.NOTHING, 0), (M.pdu.SecurityPolicyVer0.AUTHENTICATED, 1), (M.pdu.SecurityPolicyVer1.AUTHENTICATED_RESPONSE, 1)):
                    for fn, tab in ((m.real.is_readable, READ), (m.real.is_writable, WRITE)):
                        w = want(m, a, x.t, i, tab)
                        if w == "index":        # a second element of the same object: the first counts
                            continue
                        got = fn(ln(x.t), i, a[4], p)
                        sim.check(got is (w == 1 or w == 2 and bool(auth)), "rights-wrong", f"{m.name} {key(a)} {key(x.t)}:{i} {fn.__name__} {p!r}: {got}, the list says {w}")


def rights(sim):
    """meters are read, reconfigured, edited in place, cut and corrupted answers arrive; every answer follows the list in force"""
    ms = [Meter(sim, n) for n in ("A", "B")[:sim.int(1, 2)]]
    for _ in sim.steps(14, 9):
        m = sim.pick(ms)
        a = sim.pick(list(m.ver))
        ver = m.ver[a]
        op = sim.weighted([(4, "read"), (3, "bad"), (4, "mode"), (2, "grow"), (2, "pop"), (1, "forget"), (1, "swap"), (3, "ask"), (1, "restart")])
        ents = m.lists[a]
        if op == "read":
            new = m.new_list(sim, a)
            m.ass[a].set_attr(2, encode(new, ver))
            m.lists[a] = new
        elif op == "bad":
            b = bytearray(encode(m.new_list(sim, a), ver))
            how = sim.pick(("cut", "tag", "mode"))
            if how == "cut":
                b = b[:sim.int(0, len(b) - 1)]
            elif how == "tag":
                b[0] = sim.pick((0, 2, 9, 22))
            else:
                k = [j for j in range(len(b) - 1) if b[j] == 22]
                if not k:
                    continue
                b[sim.pick(k) + 1] = sim.int(7, 255)
            sim.fault("answer_" + how)
            before = m.ass[a].object_list
            was = before and before.encoding
            try:
                m.ass[a].set_attr(2, bytes(b))
            except LOCAL + (M.ut.UserfulTypesException,):
                sim.probe("answer refused")
            else:
                after = m.ass[a].object_list.encoding
                if after == was or len(b) >= len(after) and bytes(b[:len(after)]) == after:
                    """what arrived was an object list after all: what counts is what the collection holds"""
                    m.lists[a] = parse(bytes(b), ver)
                else:
                    sim.fail("bad-list-taken", f"{m.name} {key(a)}: {how} answer taken")
        elif op == "mode" and ents:
            e = sim.draw(len(ents))
            lst = m.ass[a].object_list
            if ents[e].at and sim.chance(0.7):
                j = sim.draw(len(ents[e].at))
                ents[e].at[j][1] = mode = sim.int(0, 6 if ver else 3)
                lst[e].access_rights.attribute_access[j].access_mode.set(mode)
            elif ents[e].me:
                j = sim.draw(len(ents[e].me))
                ents[e].me[j][1] = mode = sim.int(0, 2 if ver else 1)
                lst[e].access_rights.method_access[j].access_mode.set(A.encode((22 if ver else 3, bytes([mode]))))
        elif op == "grow" and ents is not None:
            t, c, n = sim.pick(NAMES)
            e = Ent(sim, t, c, n, ver)
            m.ass[a].object_list.append(A.encode(e.tree(ver)))
            ents.append(e)
        elif op == "pop" and ents:
            k = sim.draw(len(ents))
            m.ass[a].object_list.pop(k)
            ents.pop(k)
        elif op == "forget":
            m.ass[a].clear_attr(2)
            m.lists[a] = None
        elif op == "swap" and ents and len(ms) == 2:
            """the other meter's list of the same association, put here as a value"""
            o = ms[1 - ms.index(m)]
            if o.lists.get(a) is not None and o.ver[a] == ver:
                m.ass[a].set_attr(2, o.ass[a].object_list.encoding)
                m.lists[a] = parse(o.ass[a].object_list.encoding, ver)
        elif op == "restart":
            ms[ms.index(m)] = m = Meter(sim, m.name)
        sim.log(op, m.name, key(a))
        asked = [query(sim, sim.pick(ms)) for _ in range(sim.int(2, 10))]
        if sim.chance(0.15):
            audit(sim, sim.pick(ms))
        sim.state(op, ver, ents is not None, asked[0])
    for m in ms:
        audit(sim, m)


def parse(b, ver):
    """entries of an encoded object list"""
    out = []
    for el in A.decode(b)[0][1]:
        c, _, t, (_, (at, me)) = el[1]
        e = Ent.__new__(Ent)
        e.c, e.t = int.from_bytes(c[1], "big"), tuple(t[1])
        e.at = [[x[1][0][1][0], x[1][1][1][0], x[1][2][0] == 1] for x in at[1]]
        e.me = [[x[1][0][1][0], x[1][1][1][0]] for x in me[1]]
        out.append(e)
    return out


# ---- what a client shows of an association ------------------------------------------------------------------------------

class Ass:
    def __init__(self, t, ver, sap, real):
        self.t, self.ver, self.sap, self.real, self.list = t, ver, sap, real, None


def tree_of(objs, mode, key):
    """nested dictionaries, the last letter of mode is the outermost level"""
    if not mode:
        return objs
    out = {}
    for o in objs:
        out.setdefault(key[mode[-1]](o), []).append(o)
    return {k: tree_of(v, mode[:-1], key) for k, v in out.items()}


def flat(node, path=()):
    """-> {path: [(name, indexes)]} of a tree of the library"""
    if node and all(isinstance(v, list) for v in node.values()):
        yield path, [(tuple(o.logical_name.contents), sorted(v)) for o, v in node.items()]
        return
    for k, v in node.items():
        yield from flat(v, path + (k,))


def views(sim):
    """lists of associations are read, read again, edited; every view of the association follows them"""
    objs = O.meter(sim, size=(2, 8))[0]
    c = M.col.Collection()
    for o in objs:
        c.add(class_id=M.ut.CosemClassId(o.c), version=M.cdt.Unsigned(o.v), logical_name=ln(o.t))
    asses = {}
    saps = [0x10, 0x20, 0x30, 0x40, 0x50]
    es = [1] + [e for e in (2, 3, 4, 0) if sim.chance(0.6)]
    told = {e: saps.pop(sim.draw(len(saps))) for e in es if e}
    O.shuffle(sim, es)
    for e in es:
        v = sim.int(0, 1)
        a = c.add(class_id=M.ut.CosemClassId(15), version=M.cdt.Unsigned(v), logical_name=ln(ASS[e]))
        sap = told[e] if e else sim.pick(sorted(told.values()))      # the current association has the address of one of the others
        a.set_attr(3, A.encode((2, [i8(sap), u16(1)])))
        asses[e] = Ass(ASS[e], v, sap, a)
    every = objs + [O.Obj(15, a.ver, a.t) for a in asses.values()]
    there = {o.t for o in every} | {(0, 0, 42, 0, 0, 255)}
    for _ in sim.steps(10, 6):
        a = asses[sim.pick(sorted(asses))]
        op = sim.weighted([(4, "read"), (2, "mode"), (1, "pop"), (1, "gone"), (1, "sap")])
        if op == "read":
            mine = [o for o in every if sim.chance(0.8)]
            O.shuffle(sim, mine)
            a.list = [(o, {i: sim.int(0, 6 if a.ver else 3) for i in range(1, len(O.cls_of(o.c, o.v).A_ELEMENTS) + 2)}) for o in mine]
            first = a.real.object_list is None
            e = (1, [(2, [u16(o.c), u8(o.v), octet(o.t), (2, [(1, [(2, [i8(i), (22, bytes([m])), (0, b"")]) for i, m in sorted(at.items())]), (1, [])])]) for o, at in a.list])
            a.real.set_attr(2, A.encode(e))
            if first:
                there |= {o.t for o in mine}
        elif op == "mode" and a.list:
            j = sim.draw(len(a.list))
            i = sim.pick(sorted(a.list[j][1]))
            a.list[j][1][i] = m = sim.int(0, 6 if a.ver else 3)
            a.real.object_list[j].access_rights.attribute_access[i - 1].access_mode.set(m)
        elif op == "pop" and a.list:
            j = sim.draw(len(a.list))
            a.list.pop(j)
            a.real.object_list.pop(j)
        elif op == "gone" and sim.chance(0.5):
            t = sim.pick([o.t for o in objs])
            if t in there:
                c.try_remove(ln(t))
                there.discard(t)
                sim.fault("object_removed")
        elif op == "sap" and a.t[4]:
            free = sim.pick([s for s in (0x10, 0x20, 0x30, 0x40, 0x50, 0x60) if all(s != x.sap for x in asses.values() if x is not a)])
            a.sap = free
            a.real.set_attr(3, A.encode((2, [i8(free), u16(1)])))
        sim.log(op, key(a.t))
        for _ in range(sim.int(1, 4)):
            view(sim, c, asses, there)
        sim.state(op, len(asses), sum(x.list is None for x in asses.values()))


def names_of(objs):
    return [tuple(o.logical_name.contents) for o in objs]


def view(sim, c, asses, there):
    a = asses[sim.pick(sorted(asses))]
    e = a.t[4]
    what = sim.pick(("list", "by sap", "objects", "sap", "writable", "tree", "tree"))
    want = None if a.list is None else [o.t for o, _ in a.list]
    lost = want is not None and any(t not in there for t in want)
    q = f"{what} of {key(a.t)}"
    if what in ("list", "by sap"):
        if what == "list" and want is None or what == "by sap" and e == 0:
            return
        try:
            got = sim.pick((c.filter_by_ass, lambda n: a.real.get_objects()))(e) if what == "list" else c.get_objects_list(sap_of(a.sap))
        except M.exc.NoObject:
            sim.check(lost, "view-wrong", f"{q}: an object is not found")
            return
        except M.exc.EmptyObj:
            sim.check(want is None, "view-wrong", f"{q}: list is empty")
            return
        sim.check(not lost and names_of(got) == want, "view-wrong", lambda: f"{q}: {names_of(got)}, expected {want}")
    elif what == "objects":
        if e == 0:
            return
        try:
            got = a.real.objects
        except M.exc.EmptyObj:
            sim.check(want is None, "view-wrong", f"{q}: list is empty")
            return
        sim.check(want is not None and names_of(got) == [t for t in want if t in there], "view-wrong", lambda: f"{q}: {names_of(got)}, expected {want}")
    elif what == "sap":
        sim.check(a.real.source_address == bytes([a.sap << 1 | 1]), "view-wrong", f"{q}: source address {a.real.source_address.hex()} with SAP {a.sap}")
        if e:
            sim.check(c.getAssociationBySAP(sap_of(a.sap)) is a.real and c.get_association_id(sap_of(a.sap)) == e, "view-wrong", f"{q}: association of SAP {a.sap}")
    elif what == "writable":
        w = {}
        for x in asses.values():
            if x.t[4]:
                for o, at in x.list or ():
                    for i, m in at.items():
                        if WRITE[m]:
                            w.setdefault(o.t, set()).add(i)
        got = {tuple(k.contents): set(v) for k, v in c.get_writable_attr().items()}
        sim.check(got == w, "view-wrong", lambda: f"writable attributes: {sorted(got.items())}, expected {sorted(w.items())}")
    elif what == "tree" and want is not None and not lost:
        mode = sim.pick(("c", "m", "mc", "cm", "g", "gc"))
        af = sim.pick(("l", "", "r", "w", "lr", "lw", "wr", "lrw"))
        cls = sorted({o.c for o, _ in a.list})
        flt = tuple(M.ut.CosemClassId(x) for x in cls if sim.chance(0.6)) if sim.chance(0.5) else ()
        keep = [(o, at) for o, at in a.list if not flt or M.ut.CosemClassId(o.c) in flt]
        srt = sim.pick(("", "l", "c", "cl"))
        if "l" in srt:
            keep.sort(key=lambda x: x[0].t)
        if "c" in srt:
            keep.sort(key=lambda x: x[0].c)
        rows = []
        for o, at in keep:
            idx = [i for i, m in sorted(at.items()) if not ("l" in af and i == 1) and not ("r" in af and READ[m] != 1) and not ("w" in af and WRITE[m] != 1)]
            if idx:
                rows.append((o.t, idx))
        try:
            got = c.get_attr_tree(e, mode, flt or None, srt, af)
        except LOCAL + (RuntimeError,) as err:
            sim.fail("tree-failed", f"{q} {mode} {srt!r} {af!r} {type(err).__name__}: {err}")
            return
        keys = {"c": lambda t: c.get(bytes(t)).CLASS_ID, "m": lambda t: M.col.get_media_id(ln(t)), "g": lambda t: M.col.get_relation_group(ln(t))}
        paths = {}
        for t, idx in rows:
            paths.setdefault(tuple(keys[x](t) for x in reversed(mode)), []).append((t, idx))
        res = dict(flat(got))
        sim.check(all(res.values()) and (res or got == {}), "tree-wrong", lambda: f"{q}: an empty branch")
        sim.check(res == paths, "tree-wrong", lambda: f"{q} {mode} sort {srt!r} attributes {af!r}: {sorted(res.values())}, expected {sorted(paths.values())}")
        sim.probe("attribute tree")


def sap_of(n):
    return M.sap(n)


def quiet_views(sim):
    with env.quiet():   # the library prints objects it does not create
        views(sim)


CHECK = Check(
    id="C13",
    scenarios=[Scenario("rights", rights, 9000, 500_000, 200), Scenario("views", quiet_views, 3000, 150_000, 200)],
    rule="one or two meters, associations of versions 0 and 1; lists read, re-read, edited in place, cut and corrupted answers, restarts; every answer against the list in force; non-trivial: a bad answer arrived",
    real=["AssociationLN ver0/ver1", "ObjectListType", "Collection.is_readable / is_writable / is_accessible"],
    stub=["the meter (generated object lists)"],
    setup=setup,
)
