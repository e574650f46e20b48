"""C11 - the directory of a meter's objects: every lookup answers by the objects present now, in this collection only."""
import json
import pathlib
from ..engine import Check, Scenario
from .. import bluebook, env


class M:
    pass


LOCAL = (ValueError, TypeError, KeyError, IndexError, AttributeError)
#: class: highest version known, or None for classes the package does not know
VERSIONS = {1: 0, 3: 0, 4: 0, 5: 0, 6: 0, 7: 1, 8: 0, 9: 0, 10: 0, 11: 0, 15: 2, 18: 0, 20: 0, 21: 0, 22: 0, 23: 1, 27: 1, 41: 0, 42: 0, 45: 0, 47: 2, 64: 1, 68: 0, 70: 0, 71: 0,
            100: 0}
#: versions the package announces it does not support
REFUSED = ((7, 0), (23, 0), (47, 2))
#: associations have their own logical names only
OTHERS = [c for c in VERSIONS if c != 15]
UNKNOWN = (0, 2, 19, 99, 1000, 8192)
#: logical names whose class is fixed by the standard
FIXED = {(0, 0, 1, 0, 0, 255): (8,), (0, 0, 13, 0, 0, 255): (20,), (0, 0, 11, 0, 0, 255): (11,), (0, 0, 10, 0, 0, 255): (9,), (0, 0, 10, 0, 106, 255): (9,), (0, 0, 12, 0, 0, 255): (10,),
         (0, 0, 22, 0, 0, 255): (23,), (0, 1, 22, 0, 0, 255): (23,), (0, 0, 25, 0, 0, 255): (41,), (0, 0, 25, 1, 0, 255): (42,), (0, 1, 25, 1, 0, 255): (42,), (0, 0, 44, 0, 128, 255): (18,),
         (0, 0, 44, 0, 0, 255): (18,), (0, 0, 96, 3, 10, 255): (70,), (0, 1, 96, 3, 10, 255): (70,), (0, 0, 96, 3, 20, 255): (68,), (0, 0, 15, 0, 0, 255): (22,), (0, 0, 17, 0, 0, 255): (71,),
         (0, 0, 16, 1, 0, 255): (21,), (0, 0, 43, 0, 0, 255): (64,), (1, 0, 1, 7, 0, 255): (3,), (1, 0, 21, 7, 0, 255): (3,), (1, 0, 41, 7, 0, 255): (3,), (1, 0, 61, 7, 0, 255): (3,),
         (1, 0, 60, 7, 0, 255): (3,), (1, 0, 40, 8, 0, 255): (3, 4), (1, 0, 1, 8, 0, 255): (3, 4), (1, 0, 32, 6, 0, 255): (3, 4, 7), (0, 0, 96, 8, 0, 255): (1, 3, 4), (1, 0, 98, 1, 0, 255): (7,),
         (1, 0, 99, 1, 0, 255): (7,), (0, 0, 99, 98, 4, 255): (7,), (0, 0, 98, 1, 0, 255): (7,), (0, 0, 97, 98, 3, 255): (1,), (1, 0, 4, 5, 0, 255): (3, 5), (0, 0, 0, 1, 0, 255): (1,)}
ASS = [(0, 0, 40, 0, i, 255) for i in range(5)]
FREE = [(0, b, c, 1, e, 255) for b in (128, 130, 199) for c in (0, 98, 240) for e in (0, 1)] + [(1, 0, 130, 9, 5, 255), (4, 0, 0, 200, 1, 255), (7, 0, 1, 2, 3, 200), (8, 1, 240, 0, 0, 255),
                                                                                             (6, 0, 9, 129, 0, 254), (5, 2, 3, 4, 250, 255)]
LDN = (0, 0, 42, 0, 0, 255)
ALL = list(FIXED) + ASS + FREE
SAPS = (0x10, 0x20, 0x30, 0x40)


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        from src.DLMS_SPODES.types import cdt, cst, ut, cosemClassID, cosemObjectInstanceId, cosemAttributeDescriptor
        from src.DLMS_SPODES.types.implementations import structs, enums
        from src.DLMS_SPODES.cosem_interface_classes import collection, association_ln
        from src.DLMS_SPODES.cosem_interface_classes.association_ln import ver0, ver1
        from src.DLMS_SPODES.obis import media_id
        from src.DLMS_SPODES import exceptions, relation_to_OBIS
    M.cdt, M.cst, M.ut, M.structs, M.enums, M.col, M.v0, M.v1, M.exc, M.media, M.oi = cdt, cst, ut, structs, enums, collection, ver0, ver1, exceptions, media_id, cosemObjectInstanceId
    M.get_name, M.cid, M.ad = relation_to_OBIS.get_name, cosemClassID, cosemAttributeDescriptor


def ln(t):
    return M.cst.LogicalName(bytearray(t))


def cls(i):
    return M.ut.CosemClassId(i)


def key(t):
    return ".".join(map(str, t))


class Meter:
    """the real collection and the directory it must be"""

    def __init__(self, name):
        self.name = name
        self.real = M.col.Collection()
        self.objs = {LDN: (1, 0)}            # in order of appearance
        self.inst = {LDN: self.real.get(bytes(LDN))}
        self.sap = {}
        self.lists = {}

    def allowed(self, t, c, v):
        if c not in VERSIONS or not 0 <= v <= VERSIONS[c] or (c, v) in REFUSED:
            return False
        if t == LDN:
            return c == 1
        if t in ASS:
            return c == 15
        if t in FIXED:
            return c in FIXED[t]
        return True

    def put(self, t, c, v, obj):
        self.objs[t] = (c, v)
        self.inst[t] = obj
        self.sap.pop(t, None)
        self.lists.pop(t, None)
        if c == 15:
            e = t[4]
            self.sap[t] = 0x10 * e if e <= 4 else 0x10
            self.lists[t] = None

    def versions_of(self, c):
        return [v for cc, v in self.objs.values() if cc == c]


def forms(sim, t):
    """the same logical name in every form a lookup takes"""
    b = bytes(t)
    how = sim.int(0, 7)
    if how == 0:
        return b
    if how == 1:
        return ln(t)
    if how == 2:
        return key(t)
    if how == 3:
        return M.ut.CosemAttributeDescriptor(cls(3), M.ut.CosemObjectInstanceId(b), M.ut.CosemObjectAttributeId(2))
    if how == 4:
        return M.ut.CosemMethodDescriptor(cls(3), M.ut.CosemObjectInstanceId(b), M.ut.CosemObjectMethodId(1))
    if how == 5:
        return M.ut.CosemObjectInstanceId(b)
    if how == 6:
        return M.structs.CaptureObjectDefinition((3, ln(t), 2, 0))
    return M.v0.ObjectId((3, ln(t)))


def look(sim, m, t):
    """all single lookups of one name"""
    want = m.inst.get(t)
    f = forms(sim, t)
    kind = type(f).__name__
    sim.check(m.real.is_in_collection(f) is (want is not None), "lookup-wrong", f"{m.name}: is_in_collection({key(t)} as {kind}) with {want is not None}")
    got = m.real.get_object2(forms(sim, t))
    sim.check(got is want, "lookup-wrong", f"{m.name}: get_object2({key(t)})")
    sim.check(m.real.get(bytes(t)) is want, "lookup-wrong", f"{m.name}: get({key(t)})")
    try:
        got = m.real.get_object(f)
    except M.exc.NoObject:
        sim.check(want is None, "lookup-wrong", f"{m.name}: get_object({key(t)} as {kind}): no object, but it is there")
    else:
        sim.check(got is want, "lookup-wrong", f"{m.name}: get_object({key(t)} as {kind}) gives {'another object' if want is not None else 'an object that is not there'}")
    if want is not None:
        c, v = m.objs[t]
        sim.check((int(want.CLASS_ID), int(want.VERSION)) == (c, v) and want.logical_name.contents == bytes(t) and want.collection is m.real, "object-wrong",
                  f"{m.name}: {key(t)} is class {int(want.CLASS_ID)} version {int(want.VERSION)}, asked {c} version {v}")
        d = M.ut.CosemAttributeDescriptor(cls(c), M.ut.CosemObjectInstanceId(bytes(t)), M.ut.CosemObjectAttributeId(1))
        sim.check(m.real.get_attr(d) == want.logical_name, "lookup-wrong", f"{m.name}: get_attr({key(t)}:1)")


NAMED = {"LDN": LDN, "current_association": ASS[0], "PUBLIC_ASSOCIATION": ASS[1], "clock": (0, 0, 1, 0, 0, 255), "activity_calendar": (0, 0, 13, 0, 0, 255),
         "special_day_table": (0, 0, 11, 0, 0, 255), "TCP_UDP_setup": (0, 0, 25, 0, 0, 255), "IPv4_setup": (0, 0, 25, 1, 0, 255)}


def whole(sim, m):
    """the views over the whole directory"""
    r = m.real
    names = list(m.objs)
    sim.check([tuple(o.logical_name.contents) for o in r.values()] == names and len(r) == len(names) and [o for o in r] == [m.inst[t] for t in names], "listing-wrong",
              f"{m.name}: {len(r)} objects listed, {len(names)} present")
    sim.check([(tuple(a.contents), int(c), int(v)) for a, c, v in r.get_objects_descriptions()] == [(t, *m.objs[t]) for t in names], "listing-wrong", f"{m.name}: descriptions")
    c = sim.pick(list(VERSIONS))
    got = [tuple(o.logical_name.contents) for o in r.get_objects_by_class_id(c if sim.chance(0.5) else cls(c))]
    sim.check(got == [t for t in names if m.objs[t][0] == c], "listing-wrong", f"{m.name}: objects of class {c}: {got}")
    present = sorted({c for c, _ in m.objs.values()})
    mixed = any(len(set(m.versions_of(c))) > 1 for c in present)
    try:
        got = {int(k): int(v) for k, v in r.get_class_version().items()}
    except ValueError:
        sim.check(mixed, "class-version-wrong", f"{m.name}: several versions reported, but every class has one")
    else:
        sim.check(not mixed and got == {c: m.versions_of(c)[0] for c in present}, "class-version-wrong", f"{m.name}: class versions {got}")
    c = sim.pick(list(VERSIONS))
    try:
        v = int(r.find_version(cls(c)))
    except StopIteration:
        sim.check(not m.versions_of(c), "class-version-wrong", f"{m.name}: version of class {c} is known")
    else:
        sim.check(v in m.versions_of(c), "class-version-wrong", f"{m.name}: version of class {c} is {v}, present {m.versions_of(c)}")
    el = [t for t in names if t[0] == 1]
    try:
        n = r.get_n_phases()
    except M.exc.NoObject:
        sim.check(not el, "phases-wrong", f"{m.name}: there are electricity objects")
    else:
        sim.check(bool(el) and n == (3 if any(41 <= t[2] <= 60 for t in el) else 1), "phases-wrong", f"{m.name}: {n} phases by {[key(t) for t in el]}")
    what = sim.pick(list(NAMED))
    same(sim, m, what, NAMED[what], lambda: getattr(r, what))
    i = sim.int(0, 4)
    same(sim, m, f"getASSOCIATION({i})", ASS[i], lambda: r.getASSOCIATION(i))
    ch = sim.int(0, 1)
    same(sim, m, f"getIECHDLCSetup({ch})", (0, ch, 22, 0, 0, 255), lambda: r.getIECHDLCSetup(ch))
    same(sim, m, f"getIPv4Setup({ch})", (0, ch, 25, 1, 0, 255), lambda: r.getIPv4Setup(ch))
    same(sim, m, f"getDISCONNECT_CONTROL({ch})", (0, ch, 96, 3, 10, 255), lambda: r.getDISCONNECT_CONTROL(ch))
    some = [sim.pick(ALL) for _ in range(sim.int(1, 4))]
    first = next((t for t in some if t in m.objs), None)
    try:
        got = r.get_first([forms(sim, t) for t in some])
    except M.exc.NoObject:
        sim.check(first is None, "lookup-wrong", f"{m.name}: get_first finds nothing")
    else:
        sim.check(first is not None and got is m.inst[first], "lookup-wrong", f"{m.name}: get_first({[key(t) for t in some]})")


def same(sim, m, what, t, fn):
    try:
        got = fn()
    except M.exc.NoObject:
        sim.check(t not in m.objs, "lookup-wrong", f"{m.name}: {what} is there")
    else:
        sim.check(got is m.inst.get(t), "lookup-wrong", f"{m.name}: {what} is not the present object {key(t)}")


def by_sap(sim, m):
    sap = sim.pick(SAPS)
    want = {t[4] for t, s in m.sap.items() if s == sap and t[4] != 0}
    try:
        got = m.real.get_association_id(M.enums.ClientSAP(sap))
    except ValueError:
        sim.check(not want, "association-wrong", f"{m.name}: no association for client {sap:#x}, present {want}")
        return
    sim.check(got in want, "association-wrong", f"{m.name}: association {got} for client {sap:#x}, present {want}")
    sim.check(m.real.getAssociationBySAP(M.enums.ClientSAP(sap)) is m.inst[ASS[got]], "association-wrong", f"{m.name}: association object for client {sap:#x}")
    if len(want) == 1:
        ol = m.lists[ASS[got]]
        gone = ol is None or any(t not in m.objs for t in ol)
        try:
            objs = m.real.get_objects_list(M.enums.ClientSAP(sap))
        except (M.exc.NoObject, M.exc.EmptyObj):
            sim.check(gone, "association-wrong", f"{m.name}: objects of client {sap:#x}")
        else:
            sim.check(not gone and objs == [m.inst[t] for t in ol] and all(a is m.inst[t] for a, t in zip(objs, ol)), "association-wrong", f"{m.name}: objects of client {sap:#x}")
            sim.check(all(a is b for a, b in zip(m.real.filter_by_ass(got), objs)), "association-wrong", f"{m.name}: objects of association {got}")


def media_of(a):
    return {0: "Abstract", 1: "Electricity", 4: "Hca", 5: "Thermal", 6: "Thermal", 7: "Gas", 8: "Water", 9: "Water", 15: "Other"}.get(a, "Reserved")


def trees(sim, m):
    objs = list(m.real.values())
    names = [tuple(o.logical_name.contents) for o in objs]
    keys, want = [], list(names)
    if sim.chance(0.4):
        cs = [sim.pick(list(VERSIONS)) for _ in range(sim.int(1, 3))]
        keys += [cls(c) for c in cs]
        want = [t for t in want if m.objs[t][0] in cs]
    if sim.chance(0.4):
        ms = [sim.pick(["ABSTRACT", "ELECTRICITY", "HCA", "GAS", "THERMAL", "WATER"]) for _ in range(sim.int(1, 2))]
        keys += [getattr(M.media, x) for x in ms]
        want = [t for t in want if media_of(t[0]).upper() in ms]
    if sim.chance(0.4):
        pats = []
        for _ in range(sim.int(1, 2)):
            base = sim.pick(names)
            text, sets = [], []
            for i in range(6):
                k = sim.int(0, 3)
                if k == 0:
                    text.append("abcdef"[i]); sets.append(range(256))
                elif k == 1:
                    text.append(str(base[i])); sets.append((base[i],))
                elif k == 2:
                    o = sim.int(0, 255)
                    text.append(f"({base[i]}, {o})"); sets.append((base[i], o))
                else:
                    lo, hi = max(0, base[i] - sim.int(0, 3)), min(255, base[i] + sim.int(0, 3))
                    parts = [(f"{lo}-{hi}", range(lo, hi + 1))]
                    for _ in range(sim.int(0, 2)):
                        x = sim.int(0, 255)
                        y = min(255, x + sim.int(0, 4))
                        part = sim.pick(((str(x), (x,)), (f"{x} - {y}", range(x, y + 1))))
                        parts.insert(sim.draw(len(parts) + 1), part)
                    text.append("(" + sim.pick((",", ", ")).join(t for t, _ in parts) + ")")
                    sets.append(tuple(x for _, v in parts for x in v))
            pats.append(sets)
            keys.append(M.col.LNPattern(".".join(text)))
        if sim.chance(0.3):
            i = sim.draw(6)
            bad = list(text)
            bad[i] = sim.pick(("256", "(256)", "(1-256)", "(1-2-3)", "x", "bcdefa"[i], "-1", "", "(1,)", "(1;2)", "1,2", "(a)"))
            sim.fault("wrong_pattern", ".".join(bad))
            try:
                M.col.LNPattern(".".join(bad))
                sim.fail("filter-wrong", f"pattern {'.'.join(bad)} is taken")
            except ValueError:
                pass
        want = [t for t in want if any(all(x in s for x, s in zip(t, sets)) for sets in pats)]
    got = M.col.get_filtered(objs, tuple(keys))
    sim.check([tuple(o.logical_name.contents) for o in got] == want, "filter-wrong", f"{m.name}: filter {[str(k) for k in keys if not isinstance(k, M.col.LNPattern)]} gives {len(got)}, expected {len(want)}")
    if sim.chance(0.3):
        i = sim.pick(list(VERSIONS))
        box = sim.pick((m.real, objs, M.col.media_id_filter(objs, M.media.ABSTRACT)))
        one = [tuple(o.logical_name.contents) for o in M.col.class_id_filter(box, cls(i))]
        exp = [t for t in names if m.objs[t][0] == i and (isinstance(box, (M.col.Collection, list)) or t[0] == 0)]
        sim.check(one == exp, "filter-wrong", f"{m.name}: filter by class {i} gives {len(one)}, expected {len(exp)}")
        i = sim.pick((0, 1, 4, 7))
        one = [tuple(o.logical_name.contents) for o in M.col.media_id_filter(m.real, sim.pick((i, M.media.MediaId.from_int(i))))]
        sim.check(one == [t for t in names if t[0] == i], "filter-wrong", f"{m.name}: filter by medium {i} gives {len(one)}")
    mode = sim.pick(["l", "n", "c", "cl", "cn"])
    srt = M.col.get_sorted(list(got), mode)
    k1 = {"l": lambda o: tuple(o.logical_name.contents), "n": lambda o: M.get_name(o.logical_name), "c": lambda o: int(o.CLASS_ID)}
    exp = list(got)
    for x in reversed(mode):
        exp = sorted(exp, key=k1[x])
    sim.check([o.logical_name.contents for o in srt] == [o.logical_name.contents for o in exp], "sort-wrong", f"{m.name}: sorted by {mode}")
    mode = sim.pick(["m", "c", "g", "mc", "cm", "mg", "gc", "mgc"])
    tree = M.col.get_object_tree(list(got), mode)
    left = {t: 0 for t in want}

    def walk(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                walk(v, path + [k])
            return
        sim.check(len(node) > 0 and len(path) == len(mode), "tree-wrong", f"{m.name}: leaf {len(node)} objects at depth {len(path)} of {mode}")
        for o in node:
            t = tuple(o.logical_name.contents)
            left[t] = left.get(t, 0) + 1
            for k, x in zip(path, reversed(mode)):      # the last letter is the outermost level
                if x == "c":
                    ok = int(k) == m.objs[t][0]
                elif x == "m":
                    ok = type(k).__name__ == media_of(t[0])
                else:
                    names_ = [c.__name__ for c in type(k).__mro__]
                    ok = media_of(t[0]) in names_ or "Other" in names_
                sim.check(ok, "tree-wrong", f"{m.name}: {key(t)} class {m.objs[t][0]} under {x}:{type(k).__name__}")
    if want:
        walk(tree, [])
    sim.check(all(n == 1 for n in left.values()), "tree-wrong", f"{m.name}: tree {mode} over {len(want)} objects repeats or loses some")
    sim.probe("tree")


def gen_add(sim, m):
    t = sim.pick(ALL)
    c = sim.weighted([(6, None), (3, "any"), (1, "unknown")])
    if c is None:
        c = sim.pick(FIXED[t]) if t in FIXED else 15 if t in ASS else sim.pick(OTHERS)
    elif c == "any":
        c = sim.pick(OTHERS)
    else:
        c = sim.pick(UNKNOWN)
    v = sim.weighted([(5, 0), (3, 1), (2, 2), (1, 3), (2, None)])
    return t, c, v


def directory(sim):
    ms = [Meter("AB"[i]) for i in range(sim.int(1, 2))]
    for _ in sim.steps(30, 14):
        m = sim.pick(ms)
        op = sim.weighted([(6, "add"), (3, "remove"), (3, "missing"), (3, "list"), (2, "sap"), (4, "look"), (2, "trees"), (1, "recreate")])
        r = m.real
        if op in ("add", "missing"):
            t, c, v = gen_add(sim, m)
            vv = v
            if v is None:
                known = m.versions_of(c)
                vv = known[0] if known and len(set(known)) == 1 else None
                if known and vv is None:
                    continue                        # several versions: any may be taken
            ok = vv is not None and m.allowed(t, c, vv)
            fn = r.add if op == "add" else r.add_if_missing
            there = op == "missing" and t in m.objs
            try:
                obj = fn(class_id=cls(c), version=None if v is None else M.cdt.Unsigned(v), logical_name=ln(t))
            except ValueError:
                sim.check(not ok and not there, "add-wrong", f"{m.name}: {op} {key(t)} class {c} version {v} is refused")
                sim.fault("unsupported-object")
            else:
                if there:
                    sim.check(obj is m.inst[t], "add-wrong", f"{m.name}: object {key(t)} was there already")
                else:
                    sim.check(ok, "add-wrong", f"{m.name}: {op} {key(t)} class {c} version {v} is taken")
                    m.put(t, c, vv, obj)
            sim.log(op, m.name, key(t), c, v)
            look(sim, m, t)
        elif op == "remove":
            t = sim.pick(list(m.objs)) if sim.chance(0.8) else sim.pick(ALL + [LDN])
            want = t in m.objs and t != LDN
            got = r.try_remove(ln(t))
            sim.log("remove", m.name, key(t), got)
            sim.check(got is want, "remove-wrong", f"{m.name}: remove {key(t)} answers {got}")
            if want:
                sim.fault("object-removed")
                for d in (m.objs, m.inst, m.sap, m.lists):
                    d.pop(t, None)
            look(sim, m, t)
        elif op == "list":
            cand = [t for t in m.sap]
            if not cand:
                continue
            a = sim.pick(cand)
            els, want = [], []
            v1 = m.objs[a][1] > 0
            for _ in range(sim.int(0, 4)):
                t = sim.pick([x for x in ALL if x not in want])
                if t in m.objs:
                    c, v = m.objs[t]
                else:
                    c = sim.pick(FIXED[t]) if t in FIXED else 15 if t in ASS else sim.pick(OTHERS)
                    v = sim.pick([v for v in range(VERSIONS[c] + 1) if (c, v) not in REFUSED])
                want.append(t)
                els.append((t, c, v))
            enc = bytes([1, len(els)]) + b"".join(bytes([2, 4, 0x12]) + c.to_bytes(2, "big") + bytes([0x11, v, 9, 6]) + bytes(t) + bytes([2, 2, 1, 0, 1, 0]) for t, c, v in els)
            first = m.lists[a] is None
            m.inst[a].set_attr(2, enc)
            sim.log("object list", m.name, key(a), len(els), first)
            m.lists[a] = want
            if first:
                for t, c, v in els:
                    if t not in m.objs:
                        obj = r.get(bytes(t))
                        sim.check(obj is not None, "list-wrong", f"{m.name}: {key(t)} of the object list is not in the directory")
                        m.put(t, c, v, obj)
            for t, c, v in els:
                look(sim, m, t)
        elif op == "sap":
            if m.sap and sim.chance(0.5):
                a = sim.pick(list(m.sap))
                m.sap[a] = sim.pick(SAPS)
                m.inst[a].set_attr(3, bytes([2, 2, 0x0F, m.sap[a], 0x12, 0, 1]))
            by_sap(sim, m)
        elif op == "look":
            look(sim, m, sim.pick(ALL + [LDN]))
        elif op == "trees":
            trees(sim, m)
        elif op == "recreate":
            i = ms.index(m)
            ms[i] = m = Meter(m.name)
            sim.fault("restart")
        for x in ms:
            whole(sim, x)
        sim.state(op, len(m.objs) > 6, len(m.sap), any(m.lists.values()))


def groups(sim):
    """classification is total: every logical name has one group, of its own medium or none"""
    for _ in range(40):
        a = sim.pick((0, 1, 4, 5, 6, 7, 8, 9, 15, 2, 200))
        t = (a, sim.pick((0, 1, 65, 255)), sim.int(0, 255), sim.int(0, 130), sim.weighted([(3, 0), (1, 255), (4, None)]), sim.pick((255, 101, 0, 126)))
        t = tuple(sim.int(0, 130) if x is None else x for x in t)
        g = M.col.get_relation_group(ln(t))
        names_ = [c.__name__ for c in type(g).__mro__]
        sim.check(media_of(a) in names_ or "Other" in names_, "group-wrong", f"{key(t)} is in {names_[0]}")
        sim.log(key(t), names_[0])
        sim.state(names_[0])
    for _ in range(8):
        n = sim.pick(sorted(bluebook.CLASS_IDS))
        c, want = getattr(M.cid, n), bluebook.CLASS_IDS[n]
        sim.check(int(c) == want and bytes(c.contents) == want.to_bytes(2, "big") and c == cls(want), "class-id", f"{n} is class {int(c)}, expected {want}")
        other = bluebook.CLASS_IDS[sim.pick(sorted(bluebook.CLASS_IDS))]
        sim.check((c == cls(other)) == (want == other), "class-id", f"{n} and class {other} are told {'the same' if c == cls(other) else 'different'}")
    for d, want in ((M.ad.OBJECT_LIST, "000f0000280000ff02"), (M.ad.LDN_VALUE, "000100002a0000ff02")):
        sim.check(bytes(d.contents).hex() == want, "class-id", f"well known attribute {want} is described as {bytes(d.contents).hex()}")
    for _ in range(60):
        t = near_rule(sim)
        g, want = M.col.get_relation_group(ln(t)), group_of(t)
        sim.check(type(g) is type(getattr(M.media, want)), "group-wrong", f"{key(t)} is in {type(g).__name__}, expected {want}")
        sim.state(want)


def holds(t, conj):
    return all((t["abcdef".index(f)] in vals) == (op == "in") for f, op, vals in conj)


def group_of(t):
    """the Blue Book's table of groups as ordered rules (data/groups.json)"""
    i = 0
    while i < len(RULES):
        op, pre, arg = RULES[i]
        if op == "ret" and any(holds(t, c) for c in pre):
            return arg
        i = arg if op == "skip" and any(holds(t, c) for c in pre) else i + 1
    return "OTHER_MEDIA"


def edges(vals):
    return [n for n in vals if n - 1 not in vals or n + 1 not in vals]


def near_rule(sim):
    """a logical name in a rule's range, at its edge or just outside"""
    while True:
        op, pre, _ = sim.pick(RULES)
        if op == "ret" and pre and pre != [[]]:
            break
    t = [sim.pick((0, 1, 4, 5, 6, 7, 8, 9, 15)), sim.weighted([(2, 0), (1, 1), (1, 65)]), sim.int(0, 255), sim.int(0, 255), sim.weighted([(3, 0), (1, 255), (1, sim.int(0, 130))]), sim.weighted([(4, 255), (1, sim.int(0, 128))])]
    conj = sim.pick(pre)
    for f, o, vals in conj:
        if o == "in":
            t["abcdef".index(f)] = sim.pick(vals) if sim.chance(0.4) else sim.pick(edges(vals))
    if sim.int(0, 2) == 0:
        f, _, vals = sim.pick(conj)
        i = "abcdef".index(f)
        t[i] = sim.pick([n for e in edges(vals) for n in (e - 1, e + 1) if 0 <= n <= 255 and n not in vals] or [0]) if sim.chance(0.7) else sim.int(0, 255)
    return tuple(t)


RULES = json.loads((pathlib.Path(__file__).resolve().parents[2] / "data" / "groups.json").read_text())


CHECK = Check(
    id="C11",
    scenarios=[Scenario("directory", directory, 24_000, 600_000, 400), Scenario("groups", groups, 4000, 60_000, 100)],
    rule="histories of added, refused, replaced and removed objects, object lists read from meters, re-created collections, one or two meters interleaved; non-trivial: a fault counted",
    real=["cosem_interface_classes.collection", "association_ln", "every COSEM class constructed"],
    stub=["meter content (generated)", "reference directory (a map)"],
    setup=setup,
)
