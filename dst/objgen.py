"""Generated meters: objects of many classes with valid attribute values, their associations, and the type file text that describes them.

Values are trees of dst.axdr_ref, shaped by the declared data type of each attribute; the encodings come from the reference codec."""
import struct

from . import axdr_ref as A


class G:
    """modules of the package, filled by bind()"""


def bind():
    from src.DLMS_SPODES.types import cdt, cst, ut
    from src.DLMS_SPODES.types import choices
    from src.DLMS_SPODES.types.implementations import structs, enums
    from src.DLMS_SPODES.cosem_interface_classes import collection, cosem_interface_class as ic
    G.choices = choices
    G.cdt, G.cst, G.ut, G.structs, G.enums, G.col, G.ic = cdt, cst, ut, structs, enums, collection, ic


#: (class, version): logical names it is given
POOL = {
    (1, 0): [(0, 0, 128, 1, i, 255) for i in range(1, 6)],
    (3, 0): [(1, 0, 1, 8, 0, 255), (1, 0, 1, 8, 1, 255), (1, 0, 12, 7, 0, 255), (1, 0, 32, 7, 0, 255), (1, 0, 31, 7, 0, 255)],
    (4, 0): [(1, 0, 1, 6, 0, 255), (1, 0, 2, 6, 0, 255)],
    (5, 0): [(1, 0, 1, 4, 0, 255)],
    (6, 0): [(0, 0, 14, 0, 0, 255)],
    (7, 1): [(1, 0, 98, 3, 0, 255), (1, 0, 99, 11, 0, 255)],
    (8, 0): [(0, 0, 1, 0, 0, 255)],
    (9, 0): [(0, 0, 10, 0, 0, 255), (0, 0, 10, 0, 100, 255)],
    (11, 0): [(0, 0, 11, 0, 0, 255)],
    (18, 0): [(0, 0, 44, 0, 0, 255)],
    (20, 0): [(0, 0, 13, 0, 0, 255)],
    (21, 0): [(0, 0, 16, 1, 0, 255), (0, 0, 16, 1, 1, 255)],
    (22, 0): [(0, 0, 15, 0, 0, 255)],
    (23, 1): [(0, 0, 22, 0, 0, 255)],
    (40, 2): [(0, 0, 25, 9, 0, 255)],
    (41, 0): [(0, 0, 25, 0, 0, 255)],
    (42, 0): [(0, 0, 25, 1, 0, 255)],
    (45, 0): [(0, 0, 25, 4, 0, 255)],
    (47, 0): [(0, 0, 25, 6, 0, 255)],
    (64, 0): [(0, 0, 43, 0, 0, 255)],
    (68, 0): [(0, 0, 96, 3, 20, 255)],
    (70, 0): [(0, 0, 96, 3, 10, 255)],
    (71, 0): [(0, 0, 17, 0, 0, 255), (0, 0, 17, 0, 1, 255)],
    (100, 0): [(0, 0, 25, 10, 0, 255)],
}
#: objects whose names differ from others in one group only
for _k, _ts in {(1, 0): [(0, 1, 128, 1, 1, 255), (0, 0, 128, 1, 1, 101)], (3, 0): [(1, 1, 1, 8, 0, 255), (1, 0, 1, 8, 0, 101), (1, 0, 1, 8, 0, 0)], (4, 0): [(1, 1, 1, 6, 0, 255)],
                (5, 0): [(1, 0, 1, 4, 0, 0)], (6, 0): [(0, 1, 14, 0, 0, 255)], (7, 1): [(1, 1, 98, 3, 0, 255)], (21, 0): [(0, 1, 16, 1, 0, 255)], (23, 1): [(0, 1, 22, 0, 0, 255)],
                (42, 0): [(0, 1, 25, 1, 0, 255)], (70, 0): [(0, 1, 96, 3, 10, 255)], (71, 0): [(0, 1, 17, 0, 0, 255)]}.items():
    POOL[_k] += _ts
ASSOC = [(0, 0, 40, 0, i, 255) for i in (1, 2, 3)]
SIMPLE = (3, 4, 5, 6, 9, 10, 12, 15, 16, 17, 18, 20, 21, 22, 23, 24)
#: attributes whose value is not generated (secrets, derived or restricted by another attribute)
SKIP = {(7, 2), (71, 3), (71, 4), (71, 5), (68, 2), (68, 3), (68, 4), (68, 5), (6, 2), (6, 3), (15, 4), (15, 5), (15, 6), (15, 7), (15, 9), (10, 2), (64, 6), (27, 3)}


def u8(n):
    return 17, bytes([n])


def u16(n):
    return 18, n.to_bytes(2, "big")


def i8(n):
    return 15, bytes([n & 255])


def octet(b):
    return 9, bytes(b)


def simple(sim, tag):
    if tag == 25:
        return 25, A.gen_datetime(sim)
    if tag == 26:
        return 26, A.gen_date(sim)
    if tag == 27:
        return 27, A.gen_time(sim)
    if tag == 23:
        return 23, struct.pack(">f", sim.pick((0.0, 1.5, -2.25, 1e10)))
    if tag == 24:
        return 24, struct.pack(">d", sim.pick((0.0, 1.5, -2.25, 1e100)))
    if tag == 4:
        n = sim.pick((0, 1, 7, 8, 9, 16))
        return 4, (n, bytes(sim.draw(256) & (0xFF << (8 - n % 8) & 0xFF if n % 8 and k == (n - 1) // 8 else 0xFF) for k in range((n + 7) // 8)))
    if tag in (10, 12):
        return tag, bytes(sim.int(48, 122) for _ in range(sim.int(0, 8)))
    if tag == 9:
        return 9, sim.bytes(sim.pick((0, 1, 4, 8, 12)))
    return A.gen_simple(sim, tag)


def gen(sim, T, targets=(), depth=0):
    """a tree of the declared type, or None"""
    cdt, cst, ut = G.cdt, G.cst, G.ut
    if isinstance(T, ut.CHOICE):
        can = [t for t in SIMPLE if t in T.ELEMENTS]
        return simple(sim, sim.pick(can)) if can else (0, b"") if 0 in T.ELEMENTS else None
    if issubclass(T, (G.structs.CaptureObjectDefinition, G.structs.ValueDefinition)):
        if not targets:
            return None
        c, t, i = sim.pick(targets)
        out = [u16(c), octet(t), i8(i)]
        return 2, out + ([u16(0)] if issubclass(T, G.structs.CaptureObjectDefinition) else [])
    if issubclass(T, G.choices.StructureMixin):
        """what the second element is, the first one says"""
        kind, opt = T.ELEMENTS
        n = sim.int(0, 2)
        x = gen(sim, opt.TYPE.ELEMENTS[n].TYPE, targets, depth + 1)
        return None if x is None else (2, [(22, bytes([n])), x])
    if issubclass(T, cst.OctetStringDateTime):
        return octet(A.gen_datetime(sim))
    if issubclass(T, cst.OctetStringDate):
        return octet(A.gen_date(sim))
    if issubclass(T, cst.OctetStringTime):
        return octet(A.gen_time(sim))
    if issubclass(T, cst.LogicalName):
        return octet(sim.bytes(6))
    if issubclass(T, cdt.Structure) and not getattr(T, "ELEMENTS", None) or issubclass(T, cdt.CompactArray):
        return None
    if issubclass(T, cdt.Structure):
        els = [gen(sim, el.TYPE, targets, depth + 1) for el in T.ELEMENTS]
        return None if None in els else (2, els)
    if issubclass(T, cdt.Array):
        if T.TYPE is None:
            return 1, []
        for n in (sim.int(0, 3), 1, 0):
            one = [gen(sim, T.TYPE, targets, depth + 1) for _ in range(n)]
            if isinstance(T.TYPE, ut.CHOICE):
                one = one[:1]
            if None not in one and fits(T, (1, one)):
                return 1, one
        return None
    tag = T.TAG[0]
    for _ in range(6):
        x = simple(sim, tag)
        if tag == 0:
            x = 0, b""
        if tag == 22 and getattr(T, "ELEMENTS", None):
            x = 22, bytes(sim.pick(sorted(T.ELEMENTS)))
        if fits(T, x):
            return x
    return None


def fits(T, tree):
    e = A.encode(tree)
    try:
        return T(e).encoding == e
    except Exception:
        return False


class Obj:
    """what one object of the meter holds"""

    def __init__(self, c, v, t):
        self.c, self.v, self.t, self.attrs = c, v, t, {}

    @property
    def ln(self):
        return ".".join(map(str, self.t))


def cls_of(c, v):
    if c == 40:
        return G.col.get_type(G.ut.CosemClassId(c), G.cdt.Unsigned(v), G.cst.LogicalName(bytearray(POOL[c, v][0])), G.col.func_maps["DLMS_6"])
    return G.col.common_interface_class_map[c][v]


def fill(sim, o, objs, every=0.8, columns=3):
    """attribute values of an object that may refer to registers of the meter"""
    targets = [(x.c, x.t, 2) for x in objs if x.c in (1, 3) and 2 in x.attrs and x.attrs[2][0] in SIMPLE]
    T = cls_of(o.c, o.v)
    for i, el in enumerate(T.A_ELEMENTS, 2):
        if (o.c, i) in SKIP or not sim.chance(every):
            continue
        typ = el.DATA_TYPE
        if not isinstance(typ, G.ut.CHOICE) and issubclass(typ, (G.structs.CaptureObjectDefinition, G.structs.ValueDefinition)) and not targets:
            continue
        if o.c == 7 and i in (3, 6):
            continue
        x = gen(sim, typ, targets)
        if x is not None and (isinstance(typ, G.ut.CHOICE) or fits(typ, x)):
            o.attrs[i] = x
    if o.c == 7 and targets:
        o.attrs[3] = 1, [(2, [u16(c), octet(t), i8(i), u16(0)]) for c, t, i in [sim.pick(targets) for _ in range(sim.int(1, columns))]]
        o.attrs[6] = 2, o.attrs[3][1][0][1]
    if o.c == 71 and 2 not in o.attrs:
        for i in (4, 5):
            o.attrs.pop(i, None)
    if o.c == 5 and 2 in o.attrs and 3 in o.attrs:
        o.attrs[3] = simple(sim, o.attrs[2][0])
    if o.c == 21 and 2 in o.attrs:
        o.attrs[2] = 1, []


def object_list(entries):
    """entries: (obj, {attribute: mode}, {method: mode})"""
    return 1, [(2, [u16(o.c), u8(o.v), octet(o.t), (2, [(1, [(2, [i8(i), (22, bytes([m])), (0, b"")]) for i, m in sorted(at.items())]),
                                                       (1, [(2, [i8(i), (3, bytes([m]))]) for i, m in sorted(me.items())])])]) for o, at, me in entries]


def meter(sim, size=(3, 10), associations=(1, 2), full=0.9, kinds=(), columns=3):
    """-> (objects in creation order, associations as Obj with object list, {association ln: [(obj, modes, methods)]})"""
    objs = []
    for n in range(sim.int(*size) + len(kinds)):
        k = kinds[n] if n < len(kinds) else sim.weighted([(2, (1, 0)), (3, (3, 0)), (1, (7, 1)), (1, (71, 0)), (1, (21, 0)), (6, sim.pick(list(POOL)))])
        free = [t for t in POOL[k] if all(t != o.t for o in objs)]
        if free:
            objs.append(Obj(*k, sim.pick(free)))
    for o in sorted(objs, key=lambda o: o.c not in (1, 3)):
        fill(sim, o, objs, columns=columns)
    asses, lists = [], {}
    for n in range(sim.int(*associations)):
        a = Obj(15, 0, ASSOC[2 - n])
        a.attrs[3] = 2, [(15, bytes([(0x30, 0x20, 0x10)[n]])), u16(1)]
        asses.append(a)
    for n, a in enumerate(asses):
        mine = [o for o in objs + asses if n == 0 and sim.chance(full) or n and sim.chance(0.4)]
        sim.shuffle(mine) if hasattr(sim, "shuffle") else shuffle(sim, mine)
        ent = []
        for o in mine:
            cnt = len(cls_of(o.c, o.v).A_ELEMENTS) + 1
            ent.append((o, {i: sim.pick((1, 1, 3, 3, 2, 0)) for i in range(1, cnt + 1)}, {1: 1} if sim.chance(0.3) else {}))
        lists[a.t] = ent
        a.attrs[2] = object_list(ent)
    return objs, asses, lists


def shuffle(sim, seq):
    for i in range(len(seq) - 1, 0, -1):
        j = sim.draw(i + 1)
        seq[i], seq[j] = seq[j], seq[i]


def type_file(order, version="3.0.0", head="", only_tag=()):
    """text of a type file with these objects; only_tag: {(ln, i)} given by type tag only"""
    out = ['<?xml version="1.0" encoding="utf-8"?>', f'<Objects version="{version}">', "<dlms_ver>6</dlms_ver>", "<country>7</country>", head]
    new = version.startswith("4")
    for o in order:
        if new:
            out.append(f'<obj ln="{o.ln}">' + (f"<ver>{o.v}</ver>" if o.c == 15 else ""))
        else:
            out.append(f'<object name="x" ln="{o.ln}"><class_id>{o.c}</class_id><version>{o.v}</version>')
        for i, x in sorted(o.attrs.items()):
            text = str(x[0]) if (o.t, i) in only_tag else A.encode(x).hex()
            out.append(f'<attr i="{i}">{text}</attr>' if new else f'<attribute index="{i}">{text}</attribute>')
        out.append("</obj>" if new else "</object>")
    out.append("</Objects>")
    return "\n".join(out)


def snapshot(c):
    """everything a holder of the collection can see of its values"""
    out = {}
    for o in c.values():
        t = bytes(o.logical_name.contents)
        for i, v in o.get_index_with_attributes():
            if v is None:
                out[t, i] = None
                continue
            sc = getattr(v, "SCALER_UNIT", None)
            T = getattr(v, "TYPE", None) if isinstance(v, G.cdt.Array) else None
            sa = getattr(v, "selective_access", None)
            out[t, i] = (type(v).__name__, v.encoding, None if sc is None or isinstance(sc, property) else getattr(sc, "encoding", str(sc)),
                         T and (T.__name__ if isinstance(T, type) else type(T).__name__), sa.contents if sa is not None and hasattr(sa, "contents") else None)
    return out
