"""C15 - what is saved is what is loaded: type, device and template files keep every value, and survive failed saves and power cuts."""
import os
from xml.etree import ElementTree as ET

from .. import axdr_ref as A, env, objgen as O, simdisk
from ..engine import Check, Scenario
from ..objgen import G
from .c12 import MAN, TYPE, name, restart


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        O.bind()
        import src.DLMS_SPODES.exceptions as exc
        from src.DLMS_SPODES.version import AppVersion
    G.exc, G.AppVersion = exc, AppVersion


LIB = f"Types/SIM/{TYPE.hex()}"
HEAD = "<country_ver>3.0</country_ver><manufacturer>SIM</manufacturer>%s<server_ver instance=\"0\">%s</server_ver>"
DYNAMIC, STATIC = "DYNAMIC", "STATIC"


OTHER = b"\x09\x02S2"
THIRD = b"\x09\x02S3"
WHO = {t[2:]: i for i, t in enumerate((TYPE, OTHER, THIRD))}


def who(c):
    return WHO[c.server_type.contents]


def fetch(ver, type_=TYPE):
    return G.col.get_collection(MAN, G.cdt.OctetString(type_), G.AppVersion.from_str(ver))


def make(sim):
    """a meter whose associations list themselves; -> (objects, associations, lists)"""
    objs, asses, lists = O.meter(sim, size=(3, 8))
    for o in objs:
        if o.c in (1, 3) and 2 not in o.attrs:
            o.attrs[2] = O.u8(sim.draw(256))
    seen = [o for o in objs if o.c == 7]
    if seen and sim.chance(0.5):
        """what the meter shows: captures are of its type, also if a client may change them"""
        sim.pick(seen).t = (0, 0, 21, 0, sim.pick((0, 1, 2)), 255)
    for a in asses:
        ent = [x for x in lists[a.t] if x[0] is not a]
        n = len(O.cls_of(15, 0).A_ELEMENTS) + 1
        for b in asses:
            if b is a or all(x[0] is not b for x in ent):
                ent.insert(sim.draw(len(ent) + 1), (b, {i: 1 for i in range(1, n + 1)}, {}))
        for o in objs:
            """objects that refer to others and those they may refer to are in all lists"""
            if o.c in (1, 3, 7, 21, 71) and all(x[0] is not o for x in ent):
                ent.insert(sim.draw(len(ent) + 1), (o, {i: sim.pick((1, 1, 3, 2, 0)) for i in range(1, len(O.cls_of(o.c, o.v).A_ELEMENTS) + 2)}, {}))
        for o, at, me in ent:
            at[1] = 1
            if o.c == 15:
                at[2] = 1
            if o.c in (3, 4, 5):
                """text of a value is told in its unit"""
                at[4 if o.c == 5 else 3] = 1
        lists[a.t] = ent
        a.attrs[2] = O.object_list(ent)
    known = {o.t for ent in lists.values() for o, *_ in ent}
    return [o for o in objs if o.t in known], asses, lists


def values(c):
    return {(bytes(o.logical_name.contents), i): v.encoding for o in c.values() for i, v in o.get_index_with_attributes() if v is not None and i != 1}


def element(o, i):
    return o.get_attr_element(i)


def spots_of(c, ent):
    """static attributes the association lets write"""
    for o, at, _ in ent:
        for i, m in at.items():
            if i != 1 and m in (2, 3) and not (o.c == 15 and i in (6, 7)) and element(c.get(bytes(o.t)), i).classifier != G.ic.Classifier.DYNAMIC:
                yield bytes(o.t), i


def change(sim, c, spots):
    """the user sets a value of an attribute; -> whether one was set"""
    t, i = sim.pick(spots)
    o = c.get(t)
    v = o.get_attr(i)
    T = type(v) if v is not None else element(o, i).DATA_TYPE
    if v is None and isinstance(T, G.ut.CHOICE):
        return False
    targets = [(int(x.CLASS_ID), tuple(x.logical_name.contents), 2) for x in c.values() if int(x.CLASS_ID) in (1, 3) and x.get_attr(2) is not None]
    if not targets and int(o.CLASS_ID) in (7, 21, 71):
        return False
    if int(o.CLASS_ID) == 71 and i == 2 and v is not None:
        """thresholds are of the type of the value first monitored"""
        return False
    x = O.gen(sim, T, targets or [(1, (0, 0, 42, 0, 0, 255), 2)])
    if x is None or not O.fits(T, x):
        return False
    if x[0] in (10, 12) and sim.chance(0.5):
        """texts that mean something to XML"""
        x = x[0], sim.pick((b"a--b", b"-", b"--->", b"<!--", b"]]>", b"&lt;", b"\x01\x00", b"\xd0\x96", b"  ", b'"'))
    try:
        o.set_attr(i, A.encode(x))
    except (ValueError, G.exc.NoObject, G.exc.EmptyObj) as e:
        return False
    return True


class Files:
    """what each file may hold now: the whole of one of the states saved"""

    def __init__(self, sim, disk):
        self.sim, self.disk, self.may = sim, disk, {}

    def save(self, path, fn, state):
        """fn() -> True if it wrote; state is what it then holds"""
        sim, disk = self.sim, self.disk
        may = self.may.setdefault(path, [None])
        how = sim.weighted([(5, None), (2, "cut"), (2, "eio"), (1, "eacces"), (2, "room")])
        disk.arm(None if how == "room" else how, sim.int(1, 7) if how in ("cut", "eio", "eacces") else None, sim.draw(sim.pick((2, 300, 3000, 12000))) if how == "room" else None)
        try:
            wrote = fn()
        except simdisk.PowerCut:
            sim.log("power cut", os.path.basename(path))
            self.may[path] = may + [state]
            disk.power_cut()
            return "cut"
        except OSError as e:
            sim.check(disk.fired, "save-failed", f"{os.path.basename(path)}: {e!r} without a fault of the disk")
            sim.log("failed", os.path.basename(path), e.errno)
            disk.disarm()
            return "failed"
        disk.disarm()
        if wrote:
            self.may[path] = may + [state] if disk.pending else [state]
        return "saved" if wrote else "same"


def saves(sim):
    """one user saves and loads a device, a template and a type; the disk fails, fills up, and the machine loses power at any operation"""
    objs, asses, lists = make(sim)
    order = asses + objs
    with env.fresh_dir() as d, env.quiet(), simdisk.Disk(sim, d) as disk:
        os.makedirs(LIB)
        typed = sim.chance(0.7)
        with disk.real["open"](f"{LIB}/1.2.3.typ", "w", encoding="utf-8") as f:
            f.write(O.type_file(order, sim.pick(("3.0.0", "4.0.0")), HEAD % (f"<server_type>{TYPE.hex()}</server_type>" if typed else "", "1.2.3")))
        os.makedirs(f"Types/SIM/{OTHER.hex()}")
        objs2, asses2, lists2 = make(sim)
        with disk.real["open"](f"Types/SIM/{OTHER.hex()}/1.2.3.typ", "w", encoding="utf-8") as f:
            f.write(O.type_file(asses2 + objs2, "4.0.0", HEAD % (f"<server_type>{OTHER.hex()}</server_type>", "1.2.3")))
        third = sim.chance(0.4)
        if third:
            os.makedirs(f"Types/SIM/{THIRD.hex()}")
            objs3, asses3, lists3 = make(sim)
            with disk.real["open"](f"Types/SIM/{THIRD.hex()}/1.2.3.typ", "w", encoding="utf-8") as f:
                f.write(O.type_file(asses3 + objs3, "4.0.0", HEAD % (f"<server_type>{THIRD.hex()}</server_type>", "1.2.3")))
        restart()
        files = Files(sim, disk)
        dev2 = fetch("1.2.3", OTHER)
        top2 = sim.pick(asses2).t
        spots2 = sorted(spots_of(dev2, lists2[top2]))
        if third:
            dev3 = fetch("1.2.3", THIRD)
            spots3 = sorted(spots_of(dev3, lists3[sim.pick(asses3).t]))
        top = sim.pick(asses).t
        dev = fetch("1.2.3")
        base = values(G.col.get(MAN, G.cdt.OctetString(TYPE), G.AppVersion(1, 2, 3)))
        spots = sorted(spots_of(dev, lists[top]))
        sim.log("meter", len(order), name(top), len(spots))
        if sim.chance(0.5):
            dev.set_server_ver(0, G.AppVersion(1, 2, 3))
        if sim.chance(0.3):
            dev.set_server_ver(1, G.AppVersion(0, 0, 5))
        for _ in sim.steps(10, 6):
            op = sim.weighted([(4, "change"), (3, "device"), (3, "template"), (2, "type"), (2, "full"), (2, "load"), (1, "foreign"), (1, "cut"), (1, "sync"), (1, "rights")])
            if op == "change" and spots:
                done = sum(change(sim, dev, spots) for _ in range(sim.int(1, 4)))
                if spots2:
                    change(sim, dev2, spots2)
                if third and spots3:
                    change(sim, dev3, spots3)
                sim.log("change", done)
            elif op == "device":
                now = values(dev)
                want = {k: now[k] for k in spots if k in now and now[k] != base.get(k) and now[k] != b"\x01\x00"}
                wrote = []

                def fn():
                    wrote.append(dev.to_xml2("device.xml", association_id=top[4]))
                    return wrote[0]
                r = files.save("device.xml", fn, want)
                if wrote:
                    sim.check(wrote[0] == bool(want), "save-wrong", f"device file: returned {wrote[0]}, {len(want)} values differ from the type")
                sim.log("device", r, len(want))
            elif op == "template" and spots:
                cols = [(dev, spots)] + ([(dev2, spots2)] if spots2 and sim.chance(0.4) else []) + ([(dev3, spots3)] if third and sim.chance(0.7) else [])
                O.shuffle(sim, cols)
                used, want = {}, {}
                for c, sp in cols:
                    now = tell(c)
                    kind = lambda t: int(c.get(t).CLASS_ID)
                    pick = {k for k in sp if k in now and plain(c.get(k[0]).get_attr(k[1])) and sim.chance(0.5)}
                    pick -= {(t, i) for t, i in pick if kind(t) == 71 and i in (3, 4, 5) and (t, 2) not in pick or kind(t) == 21 and i == 2}
                    for t, i in sorted(pick):
                        used.setdefault(G.cst.LogicalName(bytearray(t)), set()).add(i)
                if not used:
                    continue
                names = sorted((bytes(k.contents), i) for k, v in used.items() for i in v)
                ok = True
                for t, i in names:
                    """an attribute is told by the first collection that has its value"""
                    src = next(c for c, _ in cols if c.get(t) is not None and i <= len(c.get(t).A_ELEMENTS) + 1 and c.get(t).get_attr(i) is not None)
                    v = src.get(t).get_attr(i)
                    ok = ok and plain(v) and (int(src.get(t).CLASS_ID) != 71 or i not in (3, 4, 5))
                    want[t, i] = who(src), told(v)
                if len(cols) > 1 and not (ok and all(c.get(t) is None or i <= len(c.get(t).A_ELEMENTS) + 1 for t, i in names for c, _ in cols)):
                    continue
                verified = sim.chance(0.5)
                was = {bytes(k.contents): set(v) for k, v in used.items()}
                types = sorted(who(c) for c, _ in cols)
                r = files.save("template.xml", lambda: G.col.to_xml4([c for c, _ in cols], "template.xml", used, verified) or True, (verified, types, want))
                sim.check({bytes(k.contents): set(v) for k, v in used.items()} == was, "arguments-changed", "to_xml4 changed the list of used attributes")
                sim.log("template", r, len(names), len(cols))
                if sim.chance(0.3):
                    older_template(sim, dev, spots, disk)
            elif op == "foreign" and os.path.exists("device.xml"):
                """the file of another meter"""
                before = values(dev2)
                try:
                    dev2.from_xml2("device.xml")
                except (ValueError, SyntaxError) as e:
                    sim.log("refused", type(e).__name__)
                else:
                    sim.fail("foreign-file-taken", "a device file of another type was loaded")
                sim.check(values(dev2) == before, "foreign-file-taken", "values of a refused device file are in the collection")
            elif op == "type":
                state = type_state(dev)
                r = files.save(f"{LIB}/1.3.0.typ", lambda: dev.save_type(f"{LIB}/1.3.0.typ") or True, state)
                sim.log("type", r)
            elif op == "full":
                """everything known of the meter, for people to read too"""
                notes = sim.chance(0.5)
                r = files.save("full.xml", lambda: dev.to_xml("full.xml", with_comment=notes) or True, values(dev))
                sim.log("full", r, notes)
                if sim.chance(0.3):
                    for_people(sim, dev, disk)
            elif op == "load":
                path = sim.pick(("device.xml", "full.xml", "template.xml", f"{LIB}/1.3.0.typ"))
                load(sim, files, path, disk)
            elif op == "rights":
                """the meter tells other rights than the type does: what is saved for its type stays what the type lets write"""
                a = sim.pick(asses)
                ent = [(o, {i: m if i == 1 or o.c in (3, 4, 5, 15) else sim.pick((0, 1, 2, 3)) for i, m in at.items()}, me) for o, at, me in lists[a.t]]
                dev.get(bytes(a.t)).set_attr(2, A.encode(O.object_list(ent)))
                sim.log("rights", name(a.t))
            elif op == "cut":
                disk.power_cut()
                restart()
                sim.log("cut")
            elif op == "sync":
                disk.sync_all()
            sim.state(op, tuple(disk.last), tuple(sorted((p, len(m)) for p, m in files.may.items())))
        for path in sorted(files.may):
            load(sim, files, path, disk)


def plain(v):
    """text that XML keeps, and that tells the type of the value"""
    if isinstance(v, (G.cdt.VisibleString, G.cdt.Utf8String)):
        return all(32 <= b < 127 for b in v.contents)
    if isinstance(v, G.cdt.Digital) and v.SCALER_UNIT is not None:
        """numbers with a unit are told as real numbers"""
        return abs(int.from_bytes(v.contents, "big", signed=v.SIGNED)) < 2 ** 50
    if isinstance(v, G.choices.StructureMixin):
        return all(map(plain, v))
    if isinstance(v, G.cdt.Structure):
        return not any(isinstance(el.TYPE, G.ut.CHOICE) for el in v.ELEMENTS) and all(map(plain, v))
    if isinstance(v, G.cdt.Array):
        return not isinstance(v.TYPE, G.ut.CHOICE) and all(map(plain, v))
    return True


def told(v):
    """what the text of a value tells: not the clock status of date and time"""
    if v is None:
        return None
    if isinstance(v, (G.cdt.Array, G.cdt.Structure)):
        return [v.encoding[:1].hex(), [told(x) for x in v]]
    if isinstance(v, (G.cst.OctetStringDateTime, G.cdt.DateTime)):
        return v.encoding[:-1].hex()
    if isinstance(v, G.cdt.Enum):
        return "16 " + str(v)
    return v.encoding.hex()


def tell(c):
    return {(bytes(o.logical_name.contents), i): told(v) for o in c.values() for i, v in o.get_index_with_attributes() if v is not None and i != 1}


def type_state(c):
    """what a type file of the collection has to tell"""
    out = {}
    mine = {}
    for a in c.values():
        if int(a.CLASS_ID) != 15 or a.logical_name.e == 0 or a.object_list is None:
            continue
        for el in a.object_list:
            t = bytes(el.logical_name.contents)
            mine.setdefault(t, set()).update(int(x.attribute_id) for x in el.access_rights.attribute_access if int(x.access_mode) == 1)
    for t, fixed in mine.items():
        if t in (bytes((0, 0, 40, 0, 0, 255)), bytes((0, 0, 42, 0, 0, 255))):
            continue
        o = c.get(t)
        out[t, 0] = (int(o.CLASS_ID), int(o.VERSION))
        for i, v in o.get_index_with_attributes():
            if i == 1 or v is None:
                continue
            el = element(o, i)
            if el.classifier == G.ic.Classifier.STATIC and (i in fixed or i == 3 and t[:4] == bytes((0, 0, 21, 0)) and out[t, 0][0] == 7):
                out[t, i] = v.encoding
            elif isinstance(el.DATA_TYPE, G.ut.CHOICE):
                out[t, i] = v.encoding[:1]
        if out[t, 0][0] == 71 and (t, 2) not in out:
            """thresholds are of the type of a value the file does not tell"""
            for i in (3, 4, 5):
                out.pop((t, i), None)
    return out


def load(sim, files, path, disk):
    if sim.chance(0.15) and os.path.exists(path):
        """the disk fails while the file is read"""
        restart()
        disk.arm("eio", sim.int(1, 4))
        c = None
        try:
            if path in ("device.xml", "full.xml"):
                c = fetch("1.2.3")
                before = values(c)
                c.from_xml2(path)
            elif path == "template.xml":
                G.col.from_xml4(path)
            else:
                G.col.Collection.from_xml(path)
        except OSError:
            sim.check(disk.fired, "file-spoiled", f"{os.path.basename(path)} can not be read")
            if c is not None:
                sim.check(values(c) == before, "load-wrong", "a device file that could not be read changed values")
        disk.disarm()
    may = files.may.get(path, [None])
    if not os.path.exists(path):
        sim.check(None in may, "file-lost", f"{os.path.basename(path)} is gone; it held a saved state")
        sim.log("absent", os.path.basename(path))
        return
    try:
        if path == "device.xml":
            c = fetch("1.2.3")
            before = values(c)
            c.from_xml2(path)
            now = values(c)
            got = {k: v for k, v in now.items() if before.get(k) != v}
            fits = lambda s: s is not None and all(now.get(k) == v for k, v in s.items()) and all(k in s or k not in before for k in got)
        elif path == "full.xml":
            c = fetch("1.2.3")
            c.from_xml2(path)
            got = now = values(c)
            fits = lambda s: s is not None and all(got.get(k) == v for k, v in s.items())
        elif path == "template.xml":
            cols, used, verified = G.col.from_xml4(path)
            sim.check(all(c.manufacturer == MAN for c in cols), "load-wrong", "template of other manufacturer")
            by = {who(c): tell(c) for c in cols}
            names = {(bytes(k.contents), i) for k, v in used.items() for i in v}
            objs = {who(c): c for c in cols}

            def alike(n, m, k):
                """both collections have the object and its attribute is of one type, whatever else they hold"""
                a, b = objs[n].get(k[0]), objs[m].get(k[0])
                if n == m or b is None:
                    return n == m
                T = element(a, k[1]).DATA_TYPE if type(a) is type(b) else None
                return T is not None and not isinstance(T, G.ut.CHOICE) and issubclass(T, G.cdt.SimpleDataType) and int(a.CLASS_ID) not in (3, 4, 5, 71)
            got = verified, sorted(who(c) for c in cols), {k: [by[n].get(k) for n in sorted(by)] for k in names}
            fits = lambda s: s is not None and s[:2] == got[:2] and set(s[2]) == names and all(by[m].get(k) == v for k, (n, v) in s[2].items() for m in by if alike(n, m, k))
        else:
            c = G.col.Collection.from_xml(path)
            sim.check((c.manufacturer, c.server_type and c.server_type.contents, c.country_ver, c.dlms_ver, c.collection_ver) == (MAN, TYPE[2:], G.AppVersion(3, 0), 6, G.AppVersion(1, 2, 3)), "load-wrong",
                      f"type file gives manufacturer {c.manufacturer}, type {c.server_type}, version {c.collection_ver}, of country {c.country_ver}")
            got = type_state2(c)
            fits = lambda s: s is not None and all(got.get(k) == v if k[1] == 0 or len(v) > 1 else got.get(k, b"")[:1] == v for k, v in s.items())
    except (OSError, SyntaxError, ValueError, LookupError, TypeError, AttributeError, G.exc.NoObject) as e:
        sim.fail("file-spoiled", f"{os.path.basename(path)} can not be loaded: {type(e).__name__} {e}")
    if not any(fits(s) for s in may):
        last = next((s for s in reversed(may) if s is not None), {})
        if isinstance(last, tuple):
            sim.check(last[:2] == got[:2], "load-wrong", f"{os.path.basename(path)}: of {len(may)} states, the last is verified {last[0]} of types {last[1]}, loaded {got[0]} {got[1]}")
            last, got = {k: [v] for k, (n, v) in last[2].items()}, got[2]
            got = {k: v if k not in last or any(x != last[k][0] for x in v) else last[k] for k, v in got.items()}
        sim.fail("load-wrong", f"{os.path.basename(path)}: of {len(may)} states, the last and loaded differ at {[(name(k[0]), k[1], last.get(k), got.get(k)) for k in {**last, **got} if last.get(k) != got.get(k)][:4]}")
    sim.log("load", os.path.basename(path))
    if path in ("device.xml", "full.xml") and sim.chance(0.3):
        older(sim, path, now if path == "device.xml" else got, disk)


def older(sim, path, want, disk):
    """the same file as former programs wrote it gives the same values"""
    ver = sim.pick(("2.0.0", "2.1.0", "2.2.0", "3.1.0", "3.2.0"))
    with disk.real["open"](path, "rb") as f:
        root = ET.fromstring(f.read())
    root.set("version", ver)
    src = fetch("1.2.3")
    gone = None
    for o in root.findall("object"):
        x = src.get(bytes(map(int, o.attrib["ln"].split("."))))
        o.set("name", "object")
        if ver[0] == "2":
            for tag, v in (("class_id", int(x.CLASS_ID)), ("version", int(x.VERSION))):
                ET.SubElement(o, tag).text = str(v)
    if sim.chance(0.3):
        """an object this meter does not have: kept by the oldest form, passed over by the others"""
        gone = bytes((0, sim.int(5, 60), 96, 1, 0, 255))
        o = ET.Element("object", {"ln": ".".join(map(str, gone)), "name": "foreign"})
        ET.SubElement(o, "class_id").text = "1"
        ET.SubElement(o, "version").text = "0"
        ET.SubElement(o, "attribute", {"index": "2"}).text = "0901aa"
        root.insert(sim.pick((0, len(root))), o)
        gone = None if src.get(gone) is not None else gone
        sim.fault("foreign_object")
    with disk.real["open"]("old.xml", "wb") as f:
        f.write(ET.tostring(root, encoding=sim.pick(("utf-8", "cp1251"))))
    c = fetch("1.2.3")
    try:
        c.from_xml2("old.xml")
    except Exception as e:
        sim.fail("file-spoiled", f"{path} of version {ver} can not be loaded: {type(e).__name__} {e}")
    now = values(c)
    if gone is not None:
        sim.check((c.get(gone) is not None and c.get(gone).value.encoding == b"\x09\x01\xaa") if ver[0] == "2" else c.get(gone) is None, "load-wrong", f"foreign object of a file of version {ver}: {c.get(gone)}")
        now.pop((gone, 2), None)
    sim.check(now == want, "load-wrong", lambda: f"{path} of version {ver} gives {[(name(k[0]), k[1], want.get(k), now.get(k)) for k in {**want, **now} if want.get(k) != now.get(k)][:4]}")
    disk.real["remove"]("old.xml")
    sim.log("older", ver, path)


def for_people(sim, dev, disk):
    """a file of texts tells each value known"""
    dev.to_xml("told.xml", is_decode=True)
    with disk.real["open"]("told.xml", "rb") as f:
        root = ET.fromstring(f.read())
    disk.real["remove"]("told.xml")
    for p in [p for p in disk.pending if os.path.basename(p).startswith("told")]:
        del disk.pending[p]

    def leaves(n):
        if len(n):
            return [x for y in n for x in leaves(y)]
        return [] if n.tag in ("array", "struct") or n.get("type") else [(n.text or "").split()]

    def texts(v):
        return [x for y in v for x in texts(y)] if isinstance(v, (G.cdt.Array, G.cdt.Structure)) else ["".join(c if c in "\t\n\r" or c >= " " and not "\ud800" <= c <= "\udfff" and c not in "\ufffe\uffff" else "?" for c in str(v)).split()]
    got = {(bytes(map(int, o.get("ln").split("."))), int(a.get("index"))): leaves(a) for o in root.findall("object") for a in o.findall("attr")}
    want = {(bytes(o.logical_name.contents), i): texts(v) for o in dev.values() for i, v in o.get_index_with_attributes() if v is not None and i != 1}
    sim.check(got == want, "load-wrong", lambda: f"a file of texts tells {[(name(k[0]), k[1], got.get(k), want.get(k)) for k in {**got, **want} if got.get(k) != want.get(k)][:4]}")
    sim.log("for people", len(want))


def as_text(node, v, name):
    """a value in a template of the former form"""
    if isinstance(v, (G.cdt.Array, G.cdt.Structure)):
        for x in v:
            tag = "array" if isinstance(x, G.cdt.Array) else "struct" if isinstance(x, G.cdt.Structure) else "simple"
            as_text(ET.SubElement(node, tag, {"name": name}), x, name)
    else:
        node.text = str(v)


def older_template(sim, dev, spots, disk):
    """a template of one meter as former programs wrote it: values as octets, or as text"""
    text = sim.chance(0.6)
    fresh = fetch("1.2.3")
    picked = {}
    for t, i in spots:
        o, v = dev.get(t), dev.get(t).get_attr(i)
        k, was = int(o.CLASS_ID), fresh.get(t).get_attr(i)
        if v is None or not sim.chance(0.4) or text and (k in (7, 21, 71) or not plain(v)):
            continue
        if isinstance(element(o, i).DATA_TYPE, G.ut.CHOICE) and (was is None or type(was) is not type(v)):
            continue
        if k in (3, 4, 5, 71) and (text or k == 71) and values_of(dev.get(t)) != values_of(fresh.get(t)):
            continue
        picked.setdefault(t, []).append(i)
    if not picked:
        return
    root = ET.Element("template.objects", {"version": "4.0.0", **({"decode": "1"} if text else {"decode": "0"} if sim.chance(0.5) else {})})
    for tag, x in (("dlms_ver", "6"), ("country", "7"), ("country_ver", "3.0"), ("manufacturer", "SIM"), ("server_type", TYPE.hex()), ("server_ver", "1.2.3")):
        ET.SubElement(root, tag).text = x
    want = {}
    for t in sorted(picked, key=lambda t: sim.draw(1000)):
        n = ET.SubElement(root, "object", {"ln": ".".join(map(str, t)), "name": "object"})
        for i in picked[t]:
            v = dev.get(t).get_attr(i)
            a = ET.SubElement(n, "attr", {"name": "attribute", "index": str(i)})
            if not text:
                a.text = v.encoding.hex()
                want[t, i] = v.encoding
                continue
            if isinstance(v, (G.cdt.Array, G.cdt.Structure)):
                a.set("type", "array" if isinstance(v, G.cdt.Array) else "struct")
            as_text(a, v, "element")
            want[t, i] = told(v)
    with disk.real["open"]("old3.xml", "wb") as f:
        f.write(ET.tostring(root, encoding=sim.pick(("utf-8", "cp1251")), xml_declaration=True))
    base = values(fresh)
    try:
        c, used = G.col.Collection.from_xml3("old3.xml")
    except Exception as e:
        sim.fail("file-spoiled", f"a template of the former form can not be loaded: {type(e).__name__} {e}")
    disk.real["remove"]("old3.xml")
    sim.check(who(c) == who(dev) and c.manufacturer == MAN, "load-wrong", "a template of the former form is of another meter")
    names = {(bytes(k.contents), i) for k, v in used.items() for i in v}
    sim.check(names == {(t, i) for t, v in picked.items() for i in v}, "load-wrong", lambda: f"a template of the former form uses {[(name(t), i) for t, i in sorted(names)]}, it has {[(name(t), i) for t, i in sorted(want)]}")
    now, has = values(c), tell(c)
    for k in sorted(want):
        got = (has if text else now).get(k)
        sim.check(got == want[k], "load-wrong", lambda: f"{'text' if text else 'octets'} of {name(k[0])} attribute {k[1]} in a template of the former form: {want[k]} is loaded as {got}")
    other = [k for k in now if k not in want and base.get(k) != now[k] and int(c.get(k[0]).CLASS_ID) not in (7, 21, 71)]
    sim.check(not other, "load-wrong", lambda: f"a template of the former form changes {[(name(t), i) for t, i in other]} too")
    sim.log("older template", text, len(want))


def values_of(o):
    """what tells the unit of the values of an object"""
    return [v.encoding for i, v in o.get_index_with_attributes() if v is not None and isinstance(v, G.cdt.ScalUnitType)]


def type_state2(c):
    out = {}
    for o in c.values():
        t = bytes(o.logical_name.contents)
        out[t, 0] = (int(o.CLASS_ID), int(o.VERSION))
        for i, v in o.get_index_with_attributes():
            if i != 1 and v is not None:
                out[t, i] = v.encoding
    return out


CHECK = Check(
    id="C15",
    scenarios=[Scenario("saves", saves, 4000, 80_000, 20)],
    rule="generated meter types of 3 to 8 objects; histories of changes, saves, loads, disk errors, full disk, power cuts at any disk operation; non-trivial: a fault",
    real=["Collection.to_xml2 / to_xml / from_xml2 / save_type / from_xml", "to_xml4 / from_xml4", "get_collection", "COSEM classes", "ElementTree", "io buffering"],
    stub=["disk (simulated durability over a scratch directory)", "meter types (generated)"],
    setup=setup,
)
