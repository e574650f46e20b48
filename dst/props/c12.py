"""C12 - every client works on its own meter: collections taken from one cached template are faithful and never touch it or each other."""
import builtins
import os

from .. import axdr_ref as A, env, objgen as O
from ..engine import Check, Scenario
from ..objgen import G

LOCAL = (ValueError, TypeError, KeyError, IndexError, AttributeError)


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        O.bind()
        import src.DLMS_SPODES.exceptions as exc
        from src.DLMS_SPODES.version import AppVersion
    G.exc, G.AppVersion = exc, AppVersion


MAN, TYPE = b"SIM", b"\x09\x02S1"


class Disk:
    """the file system of the type library: open and read fail when the simulator says so"""

    def __init__(self, sim):
        self.sim, self.plan, self.real = sim, None, builtins.open

    def __enter__(self):
        builtins.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = self.real

    def open(self, name, *a, **k):
        if self.plan is None or not str(getattr(name, "path", name)).endswith(".typ"):
            return self.real(name, *a, **k)
        kind, self.plan = self.plan, None
        self.sim.fault("disk_" + kind)
        if kind == "open":
            raise OSError(5, "input/output error")
        f = self.real(name, *a, **k)
        disk = self

        class Bad:
            left = disk.sim.int(0, os.path.getsize(name) - 12)

            def read(self, n=-1):
                b = f.read(self.left if n < 0 else min(n, self.left))
                self.left -= len(b)
                if self.left <= 0 and kind == "read":
                    raise OSError(5, "input/output error")
                return b

            def close(self):
                f.close()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                f.close()
        return Bad()


def restart():
    env.forget(G.col)


def fetch(ver):
    return G.col.get_collection(MAN, G.cdt.OctetString(TYPE), G.AppVersion.from_str(ver))


def less(v):
    """without the element type of an empty array"""
    return v and (*v[:3], None, v[4])


def name(t):
    return ".".join(map(str, t))


def loaded_ok(sim, what, snap, objs):
    for o in objs:
        for i, x in o.attrs.items():
            e = A.encode(x)
            got = snap.get((bytes(o.t), i))
            sim.check(got is not None and got[1] == e, "template-wrong", f"{what}: {o.ln} class {o.c} attribute {i} is {got and got[1].hex()}, file {e.hex()}")


def faithful(sim, what, src, snap, cpy, listed):
    """the copy has the objects of the origin, and the values of the listed ones"""
    a = [(bytes(o.logical_name.contents), int(o.CLASS_ID), int(o.VERSION), type(o)) for o in src.values()]
    b = [(bytes(o.logical_name.contents), int(o.CLASS_ID), int(o.VERSION), type(o)) for o in cpy.values()]
    sim.check(sorted(a, key=str) == sorted(b, key=str), "copy-differs", f"{what}: objects {[name(x[0]) for x in a if x not in b]} against {[name(x[0]) for x in b if x not in a]}")
    sim.check(all(o.collection is cpy for o in cpy.values()), "copy-differs", f"{what}: object of another collection")
    got = O.snapshot(cpy)
    for (t, i), v in snap.items():
        if i == 1 or t not in listed:
            continue
        o = src.get(t)
        el = o.get_attr_element(i)
        if not isinstance(el.DATA_TYPE, G.ut.CHOICE) and el.classifier == G.ic.Classifier.DYNAMIC:
            continue
        w = got[t, i]
        if v is None:
            continue
        sim.check(w is not None and w[1] == v[1], "copy-differs", f"{what}: {name(t)} class {int(o.CLASS_ID)} attribute {i} is {w and w[1].hex()}, origin {v[1].hex()}")
        sim.check(w[0] == v[0] and (w[3] == v[3] or str(v[3]).endswith("Choice")), "copy-differs", f"{what}: {name(t)} class {int(o.CLASS_ID)} attribute {i} is a {w[0]} of {w[3]}, origin {v[0]} of {v[3]}")
        sim.check(w[2] == v[2] or v[2] is None, "copy-scaler-differs", f"{what}: {name(t)} class {int(o.CLASS_ID)} attribute {i} has scaler and unit {w[2] and w[2].hex()}, origin {v[2] and v[2].hex()}")
    return got


def edit(sim, c, objs):
    """one holder changes a value of its collection in some way; -> what"""
    o = sim.pick(list(c.values()))
    t = tuple(o.logical_name.contents)
    have = [(i, v) for i, v in o.get_index_with_attributes() if v is not None and i != 1]
    if not have or sim.chance(0.1):
        how = sim.pick(("remove", "add", "clear"))
        if how == "remove":
            c.try_remove(o.logical_name)
        elif how == "add":
            c.add(class_id=G.ut.CosemClassId(3), version=G.cdt.Unsigned(0), logical_name=G.cst.LogicalName(bytearray((1, 0, sim.int(1, 9), 7, 0, 255))))
        elif have:
            o.clear_attr(have[0][0])
        return how
    i, v = sim.pick(have)
    how = sim.pick(("set", "set", "inside", "grow", "shrink", "type", "record"))
    T = o.get_attr_data_type(i)
    targets = [(x.c, x.t, 2) for x in objs if x.c in (1, 3)] or [(1, (0, 0, 42, 0, 0, 255), 2)]
    try:
        if how == "set":
            x = O.gen(sim, T, targets)
            if x is not None:
                o.set_attr(i, A.encode(x))
        elif how == "inside" and isinstance(v, (G.cdt.Structure, G.cdt.Array)) and len(v):
            e = v[sim.draw(len(v))]
            while isinstance(e, (G.cdt.Structure, G.cdt.Array)) and len(e):
                e = e[sim.draw(len(e))]
            x = O.gen(sim, type(e), targets)
            if x is not None:
                e.set(A.encode(x))
        elif how == "grow" and isinstance(v, G.cdt.Array):
            v.append(v[0].copy() if len(v) else None)
        elif how == "shrink" and isinstance(v, G.cdt.Array) and len(v):
            v.pop()
        elif how == "type" and isinstance(v, G.cdt.Array) and sim.chance(0.5):
            v.set_type(G.cdt.Unsigned)
        elif how == "record":
            o.set_record_time(i, A.encode((25, A.gen_datetime(sim))))
    except (*LOCAL, G.exc.NoObject, G.exc.ITEApplication, G.exc.EmptyObj, G.ut.UserfulTypesException) as e:
        how += " refused"
    return f"{how} {name(t)}:{i}"


def clients(sim):
    """several holders take collections of the same meter type, edit them, copy them, drop them; the library's disk fails at times"""
    objs, asses, lists = O.meter(sim)
    v4 = sim.chance(0.3)
    registers = [bytes(o.t) for o in objs if o.c in (1, 3)]
    if v4:
        known = {o.t for ent in lists.values() for o, *_ in ent}
        objs = [o for o in objs if o.t in known]
        if any(t not in {bytes(o.t) for o in objs} for t in registers):
            """the file has no objects outside of the lists: nothing may refer to them"""
            for o in objs:
                if o.c in (7, 21, 71):
                    o.attrs.clear()
    order = asses + objs
    if not v4:
        O.shuffle(sim, order)
    size = {t: len(e) for t, e in lists.items()}
    top = max(size.values())
    best = [t for t in size if size[t] == top]
    with env.fresh_dir(), Disk(sim) as disk:
        os.makedirs(f"Types/SIM/{TYPE.hex()}")
        with disk.real(f"Types/SIM/{TYPE.hex()}/1.2.3.typ", "w", encoding="utf-8") as f:
            f.write(O.type_file(order, "4.0.0" if v4 else "3.0.0"))
        restart()
        if sim.chance(0.3):
            disk.plan = sim.pick(("open", "read", "cut"))
            try:
                c = fetch("1.2.3")
            except Exception as e:
                sim.log("library failed", type(e).__name__)
            else:
                sim.check(disk.plan is not None, "bad-file-used", "a collection was made of a file that could not be read")
            disk.plan = None
        first = fetch("1.2.3")
        tmpl = G.col.get(MAN, G.cdt.OctetString(TYPE), G.AppVersion(1, 2, 3))
        base = O.snapshot(tmpl)
        loaded_ok(sim, "type file", base, order)
        if not v4:
            """the order of the objects in the file does not matter"""
            with disk.real("again.typ", "w", encoding="utf-8") as f:
                f.write(O.type_file(sorted(order, key=lambda o: (o.c not in (1, 3, 4, 5), o.c)), "3.0.0"))
            other = O.snapshot(G.col.Collection.from_xml("again.typ"))
            bad = [(name(t), i, base.get((t, i)), other.get((t, i))) for t, i in sorted({**base, **other}) if less(base.get((t, i))) != less(other.get((t, i)))]
            sim.check(not bad, "order-matters", lambda: f"the same objects in another order: {bad[:2]}")
        full = next(tuple(o.logical_name.contents) for o in tmpl.values() if tuple(o.logical_name.contents) in best)
        listed = {bytes(o.t) for o, *_ in lists[full]}
        if any(t not in listed for t in registers):
            """values of objects that refer to a register without values cannot be told"""
            listed -= {bytes(o.t) for o in objs if o.c in (7, 21, 71)}
        sim.log("meter", len(order), v4, name(full), len(listed))
        faithful(sim, "first client", tmpl, base, first, listed)
        held = [[first, O.snapshot(first)]]
        for _ in sim.steps(12, 8):
            op = sim.pick(("edit", "edit", "edit", "new", "copy", "drop", "load", "rights"))
            what = ""
            if op == "edit" and held:
                h = sim.pick(held)
                what = edit(sim, h[0], objs)
                h[1] = O.snapshot(h[0])
                sim.fault("client-edit")
            elif op == "new" and len(held) < 4:
                c = fetch(sim.pick(("1.2.3", "1.2.4")))
                held.append([c, faithful(sim, "new client", tmpl, base, c, listed)])
            elif op == "copy" and held:
                h = sim.pick(held)
                if all(h[0].get(bytes(o.t)) is not None for o in asses) and h[0].get(bytes(full)).object_list is not None:
                    try:
                        c = h[0].copy()
                    except LOCAL + (G.exc.NoObject,) as e:
                        sim.fail("copy-fails", f"copy of a client's collection: {type(e).__name__} {e}")
                    held.append([c, O.snapshot(c)])
            elif op == "drop" and held:
                held.remove(sim.pick(held))
            elif op == "load":
                c = G.col.Collection.from_xml(f"Types/SIM/{TYPE.hex()}/1.2.3.typ")
                sim.check(O.snapshot(c) == base, "template-wrong", "the type file is read differently after clients' edits: " +
                          str([(name(t), i) for (t, i), v in O.snapshot(c).items() if base.get((t, i)) != v][:3]))
            elif op == "rights" and held:
                h = sim.pick(held)
                e = full[4]
                t = sim.pick(sorted(listed)) if listed else bytes(full)
                try:
                    h[0].is_writable(G.cst.LogicalName(bytearray(t)), 2, e)
                except (*LOCAL, G.exc.NoObject, G.exc.ITEApplication):
                    pass
            sim.log(op, what, len(held))
            now = O.snapshot(tmpl)
            if now != base:
                bad = [(name(t), i) for t, i in {**now, **base} if now.get((t, i)) != base.get((t, i))]
                sim.fail("template-changed", f"{op} {what} changed the template at {bad[:3]}")
            for h in held:
                s = O.snapshot(h[0])
                if s != h[1]:
                    bad = [(name(t), i) for t, i in {**s, **h[1]} if s.get((t, i)) != h[1].get((t, i))]
                    sim.fail("other-client-changed", f"{op} {what} changed another collection at {bad[:3]}")
            sim.state(op, what.split(" ")[0], len(held), v4)


CHECK = Check(
    id="C12",
    scenarios=[Scenario("clients", clients, 6500, 150_000, 20)],
    rule="generated meters of 3 to 10 objects of 24 classes, one or two associations, type files of both formats; histories of clients editing, copying, dropping; failing library disk; non-trivial: a fault or edit",
    real=["collection.get_collection", "Collection.from_xml / copy", "COSEM classes", "ElementTree"],
    stub=["the meter types (generated)", "disk of the type library (fails on order)"],
    setup=setup,
)
