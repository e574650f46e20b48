"""C08 - request and data PDUs of the useful types: what the client sends is what the meter reads."""
from dataclasses import dataclass

from ..engine import Check, Scenario
from .. import env
from .. import axdr_ref as A

LOCAL = (ValueError, TypeError)


class M:
    ut = None


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        from src.DLMS_SPODES.types import cdt, useful_types as ut
        from src.DLMS_SPODES.cosem_interface_classes.association_ln import ver0
        from src.DLMS_SPODES.cosem_interface_classes import data as data_ic, register, clock, script_table
    M.ut, M.cdt, M.assoc = ut, cdt, ver0

    @dataclass
    class Rec(ut.Sequence):
        flag: ut.BOOLEAN
        bits: ut.BitString
        octets: ut.OctetString
        text: ut.VisibleString
        utf: ut.UTF8String
        opt: ut.OPTIONAL(ut.Integer16)
        fixed: ut.OctetString6
        last: ut.Unsigned32
    M.Rec = Rec


def octets(sim):
    n = sim.weighted([(4, sim.int(0, 6)), (1, sim.pick((127, 128, 255, 256, 300)))])
    return sim.blob(n)


INT = {15: ("Integer8", 1, 1), 16: ("Integer16", 2, 1), 17: ("Unsigned8", 1, 0), 18: ("Unsigned16", 2, 0), 5: ("Integer32", 4, 1), 6: ("Unsigned32", 4, 0),
       20: ("Integer64", 8, 1), 21: ("Unsigned64", 8, 0), 13: (None, 1, 1), 22: (None, 1, 0)}


def integer(sim, w, sg):
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if sg else (0, (1 << 8 * w) - 1)
    x = sim.pick((0, 1, lo, hi, sim.draw(1 << 30) % (hi + 1)))
    return x, x.to_bytes(w, "big", signed=bool(sg))


def gen_item(sim):
    """(kind, octets, expectation)"""
    ut = M.ut
    k = sim.pick(("attr", "meth", "data", "record", "select", "int", "invoke"))
    if k in ("attr", "meth"):
        cid, ln, idx = sim.draw(65536), sim.bytes(6), sim.int(-128, 127)
        return k, cid.to_bytes(2, "big") + ln + idx.to_bytes(1, "big", signed=True), (cid, ln, idx)
    if k == "data":
        t = sim.pick(tuple(INT) + (0, 255, 3, 4, 9, 10, 12))
        if t in INT:
            x, e = integer(sim, *INT[t][1:])
        elif t in (0, 255):
            x, e = None, b""
        elif t == 3:
            x = bool(sim.draw(2))
            e = bytes([x])
        elif t == 4:
            n = sim.pick((0, 1, 7, 8, 9, 16, 130))
            x = [sim.draw(2) for _ in range(min(n, 16))] + [1] * max(0, n - 16)
            s = "".join(map(str, x)) + "0" * (-n % 8)
            e = A.length(n) + bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))
        elif t == 9:
            x = octets(sim)
            e = A.length(len(x)) + x
        else:
            x = bytes(0x20 + c % 0x5F for c in octets(sim)).decode()
            if t == 12 and sim.chance(0.5):
                x += "Ж€"
            e = A.length(len(x.encode())) + x.encode()
        return k, bytes([t]) + e, (t, x)
    if k == "record":
        parts, exp = b"", []
        f = sim.draw(2)
        parts += bytes([f]); exp.append(bool(f))
        n = sim.pick((0, 1, 8, 11))
        bits = [sim.draw(2) for _ in range(n)]
        s = "".join(map(str, bits)) + "0" * (-n % 8)
        parts += A.length(n) + bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8)); exp.append(bits)
        o = octets(sim)
        parts += A.length(len(o)) + o; exp.append(o)
        x = "abc"[:sim.draw(4)]
        parts += A.length(len(x)) + x.encode(); exp.append(x)
        x = sim.pick(("", "ok", "Ток"))
        parts += A.length(len(x.encode())) + x.encode(); exp.append(x)
        v = sim.pick((None, 0, -5, 1000))
        parts += b"\0" if v is None else b"\1" + v.to_bytes(2, "big", signed=True); exp.append(v)
        o = sim.bytes(6)
        parts += o; exp.append(o)
        x, e = integer(sim, 4, 0)
        parts += e; exp.append(x)
        return k, parts, exp
    if k == "select":
        s = sim.int(1, 4)
        if s == 1:
            tree = (0, b"")
        elif s == 2:
            tree = (1, [(18, sim.draw(65536).to_bytes(2, "big")) for _ in range(sim.int(0, 3))])
        else:
            oid = lambda: (2, [(18, sim.draw(200).to_bytes(2, "big")), (9, sim.bytes(6))])
            tree = (1, [oid() for _ in range(sim.int(0, 3))]) if s == 3 else oid()
        return k, bytes([s]) + A.encode(tree), (s, tree)
    if k == "int":
        t = sim.pick((15, 16, 17, 18, 5, 6, 20, 21))
        x, e = integer(sim, *INT[t][1:])
        return k, e, (t, x)
    x = sim.draw(16) | sim.draw(2) << 6 | sim.draw(2) << 7
    return k, bytes([x]), x


def read(k, exp, b):
    ut = M.ut
    T = {"attr": ut.CosemAttributeDescriptor, "meth": ut.CosemMethodDescriptor, "data": ut.Data, "record": M.Rec,
         "select": M.assoc.SelectiveAccessDescriptor, "invoke": ut.InvokeIdAndPriority}.get(k)
    if T is None:
        T = getattr(ut, INT[exp[0]][0])
    return T.from_contents(b)


def compare(sim, k, exp, v, e):
    ut = M.ut
    if k in ("attr", "meth"):
        i = v.attribute_id if k == "attr" else v.method_id
        got = (int(v.class_id), bytes(v.instance_id.value), int(i))
    elif k == "data":
        el = env.chosen(v)
        got = (el.tag, None if isinstance(v.value, ut.Null) else v.value.value)
    elif k == "record":
        o = v.opt.value
        got = [bool(v.flag), v.bits.value, v.octets.value, v.text.value, v.utf.value, None if o is ut.NULL else int(o), bytes(v.fixed.value), int(v.last)]
    elif k == "select":
        got = (int(v.access_selector), A.decode(v.access_parameters.encoding)[0])
    elif k == "int":
        got = (exp[0], int(v))
    else:
        got = v.invoke_id | int(v.service_class) | int(v.priority)
        sim.check(got & 0x4F == exp & 0x4F, "pdu-value", f"{e.hex()} read as {got:#x}")
        sim.check(got == exp, "invoke-priority" if got == exp & 0x4F | (exp & 0x40) << 1 else "pdu-value", f"invoke-id-and-priority {e.hex()} is read as {got:#04x}: the priority is taken from the service class bit")
        return got == exp
    sim.check(got == exp, "pdu-value", f"{k} {e.hex()} read as {got!r} expected {exp!r}")
    return True


def pdus(sim):
    """the client sends PDUs in datagrams (possibly cut, damaged, repeated or reordered), the meter reads and answers by echoing"""
    flight = []
    for _ in sim.steps(8, 4):
        k, e, exp = gen_item(sim)
        flight.append((k, e, exp, len(e)))
        if sim.chance(0.1):
            flight.append((k, e, exp, len(e)))
            sim.fault("duplicate")
    i = 0
    while i + 1 < len(flight):
        if sim.chance(0.1):
            flight[i], flight[i + 1] = flight[i + 1], flight[i]
            sim.fault("reorder")
        i += 1
    for k, e, exp, n in flight:
        tail = b""
        wire = e
        cut = sim.chance(0.2)
        if cut and k != "select" or (cut and len(e) > 1):
            n = sim.draw(len(e))
            wire = e[:n]
            sim.fault("cut", k, n)
            try:
                v = read(k, exp, wire)
            except LOCAL + ((IndexError,) if k == "select" else ()):
                sim.probe("cut refused")
                continue
            if k == "data" and exp[0] in (0, 255) and n:
                continue
            sim.fail("cut-pdu-accepted", f"{k} {wire.hex()} of {e.hex()} read as {v}")
            continue
        if sim.chance(0.15):
            j = sim.draw(len(e))
            wire = e[:j] + bytes([e[j] ^ (1 + sim.draw(255))]) + e[j + 1:]
            sim.fault("damage", k, j)
            try:
                v = read(k, exp, wire)
                out = v.contents
            except LOCAL + ((IndexError,) if k == "select" else ()):
                sim.probe("damage refused")
                continue
            # what was read is a value: reading its octets gives it again
            try:
                again = read(k, exp, out).contents
            except LOCAL as err:
                sim.fail("pdu-unstable", f"{k} {wire.hex()} read, encoded as {out.hex()}, refused then: {err}")
                continue
            if k != "invoke":
                sim.check(again == out, "pdu-unstable", f"{k} {wire.hex()} -> {out.hex()} -> {again.hex()}")
            continue
        if k == "record" and sim.chance(0.1):
            """other octets for true, octets which are no text"""
            head = e[:-10 - (3 if exp[5] is not None else 1)]
            wire, want = e, list(exp)
            how = sim.pick(("flag", "optional", "utf"))
            if how == "flag":
                wire, want[0] = bytes([sim.int(1, 255)]) + e[1:], True
            elif how == "optional" and exp[5] is not None:
                wire = head + bytes([sim.int(1, 255)]) + e[len(head) + 1:]
            elif how == "utf":
                bad = sim.pick((b"\xff", b"\xd0", b"\xe2\x82", b"\x80"))
                u = exp[4].encode()
                wire = head[:len(head) - len(u) - 1] + A.length(len(u) + len(bad)) + u + bad + e[len(head):]
            sim.fault("other_octets", how)
            try:
                v = read(k, exp, wire)
            except LOCAL as err:
                sim.check(how == "utf", "pdu-refused", lambda: f"{k} {wire.hex()}: {type(err).__name__} {err}")
                continue
            sim.check(how != "utf", "cut-pdu-accepted", lambda: f"{k} {wire.hex()} read as {v}: text {v.utf.value!r}")
            o = v.opt.value
            got = [bool(v.flag), v.bits.value, v.octets.value, v.text.value, v.utf.value, None if o is M.ut.NULL else int(o), bytes(v.fixed.value), int(v.last)]
            sim.check(got == want, "pdu-value", lambda: f"{k} {wire.hex()} read as {got}, expected {want}")
            continue
        if k != "select" and sim.chance(0.3):
            tail = sim.bytes(sim.int(1, 4))
            sim.faults["more_octets_follow"] += 1
        try:
            v = read(k, exp, wire + tail)
        except LOCAL as err:
            sim.fail("pdu-refused", f"{k} {e.hex()} + {tail.hex()}: {type(err).__name__} {err}")
            continue
        sim.log(k, e.hex())
        if compare(sim, k, exp, v, e):
            sim.check(v.contents == e, "pdu-octets", f"{k} {e.hex()} encoded as {v.contents.hex()}")
        built(sim, k, exp, e, v)
        sim.state(k, exp[0] if k in ("data", "int", "select") else 0, len(e) > 127)


def built(sim, k, exp, e, v):
    """the same PDU built from its parts"""
    ut = M.ut
    if k == "attr" or k == "meth":
        T, I = (ut.CosemAttributeDescriptor, ut.CosemObjectAttributeId) if k == "attr" else (ut.CosemMethodDescriptor, ut.CosemObjectMethodId)
        for ln in (ut.CosemObjectInstanceId(exp[1]), ut.CosemObjectInstanceId.from_str(".".join(map(str, exp[1])))):
            b = T(ut.CosemClassId(exp[0]), ln, I(exp[2]))
            sim.check(b.contents == e, "pdu-octets", f"{k} built from {exp}: {b.contents.hex()}")
        sim.check(b == v, "pdu-equality", f"{b} {v}")
        ln = M.cdt and exp[1]
        sim.check(str(v.instance_id) == ".".join(map(str, ln)), "pdu-text", str(v.instance_id))
        # one field told otherwise: another descriptor
        j = sim.draw(3)
        o = T(ut.CosemClassId(exp[0] ^ (1 << sim.draw(16) if j == 0 else 0)), ut.CosemObjectInstanceId(bytes(x ^ (i == 0 and j == 1) for i, x in enumerate(exp[1]))),
              I(-1 - exp[2] if j == 2 else exp[2]))
        sim.check(not o == b and o.contents != e, "pdu-equality", lambda: f"{o} equals {b}")
        # a text which tells some groups only: 0, the last 255
        n = sim.int(1, 6)
        gs = [sim.draw(256) if sim.chance(0.7) else None for _ in range(n)]
        text = ".".join("" if g is None else str(g) for g in gs)
        want = bytes(g if g is not None else 255 if i == 5 else 0 for i, g in enumerate(gs + [None] * (6 - n)))
        got = ut.CosemObjectInstanceId.from_str(text)
        sim.check(got.contents == want, "pdu-text", lambda: f"instance {text!r} is {got.contents.hex()}, expected {want.hex()}")
        bad = sim.pick((".".join(map(str, exp[1][:5])) + ".256", "1.0.300.0.0.255", "-1.0.0.0.0.255", "1.0.x.0.0.255", text + ".." * 6 + "1"))
        try:
            got = ut.CosemObjectInstanceId.from_str(bad)
            sim.fail("pdu-text", f"instance {bad!r} is {got.contents.hex()}")
        except LOCAL:
            sim.probe("wrong name refused")
    elif k == "int":
        b = getattr(ut, INT[exp[0]][0])(exp[1])
        c = type(b).from_str(str(exp[1]))
        sim.check(b.contents == e and c.contents == e and b == v and hash(b) == hash(v) and str(v) == str(exp[1]), "pdu-octets", f"{exp}: {b.contents.hex()}")
        w = type(b)(0)
        sim.check((v > w) == (exp[1] > 0) and not v > b, "pdu-order", f"{exp}")
        lo, hi = (-(1 << (8 * len(v) - 1)), (1 << (8 * len(v) - 1)) - 1) if INT[exp[0]][2] else (0, (1 << 8 * len(v)) - 1)
        x = sim.pick((lo - 1, hi + 1, 1 << 70))
        try:
            w = sim.pick((type(b), lambda x: type(b).from_str(str(x))))(x)
            sim.fail("pdu-octets", f"{type(b).__name__} of {x} is {w.contents.hex()}")
        except LOCAL + (OverflowError,):
            sim.probe("too big refused")
    elif k == "invoke":
        b = ut.InvokeIdAndPriority(exp & 15, ut.ServiceClass(bool(exp & 0x40)), ut.Priority(bool(exp & 0x80)))
        sim.check(b.contents == e, "pdu-octets", f"invoke {exp:#x}: {b.contents.hex()}")
    elif k == "select":
        b = M.assoc.SelectiveAccessDescriptor()
        b.set_selector(exp[0], A.encode(exp[1]))
        sim.check(b.contents == e, "pdu-octets", f"select {exp}: {b.contents.hex()}")
        d = M.ut.CosemAttributeDescriptorWithSelection((ut.CosemAttributeDescriptor(ut.CosemClassId(15), ut.CosemObjectInstanceId(b"\0\0\x28\0\0\xff"), ut.CosemObjectAttributeId(2)), b))
        sim.check(d.contents == b"\0\x0f\0\0\x28\0\0\xff\2\1" + e, "pdu-octets", d.contents.hex())
    elif k == "record" and len(v.bits):
        """bits are changed one by one, the record sent again"""
        bits, before = list(v.bits.value), bytes(v.bits.contents)
        for _ in range(sim.int(1, 4)):
            i = sim.draw(len(bits))
            if sim.chance(0.5):
                v.bits.inverse(i)
                bits[i] ^= 1
            else:
                b = sim.pick((0, 1, True, False))
                v.bits[i] = b
                bits[i] = int(b)
        if sim.chance(0.1):
            v.bits.clear()
            bits = [0] * len(bits)
        t = "".join(map(str, bits))
        want = A.length(len(bits)) + bytes(int((t + "0" * 7)[j:j + 8], 2) for j in range(0, len(t), 8))
        sim.check(v.bits.contents == want and str(v.bits) == t, "pdu-bits", lambda: f"{before.hex()} changed to {t}: {v.bits.contents.hex()}")
        sim.check(v.contents == e.replace(before, want, 1) or before != want and e.count(before) > 1, "pdu-octets", lambda: f"{e.hex()} with bits {t}: {v.contents.hex()}")
    elif k == "data":
        t, x = exp
        if t == 3:
            sim.check(ut.BOOLEAN.from_str(str(x)) == v.value and ut.BOOLEAN.from_int(int(x)) == v.value, "pdu-text", str(x))
        told = {0: "", 255: "", 3: str(x), 4: "".join(map(str, x)) if t == 4 else ""}.get(t, str(x))
        if t == 9:
            told = x.decode("ascii") if x.isascii() else None
        if told is not None:
            b = ut.Data.from_str(f"{t} {told}")
            sim.check(b.contents == e and b == v and str(b) == str(v), "pdu-text", lambda: f"data {t} {told!r} is {b.contents.hex()}, expected {e.hex()}")
        sim.check(ut.Data(v.value).contents == e, "pdu-octets", lambda: f"{e.hex()} put in a choice again: {ut.Data(v.value).contents.hex()}")
    if k == "record" and sim.chance(0.5):
        n = sim.pick((0, 5, 7, 12))
        size, T = sim.pick(((4, ut.OctetString4), (5, ut.OctetString5), (6, ut.OctetString6), (8, ut.OctetString8), (12, ut.OctetString12), (6, ut.CosemObjectInstanceId)))
        d = sim.bytes(n)
        try:
            w = T(d)
            sim.check(n == size and w.contents == d and bytes(w) == d, "pdu-octets", lambda: f"{T.__name__} of {d.hex()}: {w.contents.hex()}")
        except LOCAL:
            sim.check(n != size, "pdu-refused", f"{T.__name__} of {d.hex()}")


CHECK = Check(
    id="C08",
    scenarios=[Scenario("pdus", pdus, 160000, 600_000, 400)],
    rule="pdus: 1..8 request/data PDUs per run through a datagram channel that cuts, damages, repeats, reorders; non-trivial: a fault counted; distinct: different event log",
    real=["types.useful_types", "types.cosemClassID", "association_ln selective access"],
    stub=["client, meter and datagram channel (simulated)", "reference codec"],
    setup=setup,
)
