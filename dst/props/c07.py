"""C07 - data values survive fragmented, cut and damaged transport: the exact value and remainder, or a refusal."""
import math

from ..engine import Check, Scenario
from .. import env
from .. import axdr_ref as A


class M:
    cdt = None


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        from src.DLMS_SPODES.types import cdt
        from src.DLMS_SPODES.cosem_interface_classes.association_ln import ver0, ver1
        from src.DLMS_SPODES.cosem_interface_classes.association_ln import authentication_mechanism_name as amn
    M.cdt = cdt
    M.CTX, M.MECH = ver1.ContextNameType, ver1.MechanismNameType


LOCAL = (ValueError, TypeError, OverflowError)


def compare(sim, v, tree, where="value"):
    tag, p = tree
    sim.check(v.TAG == bytes([tag]), "type-wrong", f"{where}: {v.TAG!r} expected tag {tag}")
    if tag in (1, 2):
        sim.check(len(v.values) == len(p), "element-count", f"{where}: {len(v.values)} expected {len(p)}")
        for i, (a, b) in enumerate(zip(v.values, p)):
            compare(sim, a, b, f"{where}[{i}]")
            sim.check(v[i] is a, "element-index", where)
    elif tag == 4:
        sim.check(v.decode() == A.value(tree) and len(v) == p[0], "value-wrong", f"{where}: bits {v.decode()} expected {A.value(tree)}")
    else:
        sim.check(bytes(v.contents) == p, "octets-wrong", f"{where} tag {tag}: {v.contents.hex()} expected {p.hex()}")
        ref = A.value(tree)
        if ref is not NotImplemented:
            got = v.decode()
            same = got == ref and type(got) is type(ref) or (isinstance(ref, float) and math.isnan(ref) and math.isnan(got))
            sim.check(same, "value-wrong", f"{where} tag {tag} {p.hex()}: {got!r} expected {ref!r}")
        if tag in (10, 12) and all(0x20 <= x < 0x7F for x in p):
            sim.check(str(v) == p.decode("ascii"), "value-wrong", f"{where}: {v} expected {p}")
        if tag in (25, 26, 27):
            times(sim, v, tag, p, where)


def times(sim, v, tag, p, where):
    """fields of date/time values: unspecified is None, the rest as sent"""
    d = p[:5] if tag in (25, 26) else None
    t = p[5:9] if tag == 25 else p if tag == 27 else None
    dec = v.decode()
    if d:
        y = d[0] * 256 + d[1]
        sim.check(v.year == (None if y == 0xFFFF else y), "date-field", f"{where} year {v.year} of {p.hex()}")
        if d[2] < 0xFD:
            sim.check(v.month == d[2] and dec.month == d[2], "date-field", f"{where} month {v.month} of {p.hex()}")
        if d[3] < 0xFD and d[2] < 0xFD:
            sim.check(v.day == d[3] and dec.day == d[3], "date-field", f"{where} day {v.day} of {p.hex()}")
        sim.check(v.weekday == (None if d[4] == 0xFF else d[4]), "date-field", f"{where} weekday {v.weekday} of {p.hex()}")
    if t:
        got = (v.hour, v.minute, v.second, v.hundredths)
        sim.check(got == tuple(None if x == 0xFF else x for x in t), "time-field", f"{where} {got} of {p.hex()}")
        sim.check((dec.hour, dec.minute, dec.second, dec.microsecond // 10000) == tuple(0 if x == 0xFF else x for x in t), "time-field", f"{where} {dec} of {p.hex()}")
    if tag == 25:
        dev = int.from_bytes(p[9:11], "big", signed=True)
        tz = v.time_zone
        sim.check((tz is None) == (dev == -0x8000), "deviation", f"{where} {tz} of {p.hex()}")
        if tz is not None:
            for off in (tz.utcoffset(None), dec.utcoffset()):
                sim.check(off.total_seconds() == dev * 60, "deviation", f"{where} {off} of deviation {dev}")


def stream(sim):
    """a meter sends values one after the other; the client decodes what has arrived after every read"""
    cdt = M.cdt
    trees, wire = [], b""
    long_forms = sim.chance(0.3)

    def form(n):
        if long_forms and sim.chance(0.4):
            sim.faults["long_length_form"] += 1
            return sim.pick([k for k in (1, 2, 3, 4) if n < 1 << (8 * k)])
        return 0
    for _ in sim.steps(4, 2):
        t = A.gen(sim)
        trees.append(t)
        wire += A.encode(t, form)
    if not wire:
        return
    damage = sim.chance(0.35)
    if damage:
        for _ in range(sim.int(1, 2)):
            k = sim.draw(len(wire))
            kind = sim.draw(3)
            if kind == 0:
                wire = wire[:k] + bytes([wire[k] ^ (1 + sim.draw(255))]) + wire[k + 1:]
            elif kind == 1 and len(wire) > 1:
                wire = wire[:k] + wire[k + 1:]
            else:
                wire = wire[:k] + bytes([sim.draw(256)]) + wire[k:]
            sim.fault("damaged_stream", kind, k)
    if sim.chance(0.3):
        k = sim.draw(len(wire) + 1)
        sim.fault("cut_stream", k, "of", len(wire))
        wire = wire[:k]
    # arrivals
    at, buf, got = 0, b"", []
    while at < len(wire):
        n = sim.weighted([(2, len(wire)), (2, 1), (3, sim.int(1, 20))])
        buf += wire[at:at + n]
        at += n
        while buf:
            try:
                tree, end = A.decode(buf)
                verdict = "ok"
            except A.Cut:
                verdict = "cut"
            except A.Bad:
                verdict = "bad"
            try:
                v, rest = cdt.get_instance_and_pdu_from_value(buf)
            except LOCAL as e:
                if verdict == "ok":
                    sim.check(damage and A.has_time(tree), "value-refused", f"{buf[:end].hex()}: {type(e).__name__} {e}")
                    return
                sim.log("refused", verdict)
                sim.probe("refused " + verdict)
                if verdict == "cut":
                    break
                return
            if verdict != "ok":
                sim.fail("cut-value-accepted" if verdict == "cut" else "bad-value-accepted", f"{buf.hex()} decoded as {v.encoding.hex()}, left {rest.hex()}")
                return
            sim.check(rest == buf[end:], "remainder-wrong", f"{buf.hex()}: left {rest.hex()} expected {buf[end:].hex()}")
            if damage and A.has_time(tree):
                got.append(v)
            else:
                compare(sim, v, tree)
            canon = A.encode(tree)
            sim.check(v.encoding == canon, "encoding-wrong", f"{buf[:end].hex()} encoded as {v.encoding.hex()} expected {canon.hex()}")
            c = v.copy()
            sim.check(c == v and c.encoding == canon and c is not v and v == canon, "copy-differs", f"{canon.hex()} copy {c.encoding.hex()}")
            buf = buf[end:]
            got.append(v)
            sim.log("value", canon.hex())
            sim.state(tree[0], len(canon) > 127, long_forms, damage)
    if not damage and not sim.faults.get("cut_stream"):
        sim.check(len(got) == len(trees) and buf == b"", "value-lost", f"{len(got)} of {len(trees)}")
        sim.probe("all values")


def large(sim):
    """values longer than 65535 octets, alone and as elements"""
    cdt = M.cdt
    n = sim.pick((65535, 65536, 65537, 70000, 131072 + 5))
    bits = sim.chance(0.3)
    size = n - sim.draw(8) if bits else n
    octets = bytes(size + 7 >> 3) if bits else bytes((sim.draw(256),)) * size
    tag = 4 if bits else sim.pick((9, 9, 10))
    body = bytes((tag,)) + A.length(size) + octets
    other = b"\x11" + bytes((sim.draw(256),))
    where = sim.draw(3)
    wire = body if where == 0 else b"\x02\x02" + (body + other if where == 1 else other + body)
    rest = sim.bytes(sim.draw(4))
    sim.log("large", tag, size, where, len(rest))
    sim.faults["large_value"] += 1
    if sim.chance(0.4):
        k = sim.pick((1, 2, 3, 4, 5, 6, len(wire) // 2, len(wire) - 65536 if len(wire) > 65536 else 7, len(wire) - 1, sim.draw(len(wire))))
        sim.fault("cut_stream", k)
        try:
            v, left = cdt.get_instance_and_pdu_from_value(wire[:k])
        except LOCAL:
            return
        sim.fail("cut-value-accepted", f"{k} of {len(wire)} octets of a value accepted, left {len(left)}")
        return
    try:
        v, left = cdt.get_instance_and_pdu_from_value(wire + rest)
    except LOCAL as e:
        sim.fail("value-refused", f"{wire[:10].hex()}... of {len(wire)}: {type(e).__name__} {str(e)[:80]}")
        return
    sim.check(left == rest, "remainder-wrong", f"value of {len(wire)} octets left {len(left)}, expected {len(rest)}")
    sim.check(v.encoding == wire, "encoding-wrong", f"{wire[:10].hex()}... of {len(wire)} is encoded as {v.encoding[:10].hex()}... of {len(v.encoding)}")
    got = v if where == 0 else v[where - 1]
    sim.check(bytes(got.contents) == octets and len(got) == size, "octets-wrong", f"{len(got.contents)} octets, length {len(got)}")


def oid(sim):
    """context and mechanism names in both of their forms"""
    for _ in sim.steps(4, 3):
        T = M.CTX if sim.chance(0.5) else M.MECH
        first = sim.pick((2, 0, 1))
        el = [first, sim.draw(40) if first < 2 else sim.pick((16, sim.draw(40))), sim.pick((756, sim.draw(65536))), sim.pick((5, sim.draw(256))), sim.pick((8, sim.draw(256)))]
        kind = T.ELEMENTS
        tail = [sim.pick((1, 2)) if T is M.CTX else 2, sim.int(0, 3) if T is M.CTX else sim.int(0, 5)]
        el += tail
        out = bytes([40 * el[0] + el[1]])
        for x in el[2:]:
            part = bytes([x & 0x7F])
            x >>= 7
            while x:
                part = bytes([0x80 | x & 0x7F]) + part
                x >>= 7
            out += part
        enc = b"\x09" + A.length(len(out)) + out
        sim.log("oid", enc.hex())
        if sim.chance(0.3):
            n = sim.draw(len(enc))
            sim.fault("cut_stream", n)
            try:
                T(enc[:n])
            except (ValueError, IndexError, TypeError):
                continue
            sim.fail("cut-value-accepted", f"{enc[:n].hex()} of {enc.hex()}")
            continue
        if sim.chance(0.3):
            bad = bytearray(out)
            kind = sim.draw(3)
            if kind == 0:
                bad.append(sim.draw(128))
            elif kind == 1:
                while len(bad) > 1 and bad[-2] & 0x80:
                    bad.pop()
                bad.pop()
            else:
                bad[-1] |= 0x80
            sim.fault("damaged_name", kind)
            try:
                v = T(b"\x09" + A.length(len(bad)) + bytes(bad))
            except (ValueError, IndexError):
                continue
            sim.fail("bad-value-accepted", f"{bytes(bad).hex()} = {[x and int(x) for x in v.values]}")
            continue
        try:
            v = T(enc)
        except ValueError:
            sim.probe("name refused")
            continue
        sim.faults["oid_form"] += 1
        sim.check([int(x) for x in v.values] == el, "value-wrong", f"{enc.hex()} = {[int(x) for x in v.values]} expected {el}")
        sim.check(v.encoding == enc, "encoding-wrong", f"{enc.hex()} encoded as {v.encoding.hex()}")


CHECK = Check(
    id="C07",
    scenarios=[Scenario("stream", stream, 300000, 2_000_000, 1000), Scenario("oid", oid, 50000, 200_000, 1000),
               Scenario("large", large, 2000, 20_000, 100)],
    rule="stream: 1..4 nested data values sent through a fragmenting, cutting, damaging transport and decoded after every arrival; oid: object identifier "
         "forms of context and mechanism names; large: values of more than 65535 octets, whole or cut; non-trivial: a fault or a long length form; distinct: different event log",
    real=["types.common_data_types (all data types, get_instance_and_pdu, length octets)", "association_ln name types (AXDR)"],
    stub=["meter encoder and transport (simulated, independent reference codec)"],
    setup=setup,
)
