"""C06 - several writers and readers of bounded pdu buffers: operations are exact or refused."""
from ..engine import Check, Scenario
from .. import env

LOCAL = (BufferError, ValueError, TypeError, IndexError)


class M:
    P = None
    BB = None


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        from src.DLMS_SPODES.types import cosem_pdu, byte_buffer
    M.P = cosem_pdu
    M.BB = byte_buffer.ByteBuffer
    P = cosem_pdu

    class Rec(P.Sequence):
        a: P.Unsigned8
        b: P.OctetString
        c: P.OPTIONAL(P.Integer16)
    M.Rec = Rec
    M.Ints = P.SEQUENCE_OF(P.Unsigned16)


# ---- independent reference -------------------------------------------------------------------------------------------
def ref_len(n: int) -> bytes:
    if n < 0x80:
        return bytes([n])
    for k in (1, 2, 4):
        if n < 1 << (8 * k):
            return bytes([0x80 | k]) + n.to_bytes(k, "big")
    k = (n.bit_length() + 7) // 8
    return bytes([0x80 | k]) + n.to_bytes(k, "big")


class Buf:
    """one buffer handle: window [lo, hi) of shared storage, own position"""

    def __init__(self, real, store, lo, hi, ro):
        self.real, self.store, self.lo, self.hi, self.ro, self.pos = real, store, lo, hi, ro, 0

    def __len__(self):
        return self.hi - self.lo

    def mem(self):
        return bytes(self.store[self.lo:self.hi])


def verify(sim, h: Buf, what):
    sim.check(bytes(h.real) == h.mem(), "buffer-content", f"after {what}: {bytes(h.real).hex()} expected {h.mem().hex()}")
    sim.check(h.real.get_pos() == h.pos, "buffer-position", f"after {what}: position {h.real.get_pos()} expected {h.pos}")
    sim.check(h.real.remaining() == len(h) - h.pos and len(h.real) == len(h), "buffer-remaining", what)


def attempt(sim, h, what, fn, ok, atomic=True):
    """run fn; ok: the reference says it is possible"""
    try:
        r = fn()
    except LOCAL as e:
        if ok:
            sim.fail("operation-refused", f"{what} on {len(h)} octets at {h.pos}: {type(e).__name__} {e}")
        sim.faults["short_buffer" if not h.ro else "read_only"] += 1
        sim.log(what, "refused", type(e).__name__)
        return False, None
    if not ok:
        sim.fail("operation-accepted", f"{what} on {len(h)} octets (read only: {h.ro}) at {h.pos} returned {r!r}")
    sim.log(what, "ok")
    return True, r


def storage(sim):
    P = M.P
    n = sim.weighted([(3, sim.int(0, 40)), (2, sim.int(100, 300)), (1, 70000)])
    kind = sim.pick((M.BB, P.Buffer, P.Buffer))
    handles = []
    if sim.chance(0.2):
        data = sim.blob(n)
        handles.append(Buf(kind.wrap(data), bytearray(data), 0, n, True))
    else:
        handles.append(Buf(kind.allocate(n), bytearray(n), 0, n, False))
    for _ in sim.steps(60, 25):
        h = sim.pick(handles)
        b = h.real
        left = len(h) - h.pos
        op = sim.draw(14 if isinstance(b, P.Buffer) else 10)
        size = sim.weighted([(4, sim.int(0, 6)), (2, max(0, left - sim.int(0, 2))), (2, left + sim.int(0, 2)), (1, sim.int(0, n + 2))])
        if op == 0:
            d = sim.blob(size)
            exp = None if sim.chance(0.5) or not size else size
            ok = size <= left and not h.ro
            done, r = attempt(sim, h, f"write {size}", lambda: b.write(d if sim.chance(0.5) else memoryview(d), exp), ok)
            if done:
                h.store[h.lo + h.pos:h.lo + h.pos + size] = d
                h.pos += size
                sim.check(r == size, "operation-result", f"write returned {r} for {size}")
        elif op == 1:
            at = sim.pick((0, h.pos, sim.int(0, len(h)), sim.int(0, len(h) + 2)))
            d = sim.blob(size)
            ok = at + size <= len(h) and not h.ro
            done, r = attempt(sim, h, f"write_pos {size}@{at}", lambda: b.write_pos(d, at), ok)
            if done:
                h.store[h.lo + at:h.lo + at + size] = d
                sim.check(r == size, "operation-result", f"write_pos returned {r} for {size}")
        elif op == 2:
            done, r = attempt(sim, h, f"read {size}", lambda: b.read(size), size <= left)
            if done:
                sim.check(bytes(r) == bytes(h.mem()[h.pos:h.pos + size]), "octets-read", f"read {size} at {h.pos}: {bytes(r).hex()}")
                h.pos += size
        elif op == 3:
            at = sim.pick((0, h.pos, sim.int(0, len(h)), sim.int(0, len(h) + 2)))
            done, r = attempt(sim, h, f"read_pos {size}@{at}", lambda: b.read_pos(at, size), at + size <= len(h))
            if done:
                sim.check(bytes(r) == bytes(h.mem()[at:at + size]), "octets-read", f"read_pos {size} at {at}: {bytes(r).hex()}")
        elif op == 4:
            v = sim.draw(256)
            done, r = attempt(sim, h, f"put_int {v}", lambda: b.put_int(v), left >= 1 and not h.ro)
            if done:
                h.store[h.lo + h.pos] = v
                h.pos += 1
        elif op == 5:
            w = sim.int(1, 8)
            done, r = attempt(sim, h, f"get_uint {w}", lambda: b.get_uint(w), w <= left)
            if done:
                sim.check(r == int.from_bytes(h.mem()[h.pos:h.pos + w], "big"), "octets-read", f"get_uint {w} = {r}")
                h.pos += w
        elif op == 6:
            which = sim.draw(3)
            at = sim.int(0, len(h))
            w = sim.int(1, 4)
            if which == 0:
                done, r = attempt(sim, h, "get_uint8", b.get_uint8, left >= 1)
                if done:
                    sim.check(r == h.mem()[h.pos], "octets-read", f"get_uint8 = {r}")
                    h.pos += 1
            elif which == 1:
                done, r = attempt(sim, h, "get", b.get, left >= 1)
                if done:
                    sim.check(r == h.mem()[h.pos:h.pos + 1], "octets-read", f"get = {r}")
                    h.pos += 1
            else:
                done, r = attempt(sim, h, f"get_uint_pos {w}@{at}", lambda: b.get_uint_pos(at, w), at + w <= len(h))
                if done:
                    sim.check(r == int.from_bytes(h.mem()[at:at + w], "big"), "octets-read", f"get_uint_pos {w}@{at} = {r}")
        elif op == 7:
            at = sim.pick((0, len(h), sim.int(0, len(h)), len(h) + sim.int(1, 3)))
            done, r = attempt(sim, h, f"set_pos {at}", lambda: b.set_pos(at), 0 <= at <= len(h))
            if done:
                h.pos = at
        elif op == 8 and len(handles) < 5:
            handles.append(Buf(b.slice(), h.store, h.lo + h.pos, h.hi, h.ro))
            sim.log("slice at", h.pos)
            sim.probe("slice shares storage")
        elif op == 9 and len(handles) < 5:
            handles.append(Buf(b.frozen(), bytearray(h.mem()), 0, len(h), True))
            sim.log("frozen copy")
        elif op == 10:
            v = sim.pick((0, 1, 0x7F, 0x80, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFFFF, sim.draw(1 << 30), 1 << 32, (1 << 40) + sim.draw(1 << 20)))
            e = ref_len(v)
            if v >= 1 << 32 and len(e) > left:
                continue                       # two primitive writes: not one operation
            done, r = attempt(sim, h, f"put_len {v}", lambda: b.put_len(v), len(e) <= left and not h.ro)
            if done:
                h.store[h.lo + h.pos:h.lo + h.pos + len(e)] = e
                h.pos += len(e)
                sim.check(r == len(e), "operation-result", f"put_len {v} returned {r}")
                sim.check(P.encode_length(v) == e and P.decide_len(v) == len(e), "length-octets", f"{v}: {P.encode_length(v).hex()} / {P.decide_len(v)} expected {e.hex()}")
        elif op in (11, 12):
            # a reader meets whatever is at the position
            rest = h.mem()[h.pos:]
            ok, val, used = False, None, 0
            if rest:
                if rest[0] < 0x80:
                    ok, val, used = True, rest[0], 1
                else:
                    k = rest[0] & 0x7F
                    if len(rest) > k:
                        ok, val, used = True, int.from_bytes(rest[1:1 + k], "big"), 1 + k
            if op == 11:
                start = h.pos
                done, r = attempt(sim, h, "get_length", b.get_length, ok)
                if done:
                    sim.check(r == val, "length-octets", f"{rest[:9].hex()} read as {r} expected {val}")
                    h.pos += used
                else:
                    h.pos = b.get_pos()
                    sim.check(start <= h.pos <= start + 1, "buffer-position", "after a refused length")
            else:
                ok = ok and used + val <= len(rest)
                start = h.pos
                done, r = attempt(sim, h, "read_by_length", b.read_by_length, ok)
                if done:
                    sim.check(bytes(r) == rest[used:used + val], "octets-read", f"read_by_length {val}")
                    h.pos += used + val
                else:
                    h.pos = b.get_pos()
                    sim.check(start <= h.pos <= start + max(used, 1), "buffer-position", "after a refused read_by_length")
        elif op == 13:
            d = sim.blob(min(size, 300))
            e = ref_len(len(d)) + d
            ok = len(e) <= left and not h.ro
            start = h.pos
            done, r = attempt(sim, h, f"write_with_length {len(d)}", lambda: b.write_with_length(d), ok)
            if done:
                h.store[h.lo + h.pos:h.lo + h.pos + len(e)] = e
                h.pos += len(e)
                sim.check(r == len(e), "operation-result", f"write_with_length {len(d)} returned {r}")
            else:
                h.pos = b.get_pos()
                k = h.pos - start
                sim.check(k in (0, len(e) - len(d)), "buffer-position", "after a refused write_with_length")
                if k:
                    h.store[h.lo + start:h.lo + start + k] = e[:k]
        for o in handles:
            verify(sim, o, f"op {op}")
        sim.state(op, h.ro, left == 0, size > left)


# ---- typed values ----------------------------------------------------------------------------------------------------
def gen_data(sim, depth=0):
    """(octets, reference tree) of one Data value"""
    tags = [0, 3, 5, 6, 9, 13, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27, 255]
    t = sim.pick(tags + ([1, 2] * 3 if depth < 4 else []))
    fixed = {0: 0, 3: 1, 5: 4, 6: 4, 13: 1, 15: 1, 16: 2, 17: 1, 18: 2, 20: 8, 21: 8, 22: 1, 23: 4, 24: 8, 25: 12, 26: 5, 27: 4, 255: 0}
    if t in fixed:
        d = sim.blob(fixed[t])
        if t == 3 and sim.chance(0.5):
            d = bytes([d[0] & 1])
        return bytes([t]) + d, (t, d)
    if t == 9:
        n = sim.weighted([(4, sim.int(0, 5)), (1, sim.pick((127, 128, 255, 256, 300)))])
        d = sim.blob(n) if sim.chance(0.6) else b"abcXYZ0189" * (n // 10) + b"abcXYZ0189"[:n % 10]
        return bytes([9]) + ref_len(n) + d, (9, d)
    n = sim.weighted([(6, sim.int(0, 4)), (1, 130)]) if depth < 2 else sim.int(0, 2)
    if n == 130:
        e, x = gen_data(sim, 9)
        return bytes([t]) + ref_len(n) + e * n, (t, [x] * n)
    out, tree = bytes([t]) + ref_len(n), []
    for _ in range(n):
        e, x = gen_data(sim, depth + 1)
        out += e
        tree.append(x)
    return out, (t, tree)


SIGNED = {5, 13, 15, 16, 20}


def same(sim, v, tree):
    """the decoded value says what the reference tree says"""
    t, d = tree
    el = env.chosen(v)
    sim.check(el.tag == t, "data-tag", f"tag {t} read back as {el.tag}")
    if t in (1, 2):
        sim.check(len(v.value.values) == len(d), "data-count", f"{len(v.value.values)} elements expected {len(d)}")
        for i, (a, b) in enumerate(zip(v.value.values, d)):
            same(sim, a, b)
        if d:
            sim.check(v.value[0] is v.value.values[0] and v[0] is v.value.values[0], "data-index", "")
    else:
        sim.check(bytes(v.value.contents) == d, "data-octets", f"tag {t}: {bytes(v.value.contents).hex()} expected {d.hex()}")
        if isinstance(v.value, M.P.INTEGER):
            sim.check(int(v.value) == int.from_bytes(d, "big", signed=t in SIGNED), "data-int", f"tag {t} {d.hex()} = {int(v.value)}")


def text_of(sim, k, tree):
    """(class, text) which means the value, None: it has no text"""
    P = M.P
    word = lambda b: b.isascii() and b.decode("ascii", "replace").isalnum()
    if k == 0:
        t, d = tree
        if t in (5, 6, 13, 15, 16, 17, 18, 20, 21, 22):
            return P.Data, f"{t}:{int.from_bytes(d, 'big', signed=t in SIGNED)}"
        if t == 0:
            return P.Data, "0:"
        if t == 255:
            return P.Data, "255:"
        if t == 3 and d[0] < 2:
            return P.Data, sim.pick((f"3:{d[0]}", f"3:{bool(d[0])}"))
        if t == 9 and word(d):
            return P.Data, "9:" + d.decode()
    elif k == 1 and word(tree[1]):
        return M.Rec, f"{tree[0]} {tree[1].decode()} {'' if tree[2] is None else tree[2]}"
    elif k == 2 and tree:
        return M.Ints, sim.pick((";", "; ")).join(map(str, tree))
    elif k == 3:
        return tree[0], str(tree[1])
    return None


def blank(sim):
    """the default of a class, its octets"""
    P = M.P
    return sim.pick(((P.Data, b"\0"), (M.Rec, b"\0\0\0"), (M.Ints, b"\0"), (P.Unsigned8, b"\0"), (P.Integer16, bytes(2)), (P.Unsigned32, bytes(4)), (P.Integer64, bytes(8)),
                     (P.OctetString, b"\0"), (P.OctetString12, bytes(12)), (P.BOOLEAN, b"\0"), (P.NULL, b""), (P.OPTIONAL(P.Integer16), b"\0")))


def typed(sim):
    """a sender puts values one after the other in one buffer, a receiver takes them back from a possibly cut or damaged copy"""
    P = M.P
    items, wire, sent = [], b"", b""
    for _ in sim.steps(6, 3):
        k = sim.draw(4)
        if k == 0:
            e, tree = gen_data(sim)
        elif k == 1:
            a, o, c = sim.draw(256), sim.pick((sim.blob, lambda n: (b"octets7" * 40)[:n]))(sim.pick((0, 3, 127, 128, 260))), sim.pick((None, 0, 5, -2))
            e = bytes([a]) + ref_len(len(o)) + o + (b"\0" if c is None else b"\1" + c.to_bytes(2, "big", signed=True))
            tree = (a, o, c)
        elif k == 2:
            vals = [sim.draw(65536) for _ in range(sim.pick((0, 1, 3, 127, 128, 200)))] if sim.chance(0.3) else [sim.draw(65536)]
            e = ref_len(len(vals)) + b"".join(x.to_bytes(2, "big") for x in vals)
            tree = vals
        else:
            w, sg = sim.pick(((1, 0), (1, 1), (2, 0), (2, 1), (4, 0), (4, 1), (8, 0), (8, 1)))
            cls = {(1, 0): P.Unsigned8, (1, 1): P.Integer8, (2, 0): P.Unsigned16, (2, 1): P.Integer16, (4, 0): P.Unsigned32, (4, 1): P.Integer32,
                   (8, 0): P.Unsigned64, (8, 1): P.Integer64}[(w, sg)]
            lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if sg else (0, (1 << (8 * w)) - 1)
            x = sim.pick((0, 1, lo, hi, sim.draw(1 << 30) % (hi + 1)))
            e = x.to_bytes(w, "big", signed=bool(sg))
            tree = (cls, x)
        items.append((k, tree, e))
        wire += e
        if k == 1 and tree[2] is not None and sim.chance(0.1):
            sim.fault("another_octet_for_true")
            e = e[:-3] + bytes([sim.int(2, 255)]) + e[-2:]
        sent += e
        e = items[-1][2]
        said = text_of(sim, k, tree)
        if said is not None:
            try:
                v = said[0].from_str(said[1])
            except LOCAL as err:
                sim.fail("value-refused", f"text {said[1]!r}: {type(err).__name__} {err}")
                continue
            c = bytes(P.create_buf(v))
            sim.check(c == e and len(v) == len(e), "text-octets", lambda: f"{said[0].__name__} of {said[1]!r} is {c.hex()}, {len(v)} octets, expected {e.hex()}")
            sim.probe("built from text")
        if sim.chance(0.1):
            cls, e0 = blank(sim)
            v = cls.default()
            c = bytes(P.create_buf(v))
            sim.check(c == e0 and len(v) == len(e0), "default-octets", lambda: f"default of {cls.__name__} is {c.hex()}, {len(v)} octets, expected {e0.hex()}")
    if not items:
        return
    # receiver
    cut = sim.chance(0.4)
    got_wire = sent
    damaged = None
    if cut:
        n = sim.draw(len(wire) + 1)
        got_wire = sent[:n]
        sim.fault("truncated", n, "of", len(wire))
    elif wire and sim.chance(0.2):
        damaged = sim.draw(len(wire))
        x = 1 + sim.draw(255)
        got_wire = sent[:damaged] + bytes([sent[damaged] ^ x]) + sent[damaged + 1:]
        sim.fault("damaged octet", damaged, x)
    buf = P.Buffer.wrap(got_wire)
    off = 0
    values = []
    for k, tree, e in items:
        end = off + len(e)
        if damaged is not None and damaged < end:
            # anything may be read from a damaged item, but only from its buffer, and errors are local
            for _ in range(3):
                try:
                    (P.Data if k == 0 else M.Rec if k == 1 else M.Ints if k == 2 else tree[0]).get(buf)
                except LOCAL:
                    pass
                sim.check(0 <= buf.get_pos() <= len(got_wire), "buffer-position", f"{buf.get_pos()} of {len(got_wire)}")
            return
        try:
            v = (P.Data if k == 0 else M.Rec if k == 1 else M.Ints if k == 2 else tree[0]).get(buf)
        except LOCAL as err:
            sim.check(end > len(got_wire), "value-refused", f"{e.hex()}: {type(err).__name__} {err}")
            sim.log("refused a cut value")
            return
        sim.check(end <= len(got_wire), "truncated-accepted", f"{e.hex()} with {max(0, len(got_wire) - off)} of {len(e)} octets read as {v}")
        sim.check(buf.get_pos() == end, "value-extent", f"{e.hex()}: consumed {buf.get_pos() - off} of {len(e)}")
        off = end
        if k == 0:
            same(sim, v, tree)
        elif k == 1:
            c = v.c.value
            sim.check(int(v.a) == tree[0] and bytes(v.b.contents) == tree[1] and (None if c is P.NULL_ else int(c)) == tree[2], "sequence-fields", f"{tree}")
        elif k == 2:
            sim.check([int(x) for x in v.values] == tree, "sequence-of", f"{tree}")
        else:
            sim.check(int(v) == tree[1], "integer-value", f"{e.hex()} = {int(v)} expected {tree[1]}")
            sim.check(bytes(tree[0].from_int(tree[1]).contents) == e and int(tree[0].from_str(str(tree[1]))) == tree[1], "integer-value", f"{tree[1]} built")
            for _, v2, t2 in [x for x in values if x[0] == 3]:
                if t2[0] is tree[0]:
                    sim.check((v > v2) == (tree[1] > t2[1]) and (v == v2) == (tree[1] == t2[1]), "integer-order", f"{tree[1]} and {t2[1]}")
        values.append((k, v, tree))
        sim.state(k, len(e) > 127, len(values))
    # forward everything through one shared buffer, possibly too short
    total = sum(len(v) for _, v, _ in values)
    sim.check(total == len(wire), "value-size", f"len says {total}, {len(wire)} octets were decoded")
    short = sim.draw(total) if total and sim.chance(0.3) else None
    room = total + sim.draw(3) if short is None else short
    lead = sim.draw(4)
    out = P.Buffer.allocate(lead + room)
    out.set_pos(lead)
    n = 0
    for (k, v, tree), (_, _, e) in zip(values, items):
        try:
            r = v.put(out)
        except LOCAL as err:
            sim.check(n + len(e) > room, "value-refused", f"put {e.hex()}: {type(err).__name__} {err}")
            sim.fault("short_buffer")
            sim.check(bytes(out)[:lead + n] == bytes(lead) + wire[:n], "buffer-content", "values put before were altered")
            return
        sim.check(n + len(e) <= room, "truncated-accepted", f"{e.hex()} put in {room - n} octets")
        n += len(e)
        sim.check(r == len(e) and out.get_pos() == lead + n, "value-extent", f"put {e.hex()} said {r}, position {out.get_pos() - lead}")
    sim.check(bytes(out) == bytes(lead) + wire + bytes(room - total), "value-octets", f"{bytes(out).hex()} expected {wire.hex()} at {lead}")
    sim.probe("whole exchange")
    if values[0][0] != 3 or True:
        c = P.create_buf(values[0][1])
        sim.check(bytes(c) == items[0][2] and c.get_pos() == 0, "value-octets", "create_buf")


CHECK = Check(
    id="C06",
    scenarios=[Scenario("storage", storage, 24000, 200_000, 200), Scenario("typed", typed, 24000, 200_000, 200)],
    rule="storage: histories of reads, writes, seeks, slices and frozen copies on one shared storage of 0..70000 octets; typed: values put and taken back "
         "through shared buffers; non-trivial: an operation that met a short, cut, damaged or read-only buffer; distinct: different event log",
    real=["types.byte_buffer.ByteBuffer", "types.cosem_pdu (Buffer, length octets, INTEGER, OctetString, Sequence, OPTIONAL, SEQUENCE OF, CHOICE, Data)"],
    stub=["writers, readers and the transfer between them (simulated)"],
    setup=setup,
)
