"""Independent reference for DLMS data (A-XDR): generator, canonical encoder, decoder.  Nothing here comes from /repo.

A tree is (tag, payload): payload is a list of trees for 1/2, (nbits, octets) for 4, octets otherwise."""
import struct

FIXED = {0: 0, 3: 1, 5: 4, 6: 4, 13: 1, 15: 1, 16: 2, 17: 1, 18: 2, 20: 8, 21: 8, 22: 1, 23: 4, 24: 8, 25: 12, 26: 5, 27: 4}
SIGNED = {5, 15, 16, 20}
INTS = {5, 6, 15, 16, 17, 18, 20, 21}
STRINGS = {9, 10, 12}


class Cut(Exception):
    """more octets are needed"""


class Bad(Exception):
    """not an encoding"""


def length(n: int, form: int = 0) -> bytes:
    """form 0: shortest; else that many length octets if possible"""
    if form:
        return bytes([0x80 | form]) + n.to_bytes(form, "big")
    if n < 0x80:
        return bytes([n])
    for k in (1, 2, 4):
        if n < 1 << (8 * k):
            return bytes([0x80 | k]) + n.to_bytes(k, "big")
    raise ValueError(n)


def encode(tree, form=None) -> bytes:
    """form: function giving the length form for each length (None: canonical)"""
    tag, p = tree
    f = (lambda n: length(n, form(n))) if form else length
    if tag in FIXED:
        return bytes([tag]) + p
    if tag in STRINGS:
        return bytes([tag]) + f(len(p)) + p
    if tag == 4:
        return b"\x04" + f(p[0]) + p[1]
    return bytes([tag]) + f(len(p)) + b"".join(encode(x, form) for x in p)


def _need(b, i, n):
    if len(b) < i + n:
        raise Cut
    return b[i:i + n]


def decode(b: bytes, i: int = 0, depth: int = 0):
    """-> (tree, end)"""
    tag = _need(b, i, 1)[0]
    i += 1
    if tag in FIXED:
        p = _need(b, i, FIXED[tag])
        if tag == 3:
            p = b"\x00" if p == b"\x00" else b"\x01"
        return (tag, bytes(p)), i + FIXED[tag]
    if tag not in (1, 2, 4, 9, 10, 12):
        raise Bad(tag)
    n = _need(b, i, 1)[0]
    i += 1
    if n & 0x80:
        k = n & 0x7F
        n = int.from_bytes(_need(b, i, k), "big")
        i += k
    if tag in STRINGS:
        return (tag, bytes(_need(b, i, n))), i + n
    if tag == 4:
        k = (n + 7) // 8
        return (4, (n, bytes(_need(b, i, k)))), i + k
    out = []
    for j in range(n):
        x, i = decode(b, i, depth + 1)
        if tag == 1 and out and x[0] != out[0][0]:
            raise Bad("array of different types")
        out.append(x)
    return (tag, out), i


def has_time(tree) -> bool:
    tag, p = tree
    return tag in (25, 26, 27) or (tag in (1, 2) and any(map(has_time, p)))


def value(tree):
    """python value, NotImplemented where the package does not define one"""
    tag, p = tree
    if tag == 0:
        return None
    if tag == 3:
        return p != b"\x00"
    if tag in INTS:
        return int.from_bytes(p, "big", signed=tag in SIGNED)
    if tag == 22:
        return p[0]
    if tag == 9:
        return p
    if tag == 4:
        return [p[1][k // 8] >> (7 - k % 8) & 1 for k in range(p[0])]
    if tag == 23:
        return struct.unpack(">f", p)[0]
    if tag == 24:
        return struct.unpack(">d", p)[0]
    return NotImplemented


DIM = (31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def gen_date(sim) -> bytes:
    import datetime
    y = sim.pick((2024, 2023, 2000, 1999, 2100, 9999, 0xFFFF))
    m = sim.pick((1, 2, 3, 4, 12, sim.int(1, 12), 0xFF, 0xFE, 0xFD))
    d = sim.pick((1, 28, sim.int(1, 28), 29, 30, 31, 0xFF, 0xFE, 0xFD))
    if d <= 31:
        if m > 12:
            pass
        elif d > DIM[m - 1] or (m == 2 and d == 29 and (y != 0xFFFF and (y % 4 or (y % 100 == 0 and y % 400)))):
            d = 28
    w = 0xFF
    if sim.chance(0.4):
        w = sim.int(1, 7)
        if y != 0xFFFF and m <= 12 and d <= 31:
            w = datetime.date(y, m, d).weekday() + 1
    return bytes([y >> 8, y & 255, m, d, w])


def gen_time(sim) -> bytes:
    return bytes((sim.pick((0, 23, sim.int(0, 23), 0xFF)), sim.pick((0, 59, sim.int(0, 59), 0xFF)), sim.pick((0, 59, sim.int(0, 59), 0xFF)),
                  sim.pick((0, 99, sim.int(0, 99), 0xFF))))


def gen_datetime(sim) -> bytes:
    dev = sim.pick((-0x8000, 0, 60, 180, 720, -60, -300, -720, sim.int(-720, 720)))
    return gen_date(sim) + gen_time(sim) + dev.to_bytes(2, "big", signed=True) + bytes([sim.pick((0xFF, 0, 0x80))])


def gen_simple(sim, tag):
    if tag == 3:
        return 3, bytes([sim.draw(2)])
    if tag == 4:
        n = sim.weighted([(4, sim.int(0, 20)), (1, sim.pick((127, 128, 256)))])
        return 4, (n, sim.blob((n + 7) // 8))
    if tag in STRINGS:
        n = sim.weighted([(5, sim.int(0, 8)), (1, sim.pick((127, 128, 255, 256, 300)))])
        p = sim.blob(n)
        if tag != 9:
            p = bytes(0x20 + x % 0x5F for x in p)
        return tag, p
    if tag == 25:
        return 25, gen_datetime(sim)
    if tag == 26:
        return 26, gen_date(sim)
    if tag == 27:
        return 27, gen_time(sim)
    n = FIXED[tag]
    return tag, sim.pick((bytes(n), b"\xff" * n, b"\x80" + bytes(n - 1), b"\x7f" + b"\xff" * (n - 1), sim.blob(n), sim.blob(n), sim.blob(n))) if n else b""


SIMPLE = (17, 18, 6, 9, 15, 16, 5, 20, 21, 22, 3, 4, 10, 12, 0, 13, 23, 24, 25, 26, 27)


def gen(sim, depth=0, tag=None):
    if tag is None:
        tag = sim.pick(SIMPLE + ((1, 2) * 4 if depth < 4 else ()))
    if tag not in (1, 2):
        return gen_simple(sim, tag)
    n = sim.weighted([(6, sim.int(0, 4)), (1, sim.pick((5, 127, 130)) if depth < 1 else 1)])
    if n > 100:
        x = gen(sim, 9)
        return tag, [x] * n
    if tag == 2:
        return 2, [gen(sim, depth + 1) for _ in range(n)]
    if n == 0:
        return 1, []
    first = gen(sim, depth + 1)
    return 1, [first] + [like(sim, first, depth + 1) for _ in range(n - 1)]


def like(sim, tree, depth=0):
    """another tree of the same type (structures keep their field types)"""
    tag, p = tree
    if tag == 2:
        return 2, [like(sim, x, depth + 1) for x in p]
    if tag == 1:
        return 1, [like(sim, p[0], depth + 1) for _ in range(sim.int(0, 3))] if p else []
    return gen_simple(sim, tag)
