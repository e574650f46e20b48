"""Independent HDLC type-3 reference (ISO/IEC 13239 H.4), written from the standard, not from the package."""
FLAG = 0x7E


def fcs16(data: bytes) -> bytes:
    """CRC-16/X-25, low octet first"""
    crc = 0xFFFF
    for b in data:
        crc ^= b
        for _ in range(8):
            crc = (crc >> 1) ^ 0x8408 if crc & 1 else crc >> 1
    crc ^= 0xFFFF
    return bytes((crc & 0xFF, crc >> 8))


def addr(upper: int, lower: int | None, size: int) -> bytes:
    if size == 1:
        return bytes((upper << 1 | 1,))
    if size == 2:
        return bytes((upper << 1, lower << 1 | 1))
    return bytes(((upper >> 7) << 1, (upper & 0x7F) << 1, (lower >> 7) << 1, (lower & 0x7F) << 1 | 1))


def encode(da: bytes, sa: bytes, ctl: int, info: bytes, seg: bool) -> bytes:
    n = 2 + len(da) + len(sa) + 1 + 2 + (len(info) + 2 if info else 0)
    fmt = 0xA000 | (0x800 if seg else 0) | n
    head = fmt.to_bytes(2, "big") + da + sa + bytes((ctl,))
    body = head if not info else head + fcs16(head) + info
    return b"\x7e" + body + fcs16(body) + b"\x7e"


def take_addr(body: bytes, pos: int):
    for k in (1, 2, 4):
        if pos + k > len(body):
            return None
        if body[pos + k - 1] & 1:
            return body[pos:pos + k]
    return None


def parse_at(s: bytes, p: int):
    """candidate frame whose opening flag is s[p].
    -> ("wait", None) | ("bad", None) | ("ok", (da, sa, ctl, info, seg, wire, next_pos))"""
    if len(s) - p < 3:
        return "wait", None
    if s[p + 1] >> 4 != 0xA:
        return "bad", None
    n = (s[p + 1] & 7) << 8 | s[p + 2]
    end = p + 1 + n
    if end >= len(s):
        return "wait", None
    if n < 7 or s[end] != FLAG:
        return "bad", None
    body = s[p + 1:end]
    da = take_addr(body, 2)
    if da is None:
        return "bad", None
    sa = take_addr(body, 2 + len(da))
    if sa is None:
        return "bad", None
    h = 2 + len(da) + len(sa)
    if h >= len(body):
        return "bad", None
    ctl = body[h]
    h += 1
    rest = body[h:]
    if len(rest) < 2 or len(rest) == 3:
        return "bad", None
    if len(rest) == 2:
        info = b""
    else:
        if fcs16(body[:h]) != rest[:2]:
            return "bad", None
        info = rest[2:-2]
    if fcs16(body[:-2]) != rest[-2:]:
        return "bad", None
    return "ok", (bytes(da), bytes(sa), ctl, bytes(info), bool(s[p + 1] & 8), bytes(s[p:end + 1]), end)


def scan(s: bytes):
    """all frames of a stream that has ended its last candidate (feed padding behind the traffic)"""
    out = []
    p = 0
    while True:
        p = s.find(b"\x7e", p)
        if p < 0:
            return out
        st, f = parse_at(s, p)
        if st == "ok":
            out.append(f[:6])
            p = f[6]
        else:
            p += 1
