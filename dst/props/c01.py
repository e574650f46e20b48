"""C01 - the frames cut out of a byte stream are exactly the valid frames the stream carries."""
from ..engine import Check, Scenario
from ..core import Violation
from .. import env, hdlc_ref as ref
from ..serial import LINE_FAULTS, damage, chunks

F = None


def setup():
    global F, LLC
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        from src.DLMS_SPODES.hdlc import frame as F_
        from src.DLMS_SPODES.hdlc.sub_layer import LLC as L_
    F, LLC = F_, L_


def rand_addr(sim):
    size = sim.pick((1, 2, 4))
    if size == 1:
        u, lo = sim.draw(128), None
    elif size == 2:
        u, lo = sim.draw(128), 1 + sim.draw(127)
    else:
        u = sim.pick((0, 1, 0x7F, 0x80, 0x3FFF, sim.draw(0x4000)))
        lo = sim.pick((1, 0x7F, 0x80, 0x3FFF, sim.draw(0x4000)))
    return u, lo, size


#: names of control octets: commands and responses of ISO/IEC 13239, 5.5.3
UNNUMBERED = {"UI": 0x03, "XID": 0xAF, "TEST": 0xE3, "UIH": 0xEF, "SNRM": 0x83, "SARM": 0x0F, "SABM": 0x2F, "DISC": 0x43, "SNRME": 0xCF, "SARME": 0x4F, "SABME": 0x6F, "UP": 0x23, "SIM": 0x07,
              "SM": 0xC3, "RSET": 0x8F, "UA": 0x63, "FRMR": 0x87, "DM": 0x0F, "RD": 0x43, "RIM": 0x07}
RESPONSES = ("UA", "FRMR", "DM", "RD", "RIM")
MIXED = ("UI", "XID", "TEST", "UIH")


def named(sim):
    """a control octet and the name the package gives it"""
    pf, nr, ns = sim.draw(2), sim.draw(8), sim.draw(8)
    k = sim.draw(3)
    if k == 0:
        return f"S{ns}_R{nr}" + "_PF" * pf, nr << 5 | pf << 4 | ns << 1
    if k == 1:
        i = sim.draw(4)
        return f"{('RR', 'RNR', 'REJ', 'SREJ')[i]}_R{nr}" + "_PF" * pf, nr << 5 | pf << 4 | i << 2 | 1
    n = sim.pick(tuple(UNNUMBERED))
    return n + ("_PF" if n in MIXED else "_F" if n in RESPONSES else "_P") * pf, UNNUMBERED[n] | pf << 4


def make(sim):
    """one frame built by the package, with what it must look like on the wire"""
    u1, l1, s1 = rand_addr(sim)
    u2, l2, s2 = rand_addr(sim)
    name, ctl = named(sim) if sim.chance(0.5) else (None, sim.draw(256))
    n = sim.weighted([(4, 0), (6, sim.int(1, 16)), (4, sim.int(1, 128)), (1, sim.int(1, 2030))])
    info = sim.blob(n)
    if n and sim.chance(0.4):                       # payloads full of flag and format octets
        b = bytearray(info)
        for _ in range(1 + sim.draw(6)):
            i = sim.draw(len(b))
            b[i] = sim.pick((0x7E, 0xA0, 0xA8, 0x7E))
            if sim.chance(0.4) and i + 2 < len(b):
                b[i:i + 3] = b"\x7e\xa0" + bytes((sim.draw(40),))
        info = bytes(b)
    if n > 60 and sim.chance(0.5):                  # a payload that itself carries a whole valid frame
        inner = ref.encode(ref.addr(1, None, 1), ref.addr(16, None, 1), 0x10, b"inner", False)
        i = sim.draw(n - len(inner))
        info = info[:i] + inner + info[i + len(inner):]
        sim.probe("payload carries a whole frame")
    seg = sim.chance(0.3)
    wire = ref.encode(ref.addr(u1, l1, s1), ref.addr(u2, l2, s2), ctl, info, seg)
    fr = F.Frame(DA=F.Address(upper_address=u1, lower_address=l1, length=F.AddressLength(s1)),
                 SA=F.Address(upper_address=u2, lower_address=l2, length=F.AddressLength(s2)),
                 control=getattr(F.Control, name) if name else F.Control(ctl), info=info, is_segmentation=seg)
    sim.check(bytes(fr.content) == wire, "encode-differs",
              lambda: f"da={u1, l1, s1} sa={u2, l2, s2} ctl={name} {ctl:#x} seg={seg} info={info.hex()} -> {bytes(fr.content).hex()} expected {wire.hex()}")
    return wire


class Receiver:
    """what a client does: append what read() gave, drain"""

    def __init__(self, sim):
        self.sim, self.buf, self.got, self.fed = sim, bytearray(), [], bytearray()

    def feed(self, data: bytes):
        self.buf.extend(data)
        self.fed.extend(data)
        spins = 0
        while True:
            before = len(self.buf)
            fr = F.Frame.try_from(self.buf)
            if fr is not None:
                d, s = fr.get_header()
                self.got.append((d.content, s.content, int(fr.control), bytes(fr.info), bool(fr.is_segmentation), bytes(fr.content)))
                self.sim.log("frame", len(self.got), int(fr.control), len(fr.info))
            elif len(self.buf) >= before:
                return
            spins += 1
            self.sim.check(spins < 20_000, "no-progress", "try_from keeps reporting progress without consuming the stream")


PAD = bytes(2100)


def compare(sim, got, want, tag):
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else None
        w = want[i] if i < len(want) else None
        if g != w:
            key = "frame-lost" if g is None else "frame-invented" if w is None else "frame-differs"
            def show(x):
                return None if x is None else f"da={x[0].hex()} sa={x[1].hex()} ctl={x[2]:#x} seg={x[4]} info[{len(x[3])}] wire={x[5].hex()[:120]}"
            sim.fail(key + tag, f"frame {i}: got {show(g)}, the stream carries {show(w)} ({len(got)} got, {len(want)} carried)")


def clean(sim):
    """no corruption: any fragmentation, shared or repeated flags; every frame is delivered when its last octet arrives"""
    rx = Receiver(sim)
    want = []
    pending = b""
    mode = sim.draw(4)
    prev_shared = False
    for _ in sim.steps(14, 6):
        wire = make(sim)
        rec = ref.parse_at(wire, 0)
        assert rec[0] == "ok", wire.hex()
        share = bool(want) and sim.chance(0.3)
        if share and prev_shared:
            sim.fault("shared_flag")
            wire_tx = wire[1:]
        else:
            wire_tx = wire
        gap = b""
        if sim.chance(0.25):
            k = sim.int(1, 12)
            sim.fault("idle_flags", k)
            gap = b"\x7e" * k
        elif not (share and prev_shared) and sim.chance(0.2):
            gap = bytes(x for x in sim.blob(sim.int(1, 12)) if x != 0x7E)
            if gap:
                sim.fault("idle_octets", gap.hex())
        if gap:
            # octets after a closing flag may form with it the start of a candidate only if they look like a format field
            if gap[0] >> 4 == 0xA:
                gap = b"\x00" + gap
        tx = gap + wire_tx if not (share and prev_shared) else wire_tx
        want.append(rec[1][:6])
        prev_shared = True
        sent = 0
        for c in chunks(sim, tx, mode):
            sim.now += 1000 * len(c)
            if len(c) != len(tx):
                sim.faults["fragmented_read"] += 1
            rx.feed(c)
            sent += len(c)
            if sent < len(tx):
                sim.check(len(rx.got) < len(want), "frame-early", "a frame was delivered before its last octet was received")
        compare(sim, rx.got, want, ":clean")
        sim.state("clean", len(want), wire_tx is wire, len(rec[1][3]) > 128, len(rx.buf) > 1)


def dirty(sim):
    """corruption on the line: exactly the frames a standard receiver finds, in order; never an exception"""
    rates = sim.swarm(LINE_FAULTS, none=0.05)
    rx = Receiver(sim)
    mode = sim.draw(4)
    back_to_back = b""
    for _ in sim.steps(16, 8):
        wire = make(sim)
        seen = damage(sim, rates, wire)
        if seen and sim.chance(rates.get("dup_frame", 0)):
            sim.fault("dup_frame")
            seen += seen
        if seen[:1] == b"\x7e" and rx.fed[-1:] == b"\x7e" and sim.chance(rates.get("merge_flag", 0)):
            sim.fault("merge_flag")
            seen = seen[1:]
        for c in chunks(sim, seen, mode):
            sim.now += 1000 * len(c)
            rx.feed(c)
        sim.state("dirty", min(len(rx.got), 9), min(len(rx.buf) // 64, 6))
    # the last candidate ends, and the line recovers: a clean frame behind the padding must come through
    tail = ref.encode(ref.addr(1, None, 1), ref.addr(16, None, 1), 0x73, b"", False)
    rx.feed(PAD)
    rx.feed(tail)
    rx.feed(PAD)
    want = ref.scan(bytes(rx.fed))
    sim.log("carried", len(want))
    sim.probe("frames recovered after damage", len(want) > 1)
    compare(sim, rx.got, want, ":dirty")
    sim.check(bool(want) and want[-1][5] == tail, "reference", "harness: the clean tail frame must be found by the reference")


def garbage(sim):
    """octets that look almost like frames: short length fields, wrong check sequences, missing address ends"""
    rx = Receiver(sim)
    mode = sim.draw(4)
    for _ in sim.steps(24, 10):
        k = sim.draw(7)
        if k == 0:
            x = b"\x7e\xa0" + bytes((sim.draw(12),)) + sim.bytes(sim.draw(10)) + b"\x7e"
        elif k == 1:
            n = sim.int(0, 9)
            body = bytes((0xA0, n)) + sim.bytes(max(0, n - 2))
            x = b"\x7e" + body + b"\x7e"
        elif k == 2:                                 # self-consistent length and FCS, arbitrary addresses
            n = sim.int(4, 16)
            body = bytes((0xA0 | sim.draw(2) << 3, n)) + bytes(b & (0xFE if sim.chance(0.7) else 0xFF) for b in sim.bytes(n - 4))
            x = b"\x7e" + body + ref.fcs16(body) + b"\x7e"
        elif k == 3:
            x = b"\x7e" * sim.int(1, 12)
        elif k == 4:
            x = bytes((0x7E, 0xA0 | sim.draw(8), sim.draw(256)))
        elif k == 6:                                 # good header, check sequence(s) of the header only, a few octets of nothing
            u1, l1, s1 = rand_addr(sim)
            u2, l2, s2 = rand_addr(sim)
            junk = sim.bytes(sim.draw(4))
            hcs = sim.chance(0.5)
            n = 2 + s1 + s2 + 1 + (2 if hcs else 0) + len(junk) + 2
            head = bytes((0xA0, n)) + ref.addr(u1, l1, s1) + ref.addr(u2, l2, s2) + bytes((sim.draw(256),))
            body = head + (ref.fcs16(head) if hcs else b"")
            over = sim.pick((head, body, body + junk))
            x = b"\x7e" + body + junk + ref.fcs16(over) + b"\x7e"
        else:
            x = make(sim)
        sim.fault("garbage" if k != 5 else "good_frame", x.hex()[:80])
        for c in chunks(sim, x, mode):
            sim.now += 1000 * len(c)
            rx.feed(c)
        sim.state("garbage", k, min(len(rx.got), 5), min(len(rx.buf), 20))
    rx.feed(PAD)
    compare(sim, rx.got, ref.scan(bytes(rx.fed)), ":garbage")


def oversize(sim):
    """a frame that cannot be expressed on the wire is refused, never emitted with a wrong length field"""
    for _ in sim.steps(6, 4):
        n = sim.pick((2030, 2036, 2037, 2038, 2040, 2041, 2047, 2048, 3000, 4096, 8170, 8191, 9000)) + sim.draw(4)
        seg = sim.chance(0.5)
        sim.log("oversize", n, seg)
        total = n + 9
        da, sa = F.Address(upper_address=1), F.Address(upper_address=16)
        try:
            fr = F.Frame(DA=da, SA=sa, control=F.Control(0x10), info=bytes(n), is_segmentation=seg)
        except ValueError:
            sim.faults["oversize_refused"] += 1
            sim.check(total > 2047, "refused-valid-length", f"a frame of length {total} was refused")
            continue
        sim.check(total <= 2047, "oversize-emitted", f"a frame of length {total} (11 bit field) was emitted with format {fr.content[1:3].hex()}")
        sim.check(bytes(fr.content) == ref.encode(da.content, sa.content, 0x10, bytes(n), seg), "encode-differs", f"n={n}")
        sim.state("oversize", n, seg)


def llc(sim):
    """messages of the layer above: the header told is the one of a request, a header that is not one is refused, the octets behind it stay"""
    for _ in sim.steps(10, 6):
        msg = sim.blob(sim.weighted([(1, 0), (3, sim.int(1, 20)), (1, sim.int(1, 300))]))
        x = LLC(message=msg)
        sim.check(bytes(x.content) == b"\xe6\xe6\0" + msg and bytes(x.info) == msg and len(x) == len(msg) + 3, "llc-wrong", lambda: f"{msg[:20].hex()} is sent as {bytes(x.content)[:24].hex()}")
        head = bytes((sim.weighted([(4, 0xE6), (2, 0xFF), (1, 0xE7), (1, sim.draw(256))]), sim.weighted([(3, 0xE6), (3, 0xE7), (1, 0xFF), (1, sim.draw(256))]), sim.weighted([(6, 0), (1, 1), (1, sim.draw(256))])))
        wire = (head + msg)[:sim.weighted([(8, None), (1, sim.draw(4))])]
        good = len(wire) >= 3 and head[0] in (0xE6, 0xFF) and head[1] in (0xE6, 0xE7) and head[2] == 0
        if not good:
            sim.fault("llc_header_cut" if len(wire) < 3 else "llc_header_wrong")
        sim.log(wire[:8].hex(), len(wire), good)
        try:
            x = LLC(content=bytearray(wire))
        except (ValueError, IndexError):
            sim.check(not good, "llc-refused", f"{wire[:20].hex()}")
            continue
        sim.check(good, "llc-taken", f"{wire[:20].hex()}")
        sim.check(bytes(x.info) == wire[3:] and bytes(x.content) == wire and len(x) == len(wire), "llc-wrong", lambda: f"{wire[:20].hex()} is {bytes(x.content)[:24].hex()}")
        sim.check(("broadcast" in str(x), "command" in str(x)) == (head[0] == 0xFF, head[1] == 0xE6), "llc-wrong", lambda: f"{wire[:20].hex()} is called {x}")
        sim.state(head[0] == 0xFF, head[1], len(wire) > 3)


CHECK = Check(
    id="C01",
    scenarios=[
        Scenario("clean", clean, 7500, 60_000, 125),
        Scenario("dirty", dirty, 12000, 120_000, 125),
        Scenario("garbage", garbage, 9000, 80_000, 125),
        Scenario("oversize", oversize, 600, 2000, 100),
        Scenario("llc", llc, 6000, 100_000, 500),
    ],
    rule="a run is one simulated receiver draining a byte stream of package-built frames cut into seeded read() chunks, with seeded "
         "line faults; non-trivial: at least one fault/fragmentation fired; distinct: different event log",
    real=["hdlc.frame (Frame, Format, Address, Control, CRC)", "hdlc.sub_layer.LLC"],
    stub=["serial line (simulated octet stream with faults)", "reference frame scanner (oracle)"],
    assumptions=["CRC-16 collisions are resolved like a standard receiver does: both sides accept the colliding frame"],
    setup=setup,
)
