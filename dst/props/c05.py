"""C05 - on a shared line every station takes exactly the frames addressed to it."""
from ..engine import Check, Scenario
from .. import session as S
from .. import hdlc_ref as ref


def bus(sim):
    """several meters with look-alike addresses on one line; sessions with one after the other"""
    S.session(sim, n_meters=sim.int(2, 4), windows=False, max_req=10)


def forms(sim):
    """the address a station is given, the octets on the line and the address read back are the same thing"""
    F = S.M.F
    seen = {}
    for _ in sim.steps(16, 8):
        lower_zero = False
        size = sim.pick((1, 2, 4))
        if size == 1:
            up, lo = sim.draw(128), None
        elif size == 2:
            up, lo = sim.draw(128), sim.draw(128)
        else:
            up, lo = sim.pick((0, 1, 0x7F, 0x80, 0x81, 0x3F80, 0x3FFF, sim.draw(0x4000))), sim.pick((0, 1, 0x7F, 0x80, 0x3FFF, sim.draw(0x4000)))
        wire = ref.addr(up, lo, size)
        auto = sim.chance(0.4)
        need = 1 if not lo and up < 128 else 2 if lo and (up | lo) < 128 else 4
        sim.log("addr", up, lo, size, auto)
        if auto:
            a = F.Address(upper_address=up, lower_address=lo)
            exp = ref.addr(up, lo or 0, need)
            sim.check(a.content == exp, "address-wire", f"({up}, {lo}) -> {a.content.hex()} expected {exp.hex()}")
            wire = exp
        else:
            a = F.Address(upper_address=up, lower_address=lo, length=F.AddressLength(size))
            sim.check(a.content == wire, "address-wire", f"({up}, {lo}, length {size}) -> {a.content.hex()} expected {wire.hex()}")
        # the octets arrive inside a longer stream
        tail = sim.bytes(sim.draw(5)) + b"\x01"
        stream = bytearray(wire + tail)
        b = F.Address.from_frame(stream)
        sim.check(bytes(stream) == tail, "address-consumes", f"{wire.hex()}+{tail.hex()} left {bytes(stream).hex()}")
        sim.check(b == a and hash(b) == hash(a) and b.content == wire, "address-roundtrip", f"{wire.hex()} -> {b.content.hex()}")
        sim.check(b.upper == up and (len(wire) == 1 or b.lower == (lo or 0)), "address-value", f"{wire.hex()} -> {b.upper}/{b.lower} expected {up}/{lo}")
        sim.check(str(a) == (f"{up}" if len(wire) == 1 else f"{up}/{lo or 0}"), "address-text", f"{wire.hex()} is shown as {a}")
        for w2, o in list(seen.items()):
            sim.check((o == a) == (w2 == wire), "address-equality", f"{w2.hex()} vs {wire.hex()}")
        # filtering of one frame between each known pair
        if seen:
            o = seen[sim.pick(sorted(seen))]
            fr = F.Frame(DA=o, SA=a, control=F.Control(0x10), info=b"x", is_segmentation=False)
            got = F.Frame.try_from(bytearray(fr.content))
            third = seen[sim.pick(sorted(seen))]
            for me in (a, o, third):
                for peer in (a, o, third):
                    want = me == o and peer == a
                    sim.check(got.is_for_me(DA=peer, SA=me) == want, "filter-wrong",
                              f"frame {a}->{o}: station {me} talking to {peer} says {not want}")
            sim.probe("frame filtered")
        seen[wire] = a
        sim.faults["address_" + str(len(wire))] += 1
        sim.state(len(wire), up >= 128, (lo or 0) >= 128, auto)

    # the setting of an address length and its text
    L = F.AddressLength
    n = sim.pick((-1, 1, 2, 4, 3, 0, 5, 8, -2))
    try:
        got = int(L(n))
    except ValueError:
        got = None
    sim.check(got == (n if n in (-1, 1, 2, 4) else None), "length-setting", f"length {n} is {got}")
    if got is not None:
        text = "AUTO" if n == -1 else str(n)
        sim.check(str(L(n)) == text and L.from_str(text) == n and text in L.get_values() and len(L.get_values()) == 4,
                  "length-setting", f"{n} as text {L(n)}, from text {L.from_str(text)!r}, offered {L.get_values()}")
        up, lo = sim.pick((0, 1, 127, 128, 0x3FFF)), sim.pick((None, 0, 1, 127, 128, 0x3FFF))
        need = 1 if not lo and up < 128 else 2 if lo and (up | lo) < 128 else 4
        size = need if n == -1 else n
        try:
            got = F.Address(upper_address=up, lower_address=lo, length=L(n)).content
        except ValueError:
            got = None
        if size < need:
            sim.check(got is None, "address-wire", f"({up}, {lo}) in {n} octets -> {got and got.hex()}")
        elif lo is not None or size == 1 or need == 4:
            sim.check(got == ref.addr(up, lo or 0 if size > 1 else None, size), "address-wire", f"({up}, {lo}, length {n}) -> {got and got.hex()}")


CHECK = Check(
    id="C05",
    scenarios=[Scenario("forms", forms, 15000, 100_000, 200), Scenario("bus", bus, 3000, 20_000, 20)],
    rule="forms: a history of stations with 1/2/4-octet addresses exchanging frames; bus: 2..4 meters with look-alike addresses on one lossy simulated "
         "line, sessions one after the other; non-trivial: a fault or address form counted; distinct: different event log",
    real=["hdlc.frame (Address, Frame.is_for_me, Frame.try_from)", "hdlc.negotiation", "hdlc.sub_layer.LLC"],
    stub=["serial line and clock (simulated)", "station state machines", "meter application"],
    setup=S.setup,
)
