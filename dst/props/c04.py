"""C04 - both ends of a link use the same negotiated limits, and a failed handshake changes nothing."""
from ..engine import Check, Scenario
from .. import session as S
from ..link import LINE

VALS = (128, 32, 33, 64, 127, 129, 200, 255, 256, 257, 511, 512, 1024, 2029, 2030)


def ref_encode(tx, rx, wtx, wrx, style):
    """IEC 62056-46 6.4.4.4.3.2 parameter field; style: octets for the sizes"""
    out = b""
    for tag, v, d in ((5, tx, 128), (6, rx, 128)):
        if v != d or style & 1:
            w = 2 if v > 255 or style & 2 else 1
            out += bytes((tag, w)) + v.to_bytes(w, "big")
    for tag, v in ((7, wtx), (8, wrx)):
        if v != 1 or style & 4:
            w = 4 if not style & 8 else 1
            out += bytes((tag, w)) + v.to_bytes(w, "big")
    return b"\x81\x80" + bytes((len(out),)) + out if out else b""


def ref_decode(info: bytes):
    """-> (tx, rx, wtx, wrx) of the sender, or None if malformed"""
    v = {5: 128, 6: 128, 7: 1, 8: 1}
    if not info:
        return v
    if len(info) < 3 or info[:2] != b"\x81\x80" or info[2] != len(info) - 3:
        return None
    p = info[3:]
    while p:
        if len(p) < 2 or p[0] not in v or len(p) < 2 + p[1]:
            return None
        x = int.from_bytes(p[2:2 + p[1]], "big")
        if p[0] in (5, 6) and not 32 <= x <= 2030 or p[0] in (7, 8) and not 1 <= x <= 7:
            return None
        v[p[0]] = x
        p = p[2 + p[1]:]
    return v


def handshakes(sim):
    """one client's parameter object across many connections: proposals changed by the user, UAs damaged, lost, malformed"""
    N = S.M.N.Negotiation
    mem = N()
    cur = [128, 128, 1, 1]
    for _ in sim.steps(20, 8):
        k = sim.draw(6)
        sim.now += 1_000_000
        if k <= 1:                                         # the user edits the proposal between connections
            cur = [sim.pick(VALS), sim.pick(VALS), 1 + sim.draw(7), 1 + sim.draw(7)]
            if sim.chance(0.5):
                mem = N(*cur)
                sim.log("new", cur)
            else:
                mem.max_info_transmit, mem.max_info_receive, mem.window_transmit, mem.window_receive = cur
                sim.fault("parameters_edited_between_connections")
                sim.log("edit", cur)
        elif k == 2:                                       # the offer goes out
            info = bytes(mem.info)
            got = ref_decode(info)
            sim.log("offer", info.hex())
            sim.check(got is not None and [got[5], got[6], got[7], got[8]] == cur, "offer-wrong",
                      f"parameters {cur} are offered as {info.hex()} = {got and [got[i] for i in (5, 6, 7, 8)]}")
            sim.check(len(mem) == len(info) and bytes(mem.content) == info, "offer-length", f"{len(mem)} != {len(info)}")
        elif k == 3:                                       # a good UA
            p = [sim.pick(VALS), sim.pick(VALS), 1 + sim.draw(7), 1 + sim.draw(7)]
            ua = ref_encode(*p, sim.draw(16))
            if ua and sim.chance(0.2):                     # parameters in another order
                body, parts = ua[3:], []
                while body:
                    parts.append(body[:2 + body[1]])
                    body = body[2 + body[1]:]
                parts = parts[::-1]
                ua = ua[:3] + b"".join(parts)
            sim.log("UA", ua.hex())
            mem.set_from_UA(ua)
            cur = [p[1], p[0], p[3], p[2]]
        else:                                              # a bad UA
            p = [sim.pick(VALS), sim.pick(VALS), 1 + sim.draw(7), 1 + sim.draw(7)]
            ua = bytearray(ref_encode(*p, sim.draw(16)) or b"\x81\x80\x00")
            kind = sim.pick(("range", "truncate", "byte", "tag", "window", "extra"))
            if kind == "range":
                ua = bytearray(b"\x81\x80\x04\x05\x02") + sim.pick((0, 31, 2031, 4096, 65535)).to_bytes(2, "big")
                if sim.chance(0.5):
                    good = ref_encode(200, 200, 1, 1, 2)[3:]
                    ua = bytearray(b"\x81\x80" + bytes((len(good) + 4,)) + good + bytes(ua[3:]))
            elif kind == "window":
                bad = bytes((sim.pick((7, 8)), 1, sim.pick((0, 8, 255))))
                good = ref_encode(200, 300, 2, 3, 0)[3:]
                ua = bytearray(b"\x81\x80" + bytes((len(good) + 3,)) + good + bad)
            elif kind == "truncate":
                ua = ua[:sim.draw(len(ua))]
                if sim.chance(0.5) and len(ua) > 2:
                    ua[2] = len(ua) - 3
            elif kind == "byte":
                ua[sim.draw(len(ua))] = sim.draw(256)
            elif kind == "tag":
                ua += bytes((sim.pick((0, 4, 9, 255)), 1, 1))
                ua[2] = len(ua) - 3
            else:
                ua += sim.bytes(1 + sim.draw(3))
            want = ref_decode(bytes(ua))
            sim.fault("damaged_UA:" + kind, ua.hex())
            try:
                mem.set_from_UA(bytes(ua))
                ok = True
            except ValueError:
                ok = False
            if want is None:
                sim.check(not ok, "malformed-accepted", f"{ua.hex()} accepted as {S.fields(mem)}")
            else:
                sim.check(ok, "wellformed-refused", ua.hex())
                cur = [want[6], want[5], want[8], want[7]]
        sim.check(list(S.fields(mem)) == cur, "parameters-wrong" if k == 3 else "failed-handshake-changed-parameters",
                  f"have {S.fields(mem)}, expected {cur}")
        sim.state(k, tuple(min(c, 129) for c in cur))


def link(sim):
    """connections over the lossy line: UA or SNRM lost, duplicated, damaged; both ends agree when the client is connected"""
    rates = sim.swarm(LINE, none=0.1)
    w = S.World(sim, sim.int(1, 2), rates)
    for _ in sim.steps(10, 5):
        mt = w.meters[sim.draw(len(w.meters))]
        if sim.chance(0.15):
            mt.restart()
        if sim.chance(0.2):
            mt.caps = S.caps(sim, True, rates)
            sim.fault("meter_reconfigured")
        neg = S.rand_neg(sim)
        neg.window_transmit = 1 + sim.draw(7)
        asked = S.fields(neg)
        ok = w.connect(mt, neg, 60_000)
        if ok:
            S.agree(sim, w.client, mt, asked)
            w.ask(mt, sim.int(0, 300), sim.int(0, 600), 60_000)
        sim.state(ok, asked[0] != 128, asked[1] != 128, asked[2], asked[3])


CHECK = Check(
    id="C04",
    scenarios=[Scenario("handshakes", handshakes, 18000, 200_000, 200), Scenario("link", link, 1500, 15_000, 20)],
    rule="handshakes: a history of proposals, edits, good and damaged UA parameter fields on one Negotiation object; link: connections over the "
         "simulated lossy line; non-trivial: a fault fired; distinct: different event log",
    real=["hdlc.negotiation", "hdlc.frame"],
    stub=["serial line and clock (simulated)", "station state machines", "reference parameter codec (oracle)"],
    assumptions=["a meter grants min(own limit, offered limit)"],
    setup=S.setup,
)
