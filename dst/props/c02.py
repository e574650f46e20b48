"""C02 - requests over an unreliable link take effect exactly once, in order, and get their own answer."""
from ..engine import Check, Scenario
from .. import session as S


def lossy(sim):
    S.session(sim)


def long_run(sim):
    """more than 8 frames in each direction: sequence numbers wrap"""
    S.session(sim, restarts=False, windows=False, max_req=40)


def control(sim):
    """control octets of two stations in step: kinds, numbers modulo 8, the P/F bit"""
    C = S.M.F.Control
    ns, nr = sim.draw(8), sim.draw(8)
    for _ in sim.steps(14, 8):
        op = sim.weighted([(4, "send"), (4, "receive"), (2, "any")])
        pf = sim.draw(2)
        if op == "any":
            v = sim.draw(256)
            sim.fault("stray_control")
        else:
            v = nr << 5 | pf << 4 | ns << 1
        try:
            x = C.from_frame(bytearray([v]))
        except ValueError:
            """a control the standard does not know"""
            sim.check(v & 3 == 3, "control-refused", f"{v:#04x}")
            continue
        s = v & 3 == 1
        got = x.is_info(), x.is_supervisory(), x.is_unnumbered(), x.is_receive_ready(), x.is_receive_not_ready(), x.is_reject(), x.is_selective_reject(), x.is_information()
        want = not v & 1, s, v & 3 == 3, s and v >> 2 & 3 == 0, s and v >> 2 & 3 == 1, s and v >> 2 & 3 == 2, s and v >> 2 & 3 == 3, not v & 1 or v & 0xEF == 3
        sim.check(got == want and bytes(x.content) == bytes([v]), "control-wrong", lambda: f"{v:#04x} is {got}, expected {want}")
        if v & 3 != 3:
            sim.check(x.is_poll == bool(v & 0x10), "control-wrong", f"P/F of {v:#04x}")
        sim.check(isinstance(str(x), str) and len(str(x)) > 0, "control-wrong", f"{v:#04x} has no name")
        if not v & 1:
            a = C.next_send_sequence(x)
            sim.check(int(a.value) == v & 0xF1 | ((v >> 1) + 1 & 7) << 1, "sequence-wrong", f"after {v:#04x} sent {a.value:#04x}")
            b = C.next_receiver_sequence(x)
            sim.check(int(b.value) == ((v >> 5) + 1 & 7) << 5 | 0x10 | v & 0xE, "sequence-wrong", f"after {v:#04x} received {b.value:#04x}")
            if op == "send":
                ns = ns + 1 & 7
            elif op == "receive":
                nr = nr + 1 & 7
        sim.log(op, v)
        sim.state(v & 3, v >> 2 & 3)


CHECK = Check(
    id="C02",
    scenarios=[Scenario("lossy", lossy, 3000, 40_000, 40), Scenario("wrap", long_run, 1000, 12_000, 20), Scenario("control", control, 4000, 100_000, 400)],
    rule="a run is one client talking to a meter over a simulated serial line with virtual time: seeded requests, line faults, meter "
         "restarts, reconnects; non-trivial: at least one fault or retransmission happened; distinct: different event log",
    real=["hdlc.frame (Frame, Address, Control sequence arithmetic, CRC, join_info)", "hdlc.negotiation", "hdlc.sub_layer.LLC"],
    stub=["serial line and clock (simulated)", "station state machines (retransmission timer, acknowledgement) written for the simulation",
          "meter application (echo)"],
    assumptions=["a stale copy of a numbered frame is at most 3 frames old (modulo-8 numbering)", "unnumbered frames are not delayed past their session",
                 "undetectable corruption (CRC collision) is turned into loss"],
    setup=S.setup,
)
