"""C03 - a segmented message is put together exactly, or refused: never shortened, reordered or mixed."""
from collections import deque

from ..engine import Check, Scenario
from .. import session as S


def link(sim):
    S.session(sim, restarts=False, long_messages=True, max_req=8)


def queue(sim):
    """the receive queue of one exchange with every damage a queue of received frames can show"""
    F = S.M.F
    C = F.Control
    da, sa = F.Address(upper_address=1), F.Address(upper_address=16)

    def fr(ctl, info, seg):
        return F.Frame(DA=da, SA=sa, control=ctl, info=info, is_segmentation=seg)

    n_msg = sim.int(1, 3)
    msgs = []
    ns, nr = sim.draw(8), sim.draw(8)
    q = []
    for m in range(n_msg):
        k = sim.weighted([(2, 1), (5, sim.int(2, 7)), (2, sim.int(2, 20))])
        win = sim.int(1, 7)
        parts = []
        for i in range(k):
            last_of_window = i == k - 1 or (i + 1) % win == 0
            ctl = C(nr << 5 | (0x10 if last_of_window else 0) | ns << 1)
            empty = sim.chance(0.08)
            if empty:
                sim.faults["empty_segment"] += 1
            parts.append(fr(ctl, b"" if empty else bytes((m, i)) + sim.blob(sim.int(0, 6)), i < k - 1))
            ns = ns + 1 & 7
        nr = nr + 1 & 7
        msgs.append(parts)
        q.append(parts)
    # what arrived: per message a list of frames with losses, copies, supervision
    stream = []
    lost_any = []
    for m, parts in enumerate(q):
        lost = None
        arrived = []
        for i, f in enumerate(parts):
            if len(parts) > 1 and i and sim.chance(0.08) and lost is None:
                sim.fault("lost_segment", m, i)
                lost = i
                continue
            if sim.chance(0.1):
                sim.fault("supervisory_between")
                arrived.append(fr(C(sim.draw(8) << 5 | 0x11), b"", False))
            arrived.append(f)
            if sim.chance(0.12):
                sim.fault("duplicate_segment", m, i)
                arrived.append(f)
            if i and sim.chance(0.06):
                sim.fault("older_segment_again", m, i)
                arrived.append(parts[max(0, i - 1 - sim.draw(2))])
        # a copy behind the final frame would belong to the next exchange: receivers drop it before queueing
        while arrived[-1] is not parts[-1] and lost is None:
            arrived.pop()
        if lost is None:
            while len(arrived) > 1 and arrived[-2] is parts[-1]:
                arrived.pop()
        lost_any.append(lost)
        stream.append(arrived)
    if sim.chance(0.1):
        sim.fault("queue_cut")
        cut = sim.draw(len(stream[-1])) if len(stream[-1]) > 1 else 0
        if cut and any(f is not stream[-1][-1] for f in stream[-1][:cut]):
            stream[-1] = [f for f in stream[-1][:cut] if f is not q[-1][-1]]
            lost_any[-1] = -1
    for m, arrived in enumerate(stream):
        want = b"".join(f.info for f in q[m])
        d = deque(arrived)
        sim.log("join", m, len(q[m]), "lost", lost_any[m], [int(f.control) for f in arrived])
        try:
            got = bytes(F.Frame.join_info(d))
        except ValueError:
            sim.check(lost_any[m] is not None, "complete-message-refused",
                      lambda: f"{[hex(int(f.control)) for f in arrived]} seg {[f.is_segmentation for f in arrived]}")
            sim.probe("incomplete message refused")
            continue
        if lost_any[m] is None:
            sim.check(got == want, "message-wrong", lambda: f"{got.hex()} expected {want.hex()} from {[hex(int(f.control)) for f in arrived]}")
        else:
            # up to 7 frames after a gap cannot be mistaken; the message must not be handed over shortened
            sim.check(len(q[m]) > 8, "incomplete-message-accepted", lambda: f"{got.hex()} although segment {lost_any[m]} of {len(q[m])} is missing")
        sim.state("queue", len(q[m]), lost_any[m], len(arrived) - len(q[m]))
    # two messages in one queue: taking the first leaves the second untouched
    if n_msg > 1 and lost_any[0] is None and lost_any[1] is None:
        d = deque(stream[0] + stream[1])
        a = bytes(F.Frame.join_info(d))
        b = bytes(F.Frame.join_info(d))
        sim.probe("two messages queued")
        sim.check(a == b"".join(f.info for f in q[0]) and b == b"".join(f.info for f in q[1]), "messages-mixed", f"{a.hex()} / {b.hex()}")


CHECK = Check(
    id="C03",
    scenarios=[Scenario("queue", queue, 6000, 200_000, 200), Scenario("link", link, 500, 15_000, 20)],
    rule="queue: the frames one receiver queued (losses, copies, supervisory frames, windows) are joined; link: long messages over the simulated "
         "lossy line with negotiated sizes and windows; non-trivial: a fault fired; distinct: different event log",
    real=["hdlc.frame (Frame.join_info, is_next_send, Control)", "hdlc.negotiation", "hdlc.sub_layer.LLC"],
    stub=["serial line and clock (simulated)", "station state machines", "meter application"],
    assumptions=["fewer than 8 consecutive segments are lost (modulo-8 numbering)"],
    setup=S.setup,
)
