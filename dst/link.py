"""A DLMS/HDLC link in simulation: one primary (client) and several secondaries (meters) on a shared serial bus.

The stations below are the smallest state machines ISO/IEC 13239 NRM needs; every wire decision is taken by the package:
Frame construction and try_from, Frame.is_for_me, Frame.is_next / is_next_send, Control.next_*_sequence, Frame.join_info,
Negotiation, LLC.  Bytes travel over a simulated line with virtual time.
"""
from __future__ import annotations

from collections import deque

from . import hdlc_ref as ref
from .serial import damage

MS = 1000
LINE = {"bit_flip": 0.004, "drop_octet": 0.003, "dup_octet": 0.002, "insert_octet": 0.003, "noise_burst": 0.06,
        "cut_frame": 0.05, "drop_frame": 0.15, "extra_flag": 0.2, "dup_late": 0.12, "dup_now": 0.12, "hold": 0.06,
        "slow": 0.15, "stall": 0.03}


class Bus:
    """shared medium: what one station sends, every other station hears"""

    def __init__(self, sim, rates):
        self.sim, self.rates = sim, rates
        self.stations = []
        self.sent: set[bytes] = set()
        self.late: list = []                     # [frames_to_go, bytes]
        self.free_at = 0
        self.faulty = True
        self.heard = bytearray()

    def send(self, src, wire: bytes):
        sim = self.sim
        self.sent.add(wire)
        out = []
        rates = self.rates if self.faulty else {}
        seen = damage(sim, rates, wire)
        if seen != wire:
            # an undetectable corruption (CRC collision) is outside every guarantee: fall back to a lost frame
            window = bytes(self.heard[-2100:]) + seen
            for fr in ref.scan(window + bytes(16)):
                if fr[5] not in self.sent:
                    sim.probe("undetectable corruption avoided")
                    seen = b""
                    break
        numbered = wire[-4:] and self.numbered(wire)
        hold = seen and numbered and sim.chance(rates.get("hold", 0))
        if hold:
            sim.fault("reorder", len(seen))
            self.late.append([1, seen, src])
        elif seen:
            out.append(seen)
            if sim.chance(rates.get("dup_now", 0)):
                sim.fault("dup_now")
                out.append(seen)
            if numbered and sim.chance(rates.get("dup_late", 0)):
                k = sim.int(1, 3)
                sim.fault("dup_late", k)
                self.late.append([k, seen, src])
        for item in list(self.late):
            item[0] -= 1
            if item[0] < 0:
                self.late.remove(item)
                out.append(item[1])
        for data in out:
            self.transmit(src, data, rates)

    @staticmethod
    def numbered(wire: bytes) -> bool:
        """I and S frames carry sequence numbers; unnumbered ones cannot be told from a stale copy by any receiver"""
        st, f = ref.parse_at(wire, 0)
        return st == "ok" and f[2] & 3 != 3

    def transmit(self, src, data, rates):
        sim = self.sim
        self.heard += data
        if len(self.heard) > 6000:
            del self.heard[:3000]
        at = max(sim.now, self.free_at)
        n = sim.pick((1, 1, 2, 3, 5))
        size = max(1, -(-len(data) // n))
        if sim.chance(rates.get("stall", 0)):
            at += 1500 * MS
            sim.fault("stall")
        for i in range(0, len(data), size):
            piece = data[i:i + size]
            at += 200 * len(piece)
            if i and sim.chance(rates.get("slow", 0)):
                at += sim.int(1, 60) * MS
                sim.fault("slow")
            for st in self.stations:
                if st is not src:
                    sim.after(at - sim.now, st.hear, piece)
        self.free_at = at


class Station:
    INTER_OCTET = 100 * MS

    def __init__(self, sim, bus, m, name):
        self.sim, self.bus, self.m, self.name = sim, bus, m, name
        self.buf = bytearray()
        self.last_octet = 0
        bus.stations.append(self)

    def hear(self, piece: bytes):
        if self.sim.now - self.last_octet > self.INTER_OCTET and self.buf:
            self.buf.clear()
        self.last_octet = self.sim.now
        self.buf.extend(piece)
        while True:
            before = len(self.buf)
            fr = self.m.F.Frame.try_from(self.buf)
            if fr is not None:
                self.on_frame(fr)
            elif len(self.buf) >= before:
                return

    def tx(self, fr):
        wire = bytes(fr.content)
        self.sim.log(self.name, "->", fr.control.name or int(fr.control), f"info[{len(fr.info)}]", "seg" if fr.is_segmentation else "")
        self.bus.send(self, wire)

    @staticmethod
    def split(msg: bytes, size: int):
        return [msg[i:i + size] for i in range(0, len(msg), size)] or [b""]


class Meter(Station):
    """secondary station"""

    def __init__(self, sim, bus, m, name, addr, client_addr, caps, execute):
        super().__init__(sim, bus, m, name)
        self.addr, self.client_addr, self.caps, self.execute = addr, client_addr, caps, execute
        self.neg = None
        self.reset()
        self.connected = False
        self.restarts = 0

    def reset(self):
        C = self.m.F.Control
        self.expect = C.S0_R0_PF            # control of the next acceptable I frame
        self.segs = deque()
        self.out = []                       # segments of the response being sent
        self.acked = 0
        self.tx_ctl = C.S0_R1_PF            # control of the first unacknowledged response segment
        self.last_rx = None
        self.rr = C.RR_R0_PF
        self.reply = []

    def restart(self):
        self.sim.fault("meter_restart", self.name)
        self.restarts += 1
        self.buf.clear()
        self.connected = False
        self.neg = None
        self.reset()

    def frame(self, control, info=b"", seg=False):
        return self.m.F.Frame(DA=self.client_addr, SA=self.addr, control=control, info=info, is_segmentation=seg)

    def on_frame(self, fr):
        sim, C = self.sim, self.m.F.Control
        if not fr.is_for_me(DA=self.client_addr, SA=self.addr):
            sim.probe("frame for another station ignored")
            return
        ctl = fr.control
        if ctl == C.SNRM_P:
            self.on_snrm(fr)
        elif ctl == C.DISC_P:
            self.connected = False
            self.tx(self.frame(C.UA_F))
        elif not self.connected:
            self.tx(self.frame(C.DM_F))
        elif ctl.is_info():
            self.on_info(fr)
        elif ctl.is_receive_ready():
            self.on_rr(fr)

    def on_snrm(self, fr):
        N = self.m.N.Negotiation
        peer = N()
        try:
            peer.set_from_UA(fr.info)         # the SNRM parameter field has the same coding
        except ValueError:
            self.sim.fail("snrm-refused", f"the meter cannot decode the client's SNRM parameters {fr.info.hex()}")
            return
        # what I may send is bounded by what the peer can receive (already swapped by set_from_UA)
        self.neg = N(max_info_transmit=min(self.caps.max_info_transmit, peer.max_info_transmit),
                     max_info_receive=min(self.caps.max_info_receive, peer.max_info_receive),
                     window_transmit=min(self.caps.window_transmit, peer.window_transmit),
                     window_receive=min(self.caps.window_receive, peer.window_receive))
        self.reset()
        self.connected = True
        self.tx(self.frame(self.m.F.Control.UA_F, info=self.neg.info))

    def on_info(self, fr):
        sim, C = self.sim, self.m.F.Control
        sim.check(len(fr.info) <= self.neg.max_info_receive, "info-over-limit", f"{len(fr.info)} > {self.neg.max_info_receive}")
        new = fr.control == self.expect
        if self.last_rx is not None and self.segs and not new:
            # inside a segmented request the package decides what continues it
            sim.check(not fr.is_next_send(self.last_rx) or int(fr.control) | 0x10 == int(self.expect) | 0x10, "sequence-accepts-wrong",
                      f"{int(fr.control):#x} accepted as the successor of {int(self.last_rx.control):#x}")
        if new:
            if self.segs:
                sim.check(fr.is_next_send(self.last_rx), "sequence-rejects-next",
                          f"{int(fr.control):#x} is not accepted as the successor of {int(self.last_rx.control):#x}")
            self.segs.append(fr)
            self.out = []
            self.last_rx = fr
            self.rr = C.next_receiver_sequence(self.rr)
            self.expect = C.next_send_sequence(self.expect)
            if fr.is_segmentation:
                self.reply = [self.frame(self.rr)]
            else:
                msg = bytes(self.m.F.Frame.join_info(self.segs))
                self.segs.clear()
                resp = self.execute(self, msg)
                first = C((int(self.rr) & 0xE0) | 0x10 | (int(self.tx_base()) & 0x0E))
                self.out = self.split(resp, self.neg.max_info_transmit)
                self.tx_ctl = first
                self.acked = 0
                self.fill_window()
            self.send_reply()
        elif self.last_rx is not None and fr.control == self.last_rx.control:
            sim.probe("duplicate request recognised")
            self.send_reply()
        else:
            sim.probe("stale request ignored")

    def tx_base(self):
        """N(S) of my next I frame = N(R) the client must acknowledge = the N(R) inside self.expect"""
        return (int(self.expect) >> 5) << 1

    def fill_window(self):
        C = self.m.F.Control
        w = self.neg.window_transmit
        ctl = self.tx_ctl
        part = self.out[self.acked:self.acked + w]
        self.reply = []
        for i, seg in enumerate(part):
            last = i == len(part) - 1
            c = ctl if last else C(int(ctl) & ~0x10)
            self.reply.append(self.frame(c, seg, self.acked + i < len(self.out) - 1))
            ctl = C.next_send_sequence(ctl)
        self.win = len(part)
        if len(part) > 1:
            self.sim.probe("window of several frames sent")
        if not self.out[self.acked + w:]:
            # after the last segment the next request acknowledges all of them
            for _ in range(self.win):
                self.expect = C.next_receiver_sequence(self.expect)

    def on_rr(self, fr):
        sim, C = self.sim, self.m.F.Control
        if not self.out:
            if self.segs or self.last_rx is None:
                return
            self.send_reply()
            return
        nr = int(fr.control) >> 5
        base = int(self.tx_ctl) >> 1 & 7
        got = (nr - base) & 7
        if got == 0:
            sim.probe("window retransmitted")
            self.send_reply()
        elif got <= self.win and self.acked + self.win < len(self.out):
            self.acked += got
            for _ in range(got):
                self.tx_ctl = C.next_send_sequence(self.tx_ctl)
                self.expect = C.next_receiver_sequence(self.expect)
            if got < self.win:
                sim.probe("part of a window retransmitted")
            self.fill_window()
            self.send_reply()
        elif got < self.win:
            # part of the last window: retransmit the rest with the same numbers
            sim.probe("part of the last window retransmitted")
            for f in self.reply[got:]:
                self.tx(f)
        else:
            sim.probe("stale RR ignored")

    def send_reply(self):
        for f in self.reply:
            self.tx(f)


class Client(Station):
    """primary station: one session at a time, requests in order, retransmission on timeout"""
    TIMEOUT = 700 * MS

    def __init__(self, sim, bus, m, name, addr):
        super().__init__(sim, bus, m, name)
        self.addr = addr
        self.sess = None
        self.timer = None
        self.tries = 0

    def open(self, peer_addr, neg, on_done, max_tries=None):
        """connect; on_done(ok)"""
        self.peer, self.neg, self.on_done, self.max_tries = peer_addr, neg, on_done, max_tries
        C = self.m.F.Control
        self.state = "connecting"
        self.pending = [self.frame(C.SNRM_P, info=neg.info)]
        self.tries = 0
        self.push()

    def close(self, on_done):
        self.state = "closing"
        self.on_done = on_done
        self.pending = [self.frame(self.m.F.Control.DISC_P)]
        self.tries = 0
        self.push()

    def frame(self, control, info=b"", seg=False):
        return self.m.F.Frame(DA=self.peer, SA=self.addr, control=control, info=info, is_segmentation=seg)

    def push(self):
        for f in self.pending:
            self.tx(f)
        self.arm()

    def arm(self):
        self.sim.cancel(self.timer)
        self.timer = self.sim.after(max(0, self.bus.free_at - self.sim.now) + self.TIMEOUT, self.on_timeout)

    def on_timeout(self):
        self.timer = None
        if self.state in ("idle", "dead"):
            return
        self.tries += 1
        self.sim.log(self.name, "timeout", self.state, self.tries)
        self.sim.probe("retransmission")
        if self.max_tries is not None and self.tries > self.max_tries:
            self.finish(False)
            return
        self.push()

    def finish(self, ok):
        self.sim.cancel(self.timer)
        self.timer = None
        self.state = "idle" if ok else "dead"
        cb = self.on_done
        cb(ok)

    # ---- data ------------------------------------------------------------------------------------------------------
    def request(self, msg: bytes, on_done):
        """send one message, on_done(ok); the answer is in self.answer"""
        self.on_done = on_done
        self.state = "sending"
        self.out = self.split(msg, self.neg.max_info_transmit)
        self.answer = None
        self.multi = False
        self.segs = deque()
        self.tries = 0
        self.next_segment()

    def next_segment(self):
        seg = self.out.pop(0)
        self.pending = [self.frame(self.tx_ctl, seg, bool(self.out))]
        self.push()

    def on_frame(self, fr):
        sim, C = self.sim, self.m.F.Control
        if not fr.is_for_me(DA=self.peer, SA=self.addr):
            sim.probe("frame for another station ignored")
            return
        ctl = fr.control
        if self.state == "connecting":
            if ctl == C.UA_F:
                try:
                    self.neg.set_from_UA(fr.info)
                except ValueError:
                    sim.fail("ua-refused", f"the client cannot decode UA parameters {fr.info.hex()}")
                    return
                self.tx_ctl = C.S0_R0_PF
                self.expect = C.S0_R1_PF
                self.last_seen = None
                self.rr = C.RR_R0_PF
                self.finish(True)
        elif self.state == "closing":
            if ctl in (C.UA_F, C.DM_F):
                self.finish(True)
        elif self.state in ("sending", "receiving"):
            if ctl == C.DM_F:
                self.finish(False)
            elif ctl.is_receive_ready():
                self.on_rr(fr)
            elif ctl.is_info():
                self.on_info(fr)

    def on_rr(self, fr):
        C = self.m.F.Control
        if self.state == "sending" and self.out:
            nxt = C.next_send_sequence(self.tx_ctl)
            if (int(fr.control) >> 5) == (int(nxt) >> 1 & 7):
                self.tx_ctl = nxt
                self.expect = C.next_receiver_sequence(self.expect)
                self.multi = True
                self.tries = 0
                self.next_segment()

    def on_info(self, fr):
        """a response segment; the package decides whether it continues what was received"""
        sim, C = self.sim, self.m.F.Control
        sim.check(len(fr.info) <= self.neg.max_info_receive, "info-over-limit", f"{len(fr.info)} > {self.neg.max_info_receive}")
        if self.state == "sending" and self.out:
            return                                # my request is not complete yet: a stale response
        want = int(self.expect)
        got = int(fr.control)
        same = got | 0x10 == want | 0x10          # P/F only marks the end of a window
        if self.segs:
            nxt = fr.is_next_send(self.segs[-1])
            sim.check(nxt == same, "sequence-accepts-wrong" if nxt else "sequence-rejects-next",
                      f"after {int(self.segs[-1].control):#x}, {got:#x} (expected {want:#x})")
        else:
            if self.last_seen is not None and not self.multi and int(self.last_seen.control) & 0x10 and got & 0x10:
                # a one-frame request: its response is numbered N(S)+1, N(R)+1 after the previous response
                nxt = fr.is_next(self.last_seen)
                sim.check(nxt == same, "sequence-accepts-wrong" if nxt else "sequence-rejects-next",
                          f"next response: after {int(self.last_seen.control):#x}, {got:#x} (expected {want:#x})")
        if not same:
            sim.probe("stale response ignored")
            if got & 0x10 and self.segs and self.segs[-1].is_segmentation:
                # end of a window with a gap: ask again from the first missing frame
                self.pending = [self.frame(self.rr)]
                self.push()
            return
        self.segs.append(fr)
        self.state = "receiving"
        self.expect = C.next_send_sequence(self.expect)
        self.rr = C.next_receiver_sequence(self.rr)
        self.tries = 0
        self.arm()
        if fr.is_segmentation:
            self.pending = [self.frame(self.rr)]
            if got & 0x10:
                self.push()
            return
        n = len(self.segs)
        self.last_seen = fr
        self.answer = bytes(self.m.F.Frame.join_info(deque(self.segs)))
        # next request: one more sent, n more received
        self.tx_ctl = C.next_send_sequence(self.tx_ctl)
        for _ in range(n):
            self.tx_ctl = C.next_receiver_sequence(self.tx_ctl)
        self.expect = C.next_receiver_sequence(self.expect)
        self.finish(True)
