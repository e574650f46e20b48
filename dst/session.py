"""Whole link sessions: workload, faults, oracles.  Used by C02 (exactly once), C03 (reassembly), C05 (addressing)."""
from __future__ import annotations

from types import SimpleNamespace

from . import env
from .link import Bus, Client, Meter, LINE, MS

M = None


def setup():
    global M
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        from src.DLMS_SPODES.hdlc import frame as F
        from src.DLMS_SPODES.hdlc import negotiation as N
        from src.DLMS_SPODES.hdlc.sub_layer import LLC
    M = SimpleNamespace(F=F, N=N, LLC=LLC)


SIZES = (128, 32, 33, 127, 129, 255, 256, 500, 1024, 2030)


def fields(n):
    return n.max_info_transmit, n.max_info_receive, n.window_transmit, n.window_receive


def rand_neg(sim, windows=True):
    w = (1, 1, 2, 3, 7) if windows else (1,)
    return M.N.Negotiation(max_info_transmit=sim.pick(SIZES), max_info_receive=sim.pick(SIZES),
                           window_transmit=1, window_receive=sim.pick(w))


def caps(sim, windows=True, rates=None):
    """with windows over 3 a receive ready frame that comes late, behind the next one, acknowledges frames that were not received:
    numbers modulo 8 cannot tell, and the standard has no such lines"""
    late = rates and (rates.get("hold") or rates.get("dup_late"))
    w = (1,) if not windows else (1, 2, 3, 3) if late else (1, 2, 4, 7)
    return M.N.Negotiation(max_info_transmit=sim.pick(SIZES), max_info_receive=sim.pick(SIZES),
                           window_transmit=sim.pick(w), window_receive=1)


def rand_address(sim):
    F = M.F
    size = sim.pick((1, 2, 4))
    if size == 1:
        return F.Address(upper_address=1 + sim.draw(127))
    if size == 2:
        return F.Address(upper_address=sim.pick((1, 0x10, 0x7F)), lower_address=1 + sim.draw(127))
    return F.Address(upper_address=sim.pick((1, 0x10, 0x7F, 0x80, 0x3FFF)), lower_address=sim.pick((0x80, 0x81, 0x100, 0x3FFF, 0x1234)))


def twin(sim, a):
    """another address that shares octets with `a` (upper or lower part, order, length)"""
    F = M.F
    up, lo = a.upper, a.lower
    if lo is None:
        return F.Address(upper_address=up ^ 1 or 2) if sim.chance(0.5) else F.Address(upper_address=up, lower_address=1 + sim.draw(127))
    k = sim.draw(3)
    if k == 0 and lo != up and 0 < lo and 0 < up:
        return F.Address(upper_address=lo, lower_address=up)
    if k == 1:
        return F.Address(upper_address=up, lower_address=(lo ^ 1) or 2)
    return F.Address(upper_address=(up ^ 1), lower_address=lo)


class World:
    def __init__(self, sim, n_meters=1, rates=None, windows=True):
        self.sim = sim
        self.bus = Bus(sim, rates or {})
        self.caddr = M.F.Address(upper_address=sim.pick((0x10, 1, 0x20, 0x7F)))
        self.client = Client(sim, self.bus, M, "C", self.caddr)
        self.meters = []
        self.executed = {}
        addrs = []
        while len(addrs) < n_meters:
            a = rand_address(sim) if not addrs or sim.chance(0.3) else twin(sim, addrs[-1])
            tries = 0
            while a in addrs or a == self.caddr:
                tries += 1
                a = M.F.Address(upper_address=2 + (len(addrs) * 7 + tries) % 100)
            addrs.append(a)
        for i, a in enumerate(addrs):
            mt = Meter(sim, self.bus, M, f"M{i}", a, self.caddr, caps(sim, windows, rates), self.execute)
            self.meters.append(mt)
            self.executed[mt.name] = []
        self.rid = 0
        self.requests = {}

    # ---- application -----------------------------------------------------------------------------------------------
    def execute(self, meter, msg: bytes) -> bytes:
        sim = self.sim
        try:
            llc = M.LLC(content=bytearray(msg))
        except ValueError as e:
            sim.fail("llc-refused", f"{msg[:8].hex()}: {e}")
            raise
        apdu = llc.info
        rid = int.from_bytes(apdu[:4], "big")
        want = self.requests.get(rid)
        sim.log(meter.name, "executes", rid)
        sim.check(want is not None and want["apdu"] == apdu, "request-corrupted",
                  lambda: f"{meter.name} executed {apdu[:40].hex()}..[{len(apdu)}], sent {want and want['apdu'][:40].hex()}..[{want and len(want['apdu'])}]")
        sim.check(want["meter"] is meter, "wrong-station", f"request {rid} for {want['meter'].name} executed by {meter.name}")
        done = self.executed[meter.name]
        sim.check(rid not in done, "executed-twice", f"request {rid}")
        sim.check(not done or done[-1] < rid, "executed-out-of-order", f"{rid} after {done[-1:]}")
        done.append(rid)
        return bytes(M.LLC(content=bytearray(b"\xe6\xe7\x00" + want["resp"])).content)

    def wait(self, flag, bound_ms, what):
        """run the event loop until flag(); liveness bound in simulated time"""
        sim = self.sim
        t_end = sim.now + bound_ms * MS
        n = 0
        while not flag():
            k = sim.run_events(t_end, max_events=2000, stop=flag)
            n += k
            if flag():
                break
            if k == 0 or sim.now >= t_end or n > 200_000:
                return False
        return True

    def settle(self):
        """silence on the line: everything in flight arrives, nothing stale is kept"""
        self.bus.late.clear()
        sim = self.sim
        self.client.state = "idle"
        sim.cancel(self.client.timer)
        sim.run_events(sim.now + 5_000 * MS)
        self.bus.late.clear()
        sim.now = max(sim.now, self.bus.free_at) + 200 * MS

    def connect(self, meter, neg, bound_ms=60_000):
        done = []
        self.settle()
        self.client.open(meter.addr, neg, done.append)
        if not self.wait(lambda: bool(done), bound_ms, "connect"):
            return None
        return done[0]

    def ask(self, meter, n_req, n_resp, bound_ms):
        """one request/response; True: answered, False: link lost, None: no answer within the bound"""
        sim = self.sim
        self.rid += 1
        apdu = self.rid.to_bytes(4, "big") + sim.blob(n_req)
        resp = (self.rid ^ 0xFFFFFFFF).to_bytes(4, "big") + sim.blob(n_resp)
        self.requests[self.rid] = {"apdu": apdu, "resp": resp, "meter": meter}
        done = []
        self.client.request(bytes(M.LLC(message=apdu).content), done.append)
        if not self.wait(lambda: bool(done), bound_ms, "request"):
            return None
        if done[0]:
            ans = self.client.answer
            sim.check(ans == b"\xe6\xe7\x00" + resp, "answer-wrong",
                      lambda: f"request {self.rid}: answer {ans[:24].hex()}..[{len(ans)}], the meter answered {resp[:20].hex()}..[{len(resp) + 3}]")
            sim.check(self.executed[meter.name][-1:] == [self.rid], "answer-without-execution", f"request {self.rid}")
        return done[0]


def agree(sim, client, meter, asked):
    a, b = client.neg, meter.neg
    c = meter.caps
    want = (min(asked[0], c.max_info_receive), min(asked[1], c.max_info_transmit),
            min(asked[2], c.window_receive), min(asked[3], c.window_transmit))
    got = (a.max_info_transmit, a.max_info_receive, a.window_transmit, a.window_receive)
    sim.check(got == want, "negotiation-wrong-value", f"asked {asked}, the meter allows rx {c.max_info_receive}/{c.window_receive} "
              f"tx {c.max_info_transmit}/{c.window_transmit}: negotiated {got}, expected {want}")
    sim.check(b is not None, "connected-without-handshake", "")
    for x, y, n in ((a.max_info_transmit, b.max_info_receive, "client->meter size"), (a.max_info_receive, b.max_info_transmit, "meter->client size"),
                    (a.window_transmit, b.window_receive, "client->meter window"), (a.window_receive, b.window_transmit, "meter->client window")):
        sim.check(x == y, "negotiation-disagrees", f"{n}: client {x}, meter {y}")


def session(sim, *, n_meters=1, restarts=True, long_messages=False, windows=True, max_req=14):
    rates = sim.swarm(LINE, none=0.15)
    w = World(sim, n_meters, rates, windows)
    cur = None
    for _ in sim.steps(max_req, 7):
        if restarts and cur is not None and sim.chance(0.06):
            cur.restart()
        if cur is None or sim.chance(0.12 if n_meters == 1 else 0.35):
            cur = w.meters[sim.draw(n_meters)]
            neg = rand_neg(sim, windows)
            asked = fields(neg)
            ok = w.connect(cur, neg)
            if ok is None:
                cur = None
                sim.probe("no connection while the line is bad")
                continue
            agree(sim, w.client, cur, asked)
        if long_messages:
            n_req = sim.weighted([(3, 4), (3, sim.int(0, 600)), (1, sim.int(0, 3000))])
            n_resp = sim.weighted([(1, 4), (4, sim.int(0, 900)), (2, sim.int(0, 5000))])
        else:
            n_req = sim.weighted([(6, sim.int(0, 20)), (1, sim.int(0, 300))])
            n_resp = sim.weighted([(6, sim.int(0, 20)), (2, sim.int(0, 400))])
        # a message must fit into 8 outstanding numbers per direction only through acknowledgements; cap the segment count
        cap = 24
        n_req = min(n_req, cap * w.client.neg.max_info_transmit - 8)
        n_resp = min(n_resp, cap * cur.neg.max_info_transmit - 8) if cur.neg else n_resp
        r = w.ask(cur, n_req, n_resp, 120_000)
        sim.state(r, min(len(w.executed[cur.name]), 9), w.client.neg.window_receive, n_resp > w.client.neg.max_info_receive,
                  n_req > w.client.neg.max_info_transmit)
        if not r:
            sim.probe("request abandoned" if r is None else "link lost")
            cur = None
    # faults stop: the system must serve a request
    w.bus.faulty = False
    meter = w.meters[sim.draw(n_meters)]
    for attempt in range(2):
        neg = rand_neg(sim, windows)
        asked = fields(neg)
        ok = w.connect(meter, neg, 15_000)
        sim.check(ok is True, "no-progress:connect", "no connection within 15 simulated seconds although the line is clean")
        agree(sim, w.client, meter, asked)
        r = w.ask(meter, 10, 300, 60_000)
        sim.check(r is True, "no-progress:request", "no answer within 60 simulated seconds although the line is clean")
    sim.log("end", w.executed)
