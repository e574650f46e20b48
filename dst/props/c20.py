"""C20 - what a client knows of remote meters is what they hold: reads, writes and methods through object model, PDUs, link and a bad line."""
from types import SimpleNamespace

from .. import axdr_ref as A, env, link, objgen as O, session as S
from ..core import Violation
from ..engine import Check, Scenario
from ..link import MS
from ..objgen import G, u16, u8, octet

#: attributes the client does not write: they come with others
NO_WRITE = {(5, 2), (5, 3), (21, 2), (21, 3), (71, 2), (71, 3), (71, 4), (71, 5)}
KINDS = {1: 0, 3: 0, 4: 0}


def setup():
    S.setup()
    with env.quiet():
        O.bind()
        import src.DLMS_SPODES.exceptions as exc
    G.exc = exc
    G.bad = (ValueError, TypeError, KeyError, IndexError, AttributeError, G.ut.UserfulTypesException, exc.DLMSException)


def ln(t):
    return G.cst.LogicalName(bytearray(t))


class Node:
    """a meter: its real objects, and what was put in them"""

    def __init__(self, sim, name, objs, ass, entries, values):
        self.name, self.ass, self.objs = name, ass, objs
        self.model = dict(values)
        self.rights = {o.t: (at, me) for o, at, me in entries}
        self.cls = {o.t: (o.c, o.v) for o, _, _ in entries}
        self.done = []
        self.rows = {}
        self.start()

    def start(self):
        """power on: the objects are made again from what is stored"""
        c = self.real = G.col.Collection()
        for t, (k, v) in self.cls.items():
            c.add(G.ut.CosemClassId(k), G.cdt.Unsigned(v), ln(t))
        if self.ass.t not in self.cls:
            c.add(G.ut.CosemClassId(15), G.cdt.Unsigned(0), ln(self.ass.t))
        for t, i in sorted(self.model, key=lambda x: order(self.cls.get(x[0], (15,))[0], x[1])):
            if i != 1:
                c.get(bytes(t)).set_attr(i, A.encode(self.model[t, i]))


def chosen(rows, sel):
    """the entries a selection asks for"""
    if sel[:1] == b"\0":
        return 1, [(2, r) for r in rows]
    p = A.decode(sel[2:])[0][1]
    a, b, x, y = (int.from_bytes(e[1], "big") for e in p)
    return 1, [(2, r[x - 1:y or None]) for r in rows[a - 1:b or None]]


def order(c, i):
    return (0 if c in (1, 3, 4) else 1), c, ({6: -2, 3: -1}.get(i, i) if c == 7 else {3: 0}.get(i, i) if c == 21 else i)


class World(S.World):
    def __init__(self, sim, nodes, rates):
        super().__init__(sim, len(nodes), rates, windows=True)
        self.nodes = dict(zip((m.name for m in self.meters), nodes))
        self.sent = {}
        self.views = {}
        self.invoke = 0

    # ---- the meters --------------------------------------------------------------------------------------------------
    def execute(self, meter, msg):
        sim, n = self.sim, self.nodes[meter.name]
        apdu = bytes(S.M.LLC(content=bytearray(msg)).info)
        want = self.sent.get(apdu[:3])
        sim.check(want is not None and want[1] == apdu, "request-corrupted", lambda: f"{meter.name} executes {apdu[:40].hex()}, sent {want and want[1][:40].hex()}")
        sim.check(want[0] is meter, "wrong-station", f"request for {want[0].name} executed by {meter.name}")
        want[2] += 1
        sim.check(want[2] == 1, "executed-twice", f"{apdu[:16].hex()}")
        resp = self.serve(n, apdu)
        sim.log(meter.name, "serves", apdu[:12].hex(), resp[:4].hex())
        want[3] = resp
        return bytes(S.M.LLC(content=bytearray(b"\xe6\xe7\x00" + resp)).content)

    def serve(self, n, apdu):
        sim, ut = self.sim, G.ut
        head = bytes([apdu[0] + 4]) + apdu[1:3]
        if apdu[0] == 0xC3:
            d = ut.CosemMethodDescriptor.from_contents(apdu[3:12])
            t, i = tuple(d.instance_id.value), int(d.method_id)
            n.done.append((t, i, apdu[13:]))
            return head + b"\0\0"
        d = ut.CosemAttributeDescriptor.from_contents(apdu[3:12])
        t, i = tuple(d.instance_id.value), int(d.attribute_id)
        o = n.real.get(bytes(t))
        if o is None or int(o.CLASS_ID) != int(d.class_id) or t not in n.rights:
            return head + (b"\1\4" if apdu[0] == 0xC0 else b"\4")
        mode = n.rights[t][0].get(i, 0)
        if apdu[0] == 0xC0:
            if mode not in (1, 3):
                return head + b"\1\3"
            if t in n.rows and i == 2:
                return head + b"\0" + A.encode(chosen(n.rows[t], apdu[12:]))
            v = o.get_attr(i)
            x = n.model.get((t, i))
            if x is None:
                return head + b"\1\x0b"
            sim.check(v is not None and v.encoding == A.encode(x), "meter-differs", lambda: f"{n.name} {t} attribute {i} is {v and v.encoding.hex()}, last written {A.encode(x).hex()}")
            return head + b"\0" + v.encoding
        if mode not in (2, 3):
            return head + b"\3"
        o.set_attr(i, apdu[13:])
        n.model[t, i] = A.decode(apdu[13:])[0]
        return head + b"\0"

    # ---- the client --------------------------------------------------------------------------------------------------
    def exchange(self, meter, apdu, bound=120_000):
        """-> answer or None (link lost: executed or not)"""
        sim = self.sim
        self.sent[apdu[:3]] = rec = [meter, apdu, 0, None]
        done = []
        self.client.request(bytes(S.M.LLC(message=apdu).content), done.append)
        if not self.wait(lambda: bool(done), bound, "request") or not done[0]:
            sim.probe("link lost")
            return None, rec
        ans = self.client.answer
        sim.check(rec[2] == 1 and ans == b"\xe6\xe7\x00" + rec[3], "answer-wrong", lambda: f"answer {ans[:24].hex()}, the meter answered {rec[3] and rec[3][:20].hex()}")
        apdu2 = bytes(S.M.LLC(content=bytearray(ans)).info)
        sim.check(apdu2[2:3] == apdu[2:3], "answer-wrong", "invoke id")
        return apdu2, rec

    def head(self, service):
        """every request another number: 4 bits of invoke id and the type octet are enough to tell neighbours"""
        self.invoke = (self.invoke + 1) & 15
        self.sent.pop(bytes([service, 1, 0xC0 | self.invoke]), None)
        return bytes([service, 1, 0xC0 | self.invoke])


class View:
    """the client's collection of one meter"""

    def __init__(self, c, w, meter, n):
        self.c, self.w, self.meter, self.n = c, w, meter, n
        self.known = {}                       # (t, i): octets last read or written
        self.unsure = {}                      # (t, i): octets a lost write may have brought
        self.listed = False

    def ready(self):
        """association object to begin with"""
        if self.c.get(bytes(self.n.ass.t)) is None:
            self.c.add(G.ut.CosemClassId(15), G.cdt.Unsigned(0), ln(self.n.ass.t))

    def read(self, t, i):
        sim, w, n = self.w.sim, self.w, self.n
        o = self.c.get(bytes(t))
        before = o.get_attr(i)
        before = before if before is None else before.encoding
        if i == 2 and int(o.CLASS_ID) == 7:
            d = o.get_attr_descriptor(2, with_selection=True).contents
            apdu = w.head(0xC0) + d
        else:
            apdu = w.head(0xC0) + o.get_attr_descriptor(i).contents + b"\0"
        ans, rec = w.exchange(self.meter, apdu)
        sim.state("get", ans and ans[3], int(o.CLASS_ID), i)
        if ans is None:
            return None
        if ans[3]:
            after = o.get_attr(i)
            sim.check((after if after is None else after.encoding) == before, "refused-changes", f"{t} attribute {i}")
            return False
        try:
            o.set_attr(i, ans[4:])
        except G.exc.EmptyObj:
            sim.probe("value before what it depends on")
            return False
        self.known[t, i] = ans[4:]
        self.unsure.pop((t, i), None)
        self.side(t, i)
        if o is self.c.get(bytes(n.ass.t)) and i == 2:
            self.listed = True
            for x, (k, v) in n.cls.items():
                y = self.c.get(bytes(x))
                sim.check(y is not None and int(y.CLASS_ID) == k and int(y.VERSION) == v, "object-missing", f"the meter lists {x} of class {k} version {v}, the client has {y and (int(y.CLASS_ID), int(y.VERSION))}")
        return True

    def profile(self, t):
        """choose entries and columns, read them"""
        sim = self.w.sim
        o = self.c.get(bytes(t))
        if o.sort_object is None or o.capture_objects is None:
            return False
        n = len(o.capture_objects)
        if sim.chance(0.6):
            a = sim.int(1, n)
            sel = sim.int(1, 6), sim.pick((0, 8)), a, sim.pick((0, sim.int(a, n)))
            o.buffer.selective_access.set_selector(2, A.encode((2, [(6, x.to_bytes(4, "big")) for x in sel[:2]] + [u16(x) for x in sel[2:]])))
            r = self.read(t, 2)
            if r:
                sim.probe("selected profile")
                want = A.encode(chosen(self.n.rows[t], b"\1\2" + A.encode((2, [(6, x.to_bytes(4, "big")) for x in sel[:2]] + [u16(x) for x in sel[2:]]))))
                sim.check(self.known[t, 2] == want, "selection-wrong", lambda: f"selected {sel}: {self.known[t, 2].hex()[:80]}, the meter holds {want.hex()[:80]}")
            return r
        sim.probe("whole profile")
        return self.read(t, 2)

    def side(self, t, i):
        """attributes that are set again along with this one"""
        k = self.n.cls.get(t, (15, 0))[0]
        if k == 71 and i == 2:
            for j in (3, 4, 5):
                self.known.pop((t, j), None)

    def write(self, t, i):
        sim, w = self.w.sim, self.w
        o = self.c.get(bytes(t))
        had = o.get_attr(i)
        typ = o.get_attr_element(i).DATA_TYPE
        if had is None and isinstance(typ, G.ut.CHOICE):
            return
        x = O.gen(sim, type(had) if had is not None else typ)
        if x is None or not O.fits(type(had) if had is not None else typ, x):
            return
        e = A.encode(x)
        v = had.copy() if had is not None else typ()
        v.set(e)
        sim.check(v.encoding == e, "value-wrong", f"{t} attribute {i}: {v.encoding.hex()} made of {e.hex()}")
        ans, rec = w.exchange(self.meter, w.head(0xC1) + o.get_attr_descriptor(i).contents + b"\0" + v.encoding)
        sim.state("set", ans and ans[3], int(o.CLASS_ID), i)
        if ans is None:
            sim.fault("write_unanswered")
            self.unsure[t, i] = True
            return
        if ans[3] == 0:
            o.set_attr(i, v.encoding)
            self.known[t, i] = e
            self.unsure.pop((t, i), None)
            self.side(t, i)

    def act(self, t, i):
        sim, w = self.w.sim, self.w
        o = self.c.get(bytes(t))
        p = o.get_meth(i).encoding
        n = len(self.n.done)
        ans, rec = w.exchange(self.meter, w.head(0xC3) + o.get_meth_descriptor(i).contents + b"\1" + p)
        if ans is not None:
            sim.check(len(self.n.done) == n + 1 and self.n.done[-1] == (t, i, p), "method-wrong", f"{t} method {i}: the meter did {self.n.done[n:]}")
        sim.state("action", ans is not None, int(o.CLASS_ID), i)

    def check(self):
        for (t, i), e in self.known.items():
            v = self.c.get(bytes(t)).get_attr(i)
            self.w.sim.check(v is not None and v.encoding == e, "client-differs", lambda: f"{self.n.name} {t} attribute {i} of the client is {v and v.encoding.hex()}, last exchanged {e.hex()}")


def make_nodes(sim, count, profiles=False):
    """meters of one type: the same objects, other values"""
    if profiles:
        objs, asses, lists = O.meter(sim, size=(0, 2), associations=(1, 1), full=1.0, kinds=((1, 0), (3, 0), (1, 0), (3, 0), (8, 0), (7, 1)), columns=6)
    else:
        objs, asses, lists = O.meter(sim, size=(2, 7), associations=(1, 1), full=1.0)
    a = asses[0]
    ents = lists[a.t]
    for o, at, me in ents:
        cnt = len(O.cls_of(o.c, o.v).M_ELEMENTS or ())
        me.clear()
        me.update({i: sim.draw(2) for i in range(1, cnt + 1) if o.c != 15})
        if o.c == 15:
            at.update({i: 1 for i in (1, 2, 3)})
        elif profiles and o.c in (1, 3, 7):
            at.update({i: 1 for i in at})
    a.attrs[2] = O.object_list(ents)
    nodes = []
    for k in range(count):
        values = {(o.t, i): x for o in objs + [a] for i, x in o.attrs.items()}
        for o in objs + [a]:
            values[o.t, 1] = octet(o.t)
        if k:
            for o in objs:
                for i in o.attrs:
                    if o.c in (1, 3, 4) and i == 2 or o.c in (8, 22, 20, 41, 42, 45, 64):
                        x = again(sim, o, i, values[o.t, i])
                        values[o.t, i] = x if x is not None else values[o.t, i]
        n = Node(sim, f"M{k}", objs, a, ents, values)
        for o in objs:
            if o.c == 7 and 3 in o.attrs:
                tags = [values[tuple(x[1][1][1]), 2][0] for x in o.attrs[3][1]]
                n.rows[o.t] = [[O.simple(sim, g) for g in tags] for _ in range(sim.pick((0, 1, 3, 20)))]
        nodes.append(n)
    return nodes, objs, a


def again(sim, o, i, x):
    typ = O.cls_of(o.c, o.v).get_attr_element(i).DATA_TYPE
    if isinstance(typ, G.ut.CHOICE):
        return O.simple(sim, x[0])
    y = O.gen(sim, typ, [(1, (0, 0, 128, 1, 1, 255), 2)])
    return y if y is not None and O.fits(typ, y) else None


def readout(sim):
    """mostly the profile: chosen entries and columns, again and again"""
    remote(sim, profiles=True)


def remote(sim, profiles=False):
    rates = sim.swarm(link.LINE, none=0.2)
    count = sim.pick((1, 1, 2))
    nodes, objs, a = make_nodes(sim, count, profiles)
    w = World(sim, nodes, rates)
    for m in w.meters:
        n = w.nodes[m.name]
        n.name = m.name
        w.views[m.name] = View(G.col.Collection(), w, m, n)
        w.views[m.name].ready()
    cur = None
    names = sorted(nodes[0].cls)
    for _ in sim.steps(40, 22):
        if sim.chance(0.06):
            m = sim.pick(w.meters)
            m.restart()
            w.nodes[m.name].start()
            w.views[m.name].meter = m
        if cur is None or sim.chance(0.08 if count == 1 else 0.25):
            cur = sim.pick(w.meters)
            ok = w.connect(cur, S.rand_neg(sim))
            if not ok:
                cur = None
                continue
        v, n = w.views[cur.name], w.nodes[cur.name]
        if not v.listed:
            other = next((x for x in w.views.values() if x.listed), None)
            if other is not None and sim.chance(0.5):
                """the meter is of the same type as one that is known: begin with a copy of it"""
                v.c = other.c.copy()
                v.ready()
                v.listed = True
                sim.fault("copy_of_type")
                continue
            if v.read(n.ass.t, 2) is None:
                cur = None
            continue
        t = sim.pick(names)
        if sim.chance(0.6 if profiles else 0.15):
            t = next((x for x in names if x in n.rows), t)
        o = v.c.get(bytes(t))
        c = n.cls[t][0]
        op = sim.weighted([(6, "read"), (4, "write"), (1, "act"), (1, "meter")])
        i = sim.int(1, len(o.A_ELEMENTS) + 1)
        if c == 7 and sim.chance(0.8 if profiles else 0.4):
            op, i = "read", 2
        if op == "read" and (c, i) == (7, 2):
            if t in n.rows and permitted(sim, v, t, i, "is_readable", (1, 3)):
                for j in (6, 3):
                    if v.c.get(bytes(t)).get_attr(j) is None and permitted(sim, v, t, j, "is_readable", (1, 3)) and cur and v.read(t, j) is None:
                        cur = None
                if cur and v.profile(t) is None:
                    cur = None
        elif op == "read" and ((t, i) in n.model or sim.chance(0.2)) and (c, i) != (7, 2):
            if permitted(sim, v, t, i, "is_readable", (1, 3)):
                if v.read(t, i) is None:
                    cur = None
        elif op == "write" and (t, i) in n.model and i > 1 and c not in (7, 15) and (c, i) not in NO_WRITE:
            if permitted(sim, v, t, i, "is_writable", (2, 3)):
                v.write(t, i)
                if (t, i) in v.unsure:
                    cur = None
        elif op == "act" and n.rights[t][1] and v.known.get((n.ass.t, 2)):
            i = sim.pick(sorted(n.rights[t][1]))
            r = v.c.is_accessible(ln(t), i, n.ass.t[4])
            sim.check(r == bool(n.rights[t][1][i]), "rights-wrong", f"{t} method {i}: accessible {r}")
            if r:
                v.act(t, i)
                if not w.client.state == "idle":
                    cur = None
        elif op == "meter" and c in KINDS and (t, 2) in n.model:
            """the meter measures"""
            x = O.simple(sim, n.model[t, 2][0])
            n.real.get(bytes(t)).set_attr(2, A.encode(x))
            n.model[t, 2] = x
            sim.fault("measured")
        for x in w.views.values():
            x.check()
    # faults stop: the client can read everything there is
    w.bus.faulty = False
    for m in w.meters:
        v, n = w.views[m.name], w.nodes[m.name]
        ok = w.connect(m, S.rand_neg(sim), 15_000)
        sim.check(ok is True, "no-progress:connect", "no connection within 15 simulated seconds although the line is clean")
        sim.check(v.read(n.ass.t, 2) is True, "no-progress:read", "object list")
        for t, i in sorted(n.model, key=lambda x: order(n.cls.get(x[0], (15,))[0], x[1])):
            if t not in n.rights or not permitted(sim, v, t, i, "is_readable", (1, 3)):
                continue
            r = v.read(t, i)
            sim.check(r is not None, "no-progress:read", f"{t} attribute {i}")
            if n.cls[t][0] not in (71, 7, 21):
                sim.check(r is True, "read-refused", f"{t} attribute {i}")
        for (t, i), e in v.known.items():
            if (t, i) in n.model and t in n.rights and n.rights[t][0].get(i, 0) in (1, 3):
                sim.check(e == A.encode(n.model[t, i]), "client-differs", lambda: f"{n.name} {t} attribute {i}: the client has {e.hex()}, the meter {A.encode(n.model[t, i]).hex()}")
    for x in w.views.values():
        x.check()
    sim.log("end", [len(x.known) for x in w.views.values()])


def permitted(sim, v, t, i, fn, modes):
    n = v.n
    if v.known.get((n.ass.t, 2)) is None:
        r = n.rights[t][0].get(i, 0) in modes
        return r
    r = getattr(v.c, fn)(ln(t), i, n.ass.t[4])
    sim.check(r == (n.rights[t][0].get(i, 0) in modes), "rights-wrong", f"{t} attribute {i}: {fn} {r}, the meter lists {n.rights[t][0].get(i)}")
    return r


CHECK = Check(
    id="C20",
    scenarios=[Scenario("remote", remote, 1200, 28_000, 20), Scenario("readout", readout, 500, 12_000, 20)],
    rule="a run is one client with one or two meters of 2 to 7 generated objects on a simulated serial line with virtual time: object lists, reads, writes and methods, line faults, lost links, meter restarts, "
         "values measured meanwhile, copies of a known type; non-trivial: a fault was injected",
    real=["collection and COSEM classes on both sides", "useful types (descriptors)", "hdlc.frame, hdlc.negotiation, hdlc.sub_layer.LLC", "data types"],
    stub=["serial line and clock (simulated)", "station state machines", "service dispatch of the meter (get, set, action)"],
    assumptions=["a stale copy of a numbered frame is at most 3 frames old (modulo-8 numbering)"],
    setup=setup,
)
