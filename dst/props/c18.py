"""C18 - a firmware image sent block by block is the image at the meter, whatever is lost, refused or restarted on the way."""
from .. import axdr_ref as A, env, link as line, objgen as O, session as S
from ..engine import Check, Scenario
from ..objgen import G
from . import c20


def setup():
    c20.setup()
    with env.quiet():
        from src.DLMS_SPODES.cosem_interface_classes.image_transfer.ver0 import ImageTransfer
    G.Image = ImageTransfer


def u32(n):
    return 6, n.to_bytes(4, "big")


class Meter:
    """what the standard says a meter does (GB 4.4.6)"""

    def __init__(self, sim, bs):
        self.sim, self.bs, self.flash = sim, bs, {}
        self.id, self.size, self.status = None, 0, 0

    @property
    def n(self):
        return -(-self.size // self.bs)

    def missing(self):
        return [i for i in range(self.n) if i not in self.flash]

    def get(self, i):
        if i == 2:
            return A.encode(u32(self.bs))
        if i == 3:
            n = self.n
            bits = [i in self.flash for i in range(n)]
            b = bytearray(-(-n // 8))
            for k, on in enumerate(bits):
                if on:
                    b[k // 8] |= 0x80 >> k % 8
            return A.encode((4, (n, bytes(b))))
        if i == 4:
            return A.encode(u32(next(iter(self.missing()), self.n)))
        if i == 6:
            return A.encode((22, bytes([self.status])))

    def action(self, i, pdu):
        """-> done"""
        sim = self.sim
        x, rest = A.decode(pdu, 0)
        sim.check(rest == len(pdu), "request-wrong", f"method {i}: octets after the parameter {pdu.hex()}")
        if i == 1:
            sim.check(x[0] == 2 and [e[0] for e in x[1]] == [9, 6], "request-wrong", f"initiate {pdu.hex()}")
            self.id, self.size, self.status, self.flash = bytes(x[1][0][1]), int.from_bytes(x[1][1][1], "big"), 1, {}
            return True
        if i == 2:
            sim.check(x[0] == 2 and [e[0] for e in x[1]] == [6, 9], "request-wrong", f"block {pdu.hex()}")
            k, data = int.from_bytes(x[1][0][1], "big"), bytes(x[1][1][1])
            if self.status != 1 or k >= self.n or len(data) != min(self.bs, self.size - k * self.bs):
                return False
            self.flash[k] = data
            return True
        sim.check(x == (15, b"\0"), "request-wrong", f"method {i}: {pdu.hex()}")
        if i == 3:
            if self.missing():
                return False
            self.status = 3
        if i == 4:
            self.status = 6
        return True

    def image(self):
        return b"".join(self.flash[i] for i in range(self.n))


class Lost(Exception):
    pass


class Link:
    def __init__(self, sim, meter, bad):
        self.sim, self.meter, self.bad = sim, meter, bad

    def way(self):
        if self.bad <= 0:
            return None
        k = self.sim.weighted([(20, None), (3, "request"), (3, "answer"), (1, "reset"), (1, "busy")])
        if k:
            self.bad -= 1
            self.sim.fault("link_" + k if k in ("request", "answer") else "meter_" + k)
        return k

    def do(self, fn, *a):
        k = self.way()
        if k == "request":
            raise Lost()
        if k == "busy":
            return False
        if k == "reset":
            """the meter restarts: blocks written are in flash or the whole transfer is forgotten"""
            if self.sim.chance(0.5):
                self.meter.flash, self.meter.status, self.meter.id = {}, 0, None
            else:
                for b in list(self.meter.flash)[-1:]:
                    del self.meter.flash[b]
            raise Lost()
        r = fn(*a)
        if k == "answer":
            raise Lost()
        return r


class World(c20.World):
    """a meter with an image transfer object behind a serial line"""

    def serve(self, image, apdu):
        ut = G.ut
        head = bytes([apdu[0] + 4]) + apdu[1:3]
        d = (ut.CosemAttributeDescriptor if apdu[0] == 0xC0 else ut.CosemMethodDescriptor).from_contents(apdu[3:12])
        self.sim.check((int(d.class_id), tuple(d.instance_id.value)) == (18, (0, 0, 44, 0, 0, 255)), "request-wrong", f"{apdu[:12].hex()} is for the image transfer")
        if apdu[0] == 0xC0:
            x = image.get(int(d.attribute_id))
            return head + b"\0" + x if x is not None else head + b"\1\4"
        self.sim.check(apdu[12:13] == b"\1", "request-wrong", f"{apdu[:13].hex()} has a parameter")
        return head + (b"\0\0" if image.action(int(d.method_id), apdu[13:]) else b"\2\0")


class Remote(Link):
    """requests go as PDUs in frames over a bad line; a lost link leaves open whether a request was done"""

    def __init__(self, sim, meter, bad):
        super().__init__(sim, meter, bad)
        self.w = World(sim, [meter], sim.swarm(line.LINE, none=0.1))
        self.there, self.o = False, None

    def do(self, fn, i, pdu=None):
        sim, w, m = self.sim, self.w, self.w.meters[0]
        if self.bad > 0:
            self.bad -= 1
            if sim.chance(0.04):
                """the meter restarts: the last blocks may not be in flash"""
                m.restart()
                self.there = False
                for b in list(self.meter.flash)[len(self.meter.flash) - sim.draw(3):]:
                    del self.meter.flash[b]
        w.bus.faulty = self.bad > 0
        if not self.there:
            self.there = w.connect(m, S.rand_neg(sim)) is True
            sim.check(self.there or self.bad > 0, "no-progress:connect", "no connection although the line is clean")
            if not self.there:
                raise Lost()
        if pdu is None:
            apdu = w.head(0xC0) + self.o.get_attr_descriptor(i).contents + b"\0"
        else:
            apdu = w.head(0xC3) + self.o.get_meth_descriptor(i).contents + b"\1" + pdu
        ans, rec = w.exchange(m, apdu)
        if ans is None:
            sim.check(self.bad > 0, "no-progress:request", "no answer although the line is clean")
            self.there = False
            raise Lost()
        if ans[3]:
            return False
        return ans[4:] if pdu is None else True


def fresh(sim, link):
    c = G.col.Collection()
    o = c.add(G.col.classID.IMAGE_TRANSFER, G.cdt.Unsigned(0), G.cst.LogicalName("0.0.44.0.0.255"))
    if isinstance(link, Remote):
        link.o = o
    return c, o


def remote(sim):
    """the same over frames, PDUs and a bad line"""
    update(sim, Remote)


def read(link, o, i):
    b = link.do(link.meter.get, i)
    if b is False:
        raise Lost()
    o.set_attr(i, b)


def update(sim, way=Link):
    bs = sim.pick((1, 2, 7, 16, 64, 200))
    size = sim.pick((1, bs - 1, bs, bs + 1, 2 * bs, sim.int(1, 12 * bs), 9 * bs + 1, 17 * bs)) or 1
    images = [(sim.pick((b"fw1", b"default", b"", b"\x00\x01\xff", b"FIRMWARE_M2M_3_1.4.15.bin", b"fw")), sim.blob(size)),
              (sim.pick((b"fw2", b"FIRMWARE_M2M_3_1.4.16.bin", b"FIRMWARE_M2M_3", b"FIRMWARE_M2M_3_1.4.15.bin2")), sim.blob(sim.int(1, 6 * bs)))]
    meter = Meter(sim, bs)
    link = way(sim, meter, sim.draw(12 if way is Link else 50))
    c, o = fresh(sim, link)
    name, img = images[0]
    ready = False
    started = False
    budget = 40 + 8 * (len(img) // bs) + 30 * link.bad
    retyped = False
    while budget > 0:
        budget -= 1
        try:
            k = sim.draw(40) if link.bad > 0 else 0
            if k == 1:
                """the host restarts: nothing is kept of the transfer"""
                c, o = fresh(sim, link)
                ready = False
                sim.fault("host_restart")
            elif k == 2 and not retyped:
                """another image is chosen"""
                name, img = images[1] if sim.chance(0.6) else (name, images[1][1])
                retyped = True
                ready = started = False
                sim.fault("other_image")
                budget += 8 * (len(img) // bs)
            elif k == 3:
                """the transfer is opened again (resumed)"""
                ready = False
                sim.fault("resume")
            elif k == 4:
                """the block size is other now"""
                meter.bs = sim.pick((1, 3, 16, 50))
                bs = meter.bs
                meter.flash, meter.status, meter.id = {}, 0, None
                ready = started = False
                budget += 40 + 8 * (len(img) // bs)
                sim.fault("other_block_size")
            if not ready:
                read(link, o, 2)
                box = bytearray(img)
                ident = bytearray(name)
                was = o.get_meth(1).image_identifier.contents, o.current_block_transfer
                o.set_image_for_update(bytes(box) if sim.chance(0.5) else box, ident)
                box[:] = bytes(len(box))
                ident[:] = b"?" * len(ident)
                ready = True
                n = -(-len(img) // bs)
                sim.check(o.is_image_exist and o.get_n_blocks() == n, "blocks-wrong", f"{o.get_n_blocks()} blocks of {len(img)} octets by {bs}")
                block(sim, o, img, bs, "after the image was set")
                cur = o.current_block_transfer
                sim.check(cur == 0 if was[0] != name else cur <= was[1], "resume-wrong", f"image {name} goes on at block {cur}; the transfer was of {was[0]} at block {was[1]}")
                if started and (meter.status == 0 or meter.id != name):
                    started = False
            if not started:
                x = o.get_meth(1).encoding
                sim.check(A.decode(x, 0)[0] == (2, [(9, name), u32(len(img))]), "initiate-wrong", f"initiate of {name} with {len(img)} octets: {x.hex()}")
                if link.do(meter.action, 1, x):
                    started = True
                    o.set_block_for_transfer(0)
                    block(sim, o, img, bs, "first")
                continue
            cur = o.current_block_transfer
            if cur < o.get_n_blocks() and sim.chance(0.9):
                part = o.sent_blocks_part
                sim.check(abs(part - cur / o.get_n_blocks()) < 1e-9, "blocks-wrong", f"part sent is {part} at block {cur} of {o.get_n_blocks()}")
                if link.do(meter.action, 2, o.get_meth(2).encoding) is False:
                    if meter.status != 1:
                        started = False
                    continue
                sim.log("block", cur)
                try:
                    o.set_next_block()
                    sim.check(o.current_block_transfer == cur + 1, "blocks-wrong", f"next of block {cur} is {o.current_block_transfer}")
                    block(sim, o, img, bs, "next")
                    continue
                except StopIteration:
                    sim.check(cur + 1 == o.get_n_blocks(), "blocks-wrong", f"no more blocks after {cur} of {o.get_n_blocks()}")
                    block(sim, o, img, bs, "after the last")
            read(link, o, 6)
            if int(o.image_transfer_status) == 0:
                started = False
                continue
            if sim.chance(0.5):
                read(link, o, 4)
                k = int(o.image_first_not_transferred_block_number)
            else:
                read(link, o, 3)
                bits = o.image_transferred_blocks_status.decode()
                sim.check(len(bits) == meter.n, "blocks-wrong", f"{len(bits)} bits of {meter.n} blocks")
                k = bits.index(0) if 0 in bits else len(bits)
            sim.log("first missing", k)
            if k < o.get_n_blocks():
                o.set_block_for_transfer(k)
                block(sim, o, img, bs, f"of number {k}")
                continue
            edge(sim, o, img, bs)
            if link.do(meter.action, 3, o.get_meth(3).encoding):
                sim.check((meter.id, meter.image()) == (name, img), "image-wrong", f"the meter has {len(meter.image())} octets of {meter.id}, sent {len(img)} of {name}")
                link.do(meter.action, 4, o.get_meth(4).encoding)
                sim.log("done", len(img), bs)
                sim.state(bs, meter.n, bool(sim.faults))
                return
        except Lost:
            sim.log("lost")
    sim.check(link.bad > 0, "no-progress", f"image of {len(img)} octets is not at the meter: {len(meter.missing())} of {meter.n} blocks missing")


def block(sim, o, img, bs, when):
    k = o.current_block_transfer
    x, _ = A.decode(o.get_meth(2).encoding, 0)
    want = (2, [u32(k), (9, img[k * bs:k * bs + bs])])
    sim.check(x == want, "block-wrong", f"block {k} {when}: {len(x[1][1][1])} octets {x[1][1][1][:8].hex()}, the image has {img[k * bs:k * bs + bs][:8].hex()}")
    sim.check(k * bs < len(img), "block-wrong", f"block {k} {when} of {len(img)} octets")


def edge(sim, o, img, bs):
    """a block that is not of the image, an image that cannot be cut"""
    before = o.get_meth(2).encoding, o.get_n_blocks()
    for k in (o.get_n_blocks(), o.get_n_blocks() + sim.draw(99), -1):
        try:
            o.set_block_for_transfer(k)
        except (IndexError, ValueError):
            pass
        else:
            sim.fail("blocks-wrong", f"block {k} of {before[1]} is taken")
    sim.check((o.get_meth(2).encoding, o.get_n_blocks()) == before, "blocks-wrong", "a block refused changed the transfer")


def refuse(sim):
    """an image that cannot be cut into blocks is refused"""
    c, o = fresh(sim, None)
    kind = sim.pick(("no size", "zero", "empty"))
    if kind != "no size":
        o.set_attr(2, A.encode(u32(0 if kind == "zero" else sim.pick((1, 16)))))
    had = sim.chance(0.5) and kind == "empty"
    img = sim.bytes(sim.int(1, 40))
    if had:
        o.set_image_for_update(img, bytearray(b"a"))
    image = b"" if kind == "empty" else img
    before = o.get_meth(1).encoding, o.get_meth(2).encoding, o.get_n_blocks()
    sim.fault("image_" + kind.replace(" ", "_"))

    class Long(bytes):
        """octets that notice an endless cut"""
        left = 200

        def __getitem__(self, i):
            Long.left -= 1
            if Long.left < 0:
                raise TimeoutError
            return Long(bytes.__getitem__(self, i)) if isinstance(i, slice) else bytes.__getitem__(self, i)
    try:
        o.set_image_for_update(Long(image), bytearray(b"b"))
    except TimeoutError:
        sim.fail("endless", f"cutting an image of {len(image)} octets, block size {o.image_block_size and int(o.image_block_size)}, does not end")
    except Exception as e:
        sim.log(type(e).__name__)
        sim.check((o.get_meth(1).encoding, o.get_meth(2).encoding, o.get_n_blocks()) == before, "refused-changes", f"{kind}: an image refused changed the transfer")
    else:
        sim.check(kind == "empty" and o.get_n_blocks() == 0, "refused-changes", f"{kind}: image of {len(image)} octets is taken")


CHECK = Check(
    id="C18",
    scenarios=[Scenario("update", update, 16_000, 300_000, 50), Scenario("refuse", refuse, 1200, 2000, 100), Scenario("remote", remote, 500, 10_000, 20)],
    rule="images of 1 to 17 blocks of 1 to 200 octets; lost requests and answers, meter resets, refusals, host restarts, other images and block sizes; non-trivial: a fault",
    real=["ImageTransfer (blocks, resume, methods, attributes)", "data types", "remote: descriptors, LLC, HDLC framing, negotiation and sequences"],
    stub=["meter (reference model)", "update: link (loses, resets); remote: serial line, clock and station state machines"],
    setup=setup,
)
