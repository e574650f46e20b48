"""C17 - firmware images come from the encrypted container byte for byte, or not at all."""
import hashlib
import os
import pickle

from .. import env, simdisk
from ..engine import Check, Scenario
from ..objgen import G


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        from src.DLMS_SPODES import config_parser, firmwares
        from Cryptodome.Cipher import AES
    G.fw, G.cfg, G.AES = firmwares, config_parser.config, AES


MANS = ("KPZ", "101", "SIM")
PATHS = ("fw/a.dat", "fw/b.dat")


def seal(sim, cipher, data):
    plain = sim.bytes(16) if sim.chance(0.5) else bytes(16)
    plain += data + hashlib.sha256(data).digest()
    n = 16 - len(plain) % 16
    return cipher.encrypt(plain + bytes([n]) * n)


def new_key(sim):
    """(codec, text, octets)"""
    n = sim.pick((16, 16, 24, 32))
    if sim.chance(0.5):
        text = "".join(sim.pick("0123456789abcdefPQ") for _ in range(n))
        return "ascii", text, text.encode()
    b = sim.bytes(n)
    return "hex", b.hex(), b


class Pack:
    """one container file"""

    def __init__(self, sim, key):
        self.key = key
        self.fw, self.boot = {}, {}
        for _ in range(sim.pick((1, 0, 2, 3))):
            self.fw[(sim.draw(3), sim.draw(3), sim.draw(30)), sim.pick(("M2M_1", "M2M_3", ""))] = sim.blob(sim.pick((0, 1, 15, 16, 17, 31, 32, 33, 200)))
        for _ in range(sim.draw(3)):
            self.boot[sim.draw(5), sim.pick(("M2M_1", "M2M_3"))] = sim.blob(sim.pick((0, 5, 16, 48, 100)))
        one = G.AES.new(key, G.AES.MODE_CBC, sim.bytes(16)) if sim.chance(0.5) else None
        own = sim.chance(0.3)
        if own:
            """as the package itself packs"""
            one = G.fw.init_cipher(key)

        def pack(d):
            if own:
                return G.fw.encrypt(one, d)
            return seal(sim, one or G.AES.new(key, G.AES.MODE_CBC, sim.bytes(16)), d)
        self.sealed = [{k: pack(v) for k, v in d.items()} for d in (self.fw, self.boot)]
        self.name = "CryptoFirmware_" + sim.pick(("1.0", "2", ""))

    def octets(self, name=None, sealed=None):
        return pickle.dumps((name or self.name, *(sealed or self.sealed)), protocol=4)

    def spoiled(self, sim):
        """(octets of the file, kind) so that some image cannot be told"""
        kinds = ["cut", "name"]
        items = [(i, k) for i in (0, 1) for k in self.sealed[i]]
        if items:
            kinds += ["flip", "flip", "flip", "short", "block", "swap", "zero", "empty"]
        kind = sim.pick(kinds)
        if kind == "cut":
            b = self.octets()
            return b[:sim.draw(len(b) - 1)], kind
        if kind == "name":
            return self.octets(name=sim.pick(("Firmware_1.0", "CryptoFirmware", "CryptoFirmware_1_0", "x", "cryptofirmware_1"))), kind
        s = [dict(d) for d in self.sealed]
        i, k = sim.pick(items)
        c = bytearray(s[i][k])
        if kind == "flip":
            for _ in range(sim.pick((1, 1, 2, 5))):
                c[sim.draw(len(c))] ^= 1 << sim.draw(8)
        elif kind == "short":
            del c[len(c) - sim.int(1, 20):]
        elif kind == "block":
            del c[(p := 16 * sim.draw(len(c) // 16)):p + 16]
        elif kind == "swap":
            """two sectors change places"""
            n = len(c) // 16
            a, b = sim.draw(n), sim.draw(n)
            c[16 * a:16 * a + 16], c[16 * b:16 * b + 16] = c[16 * b:16 * b + 16], c[16 * a:16 * a + 16]
        elif kind == "zero":
            p = sim.draw(len(c))
            c[p:] = bytes(len(c) - p)
        else:
            c.clear()
        if c == s[i][k]:
            c[0] ^= 128
        s[i][k] = bytes(c)
        return self.octets(sealed=s), kind


def load(sim):
    """readers of several manufacturers; container files spoiled, repaired, replaced; disk errors; wrong keys; restarts"""
    rnd = getattr(G.fw, "get_random_bytes", None)
    if rnd is not None:
        G.fw.get_random_bytes = lambda n: sim.bytes(n)
    back = G.cfg["DLMS"].get("firmwares")
    try:
        with env.fresh_dir(types=False) as d, simdisk.Disk(sim, d) as disk:
            run(sim, disk)
    finally:
        G.cfg["DLMS"]["firmwares"] = back
        if rnd is not None:
            G.fw.get_random_bytes = rnd


def restart():
    env.forget(G.fw)


def run(sim, disk):
    os.mkdir("fw")
    conf, packs, now, may = [], {}, {}, {}
    #: path -> pack whole in the file now, or None;  manufacturer -> packs whole in its file since the start

    def store(path, octets, pack):
        with open(path, "wb") as f:
            f.write(octets)
        disk.sync_all()
        now[path] = pack
    for p in PATHS:
        packs[p] = Pack(sim, new_key(sim)[2])
        store(p, packs[p].octets(), packs[p])
    for m in MANS[:sim.int(1, 3)]:
        conf.append({"man": m, "path": sim.pick(PATHS), "key": None})
    keys = {}
    for e in conf:
        codec, text, key = new_key(sim)
        if e["path"] in keys:
            codec, text, key = keys[e["path"]]
        keys[e["path"]] = codec, text, key
        e["key"] = {"codec": codec, "value": text}
        packs[e["path"]] = Pack(sim, key)
        store(e["path"], packs[e["path"]].octets(), packs[e["path"]])
    G.cfg["DLMS"]["firmwares"] = conf
    restart()

    def note():
        for e in conf:
            k = now[e["path"]]
            may.setdefault(e["man"], []).append(k if right(e) else None)
            if k and not k.fw and not k.boot:
                """no image needs the key"""
                may[e["man"]].append(k)

    def right(e):
        return e["key"] == {"codec": keys[e["path"]][0], "value": keys[e["path"]][1]}
    note()
    for _ in sim.steps(12, 8):
        op = sim.pick(("get", "get", "get", "get", "spoil", "repair", "replace", "remove", "key", "restart", "eio"))
        e = sim.pick(conf)
        p = e["path"]
        if op == "spoil":
            octets, kind = packs[p].spoiled(sim)
            store(p, octets, None)
            sim.fault("file_" + kind)
            sim.log("spoil", kind)
        elif op == "repair":
            store(p, packs[p].octets(), packs[p])
            e["key"] = {"codec": keys[p][0], "value": keys[p][1]}
        elif op == "replace":
            packs[p] = Pack(sim, keys[p][2])
            store(p, packs[p].octets(), packs[p])
        elif op == "remove":
            if os.path.exists(p):
                os.remove(p)
                disk.sync_all()
            now[p] = None
            sim.fault("file_removed")
        elif op == "key":
            c, t, _ = keys[p]
            e["key"] = sim.pick(({"codec": c, "value": t[:-1] + ("1" if t[-1] != "1" else "2")}, {"codec": "utf-16", "value": t}, {"codec": "hex", "value": "zz"}, {"codec": c, "value": t[2:]}))
            sim.fault("wrong_key")
        elif op == "restart":
            restart()
            may.clear()
            sim.fault("restart")
        note()
        if op not in ("get", "eio"):
            continue
        m = e["man"] if sim.chance(0.9) else "XYZ"
        if op == "eio":
            restart()
            may.clear()
            note()
            disk.arm("eio", sim.int(1, 4))
        try:
            got = G.fw.get_firmware(m.encode())
        except (ValueError, OSError) as x:
            sim.log("refused", m, type(x).__name__)
            sim.check(disk.fired or None in may.get(m, ()), "good-file-refused", f"{m}: {type(x).__name__} {x}")
            continue
        except Exception as x:
            sim.fail("other-error", f"{m}: {type(x).__name__} {x}")
        finally:
            disk.disarm()
        if m == "XYZ":
            sim.check(got is None, "foreign", "firmware of a manufacturer that has none")
            continue
        sim.check(got is not None and any(k is not None and got == (k.fw, k.boot) for k in may[m]), "image-wrong", told(got, [k for k in may[m] if k is not None]))
        sim.log("got", m, len(got[0]), len(got[1]))
        sim.state(op, len(got[0]), len(got[1]), len(may[m]) > 3)


def told(got, packs):
    if got is None:
        return "nothing is returned"
    if not packs:
        return "images are returned of a file that cannot be told"
    k = packs[-1]
    for n, g, w in (("firmware", got[0], k.fw), ("boot", got[1], k.boot)):
        for v in {**g, **w}:
            if g.get(v) != w.get(v):
                return f"{n} {v}: {None if g.get(v) is None else (len(g[v]), g[v][:8].hex())}, packed {None if w.get(v) is None else (len(w[v]), w[v][:8].hex())}"
    return "images of another file"


CHECK = Check(
    id="C17",
    scenarios=[Scenario("load", load, 30_000, 500_000, 100)],
    rule="containers of 0 to 3 firmwares and 0 to 2 boots, keys of 16, 24, 32 octets; histories of loads, spoiled, repaired, replaced files, wrong keys, disk errors, restarts; non-trivial: a fault",
    real=["firmwares.get_firmware / decrypt / encrypt / init_cipher", "AES, pickle"],
    stub=["disk (errors by the simulator)", "random numbers", "containers (generated by an own packer)"],
    setup=setup,
)
