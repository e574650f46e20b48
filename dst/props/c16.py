"""C16 - a meter gets the type of its manufacturer and device type whose version is the newest not newer than its firmware."""
import os

from .. import axdr_ref as A, env, objgen as O
from ..engine import Check, Scenario
from ..objgen import G
from .c12 import restart


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        O.bind()
        import src.DLMS_SPODES.exceptions as exc
        from src.DLMS_SPODES.version import AppVersion
        from src.DLMS_SPODES.cosem_interface_classes import overview
    G.exc, G.AppVersion, G.overview = exc, AppVersion, overview


MANS = ("SIM", "KPZ", "101")
#: device types that look alike: octet strings, visible strings, numbers
TYPES = (b"\x09\x02S1", b"\x0a\x02S1", b"\x09\x02S2", b"\x09\x01S", b"\x12\x53\x31", b"\x10\x53\x31", b"\x09\x03S1\x00", b"\x11\x53", b"\x0f\x53")
NOISE = ("readme.txt", "%s.typ~", "%s.typ.bak", "%s.type.txt", "%s.xml", ".%s.swp", "types")
NOISE_DIRS = ("old", "S1", "0902 copy", "new\u043f")
NOISE_MANS = ("abc.txt", "KP", "KPZ2", "\u041a\u041f\u0417", "x.y")


class Dirs:
    """listing of directories: any order, and errors when the simulator says so"""

    def __init__(self, sim):
        self.sim, self.at, self.ops, self.fired = sim, None, 0, False
        self.real = os.scandir, os.listdir

    def __enter__(self):
        os.scandir, os.listdir = self.scandir, self.listdir
        return self

    def __exit__(self, *a):
        os.scandir, os.listdir = self.real

    def mine(self, path):
        return not isinstance(path, int) and "Types" in str(getattr(path, "path", path))

    def step(self):
        self.ops += 1
        if self.ops == self.at:
            self.fired = True
            self.sim.fault("scandir_eio")
            raise OSError(5, "input/output error")

    def order(self, seq):
        return O.shuffle(self.sim, seq) or seq

    def listdir(self, path="."):
        if not self.mine(path):
            return self.real[1](path)
        self.step()
        out = sorted(self.real[1](path))
        O.shuffle(self.sim, out)
        return out

    def scandir(self, path="."):
        if not self.mine(path):
            return self.real[0](path)
        self.step()
        with self.real[0](path) as it:
            entries = sorted(it, key=lambda e: e.name)
        O.shuffle(self.sim, entries)
        outer = self

        class It:
            def __iter__(self):
                return self

            def __next__(self):
                outer.step()
                if not entries:
                    raise StopIteration
                return entries.pop(0)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                entries.clear()

            def close(self):
                entries.clear()
        return It()


def v_str(v):
    return "%d.%d.%d" % v


def version(sim):
    return sim.pick((0, 1, 2)), sim.pick((0, 4, 5, 10)), sim.pick((0, 1, 2, 3, 9, 10, 11, 99, 100))


class Library:
    """what is in the directory: {(manufacturer, type): {version: id of the content, None: unreadable}}"""

    def __init__(self, sim):
        self.sim, self.n, self.at, self.names = sim, 0, {}, {}

    def folder(self, m, t):
        """a type is named in hex, whatever the case of its letters"""
        if (m, t) not in self.names:
            self.names[m, t] = t.hex().upper() if self.sim.chance(0.3) else t.hex()
        return f"Types/{m}/{self.names[m, t]}"

    def path(self, m, t, v):
        return f"{self.folder(m, t)}/{v_str(v)}.typ"

    def put(self, m, t, v, bad=False):
        self.n += 1
        o = O.Obj(1, 0, (0, 0, 128, 1, 1, 255))
        o.attrs[2] = O.u16(self.n)
        head = f'<country_ver>3.0</country_ver><manufacturer>{m}</manufacturer>' + (f"<server_type>{t.hex()}</server_type>" if self.n % 2 else "") + f'<server_ver instance="0">{v_str(v)}</server_ver>'
        text = O.type_file([o], "3.0.0", head)
        if bad:
            text = text[:self.sim.draw(len(text) - 3)]
        os.makedirs(os.path.dirname(self.path(m, t, v)), exist_ok=True)
        with open(self.path(m, t, v), "w", encoding="utf-8") as f:
            f.write(text)
        self.at.setdefault((m, t), {})[v] = None if bad else self.n

    def noise(self):
        sim = self.sim
        k = sim.draw(3)
        if k == 0:
            p = "Types/" + sim.pick(NOISE_MANS)
            if "." in p and p[-1] != "y":
                open(p, "w").close()
            else:
                os.makedirs(p + "/" + sim.pick(NOISE_DIRS + (TYPES[0].hex(),)), exist_ok=True)
        elif k == 1:
            os.makedirs(f"Types/{sim.pick(MANS)}/{sim.pick(NOISE_DIRS)}", exist_ok=True)
        elif self.at:
            m, t = sim.pick(sorted(self.at))
            name = sim.pick(NOISE)
            v = sim.pick(sorted(self.at[m, t]) or [version(sim)]) if sim.chance(0.5) else version(sim)
            p = f"{self.folder(m, t)}/{name % v_str(v) if '%' in name else name}"
            if os.path.isdir(os.path.dirname(p)) and not os.path.exists(p):
                if sim.chance(0.2):
                    os.makedirs(p)
                else:
                    with open(p, "w") as f:
                        f.write("<x>")

    def copy(self):
        return {k: dict(v) for k, v in self.at.items()}


def chosen(snap, m, t, v):
    have = snap.get((m, t), {})
    return max((x for x in have if x[:2] == v[:2] and x <= v), default=None)


def choose(sim):
    """meters ask for their types while files come and go"""
    with env.fresh_dir(), Dirs(sim) as dirs:
        lib = Library(sim)
        for _ in range(sim.int(1, 4)):
            m, t = sim.pick(MANS), sim.pick(TYPES)
            for _ in range(sim.int(1, 5)):
                lib.put(m, t, version(sim))
        for _ in range(sim.draw(4)):
            lib.noise()
        restart()
        snaps, ids = [lib.copy()], {}

        def see():
            for k, vs in lib.at.items():
                for v, n in vs.items():
                    ids.setdefault((k, v), set()).add(n)
            snaps.append(lib.copy())
        see()
        for _ in sim.steps(14, 8):
            op = sim.pick(("ask", "ask", "ask", "ask", "put", "drop", "noise", "restart", "eio"))
            if op == "put":
                known = sorted(lib.at) and sim.chance(0.7)
                m, t = sim.pick(sorted(lib.at)) if known else (sim.pick(MANS), sim.pick(TYPES))
                lib.put(m, t, version(sim), bad=sim.chance(0.25))
                see()
            elif op == "drop" and lib.at:
                m, t = sim.pick(sorted(lib.at))
                if lib.at[m, t]:
                    v = sim.pick(sorted(lib.at[m, t]))
                    os.remove(lib.path(m, t, v))
                    del lib.at[m, t][v]
                    ids.setdefault(((m, t), v), set()).add("gone")
                    see()
            elif op == "noise":
                lib.noise()
            elif op == "restart":
                restart()
                sim.fault("restart")
                snaps, ids = [], {}
                see()
            elif op == "eio":
                restart()
                snaps, ids = [], {}
                see()
                dirs.at, dirs.ops, dirs.fired = sim.int(1, 12), 0, False
                ask(sim, lib, snaps, ids, dirs)
                dirs.at = None
            if op in ("ask", "eio"):
                ask(sim, lib, snaps, ids, None)
            sim.state(op, len(lib.at), len(snaps))


def ask(sim, lib, snaps, ids, dirs):
    if sim.chance(0.85) and lib.at:
        m, t = sim.pick(sorted(lib.at))
        have = sorted(lib.at[m, t])
        v = sim.pick(have) if have and sim.chance(0.7) else version(sim)
        k = sim.draw(5)
        if k == 1:
            v = v[0], v[1], v[2] + sim.pick((1, 2, 9, 90))
        elif k == 2:
            v = v[0], v[1], max(0, v[2] - 1)
        elif k == 3:
            v = v[0], v[1] + 1, v[2]
        elif k == 4:
            t = sim.pick(TYPES)
    else:
        m, t, v = sim.pick(MANS + ("ABC",)), sim.pick(TYPES), version(sim)
    may = {chosen(s, m, t, v) for s in snaps}
    tell = f"library {sorted(map(v_str, lib.at.get((m, t), ())))}: type {t.hex()} of {m} version {v_str(v)}"
    as_text = sim.chance(0.3)
    try:
        ver = G.AppVersion.from_str(v_str(v)) if as_text else G.AppVersion(*v)
        c = G.col.get_collection(m.encode(), G.cdt.get_instance_and_pdu_from_value(t)[0], ver)
    except G.exc.NoConfig as e:
        sim.log("no config", m, t.hex(), v_str(v))
        sim.check(None in may, "not-found", f"{tell}: no configuration, expected {sorted(v_str(x) for x in may if x)}")
        return
    except OSError as e:
        gone = any("gone" in ids.get(((m, t), x), ()) for x in may if x)
        sim.check(gone or dirs is not None and dirs.fired, "library-fails", f"{tell}: {type(e).__name__} {e}")
        sim.log("error")
        return
    except SyntaxError as e:
        sim.check(any(None in ids.get(((m, t), x), ()) for x in may if x), "library-fails", f"{tell}: {type(e).__name__} {e}")
        sim.log("bad file")
        sim.fault("bad_file")
        return
    except Exception as e:
        sim.fail("library-fails", f"{tell}: {type(e).__name__} {e}")
    n = int.from_bytes(c.get(bytes((0, 0, 128, 1, 1, 255))).get_attr(2).contents, "big")
    got = c.collection_ver and (c.collection_ver.major, c.collection_ver.minor, c.collection_ver.patch)
    sim.check(any(x and n in ids.get(((m, t), x), ()) for x in may), "type-wrong",
              f"{tell}: got version {v_str(got)} of {c.manufacturer} (file {n}), expected {sorted(v_str(x) if x else 'none' for x in may)}")
    sim.check(c.manufacturer == m.encode() and c.server_type is not None and c.server_type.encoding == t and got in may, "identity-wrong",
              f"{tell}: the collection says {c.manufacturer} {c.server_type and c.server_type.encoding.hex()} {got}")
    sim.log("got", m, t.hex(), v_str(v), v_str(got))
    sim.state("ask", got == v, len(may))
    if sim.chance(0.25):
        talk(sim, c, v)



def talk(sim, c, v):
    """the meter tells the version of its firmware, maybe several times, of several instances"""
    agreed = {}
    objs = {}
    for _ in sim.steps(6, 4):
        b = sim.draw(2)
        base = agreed.get(b, v)
        w = sim.pick((base, (base[0], base[1], base[2] + sim.pick((1, 90))), (base[0], base[1], max(0, base[2] - sim.pick((1, 3)))), (base[0], base[1] + 1, 0), (base[0] + 1, 0, 0),
                      (base[0], max(0, base[1] - 1), 99)))
        text = v_str(w) + sim.pick(("", "", "", "a", "-rc1", ".7"))
        if sim.chance(0.1):
            short(sim, c, b, w, agreed)
            continue
        op = sim.pick(("set", "set", "force", "read", "read", "clear"))
        if op == "read":
            if b not in objs:
                objs[b] = c.add(G.col.classID.DATA, G.cdt.Unsigned(0), G.cst.LogicalName(bytearray((0, b, 0, 2, 1, 255))))
            newer = b in agreed and w > agreed[b]
            sim.log("read", b, text, newer)
            try:
                objs[b].set_attr(2, bytes((9, len(text))) + text.encode())
            except G.exc.NeedUpdate:
                sim.check(newer, "version-refused", f"firmware {text} read, agreed {agreed.get(b)}: update demanded")
            else:
                sim.check(not newer, "newer-accepted", f"firmware {text} read, agreed {v_str(agreed.get(b, v))}: not noticed")
                sim.check(objs[b].value.contents == text.encode(), "version-refused", "version read is not held")
            continue
        if op == "clear":
            c.clear_server_ver()
            agreed.clear()
            continue
        ok = op == "force" or b not in agreed or w[:2] == agreed[b][:2] and w <= agreed[b]
        sim.log(op, b, text, ok)
        try:
            c.set_server_ver(b, G.AppVersion.from_str(text), force=op == "force")
        except ValueError:
            sim.check(not ok, "version-refused", f"firmware {text} told, agreed {agreed.get(b)}: refused")
        else:
            sim.check(ok, "newer-accepted", f"firmware {text} accepted, agreed {v_str(agreed.get(b, v))}")
            if b not in agreed or op == "force":
                agreed[b] = w
        x = c.server_ver.get(b)
        sim.check((x and (x.major, x.minor, x.patch)) == agreed.get(b), "version-refused", f"agreed {agreed.get(b)}, held {x}")


TAILS = ("a", "rc1", "-rc1", "_test", ".7", "+b")


def twins(sim):
    """versions with text after the number beside those without: each is got by its own name, whatever the order of the files"""
    with env.fresh_dir(), Dirs(sim):
        lib = Library(sim)
        m, t = sim.pick(MANS), sim.pick(TYPES)
        files = {}
        for _ in range(sim.int(1, 4)):
            v = version(sim)
            if v not in files:
                lib.put(m, t, v)
                files[v] = {"": lib.n}
            if sim.chance(0.7):
                tail = sim.pick(TAILS)
                lib.n += 1
                with open(lib.path(m, t, v)) as f:
                    text = f.read()
                was = A.encode(O.u16(files[v][""])).hex()
                new = text.replace(was, A.encode(O.u16(lib.n)).hex())
                if new == text:
                    raise RuntimeError("marker not found")
                with open(lib.path(m, t, v)[:-4] + tail + ".typ", "w") as f:
                    f.write(new.replace(f">{v_str(v)}<", f">{v_str(v)}{tail}<"))
                files[v][tail] = lib.n
                sim.fault("twin_version")
        restart()
        for _ in sim.steps(6, 4):
            v = sim.pick(sorted(files))
            tail = sim.pick(sorted(files[v]))
            far = sim.chance(0.3)
            if far:
                v, tail = (v[0], v[1], v[2] + sim.pick((1, 5, 100))), ""
            best = max((x for x in files if x[:2] == v[:2] and x <= v), default=None)
            want = {files[v][tail]} if v in files else set(files[best].values())
            c = G.col.get_collection(m.encode(), G.cdt.get_instance_and_pdu_from_value(t)[0], G.AppVersion.from_str(v_str(v) + tail))
            n = int.from_bytes(c.get(bytes((0, 0, 128, 1, 1, 255))).get_attr(2).contents, "big")
            sim.log("got", v_str(v) + tail, n)
            sim.check(n in want, "type-wrong", lambda: f"library {files}: {v_str(v)}{tail} asked, got {n}")
            if sim.chance(0.2):
                restart()
                sim.fault("restart")
            sim.state(len(files), far, bool(tail))


def short(sim, c, b, w, agreed):
    """a version without patch number is of its branch, newer or older is not told"""
    text = "%d.%d" % w[:2]
    sim.log("short", b, text)
    if b not in agreed:
        return
    try:
        c.set_server_ver(b, G.AppVersion.from_str(text))
    except ValueError:
        pass
    except Exception as e:
        sim.fail("version-fails", f"firmware {text} told, agreed {v_str(agreed[b])}: {type(e).__name__} {e}")
    else:
        sim.check(w[:2] == agreed[b][:2], "newer-accepted", f"firmware {text} accepted, agreed {v_str(agreed[b])}")
    x = c.server_ver.get(b)
    sim.check((x.major, x.minor, x.patch) == agreed[b], "version-refused", f"agreed {agreed[b]}, held {x}")


def versions(sim):
    """order of versions as firmware tells them"""
    V = G.AppVersion
    seen = []
    for _ in range(sim.int(2, 6)):
        v = version(sim)
        s = v_str(v)
        x = V.from_str(s)
        sim.check((x.major, x.minor, x.patch, x.additional) == (*v, "") and str(x) == s, "order-wrong", f"{s} reads as {x!r}")
        sim.check(x == V(*v) and hash(x) == hash(V(*v)), "order-wrong", f"{s} is not equal to itself")
        seen.append((v, x))
    for a, x in seen:
        for b, y in seen:
            got = x > y, x >= y, x < y, x <= y, x == y, x != y
            sim.check(got == (a > b, a >= b, a < b, a <= b, a == b, a != b), "order-wrong", f"{x} and {y}: > >= < <= == != are {got}")
    sim.check([str(x) for _, x in sorted(seen, key=lambda p: p[0])][-1] == str(max((x for _, x in seen), key=lambda x: (x.major, x.minor, x.patch))), "order-wrong", "maximum")
    """a version without a patch number, or with text in it"""
    (a, x), (b, y) = seen[0], seen[1]
    tail = sim.pick(("a", "-rc1", ".4", "b2", " "))
    z = V.from_str(v_str(b) + tail)
    sim.check((z.major, z.minor, z.patch, z.additional) == (*b, tail), "order-wrong", f"{v_str(b) + tail} reads as {z!r}")
    sim.check((x > z, x < z) == (a > b, a < b), "order-wrong", f"{x} and {z!r}")
    short = V.from_str("%d.%d" % b[:2])
    sim.check((short.major, short.minor, short.patch) == (*b[:2], None) and str(short) == "%d.%d" % b[:2], "order-wrong", f"{b[:2]} reads as {short!r}")
    try:
        gt, lt, n = x > short, x < short, short.select_nearest([x for _, x in seen])
    except TypeError as e:
        sim.fail("order-fails", f"{x} and {short}: {e}")
    sim.check(not (gt and lt) and (a[:2] == b[:2] or (gt, lt) == (a[:2] > b[:2], a[:2] < b[:2])), "order-wrong", f"{x} and {short}")
    sim.check(n is None or (n.major, n.minor) == b[:2], "order-wrong", f"nearest to {short} is {n}")
    junk = sim.pick(("", ".", "1", "x", "1.x", "x.1.1", "v1.2.3", "1.2.\u00b2", "\u00b2.1.1", "1.\u0661.1", " 1.2.3", "-1.2.3", "1..3"))
    try:
        q = V.from_str(junk)
    except Exception as e:
        sim.fail("order-fails", f"{junk!r}: {type(e).__name__} {e}")
    sim.log(junk, repr(q))


LDN = bytes((0, 0, 42, 0, 0, 255))
IDS = (b"KPZ", b"kpz", b"KPz", b"INC", b"MIR", b"\x00\x01\x02", b"A\xff ", b"   ", b"K\x00Z")


#: Blue Book, table of country specific identifiers
COUNTRIES = dict(zip((0, 1, 2, 3, 7, 10, 11, 12, 13, 14, 15, 16, 20, 27, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 51, 53, 54, 55, 56, 57, 58, 60, 61, 62, 63, 64, 65, 66,
                      71, 73, 75, 81, 82, 85, 86, 87, 90, 91, 92, 96, 97, 98),
                     "FINLAND USA CANADA SERBIA RUSSIA CZECH_REPUBLIC BULGARIA CROATIA IRELAND ISRAEL UKRAINE YUGOSLAVIA EGYPT SOUTH_AFRICA GREECE NETHERLANDS BELGIUM FRANCE SPAIN PORTUGAL HUNGARY LITHUANIA "
                     "SLOVENIA ITALY ROMANIA SWITZERLAND SLOVAKIA AUSTRIA UNITED_KINGDOM DENMARK SWEDEN NORWAY POLAND GERMANY PERU CUBA ARGENTINA BRAZIL CHILE COLOMBIA VENEZUELA MALAYSIA AUSTRALIA INDONESIA "
                     "PHILIPPINES NEW_ZEALAND SINGAPORE THAILAND LATVIA MOLDOVA BELARUS JAPAN MEXICO HONG_KONG CHINA BOSNIA_AND_HERZEGOVINA TURKEY INDIA PAKISTAN SAUDI_ARABIA UNITED_ARAB_EMIRATES IRAN".split()))


def identity(sim):
    """what a meter tells of itself, in any order and again: the first answer counts, one that contradicts it is refused and changes nothing"""
    CI = G.overview.CountrySpecificIdentifiers
    code = sim.pick(tuple(COUNTRIES))
    try:
        first = CI(code)
    except ValueError:
        sim.fail("identity-wrong", f"country {code} ({COUNTRIES[code]}) is not known")
    sim.check(first.name == COUNTRIES[code] == str(first), "identity-wrong", f"country {code} is {first}, by the standard {COUNTRIES[code]}")
    c = G.col.Collection(first) if sim.chance(0.5) else G.col.Collection()
    held = {"country": c.country, "dlms_ver": 6, "manufacturer": None, "country_ver": None, "server_type": None, "collection_ver": None}
    if c.country is not first:
        sim.check(c.country is CI.RUSSIA, "identity-wrong", f"country of a new collection is {c.country}")
    values = {
        "country": (first, CI.RUSSIA, CI.FINLAND, CI.USA),
        "dlms_ver": (6, 6, 5, 7),
        "manufacturer": (sim.pick(IDS), sim.pick(IDS)),
        "country_ver": tuple(G.AppVersion(*v) for v in ((3, 0), (3, 0), (3, 1), (2, 0), (0, 0))),
        "collection_ver": tuple(G.AppVersion(*v) for v in ((0, 0, 0), (1, 4, 1), (1, 4, 1), (1, 4, 2))),
        "server_type": tuple(sim.pick(TYPES + (b"\x11\x00", b"\x16\x00", b"\x16\x01", b"\x09\x00", b"\x0a\x00", b"\x03\x00")) for _ in range(3)),
    }
    ldn = c.get(LDN)
    sim.check(ldn is not None and (int(ldn.CLASS_ID), ldn.logical_name.contents) == (1, LDN), "identity-wrong", "no object of the logical device name")
    known = False
    for _ in sim.steps(10, 4):
        sim.state(known, *(v is None for v in held.values()))
        if sim.chance(0.4):
            name = sim.pick(values["manufacturer"]) + sim.bytes(sim.pick((0, 1, 5, 13)))
            fits = held["manufacturer"] in (None, name[:3])
            sim.log("ldn", name.hex(), fits)
            try:
                ldn.set_attr(2, bytes((9, len(name))) + name)
            except ValueError as e:
                sim.check(not fits, "identity-refused", f"device name {name} of the manufacturer {held['manufacturer']}: {e}")
                sim.fault("foreign_meter")
            else:
                sim.check(fits or known, "foreign-accepted", f"device name {name}, the meter is of {held['manufacturer']}")
                known = True
                if held["manufacturer"] is None:
                    held["manufacturer"] = name[:3]
            sim.check(ldn.value is not None and ldn.value.contents == name and ldn.manufacturer == name[:3], "identity-wrong", f"device name {name} read, held {ldn.value}")
        else:
            key = sim.pick(tuple(held))
            v = sim.pick(values[key])
            enc = G.cdt.get_instance_and_pdu_from_value(v)[0] if key == "server_type" else v
            force = key == "server_type" and sim.chance(0.2)
            fits = held[key] is None or held[key] == v and key != "collection_ver" or force
            sim.log(key, repr(v), fits, force)
            try:
                getattr(c, "set_" + key)(enc, *((True,) if force else ()))
            except ValueError as e:
                sim.check(not fits, "identity-refused", f"{key} {v!r}, agreed {held[key]!r}: {e}")
                sim.fault("foreign_meter")
            else:
                sim.check(fits, "foreign-accepted", f"{key} {v!r} accepted, agreed {held[key]!r}")
                held[key] = v
        got = {k: getattr(c, k, None) for k in held if k != "collection_ver"}
        got["server_type"] = got["server_type"] is not None and got["server_type"].encoding or None
        got["collection_ver"] = c.collection_ver
        sim.check(got == held, "identity-wrong", lambda: f"identity is {got}, told {held}")
        if sim.chance(0.2):
            d, mine = G.col.Collection(), [held[k] for k in ("manufacturer", "server_type", "collection_ver")]
            other = [sim.weighted([(4, v), (1, None), (1, sim.pick(values[k]))]) for k, v in zip(("manufacturer", "server_type", "collection_ver"), mine)]
            if other[0] is not None:
                d.set_manufacturer(other[0])
            if other[1] is not None:
                d.set_server_type(G.cdt.get_instance_and_pdu_from_value(other[1])[0])
            if other[2] is not None:
                d.set_collection_ver(other[2])
            sim.log("equal", repr(other))
            sim.check((c == d) is (mine == other) and (hash(c) == hash(d) or mine != other), "identity-wrong", lambda: f"collections of {mine} and {other} are {'equal' if c == d else 'different'}")
        if sim.chance(0.1):
            sim.fault("copy")
            d = c.copy()
            sim.check((d.manufacturer, d.country, d.country_ver, d.dlms_ver, d.collection_ver) == (c.manufacturer, c.country, c.country_ver, c.dlms_ver, c.collection_ver), "identity-wrong",
                      lambda: f"copy is of {d.manufacturer} {d.country} {d.country_ver} {d.dlms_ver} {d.collection_ver}, the original of {held}")
            sim.check((d.get(LDN).value and d.get(LDN).value.contents) == (ldn.value and ldn.value.contents), "identity-wrong", "copy has other device name")


CHECK = Check(
    id="C16",
    scenarios=[Scenario("choose", choose, 22_000, 400_000, 50), Scenario("twins", twins, 4500, 60_000, 50), Scenario("versions", versions, 9000, 60_000, 100), Scenario("identity", identity, 4000, 100_000, 50)],
    rule="libraries of 1 to 20 type files of 3 manufacturers and 9 look-alike device types; histories of requests, files coming, going, replaced, cut, directories failing; non-trivial: a fault or two versions",
    real=["collection.get_collection and the library scan", "AppVersion", "Collection.from_xml / copy / set_server_ver", "ActiveFirmwareId"],
    stub=["directory listing (order and errors by the simulator)", "type files (generated)"],
    setup=setup,
)
