"""C09 - values shared by several holders: every change is exact, visible once, or refused without a trace."""
import datetime as D
import math
import struct

from ..engine import Check, Scenario
from .. import env
from .. import axdr_ref as A


class M:
    cdt = None


class Refused(ValueError):
    """a holder's callback refuses the new value"""


LOCAL = (ValueError, TypeError, OverflowError, AttributeError, KeyError, IndexError)


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        from src.DLMS_SPODES.types import cdt, cst, ut
        from src.DLMS_SPODES.types.implementations import integers, structs, bitstrings, double_long_usingneds
        from src.DLMS_SPODES.cosem_interface_classes import clock, special_days_table as sdt, activity_calendar as ac, script_table as st, limiter, register_monitor
        from src.DLMS_SPODES.cosem_interface_classes.security_setup import ver1 as ss
    M.ss = ss
    M.IPAddress = double_long_usingneds.IPAddress
    M.Conformance = bitstrings.Conformance
    M.cdt, M.cst, M.integers, M.clock, M.sdt, M.ac, M.st, M.structs = cdt, cst, integers, clock, sdt, ac, st, structs
    M.rm, M.ut = register_monitor, ut
    # name: (class, tag, form, lowest, highest)
    D = {}
    for n, t, w, s in (("Integer", 15, 1, 1), ("Long", 16, 2, 1), ("Unsigned", 17, 1, 0), ("LongUnsigned", 18, 2, 0), ("DoubleLong", 5, 4, 1),
                       ("DoubleLongUnsigned", 6, 4, 0), ("Long64", 20, 8, 1), ("Long64Unsigned", 21, 8, 0)):
        D[n] = (getattr(cdt, n), t, w, s, -(1 << 8 * w - 1) if s else 0, (1 << 8 * w - s) - 1)
    D["ShiftTime"] = (clock.ShiftTime, 16, 2, 1, -900, 900)
    D["Deviation"] = (clock.DaylightSavingsDeviation, 15, 1, 1, -120, 120)
    M.DIG = D
    names = {}
    for i in range(1, 256):
        t = str(cdt.Unit(i))
        names[t] = 0 if t in names else i
    M.UNITS = {t: i for t, i in names.items() if i and not t.isdigit()}

def exc(e):
    return f"{type(e).__name__} {e}"


# ---- simple values -------------------------------------------------------------------------------------------------
def hexs(b):
    return b.hex(" ")


def date_text(p):
    y = p[0] * 256 + p[1]
    mon = {0xFF: "__", 0xFE: "begin", 0xFD: "end"}.get(p[2], f"{p[2]:02}")
    day = {0xFF: "__", 0xFE: "last", 0xFD: "penult"}.get(p[3], f"{p[3]:02}")
    w = "" if p[4] == 0xFF else "-" + "mon tue wed thu fri sat sun".split()[p[4] - 1]
    if y == 0xFFFF and not w:
        return f"{day}.{mon}"
    return f"{day}.{mon}." + ("____" if y == 0xFFFF else f"{y:04}") + w


def time_text(p):
    t = ":".join("__" if x == 0xFF else f"{x:02}" for x in p[:3])
    return t if p[3] == 0xFF else t + f".{p[3]:02}"


WEEK = [names.split() for names in ("1 по Пон понедельник mo MON monday", "2 вт вто вторник tu tue Tuesday", "3 ср сре СРЕДА we wed wednesday", "4 чт чет четверг th Thu thursday",
                                    "5 пт пят пятница fr fri FRIDAY", "6 сб суб суббота sa sat saturday", "7 вс вос Воскресенье su sun sunday")]
BLANK = ("", "_", "__")


def num(sim, x, width=2):
    return sim.pick((str(x), f"{x:0{width}}"))


def date_typed(sim, p):
    """a text a user may type for these five octets"""
    y = p[0] * 256 + p[1]
    year = sim.pick(BLANK + ("___", "____")) if y == 0xFFFF else sim.pick((f"{y:04}", f"{y % 100:02}") if 2000 <= y <= 2099 else (f"{y:04}",))
    mon = {0xFF: sim.pick(BLANK), 0xFE: "begin", 0xFD: "end"}.get(p[2]) if p[2] > 12 else num(sim, p[2])
    day = {0xFF: sim.pick(BLANK), 0xFE: "last", 0xFD: "penult"}.get(p[3]) if p[3] > 31 else num(sim, p[3])
    w = sim.pick(BLANK) if p[4] == 0xFF else sim.pick(WEEK[p[4] - 1])
    out = [f"{day}.{mon}.{year}-{w}", f"{w}-{day}.{mon}.{year}"]
    if p[4] == 0xFF:
        out.append(f"{day}.{mon}.{year}")
    if y == 0xFFFF:
        out += [f"{day}.{mon}-{w}", f"{w}-{day}.{mon}"]
        if p[4] == 0xFF:
            out.append(f"{day}.{mon}")
            if p[2] == 0xFF and day.isdigit():
                out.append(day)
        elif p[2] == p[3] == 0xFF and not w.isdigit():
            out.append(w)
    return sim.pick(out)


def time_typed(sim, p):
    h, m, s, f = (sim.pick(BLANK) if x == 0xFF else num(sim, x) for x in p)
    out = [f"{h}:{m}:{s}.{f}"]
    if p[3] == 0xFF:
        out.append(f"{h}:{m}:{s}")
        if p[2] == 0xFF:
            out.append(f"{h}:{m}")
            if p[1] == 0xFF:
                out.append(h)
    if p[0] == 0xFF:
        out.append(f"{m}:{s}.{f}")
        if p[1] == 0xFF:
            out.append(f"{s}.{f}")
    return sim.pick(out)


def py_date(p):
    """the python date of five octets, with the weekday it has"""
    y = p[0] * 256 + p[1]
    if y == 0xFFFF or p[2] > 12 or p[3] > 31:
        return None
    return D.date(y, p[2], p[3])


def py_time(p):
    return None if 0xFF in p[:4] else D.time(p[0], p[1], p[2], p[3] * 10_000)


class Kind:
    """one kind of value: valid payloads and the forms a holder may set them in"""

    def __init__(self, sim, name):
        self.name, self.sim = name, sim
        cdt, cst = M.cdt, M.cst
        if name in M.DIG:
            self.T, self.tag, self.w, self.s, self.lo, self.hi = M.DIG[name]
        else:
            self.T, self.tag = {
                "Boolean": (cdt.Boolean, 3), "BitString": (cdt.BitString, 4), "OctetString": (cdt.OctetString, 9), "VisibleString": (cdt.VisibleString, 10),
                "Utf8String": (cdt.Utf8String, 12), "Bcd": (cdt.Bcd, 13), "Enum": (M.clock.ClockBase, 22), "Float32": (cdt.Float32, 23),
                "Float64": (cdt.Float64, 24), "DateTime": (cdt.DateTime, 25), "Date": (cdt.Date, 26), "Time": (cdt.Time, 27), "LogicalName": (cst.LogicalName, 9),
                "ODateTime": (cst.OctetStringDateTime, 9), "ODate": (cst.OctetStringDate, 9), "OTime": (cst.OctetStringTime, 9), "Unit": (cdt.Unit, 22), "Conformance": (M.Conformance, 4), "Flags": (M.ss.SecurityPolicyVer1, 22)}[name]

    def gen(self, sim):
        """payload: octets, or (bits, octets)"""
        n = self.name
        if n in M.DIG:
            x = sim.pick((0, 1, self.lo, self.hi, self.lo + sim.draw(self.hi - self.lo + 1), self.lo + sim.draw(self.hi - self.lo + 1)))
            x = min(max(x, self.lo), self.hi)
            return x.to_bytes(self.w, "big", signed=bool(self.s))
        if n == "Enum":
            return bytes([sim.draw(6)])
        if n == "Flags":
            return bytes([sim.draw(256)])
        if n == "Conformance":
            return 24, sim.bytes(3)
        if n == "Unit":
            return bytes([sim.pick(list(M.UNITS.values()))])
        if n == "LogicalName":
            return sim.bytes(6)
        if n in ("DateTime", "ODateTime"):
            p = A.gen_datetime(sim)
            k = sim.weighted([(4, None), (1, "full"), (1, "date"), (1, "time"), (1, "none")])
            if k == "full":
                p = bytes((7, 0xE0 + sim.draw(16), sim.int(1, 12), sim.int(1, 28), 0xFF, sim.draw(24), sim.draw(60), sim.draw(60), sim.draw(100))) + p[9:11] + b"\xff"
            elif k == "date":
                p = p[:5] + b"\xff\xff\xff\xff\x80\0\xff"
            elif k == "time":
                p = b"\xff" * 5 + p[5:9] + b"\x80\0\xff"
            elif k == "none":
                p = b"\xff" * 9 + b"\x80\0\xff"
            return p
        if n in ("Date", "ODate"):
            p = A.gen_date(sim)
            if sim.chance(0.1):             # years of one, two and three digits
                p = bytes((0, sim.int(1, 255))) + p[2:4] + b"\xff"
                p = p[:3] + b"\x1c\xff" if p[2:4] == b"\x02\x1d" else p
            return p
        if n in ("Time", "OTime"):
            return A.gen_time(sim)
        if n == "Float32":
            return struct.pack(">f", sim.pick((0.0, 1.5, -2.25, 1e10, 0.1, -1e-20)))
        if n == "Float64":
            return struct.pack(">d", sim.pick((0.0, 1.5, -2.25, 1e100, 0.1, -1e-200)))
        p = A.gen_simple(sim, self.tag)[1]
        if n == "BitString" and p[0] % 8:
            p = p[0], p[1][:-1] + bytes([p[1][-1] & 0xFF << 8 - p[0] % 8 & 0xFF])
        return p

    def enc(self, p):
        return A.encode((self.tag, p))

    def forms(self, p):
        """all the ways to give this value"""
        n, cdt = self.name, M.cdt
        e = self.enc(p)
        out = [("encoding", e)]
        if self.tag != 4:
            out.append(("contents", bytearray(p)))
        elif p[0] % 8 == 0:
            out.append(("contents", bytearray(p[1])))
        if n in M.DIG:
            x = int.from_bytes(p, "big", signed=bool(self.s))
            out += [("int", x), ("text", str(x))]
        elif n == "Boolean":
            b = p != b"\0"
            out += [("text", str(b)), ("text", str(int(b))), ("bool", b), ("int", int(b))]
        elif self.tag == 4:
            bits = A.value((4, p))
            if n == "Conformance":
                out.append(("int", sum(b << i for i, b in enumerate(bits))))
            out += [("text", "".join(map(str, bits))), ("list", bits)]
        elif n == "OctetString":
            out += [("text", p.hex()), ("text", p.hex(" ").upper())]
        elif n in ("VisibleString", "Utf8String"):
            out += [("text", p.decode("ascii"))]
        elif n == "Unit":
            out += [("int", p[0]), ("text", str(p[0])), ("text", next(t for t, i in M.UNITS.items() if i == p[0]))]
        elif n in ("Enum", "Bcd"):
            out += [("int", p[0]), ("text", str(p[0]))]
        elif n in ("Float32", "Float64"):
            x = struct.unpack(">f" if n == "Float32" else ">d", p)[0]
            out += [("float", x), ("text", repr(x))]
        elif n == "LogicalName":
            out += [("text", ".".join(map(str, p)))]
        elif n == "Flags":
            out += [("int", p[0]), ("text", f"{p[0]:08b}"), ("text", f"{p[0]:b}")]
        elif n in ("Date", "ODate"):
            out += [("text", date_text(p)), ("text", date_typed(self.sim, p))]
            d = py_date(p)
            if d and d.isoweekday() == p[4]:
                out += [("python", d), ("python", D.datetime(d.year, d.month, d.day, 23, 59, 59, 999_999))]
            if p == b"\xff" * 5:
                out += [("text", "")]
        elif n in ("Time", "OTime"):
            out += [("text", time_text(p)), ("text", time_typed(self.sim, p))]
            t = py_time(p)
            if t:
                us = t.microsecond + self.sim.pick((0, 1, 9_999, self.sim.draw(10_000)))
                out += [("python", t.replace(microsecond=us)), ("python", D.datetime(2024, 2, 29, t.hour, t.minute, t.second, us))]
            if p == b"\xff" * 4:
                out += [("text", "")]
        elif n in ("DateTime", "ODateTime") and p[11] == 0xFF:
            dev = int.from_bytes(p[9:11], "big", signed=True)
            out += [("text", date_text(p) + " " + time_text(p[5:]) + " " + ("" if dev == -0x8000 else str(dev)))]
            td, tt = date_typed(self.sim, p), time_typed(self.sim, p[5:9])
            out.append(("text", f"{td} {tt} " + ("" if dev == -0x8000 else "-" if dev == 0 else str(dev))))
            d, t = py_date(p), py_time(p[5:9])
            if dev == -0x8000:
                out.append(("text", f"{td} {tt}"))
                if p[5:9] == b"\xff" * 4:
                    out.append(("text", td))
                    if d and d.isoweekday() == p[4]:
                        out.append(("python", d))
                    if p[:5] == b"\xff" * 5:
                        out.append(("text", ""))
                if p[:5] == b"\xff" * 5 and t:
                    out.append(("python", t))
            if d and t and p[4] == 0xFF:
                out.append(("python", D.datetime.combine(d, t, None if dev == -0x8000 else D.timezone(D.timedelta(minutes=dev)))))
        return out

    def bad(self, sim, p):
        """values that are not of this kind"""
        n = self.name
        e = self.enc(p)
        wrong = sim.pick([t for t in (15, 17, 18, 6, 9, 10, 3, 22, 2, 1, 26) if t != self.tag])
        out = [("wrong type", bytes([wrong]) + e[1:]), ("unknown object", object()), ("none of it", {})]
        if n not in ("LogicalName",) or len(e) > 1:
            k = sim.draw(len(e))
            out.append(("cut", e[:k]))
        if n in M.DIG:
            out += [("out of range", sim.pick((self.lo - 1, self.hi + 1, 1 << 70))), ("junk", "12x"), ("junk", "")]
            if self.lo > -(1 << 8 * self.w - 1) and self.s:
                x = sim.pick((self.lo - 1, self.hi + 1))
                out.append(("out of range", bytes([self.tag]) + x.to_bytes(self.w, "big", signed=True)))
        elif n == "Boolean":
            out += [("junk", "maybe"), ("junk", "2")]
        elif n == "Conformance":
            t = "01" * 12
            out += [("junk", "2" + t[1:]), ("junk", t[:sim.draw(24)]), ("junk", t + "1"), ("out of range", sim.pick((1 << 24, -1, 1 << 70))), ("out of range", bytearray(sim.pick((0, 2, 4)))),
                    ("out of range", A.encode((4, (23, p[1][:2] + b"\0")))), ("out of range", A.encode((4, (25, p[1] + b"\0")))), ("out of range", [1] * sim.pick((8, 23, 25)))]
        elif n == "BitString":
            out += [("junk", "0120"), ("junk", "x")]
        elif n == "OctetString":
            out += [("junk", "0g"), ("junk", "123")]
        elif n == "Enum":
            out += [("out of range", sim.pick((6, 255, 256, -1))), ("out of range", bytes([22, sim.pick((6, 77, 255))])), ("junk", "no such name"), ("junk", str(self.T(e))[:sim.draw(4)])]
        elif n == "Unit":
            t = sim.pick([t for t in M.UNITS if t[:-1] not in M.UNITS])[:-1]
            out += [("out of range", sim.pick((0, 256, -1))), ("junk", "no such name"), ("junk", t), ("junk", t + "x")] if t else []
        elif n == "Flags":
            out += [("out of range", sim.pick((256, -1, 1000))), ("junk", "012"), ("junk", "x"), ("junk", "111111111")]
        elif n == "Bcd":
            out += [("out of range", 256), ("junk", "x")]
        elif n in ("Float32", "Float64"):
            out += [("junk", "1.2.3"), ("junk", ""), ("out of range", sim.pick(("1e999", "-1e999", "inf", "-inf")))] + [("out of range", sim.pick(("1e39", "-4e38", 1e39, -1e300)))] * (n == "Float32")
        elif n == "LogicalName":
            out += [("out of range", "0.0.256.0.0.255"), ("out of range", b"\x09\x05" + p[:5]), ("out of range", b"\x09\x07" + p + b"\0"), ("junk", "a.0.0.0.0.0")]
        elif n in ("Date", "ODate"):
            out += [("wrong python", D.time(1, 2, 3)), ("wrong python", 3.5), ("out of range", "32.01.2024"), ("out of range", "30.02.2024"), ("out of range", "01.13.2024"), ("out of range", "01.01.2024-sun"), ("junk", "x"),
                    ("out of range", A.encode((self.tag, b"\x07\xe8\x02\x1e\xff"))), ("out of range", A.encode((self.tag, b"\x07\xe7\x02\x1d\xff")))]
        elif n in ("Time", "OTime"):
            out += [("wrong python", D.date(2024, 2, 3)), ("wrong python", 3.5), ("out of range", "24:00"), ("out of range", "00:60"), ("out of range", "00:00:60"), ("junk", "x"), ("out of range", A.encode((self.tag, b"\x18\0\0\0"))),
                    ("out of range", A.encode((self.tag, b"\0\0\x3c\0")))]
        elif n in ("DateTime", "ODateTime"):
            out += [("out of range", "31.04.2024 00:00"), ("out of range", "01.01.2024 25:00"), ("out of range", "01.01.2024 00:00:00 721"), ("junk", "x y z"),
                    ("out of range", A.encode((self.tag, b"\x07\xe8\x04\x1f\xff" + bytes(4) + b"\x80\0\xff")))]
        return sim.pick(out)

    def default(self):
        n = self.name
        return {"DateTime": b"\x07\xe4\x01\x01\xff\x00\x00\x00\x00\x00\xb4\xff", "Date": b"\x07\xe4\x01\x01\x03", "Time": bytes(4)}.get(n)


NAMES = ("LongUnsigned", "Unsigned", "DoubleLongUnsigned", "Integer", "Long", "DoubleLong", "Long64", "Long64Unsigned", "ShiftTime", "Deviation", "Boolean", "BitString",
         "OctetString", "VisibleString", "Utf8String", "Bcd", "Enum", "Float32", "Float64", "DateTime", "Date", "Time", "LogicalName", "ODateTime", "ODate", "OTime", "Flags", "Unit", "Conformance")


def same(sim, v, k, p, what):
    e = k.enc(p)
    sim.check(v.encoding == e, "value-changed", f"{k.name} after {what}: {v.encoding.hex()} expected {e.hex()}")
    sim.check(v.contents == (p[1] if k.tag == 4 else p), "value-changed", f"{k.name} after {what}: contents {v.contents.hex()}")
    if k.tag == 4:
        sim.check(len(v) == p[0] and v.decode() == A.value((4, p)), "value-changed", f"{k.name} after {what}: bits {v.decode()}")


PARTS = {"Date": 1, "ODate": 1, "Time": 2, "OTime": 2, "DateTime": 3, "ODateTime": 3}


def python_value(p, has):
    """the python date/time of the octets: what is not specified is the least"""
    d = D.date(1, 1, 1)
    if has & 1:
        y = p[0] * 256 + p[1]
        d = D.date(4 if y == 0xFFFF and tuple(p[2:4]) == (2, 29) else 1 if y == 0xFFFF else y, p[2] if p[2] <= 12 else 1, p[3] if p[3] <= 31 else 1)
        if has == 1:
            return d
    h, m, s, f = (0 if x == 0xFF else x for x in p[0 if has == 2 else 5:][:4])
    t = D.time(h, m, s, f * 10_000)
    if has == 2:
        return t
    dev = int.from_bytes(p[9:11], "big", signed=True)
    return D.datetime.combine(d, t, D.timezone.utc if dev == -0x8000 else D.timezone(D.timedelta(minutes=dev)))


def part(sim, c, old):
    """one element of a date or time is changed, all are read"""
    k, v, p = c["k"], c["v"], c["p"]
    has, o = PARTS[k.name], 5 if PARTS[k.name] == 3 else 0
    table = []
    if has & 1:
        table += [("year", 0, range(2, 10000), 0xFFFF), ("month", 2, range(1, 13), 0xFF), ("day", 3, range(1, 32), 0xFF), ("weekday", 4, range(1, 8), 0xFF)]
    if has & 2:
        table += [("hour", o, range(24), 0xFF), ("minute", o + 1, range(60), 0xFF), ("hundredths", o + 3, range(100), 0xFF)]
    if has == 3:
        table += [("status", 11, range(256), 0)]
    name, at, ok, any_ = sim.pick(table)
    x = sim.pick((ok[0], ok[-1], any_, ok[0] + sim.draw(len(ok)), ok[0] + sim.draw(len(ok)), ok[-1] + 1, ok[0] - 1 if name != "year" else 0, ok[-1] + 1 + sim.draw(300), 0xFD, 0xFE, 0x10000, -5))
    new = bytearray(p)
    valid = x in ok or x == any_
    if valid:
        new[at:at + (2 if name == "year" else 1)] = x.to_bytes(2 if name == "year" else 1, "big")
        if has & 1:
            """the whole must be a date"""
            y, mon, day, w = new[0] * 256 + new[1], new[2], new[3], new[4]
            try:
                d = D.date(256 if y == 0xFFFF else y, mon if mon <= 12 else 1, day if day <= 31 else 1)
                if w != 0xFF and 0xFFFF != y and mon <= 12 and day <= 31 and d.isoweekday() != w:
                    valid = False
            except ValueError:
                if y == 0xFFFF and (mon, day) == (2, 29):
                    return
                valid = False
    try:
        if name == "status":
            v.set_clock_status(sim.pick((x, str(x))))
        else:
            getattr(v, "set_" + name)(x)
    except LOCAL as e:
        sim.fault("invalid_part", name, x) if not valid else None
        sim.check(not valid, "valid-refused", f"{k.name} {p.hex()}: {name} {x}: {exc(e)}")
        sim.check(not c["seen"], "callback-wrong", f"{k.name}: told of a set that was refused")
    else:
        sim.check(valid, "invalid-accepted", f"{k.name} {p.hex()}: {name} {x} gave {v.encoding.hex()}")
        c["p"] = bytes(new)
        if c["cb"] and name != "status":
            sim.check(c["seen"] == [k.enc(c["p"])], "callback-wrong", f"{k.name}: after {name} saw {[s.hex() for s in c['seen']]}")
    p = c["p"]
    same(sim, v, k, p, f"{name} {x}")
    sim.state(k.name, name)
    for nm, i, r, _ in table + ([("second", o + 2, range(60), 0xFF)] if has & 2 else []):
        if nm == "status":
            continue
        want = p[0] * 256 + p[1] if nm == "year" else p[i]
        if want in r or want in (0xFF, 0xFFFF):
            got = getattr(v, nm)
            sim.check(got == (want if want in r else None), "part-wrong", f"{k.name} {p.hex()}: {nm} is {got}")
    dev = int.from_bytes(p[9:11], "big", signed=True) if has == 3 else 0
    if -720 <= dev <= 720 or dev == -0x8000:
        got, want = v.decode(), python_value(p, has)
        sim.check(got == want and (has != 3 or got.utcoffset() == want.utcoffset()), "part-wrong", f"{k.name} {p.hex()} is {got!r}, expected {want!r}")
        if has == 3:
            tz = v.time_zone
            sim.check(tz is None if dev == -0x8000 else tz is not None and tz.utcoffset(None) == D.timedelta(minutes=dev), "part-wrong", f"{k.name} {p.hex()}: time zone {tz}")
            sim.check(v.is_default_value() == (p == b"\xff" * 9 + b"\x80\0\xff"), "part-wrong", f"{k.name} {p.hex()}: is_default_value {v.is_default_value()}")


def values(sim):
    """holders (a reader, a form, a meter's answer) change shared values; callbacks of other holders watch or refuse"""
    fails = {"on": False}
    cells = []
    for _ in range(sim.int(1, 3)):
        k = Kind(sim, sim.pick(NAMES))
        p = k.gen(sim)
        how, x = sim.pick(k.forms(p))
        try:
            v = k.T(x)
        except LOCAL as e:
            sim.fail("valid-refused", f"{k.name}({how} {x!r}): {exc(e)}")
            return
        same(sim, v, k, p, f"made from {how} {x!r}")
        cell = {"k": k, "p": p, "v": v, "seen": [], "pre": [], "cb": sim.chance(0.5)}
        if cell["cb"]:
            def pre(new, c=cell):
                c["pre"].append((new.encoding, c["v"].encoding))
                if fails["on"]:
                    raise Refused("busy")

            def post(c=cell):
                c["seen"].append(c["v"].encoding)
            v.register_cb_preset(pre)
            v.register_cb_post_set(post)
        cells.append(cell)
    for _ in sim.steps(10, 6):
        c = sim.pick(cells)
        k, v, p = c["k"], c["v"], c["p"]
        op = sim.pick(("set", "set", "set", "bad", "refuse", "copy", "get_copy", "text", "compare", "clear", "other", "bits", "part"))
        del c["seen"][:], c["pre"][:]
        old = k.enc(p)
        if op in ("set", "refuse", "get_copy", "other"):
            new = k.gen(sim)
            how, x = sim.pick(k.forms(new))
            if op == "other":
                how, x = "instance", k.T(k.enc(new))
            if op == "get_copy":
                try:
                    n = v.get_copy(x)
                except LOCAL as e:
                    sim.fail("valid-refused", f"{k.name}.get_copy({how} {x!r}): {exc(e)}")
                    continue
                same(sim, n, k, new, f"get_copy({how})")
                same(sim, v, k, p, "get_copy of another value")
                sim.check(not c["seen"], "callback-wrong", f"{k.name}: a copy called the callbacks")
                continue
            if op == "refuse" and c["cb"]:
                fails["on"] = True
                sim.fault("callback_refuses", k.name)
                try:
                    v.set(x)
                    sim.fail("refusal-ignored", f"{k.name}.set({how} {x!r})")
                except Refused:
                    pass
                finally:
                    fails["on"] = False
                same(sim, v, k, p, "a refused set")
                sim.check(not c["seen"], "callback-wrong", f"{k.name}: told of a set that was refused")
                continue
            try:
                v.set(x)
            except LOCAL as e:
                sim.fail("valid-refused", f"{k.name}.set({how} {x!r}): {exc(e)}")
                continue
            c["p"] = new
            sim.log("set", k.name, how, k.enc(new).hex())
            same(sim, v, k, new, f"set({how} {x!r})")
            if c["cb"]:
                sim.check(c["pre"] == [(k.enc(new), old)], "callback-wrong", f"{k.name}: before set saw {c['pre']}")
                sim.check(c["seen"] == [k.enc(new)], "callback-wrong", f"{k.name}: after set saw {c['seen']}")
            sim.state(k.name, how)
        elif op == "bad":
            how, x = k.bad(sim, k.gen(sim))
            if k.name in ("OctetString", "VisibleString", "Utf8String", "Boolean") and how in ("none of it",):
                continue
            sim.fault("invalid_" + how.replace(" ", "_"), k.name)
            try:
                v.set(x)
            except LOCAL:
                same(sim, v, k, p, f"refused {how} {x!r}")
                sim.check(not c["seen"], "callback-wrong", f"{k.name}: told of a set that was refused")
                continue
            sim.fail("invalid-accepted", f"{k.name}.set({how} {x!r}) gave {v.encoding.hex()}")
        elif op == "copy":
            n = v.copy()
            same(sim, n, k, p, "copy")
            sim.check(n == v and hash(n) == hash(v), "copy-differs", k.name)
            new = k.gen(sim)
            n.set(k.enc(new))
            same(sim, v, k, p, "change of its copy")
            sim.check(not c["seen"], "callback-wrong", f"{k.name}: told of a change of a copy")
            sim.check((n == v) == (k.enc(new) == old), "equality", k.name)
        elif op == "text" and k.name in ("VisibleString", "OctetString", "Utf8String") and sim.chance(0.2):
            """octets which are no text"""
            raw = sim.blob(sim.int(1, 6)) if sim.chance(0.7) else bytes([sim.pick((0x98, 0xC3, 0xFF, 9, 0x1F))])
            v.set(bytes([k.tag, len(raw)]) + raw)
            c["p"] = raw
            same(sim, v, k, raw, "any octets")
            shown = bytes(x if x >= 0x20 else 0x3F for x in raw).decode("cp1251", "replace")
            try:
                got = [str(v), v.to_str()] + [v.decode()] * (k.name == "VisibleString") if k.name != "Utf8String" else [str(v)]
            except LOCAL as e:
                sim.fail("text-differs", f"{k.name} {raw.hex()} can not be shown: {exc(e)}")
                continue
            want = [raw.hex(" "), shown] if k.name == "OctetString" else [raw.decode("utf-8", "replace")] if k.name == "Utf8String" else [shown] * 3
            sim.check(got == want, "text-differs", f"{k.name} {raw.hex()} is shown as {got!r}, expected {want!r}")
            v.set(k.enc(p))
            c["p"] = p
        elif op == "text":
            if k.name in ("VisibleString", "Utf8String", "Bcd", "Float32") or (k.name in ("DateTime", "ODateTime") and p[11] != 0xFF):
                pass
            t = str(v)
            if k.name == "VisibleString" and any(x < 0x20 for x in p) or k.name in ("DateTime", "ODateTime") and p[11] != 0xFF:
                continue
            try:
                n = k.T(t)
            except LOCAL as e:
                sim.fail("text-differs", f"{k.name} {old.hex()} is shown as {t!r}, refused: {exc(e)}")
                continue
            sim.check(n.encoding == old, "text-differs", f"{k.name} {old.hex()} is shown as {t!r}, read as {n.encoding.hex()}")
            if k.name == "Conformance":
                sim.check((v.general_protection, v.general_block_transfer, v.selective_access) == (int(t[1]), int(t[2]), int(t[21])), "text-differs", f"conformance {t}")
            if k.name == "Flags":
                sim.check(v.decode() == [int(b) for b in t] == [int(b) for b in f"{p[0]:08b}"] and int(v) == p[0], "text-differs", f"{p.hex()} is shown as {t!r}, {v.decode()}")
            if True:
                x, cur = v.validate_from(t, len(t)) if k.name != "OctetString" else (t, 0)
                sim.check(k.T(x).encoding == old, "text-differs", f"{k.name} {old.hex()} {t!r} validated as {x!r}")
                if k.name in PARTS:
                    """on the way while it is typed: what is offered can be taken"""
                    n = sim.int(1, len(t))
                    try:
                        x, cur = v.validate_from(t[:n], n)
                    except LOCAL:
                        x = None
                    if x is not None:
                        try:
                            k.T(x)
                            sim.check(x.replace("_", "").startswith(t[:max(0, n - 1)].replace("_", "")) and 0 <= cur <= len(x), "text-differs", f"{k.name} {t[:n]!r} validated as {x!r} {cur}")
                        except LOCAL as e:
                            sim.fail("text-differs", f"{k.name} {t[:n]!r} validated as {x!r}, refused then: {exc(e)}")
                if k.name == "Enum":
                    n = sim.int(0, len(t))
                    sim.check(v.validate_from(t[:n], n) == (t[:n], n), "text-differs", f"{k.name} {t[:n]!r} is refused while it is typed")
                    try:
                        x = v.validate_from(t[:n] + "@", n)
                        sim.fail("text-differs", f"{k.name} {t[:n]!r}@ validated as {x!r}")
                    except LOCAL:
                        pass
                if k.name in ("Float32", "Float64") and t[0] in "-123456789":
                    """on the way while it is typed"""
                    n = sim.int(2, len(t))
                    x, cur = v.validate_from(t[:n], n)
                    float(x)
                    sim.check(x.startswith(t[:n]) and cur == n, "text-differs", f"{k.name} {t[:n]!r} validated as {x!r} {cur}")
        elif op == "compare":
            new = k.gen(sim)
            n = k.T(k.enc(new))
            eq = k.enc(new) == old
            sim.check((v == n) == eq and (v == k.enc(new)) == eq and (n in [v]) == eq and v != None, "equality", f"{k.name} {old.hex()} {k.enc(new).hex()}")
            if eq:
                sim.check(hash(v) == hash(n), "equality", f"hash of {k.name}")
            if k.name in M.DIG:
                a, b = (int.from_bytes(q, "big", signed=bool(k.s)) for q in (p, new))
                sim.check((v > n) == (a > b) and (v > b) == (a > b) and int(v) == a and v.decode() == a, "order", f"{k.name} {a} {b}")
            elif k.name in ("Enum", "Flags", "Unit"):
                sim.check((v > n) == (p[0] > new[0]) and int(v) == p[0] and (k.name == "Flags" or v.decode() == p[0]), "order", f"{k.name}")
                sim.check(k.name != "Enum" or (v.value == str(v) and v.value2 == p[0]), "text-differs", lambda: f"{k.name} {p.hex()} is {v.value!r} {v.value2!r}, written {v}")
        elif op == "bits" and k.name in M.DIG and k.name not in ("ShiftTime", "Deviation"):
            n = sim.int(0, 9)
            x = int.from_bytes(p, "big")
            if sim.chance(0.5):
                v << n
                x = x << n & (1 << 8 * k.w) - 1
            else:
                v >> n
                x >>= n
            c["p"] = x.to_bytes(k.w, "big")
            same(sim, v, k, c["p"], f"shift by {n}")
        elif op == "bits" and k.tag == 4 and p[0]:
            bits = A.value((4, p))
            how = sim.pick(("item", "inverse", "left", "right"))
            i = sim.draw(len(bits))
            if how == "item":
                b = sim.pick((0, 1, True, False))
                v[i] = b
                bits[i] = int(b)
                sim.check(v[i] == bytes([bits[i]]), "bits-wrong", f"bit {i} is {v[i]!r}")
            elif how == "inverse":
                v.inverse(i)
                bits[i] ^= 1
            else:
                n = sim.int(0, 3)
                v << n if how == "left" else v >> n
                n %= len(bits)
                bits = bits[n:] + bits[:n] if how == "left" else bits[-n:] + bits[:-n] if n else bits
            t = "".join(map(str, bits)) + "0" * (-len(bits) % 8)
            c["p"] = len(bits), bytes(int(t[j:j + 8], 2) for j in range(0, len(t), 8))
            same(sim, v, k, c["p"], f"bits {how} {i}")
            sim.check(not c["cb"] or how not in ("item", "inverse") or c["seen"] == [k.enc(c["p"])], "callback-wrong", f"after {how} saw {c['seen']}")
            sim.state(k.name, how)
        elif op in ("part", "bits") and k.name in PARTS:
            part(sim, c, old)
        elif op == "bits" and k.name == "OctetString":
            n = sim.draw(1 << 8 * sim.pick((1, 1, 2, 4, 7, 8, 31, 32)))
            v.set(n)
            c["p"] = n.to_bytes(max(1, n.bit_length() + 7 >> 3), "big")
            same(sim, v, k, c["p"], f"set({n})")
            try:
                v.set(1 << 256 + sim.draw(64))
                sim.fail("invalid-accepted", f"OctetString of a number of more than 32 octets: {v.encoding.hex()}")
            except LOCAL:
                pass
            same(sim, v, k, c["p"], "a number of more than 32 octets")
        elif op == "clear" and k.name not in ("Enum", "Unit", "Flags", "LogicalName", "ODateTime", "ODate", "OTime"):
            v.clear()
            if k.name in ("OctetString", "VisibleString", "Utf8String"):
                d = b""
            elif k.tag == 4:
                d = (p[0], bytes(len(p[1])))
            elif k.name in ("Date", "Time", "DateTime"):
                d = k.default()
            else:
                d = bytes(len(p))
            c["p"] = d
            same(sim, v, k, d, "clear")


# ---- scaled values -------------------------------------------------------------------------------------------------
def dec(x, s):
    """exact decimal text of x * 10**s"""
    if s >= 0:
        return str(x * 10 ** s)
    sign = "-" if x < 0 else ""
    t = str(abs(x)).rjust(1 - s, "0")
    return f"{sign}{t[:s]}.{t[s:]}"


UNITS = {1: 0, 33: 0, 35: 0, 27: 3, 30: 3, 255: 0}


def scaled(sim):
    """a register's value with its scaler: what is shown is what the meter sent, what is typed is what is sent"""
    cdt = M.cdt
    name = sim.pick(("DoubleLongUnsigned", "LongUnsigned", "Long", "DoubleLong", "Integer", "Unsigned", "Long64", "Long64Unsigned"))
    T, tag, w, s, lo, hi = M.DIG[name]
    sc = sim.int(-6, 3)
    unit = sim.pick(tuple(UNITS))
    e = sc - UNITS[unit]
    su = cdt.ScalUnitType(bytes((2, 2, 15, sc & 255, 22, unit)))
    lim = min(hi, 10 ** 12)
    x = 0
    v = T(None, su) if sim.chance(0.5) else T()
    if v.SCALER_UNIT is None:
        v.SCALER_UNIT = su
    enc = lambda n: bytes([tag]) + n.to_bytes(w, "big", signed=bool(s))
    for _ in sim.steps(8, 5):
        op = sim.pick(("meter", "type", "type", "number", "show", "bad", "copy", "again"))
        n = max(lo, -lim) + sim.draw(lim - max(lo, -lim) + 1) if sim.chance(0.6) else sim.int(max(lo, -100), min(hi, 100))
        if op == "meter":
            v.set(enc(n))
            x = n
        elif op == "type":
            t = dec(n, e)
            if sim.chance(0.3) and "." in t:
                t = t.rstrip("0").rstrip(".") or "0"
            try:
                v.set(t)
                x = n
            except LOCAL as err:
                sim.fail("valid-refused", f"{name} scaler {sc} unit {unit}: text {t!r}: {exc(err)}")
        elif op == "number":
            if abs(n) < 10 ** 9:
                num = n * 10 ** e if e >= 0 else float(dec(n, e))
                v.set(num)
                x = n
        elif op == "bad":
            t = sim.pick((dec(2 * hi + 2, e), dec(2 * lo - 1 - hi, e), "x", "1,5"))
            sim.fault("invalid_text", t)
            try:
                v.set(t)
                sim.fail("invalid-accepted", f"{name} scaler {sc} unit {unit}: {t!r} as {v.encoding.hex()}")
            except LOCAL:
                pass
        elif op == "copy":
            c = v.get_copy(enc(n))
            sim.check(c.encoding == enc(n), "value-changed", f"get_copy {c.encoding.hex()}")
        elif op == "again":
            v.SCALER_UNIT = cdt.ScalUnitType(bytes((2, 2, 15, sc & 255, 22, unit)))
            sim.fault("scaler_received_again")
            try:
                v.SCALER_UNIT = cdt.ScalUnitType(bytes((2, 2, 15, (sc + 1) & 255, 22, unit)))
                sim.fail("scaler-replaced", f"{name} scaler {sc}")
            except LOCAL:
                pass
        sim.log(op, x)
        sim.check(v.encoding == enc(x), "value-changed", f"{name} scaler {sc} unit {unit} after {op}: {v.encoding.hex()} expected {enc(x).hex()}")
        ref = dec(x, e)
        sim.check(str(v) == ref, "scaled-text", f"{name} {x} scaler {sc} unit {unit} is shown as {v} expected {ref}")
        d = v.decode()
        sim.check(math.isclose(d, float(ref), rel_tol=1e-12, abs_tol=1e-30), "scaled-value", f"{name} {x} scaler {sc} unit {unit}: {d} expected {ref}")
        rep = v.get_report()
        sim.check(rep.startswith(ref + " ") and len(rep) > len(ref) + 1 and v.get_report(False) == ref, "scaled-text", f"report {rep!r}")
        sim.state(name, sc, unit)


# ---- structures and arrays -----------------------------------------------------------------------------------------
def u16(n):
    return 18, n.to_bytes(2, "big")


def u8(n):
    return 17, bytes([n])


def oct_(b):
    return 9, b


def gen_struct(sim, kind):
    if kind == "spec":
        return 2, [u16(sim.draw(6)), oct_(A.gen_date(sim)), u8(sim.draw(256))]
    if kind == "action":
        return 2, [oct_(A.gen_time(sim)), oct_(sim.bytes(6)), u16(sim.draw(65536))]
    if kind == "week":
        return 2, [oct_(bytes([sim.draw(5)]))] + [u8(sim.draw(4)) for _ in range(7)]
    if kind == "season":
        return 2, [oct_(bytes([sim.draw(5)])), oct_(A.gen_datetime(sim)), oct_(bytes([sim.draw(5)]))]
    if kind == "day":
        return 2, [u8(sim.draw(6)), (1, [gen_struct(sim, "action") for _ in range(sim.int(0, 3))])]
    if kind == "scaler":
        return 2, [(15, bytes([sim.int(-9, 9) & 255])), (22, bytes([sim.int(1, 255)]))]
    if kind == "window":
        return 2, [oct_(A.gen_datetime(sim)), oct_(A.gen_datetime(sim))]
    raise KeyError(kind)


def classes():
    sdt, ac, cdt = M.sdt, M.ac, M.cdt
    return {"spec": sdt.SpecDayEntry, "action": ac.DayProfileAction, "week": ac.WeekProfile, "season": ac.Season, "day": ac.DayProfile, "scaler": cdt.ScalUnitType,
            "window": M.structs.WindowElement}


def spoil(sim, tree):
    """an encoding that is not of this type: wrong type, cut, out of range, missing or extra element"""
    how = sim.pick(("wrong type", "cut", "missing", "extra", "element type"))
    e = A.encode(tree)
    if how == "wrong type":
        return how, bytes([1 if tree[0] == 2 else 2]) + e[1:]
    if how == "cut":
        return how, e[:sim.draw(len(e))]
    items = list(tree[1])
    if not items:
        return "wrong type", b"\x03\x00"
    if tree[0] == 1:
        j = sim.draw(len(items))
        return "element " + spoil(sim, items[j])[0], b"\x01" + A.length(len(items)) + b"".join(
            spoil(sim, x)[1] if i == j and sim.chance(1.0) else A.encode(x) for i, x in enumerate(items)) if items[0][0] == 2 else b"\x01\x01\x03"
    if how == "missing":
        items.pop()
    elif how == "extra":
        items.append((17, b"\0"))
    else:
        j = sim.draw(len(items))
        items[j] = (3, b"\1")
    return how, A.encode((2, items))


def forms_of(sim, T, tree):
    e = A.encode(tree)
    py = [A.encode(x) for x in tree[1]]
    return sim.pick((("encoding", e), ("contents", bytearray(b"".join(py))), ("list", py), ("tuple", tuple(py)), ("instance", T(e))))


def structs(sim):
    """a record of a table edited by several holders, element by element and as a whole"""
    kind = sim.pick(("spec", "action", "week", "season", "day", "scaler", "window"))
    T = classes()[kind]
    tree = gen_struct(sim, kind)
    how, x = forms_of(sim, T, tree)
    try:
        v = T(x)
    except LOCAL as e:
        sim.fail("valid-refused", f"{kind}({how}): {exc(e)}")
        return
    for _ in sim.steps(8, 5):
        op = sim.pick(("set", "element", "bad", "bad-element", "copy", "item", "bad-item"))
        new = gen_struct(sim, kind)
        i = sim.draw(len(tree[1]))
        if op == "set":
            how, x = forms_of(sim, T, new)
            try:
                v.set(x)
            except LOCAL as e:
                sim.fail("valid-refused", f"{kind}.set({how}): {exc(e)}")
                continue
            tree = new
        elif op == "element":
            v[i].set(A.encode(new[1][i]))
            tree = 2, tree[1][:i] + [new[1][i]] + tree[1][i + 1:]
        elif op == "item":
            v[i] = T.ELEMENTS[i].TYPE(A.encode(new[1][i]))
            tree = 2, tree[1][:i] + [new[1][i]] + tree[1][i + 1:]
        elif op == "bad-item":
            if kind != "scaler":
                sim.fault("invalid_element", kind, i)
                try:
                    v[i] = M.cdt.Boolean(True)
                    sim.fail("invalid-accepted", f"{kind}[{i}]")
                except LOCAL:
                    pass
        elif op == "bad":
            how, x = spoil(sim, new)
            sim.fault("invalid_" + how.replace(" ", "_"), kind)
            try:
                v.set(x)
            except LOCAL:
                pass
            else:
                sim.fail("invalid-accepted", f"{kind}.set({x.hex()}) gave {v.encoding.hex()}")
                return
        elif op == "bad-element":
            sim.fault("invalid_element", kind, i)
            try:
                v[i].set(b"\x03\x01")
                sim.fail("invalid-accepted", f"{kind}[{i}]")
            except LOCAL:
                pass
        else:
            c = v.copy()
            c.set(A.encode(new))
            sim.check(c.encoding == A.encode(new), "value-changed", f"copy of {kind}")
            sim.check((c == v) == (new == tree), "equality", kind)
        e = A.encode(tree)
        sim.log(op, kind, e.hex())
        sim.check(v.encoding == e, "value-changed", f"{kind} after {op} ({how}): {v.encoding.hex()} expected {e.hex()}")
        sim.check(len(v) == len(tree[1]) and all(v[j].encoding == A.encode(t) for j, t in enumerate(tree[1])), "value-changed", f"{kind} elements after {op}")
        names = [el.NAME for el in T.ELEMENTS]
        sim.check(all(getattr(v, nm) is v[j] for j, nm in enumerate(names)), "value-changed", f"{kind}: names of the elements")
        sim.state(kind, op)


def arrays(sim):
    """a table edited by several holders: whole, by record and inside a record, with refusing callbacks"""
    kind, T, uniq = sim.pick((("spec", M.sdt.Entries, True), ("week", M.ac.WeekProfileTable, True), ("season", M.ac.SeasonProfile, True), ("day", M.ac.DayProfileTable, True),
                              ("action", M.ac.DaySchedule, False), ("window", None, False)))
    S = classes()[kind]
    fails = {"on": False}
    seen = []
    if T is None:
        v = M.cdt.Array(type_=S)
    else:
        v = T()

    def pre(value):
        if fails["on"]:
            raise Refused("busy")
    cb = sim.chance(0.5)
    if cb:
        v.register_cb_preset(pre)
        v.register_cb_post_set(lambda: seen.append(v.encoding))
    tree = (1, [])
    key = lambda t: A.encode(t[1][0])

    def fresh(n, keep=()):
        out, used = [], {key(t) for t in keep}
        for _ in range(n):
            t = gen_struct(sim, kind)
            for _ in range(8):
                if not uniq or key(t) not in used:
                    break
                t = gen_struct(sim, kind)
            if uniq and key(t) in used:
                continue
            used.add(key(t))
            out.append(t)
        return out
    for _ in sim.steps(10, 6):
        items = list(tree[1])
        n = len(items)
        op = sim.pick(("set", "append", "append", "remove", "pop", "insert", "bad", "refuse", "duplicate", "copy", "inside", "clear"))
        how = ""
        del seen[:]
        if op == "set" or op == "refuse":
            new = fresh(sim.int(0, 5))
            e = A.encode((1, new))
            how, x = sim.pick((("encoding", e), ("list", [A.encode(t) for t in new]), ("list", [S(A.encode(t)) for t in new])))
            if op == "refuse" and cb:
                fails["on"] = True
                sim.fault("callback_refuses", kind)
                try:
                    v.set(x)
                    sim.fail("refusal-ignored", kind)
                except Refused:
                    pass
                finally:
                    fails["on"] = False
            else:
                try:
                    v.set(x)
                    items = new
                except LOCAL as err:
                    sim.fail("valid-refused", f"{kind} table set({how}): {exc(err)}")
                    return
                if cb:
                    sim.check(seen == [e], "callback-wrong", f"{kind} table: after set saw {[s.hex() for s in seen]}")
        elif op in ("append", "insert"):
            new = fresh(1, items)
            if not new:
                continue
            e = A.encode(new[0])
            try:
                if op == "append":
                    how, x = sim.pick((("encoding", e), ("instance", S(e)), ("tuple", tuple(A.encode(y) for y in new[0][1]))))
                    v.append(x)
                    items.append(new[0])
                else:
                    j = sim.draw(n + 1)
                    v.insert(j, S(e))
                    items.insert(j, new[0])
            except LOCAL as err:
                sim.fail("valid-refused", f"{kind} table {op}({how}): {exc(err)}")
                return
        elif op == "duplicate":
            if not uniq or not items:
                continue
            t = sim.pick(items)
            new = gen_struct(sim, kind)
            bad = 2, [t[1][0]] + new[1][1:]
            sim.fault("duplicate_key", kind)
            try:
                if sim.chance(0.5):
                    v.append(A.encode(bad))
                else:
                    v.set(A.encode((1, fresh(2, [bad]) + [bad, bad])))
                sim.fail("invalid-accepted", f"{kind} table took a second {key(t).hex()}")
                return
            except LOCAL:
                pass
        elif op == "remove" and items:
            j = sim.draw(n)
            v.remove(v[j])
            j = next(i for i, t in enumerate(items) if t == items[j])
            items.pop(j)
        elif op == "pop" and items:
            if sim.chance(0.3):
                got, t = v.pop(), items.pop()
            else:
                j = sim.draw(n)
                got, t = v.pop(j), items.pop(j)
            sim.check(got.encoding == A.encode(t), "value-changed", f"{kind} table pop gave {got.encoding.hex()}")
        elif op == "inside" and items:
            j = sim.draw(n)
            new = gen_struct(sim, kind)
            i = sim.int(1, len(new[1]) - 1)
            v[j][i].set(A.encode(new[1][i]))
            items[j] = 2, items[j][1][:i] + [new[1][i]] + items[j][1][i + 1:]
        elif op == "bad":
            new = fresh(sim.int(1, 4))
            how, x = spoil(sim, (1, new))
            sim.fault("invalid_" + how.replace(" ", "_"), kind)
            try:
                if sim.chance(0.5) and new:
                    x = x if x else b""
                    v.set(x)
                else:
                    how, x = spoil(sim, new[0])
                    v.append(x)
            except LOCAL:
                pass
            else:
                sim.fail("invalid-accepted", f"{kind} table {how} {x.hex()} gave {v.encoding.hex()}")
                return
        elif op == "copy":
            c = M.cdt.Array(v.encoding, S) if T is None else v.copy()
            sim.check(c == v and c.encoding == v.encoding, "copy-differs", kind)
            if items:
                c.pop(0)
                if len(c):
                    c[0][1].set(A.encode(gen_struct(sim, kind)[1][1]))
        elif op == "clear":
            v.clear()
            items = []
        tree = (1, items)
        e = A.encode(tree)
        sim.log(op, how, kind, len(items))
        sim.check(v.encoding == e, "value-changed", f"{kind} table after {op} {how}: {v.encoding.hex()} expected {e.hex()}")
        sim.check(len(v) == len(items) and [x.encoding for x in v] == [A.encode(t) for t in items], "value-changed", f"{kind} table records after {op}")
        if op in ("refuse", "bad", "duplicate"):
            sim.check(not seen, "callback-wrong", f"{kind} table: told of a set that was refused")
        sim.check(v.TYPE is S, "value-changed", f"{kind} table: type of the records")
        sim.state(kind, op, len(items))


def mixed(sim):
    """lists of simple values: of a choice of types (thresholds of a register monitor), or of the one type its owner or its first content tells"""
    kind = sim.pick(("choice", "typed", "untyped"))
    K = {n: Kind(sim, n) for n in ("LongUnsigned", "Unsigned", "DoubleLong", "Long64", "Boolean", "OctetString", "VisibleString", "Float32", "DateTime")}
    one = sim.pick(list(K))
    type_ = None if kind == "untyped" else one
    v = M.rm.Thresholds() if kind == "choice" else M.cdt.Array(type_=K[one].T) if kind == "typed" else M.cdt.Array()
    items = []

    def fresh(n, name=None):
        return [A.encode((K[x].tag, K[x].gen(sim))) for x in ((name or sim.pick(list(K))) if kind == "choice" else type_ or one for _ in range(n))]
    for _ in sim.steps(8, 5):
        op = sim.pick(("set", "append", "pop", "copy", "wrong", "clear", "text"))
        how = ""
        if op == "set":
            if type_ is None:
                one = sim.pick(list(K))
            new = fresh(sim.int(0, 4))
            how = sim.pick(("encoding", "list"))
            e = b"\x01" + A.length(len(new)) + b"".join(new)
            if how == "list" and type_ is None and new:
                how = "encoding"
            v.set(e if how == "encoding" else list(new))
            items = new
            if type_ is None and new:
                type_ = one
        elif op == "append" and type_ is not None:
            e = fresh(1)[0]
            how = sim.pick(("encoding", "instance"))
            v.append(e if how == "encoding" else next(k for k in K.values() if k.tag == e[0]).T(e))
            items.append(e)
        elif op == "pop" and items:
            sim.check(v.pop().encoding == items.pop(), "value-changed", f"{kind} list pop")
        elif op == "copy":
            c = v.copy()
            sim.check(c.encoding == v.encoding, "copy-differs", f"{kind} list: {c.encoding.hex()} of {v.encoding.hex()}")
            if sim.chance(0.5):
                v, c = c, v                     # go on with the copy: it must be of the same type
            elif len(c):
                c.pop()
        elif op == "wrong" and (type_ is not None or kind == "choice"):
            other = sim.pick([n for n in K if K[n].tag != K[one].tag])
            e = A.encode((K[other].tag, K[other].gen(sim))) if kind != "choice" else sim.pick((b"\x01\x00", b"\x02\x00", b"\xff\x00"))
            if sim.chance(0.3):
                e = sim.pick((b"", b"\x12\x01"))
            sim.fault("wrong_type_in_list", kind)
            try:
                if sim.chance(0.5):
                    v.append(e)
                else:
                    v.set(b"\x01" + A.length(len(items) + 1) + b"".join(items) + e)
            except (*LOCAL, M.ut.UserfulTypesException):
                pass
            else:
                sim.fail("invalid-accepted", f"{kind} list of {one} took {e.hex()}")
        elif op == "clear":
            v.clear()
            items = []
        elif op == "text":
            sim.check(str(v).endswith(f"[{len(items)}]"), "text-wrong", f"{kind} list shows {v}")
        sim.log(op, how, kind, type_, len(items))
        e = b"\x01" + A.length(len(items)) + b"".join(items)
        sim.check(v.encoding == e and len(v) == len(items) and [x.encoding for x in v] == items, "value-changed", f"{kind} list after {op} {how}: {v.encoding.hex()} expected {e.hex()}")
        sim.state("mixed", kind, op, len(items))


def addresses(sim):
    """IPv4 addresses told and shown by texts"""
    T = M.IPAddress
    v = T()
    for _ in sim.steps(6, 12):
        parts = [sim.pick((0, 1, 9, 10, 99, 100, 127, 128, 192, 254, 255, sim.int(0, 255))) for _ in range(4)]
        how = sim.weighted([(4, "text"), (2, "octets"), (2, "number"), (1, "short"), (3, "bad")])
        old = v.contents
        try:
            if how == "text":
                v.set(".".join(map(str, parts)))
            elif how == "octets":
                v.set(b"\x06" + bytes(parts))
            elif how == "number":
                v.set(int.from_bytes(bytes(parts), "big"))
            elif how == "short":        # while it is typed
                n = sim.int(1, 3)
                v.set(".".join(map(str, parts[:n])))
                parts = parts[:n] + [0] * (4 - n)
            else:
                sim.fault("bad address")
                j = sim.draw(4)
                text = list(map(str, parts))
                text[j] = sim.pick(("256", "1000", "-1", "x", "0x10", "1,2"))
                bad = ".".join(text)
                try:
                    v.set(bad)
                except LOCAL:
                    sim.check(v.contents == old, "bad-address-damaged", lambda: f"after the refused {bad!r} the address is {v.contents.hex()}, it was {old.hex()}")
                    continue
                sim.fail("bad-address-taken", f"{bad!r} taken as {v}")
        except LOCAL as e:
            sim.fail("address-refused", f"{how} {parts}: {type(e).__name__}: {e}")
            return
        sim.check(v.contents == bytes(parts), "address-wrong", lambda: f"{how} of {parts} is {v.contents.hex()}")
        sim.check(str(v) == ".".join(map(str, parts)), "address-shown", lambda: f"{v.contents.hex()} is shown {v}")
        sim.check(int(v) == int.from_bytes(bytes(parts), "big") and v.encoding == b"\x06" + bytes(parts), "address-wrong", lambda: f"{v.encoding.hex()} {int(v)}")
        sim.state(how, parts[0] > 99, parts[3] > 99)
        sim.log(how, bytes(parts).hex())


CHECK = Check(
    id="C09",
    scenarios=[Scenario("values", values, 100000, 800_000, 500), Scenario("scaled", scaled, 24000, 300_000, 500), Scenario("structs", structs, 24000, 300_000, 500),
               Scenario("arrays", arrays, 24000, 300_000, 500), Scenario("mixed", mixed, 24000, 300_000, 500), Scenario("addresses", addresses, 3000, 50_000, 100)],
    rule="histories of sets (by encoding, contents, text, python value, instance), copies, edits of elements, invalid input and refusing callbacks; non-trivial: a fault counted",
    real=["types.common_data_types", "types.cosem_service_types", "tables of special days and activity calendar"],
    stub=["holders of the values and their callbacks (simulated)", "reference codec and text forms"],
    setup=setup,
)
