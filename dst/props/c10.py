"""C10 - dates, the meter's clock and the tariff calendar under a clock that jumps."""
import datetime as D
from calendar import monthrange

from ..engine import Check, Scenario
from .. import env, simclock
from .. import axdr_ref as A

REAL = simclock.REAL


class M:
    cdt = None


def setup():
    env.make_scratch()
    simclock.install()
    env.import_repo()
    with env.quiet():
        from src.DLMS_SPODES.types import cdt, cst
        from src.DLMS_SPODES.cosem_interface_classes.collection import Collection
        from src.DLMS_SPODES.cosem_interface_classes import cosem_interface_class as ic
        from src.DLMS_SPODES.cosem_interface_classes.overview import Version
        from src.DLMS_SPODES.types import cosemClassID as cid
    M.cdt, M.cst, M.Collection, M.ic, M.V, M.cid = cdt, cst, Collection, ic, Version, cid


LOCAL = (ValueError, TypeError, OverflowError, AttributeError, IndexError)


# ---- reference model: patterns are the 12, 5 or 4 octets -----------------------------------------------------------------
def day_match(p, d: D.date):
    y = p[0] * 256 + p[1]
    last = monthrange(d.year, d.month)[1]
    dom = {0xFE: last, 0xFD: last - 1}.get(p[3], p[3])
    return y in (0xFFFF, d.year) and p[2] in (0xFF, d.month) and dom in (0xFF, d.day) and p[4] in (0xFF, d.isoweekday())


TOP = 24, 60, 60, 100


def best_time(p, limit):
    """the latest (h, m, s, hundredths) <= limit described by p, or None"""
    def go(i, tight):
        if i == 4:
            return ()
        hi = limit[i] if tight else TOP[i] - 1
        if p[i] == 0xFF:
            cand = (hi, hi - 1) if hi else (0,)
        else:
            cand = (p[i],) if p[i] <= hi else ()
        for c in cand:
            r = go(i + 1, tight and c == limit[i])
            if r is not None:
                return (c,) + r
        return None
    return go(0, True)


FULL = (23, 59, 59, 99)


def hms(t):
    return t.hour, t.minute, t.second, t.microsecond // 10_000


def left_nearest(p, point, floor_year=1985):
    """the latest date and time <= point (naive, in the zone of the pattern) described by p"""
    y = p[0] * 256 + p[1]
    d = point.date()
    if y != 0xFFFF and y < d.year:
        d = D.date(y, 12, 31)
    low = D.date(max(floor_year, 1) if y == 0xFFFF else y, 1, 1)
    while d >= low:
        if day_match(p, d):
            t = best_time(p[5:9], hms(point.time()) if d == point.date() else FULL)
            if t is not None:
                return d, t
        d -= D.timedelta(days=1)
    return None


def zone_of(p):
    v = int.from_bytes(p[9:11], "big", signed=True)
    return None if v == -0x8000 else D.timezone(D.timedelta(minutes=v))


# ---- generators ----------------------------------------------------------------------------------------------------
def gen_date(sim, wild=0.5, last=True):
    """5 octets of a date pattern that the types accept"""
    for _ in range(20):
        y = 0xFFFF if sim.chance(wild) else sim.int(1995, 2060)
        mon = 0xFF if sim.chance(wild) else sim.int(1, 12)
        day = sim.weighted([(6, 0), (3, 0xFF), (2 if last else 0, 0xFE), (1 if last else 0, 0xFD)]) or sim.int(1, 31)
        if day <= 31 and mon != 0xFF and day > monthrange(2000 if y == 0xFFFF else y, mon)[1]:
            day = monthrange(2000 if y == 0xFFFF else y, mon)[1]
        if y == 0xFFFF and mon == 2 and day == 29 and sim.chance(0.5):
            day = 28
        w = 0xFF
        if sim.chance(0.25):
            if y != 0xFFFF and mon != 0xFF and day <= 31:
                w = D.date(y, mon, day).isoweekday()
            else:
                w = sim.int(1, 7)
        return bytes((y >> 8, y & 0xFF, mon, day, w))


def gen_time(sim, wild=0.3):
    out = []
    for top, edge in zip(TOP, (0.2, 0.4, 0.7, 0.8)):
        out.append(0xFF if sim.chance(wild) else 0 if sim.chance(edge) else top - 1 if sim.chance(0.1) else sim.draw(top))
    return bytes(out)


def gen_point(sim, p=None):
    """a moment, often at an edge of the pattern"""
    if p is not None and sim.chance(0.6):
        q = list(p)
        y = q[0] * 256 + q[1]
        y = sim.int(1996, 2059) if y == 0xFFFF else y
        mon = sim.int(1, 12) if q[2] > 12 else q[2]
        last = monthrange(y, mon)[1]
        day = {0xFF: sim.int(1, last), 0xFE: last, 0xFD: last - 1}.get(q[3], min(q[3], last))
        t = [sim.draw(n) if v == 0xFF else v for v, n in zip(q[5:9], TOP)] if len(q) == 12 else [sim.draw(n) for n in TOP]
        x = REAL(y, mon, day, *t[:3], t[3] * 10_000)
        x += D.timedelta(microseconds=sim.pick((0, -10_000, 10_000, -1_000_000, 1_000_000, 60_000_000, -60_000_000, 3_600_000_000, -86_400_000_000, 86_400_000_000, 4_321)))
        return x
    return REAL(1996, 1, 1) + D.timedelta(days=sim.draw(365 * 63), seconds=sim.draw(86_400), microseconds=sim.pick((0, 10_000, 990_000, 120_000, 123_456)))


def sd(x, tz=None):
    return simclock.SimDateTime._of(x, tz)


# ---- scenario: the nearest moment a pattern describes --------------------------------------------------------------------
def patterns(sim):
    cdt, cst = M.cdt, M.cst
    octet = sim.chance(0.5)
    kind = sim.weighted([(6, "dt"), (2, "time")])
    if kind == "time":
        p = gen_time(sim, 0.35)
        v = (cst.OctetStringTime if octet else cdt.Time)(bytearray(p))
        for _ in sim.steps(10, 5):
            if sim.chance(0.3):
                p = edit(sim, v, p, 0)
            pt = D.time(*(sim.draw(n) for n in TOP[:3]), sim.draw(100) * 10_000)
            if sim.chance(0.5):
                pt = D.time(*(sim.draw(n) if x == 0xFF else x for x, n in zip(p[:3], TOP)), sim.draw(100) * 10_000 if p[3] == 0xFF else p[3] * 10_000)
            got = v.get_left_nearest_time(pt)
            exp = best_time(p, hms(pt))
            sim.log("time", p.hex(), pt, got)
            sim.check((None if got is None else hms(got)) == exp, "nearest-time", lambda: f"{p.hex()} at {pt}: {got}, expected {exp}")
            sim.state("time", p[0] == 255, p[1] == 255, p[2] == 255, p[3] == 255, exp is None)
        return
    dev = sim.weighted([(4, -0x8000), (1, 0), (3, None)])
    dev = sim.int(-720, 720) if dev is None else dev
    p = gen_date(sim) + gen_time(sim) + (dev & 0xFFFF).to_bytes(2, "big") + b"\xff"
    v = (cst.OctetStringDateTime if octet else cdt.DateTime)(bytearray(p))
    for _ in sim.steps(8, 4):
        if sim.chance(0.3):
            p = edit(sim, v, p, 5)
        zone = zone_of(p)
        pt = gen_point(sim, p)
        if zone is None and sim.chance(0.4):
            tz = None                                  # a local time without zone
        else:
            tz = D.timezone(D.timedelta(minutes=sim.pick((0, 180, -300, 330, 1))))
            if zone is not None:
                if sim.chance(0.6):
                    tz = zone
                else:
                    sim.fault("other_zone")
        point = sd(pt, tz)
        local = pt if zone is None or tz is None else pt - tz.utcoffset(None) + zone.utcoffset(None)
        exp = left_nearest(p, local)
        got = v.get_left_nearest_datetime(point)
        day = v.get_left_nearest_date(point)
        sim.log("datetime", p.hex(), point, got, day)
        if exp is None:
            # below the floor year of the reference anything older is right as long as it is described by the pattern
            sim.check(got is None or (got.year < 1985 and day_match(p, got.date())), "nearest-datetime", lambda: f"{p.hex()} at {point}: {got}, expected nothing")
        else:
            d, t = exp
            sim.check(got is not None and (got.year, got.month, got.day) == (d.year, d.month, d.day) and hms(got) == t, "nearest-datetime",
                      lambda: f"{p.hex()} at {point}: {got}, expected {d} {t}")
            sim.check(got <= point, "nearest-datetime", lambda: f"{p.hex()} at {point}: {got} is later")
            sim.check(day is not None and day.date() == d, "nearest-date", lambda: f"{p.hex()} at {point}: {day}, expected {d}")
        sim.state("dt", p[0] == 255, p[2], p[3] > 31, p[4] == 255, exp is None, tz is None, zone is None)


SET = ("year", "month", "day", "weekday", "hour", "minute", "hundredths")


def edit(sim, v, p, off):
    """change one field through its setter; a wrong value is refused"""
    names = SET if off else SET[4:]
    n = sim.pick(names)
    if sim.chance(0.25):
        bad = {"year": (0, 10000, 70000, -1), "month": (0, 13, 254, 256, -1), "day": (0, 32, 300, -1), "weekday": (0, 8, -2), "hour": (24, -1, 254, 256), "minute": (60, -1, 300),
               "hundredths": (100, -1, 254)}[n]
        x = sim.pick(bad)
        sim.fault("wrong_field", n, x)
        try:
            getattr(v, "set_" + n)(x)
            sim.fail("field-wrong", f"{n}={x} on {p.hex()} is not refused")
        except LOCAL:
            pass
        sim.check(v.contents == p, "field-wrong", f"{n}={x} made {v.contents.hex()} of {p.hex()}")
        return p
    lo, hi, wild = {"year": (1995, 2060, 0xFFFF), "month": (1, 12, 255), "day": (1, 31, 255), "weekday": (1, 7, 255), "hour": (0, 23, 255), "minute": (0, 59, 255),
                    "hundredths": (0, 99, 255)}[n]
    x = wild if sim.chance(0.3) else sim.int(lo, hi)
    if n == "year" and sim.chance(0.05):
        x = 9999
    i, w = {"year": (0, 2), "month": (2, 1), "day": (3, 1), "weekday": (4, 1), "hour": (off, 1), "minute": (off + 1, 1), "hundredths": (off + 3, 1)}[n]
    q = p[:i] + x.to_bytes(w, "big") + p[i + w:]
    possible = True
    if i < 5 and off:
        y, mon, day, wd = q[0] * 256 + q[1], q[2], q[3], q[4]
        if mon <= 12 and day <= 31 and day > monthrange(2000 if y == 0xFFFF else y, mon)[1]:
            possible = False
        elif y != 0xFFFF and mon <= 12 and day <= 31 and wd != 255 and D.date(y, mon, day).isoweekday() != wd:
            possible = False
        elif y == 0xFFFF and mon == 2 and day == 29:
            possible = None                                          # implementation may refuse
    try:
        getattr(v, "set_" + n)(x)
    except LOCAL as e:
        sim.log("refused", n, x)
        sim.check(possible is not True, "field-wrong", lambda: f"{n}={x} on {p.hex()} refused: {e}")
        sim.check(v.contents == p, "field-wrong", lambda: f"refused {n}={x} left {v.contents.hex()}, was {p.hex()}")
        return p
    sim.check(possible is not False, "field-wrong", lambda: f"{n}={x} on {p.hex()} accepted as {v.contents.hex()}")
    sim.check(v.contents == q, "field-wrong", lambda: f"{n}={x} made {v.contents.hex()} of {p.hex()}")
    sim.check({"year": lambda: v.year, "month": lambda: v.month, "day": lambda: v.day, "weekday": lambda: v.weekday, "hour": lambda: v.hour, "minute": lambda: v.minute,
               "hundredths": lambda: v.hundredths}[n]() == (None if x == wild else x), "field-wrong", f"{n}={x} is not read back")
    return q


# ---- scenario: the clock and the tariff ------------------------------------------------------------------------------------
def make_meter():
    with env.quiet():
        col = M.Collection()
        for c, ln in ((M.cid.CLOCK, "0.0.1.0.0.255"), (M.cid.ACTIVITY_CALENDAR, "0.0.13.0.0.255"), (M.cid.SPECIAL_DAYS_TABLE, "0.0.11.0.0.255")):
            col.add(class_id=c, version=M.V.V0, logical_name=M.cst.LogicalName(ln))
    return col


SEC = 1_000_000
DAY = 86_400 * SEC
T0 = 946_684_800 * SEC            # 2000-01-01


class Host:
    def __init__(self, sim):
        self.sim = sim
        self.race = 0.0
        simclock.CLOCK.set(T0 + sim.draw(365 * 50) * DAY + sim.draw(86_400) * SEC, sim.pick((0, 180, -300, 345)), self.reading)

    def reading(self):
        if self.race and self.sim.chance(self.race):
            j = self.sim.pick((SEC, -SEC, 3600 * SEC, -3600 * SEC, 2 * DAY, -2 * DAY, 400))
            self.sim.fault("clock_jump_in_call", j)
            simclock.CLOCK.us += j

    def step(self):
        sim = self.sim
        c = simclock.CLOCK
        k = sim.weighted([(6, "run"), (2, "jump"), (1, "zone")])
        if k == "zone":
            c.zone_min = sim.pick((0, 60, 120, 180, -300, 345))
            sim.fault("host_zone_change", c.zone_min)
        elif k == "jump":
            j = sim.pick((-3600, 3600, -DAY // SEC, 7, -7, 400 * 86_400, -400 * 86_400)) * SEC
            c.us = max(T0, c.us + j)
            sim.fault("clock_jump", j)
        else:
            us = c.us
            c.us += sim.pick((1, 60, 1800, 3600, 6 * 3600, 86_400, 7 * 86_400, 31 * 86_400)) * SEC * sim.int(1, 5)
            sim.now += c.us - us


def naive(us):
    return simclock.EPOCH + D.timedelta(microseconds=us)


class MeterClock:
    """what the client knows of the meter's clock"""

    def __init__(self, sim, col):
        self.sim, self.col = sim, col
        self.zone = self.dev = None
        self.base = None
        # the zone of the clock is known or not
        if sim.chance(0.7):
            self.zone = sim.int(-12, 14) * 60 if sim.chance(0.7) else sim.int(-720, 840)
            col.clock.set_attr(3, self.zone)

    def read(self):
        """the client reads the clock: meter time and the moment of the reading"""
        sim, col, c = self.sim, self.col, simclock.CLOCK
        z = self.zone
        self.dev = sim.pick((-0x8000, z if z is not None and -720 <= z <= 720 else 0, 0)) if z is not None else sim.int(-12, 12) * 60
        drift = sim.weighted([(4, 0), (2, sim.int(-900, 900)), (1, 5 * 365 * 86_400), (1, -86_400 * 40)]) * SEC
        off = z if z is not None else self.dev
        # meter's local time
        local = naive(c.us + drift + off * 60 * SEC)
        local = local.replace(microsecond=local.microsecond // 10_000 * 10_000)
        t = bytes((local.year >> 8, local.year & 255, local.month, local.day, sim.pick((255, local.isoweekday())), local.hour, local.minute, local.second,
                   sim.pick((local.microsecond // 10_000, 255)))) + (self.dev & 0xFFFF).to_bytes(2, "big") + b"\0"
        if t[8] == 255:
            local = local.replace(microsecond=0)
        col.clock.set_attr(2, b"\x09\x0c" + t)
        rec = naive(c.us)
        stamp = sd(rec.replace(microsecond=rec.microsecond // 10_000 * 10_000), D.timezone.utc)
        if sim.chance(0.3):
            stamp = stamp.astimezone(D.timezone(D.timedelta(minutes=sim.pick((180, -300)))))
        col.clock.set_record_time(2, M.cdt.DateTime(stamp).encoding if sim.chance(0.7) else M.cdt.DateTime(stamp))
        self.base = local, stamp, off
        sim.log("read clock", t.hex(), stamp)
        return local

    def now(self):
        """expected estimate of the meter's local time and its offset"""
        local, stamp, off = self.base
        return local + (naive(simclock.CLOCK.us) - stamp.astimezone(D.timezone.utc).replace(tzinfo=None)), off


def check_clock(sim, col, mc, host):
    before = simclock.CLOCK.us
    try:
        got = col.current_time
    except LOCAL as e:
        if mc.base is None:
            return None
        sim.fail("current-time", f"{type(e).__name__} {e}")
        return None
    sim.check(mc.base is not None, "current-time", "a time without any reading")
    after = simclock.CLOCK.us
    exp, off = mc.now()
    exp_before = exp + D.timedelta(microseconds=before - after)
    lo, hi = min(exp, exp_before), max(exp, exp_before)
    g = got.astimezone(D.timezone(D.timedelta(minutes=off)))
    gn = REAL(g.year, g.month, g.day, g.hour, g.minute, g.second, g.microsecond)
    # several jumps inside one call: any value between the extremes seen
    lo2, hi2 = lo - host_span(host), hi + host_span(host)
    sim.check(lo2 <= gn <= hi2, "current-time", lambda: f"{got} is not between {lo2} and {hi2} (offset {off})")
    sim.check(got.utcoffset() == D.timedelta(minutes=off), "current-time", lambda: f"{got}: expected offset {off} min")
    return got


def host_span(host):
    return D.timedelta(days=4) if host.race else D.timedelta(0)


def clock(sim):
    col = make_meter()
    host = Host(sim)
    mc = MeterClock(sim, col)
    host.race = 0.0
    check_clock(sim, col, mc, host)
    mc.read()
    for _ in sim.steps(20, 8):
        k = sim.weighted([(4, "step"), (2, "read"), (1, "race")])
        if k == "step":
            host.step()
        elif k == "read":
            mc.read()
        host.race = 0.5 if k == "race" else 0.0
        check_clock(sim, col, mc, host)
        host.race = 0.0
        sim.state(k, mc.dev, mc.zone is None)


LOOKS = (b"week", b"WEEK", b"Week", b"week ", b" week", b"week\0", b"wee", b"", b"\0", b"0", b"week1", b"week10")


def gen_calendar(sim, loose=False):
    """day profiles {id: [(time, script, selector)]}, weeks {name: ids}, seasons [(name, start, week)], special [(index, date, id)]"""
    days = {}
    for _ in range(sim.int(1, 4) if sim.chance(0.8) else sim.int(5, 12)):
        acts = [(gen_time(sim, 0.03), sim.int(1, 3), sim.int(1, 9)) for _ in range(sim.int(1, 4))]
        if sim.chance(0.5):
            acts[0] = (bytes(4), *acts[0][1:])
        days[sim.pick((len(days) + 1, sim.int(0, 255)))] = acts
    weeks = {}
    ids = list(days)
    alike = LOOKS[(k := sim.draw(len(LOOKS))):] + LOOKS[:k] if sim.chance(0.4) else ()
    for i in range(sim.int(1, 3) if sim.chance(0.8) else sim.int(4, 8)):
        weeks[alike[i] if alike else sim.pick((bytes((i,)), b"w%d" % i))] = [sim.pick(ids) for _ in range(7)]
    names = list(weeks)
    seasons, seen = [], set()
    for i in range(sim.int(1, 4) if sim.chance(0.8) else sim.int(5, 9)):
        dev = 0x8000 if sim.chance(0.7) else sim.int(-12, 12) * 60 & 0xFFFF
        d = gen_date(sim, 0.4)
        if sim.chance(0.6):
            d = b"\xff\xff" + bytes((sim.int(1, 12), sim.int(1, 28), 255))
        start = d + (bytes(4) if sim.chance(0.5) else gen_time(sim, 0.4)) + dev.to_bytes(2, "big") + b"\xff"
        seasons.append((LOOKS[i] if alike else b"s%d" % i, start, sim.pick(names)))
    special = [(i + 1, gen_date(sim, 0.5), sim.pick(ids)) for i in range(sim.draw(4))]
    if loose and sim.chance(0.2):
        # references that lead nowhere: there is no answer then, never one of another day
        k = sim.pick(("special", "season", "week"))
        sim.fault("dangling_" + k)
        free = next(x for x in range(256) if x not in days)
        if k == "special" and special:
            i = sim.draw(len(special))
            special[i] = (special[i][0], special[i][1], free)
        elif k == "season":
            i = sim.draw(len(seasons))
            seasons[i] = (*seasons[i][:2], b"nobody")
        elif k == "week":
            weeks[sim.pick(names)][sim.draw(7)] = free
    return days, weeks, seasons, special


def enc_days(days):
    return A.encode((1, [(2, [(17, bytes((k,))), (1, [(2, [(9, t), (9, bytes((0, 0, 10, 0, s, 255))), (18, n.to_bytes(2, "big"))]) for t, s, n in acts])]) for k, acts in days.items()]))


def enc_weeks(weeks):
    return A.encode((1, [(2, [(9, n)] + [(17, bytes((x,))) for x in ids]) for n, ids in weeks.items()]))


def enc_seasons(seasons):
    return A.encode((1, [(2, [(9, n), (9, s), (9, w)]) for n, s, w in seasons]))


def enc_special(special):
    return A.encode((1, [(2, [(18, i.to_bytes(2, "big")), (9, d), (17, bytes((x,)))]) for i, d, x in special]))


def ref_tariff(cal, now):
    """what the calendar prescribes at `now` (aware): sets of right answers"""
    days, weeks, seasons, special = cal
    local = now.replace(tzinfo=None)
    best, who = None, []
    for n, s, w in seasons:
        z = zone_of(s)
        pt = local if z is None else local - now.utcoffset() + z.utcoffset(None)
        r = left_nearest(s, REAL(pt.year, pt.month, pt.day, pt.hour, pt.minute, pt.second, pt.microsecond), 1950)
        if r is None:
            continue
        d, t = r
        at = REAL(d.year, d.month, d.day, t[0], t[1], t[2], t[3] * 10_000) - (now.utcoffset() if z is None else z.utcoffset(None))
        if best is None or at > best:
            best, who = at, [(n, w)]
        elif at == best:
            who.append((n, w))
    sp = {x for _, d, x in special if day_match(d, local.date())}
    if sp:
        day_ids = sp
    else:
        day_ids = {weeks[w][local.weekday()] if w in weeks else None for n, w in who}
    acts = set()
    for k in day_ids:
        if k not in days:
            acts.add(None)
            continue
        top = None
        cand = set()
        for t, s, n in days[k]:
            r = best_time(t, hms(local))
            if r is None:
                continue
            if top is None or r > top:
                top, cand = r, {(s, n)}
            elif r == top:
                cand.add((s, n))
        acts |= cand or {None}
    if not day_ids:
        acts = {None}
    return {n for n, w in who}, sp, {k if k in days else None for k in day_ids}, acts


def install(sim, col, cal):
    days, weeks, seasons, special = cal
    ac, sp = col.activity_calendar, col.special_day_table
    ac.set_attr(5, enc_days(days))
    ac.set_attr(4, enc_weeks(weeks))
    ac.set_attr(3, enc_seasons(seasons))
    sp.set_attr(2, enc_special(special))


def ask(sim, fn, *a):
    try:
        return fn(*a)
    except AttributeError as e:
        return None


def check_tariff(sim, col, cal, now, told=True):
    """what the calendar tells about the moment given, or about the meter's current time when none is"""
    ac, st = col.activity_calendar, col.special_day_table
    names, sp, day_ids, acts = ref_tariff(cal, now)
    arg = (now,) if told else ()
    sim.log("at", now, sorted(names), sorted(sp), sorted(day_ids, key=str), sorted(acts, key=str))
    x = st.get_day_id_of_current_special_day(*arg)
    sim.check((x is None and not sp) or (x is not None and int(x) in sp), "special-day", lambda: f"at {now} {x} expected one of {sp}")
    s = ask(sim, ac.get_current_season, *arg)
    sim.check((None if s is None else bytes(s.season_profile_name)) in (names or {None}), "season", lambda: f"at {now} season {s} expected {names}: {cal[2]}")
    if s is not None:
        w = ask(sim, ac.get_current_week, *arg)
        name = bytes(s.week_name)
        sim.check((None if w is None else bytes(w.week_profile_name)) == (name if name in cal[1] else None), "week", lambda: f"at {now} week {w} of season {s}")
    d = ask(sim, ac.get_current_day, *arg)
    sim.check((None if d is None else int(d.day_id)) in (day_ids or {None}), "day", lambda: f"at {now} day {d} expected {day_ids}")
    return acts


def tariff(sim):
    col = make_meter()
    host = Host(sim)
    mc = MeterClock(sim, col)
    cal = gen_calendar(sim, True)
    try:
        install(sim, col, cal)
    except ValueError as e:
        sim.fail("calendar-refused", f"{e}: {cal}")
        return
    mc.read()
    for _ in sim.steps(12, 6):
        k = sim.weighted([(6, "step"), (2, "read"), (2, "edge"), (1, "edit")])
        if k == "step":
            host.step()
        elif k == "read":
            mc.read()
        elif k == "edge":                                      # bring the meter's time to an edge of a season or of an action
            p = sim.pick(cal[2])[1]
            if sim.chance(0.5):
                p = p[:5] + sim.pick(sim.pick(list(cal[0].values())))[0] + p[9:]
            x = gen_point(sim, p)
            simclock.CLOCK.us += int((x - mc.now()[0]) / D.timedelta(microseconds=1))
            sim.fault("clock_jump", "edge")
        elif k == "edit":
            cal = gen_calendar(sim, True)
            install(sim, col, cal)
        now = check_clock(sim, col, mc, host)
        acts = check_tariff(sim, col, cal, now, sim.chance(0.5))
        if sim.chance(0.5):
            """another moment than the current one is asked about"""
            check_tariff(sim, col, cal, (now + D.timedelta(hours=sim.int(-9000, 9000), seconds=sim.int(0, 3600))), True)
        a = ask(sim, col.activity_calendar.get_current_action)
        got = None if a is None else (a.script_logical_name.contents[4], int(a.script_selector))
        sim.check(got in acts, "action", lambda: f"at {now} action {got} expected {acts}")
        r = ask(sim, col.activity_calendar.get_current_rate)
        sim.check(r in {None if x is None else x[1] for x in acts}, "rate", lambda: f"at {now} rate {r} expected {acts}")
        if sim.chance(0.3):
            validate(sim, col, cal)
        sim.state(k, len(cal[2]), got is None, now.month)


def validate(sim, col, cal):
    """a calendar whose references dangle or whose keys repeat is reported"""
    ac = col.activity_calendar
    days, weeks, seasons, special = cal
    if any(w not in weeks for _, _, w in seasons) or any(x not in days for ids in weeks.values() for x in ids):
        try:
            ac.validate()
        except M.ic.ObjectValidationError as e:
            sim.check(e.ln == ac.logical_name, "validate", f"reported for {e.ln}")
        else:
            sim.fail("validate", "a calendar with a reference to nothing is not reported")
        return
    try:
        ac.validate()
    except M.ic.ObjectValidationError as e:
        sim.fail("validate", f"a right calendar is reported: {e}")
        return
    passive = sim.chance(0.5)
    o = 4 if passive else 0
    if passive:
        ac.set_attr(9, enc_days(days))
        ac.set_attr(8, enc_weeks(weeks))
        ac.set_attr(7, enc_seasons(seasons))
    k = sim.pick(("day", "week", "dup_day", "dup_week", "dup_season"))
    free = next(x for x in range(256) if x not in days)
    if k == "day":
        i, f, old = sim.draw(len(weeks)), sim.int(1, 7), None
        el = ac.get_attr(4 + o)[i][f]
        old = el.encoding
        el.set(bytes((17, free)))
        at = 4 + o
    elif k == "week":
        el = ac.get_attr(3 + o)[sim.draw(len(seasons))].week_name
        old = el.encoding
        bad = sim.pick([x for x in (b"nobody",) + LOOKS if x not in weeks])
        el.set(A.encode((9, bad)))
        at = 3 + o
    else:
        at, tab = {"dup_day": (5, days), "dup_week": (4, weeks), "dup_season": (3, seasons)}[k]
        at += o
        if len(tab) < 2:
            return
        i, j = sim.draw(len(tab)), sim.draw(len(tab))
        if i == j:
            return
        el = ac.get_attr(at)[i][0]
        old = el.encoding
        try:
            el.set(ac.get_attr(at)[j][0].encoding)
        except LOCAL:
            return
    sim.fault("broken_calendar_" + k)
    try:
        ac.validate()
    except M.ic.ObjectValidationError as e:
        sim.check(e.ln == ac.logical_name, "validate", f"{k} reported for {e.ln}")
    else:
        sim.fail("validate", f"{k} in attribute {at} is not reported")
    el.set(old)
    sim.log("validated", k)


# ---- scenario: octets a meter sends for a date, a time, both -----------------------------------------------------------------
def sound_date(p):
    """5 octets the Blue Book knows"""
    y = p[0] * 256 + p[1]
    if not (p[2] in (0xFF, 0xFE, 0xFD) or 1 <= p[2] <= 12) or not (p[3] in (0xFF, 0xFE, 0xFD) or 1 <= p[3] <= 31) or not (p[4] == 0xFF or 1 <= p[4] <= 7):
        return False
    if p[2] <= 12 and p[3] <= 31 and p[3] > monthrange(2000 if y == 0xFFFF else y, p[2])[1]:
        return False
    return not (y != 0xFFFF and p[2] <= 12 and p[3] <= 31 and p[4] != 0xFF and D.date(y, p[2], p[3]).isoweekday() != p[4])


def sound_time(p):
    return all(v == 0xFF or v < n for v, n in zip(p, TOP))


def octets(sim):
    """dates and times out of a meter with damaged octets: what the Blue Book knows is taken and shown, all else is refused and changes nothing"""
    cdt, cst = M.cdt, M.cst
    kind = sim.pick(("date", "time", "both"))
    size, types = {"date": (5, (cdt.Date, cst.OctetStringDate)), "time": (4, (cdt.Time, cst.OctetStringTime)), "both": (12, (cdt.DateTime, cst.OctetStringDateTime))}[kind]
    T = sim.pick(types)
    head = (b"\x09" + bytes([size])) if T.__name__.startswith("Octet") else bytes([{"date": 26, "time": 27, "both": 25}[kind]])

    def gen():
        p = (b"" if kind == "time" else gen_date(sim)) + (b"" if kind == "date" else gen_time(sim))
        return p + (int.to_bytes(sim.pick((-0x8000, 0, 180, -720, 720)) & 0xFFFF, 2, "big") + bytes([sim.pick((0xFF, 0, 1, 0x80, 0x81))]) if kind == "both" else b"")
    cur = gen()
    v = T(head + cur)
    for _ in sim.steps(10, 6):
        p = bytearray(gen())
        if sim.chance(0.7):
            i = sim.draw(min(size, 9))
            p[i] = sim.weighted([(2, 0), (1, 24), (1, 60), (1, 100), (1, 13), (1, 32), (1, 8), (1, 0xFC), (1, 0xFD), (1, 0xFE), (1, 0xFF), (3, None)]) or 0
            if p[i] == 0 and sim.chance(0.3):
                p[i] = sim.draw(256)
            sim.fault("damaged_octet")
        p = bytes(p)
        if kind != "time" and p[:2] != b"\xff\xff" and not 1 <= p[0] * 256 + p[1] <= 9999:
            continue
        good = (kind == "time" or sound_date(p[:5])) and (kind == "date" or sound_time(p[:4] if kind == "time" else p[5:9]))
        how = sim.pick(("new", "set", "raw"))
        sim.log(T.__name__, p.hex(), how, good)
        sim.state(kind, T.__name__[:5], how, good)
        try:
            if how == "new":
                w = T(head + p)
            elif how == "raw":
                w = T(bytearray(p))
            else:
                v.set(head + p)
                w = v
        except ValueError:
            sim.check(not good, "octets-refused", f"{T.__name__} refused {p.hex()}")
            sim.check(v.encoding == head + cur, "refused-changes", f"{T.__name__} {cur.hex()} became {v.encoding.hex()} with {p.hex()} refused")
            continue
        sim.check(good, "octets-taken", f"{T.__name__} took {p.hex()}")
        sim.check(w.encoding == head + p, "octets-changed", f"{T.__name__} made {w.encoding.hex()} of {p.hex()}")
        if how == "set":
            cur = p
        sim.check(isinstance(str(w), str) and v.encoding == head + cur, "octets-changed", f"{T.__name__} {cur.hex()} became {v.encoding.hex()}")
        if kind != "time":
            got = w.year, None if p[2] in (0xFD, 0xFE) else w.month, w.weekday
            want = tuple(None if x == n else x for x, n in ((p[0] * 256 + p[1], 0xFFFF), (p[2], 0xFF), (p[4], 0xFF)))
            sim.check(got[1:] == (None if p[2] in (0xFD, 0xFE) else want[1], want[2]) and got[0] == want[0], "parts-wrong", f"{p.hex()}: {got}")
        if kind != "date":
            q = p[-4:] if kind == "time" else p[5:9]
            got = w.hour, w.minute, w.second, w.hundredths
            sim.check(got == tuple(None if x == 0xFF else x for x in q), "parts-wrong", f"{p.hex()}: {got}")


CHECK = Check(
    id="C10",
    scenarios=[Scenario("patterns", patterns, 12000, 300_000, 200), Scenario("clock", clock, 1500, 40_000, 50), Scenario("tariff", tariff, 3000, 80_000, 50), Scenario("octets", octets, 10000, 200_000, 200)],
    rule="patterns, setters with wrong values and jumping clocks; non-trivial: a fault counted",
    real=["types.common_data_types date and time", "clock", "activity_calendar", "special_days_table", "collection"],
    stub=["host clock (datetime.datetime, time.time replaced by the simulated one)", "the meter's clock", "reference calendar"],
    assumptions=["daylight saving codes 0xFD/0xFE of the month are outside the property", "fixed zone offsets"],
    setup=setup,
)
