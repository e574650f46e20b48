"""C14 - objects hold exactly what was last set, whatever arrives in whatever order; derived values (scaled values, thresholds, negotiated parameters) follow."""
from fractions import Fraction

from .. import axdr_ref as A, env, objgen as O
from ..engine import Check, Scenario
from ..objgen import G, i8, octet, u16, u8

LOCAL = (ValueError, TypeError, KeyError, IndexError, AttributeError)
KINDS = [k for k in O.POOL if k[0] not in (7, 15, 21, 71)]
PRISTINE = {}


def setup():
    env.make_scratch()
    env.import_repo()
    with env.quiet():
        O.bind()
        import src.DLMS_SPODES.exceptions as exc
        from src.DLMS_SPODES import enums as enu
        from src.DLMS_SPODES.version import AppVersion
    G.exc, G.enu, G.AppVersion = exc, enu, AppVersion
    G.bad = LOCAL + (G.ut.UserfulTypesException, exc.DLMSException)
    for k in KINDS + [(21, 0), (71, 0)]:
        PRISTINE[k] = state(new(G.col.Collection(), k, O.POOL[k][0]), False)


def new(c, k, t):
    return c.add(class_id=G.ut.CosemClassId(k[0]), version=G.cdt.Unsigned(k[1]), logical_name=G.cst.LogicalName(bytearray(t)))


def state(o, ln=True):
    return {i: v if v is None else v.encoding for i, v in o.get_index_with_attributes() if ln or i != 1}


def spoil(sim, b):
    how = sim.pick(("cut", "tag", "flip"))
    b = bytearray(b)
    if how == "cut" and b:
        b = b[:sim.int(0, len(b) - 1)]
    elif how == "tag":
        b[0] = sim.pick([x for x in (0, 1, 2, 3, 9, 15, 17, 18, 22, 99) if x != b[0]])
    else:
        b[sim.draw(len(b))] ^= 1 << sim.draw(8)
    sim.fault("answer_" + how)
    return bytes(b)


def attributes(sim):
    """objects of all classes; values arrive whole, spoiled, again, in any order; cleared, reset, copied"""
    c = G.col.Collection()
    held = []
    for k in [sim.pick(KINDS) for _ in range(sim.int(1, 3))]:
        free = [t for t in O.POOL[k] if c.get(bytes(t)) is None]
        if free:
            o = new(c, k, sim.pick(free))
            s = state(o)
            sim.check({i: v for i, v in s.items() if i != 1} == PRISTINE[k], "new-object-wrong", f"new object of class {k[0]} is not as the first one was: {s}")
            held.append([k, o, s, {}])
    for _ in sim.steps(16, 10):
        h = sim.pick(held)
        k, o, model, when = h
        i = sim.int(2, len(o.A_ELEMENTS) + 1)
        op = sim.weighted([(6, "set"), (4, "spoiled"), (2, "clear"), (1, "reset"), (1, "time"), (2, "copy"), (2, "encode"), (1, "out"), (1, "ln"), (1, "link")])
        had = o.get_attr(i)
        typ = o.get_attr_element(i).DATA_TYPE
        if op in ("set", "spoiled"):
            x = O.gen(sim, type(had) if had is not None else typ, [(3, (1, 0, 1, 8, 0, 255), 2)] if k[0] == 40 else ())
            if x is None or had is None and not isinstance(typ, G.ut.CHOICE) and not O.fits(typ, x) or had is not None and not O.fits(type(had), x):
                continue
            e = A.encode(x)
            taken = True
            if op == "set":
                refuse = k[0] == 5 and i in (2, 3) and had is None and model[5 - i] is not None and model[5 - i][0] != e[0]
                try:
                    o.set_attr(i, e)
                except ValueError as err:
                    sim.check(refuse, "value-refused", f"class {k[0]} attribute {i}: {e.hex()} refused: {err}")
                else:
                    sim.check(not refuse, "bad-value-taken", f"class {k[0]} attribute {i}: type of other average value taken")
                    model[i] = e
            else:
                e = spoil(sim, e)
                try:
                    o.set_attr(i, e)
                except G.bad:
                    sim.probe("refused")
                    taken = False
                else:
                    v = o.get_attr(i).encoding
                    sim.check(e.startswith(v) or same(e, v), "bad-value-taken", f"class {k[0]} attribute {i}: {e.hex()} taken as {v.hex()}")
                    model[i] = v
            if k[0] == 68 and i == 2 and taken:
                arrange(sim, o, model)
        elif op == "clear":
            """what a value set again after a template forgot it is compared with is not told"""
            if k[0] in (10, 11, 15, 68) or k[0] == 5 and i < 4 or i == 1:
                continue
            o.clear_attr(i)
            model[i] = None
        elif op == "reset":
            d = o.get_attr_element(i).default
            if d is None:
                continue
            o.reset_attribute(i)
            model[i] = PRISTINE[k][i]
        elif op == "time":
            b = A.gen_datetime(sim)
            o.set_record_time(i, A.encode((25, b)))
            when[i] = b
        elif op == "copy":
            n = o.__class__(o.logical_name)
            n.collection = c
            try:
                n.copy(o, None)
            except NotImplementedError:
                continue
            s = state(n)
            for j, v in model.items():
                el = o.get_attr_element(j)
                if v is not None and (isinstance(el.DATA_TYPE, G.ut.CHOICE) or el.classifier != G.ic.Classifier.DYNAMIC):
                    sim.check(s[j] == v, "copy-differs", f"class {k[0]} attribute {j}: copy has {s[j] and s[j].hex()}, origin {v.hex()}")
            if sim.chance(0.5):
                """the copy is used from now on"""
                h[1], h[2], h[3] = n, s, {}
                o, model, when = n, s, h[3]
        elif op == "encode":
            if isinstance(had, G.cdt.Digital) and had.SCALER_UNIT is None and not getattr(had, "ELEMENTS", None):
                lo, hi = had.MIN or 0, had.MAX if had.MAX is not None else 100
                n = sim.int(lo, max(lo, min(hi, lo + 100)))
                v = o.encode(i, n if sim.chance(0.5) or type(had).from_str is not G.cdt.Digital.from_str else str(n))
                sim.check(v is not None and v is not had and type(v) is type(had) and int(v) == n, "encode-wrong", f"class {k[0]} attribute {i}: encode({n}) gives {v if v is None else v.encoding.hex()}")
        elif op == "link":
            if isinstance(typ, G.ut.CHOICE) or had is None or k[0] in (5, 7, 10, 11, 15, 20, 21, 68, 71):
                continue
            v = sim.pick((had.copy(), G.cdt.OctetString(), G.cdt.Boolean(), G.cdt.LongUnsigned(), G.cdt.Utf8String()))
            try:
                o.set_attr_link(i, v)
            except ValueError:
                sim.check(not isinstance(v, typ), "value-refused", f"class {k[0]} attribute {i}: a value of its type is refused")
            else:
                sim.check(isinstance(v, typ), "bad-value-taken", f"class {k[0]} attribute {i}: a {type(v).__name__} is put for {typ.__name__}")
                sim.check(o.get_attr(i) is v, "value-lost", f"class {k[0]} attribute {i}: what was put is not held")
                model[i] = v.encoding
        elif op == "out":
            for j in (0, -1, len(o.A_ELEMENTS) + 2):
                try:
                    o.get_attr(j)
                except IndexError:
                    continue
                sim.fail("index-wrong", f"class {k[0]}: attribute {j} answered")
        else:
            d = o.get_attr_descriptor(i)
            sim.check(d.contents == int(o.CLASS_ID).to_bytes(2, "big") + bytes(o.logical_name.contents) + bytes([i]), "descriptor-wrong", f"class {k[0]} attribute {i}: descriptor {d.contents.hex()}")
            sim.check(o.get_attribute_descriptor(i) == d.contents, "descriptor-wrong", lambda: f"class {k[0]} attribute {i}: descriptor {o.get_attribute_descriptor(i).hex()}, {d.contents.hex()}")
            if o.M_ELEMENTS:
                j = sim.int(1, len(o.M_ELEMENTS))
                d = o.get_meth_descriptor(j)
                sim.check(d.contents == int(o.CLASS_ID).to_bytes(2, "big") + bytes(o.logical_name.contents) + bytes([j]), "descriptor-wrong", f"class {k[0]} method {j}: descriptor {d.contents.hex()}")
        sim.log(op, k[0], i)
        sim.state(k, op, i)
        for kk, oo, mm, ww in held:
            s = state(oo)
            bad = {j: (s[j] and s[j].hex(), mm[j] and mm[j].hex()) for j in s if s[j] != mm[j]}
            sim.check(not bad, "value-lost", f"after {op} of class {k[0]} attribute {i}, class {kk[0]} has (value, what was set): {bad}")
            for j in range(2, len(oo.A_ELEMENTS) + 2):
                t = oo.get_record_time(j)
                sim.check((t and t.contents) == ww.get(j), "record-time-wrong", f"class {kk[0]} attribute {j}: record time {t}")
    k = sim.pick(KINDS)
    sim.check(state(new(G.col.Collection(), k, O.POOL[k][0]), False) == PRISTINE[k], "new-object-wrong", f"a new object of class {k[0]} is not as the first one was")


def same(a, b):
    try:
        t, n = A.decode(a)[:2]
        return A.encode(t) == b
    except Exception:
        return False


def arrange(sim, o, model):
    """permissions of actors have a bit for each action"""
    if model[3] is None or A.decode(model[3])[0][1] == []:
        return
    n = len(A.decode(model[2])[0][1])
    t = [(4, (n, bytes((n + 7) // 8))) if x[1][0] != n else x for x in A.decode(model[3])[0][1]]
    model[3] = A.encode((1, t))


NUM = {3: (5, 6, 15, 16, 17, 18, 20, 21), 4: (6, 17, 18, 21), 5: (5, 6, 15, 16, 17, 18, 20, 21)}
SIZE = {5: (4, 1), 6: (4, 0), 15: (1, 1), 16: (2, 1), 17: (1, 0), 18: (2, 0), 20: (8, 1), 21: (8, 0)}


def number(sim, tag, lim=2 ** 50):
    n, s = SIZE[tag]
    lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if s else (0, (1 << 8 * n) - 1)
    lo, hi = max(lo, -lim), min(hi, lim)
    v = sim.weighted([(2, 0), (2, 1), (1, lo), (1, hi), (6, None)])
    return sim.int(lo, hi) if v is None else v


def raw(tag, v):
    n, s = SIZE[tag]
    return tag, v.to_bytes(n, "big", signed=bool(s))


def exponent(unit, sc):
    return sc - G.cdt.Unit(unit).get_scaler()


def measured(sim):
    """a measured value, its scaler and unit, the objects that watch it: answers come in any order, again, or get lost"""
    c = G.col.Collection()
    k = sim.pick(((3, 0), (3, 0), (4, 0), (5, 0)))
    t = O.POOL[k][0]
    r = new(c, k, t)
    si = 4 if k[0] == 5 else 3
    tag = sim.pick(NUM[k[0]])
    mon, lim = new(c, (21, 0), O.POOL[21, 0][0]), new(c, (71, 0), O.POOL[71, 0][0])
    val, scal, thr, lthr, watched, limited, lscal = None, None, None, {}, False, False, None
    ref = A.encode((2, [u16(k[0]), octet(t), i8(2)]))
    last = None
    for _ in sim.steps(14, 8):
        op = sim.weighted([(4, "value"), (3, "scaler"), (3, "text"), (2, "last"), (2, "watch"), (2, "thresholds"), (1, "limit"), (1, "lthreshold"), (1, "lost"), (1, "scratch")])
        if op == "lost":
            sim.fault("answer_lost")
            continue
        if op == "value":
            n = number(sim, tag)
            r.set_attr(2, A.encode(raw(tag, n)))
            val = n
        elif op == "last" and k[0] == 5:
            last = number(sim, tag)
            r.set_attr(3, A.encode(raw(tag, last)))
        elif op == "scaler":
            scal = sim.int(-6, 6), sim.pick((1, 27, 30, 33, 35, 255))
            r.set_attr(si, A.encode((2, [i8(scal[0]), (22, bytes([scal[1]]))])))
        elif op == "scratch":
            """a second collection read at the same time"""
            c2 = G.col.Collection()
            r2 = new(c2, k, t)
            r2.set_attr(si, A.encode((2, [i8(5), (22, b"\x1e")])))
            r2.set_attr(2, A.encode(raw(tag, 1)))
            sim.fault("interleaved_meter")
        elif op == "text" and val is not None:
            """what is shown, written back, is the same value"""
            v = r.get_attr(2)
            txt = str(v)
            if scal is None:
                sim.check(txt == str(val), "text-wrong", f"{val} shown as {txt}")
            else:
                w = Fraction(val) * Fraction(10) ** exponent(scal[1], scal[0])
                sim.check(Fraction(txt) == w, "text-wrong", f"{val} scaler {scal[0]} unit {scal[1]} shown as {txt}")
                sim.check(v.report.startswith(txt + " ") and v.get_report(with_unit=False) == txt, "text-wrong", f"report {v.report!r} of {txt}")
            y = r.encode(2, txt)
            sim.check(y is not v and y.encoding == v.encoding and str(y) == txt, "text-wrong", lambda: f"{txt} encoded is {y.encoding.hex()} {y}, the value is {v.encoding.hex()}")
            v.set(txt)
        elif op == "thresholds":
            ns = [number(sim, tag) for _ in range(sim.int(0, 3))]
            e = A.encode((1, [raw(tag, n) for n in ns]))
            mon.set_attr(2, e)
            thr = e
        elif op == "watch":
            mon.set_attr(3, ref)
            watched = True
        elif op == "limit" and val is None:
            """the limiter is read before the value it watches: said, and made good when it is read again"""
            try:
                lim.set_attr(2, ref)
                sim.fail("limit-without-value", "a limiter took thresholds from a value that is not known")
            except G.exc.EmptyObj:
                sim.probe("limiter before its register")
        elif op == "limit" and not limited:
            lim.set_attr(2, ref)
            limited = True
            lscal = scal
            lthr = {3: 0, 4: 0, 5: 0}
        elif op == "lthreshold" and limited:
            i = sim.int(3, 5)
            n = number(sim, tag)
            lim.set_attr(i, A.encode(raw(tag, n)))
            lthr[i] = n
        sim.log(op)
        v = r.get_attr(2)
        sim.check((v and v.encoding) == (None if val is None else A.encode(raw(tag, val))), "value-lost", f"after {op}: value {v and v.encoding.hex()}, set {val}")
        if scal is not None and val is not None:
            sim.check(v.SCALER_UNIT is not None and (v.SCALER_UNIT.scaler.decode(), int(v.SCALER_UNIT.unit)) == scal, "scaler-wrong", f"after {op}: value has scaler and unit {v.SCALER_UNIT and v.SCALER_UNIT.encoding.hex()}, register {scal}")
            w = Fraction(val) * Fraction(10) ** exponent(scal[1], scal[0])
            d = v.decode()
            sim.check(abs(Fraction(d) - w) <= abs(w) * Fraction(1, 10 ** 12), "scaler-wrong", f"{val} with scaler {scal[0]} is {d}")
        if last is not None:
            y = r.get_attr(3)
            sim.check(y.encoding == A.encode(raw(tag, last)), "value-lost", f"after {op}: last average value {y.encoding.hex()}, set {last}")
            if scal is not None:
                w = Fraction(last) * Fraction(10) ** exponent(scal[1], scal[0])
                sim.check(abs(Fraction(y.decode()) - w) <= abs(w) * Fraction(1, 10 ** 12) and Fraction(str(y)) == w, "scaler-wrong", f"last average value {last} with scaler {scal} is {y.decode()}, shown {y}")
        if thr is not None:
            sim.check(mon.thresholds.encoding == thr, "threshold-lost", f"after {op}: thresholds {mon.thresholds.encoding.hex()}, set {thr.hex()}")
        if watched and val is not None and thr is None:
            want = type(v)
            sim.probe("empty thresholds")
            T = mon.thresholds.TYPE
            sim.check(T is want or isinstance(T, G.ut.CHOICE), "threshold-type-wrong", f"thresholds are of {T}, value of {want}")
        for i, n in lthr.items():
            got = lim.get_attr(i)
            sim.check(got.encoding == A.encode(raw(tag, n)), "threshold-lost", f"after {op}: limiter attribute {i} is {got.encoding.hex()}, set {n}")
            if k[0] in (3, 4) and lscal is not None:
                sim.check(got.SCALER_UNIT is not None and got.SCALER_UNIT == r.get_attr(si), "scaler-wrong", f"limiter attribute {i}: {got.SCALER_UNIT}")
        sim.state(k, op, tag, scal is None, watched, limited)


def watchers(sim):
    """a register monitor is copied with its register: types known stay known"""
    c = G.col.Collection()
    k = sim.pick(((3, 0), (4, 0)))
    t = O.POOL[k][0]
    r, mon = new(c, k, t), new(c, (21, 0), O.POOL[21, 0][0])
    tag = sim.pick(NUM[k[0]])
    r.set_attr(2, A.encode(raw(tag, 1)))
    mi = 2
    if k == (4, 0) and sim.chance(0.5):        # the status is watched, of another type than the value
        mi = 4
        tag = sim.pick((6, 17, 18, 21))
        r.set_attr(4, A.encode(raw(tag, 1)))
    mon.set_attr(3, A.encode((2, [u16(k[0]), octet(t), i8(mi)])))
    sim.check(mon.thresholds.TYPE is type(r.get_attr(mi)), "threshold-type-wrong", lambda: f"thresholds are of {mon.thresholds.TYPE}, attribute {mi} of {type(r.get_attr(mi))}")
    if sim.chance(0.5):
        mon.thresholds.append(A.encode(raw(tag, 7)))
    c2 = G.col.Collection()
    r2, m2 = new(c2, k, t), new(c2, (21, 0), O.POOL[21, 0][0])
    order = [(r2, r), (m2, mon)]
    if sim.chance(0.5):
        sim.fault("watcher_first")
        order.reverse()
    for a, b in order:
        a.copy(b, None)
    sim.check(m2.thresholds.encoding == mon.thresholds.encoding, "threshold-lost", f"copy has thresholds {m2.thresholds.encoding.hex()}, origin {mon.thresholds.encoding.hex()}")
    sim.check(m2.thresholds.TYPE is mon.thresholds.TYPE, "threshold-type-wrong", f"copy has thresholds of {m2.thresholds.TYPE}, origin of {mon.thresholds.TYPE}")
    m2.thresholds.append(A.encode(raw(tag, 3)))
    sim.check(len(m2.thresholds) == len(mon.thresholds) + 1, "threshold-lost", "a threshold of the copy went to the origin")


def negotiation(sim):
    """parameters negotiated by UA frames, good and bad, as the object of the HDLC setup keeps them"""
    o = new(G.col.Collection(), (23, 1), O.POOL[23, 1][0])
    names = {5: (5, 18), 6: (6, 18), 7: (3, 17), 8: (4, 17)}
    default = {3: b"\x11\x01", 4: b"\x11\x01", 5: b"\x12\x00\x80", 6: b"\x12\x00\x80"}    # DLMS UA 1000-2, 8.4.5.3.2
    model = dict(default)
    for _ in sim.steps(8, 5):
        items, good = [], True
        for tag in sorted(names) if sim.chance(0.6) else [sim.pick(sorted(names)) for _ in range(sim.int(0, 4))]:
            size = sim.pick((1, 2)) if tag in (5, 6) else sim.pick((1, 4))
            v = sim.int(1, 255) if size == 1 else sim.int(1, 2030) if size == 2 else sim.int(1, 7)
            items.append((tag, size, v))
        body = b"".join(bytes([t, s]) + v.to_bytes(s, "big") for t, s, v in items)
        how = sim.weighted([(5, "good"), (2, "empty"), (1, "tag"), (1, "length"), (1, "header"), (1, "cut"), (1, "big")])
        if how == "tag":
            body += bytes([sim.pick((0, 1, 4, 9, 255)), 1, 1])
        if how == "big":
            body += bytes((8, 2)) + (256).to_bytes(2, "big") if sim.chance(0.5) else bytes((sim.pick((5, 6)), 4)) + sim.pick((65536, 65536 + 128, 1 << 24)).to_bytes(4, "big")
        info = b"\x81\x80" + bytes([len(body) + (1 if how == "length" else 0)]) + body
        if how == "header":
            info = b"\x82\x80" + info[2:]
        if how == "cut":
            info = info[:sim.int(1, len(info) - 1)]
        if how == "empty":
            info = b""
        if how != "good":
            sim.fault("ua_" + how)
        before = state(o)
        try:
            o.set_from_info(info)
        except G.bad:
            sim.check(how not in ("good", "empty"), "ua-refused", f"{info.hex()} refused")
            sim.check(state(o) == before, "ua-partial", f"a refused UA information field {info.hex()} changed the parameters")
        else:
            sim.check(how in ("good", "empty"), "ua-taken", f"bad UA information field {info.hex()} taken")
            if how == "empty":
                model = dict(default)
            for t, s, v in items if how == "good" else ():
                i, tg = names[t]
                model[i] = A.encode((tg, v.to_bytes(SIZE[tg][0], "big")))
        got = {i: o.get_attr(i).encoding for i in model}
        sim.check(got == model, "ua-wrong", f"after {how} {info.hex()}: {got}, expected {model}")
        for i, word in ((5, "max_info_transmit"), (6, "max_info_receive"), (3, "window_transmit"), (4, "window_receive")):
            want = None if model[i] == default[i] else model[i][1:]
            sim.check(getattr(o, word) == want, "ua-wrong", lambda: f"{word} is {getattr(o, word)}, the meter said {model[i].hex()}")
        if sim.chance(0.2):
            x = sim.pick((0, 1, 16, 0x3ffd, sim.int(0, 0x3ffd)))
            o.set_attr(9, A.encode((18, x.to_bytes(2, "big"))))
            sim.check(o.get_device_address() == (x or None), "ua-wrong", lambda: f"device address {x} is {o.get_device_address()}")
        sim.state(how, len(items))


def versions(sim):
    good = f"{sim.int(0, 40) or 3}.{sim.int(0, 40)}"
    if good.startswith("0."):
        good = "3" + good[1:]
    how = sim.weighted([(5, None), (1, "three"), (1, "one"), (1, "words"), (1, "empty"), (1, "bytes")])
    bad = {None: good, "three": good + ".1", "one": good.split(".")[0], "words": sim.pick(("a.b", "3.x", "x.0", "SPODES", ".", "3.", ".0")), "empty": ""}.get(how)
    return (9, b"\xff\xfe." if how == "bytes" else bad.encode()), how is None


def measuring(sim):
    v = sim.pick((1, 2, 3, 5, 10, 15, 20, 30, 60)) if sim.chance(0.6) else sim.int(0, 255)
    return (17, bytes([v])), v in (1, 2, 3, 5, 10, 15, 20, 30, 60)


def any_time(sim):
    n = sim.weighted([(3, 12), (3, 5), (3, 4), (1, 25), (1, 26), (1, 27), (1, 0)])
    if n == 0:
        n = sim.pick((0, 1, 3, 6, 11, 13, 24))
        return (9, sim.bytes(n)), False
    b = {12: A.gen_datetime, 25: A.gen_datetime, 5: A.gen_date, 26: A.gen_date, 4: A.gen_time, 27: A.gen_time}[n](sim)
    return ((9 if n < 20 else n), b), True


def ping(sim):
    n = sim.int(0, 4)
    return (2, [(17, sim.bytes(1)), (1, [(6, sim.bytes(4)) for _ in range(n)])][:2 if sim.chance(0.8) else 1]), None


def bitmap(sim):
    return (2, [(9, A.gen_datetime(sim)), (9, A.gen_datetime(sim)), (9, sim.bytes(sim.pick((0, 1, 20, 300))))]), True


def device(sim):
    t = sim.pick((6, 9, 10, 12, 17, 18, 3, 5, 15, 16, 22))
    n = {6: 4, 17: 1, 18: 2, 3: 1, 5: 4, 15: 1, 16: 2, 22: 1}.get(t)
    b = bytes(sim.int(32, 126) for _ in range(sim.int(0, 10))) if n is None else sim.bytes(n)
    return (t, b), t in (6, 9, 10, 12, 17, 18)


def word(sim):
    return (18, sim.bytes(2)), True


def octet_(sim):
    return (17, sim.bytes(1)), True


def quad(sim):
    return (6, sim.bytes(4)), True


def moment(sim):
    return (9, A.gen_datetime(sim)), True


SPODES = [((1, 0, 0, 8, 4), measuring), ((1, 0, 0, 8, 5), measuring), ((0, 0, 96, 1, 6), versions)]
SPODES += [((0, 0, 96, 2, e), any_time) for e in (1, 2, 3, 5, 6, 7, 11, 12)] + [((0, 0, 96, 1, e), device) for e in (0, 1, 2, 3, 4, 5, 7, 8, 9, 10)]
SPODES += [((0, 0, 96, 51, e), octet_) for e in (0, 1, 3, 4, 5, 6, 7)] + [((0, 0, 96, 51, e), moment) for e in (8, 9)] + [((0, 0, 96, 12, 4), octet_)]
EVENTS_ = [(0, 0, 96, 11, e) for e in range(9)]
KPZ = SPODES + [((0, 128, 154, 0, 0), ping), ((0, 128, 96, 13, 1), bitmap)]


def national(sim):
    """objects of national meters hold what their specification allows, of the type it prescribes, refuse the rest"""
    spec = sim.pick(("SPODES", "KPZ", "KPZ1"))
    c = G.col.Collection()
    c.set_country_ver(G.AppVersion(3, 0))
    if spec != "SPODES":
        c.set_manufacturer(b"KPZ")
    if spec == "KPZ1":
        c.set_server_ver(0, G.AppVersion(1, sim.int(0, 3), sim.int(0, 29)))
    elif sim.chance(0.5):
        c.set_server_ver(0, G.AppVersion(1, sim.pick((3, 4)), sim.int(30, 40)))
    c.set_spec()
    table = (SPODES if spec == "SPODES" else KPZ) + [(t, quad if spec == "KPZ1" else word) for t in EVENTS_]
    held = {}
    for _ in range(sim.int(2, 6)):
        t, f = sim.pick(table)
        if t not in held:
            held[t] = [new(c, (1, 0), t + (255,)), f, None]
    default = {t: h[0].get_attr(2) and h[0].get_attr(2).encoding for t, h in held.items()}
    model = dict(default)
    for _ in sim.steps(14, 8):
        t = sim.pick(sorted(held))
        o, f, _ = held[t]
        op = sim.weighted([(8, "set"), (2, "spoiled"), (1, "place"), (1, "clear"), (1, "copy")])
        x, good = f(sim)
        e = A.encode(x)
        had = model[t]
        if good is None:
            good = len(x[1]) == 2
        if had is not None and f in (any_time, device) and (had[0] != e[0] or f is any_time and e[0] == 9 and had[1] != e[1]):
            """the type of the value is known"""
            good = False
        if op == "set":
            try:
                o.set_attr(2, e)
            except G.bad as err:
                sim.check(not good, "value-refused", lambda: f"{spec} {t}: {e.hex()} refused: {err}, had {had and had.hex()}")
                sim.fault("value_out_of_rule")
            else:
                sim.check(good, "bad-value-taken", lambda: f"{spec} {t}: {e.hex()} taken, had {had and had.hex()}")
                model[t] = e
        elif op == "spoiled":
            e = bytes([sim.pick([y for y in (0, 1, 2, 3, 4, 5, 15, 16, 20, 21, 22, 99) if y != e[0]])]) + e[1:] if sim.chance(0.5) else e[:sim.int(0, len(e) - 1)]
            sim.fault("answer_spoiled")
            try:
                o.set_attr(2, e)
            except G.bad:
                pass
            else:
                v = o.get_attr(2).encoding
                sim.check(f in (device, any_time) and had is None and (e.startswith(v) or same(e, v)), "bad-value-taken", lambda: f"{spec} {t}: {e.hex()} taken as {v.hex()}")
                model[t] = v
        elif op == "place" and had is not None:
            try:
                o.get_attr(2).set(e)
            except G.bad as err:
                sim.check(not good, "value-refused", lambda: f"{spec} {t}: {e.hex()} refused in place: {err}, had {had.hex()}")
                sim.fault("value_out_of_rule")
            else:
                sim.check(good, "bad-value-taken", lambda: f"{spec} {t}: {e.hex()} taken in place, had {had.hex()}")
                model[t] = e
        elif op == "clear":
            o.clear_attr(2)
            model[t] = None
        elif op == "copy":
            n = o.__class__(o.logical_name)
            n.collection = c
            n.copy(o, None)
            if had is not None and o.get_attr_element(2).classifier != G.ic.Classifier.DYNAMIC:
                v = n.get_attr(2)
                sim.check(v is not None and v.encoding == had and v is not o.get_attr(2), "copy-differs", lambda: f"{spec} {t}: copy has {v and v.encoding.hex()}, origin {had.hex()}")
        sim.log(op, t, e.hex()[:20])
        sim.state(spec, t[2:], op, good, had is None)
        for t, (o, f, _) in held.items():
            v = o.get_attr(2)
            sim.check((v and v.encoding) == model[t] if v is not None else model[t] is None, "value-lost", lambda: f"{spec} {t} after {op}: {v and v.encoding.hex()}, expected {model[t] and model[t].hex()}")
            if f is octet_ and t[2:] == (96, 12, 4) and v is not None:
                n = model[t][1]
                got = int(o.value.channel), int(o.value.interface)
                sim.check(got == (n & 7, n >> 3), "port-wrong", lambda: f"port {n} is channel {got[0]}, interface {got[1]}")
    if (t := (0, 0, 96, 12, 4)) in held and model[t] is not None:
        """one half of the port parameters changes, the other stays"""
        v, n = held[t][0].value, model[t][1]
        a, b = sim.draw(8), sim.draw(32)
        if sim.chance(0.5):
            v.channel, n = G.enu.ChannelNumber(a), n & 0xf8 | a
        if sim.chance(0.5):
            v.interface, n = G.enu.Interface(b), n & 7 | b << 3
        sim.check(v.encoding == bytes([17, n]), "port-wrong", lambda: f"port {v.encoding.hex()}, expected {n}")


CHECK = Check(
    id="C14",
    scenarios=[Scenario("attributes", attributes, 40000, 1_000_000, 400), Scenario("measured", measured, 40000, 600_000, 400),
               Scenario("watchers", watchers, 2000, 20_000, 100), Scenario("negotiation", negotiation, 12000, 200_000, 400),
               Scenario("national", national, 20000, 300_000, 400)],
    rule="objects of 22 classes; values set, spoiled, repeated, lost, cleared, reset, copied in any order; registers with watchers; negotiated parameters; non-trivial: a fault was injected",
    real=["COSEM classes", "Digital values with scaler and unit", "IECHDLCSetup.set_from_info"],
    stub=["the meter (generated answers)"],
    setup=setup,
)
