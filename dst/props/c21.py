"""C21 - what the package tells about a meter's objects: names, accessors, texts of events and states, reports - always of the value held now."""
import decimal
import importlib.util
import json
import pathlib
import re
import sys
import tomllib

from .. import axdr_ref as A, env, objgen as O
from ..engine import Check, Scenario
from ..objgen import G, i8, octet, u16, u8

LOCAL = (ValueError, TypeError, KeyError, IndexError, AttributeError)
#: (class, version): names of attributes 2.. and of methods 1.. in the order of the Blue Book
NAMES = {
    (1, 0): ("value", ""),
    (3, 0): ("value scaler_unit", "reset"),
    (4, 0): ("value scaler_unit status capture_time", "reset"),
    (5, 0): ("current_average_value last_average_value scaler_unit status capture_time start_time_current period number_of_periods", "reset next_period"),
    (6, 0): ("register_assignment mask_list active_mask", "add_register add_mask delete_mask"),
    (7, 1): ("buffer capture_objects capture_period sort_method sort_object entries_in_use profile_entries", "reset capture"),
    (8, 0): ("time time_zone status daylight_savings_begin daylight_savings_end daylight_savings_deviation daylight_savings_enabled clock_base",
             "adjust_to_quarter adjust_to_measuring_period adjust_to_minute adjust_to_preset_time preset_adjusting_time shift_time"),
    (9, 0): ("scripts", "execute"),
    (10, 0): ("entries", "enable_disable insert delete"),
    (11, 0): ("entries", "insert delete"),
    (15, 0): ("object_list associated_partners_id application_context_name xDLMS_context_info authentication_mechanism_name LLS_secret association_status",
              "reply_to_HLS_authentication change_HLS_secret add_object remove_object"),
    (15, 1): ("object_list associated_partners_id application_context_name xDLMS_context_info authentication_mechanism_name LLS_secret association_status security_setup_reference",
              "reply_to_HLS_authentication change_HLS_secret add_object remove_object"),
    (18, 0): ("image_block_size image_transferred_blocks_status image_first_not_transferred_block_number image_transfer_enabled image_transfer_status image_to_activate_info",
              "image_transfer_initiate image_block_transfer image_verify image_activate"),
    (20, 0): ("calendar_name_active season_profile_active week_profile_table_active day_profile_table_active calendar_name_passive season_profile_passive week_profile_table_passive "
              "day_profile_table_passive activate_passive_calendar_time", "activate_passive_calendar"),
    (21, 0): ("thresholds monitored_value actions", ""),
    (22, 0): ("executed_script type execution_time", ""),
    (23, 1): ("comm_speed windows_size_transmit windows_size_receive max_info_field_length_transmit max_info_field_length_receive inter_octet_time_out inactivity_time_out device_address", ""),
    (27, 0): ("comm_speed initialization_string modem_profile", ""),
    (40, 2): ("push_object_list send_destination_and_method communication_window randomisation_start_interval number_of_retries repetition_delay port_reference push_client_sap "
              "push_protection_parameters push_operation_method confirmation_parameters last_confirmation_date_time", "push reset"),
    (41, 0): ("TCP_UDP_port IP_reference MMS nb_of_sim_conn inactivity_time_out", ""),
    (42, 0): ("DL_reference IP_address multicast_IP_address IP_options subnet_mask gateway_IP_address use_DHCP_flag primary_DNS_address secondary_DNS_address", ""),
    (45, 0): ("APN PIN_code quality_of_service", ""),
    (47, 0): ("operator status cs_attachment ps_status cell_info adjacent_cell capture_time", ""),
    (64, 0): ("security_policy security_suite client_system_title server_system_title", "security_activate global_key_transfer"),
    (64, 1): ("security_policy security_suite client_system_title server_system_title certificates",
              "security_activate key_transfer key_agreement generate_key_pair generate_certificate_request import_certificate export_certificate remove_certificate"),
    (68, 0): ("actions permission_table weightings_table most_recent_requests_table last_outcome", "request_action reset"),
    (70, 0): ("output_state control_state control_mode", "remote_disconnect remote_reconnect"),
    (71, 0): ("monitored_value threshold_active threshold_normal threshold_emergency min_over_threshold_duration min_under_threshold_duration emergency_profile "
              "emergency_profile_group_id_list emergency_profile_active actions", ""),
    (100, 0): ("activated server_address server_port authentication_method authentication_keys client_key", "synchronize add_authentication_key delete_authentication_key"),
}
#: names under which the classes answer where they differ from the names of the elements
ALIAS = {(22, "type"): "type_", (68, "permission_table"): "permissions_table", (68, "most_recent_requests_table"): "most_recent_request_table", (40, "push_client_sap"): "push_client_SAP"}
LNS = {**O.POOL, (10, 0): [(0, 0, 12, 0, 0, 255)], (15, 0): [(0, 0, 40, 0, 5, 255)], (15, 1): [(0, 0, 40, 0, 6, 255)], (27, 0): [(0, 0, 2, 0, 0, 255)], (64, 1): [(0, 0, 43, 0, 1, 255)]}
#: last field of a name of an object of events: prefix of the constants of their texts
EVENTS = ("VOLTAGE", "CURRENT", "COMMUTATION", "PROGRAMING", "EXTERNAL_IMPACT", "COMMUNICATION", "ACCESS", "SELF_DIAGNOSTIC", "REACTIVE_POWER")
LETTERS = {0: "", 1: "bcfgde", 2: "bcfgae", 3: "bcgde", 4: "bcgae", 5: "bcfgdeh", 6: "bcgdeh",
           129: "bcfmde", 130: "bcfmae", 131: "bcmde", 132: "bcma", 133: "bcmak", 134: "bcmsdep"}
ROOT = pathlib.Path(__file__).resolve().parents[2]
RULES = json.loads((ROOT / "data" / "names.json").read_text())


def setup():
    env.make_scratch(own_config=False)
    env.import_repo()
    with env.quiet():
        O.bind()
        import src.DLMS_SPODES.exceptions as exc
        from src.DLMS_SPODES import relation_to_OBIS, settings, config_parser
        from src.DLMS_SPODES.cosem_interface_classes import reports, events
        from src.DLMS_SPODES.version import AppVersion
    G.exc, G.reports, G.AppVersion, G.cfg = exc, reports, AppVersion, config_parser
    src = pathlib.Path(env.REPO) / "src" / "DLMS_SPODES"
    with open(src / "config.toml", "rb") as f:
        G.conf = tomllib.load(f)["DLMS"]
    G.text, G.names, G.ev = {}, {"RU": relation_to_OBIS}, {"RU": events}
    for lang in ("RU", "EN"):
        G.text[lang] = {k: __import__(f"src.DLMS_SPODES.Values.{lang}.{k}", fromlist=["x"]).__dict__ for k in ("relation_to_obis_names", "events")}
    """the same modules as they are for the other language"""
    settings.set_current_language("English")
    for box, name, path in ((G.names, "src.DLMS_SPODES.relation_en", src / "relation_to_OBIS.py"), (G.ev, "src.DLMS_SPODES.cosem_interface_classes.events_en", src / "cosem_interface_classes" / "events.py")):
        spec = importlib.util.spec_from_file_location(name, path)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
        box["EN"] = m
    settings.set_current_language("Russian")
    from src.DLMS_SPODES.types import cosemClassID
    G.classID = cosemClassID
    G.unnamed = set(range(255)) - {x for row in RULES["tables"]["get_processing_names"] if row[0] and row[0] != list(range(128, 255)) for x in row[0]}
    G.bad = LOCAL + (G.ut.UserfulTypesException, exc.DLMSException)


def national(kpz=False):
    """a meter of SPODES 3; of the manufacturer that kept event codes of its first firmwares in four octets"""
    c = G.col.Collection()
    c.set_country_ver(G.AppVersion(3, 0))
    if kpz:
        c.set_manufacturer(b"KPZ")
        c.set_server_ver(0, G.AppVersion(1, 3, 29))
    c.set_spec()
    return c


def new(c, k, t):
    return c.add(class_id=G.ut.CosemClassId(k[0]), version=G.cdt.Unsigned(k[1]), logical_name=G.cst.LogicalName(bytearray(t)))


# ---- scenario: names of logical names ---------------------------------------------------------------------------------------
def part_b(v, T):
    return "" if v == 0 else f", {T['CHANNEL']} {v}" if v <= 64 else f", {T['UTILITY_SPECIFIC']} {v}" if v <= 127 else f", {T['MANUFACTURER_SPECIFIC']} {v}" if v <= 199 else f", {T['RESERVED']} {v}"


def part_e(v, T):
    return "" if v == 0 else f", {T['INSTANCE']} {v}" if v <= 127 else f", {T['MANUFACTURER_SPECIFIC']} {v}"


def rate(v, T):
    return T["TOTAL"] if v == 0 else f", {T['RATE']} {v}" if v <= 63 else f", {T['MANUFACTURER_SPECIFIC']} {v}" if v <= 254 else f", {T['RESERVED']}"


def say(tokens, var, T):
    """text of the tokens, or None where the table has no name for a part"""
    out = []
    for tok in tokens:
        k = tok[0]
        if k == "s":
            out.append(tok[1])
        elif k == "rn":
            out.append(T[tok[1]])
        elif k == "classID":
            out.append(str(getattr(G.classID, tok[1])))
        elif k == "v":
            out.append(str(var[tok[1]]))
        elif k == "v+1":
            out.append(str(var[tok[1]] + 1))
        elif k == "angle":
            to, fr = divmod(var["e"], 10)
            i = to if tok[1] == "to_" else fr
            if i > 7:
                return None
            out.append(T[("U_L1", "U_L2", "U_L3", "ERROR", "I_L1", "I_L2", "I_L3", "I_L0")[i]])
        else:
            f, v = tok[1], var[tok[2]]
            if f == "handle_B":
                out.append(part_b(v, T))
            elif f == "handle_E":
                out.append(part_e(v, T))
            elif f == "get_rate":
                out.append(rate(v, T))
            else:
                row = next((r for r in RULES["tables"][f] if r[0] is None or v in r[0]), None)
                x = row and say(row[1], {"classification": v, "d": v, "electric_obj": v}, T)
                if x is None:
                    return None
                out.append(x)
    return "".join(out)


def rule_of(t):
    for sets, tokens in RULES["rules"]:
        if sets is None or all(s is None or x in s for s, x in zip(sets, t)):
            return sets, tokens


def names(sim):
    """every logical name a meter may list has a name, the one of the table, in each language, asked first or again"""
    seen = {}
    for _ in range(80):
        sets, _ = sim.pick(RULES["rules"])
        sets = sets or [None] * 5
        t = [sim.weighted([(3, sim.pick(s)), (1, s[0]), (1, s[-1])]) if s else 0 if i in (1, 4) and sim.int(0, 1) else sim.int(0, 255) if sim.int(0, 3) == 0 else sim.int(0, 60) for i, s in enumerate(sets)]
        if sim.chance(0.25):
            i = sim.draw(5)
            t[i] = min(255, max(0, t[i] + sim.pick((-1, 1))))
        t = tuple(t)
        lang = sim.pick(("RU", "EN"))
        T = G.text[lang]["relation_to_obis_names"]
        try:
            got = G.names[lang].get_name(G.cst.LogicalName(bytearray(t + (sim.pick((255, 101)),))))
        except LOCAL as e:
            sim.fail("name-refused", f"no name for {t}: {type(e).__name__} {e}")
            return
        want = say(rule_of(t)[1], dict(zip("abcde", t)), T)
        sim.check(isinstance(got, str) and got != "", "name-wrong", f"{t} is named {got!r}")
        if want is not None and t[:5] != (0, 0, 40, 0, 4):
            sim.check(got == want, "name-wrong", lambda: f"{t} is named {got!r}, expected {want!r}")
        else:
            sim.probe("no name in the table")
        sim.check(seen.setdefault((lang, t), got) == got, "name-wrong", f"{t} is named {got!r}, before {seen[lang, t]!r}")
        sim.state(lang, want is None, t[0], t[2])
    for _ in range(3):
        """objects with names not in the table are objects of the meter too"""
        t = (1, 0, sim.pick((1, 9, 21, 45, 61, 80, 31)), sim.int(47, 254), sim.int(0, 63), 255)
        if t[3] in G.unnamed:
            sim.fault("unknown_name")
            c = G.col.Collection()
            try:
                o = new(c, (3, 0), t)
            except LOCAL as e:
                sim.check("got c_id" in str(e), "object-refused", f"register {t} refused: {e}")
            else:
                sim.check(str(o).startswith(".".join(map(str, t))), "name-wrong", f"object {t} shown as {o}")


# ---- scenario: accessors and descriptions -----------------------------------------------------------------------------------
def title(n):
    return G.conf["am_names"].get(n) or n


def accessors(sim):
    """an object answers to the names of its attributes and methods with their current values"""
    c = national() if sim.chance(0.5) else G.col.Collection()
    held = []
    for k in [sim.pick(sorted(NAMES)) for _ in range(sim.int(1, 3))]:
        free = [t for t in LNS[k] if c.get(bytes(t)) is None]
        if not free:
            continue
        t = sim.pick(free)
        held.append((k, new(c, k, t), t))
    for _ in sim.steps(10, 6):
        k, o, t = sim.pick(held)
        at, me = (x.split() for x in NAMES[k])
        i = sim.int(2, len(at) + 1)
        op = sim.weighted([(4, "set"), (2, "refused"), (1, "clear"), (1, "none")])
        if op in ("set", "refused") and (k[0], i) not in O.SKIP | {(15, 2)}:
            had = o.get_attr(i)
            T = type(had) if had is not None else o.get_attr_element(i).DATA_TYPE
            x = O.gen(sim, T, [(3, (1, 0, 1, 8, 0, 255), 2)])
            if x is not None and k[0] not in (7, 21, 71):
                e = A.encode(x)
                if op == "refused":
                    e = bytes([99]) + e[1:]
                    sim.fault("answer_refused")
                try:
                    o.set_attr(i, e)
                except G.bad:
                    sim.probe("refused")
        elif op == "clear" and k[0] not in (10, 11, 15, 68, 5, 7, 21, 71):
            o.clear_attr(i)
        sim.check(len(o.A_ELEMENTS) == len(at) and o.get_attr_length() == len(at) + 1, "attributes-wrong", f"class {k}: {len(o.A_ELEMENTS) + 1} attributes")
        told = dict(o.get_index_with_attributes())
        sim.check(sorted(told) == list(range(1, len(at) + 2)), "attributes-wrong", f"class {k}: attributes {sorted(told)} are listed")
        vals = [told[j] for j in sorted(told)]
        sim.check(all(a is b for a, b in zip(vals, o)), "attributes-wrong", f"class {k}: iteration differs")
        sim.check(o.logical_name is o.get_attr(1) and bytes(o.get_obis()) == bytes(t) and o.get_attr_element(1).NAME == "logical_name", "accessor-wrong", f"class {k} name {t}")
        for j, n in enumerate(at, 2):
            v = o.get_attr(j)
            sim.check(o[j] is v and vals[j - 1] is v, "accessor-wrong", f"class {k} attribute {j}: index")
            sim.check(o.get_attr_element(j).NAME == n, "element-wrong", f"class {k} attribute {j} is called {o.get_attr_element(j).NAME}, expected {n}")
            sim.check(str(o.get_attr_element(j)) == title(n), "element-wrong", lambda: f"class {k} attribute {j} is titled {o.get_attr_element(j)}, expected {title(n)}")
            try:
                x = getattr(o, ALIAS.get((k[0], n), n))
            except AttributeError as e:
                sim.check(n not in ACCESSORS.get(k, ()), "accessor-wrong", f"class {k} attribute {n} has no accessor: {e}")
                continue
            sim.check(x is v, "accessor-wrong", lambda: f"class {k}: {n} is {x}, attribute {j} is {v}")
        ms = o.M_ELEMENTS or ()
        if k != (3, 0):
            sim.check(len(ms) == len(me), "methods-wrong", f"class {k}: {len(ms)} methods")
        for j, n in enumerate(me, 1):
            el = o.get_meth_element(j)
            sim.check(el.NAME == n and str(el) == title(n), "element-wrong", f"class {k} method {j} is called {el.NAME} {el}, expected {n}")
            x = getattr(o, n, o)
            if x is not o:
                x = x() if callable(x) else x
                sim.check(x is o.get_meth(j), "accessor-wrong", f"class {k}: {n} is not method {j}")
        sim.log(op, k, i)
        sim.state(op, k, i)


# ---- scenario: objects a collection finds by a word ----------------------------------------------------------------------------
#: word: (logical name, classes an object of it may have)
WORDS = {
    "LDN": ((0, 0, 42, 0, 0, 255), ((1, 0),)), "current_association": ((0, 0, 40, 0, 0, 255), ((15, 0), (15, 1))), "PUBLIC_ASSOCIATION": ((0, 0, 40, 0, 1, 255), ((15, 0), (15, 1))),
    "COMMUNICATION_PORT_PARAMETER": ((0, 0, 96, 12, 4, 255), ((1, 0),)), "clock": ((0, 0, 1, 0, 0, 255), ((8, 0),)), "activity_calendar": ((0, 0, 13, 0, 0, 255), ((20, 0),)),
    "special_day_table": ((0, 0, 11, 0, 0, 255), ((11, 0),)), "TCP_UDP_setup": ((0, 0, 25, 0, 0, 255), ((41, 0),)), "IPv4_setup": ((0, 0, 25, 1, 0, 255), ((42, 0),)),
    "boot_image_transfer": ((0, 0, 44, 0, 128, 255), ((18, 0),)), "firmware_image_transfer": ((0, 0, 44, 0, 0, 255), ((18, 0),)), "RU_EXTENDED_PASSPORT_DATA": ((0, 0, 94, 7, 1, 255), ((7, 1),)),
    "firmware_version": ((0, 0, 96, 1, 2, 255), ((1, 0),)), "device_type": ((0, 0, 96, 1, 1, 255), ((1, 0),)), "manufacturing_date": ((0, 0, 96, 1, 4, 255), ((1, 0),)),
    "RU_LOAD_LOCK_STATUS": ((0, 0, 96, 4, 3, 255), ((1, 0),)), "firmwares_description": ((0, 0, 128, 100, 0, 255), ((1, 0),)), "serial_number": ((0, 0, 96, 1, 0, 255), ((1, 0),)),
    "RU_MAGNETIC_EFFECT": ((0, 0, 96, 51, 3, 255), ((1, 0),)), "RU_HF_FIELD_EFFECT": ((0, 0, 96, 51, 4, 255), ((1, 0),)), "RU_ELECTRIC_SEAL_STATUS": ((0, 0, 96, 51, 5, 255), ((1, 0),)),
    "RU_CLOSE_ELECTRIC_SEAL": ((0, 0, 96, 51, 6, 255), ((1, 0),)), "RU_ERASE_MAGNETIC_EVENTS": ((0, 0, 96, 51, 7, 255), ((1, 0),)), "RU_ALARM_REGISTER_2": ((0, 0, 97, 98, 1, 255), ((1, 0),)),
    "RU_FILTER_ALARM_2": ((0, 0, 97, 98, 11, 255), ((1, 0),)), "RU_DAILY_PROFILE": ((1, 0, 98, 2, 0, 255), ((7, 1),)), "RU_MAXIMUM_CURRENT_EXCESS_LIMIT": ((1, 0, 11, 134, 0, 255), ((3, 0),)),
    "RU_MAXIMUM_VOLTAGE_EXCESS_LIMIT": ((1, 0, 12, 134, 0, 255), ((3, 0),)),
}
#: the same with a number
CHANNELS = {"getIECHDLCSetup": (lambda n: (0, n, 22, 0, 0, 255), (23, 1)), "getIPv4Setup": (lambda n: (0, n, 25, 1, 0, 255), (42, 0)), "getDISCONNECT_CONTROL": (lambda n: (0, n, 96, 3, 10, 255), (70, 0)),
            "getARBITRATOR": (lambda n: (0, n, 96, 3, 20, 255), (68, 0)), "getASSOCIATION": (lambda n: (0, 0, 40, 0, n, 255), (15, 1))}


def shortcuts(sim):
    """objects come and go: every word of the collection finds the object of its logical name held now, or says that there is none"""
    c = national() if sim.chance(0.5) else G.col.Collection()
    c2 = G.col.Collection()
    sap = {}
    for _ in sim.steps(14, 8):
        op = sim.weighted([(5, "add"), (3, "channel"), (2, "remove"), (1, "other"), (2, "partner"), (1, "boot")])
        if op in ("add", "other"):
            t, ks = WORDS[sim.pick(sorted(WORDS))]
            d = c if op == "add" else c2
            if d.get(bytes(t)) is None:
                new(d, sim.pick(ks), t)
                sim.faults["object_of_another_meter" if d is c2 else "object_comes"] += 1
                if t[2:4] == (40, 0) and d is c:
                    sap[t[4]] = 0x10 * t[4]
        elif op == "channel":
            w = sim.pick(sorted(CHANNELS))
            n = sim.int(1, 6) if w == "getASSOCIATION" else sim.int(0, 3)
            t = CHANNELS[w][0](n)
            if c.get(bytes(t)) is None:
                new(c, CHANNELS[w][1], t)
                if w == "getASSOCIATION":
                    sap[n] = 0x10 * n if n <= 4 else 0x10  # the default partner
        elif op == "remove" and len(c):
            o = sim.pick(sorted(c.values(), key=lambda o: bytes(o.logical_name.contents)))
            t = tuple(o.logical_name.contents)
            if t != (0, 0, 42, 0, 0, 255):
                c.try_remove(o.logical_name)
                sim.fault("object_goes")
                if t[2:4] == (40, 0):
                    sap.pop(t[4], None)
        elif op == "partner" and sap:
            e = sim.pick(sorted(sap))
            x = sim.pick((0, 1, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60))
            c.getASSOCIATION(e).set_attr(3, A.encode((2, [(15, bytes([x])), (18, b"\0\1")])))
            sap[e] = x
        elif op == "boot" and c.get(bytes(WORDS["firmwares_description"][0])) is not None:
            text = ascii_text(sim)
            c.firmwares_description.set_attr(2, A.encode((9, text)))
            sim.check(c.boot_version == text.decode()[:4], "word-wrong", lambda: f"boot version of {text!r} is {c.boot_version}")
        for w, (t, _) in WORDS.items():
            word(sim, c, w, t, lambda: getattr(c, w))
        for w, (f, _) in CHANNELS.items():
            n = sim.int(0, 7)
            word(sim, c, w, f(n), lambda: getattr(c, w)(n))
        for w in ("getIECHDLCSetup", "getIPv4Setup", "getDISCONNECT_CONTROL", "getARBITRATOR"):
            word(sim, c, w, CHANNELS[w][0](0), lambda: getattr(c, w)())
        for x in (0x10, 0x20, 0x30, 0x50):
            have = [e for e, s in sap.items() if s == x and e]
            try:
                o = c.getAssociationBySAP(G.enums.ClientSAP(bytes([15, x])))
            except ValueError:
                sim.check(not have, "word-wrong", f"no association of client {x:#x}, although {have} are")
                continue
            sim.check(o.logical_name.e in have, "word-wrong", f"association of client {x:#x} is {o.logical_name.e}, expected {have}")
        sim.log(op, len(c), sorted(sap.items()))
        sim.state(op, min(len(c), 6), len(sap))


def word(sim, c, w, t, get):
    o = c.get(bytes(t))
    try:
        x = get()
    except G.exc.NoObject:
        sim.check(o is None, "word-wrong", f"{w} says there is no object, {t} is there")
        return
    sim.check(x is o and o is not None, "word-wrong", lambda: f"{w} is {x}, object of {t} is {o}")


# ---- scenario: reports ------------------------------------------------------------------------------------------------------
def struct_title(n):
    return G.conf["struct_name"].get(n) or n


def unit_text(code):
    """a unit with the prefix its values are told in, and the power of ten of the prefix"""
    row = next(r for r in G.conf["Unit"] if r["e"] == code)
    up = row.get("scaler", 0)
    return "".join(p["name"] for p in G.conf["scaler_prefix"] if p["value"] == up) + row["v"], up


def with_unit(v):
    """value of a quantity: scaled, in the unit told"""
    name, up = unit_text(v.SCALER_UNIT.unit.contents[0])
    n = int.from_bytes(v.contents, "big", signed=v.TAG[0] in (5, 15, 16, 20))
    e = int.from_bytes(v.SCALER_UNIT.scaler.contents, "big", signed=True) - up
    if abs(n) >= 1 << 50:
        return str(v), name
    return f"{decimal.Decimal(n).scaleb(e):.{max(-e, 0)}f}", name


def plain(v):
    """text of an element: numbers by their value, other types as they show themselves"""
    if isinstance(v, G.cdt.Digital) and v.SCALER_UNIT is not None:
        return with_unit(v)[0]
    if isinstance(v, G.cdt.Digital) and type(v).__str__ is G.cdt.Digital.__str__ and v.SCALER_UNIT is None:
        return str(int.from_bytes(v.contents, "big", signed=v.TAG[0] in (5, 15, 16, 20)))
    return str(v)


def tell(v, name, depth, out):
    """lines of a complex value: an element in a line, elements of elements one deeper under the heading of their element"""
    ind = " " * (depth + 1)
    els = v.ELEMENTS if isinstance(v, G.cdt.Structure) else [None] * len(v.values)
    for el, x in zip(els, v.values):
        n = el.NAME if el is not None else name
        if isinstance(x, G.cdt.Array):
            out.append(f"{ind}[{n}]")
            tell(x, "*", depth + 1, out)
        elif isinstance(x, G.cdt.Structure):
            pattern = G.conf["report"]["struct"].get(type(x).__name__)
            if pattern:
                out.append(ind + re.sub("%([nv])(..)", lambda m: x.ELEMENTS[int(m[2])].NAME if m[1] == "n" else plain(x.values[int(m[2])]), pattern))
            else:
                out.append("" if n == "" else f"{ind}[{n}]")
                tell(x, n, depth + 1, out)
        else:
            out.append(f"{ind}{n}: {plain(x)}")


def report_of(o, t, idx):
    out = [f"[{G.names['RU'].get_name(o.logical_name)}]"]
    for i in idx:
        i = i if isinstance(i, int) else i[0]
        v = o.get_attr(i)
        n = title(o.get_attr_element(i).NAME)
        if v is None:
            continue
        if isinstance(v, (G.cdt.Array, G.cdt.Structure)):
            out.append(f"  [{n}]")
            tell(v, "", 1, out)
        else:
            special = SPECIAL.get((t[0],) + t[2:5])
            if i == 2 and special:
                x = special(int.from_bytes(v.contents, "big"))
            elif isinstance(v, G.cdt.Digital) and v.SCALER_UNIT is not None:
                x = " ".join(with_unit(v))
            elif (t[0],) + t[2:4] == (0, 96, 1) and t[4] in DEVICE_ID and i == 2 and not isinstance(v, G.cdt.Digital):
                x = v.contents.decode("ascii")
            else:
                x = plain(v)
            out.append(f"  {n}: {x}")
    return out


DEVICE_ID = (0, 2, 4, 5, 8, 9, 10)


def texts_of(prefix, lang="RU"):
    base = 16 if prefix.startswith("POWER_QUALITY") else 10
    return {int(k.rsplit("_", 1)[1], base): v for k, v in G.text[lang]["events"].items() if k.rsplit("_", 1)[0] == prefix}


def event(prefix, lang="RU"):
    def text(v):
        return f"{texts_of(prefix, lang).get(v, 'error enum')}({v})"
    return text


def flags(prefix, lang="RU"):
    def text(v):
        known = texts_of(prefix, lang)
        return ". ".join(known.get(1 << b, f"unknown bit: {b}") for b in range(v.bit_length()) if v >> b & 1) + f"({v})"
    return text


def message(n):
    return G.conf["messages"].get(n) or n


def seal(v):
    s = [message(("undefined", "contentions", "breaked_open", "subsequent_autopsy")[v >> i & 3]) for i in (0, 2)]
    return f"{message('electronic_seals')}: {message('for_cover')} - {s[0]}, {message('for_terminals_cover')} - {s[1]}"


CHANNEL = ("RESERVED", "OPTO_P1", "P2", "P3", "P4", "OTHER", "INNER", "SERVER_KEY")
INTERFACE = ("NO_DEFINED", "OPTO", "RS485", "PLC", "GSM", "NBIO", "ETHERNET", "RF", "LORA", "WIFI", "BLUETOOTH", "ZIGBEE") + tuple(f"RESERVED_{i}" for i in range(12, 30)) + ("MANUFACTURE_30", "MANUFACTURE_31")


def port(v):
    return f"Номер канала связи: {CHANNEL[v & 7]}, Тип интерфейса: {INTERFACE[v >> 3]}"


SPECIAL = {(0, 96, 11, i): event(p) for i, p in enumerate(EVENTS)}
SPECIAL |= {(0, 96, 5, 1): flags("POWER_QUALITY1"), (0, 96, 5, 4): flags("POWER_QUALITY2"), (0, 96, 51, 5): seal, (0, 96, 12, 4): port}
#: accessors every class has had (name of attribute); others are told by index
LACKS = {(15, 1): ["security_setup_reference"], (21, 0): ["actions"]}
ACCESSORS = {k: [n for n in a.split() if n not in LACKS.get(k, ())] for k, (a, _) in NAMES.items()}


def ascii_text(sim):
    return bytes(32 + sim.draw(95) for _ in range(sim.int(0, 8)))


def special_value(sim, t, four=False):
    key = (t[0],) + t[2:5]
    if key[1:3] == (96, 11):
        return (lambda v: (6, v.to_bytes(4, "big")) if four else u16(v))(sim.pick(sorted(texts_of(EVENTS[key[3]]))) if sim.chance(0.7) else sim.int(0, 65535))
    if key[1:3] == (96, 5):
        return u16(sim.pick((0, 1 << sim.draw(16), sim.int(0, 65535))))
    if key[1:3] == (96, 12):
        return u8(sim.draw(256))
    return u8(sim.int(0, 15))


def reports(sim):
    """a meter's values change; a report tells the current ones, all of them, under their names"""
    four = sim.chance(0.2)
    c = national(four)
    held = []
    for k in [sim.pick([x for x in sorted(O.POOL) if x[0] not in (21, 71)]) for _ in range(sim.int(1, 4))]:
        free = [t for t in O.POOL[k] if c.get(bytes(t)) is None]
        if free:
            held.append((k, new(c, k, sim.pick(free)), None))
    for t in [(0, 0) + sim.pick(sorted(SPECIAL))[1:] + (255,) for _ in range(2)] + [(0, 0, 96, 1, sim.pick(DEVICE_ID), 255)]:
        if c.get(bytes(t)) is None:
            held.append(((1, 0), new(c, (1, 0), t), t))
    for _ in sim.steps(14, 8):
        k, o, t = sim.pick(held)
        i = sim.int(2, len(o.A_ELEMENTS) + 1)
        op = sim.weighted([(6, "set"), (1, "refused"), (1, "clear")])
        if op == "clear" and k[0] not in (10, 11, 15, 68, 5, 7):
            o.clear_attr(i)
        elif (k[0], i) not in O.SKIP and not (k[0] == 7 and i in (3, 6)):
            had = o.get_attr(i)
            T = type(had) if had is not None else o.get_attr_element(i).DATA_TYPE
            if t is None:
                x = O.gen(sim, T, [(3, (1, 0, 1, 8, 0, 255), 2)])
            elif t[3] == 1:
                x = {9: lambda: octet(ascii_text(sim)), 10: lambda: (10, ascii_text(sim)), 17: lambda: u8(sim.int(0, 255)), 18: lambda: u16(sim.int(0, 65535))}[
                    had.TAG[0] if had is not None else sim.pick((9, 10, 17, 18))]() if had is None or had.TAG[0] in (9, 10, 17, 18) else None
            else:
                x = special_value(sim, t, four)
            if x is None:
                continue
            e = A.encode(x)
            if op == "refused":
                e = bytes([99]) + e[1:]
                sim.fault("answer_refused")
            try:
                o.set_attr(i, e)
            except G.bad as err:
                sim.probe("refused")
                sim.check(t is None or op == "refused", "value-refused", f"{t}: {e.hex()} refused: {err}")
        for k, o, t in ((k, o, t), sim.pick(held)):
            n = len(o.A_ELEMENTS) + 1
            idx = tuple((j, 1) if sim.chance(0.1) else j for j in (sim.int(2, n) for _ in range(sim.int(0, 3)))) if sim.chance(0.5) else tuple(range(1, n + 1))
            if any(type(v).__name__ == "SelectionAccess" for v in o):
                idx = tuple(x for x in idx if x != 2 and x != (2, 1))
            if any(unnamed(o.get_attr(j if isinstance(j, int) else j[0])) for j in idx):
                continue
            try:
                got = G.reports.get_obj_report(o, idx)
            except LOCAL as err:
                sim.fail("report-failed", f"report {idx} of class {k} {t}: {type(err).__name__} {err}; {[v if v is None else v.encoding.hex() for v in o]}")
                return
            want = report_of(o, t or tuple(o.logical_name.contents), idx)
            sim.check(got.split("\n") == want + [""], "report-wrong", lambda: f"report {idx} of class {k} {t}: line {next((a, b) for a, b in zip(got.split(chr(10)) + [None], want + ['', '']) if a != b)} (told, expected)")
            sim.state(k, t, idx[:1], len(want) > 6)
        sim.log(op, k, i)


def unnamed(v):
    """values with enumerations or dates that can not be told"""
    try:
        str(v)
    except LOCAL + (G.exc.DLMSException, G.ut.UserfulTypesException):
        return True
    return False


# ---- scenario: texts of states ----------------------------------------------------------------------------------------------
#: codes of enumerations, of the Blue Book and the annexes (versions of a class may differ)
ENUMS = {
    "AccessMode": [range(4), range(7)], "AccessModeMeth": [range(3)], "AssociationStatus": [range(3)], "AuthenticationMethod": [range(3)], "CSAttachment": [range(3)], "CertificateEntity": [range(4)],
    "CertificateIdentificationType": [range(2)], "CertificateType": [range(4)], "ClientSAP": [(0, 1, 16, 32, 48, 64, 80, 96)], "ClockBase": [range(6)], "CommSpeed": [range(10)],
    "ControlMode": [(*range(7), *range(129, 135))], "ControlState": [range(3)], "ImageTransferStatus": [range(8)], "KeyID": [range(3), range(4)], "KeyPair": [range(3)], "MechanismIdElement": [range(8)],
    "PSStatus": [range(5), range(7)], "SecurityPolicy": [range(16)], "SecuritySuite": [range(16)], "ServiceId": [(1, 2)], "SortMethod": [range(1, 7)], "Status": [range(6)], "TYPE": [range(1, 6)],
    "Unit": [range(1, 256)],
}


def subclasses(c):
    for x in c.__subclasses__():
        yield x
        yield from subclasses(x)


def enums(sim):
    """a code of an enumeration is told by its text; codes it does not have are refused"""
    name = sim.pick(sorted(ENUMS))
    conf = {r["e"]: r["v"] for r in G.conf[name]}
    allowed = ENUMS[name]
    sim.check(set(conf) <= set(max(allowed, key=len)), "enum-wrong", f"{name} has texts for codes {sorted(conf)}")
    found = [c for c in subclasses(G.cdt.Enum) if c.__name__ == name]
    sim.check(sorted(len(c.ELEMENTS) for c in found) == sorted(len(a) for a in allowed) or name == "SecuritySuite", "enum-wrong", f"{name}: {[len(c.ELEMENTS) for c in found]} codes")
    T = sim.pick(found)
    codes = next((set(a) for a in allowed if len(a) == len(T.ELEMENTS)), set())
    x = sim.pick(sorted(codes)) if sim.chance(0.7) else sim.int(0, 255)
    try:
        v = T(bytes(T.TAG) + bytes((x,)))
    except ValueError:
        sim.check(x not in codes, "enum-wrong", f"{name} refuses {x}")
        return
    sim.check(x in codes, "enum-wrong", f"{name} takes {x}")
    want = conf.get(x, f"{name}({x})")
    if name == "Unit" and x in conf:
        want = unit_text(x)[0]
    sim.check(str(v) == want and int(v) == x, "enum-wrong", lambda: f"{name} {x} is {v}")
    sim.state("enum", name, x)


def states(sim):
    """texts of values that are codes; a part of a code changes alone"""
    c = national()
    for _ in range(12):
        what = sim.pick(("port", "events", "letters", "signal", "clock", "relay", "script", "message", "enum"))
        if what == "port":
            o = c.get(bytes((0, 0, 96, 12, 4, 255))) or new(c, (1, 0), (0, 0, 96, 12, 4, 255))
            a, b = sim.draw(8), sim.draw(14)
            o.set_attr(2, A.encode(u8(a | b << 3)))
            v = o.get_attr(2)
            enu = type(v.channel), type(v.interface)
            for _ in range(sim.int(1, 4)):
                if sim.chance(0.5):
                    a = sim.draw(8)
                    v.channel = enu[0](a)
                else:
                    b = sim.draw(14)
                    v.interface = enu[1](b)
                sim.check(int(v) == a | b << 3 and v.channel == a and v.interface == b, "state-wrong", f"channel {a} and interface {b} are {int(v)}: {v.channel} {v.interface}")
                sim.check(str(v) == port(a | b << 3), "state-wrong", f"{v} of {a} {b}")
        elif what == "events":
            lang = sim.pick(("RU", "EN"))
            m = G.ev[lang]
            p, tab = sim.pick(list(zip(EVENTS, (m.voltage_events, m.current_events, m.commutation_events, m.programming_events, m.external_impact_events, m.communication_events, m.access_events,
                                                m.self_diagnostics_events, m.reactive_power_events))) + [("POWER_QUALITY1", m.power_quality_status_1), ("POWER_QUALITY2", m.power_quality_status_2)])
            v = sim.pick(sorted(texts_of(p))) if sim.chance(0.7) else sim.int(0, 65535) | sim.pick((0, 0, 1 << 16, 1 << 31, 0xffff0000))
            want = (flags if "QUALITY" in p else event)(p, lang)(v)
            sim.check(tab.get_report(v) == want, "event-wrong", lambda: f"{p} {v} in {lang}: {tab.get_report(v)!r}, expected {want!r}")
            sim.state(p, lang, v in texts_of(p))
        elif what == "letters":
            o = c.get(bytes((0, 0, 96, 3, 10, 255))) or new(c, (70, 0), (0, 0, 96, 3, 10, 255))
            m = sim.pick(sorted(LETTERS))
            o.set_attr(4, bytes((22, m)))
            sim.check(o.control_mode.get_letters() == LETTERS[m], "state-wrong", f"mode {m} allows {o.control_mode.get_letters()}")
        elif what == "relay":
            o = c.get(bytes((0, 0, 96, 3, 10, 255))) or new(c, (70, 0), (0, 0, 96, 3, 10, 255))
            x = sim.pick((0, 1, 255))
            o.set_attr(2, bytes((3, x)))
            want = message("connected" if x else "disconnected")
            sim.check(str(o.output_state) == want, "state-wrong", f"output {x} is {o.output_state}")
        elif what == "signal":
            o = c.get(bytes((0, 0, 25, 6, 0, 255))) or new(c, (47, 0), (0, 0, 25, 6, 0, 255))
            x = sim.pick((0, 1, 2, 15, 30, 31, 32, 98, 99, 255, sim.int(0, 255)))
            o.set_attr(6, A.encode((2, [u16(1), u16(2), u8(x), u8(0)])))
            got = o.cell_info.signal_quality.report
            num = re.findall(r"[-–]\d+ dBm", got)
            if x <= 31:
                sim.check(len(num) == 1 and int(num[0][1:-4]) == 113 - 2 * x and got.endswith(f"({x})"), "state-wrong", f"signal {x}: {got}")
                sim.check((message("less") in got) == (x == 0) and (message("greater") in got) == (x == 31), "state-wrong", f"signal {x}: {got}")
            else:
                sim.check(not num and (got == message("not_known_or_not_detectable")) == (x == 99), "state-wrong", f"signal {x}: {got}")
        elif what == "clock":
            o = c.get(bytes((0, 0, 1, 0, 0, 255))) or new(c, (8, 0), (0, 0, 1, 0, 0, 255))
            x = sim.int(0, 255)
            o.set_attr(4, bytes((17, x)))
            s = str(o.status)
            for bit, txt in ((0, "invalid value"), (1, "doubtful value"), (2, "different clock base"), (3, "invalid clock status"), (7, "daylight saving active")):
                sim.check((txt in s) == bool(x >> bit & 1), "state-wrong", f"clock status {x:#x}: {s}")
        elif what == "enum":
            enums(sim)
        elif what == "script":
            script_names(sim, c)
        else:
            parts, want = "", ""
            for _ in range(sim.int(0, 5)):
                p = sim.pick(("plain", "key", "unknown", "dollar"))
                if p == "plain":
                    s = sim.pick(("text ", "текст", "-", " 5%"))
                    parts, want = parts + s, want + s
                elif p == "dollar":
                    parts, want = parts + "$$", want + "$"
                else:
                    s = sim.pick(sorted(G.conf["messages"])) if p == "key" else "nothing_of_it"
                    parts, want = parts + f"${s}$ ", want + message(s) + " "
            sim.check(G.cfg.get_message(parts) == want, "message-wrong", lambda: f"{parts!r} is {G.cfg.get_message(parts)!r}, expected {want!r}")
        sim.state(what)
        sim.log(what)


def script_names(sim, c):
    """what a script does, by the names of the attributes it writes and of the methods it calls"""
    ss = c.get(bytes((0, 0, 10, 0, 106, 255))) or new(c, (9, 0), (0, 0, 10, 0, 106, 255))
    k = sim.pick([x for x in sorted(NAMES) if x[0] not in (1, 3, 9, 15, 64) and len(O.POOL.get(x, ())) > 0])
    t = O.POOL[k][0]
    if c.get(bytes(t)) is None:
        new(c, k, t)
    at, me = (x.split() for x in NAMES[k])
    table = {}
    for n in {sim.int(1, 9) for _ in range(sim.int(0, 3))}:
        table[n] = [(2, sim.int(1, len(me))) if me and sim.chance(0.6) else (1, sim.int(2, len(at) + 1)) for _ in range(sim.int(0, 3))]
    wrong = {(n, j): sim.pick((1, 3, 7, 70, 200)) for n in table for j in range(len(table[n])) if sim.chance(0.05)}
    wrong = {at: x for at, x in wrong.items() if x != k[0]}
    ss.set_attr(2, A.encode((1, [(2, [u16(n), (1, [(2, [(22, bytes([s])), u16(wrong.get((n, j), k[0])), octet(bytes(t)), i8(i), (0, b"")]) for j, (s, i) in enumerate(acts)])]) for n, acts in table.items()])))
    n = sim.int(1, 9)
    if any(x == n for x, _ in wrong):
        sim.fault("class_mismatch")
        try:
            got = c.get_script_names(G.cst.LogicalName(bytearray((0, 0, 10, 0, 106, 255))), G.cdt.LongUnsigned(n))
        except ValueError:
            return
        sim.fail("script-wrong", f"script {n} of {table} acts on class {wrong} where class {k} is, and is called {got!r}")
    try:
        got = c.get_script_names(G.cst.LogicalName(bytearray((0, 0, 10, 0, 106, 255))), G.cdt.LongUnsigned(n))
    except ValueError as e:
        sim.check(n not in table, "script-wrong", f"script {n} of {table}: {e}")
        return
    want = ", ".join(title(at[i - 2] if s == 1 else me[i - 1]) for s, i in table.get(n, ()))
    sim.check(n in table and got == want, "script-wrong", lambda: f"script {n} of {table} on class {k} is {got!r}, expected {want!r}")
    if not wrong and sim.chance(0.4):
        t = (0, 0, 96, 3, 20, 255)
        a = c.get(bytes(t)) or new(c, (68, 0), t)
        acts = [sim.pick(sorted(table)) for _ in range(sim.int(0, 4))]
        a.set_attr(2, A.encode((1, [(2, [octet(bytes((0, 0, 10, 0, 106, 255))), u16(x)]) for x in acts])))
        want = [", ".join(title(at[i - 2] if s == 1 else me[i - 1]) for s, i in table[x]) for x in acts]
        sim.check(a.get_action_names() == want, "script-wrong", lambda: f"actions {acts} are called {a.get_action_names()}, expected {want}")


# ---- scenario: secrets ------------------------------------------------------------------------------------------------------
def shown(form, v):
    """what is shown of a secret of octets v"""
    hidden, text = form & 2, v.decode("ascii") if form & 1 else v.hex(" ").upper()
    return "".join("*" if hidden and x != " " else x for x in text)


def secrets(sim):
    """secrets of several associations shown in four forms: a hidden one shows its length only, a typed one is sent as it was typed in the form of now"""
    from src.DLMS_SPODES.cosem_interface_classes.association_ln.ver0 import LLCSecret, Representation
    c = G.col.Collection()
    form, objs, model = 0, {}, {}
    for e in range(1, sim.int(1, 3) + 1):
        o = objs[e] = new(c, sim.pick(((15, 0), (15, 1))), (0, 0, 40, 0, e, 255))
        m = sim.pick((0, 1, 2))
        o.set_attr(6, A.encode((2, [(17, b"\2"), (17, b"\20"), (18, b"\2\364"), (17, b"\5"), (17, b"\10"), (17, b"\2"), (17, bytes([m]))])))
        got = type(o.authentication_mechanism_name).get_AARQ_mechanism_name(2, m)
        sim.check(got == bytes((0x60, 0x85, 0x74, 5, 8, 2, m)), "mechanism-wrong", f"name of mechanism {m} is {got.hex()}")
        model[e] = (m, b"0" * 16 if m == 2 else b"")
    try:
        for _ in sim.steps(14, 8):
            op = sim.weighted([(3, "form"), (3, "meter"), (4, "type"), (1, "bad"), (1, "length")])
            e = sim.pick(sorted(objs))
            o, (m, v) = objs[e], model[e]
            if op == "form":
                form = sim.int(0, 3)
                sim.pick(sorted(objs.items()))[1].LLS_secret.representation = Representation(form)
                sim.fault("form_changed")
            elif op == "bad":
                try:
                    o.LLS_secret.representation = sim.pick((0, 1, "ASCII", None))
                except (ValueError, AttributeError):
                    sim.fault("form_refused")
                else:
                    sim.check(False, "secret-wrong", "a form that is not one is taken")
            else:
                n = sim.int(0, 20) if m != 2 else 16
                if op == "length" and m == 2:
                    n = sim.pick((0, 1, 15, 17, 32))
                    sim.fault("wrong_length")
                x = bytes(sim.pick(b"*0123456789abcdef ABCXYZ~!") for _ in range(n))
                try:
                    if op == "type":
                        o.LLS_secret.set(shown(form & 1, x))
                    else:
                        o.set_attr(7, A.encode(octet(x)))
                except (ValueError, TypeError) as er:
                    sim.check(n != 16 and m == 2, "secret-refused", f"{x!r} of mechanism {m} in form {form}: {er}")
                else:
                    sim.check(n == 16 or m != 2, "secret-taken", f"{x!r} of mechanism {m}")
                    model[e] = (m, x)
            for e, o in objs.items():
                v = model[e][1]
                sim.check(o.LLS_secret.contents == v, "secret-wrong", lambda: f"secret of {e} is {o.LLS_secret.contents}, expected {v!r} (form {form})")
                got = str(o.LLS_secret)
                sim.check(got.upper() == shown(form, v) if not form & 1 else got == shown(form, v), "secret-shown", lambda: f"secret {v!r} in form {form} is shown as {got!r}, expected {shown(form, v)!r}")
            sim.log(op, form, sorted(model.items()))
            sim.state(op, form, len(objs))
    finally:
        LLCSecret().representation = Representation.HEX


CHECK = Check(
    id="C21",
    scenarios=[Scenario("names", names, 4000, 100_000, 200), Scenario("accessors", accessors, 4000, 100_000, 200), Scenario("reports", reports, 5000, 150_000, 100),
               Scenario("states", states, 4000, 100_000, 200), Scenario("shortcuts", shortcuts, 1500, 40_000, 100), Scenario("secrets", secrets, 4000, 100_000, 200)],
    rule="logical names near the rules of the tables of names in two languages; objects of 28 classes and versions whose values are set, refused, cleared between the questions; non-trivial: a fault was injected",
    real=["relation_to_OBIS", "COSEM classes", "reports", "events", "config_parser with the configuration shipped"],
    stub=["the meter (generated answers)"],
    setup=setup,
)
