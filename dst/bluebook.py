"""Reference of the interface classes (DLMS UA 1000-1, chapters 4.3-4.9) and of the logical names they may stand behind (chapter 6, СТО 34.01-5.1-006-2019),
written down apart from the package.

A type is a word (simple type), {name:type, ...} structure, [type] array, enum(codes), word<low..high> range, choice(code:type ...) told by the element before it,
odt/od/ot/ln octet strings of date-time, date, time, logical name."""
import re
import struct

from . import axdr_ref as A

TAGS = dict(null=0, array=1, struct=2, bool=3, bits=4, i32=5, u32=6, octets=9, visible=10, utf8=12, bcd=13, i8=15, i16=16, u8=17, u16=18, i64=20, u64=21,
            enum=22, f32=23, f64=24, datetime=25, date=26, time=27)
SIZE = {5: 4, 6: 4, 15: 1, 16: 2, 17: 1, 18: 2, 20: 8, 21: 8}
SIGNED = {5, 15, 16, 20}
OCT = {"odt": (12, 25), "od": (5, 26), "ot": (4, 27), "ln": (6, None)}
SETS = {
    "simple": (0, 3, 4, 5, 6, 9, 10, 12, 13, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 27),
    "reg": (0, 4, 5, 6, 9, 10, 12, 15, 16, 17, 18, 20, 21, 22, 23, 24),
    "ext": (0, 4, 6, 9, 10, 12, 17, 18, 21),
    "devid": (6, 9, 10, 12, 17, 18),
}

_AI = "{script_logical_name:ln, script_selector:u16}"
_CO = "{class_id:u16, logical_name:ln, attribute_index:i8, data_index:u16}"
_VD = "{class_id:u16, logical_name:ln, attribute_index:i8}"
_OD = "{class_id:u16, logical_name:ln}"
_SE = "[{season_profile_name:octets, season_start:odt, week_name:octets}]"
_WE = "[{week_profile_name:octets, monday:u8, tuesday:u8, wednesday:u8, thursday:u8, friday:u8, saturday:u8, sunday:u8}]"
_DA = "[{day_id:u8, day_schedule:[{start_time:ot, script_logical_name:ln, script_selector:u16}]}]"
_SU = "{scaler:i8, unit:unit}"
_MK = "{mask_name:octets, index_list:[u8]}"
_ST = ("{index:u16<1..9999>, enable:bool, script_logical_name:ln, script_selector:u16, switch_time:ot, validity_window:u16, exec_weekdays:bits, "
       "exec_specdays:bits, begin_date:od, end_date:od}")
_SD = "{index:u16, specialday_date:od, day_id:u8}"
_Q = "{precedence:u8, delay:u8, reliability:u8, peak_throughput:u8, mean_throughput:u8}"
_NK = "{key_id:u32, key:octets}"
_OL0 = ("{class_id:u16, version:u8, logical_name:ln, access_rights:{attribute_access:[{attribute_id:i8, access_mode:enum(0-3), access_selectors:sel}], "
        "method_access:[{method_id:i8, access_mode:bool}]}}")
_OL1 = ("{class_id:u16, version:u8, logical_name:ln, access_rights:{attribute_access:[{attribute_id:i8, access_mode:enum(0-6), access_selectors:sel}], "
        "method_access:[{method_id:i8, access_mode:enum(0-2)}]}}")
_CI = ("{certificate_identification_type:enum(0-1), certification_identification_options:choice(0:{certificate_entity:enum(0-3), "
       "certificate_type:enum(0-3), system_title:octets} 1:{serial_number:octets, issuer:octets})}")
_Z = "i8<0..0>"

#: class version: attributes from index 2 (name [dyn] [=default]: type), then methods
TEXT = f"""
1 0
 a value?: any
3 0
 a value?: reg
 a scaler_unit: {_SU}
 m reset: {_Z}
4 0
 a value?: reg
 a scaler_unit: {_SU}
 a status*: ext
 a capture_time*: odt
 m reset: {_Z}
5 0
 a current_average_value*: reg
 a last_average_value*: reg
 a scaler_unit: {_SU}
 a status*: ext
 a capture_time*: odt
 a start_time_current*: odt
 a period: u32
 a number_of_periods =120001: u16
 m reset: {_Z}
 m next_period: {_Z}
6 0
 a register_assignment: [{_OD}]
 a mask_list: [{_MK}]
 a active_mask: octets
 m add_register: {_OD}
 m add_mask: {_MK}
 m delete_mask: octets
7 1
 a buffer*: -
 a capture_objects: [{_CO}]
 a capture_period: u32
 a sort_method: enum(1-6)
 a sort_object: {_CO}
 a entries_in_use* =0600000000: u32
 a profile_entries =0600000001: u32
 m reset: {_Z}
 m capture: {_Z}
8 0
 a time*: odt
 a time_zone: i16
 a status*: u8
 a daylight_savings_begin: odt
 a daylight_savings_end: odt
 a daylight_savings_deviation: i8<-120..120>
 a daylight_savings_enabled: bool
 a clock_base: enum(0-5)
 m adjust_to_quarter: {_Z}
 m adjust_to_measuring_period: {_Z}
 m adjust_to_minute: {_Z}
 m adjust_to_preset_time: {_Z}
 m preset_adjusting_time: {{preset_time:odt, validity_interval_start:odt, validity_interval_end:odt}}
 m shift_time: i16<-900..900>
9 0
 a scripts: [{{script_identifier:u16, actions:[{{service_id:enum(1-2), class_id:u16, logical_name:ln, index:i8, parameter:any}}]}}]
 m execute: u16
10 0
 a entries: [{_ST}]
 m enable_disable: {{firstIndexA:u16<1..9999>, lastIndexA:u16<1..9999>, firstIndexB:u16<1..9999>, lastIndexB:u16<1..9999>}}
 m insert: {_ST}
 m delete: {{firstIndex:u16<1..9999>, lastIndex:u16<1..9999>}}
11 0
 a entries: [{_SD}]
 m insert: {_SD}
 m delete: u16
15 0
 a object_list: [{_OL0}]
 a associated_partners_id: {{client_SAP:i8(0,1,16,32,48,64), server_SAP:u16<0..16383>}}
 a application_context_name: {{joint_iso_ctt_element:u8, country_element:u8, country_name_element:u16, identified_organization_element:u8, DLMS_UA_element:u8, application_context_element:u8, context_id_element:u8}}
 a xDLMS_context_info: {{conformance:bits24, max_receive_pdu_size:u16, max_send_pdu_size:u16, dlms_version_number:u8, quality_of_service:i8, cyphering_info:octets}}
 a authentication_mechanism_name: {{joint_iso_ctt_element:u8, country_element:u8, country_name_element:u16, identified_organization_element:u8, DLMS_UA_element:u8, authentication_mechanism_name_element:u8, mechanism_id_element:u8(0-7)}}
 a LLS_secret?: octets
 a association_status*: enum(0-2)
 m reply_to_HLS_authentication: octets
 m change_HLS_secret: octets
 m add_object: {_OL0}
 m remove_object: {_OL0}
15 1
 a object_list: [{_OL1}]
 @ 15 0 3
 a application_context_name: -
 @ 15 0 5
 a authentication_mechanism_name: -
 @ 15 0 7
 @ 15 0 8
 a security_setup_reference: ln
 m reply_to_HLS_authentication: octets
 m change_HLS_secret: octets
 m add_object: {_OL1}
 m remove_object: {_OL1}
18 0
 a image_block_size: u32
 a image_transferred_blocks_status*: bits
 a image_first_not_transferred_block_number*: u32
 a image_transfer_enabled: bool
 a image_transfer_status*: enum(0-7)
 a image_to_activate_info*: [{{image_to_activate_size:u32, image_to_activate_identification:octets, image_to_activate_signature:octets}}]
 m image_transfer_initiate: {{image_identifier:octets, image_size:u32}}
 m image_block_transfer: {{image_block_number:u32, image_block_value:octets}}
 m image_verify: {_Z}
 m image_activate: {_Z}
20 0
 a calendar_name_active: octets
 a season_profile_active: {_SE}
 a week_profile_table_active: {_WE}
 a day_profile_table_active: {_DA}
 a calendar_name_passive: octets
 a season_profile_passive: {_SE}
 a week_profile_table_passive: {_WE}
 a day_profile_table_passive: {_DA}
 a activate_passive_calendar_time: odt
 m activate_passive_calendar: {_Z}
21 0
 a thresholds: [simple]
 a monitored_value: {_VD}
 a actions: [{{action_up:{_AI}, action_down:{_AI}}}]
22 0
 a executed_script: {_AI}
 a type: enum(1-5)
 a execution_time: [{{time:ot, date:od}}]
23 1
 a comm_speed =1605: enum(0-9)
 a windows_size_transmit =1101: u8
 a windows_size_receive =1101: u8
 a max_info_field_length_transmit =120080: u16
 a max_info_field_length_receive =120080: u16
 a inter_octet_time_out =120019: u16
 a inactivity_time_out =120078: u16
 a device_address: u16
27 0
 a comm_speed =1605: enum(0-9)
 a initialization_string: [{{request:octets, response:octets}}]
 a modem_profile: [result]
27 1
 a comm_speed =1605: enum(0-9)
 a initialization_string: [{{request:octets, response:octets, delay_after_response:u16}}]
 a modem_profile: [result]
40 2
 a push_object_list: [{{class_id:u16, logical_name:ln, attribute_index:i8, data_index:u16, restriction:{{restriction_type:enum(0-2), restriction_value:choice(0:null 1:{{from_date:od, to_date:od}} 2:{{from_entry:u32, to_entry:u32}})}}, column:[{_CO}]}}]
 a send_destination_and_method: {{transport_service:enum(0-8,200-255), destination:octets, message:enum(0-1,128-255)}}
 a communication_window: [{{start_time:odt, end_time:odt}}]
 a randomisation_start_interval: u16
 a number_of_retries: u8
 a repetition_delay: {{repetition_delay_min:u16, repetition_delay_exponent:u16, repetition_delay_max:u16}}
 a port_reference: ln
 a push_client_sap: i8
 a push_protection_parameters: [{{protection_type:enum(0-3), protection_options:{{transaction_id:octets, originator_system_title:octets, recipient_system_title:octets, other_information:octets, key_info:{{key_info_type:enum(0-2), key_info_options:choice(0:enum(0-1) 1:{{kek_id:enum(0), key_ciphered_data:octets}} 2:{{kek_id:octets, key_ciphered_data:octets}})}}}}}}]
 a push_operation_method: enum(0-2)
 a confirmation_parameters: {{confirmation_start_date:datetime, confirmation_interval:u32}}
 a last_confirmation_date_time*: datetime
 m push: {_Z}
 m reset: {_Z}
41 0
 a TCP_UDP_port =120fdb: u16
 a IP_reference: ln
 a MMS: u16
 a nb_of_sim_conn: u8
 a inactivity_time_out =1200b4: u16
42 0
 a DL_reference: octets
 a IP_address: u32
 a multicast_IP_address: [u32]
 a IP_options: [{{IP_Option_Type:u8, IP_Option_Length:u8, IP_Option_Data:octets}}]
 a subnet_mask: u32
 a gateway_IP_address: u32
 a use_DHCP_flag: bool
 a primary_DNS_address: u32
 a secondary_DNS_address: u32
45 0
 a APN: octets
 a PIN_code: u16
 a quality_of_service: {{default:{_Q}, requested:{_Q}}}
47 0
 a operator*: visible
 a status* =1600: enum(0-5)
 a cs_attachment* =1600: enum(0-2)
 a ps_status* =1600: enum(0-4)
 a cell_info*: {{cell_ID:u16, location_ID:u16, signal_quality:u8, ber:u8}}
 a adjacent_cell*: [{{cell_ID:u16, signal_quality:u8}}]
 a capture_time*: datetime
47 1
 @ 47 0 2
 @ 47 0 3
 @ 47 0 4
 a ps_status* =1600: enum(0-6)
 a cell_info*: {{cell_ID:u32, location_ID:u16, signal_quality:u8, ber:u8, mcc:u16, mnc:u16, channel_number:u32}}
 a adjacent_cell*: [{{cell_ID:u32, signal_quality:u8}}]
 @ 47 0 8
64 0
 a security_policy =1600: enum(0-15)
 a security_suite =1600: enum(0-15)
 a client_system_title*: octets
 a server_system_title: octets
 m security_activate: enum(0-15)
 m global_key_transfer: [{{key_id:enum(0-2), key_wrapped:octets}}]
64 1
 a security_policy: -
 a security_suite: enum(0-15)
 @ 64 0 4
 @ 64 0 5
 a certificates*: [{{certificate_entity:enum(0-3), certificate_type:enum(0-3), serial_number:octets, issuer:octets, subject:octets, subject_alt_name:octets}}]
 m security_activate: -
 m key_transfer: [{{key_id:enum(0-3), key_wrapped:octets}}]
 m key_agreement: [{{key_id:enum(0-3), key_data:octets}}]
 m generate_key_pair: enum(0-2)
 m generate_certificate_request: enum(0-2)
 m import_certificate: octets
 m export_certificate: {_CI}
 m remove_certificate: {_CI}
68 0
 a actions: [{_AI}]
 a permission_table: [bits]
 a weightings_table: [[u16]]
 a most_recent_requests_table*: [bits]
 a last_outcome* =1100: u8
 m request_action: {{request_actor:u8, request_action_list:bits}}
 m reset: {_Z}
70 0
 a output_state*: bool
 a control_state*: enum(0-2)
 a control_mode: enum(0-6,129-134)
 m remote_disconnect: {_Z}
 m remote_reconnect: {_Z}
71 0
 a monitored_value: {_VD}
 a threshold_active*: simple
 a threshold_normal: simple
 a threshold_emergency: simple
 a min_over_threshold_duration: u32
 a min_under_threshold_duration: u32
 a emergency_profile: {{emergency_profile_id:u16, emergency_activation_time:odt, emergency_duration:u32}}
 a emergency_profile_group_id_list: [u16]
 a emergency_profile_active*: bool
 a actions: {{action_over_threshold:{_AI}, action_under_threshold:{_AI}}}
100 0
 a activated =0300: bool
 a server_address: octets
 a server_port =12007b: u16
 a authentication_method: enum(0-2)
 a authentication_keys: [{_NK}]
 a client_key: octets
 m synchronize: {_Z}
 m add_authentication_key: {_NK}
 m delete_authentication_key: u32
"""

#: the Hayes answers every modem profile starts from; the connect speeds are not judged
RESULTS = (b"OK", b"CONNECT", b"RING", b"NO CARRIER", b"ERROR", b"NO DIAL TONE", b"BUSY", b"NO ANSWER")


def codes(text):
    out = set()
    for part in text.split(","):
        a, _, b = part.partition("-")
        out |= set(range(int(a), int(b or a) + 1))
    return out


def parse(text):
    t, rest = _parse(text.strip())
    assert not rest.strip(), text
    return t


def _parse(s):
    s = s.lstrip()
    if s[0] == "[":
        t, s = _parse(s[1:])
        return ("array", t), s.lstrip()[1:]
    if s[0] == "{":
        els, s = [], s[1:]
        while True:
            name, s = s.split(":", 1)
            t, s = _parse(s)
            els.append((name.strip(), t))
            s = s.lstrip()
            if s[0] == "}":
                return ("struct", els), s[1:]
            s = s[1:]
    if s.startswith("choice("):
        s, opts = s[7:], {}
        while s.lstrip()[0] != ")":
            k, s = s.split(":", 1)
            opts[int(k)], s = _parse(s)
        return ("choice", opts), s.lstrip()[1:]
    m = re.match(r"[a-z0-9-]+", s)
    w, s = m.group(), s[m.end():]
    if s[:1] == "(":
        c, s = s[1:].split(")", 1)
        return (w, codes(c)), s
    if s[:1] == "<":
        c, s = s[1:].split(">", 1)
        a, b = c.split("..")
        return (w, (int(a), int(b))), s
    return (w, None), s


class Attr:
    def __init__(self, name, kind, default, type_):
        self.name, self.kind, self.default, self.type = name, kind, default, type_


def load():
    out, cur = {}, None
    for line in TEXT.strip().splitlines():
        if line[0] != " ":
            cur = out[tuple(map(int, line.split()))] = ([], [])
            continue
        line = line.strip()
        if line[0] == "@":
            c, v, i = map(int, line[1:].split())
            cur[0].append(out[c, v][0][i - 2])
            continue
        what, head, t = re.match(r"([am]) ([^:]+): (.*)", line).groups()
        name, _, d = head.partition(" =")
        kind = "dyn" if name.endswith("*") else "any" if name.endswith("?") else "static"
        cur[what == "m"].append(Attr(name.rstrip("*?"), kind, bytes.fromhex(d) if d else None, None if t == "-" else parse(t)))
    out[15, 2] = out[15, 1]
    return out


CLASSES = load()


def chosen(t, before):
    return t[1][before[1][0]] if t[0] == "choice" else t


def number(tag, n):
    return tag, n.to_bytes(SIZE[tag], "big", signed=tag in SIGNED)


def simple(sim, tag):
    if tag in SIZE:
        return tag, sim.bytes(SIZE[tag])
    if tag == 0:
        return 0, b""
    if tag == 3:
        return 3, bytes([sim.draw(2)])
    if tag == 22:
        return 22, bytes([sim.draw(256)])
    if tag == 4:
        return A.gen_simple(sim, 4)
    if tag in (25, 26, 27):
        return tag, (A.gen_datetime, A.gen_date, A.gen_time)[tag - 25](sim)
    if tag == 23:
        return 23, struct.pack(">f", sim.pick((0.0, 1.5, -2.25)))
    if tag == 24:
        return 24, struct.pack(">d", sim.pick((0.0, 1.5, -2.25)))
    if tag in (10, 12):
        return tag, bytes(sim.int(48, 122) for _ in range(sim.int(0, 8)))
    if tag == 13:
        return 13, bytes([sim.int(0, 9)])
    return 9, sim.bytes(sim.pick((0, 1, 4, 8, 16)))


def edges(a):
    return [n for n in a if n - 1 not in a or n + 1 not in a]


def gen(sim, t, before=None, depth=0):
    """a value of the type"""
    w, a = t
    if w == "array":
        n = sim.pick((0, 1, 1, 2, 3))
        if a[0] in SETS:
            n = min(n, 1)
        out = [gen(sim, a, None, depth + 1) for _ in range(n)]
        if a[0] == "struct":    # the first element is the index of most tables
            first = [A.encode(e[1][0]) for e in out]
            out = [e for j, e in enumerate(out) if first[j] not in first[:j]]
        return 1, out
    if w == "struct":
        els = []
        for _, e in a:
            els.append(gen(sim, e, els[-1] if els else None, depth + 1))
        return 2, els
    if w == "choice":
        return gen(sim, a[before[1][0]], None, depth + 1)
    if w == "any":
        if depth < 6 and sim.chance(0.2):
            return 2, [simple(sim, sim.pick(SETS["ext"])) for _ in range(sim.int(1, 3))]
        return simple(sim, sim.pick(SETS["simple"]))
    if w in SETS:
        return simple(sim, sim.pick(SETS[w]))
    if w == "anydt":
        tag = sim.int(25, 27)
        return sim.pick((tag, 9)), simple(sim, tag)[1]
    if w == "sel":
        return sim.pick(((0, b""), (1, [(15, bytes([sim.int(0, 2)]))])))
    if w == "result":
        return 9, sim.pick(RESULTS)
    if w == "version":
        return 9, b"%d.%d" % (sim.int(1, 20), sim.int(0, 30))
    if w == "unit":
        return 22, bytes([sim.pick((30, 255, sim.int(1, 62)))])
    if w == "bits24":
        return 4, (24, sim.bytes(3))
    if w in OCT:
        size, tag = OCT[w]
        return 9, sim.bytes(size) if tag is None else simple(sim, tag)[1]
    tag = TAGS[w]
    if isinstance(a, tuple):
        return number(tag, sim.pick((a[0], a[1], sim.int(*a))))
    if a is not None:
        return tag, bytes([sim.pick(sorted(a if sim.chance(0.5) else edges(a)))])
    return simple(sim, tag)


def ok(t, x, before=None):
    """is it a value of the type"""
    w, a = t
    tag, v = x
    if w == "array":
        return tag == 1 and all(ok(a, e) for e in v) and (a[0] not in SETS or len({e[0] for e in v}) < 2)
    if w == "struct":
        return tag == 2 and len(v) == len(a) and all(ok(e[1], y, v[k - 1] if k else None) for k, (e, y) in enumerate(zip(a, v)))
    if w == "choice":
        return before[1][0] in a and ok(a[before[1][0]], x)
    if w == "any":
        return True
    if w in SETS:
        return tag in SETS[w]
    if w == "anydt":
        return tag in (25, 26, 27) or tag == 9 and len(v) in (12, 5, 4)
    if w == "sel":
        return tag in (0, 1)
    if w == "result":
        return tag == 9 and v in RESULTS
    if w == "version":
        return tag == 9 and v != b"0.0" and re.fullmatch(rb"[0-9]+\.[0-9]+", v) is not None
    if w == "unit":
        return tag == 22
    if w == "bits24":
        return tag == 4 and v[0] == 24
    if w in OCT:
        return tag == 9 and len(v) == OCT[w][0]
    if tag != TAGS[w]:
        return False
    if isinstance(a, tuple):
        return a[0] <= int.from_bytes(v, "big", signed=tag in SIGNED) <= a[1]
    return a is None or v[0] in a


def change(sim, t, x, before=None):
    """one place of the value made wrong, or None; what a type does not judge stays"""
    w, a = t
    tag, v = x
    if w in ("array", "struct"):
        op = sim.weighted([(6, "inner"), (1, "tag")] + ([(2, "drop"), (2, "extra"), (1, "swap")] if w == "struct" else []))
        if op == "inner" and v:
            k = sim.draw(len(v))
            y = change(sim, a if w == "array" else a[k][1], v[k], v[k - 1] if w == "struct" and k else None)
            if y is None:
                return None
            return tag, v[:k] + [y] + v[k + 1:]
        if op == "drop":
            k = sim.draw(len(v))
            return tag, v[:k] + v[k + 1:]
        if op == "extra":
            return tag, v + [(17, b"\1")]
        if op == "swap" and len(v) > 1:
            k = sim.draw(len(v) - 1)
            return tag, v[:k] + [v[k + 1], v[k]] + v[k + 2:]
        return sim.pick(((17, b"\1"), (9, b""), (0, b"")))
    if w in ("any", "sel", "result"):
        return None
    if w == "version":
        return sim.pick(((9, b"1.2.3"), (9, b"0.0"), (17, b"3"), (9, b"abc"), (9, b"")))
    if w == "unit":
        return simple(sim, sim.pick((15, 17, 9)))
    if w == "choice":
        return change(sim, a[before[1][0]], x)
    if w in SETS or w == "anydt":
        outside = [y for y in SETS["simple"] if y not in SETS.get(w, (9, 25, 26, 27))]
        return simple(sim, sim.pick(outside)) if outside else None
    if w in OCT and sim.chance(0.5):
        n = len(v)
        return 9, sim.pick([v[:-1], v + b"\xff", b"", v + v])
    if isinstance(a, tuple) and sim.chance(0.7):
        return number(tag, sim.pick((a[0] - 1, a[1] + 1)) if w != "u16" or a[0] else a[1] + 1)
    if isinstance(a, set) and sim.chance(0.7):
        free = [n for n in range(256) if n not in a] if w in ("enum", "u8") else []
        near = [n for n in free if n + 1 in a or n - 1 in a]
        return (tag, bytes([sim.pick(near if near and sim.chance(0.7) else free)])) if free else None
    other = [y for y in (3, 6, 9, 10, 15, 16, 17, 18, 22) if y != tag]
    return simple(sim, sim.pick(other))


# ---------------------------------------------------------------- logical names
_V = "1-92,95,100-255"
_ROWS = f"""
0.0.1: 1
0.0.2: 1
0.0.2.1: 1
0.0.9: 1
0.1.0: 8
0.1.1-6: 1
0.2.0.0: 27
0.10.0.0-1,100-111,125: 9
0.11.0: 11
0.12.0: 10
0.13.0: 20
0.14.0: 6
0.15.0.0-7: 22
0.16.0: 21
0.16.1.0-9: 21
0.17.0: 71
0.19.50-59.1-2: 1
0.21.0: 1 7
0.22.0.0: 23
0.23.2.0: 1
0.23.3.0-9: 1 7
0.23.3.10-255: 1
0.24.2: 4
0.24.3: 7
0.24.4.0: 70
0.24.5.0: 7
0.25.0.0: 41
0.25.1.0: 42
0.25.4.0: 45
0.25.6.0: 47
0.25.9.0: 40
0.25.10.0: 100
0-0.40.0.0-7: 15
0-0.42.0.0: 1 octets
0-0.43.0.0-255: 64
0.43.1: 1
0-0.44.0.0-255: 18
0.96.1.0-10: 1 devid static
0.96.1.255: 7
0.96.2: 1 any dyn
0.96.3.0-3: 1
0.96.3.10: 70
0.96.3.20-28: 68
0.96.4-5.0: 1 7
0.96.4-5.1-4: 1
0.96.6.0-6: 1 3 4
0.96.7.0-21: 1 3 4
0.96.8.0-63: 1 3 4
0.96.9.0-2: 3 4
0.96.10.1-9: 1
0.96.11.0-99: 1 3 4 any dyn
0.96.12.0-3,5-6: 1 3 4
0.96.12.4: 1 u8 dyn
0.96.13.0-1: 1 3 4
0.96.14.0-15: 1 3 4
0.96.15.0-99: 1 3 4
0.96.16.0-9: 1 3 4
0.96.17.0-127: 1 3 4
0.96.20: 1 3 4
0.97.97.0-9: 1
0.97.97-98.255: 7
0.97.98.0-29: 1
0.98: 7
0.99.98: 7
1.0.0.0-9: 1
1.0.0.255: 7
1.0.1: 1
1.0.2: 1 any static
1.0.3-4,7-9: 1 3 4 any static
1.0.6,10: 3 4
1.0.11.1-7: 1
1.96.1.0-9: 1
1.96.1.255: 7
1.96.5.0-5: 1
1.96.10.0-3: 1
1.98: 7
1.99.1-2,11-12,97-99: 7
1.99.3,13-14.0: 7
1.99.10.1-3: 7
1.{_V}.1-2,11-12,21-22: 3 4
1.{_V}.8-10,17-20,29-30,58: 3 4
1.{_V}.46,31,35,43-44,32,36,33,37,34,38: 3 4
1.{_V}.7,39,41-42: 3
1.{_V}.3,6,13,16,26,51-54: 3 4 7
1.{_V}.0,4-5,14-15,24-25,27-28,49-50,55-56: 3 5
1.{_V}.40: 1 3
"""
_SPODES = """
0.21.0: 7
0.96.1.0,2,4-5,8-10: 1 devid
0.96.1.6: 1 version
0.96.2.1-3,5-7,11-12: 1 anydt dyn
0.96.3.20: 68
0.96.5.1,4: 1 u16
0.96.11.0-8: 1 u16 dyn
0-0.96.51.0-1,3-7: 1 u8 dyn
0-0.96.51.8-9: 1 odt dyn
1.0.8.4-5: 1 u8(1-3,5,10,15,20,30,60) static
1.98.1-2: 7
1.99.1-2: 7
1-0.131.35.0: 3
1-0.133.35.0: 3
1-0.147.133.0: 3
1-0.148.136.0: 3
1.94.7.0-6: 7
"""
_KPZ = """
0-128.96.13.1: 1 {start_time:odt,stop_time:odt,bitmap_data:octets} static
0-128.154.0.0: 1 {enable:u8,multicast_IP_address:[u32]} static
"""
_KPZ1 = """
0.96.11.0-8: 1 u32
"""
#: names whose row can never be reached (a group value of the manufacturer), not judged
DEAD = {(0, 96, 5, 132)}


class Row:
    def __init__(self, line):
        head, ids = line.split(": ", 1)
        a, *rest = head.split(".")
        self.a, b = int(a.split("-")[0]), a.split("-")[1:]
        self.b = int(b[0]) if b else None
        self.groups = [codes(r) for r in rest]
        words = ids.split(" ")
        self.ids = {int(w) for w in words if w.isdigit()}
        words = [w for w in words if not w.isdigit()]
        self.kind = words.pop() if words and words[-1] in ("dyn", "static") else "any"
        w = words[0] if words else "any"
        self.type = (w, None) if w == "version" else parse(w)

    def key(self):
        """how the name is looked up: BCDE, or as many of the groups C, D, E"""
        return "b" if self.b is not None else len(self.groups)

    def fits(self, t):
        return t[0] == self.a and (self.b is None or t[1] == self.b) and all(t[2 + j] in g for j, g in enumerate(self.groups))


def rows(*texts):
    """of two rows the last told one counts"""
    return [Row(x) for t in texts for x in t.strip().splitlines()][::-1]


SPECS = {"DLMS_6": rows(_ROWS), "SPODES_3": rows(_ROWS, _SPODES), "KPZ": rows(_ROWS, _SPODES, _KPZ), "KPZ1": rows(_ROWS, _SPODES, _KPZ, _KPZ1)}
ANY = {1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 18, 20, 21, 22, 23, 27, 41, 42, 45, 47, 64, 68, 70, 71, 100}


def manufacturers(t):
    return 128 <= t[1] <= 199 or 128 <= t[2] <= 199 or t[2] == 240 or any(128 <= x <= 254 for x in t[3:])


def row_of(spec, t):
    """the row of the logical name, or None: any class"""
    for key in ("b",) if manufacturers(t) else (3, 2, "b", 1):
        for r in SPECS[spec]:
            if r.key() == key and r.fits(t):
                return r
    return None

# class_id by name (Blue Book, table of interface classes)
CLASS_IDS = {n: int(i) for n, i in (p.split(":") for p in """
DATA:1 REGISTER:3 EXT_REGISTER:4 DEMAND_REGISTER:5 REGISTER_ACTIVATION:6 PROFILE_GENERIC:7 CLOCK:8 SCRIPT_TABLE:9 SCHEDULE:10 SPECIAL_DAYS_TABLE:11 ASSOCIATION_SN:12 ASSOCIATION_LN:15
SAP_ASSIGNMENT:17 IMAGE_TRANSFER:18 IEC_LOCAL_PORT_SETUP:19 ACTIVITY_CALENDAR:20 REGISTER_MONITOR:21 SINGLE_ACTION_SCHEDULE:22 IEC_HDLC_SETUP:23 IEC_TWISTED_PAIR_1_SETUP:24
M_BUS_SLAVE_PORT_SETUP:25 UTILITY_TABLES:26 MODEM_CONFIGURATION:27 AUTO_ANSWER:28 AUTO_CONNECT:29 COSEM_DATA_PROTECTION:30 PUSH_SETUP:40 TCP_UDP_SETUP:41 IPV4_SETUP:42
PRIME_NB_OFDM_PLC_MAC_ADDRESS_SETUP:43 PPP_SETUP:44 GPRS_MODEM_SETUP:45 SMTP_SETUP:46 GSM_DIAGNOSTIC:47 IPV6_SETUP:48 S_FSK_PHY_MAC_SET_UP:50 S_FSK_ACTIVE_INITIATOR:51
S_FSK_MAC_SYNCHRONIZATION_TIMEOUTS:52 S_FSK_MAC_COUNTERS:53 IEC_61334_4_32_LLC_SETUP:55 S_FSK_REPORTING_SYSTEM_LIST:56 ISO_IEC_8802_2_LLC_TYPE_1_SETUP:57 ISO_IEC_8802_2_LLC_TYPE_2_SETUP:58
ISO_IEC_8802_2_LLC_TYPE_3_SETUP:59 REGISTER_TABLE:61 COMPACT_DATA:62 STATUS_MAPPING:63 SECURITY_SETUP:64 PARAMETER_MONITOR:65 SENSOR_MANAGER_INTERFACE_CLASS:67 ARBITRATOR:68
DISCONNECT_CONTROL:70 LIMITER:71 M_BUS_CLIENT:72 WIRELESS_MODE_Q_CHANNEL:73 M_BUS_MASTER_PORT_SETUP:74 DLMS_COSEM_SERVER_M_BUS_PORT_SETUP:76 M_BUS_DIAGNOSTIC:77 _61334_4_32_LLC_SSCS_SETUP:80
PRIME_NB_OFDM_PLC_PHYSICAL_LAYER_COUNTERS:81 PRIME_NB_OFDM_PLC_MAC_SETUP:82 PRIME_NB_OFDM_PLC_MAC_FUNCTIONAL_PARAMETERS:83 PRIME_NB_OFDM_PLC_MAC_COUNTERS:84
PRIME_NB_OFDM_PLC_MAC_NETWORK_ADMINISTRATION_DATA:85 PRIME_NB_OFDM_PLC_APPLICATION_IDENTIFICATION:86 G3_PLC_MAC_LAYER_COUNTERS:90 G3_PLC_MAC_SETUP:91
G3_PLC_MAC_6LOWPAN_ADAPTATION_LAYER_SETUP:92 WI_SUN_SETUP:95 WI_SUN_DIAGNOSTIC:96 RPL_DIAGNOSTIC:97 MPL_DIAGNOSTIC:98 NTP_SETUP:100 ZIGBEE_SAS_STARTUP:101 ZIGBEE_SAS_JOIN:102
ZIGBEE_SAS_APS_FRAGMENTATION:103 ZIGBEE_NETWORK_CONTROL:104 ZIGBEE_TUNNEL_SETUP:105 ACCOUNT:111 CREDIT_INTERFACE_CLASS:112 CHARGE:113 TOKEN_GATEWAY:115 FUNCTION_CONTROL:122 ARRAY_MANAGER:123
COMMUNICATION_PORT_PROTECTION:124 SCHC_LPWAN_SETUP:126 SCHC_LPWAN_DIAGNOSTIC:127 LoRaWAN_SETUP:128 LoRaWAN_DIAGNOSTIC:129 ISO_IEC14908_IDENTIFICATION:130 ISO_IEC14908_PROTOCOL_SETUP:131
ISO_IEC14908_PROTOCOL_STATUS:132 ISO_IEC14908_PROTOCOL_DIAGNOSTIC:133 HS_PLC_ISO_IEC_12139_1_MAC_SETUP:140 HS_PLC_ISO_IEC_12139_1_CPAS_SETUP:141 HS_PLC_ISO_IEC_12139_1_IP_SSAS_SETUP:142
HS_PLC_ISO_IEC_12139_1_HDLC_SSAS_SETUP:143 LTE_MONITORING:151
""".split())}
