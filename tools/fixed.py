"""Rebuild the "fixed" list of known_findings.json from /repo's fix commits: every subject must be mapped here."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {}


def m(prop, *subjects):
    for s in subjects:
        MAP[s] = prop


m("C01", "drop HDLC frames too short for their addresses and control instead of raising IndexError", "refuse an HDLC frame longer than its 11 bit length field")
m("C03", "reassemble windowed segments whose last frame carries the final bit")
m("C04", "offer the receive window in the SNRM receive window parameter", "make room for all four negotiation parameters in SNRM",
  "offer the current negotiation parameters after they were changed", "refuse a negotiation parameter longer than the field")
m("C06", "check the space of the position a buffer operation was given", "let a buffer be positioned at its end (create_buf of an empty value)",
  "read and write lengths over 127 in Buffer", "compare pdu integers and index pdu choices instead of raising", "keep the tag of pdu Data elements that share a representation")
m("C07", "refuse a data length whose octets are cut off", "clear Boolean, Float, Bcd and date/time values", "keep the octets of a BitString made from a bytearray",
  "refuse an unknown text for Boolean", "encode and decode Float32/Float64 as IEEE 60559", "keep the exact value of a Digital set from text or through its scaler",
  "support negative deviations in DateTime", "set the clock status of DateTime", "accept a weekday together with a wildcard day of month",
  "find the end of a data value by its own length octets", "leave an Array as it was when a set is refused", "leave a Structure as it was when a set is refused",
  "hash scaled Digital values", "decode the leap day of an unspecified year", "encode the octets amount of object identifier names",
  "decode object identifier arcs of three octets", "refuse object identifier names with missing or extra arcs", "import the association_ln.method module from its package")
m("C08", "keep the octets given to ut.OctetString", "decode Sequence fields and wide INTEGERs from contents", "restore the selective access descriptors", "build CosemClassId from int",
  "refuse a pdu length whose octets are cut off", "size of OctetString6", "build BOOLEAN from text", "keep the tag of Data elements that share a representation",
  "compare octet strings of pdus by value", "encode absent and nested fields of a Sequence")
if os.path.exists(os.path.join(V, "tools/fixed_more.py")):
    exec(open(os.path.join(V, "tools/fixed_more.py")).read())

log = subprocess.run(["git", "-C", os.environ.get("DST_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
# two commits carry nearly the same subject for pdu Data (C06) and ut Data (C08)
seen, fixed = set(), []
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    fixed.append(f"fixed: property={MAP[s]} {h} {s}")
path = os.path.join(V, "known_findings.json")
data = json.load(open(path))
data["fixed"] = fixed
json.dump(data, open(path, "w"), indent=1, ensure_ascii=False)
open(path, "a").write("\n")
print(len(fixed), "fixed", len(data["findings"]), "findings")
