"""Single source for properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
H = "src/DLMS_SPODES/hdlc/"
T = "src/DLMS_SPODES/types/"
IC = "src/DLMS_SPODES/cosem_interface_classes/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None,
         level_note="", technique="deterministic simulation: seeded schedules and faults, reference-model oracle, minimised replay"):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=why,
        anchors={"files": list(files), "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                 "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": hook},
        _note=level_note, _technique=technique))


prop("C01", "HDLC stream framing delivers exactly the valid frames of a damaged byte stream",
     "Whatever way a received byte stream is cut into reads and whatever noise, lost, inserted, repeated or flipped octets it carries, repeatedly asking the "
     "HDLC layer for the next frame of a growing receive buffer yields exactly the well-formed frames the stream carries (addresses, control, segmentation "
     "flag and information octets intact, check sequences correct), each once and in order, as soon as its last octet arrived. A damaged frame is never "
     "delivered, never raises and never prevents a later intact frame from being found; frames may share or repeat flags. A frame built from valid parts is "
     "encoded as the standard says, and one too long for the length field is refused.",
     ("inputs", "fault_sequences", "histories"),
     "every sequence of frames, every fragmentation into reads, every sequence of octet-level line faults",
     "The tests parse a few hand-made complete buffers; the quantifier is over all fragmentations and corruptions of a stream, which they never vary.",
     [H + "frame.py"],
     [("Frame.try_from scans to a flag, keeps an incomplete candidate, drops only the flag of a bad one", H + "frame.py"),
      ("Format type/length test, header and frame check sequences", H + "frame.py")],
     [("receive buffer", "octets received and not yet consumed", "argument of Frame.try_from")],
     ["Frame.try_from return values", "octets left in the buffer", "Frame.content"],
     level_note="Seeded search: tens of thousands of simulated receivers per run against an independent reference scanner and CRC; a clean batch is evidence, not proof.")

prop("C02", "Requests over an unreliable HDLC link take effect exactly once and in order",
     "A client and a meter that number, accept and acknowledge frames with the library's sequence arithmetic and next-frame tests over a line that loses, "
     "damages, duplicates, delays and reorders frames execute every answered request exactly once, in order, on unaltered octets, and the client gets the answer "
     "of its own request. Copies of earlier frames are never taken for new ones, also after the modulo-8 numbers wrap, and a new frame is never refused. "
     "Once the line is clean again a new connection and request are served within a bounded simulated time.",
     ("schedules", "fault_sequences", "histories", "crash_points"),
     "every interleaving of deliveries, timeouts and retransmissions, every bounded pattern of frame loss, duplication, reordering and meter restart",
     "No test sends more than one frame or ever loses one; exactly-once depends on the history of both ends.",
     [H + "frame.py", H + "sub_layer.py", H + "negotiation.py"],
     [("Control.next_send_sequence / next_receiver_sequence", H + "frame.py"), ("Frame.is_next / is_next_send / is_for_me", H + "frame.py"),
      ("LLC header", H + "sub_layer.py")],
     [("N(S), N(R)", "numbers carried by I and S frames", "Control")], ["executed requests at the meter", "answers at the client"],
     level_note="Seeded search over whole simulated sessions with virtual time; station state machines are simulation code, every wire decision is the package's.")

prop("C03", "A segmented message is reassembled exactly or refused",
     "Joining the frames received for a message returns exactly the concatenated information of its segments for every segment count, window size and sequence "
     "number start, however many repeated, older or supervisory frames lie between them, and leaves frames of the next message queued. If a segment is missing, "
     "joining raises an error instead of returning a shortened, reordered or mixed message.",
     ("schedules", "fault_sequences", "inputs"),
     "every segmentation, window and every pattern of lost, repeated and interleaved frames (fewer than 8 consecutive losses)",
     "Tests join at most one hand-written pair of frames without losses.",
     [H + "frame.py"], [("Frame.join_info", H + "frame.py"), ("Frame.is_next_send", H + "frame.py")],
     [("receive queue", "frames of the current exchange", "argument of Frame.join_info")], ["joined octets", "ValueError"],
     level_note="Seeded search over receive queues and over long messages on the simulated link.")

prop("C04", "HDLC negotiation: both ends agree, failed handshakes change nothing",
     "After a handshake in which the meter grants the smaller of its own and the offered limits, client and meter hold the same maximum information sizes and "
     "windows for each direction, and no information field exceeds them. The client's offer always encodes its current parameters, also after they were edited or "
     "renegotiated, and absent parameters mean the defaults. A truncated, malformed or out-of-range parameter field is rejected as a whole and leaves all parameters as they were.",
     ("histories", "fault_sequences", "inputs"),
     "every history of offers, edits, reconnects and of good, damaged, lost or repeated parameter fields",
     "Tests encode three fixed offers once; agreement and atomicity are about histories of handshakes with damaged replies.",
     [H + "negotiation.py"], [("Negotiation.set_from_UA assigns only after full decoding", H + "negotiation.py"), ("Negotiation.SNRM encodes the offer", H + "negotiation.py")],
     [("max_info_*/window_*", "limits in force", "Negotiation")], ["Negotiation fields", "Negotiation.info", "ValueError"],
     level_note="Seeded search over handshake histories against an independent codec of the parameter field.")

prop("C05", "On a shared HDLC line every station takes exactly the frames addressed to it",
     "A station address of one, two or four octets is put on the line as the standard says, is read back as the same upper and lower address, consuming exactly its "
     "own octets, and equals another address only if it is the same one. Among stations with look-alike addresses on one line, a frame is taken by exactly the station it "
     "is addressed to when sent by the peer that station talks to, and by no other.",
     ("configurations", "inputs", "fault_sequences"),
     "every set of station addresses and address lengths, every interleaving of sessions and line faults on a shared bus",
     "Tests build one or two addresses; look-alike addresses on one bus under faults are never combined.",
     [H + "frame.py"], [("Address encode / from_frame", H + "frame.py"), ("Frame.is_for_me", H + "frame.py")],
     [], ["Address.upper/lower/content", "Frame.is_for_me"],
     level_note="Seeded search over address sets and multi-drop sessions.")

prop("C06", "Bounded PDU buffers: every operation is exact or refused; values round-trip",
     "Every read, write, seek and length operation on a PDU buffer, at its own or an explicit position, touches exactly the octets it names and moves the position by exactly "
     "what it read or wrote; when the octets do not fit, or the buffer is read-only, it raises and leaves contents and position as they were (a compound put or get may have "
     "completed its leading parts). Slices share storage, frozen copies do not. Any pdu value decoded from such a buffer consumes exactly its encoding, keeps its tag and value, reports its size, and "
     "encodes to the same octets again; a cut encoding is refused, never shortened.",
     ("histories", "fault_sequences", "inputs"),
     "every history of operations of several handles on one storage, every buffer too short by any amount, every cut or damaged encoding",
     "Tests write a few short values at position 0 of a large buffer and print them; nothing checks full buffers, long lengths or explicit positions.",
     [T + "byte_buffer.py", T + "cosem_pdu.py"],
     [("ByteBuffer._check_space before each access", T + "byte_buffer.py"), ("Buffer.put_len / get_length", T + "cosem_pdu.py"), ("Choice tag lookup", T + "cosem_pdu.py")],
     [("buf, position", "storage and cursor", "ByteBuffer")], ["returned octets, lengths", "position", "BufferError"],
     level_note="Seeded search over operation histories against a byte-array model; faults are short, read-only, cut and damaged buffers (this code has no threads or clock).")

prop("C07", "DLMS data values survive any fragmentation; cut or damaged ones are refused",
     "Of any sequence of nested DLMS data values arriving in pieces of any size, the client decodes each value exactly when its last octet is there: same type, value, element count and "
     "order, and exactly the octets after it as remainder, whatever valid form its length octets have. An incomplete or malformed value raises and is never returned shortened. "
     "A decoded value encodes to the canonical octets, and its copy is equal. Date and time fields, wildcards and positive or negative deviations, floats and object identifiers mean what the standard says.",
     ("inputs", "fault_sequences"),
     "every nested value, every fragmentation, truncation and octet damage of the stream carrying it",
     "Tests build a few short values from literals; cut and damaged encodings, long length forms and nesting are not sampled.",
     [T + "common_data_types.py", IC + "association_ln/ver1.py"],
     [("get_instance_and_pdu", T + "common_data_types.py"), ("get_length_and_pdu", T + "common_data_types.py"), ("per type constructors from bytes", T + "common_data_types.py")],
     [], ["returned instance and remainder", "encoding", "decode()", "ValueError"],
     level_note="Seeded search against an independent reference codec; nesting up to 5 levels, strings up to 300 octets, arrays up to 130 elements.")

prop("C08", "Request descriptors and PDU values mean the same at both ends, cut ones refused",
     "Attribute and method descriptors (with or without selective access), invoke-id-and-priority, and every useful type (integers, booleans, bit, octet and text strings, optional and "
     "choice elements, sequences of them) are encoded by the client to the octets of the standard and read by the meter as the same class, instance, index, selector, parameters and values, "
     "tags included, whatever octets follow in the PDU. A PDU cut anywhere is refused, not shortened. Built from text or from its octets, a descriptor is equal and has equal octets.",
     ("inputs", "fault_sequences", "histories"),
     "every descriptor and value, every cut, damage, repetition and reordering of the PDUs carrying them",
     "Tests print a few constructed descriptors; cut PDUs, following octets and rare tags are never read back.",
     [T + "useful_types.py", IC + "association_ln/ver0.py"],
     [("Sequence.from_contents / contents", T + "useful_types.py"), ("Choice by tag", T + "useful_types.py"), ("SelectiveAccessDescriptor", T + "useful_types.py")],
     [], ["contents", "from_contents", "ValueError/TypeError"],
     level_note="Seeded search against independently built octets. One known finding (priority bit pinned by an existing test).")


prop("C09", "Shared data values: each change is exact, told once, or refused without a trace",
     "A DLMS value or table held by several parties (reader, editor, meter answer) takes exactly the value it is given, in whatever valid form it comes (encoding, contents, text, python value, "
     "another instance, list of elements); what it shows as text is read back as the same value, scaled by its scaler and unit exactly. A wrong type, cut encoding, out-of-range number or date, unknown "
     "name, duplicate table key or a set refused by a holder's pre-set callback raises and leaves value, elements and type as they were. Post-set callbacks run once per change, after it, and not for "
     "refused ones. Copies are equal and independent; comparing and hashing agree with the values.",
     ("histories", "fault_sequences", "inputs"),
     "every history of sets, edits of elements, copies, invalid inputs and refusing callbacks over simple values, structures and arrays",
     "Tests set one literal per type; refused sets, partially valid tables, callbacks and copies after changes depend on histories.",
     [T + "common_data_types.py", T + "cosem_service_types.py", IC + "special_days_table.py", IC + "activity_calendar.py"],
     [("SimpleDataType.set: new instance, cb_preset, contents, cb_post_set", T + "common_data_types.py"), ("Array.set / append_validate", T + "common_data_types.py"),
      ("Structure.set", T + "common_data_types.py")],
     [("contents / values", "current value", "CommonDataType")], ["encoding", "decode()", "str()", "callbacks"],
     level_note="Seeded search over histories against an independent codec and text forms. Structure.set is not claimed atomic when a callback of one element refuses.")

prop("C10", "The tariff in force is the one the calendar prescribes for the meter's time",
     "The current season, week, day profile, scheduled action and rate of an activity calendar with special days are those its tables prescribe for the meter's local time: the season with the latest "
     "start not after that time (wildcards, last days of month, weekdays and deviations included), a matching special day before the weekday, the action with the latest start of that day; nothing is "
     "prescribed: an AttributeError. The nearest earlier moment described by a date/time pattern is exact at every edge. The meter's time estimated without reading is the time read plus what the host's "
     "clock advanced since, in the meter's zone, whatever the host's zone and however its clock jumps. A calendar with dangling or repeated keys is reported; date fields are set exactly or refused.",
     ("inputs", "histories", "fault_sequences", "configurations"),
     "every calendar, every meter time and zone, every history of readings, edits, host clock jumps and zone changes",
     "Tests read no calendar at a given time; the answers depend on date edges, wildcards and on how two clocks move.",
     [IC + "activity_calendar.py", IC + "special_days_table.py", IC + "clock.py", T + "common_data_types.py"],
     [("ActivityCalendar.get_current_*", IC + "activity_calendar.py"), ("DateTime.get_left_nearest_datetime", T + "common_data_types.py"), ("Clock.get_current_time", IC + "clock.py"),
      ("get_day_id_of_current_special_day", IC + "special_days_table.py")],
     [("record time", "when the meter's clock was read", "COSEMInterfaceClasses")], ["get_current_season/week/day/action/rate", "current_time", "validate"],
     level_note="Seeded search with a simulated host clock against a day-by-day reference calendar, years 1996 to 2060.")

prop("C11", "The object directory answers by the objects present now, in this meter only",
     "After any history of objects added (by class, version and logical name), refused, replaced, removed, or brought by a meter's object list, every lookup of a collection - by octets, text, descriptor, "
     "capture definition or object id, by class, by name, by client address, by named property, the listings, class versions, number of phases, filters by class, medium and name pattern, sorting, "
     "grouping trees - answers exactly by the objects present now in that collection, whatever other collections in the process hold or held; an absent one is NoObject. Objects are of the class and "
     "version asked; a class, version or logical name the standard or the package does not allow is refused and changes nothing.",
     ("histories", "inputs"),
     "every history of add, add_if_missing, remove, object list reads and re-created collections, over one or two meters interleaved",
     "Tests load a meter and look one object up; stale answers appear only after objects change or another meter was asked first.",
     [IC + "collection.py", IC + "association_ln/ver0.py", IC + "gsm_diagnostic/ver1.py", "src/DLMS_SPODES/obis/media_id.py"],
     [("Collection.add / get_object / try_remove", IC + "collection.py"), ("get_type", IC + "collection.py"), ("get_filtered, get_sorted, get_object_tree", IC + "collection.py"),
      ("__create_objects from object list", IC + "association_ln/ver0.py")],
     [("__container", "objects by logical name", "Collection")], ["lookups, listings, filters, trees", "NoObject/ValueError"],
     level_note="Seeded search over histories against a map of (logical name -> class, version); a logical name pool of the standard's and of manufacturer ranges.")
prop("C12", "Clients work on their own faithful copies; templates and others stay intact",
     "The collection a client gets for a meter type holds the objects of the type's file and, for the objects listed in its fullest association, their values with element types and scaler/unit, whatever "
     "the order of objects in file and list; whatever clients then do with their collections (set values, edit nested values, grow or retype arrays, add or remove objects, copy again, drop) in any "
     "interleaving changes neither the cached template nor any other client's collection, and reading the file again gives the template. A library file that fails to open or read, or is cut, gives an "
     "error and no collection, and does not spoil a later success.",
     ("histories", "schedules", "faults"),
     "every interleaving of clients over generated meter types; every point of failure of the library disk",
     "Tests use one collection at a time; sharing shows only when one client edits and another looks.",
     [IC + "collection.py", IC + "cosem_interface_class.py", IC + "register_monitor.py", IC + "limiter.py"],
     [("Collection.copy", IC + "collection.py"), ("Collection.from_xml", IC + "collection.py"), ("get_collection", IC + "collection.py"), ("InterfaceClass.copy", IC + "cosem_interface_class.py")],
     [("__container", "objects by logical name", "Collection"), ("__attributes", "values", "COSEMInterfaceClasses")], ["values, element types, scaler and unit of every object of every holder"],
     level_note="Seeded search over interleaved clients of generated meters against snapshots of template and holders; library disk faults injected at open and read.")
prop("C13", "Access rights are answered by the object list in force",
     "For every association, object, attribute or method, mode, security policy and authentication mechanism, is_readable, is_writable, is_accessible and the list's own is_writable answer exactly what the "
     "association's object list says now (no access, read, write, both, and authenticated forms only for authenticated exchange or a mechanism of at least low security), after any history of lists read, "
     "read again, edited in place, forgotten, of answers that arrive cut or corrupted (refused, changing nothing), and of other meters in the process. No list: an application error; absent object: "
     "NoObject; absent attribute: ValueError. The list held encodes to exactly what was read. The views over the lists follow them too: an association's objects, its writable attributes and the attribute tree "
     "by rights (which holds exactly the attributes with the asked rights and no empty branches), objects by client address, and the association of an address.",
     ("histories", "inputs", "faults"),
     "every history of object list reads, edits and bad answers for one or two meters, every mode and policy",
     "Tests read one static list and ask a few rights; stale answers need a changed list or a second meter, wrong modes need the whole table.",
     [IC + "association_ln/ver0.py", IC + "association_ln/ver1.py", IC + "collection.py"],
     [("AssociationLN.is_readable / is_writable / is_accessible", IC + "association_ln/ver0.py"), ("ObjectListType", IC + "association_ln/ver0.py"), ("Collection.is_writable", IC + "collection.py")],
     [("object_list", "entries and rights", "AssociationLN")], ["True/False answers, errors"],
     level_note="Seeded search over histories against a list model with the standard's mode tables; cut and corrupted answers injected.")

prop("C14", "COSEM objects hold exactly the values they took, or refuse them whole",
     "For every interface class and attribute: an encoding of the attribute's type is taken and reads back as set; one that is not (cut, flipped, foreign type) is refused leaving the value as it was, or what is "
     "held is exactly what the octets say. Values, defaults, record times, reset and copies of one object never show in another object, and a new object is always pristine. Text and number of a measured value "
     "follow its scaler and unit whichever arrived first; thresholds of monitors and limiters stay as set when the watched register becomes known before, after or again. HDLC setup takes a UA information field "
     "as a whole or not at all. Objects that the national or manufacturer specification restricts hold only the types and values it allows.",
     ("histories", "inputs", "faults"),
     "every history of set, spoiled, lost and repeated answers, clear, reset, copy over objects of every class",
     "Tests set an attribute or two of a few classes; shared defaults, half taken answers and order of arrival between objects need histories.",
     [IC + "cosem_interface_class.py", IC + "register.py", IC + "demand_register/ver0.py", IC + "limiter.py", IC + "register_monitor.py", "src/DLMS_SPODES/types/common_data_types.py"],
     [("COSEMInterfaceClasses.set_attr / encode / copy / reset_attribute", IC + "cosem_interface_class.py"), ("Register", IC + "register.py"), ("Limiter", IC + "limiter.py"), ("RegisterMonitor", IC + "register_monitor.py")],
     [("attributes", "values of the object", "COSEMInterfaceClasses")], ["attribute encodings, texts, errors"],
     level_note="Seeded search over histories of several objects against a dictionary model of encodings by an independent A-XDR codec; cut, flipped, extended, foreign and lost answers injected.")

prop("C15", "What is saved is what is loaded, and a failed save spoils nothing",
     "Saving and loading keep values: a device file restores every changed writable static value (a full one, with comments or not, every value) into a fresh collection of its type, in the older forms of the file too, and is refused by another type; a template gives back its collections, its "
     "used attributes with their values, its verified flag; a type file gives back identification, objects, read-only static values and types of choices. Saving changes no argument. If a save ends with an "
     "error (disk full, I/O error, no access) or the machine loses power at any disk operation, the file under that name afterwards loads as what was saved there before or as the new state, whole. A file that "
     "cannot be read gives an error and changes no values.",
     ("crash_points", "faults", "histories", "inputs"),
     "every point of a power cut or disk error in a save, every history of edits, saves and loads over generated meters",
     "Tests save once on a healthy disk and never compare what is loaded; torn files need a cut in the middle of a save.",
     [IC + "collection.py"],
     [("Collection.to_xml2 / to_xml / from_xml2", IC + "collection.py"), ("to_xml4 / from_xml4", IC + "collection.py"), ("Collection.save_type / from_xml", IC + "collection.py")],
     [("device, template, type files", "the saved state", "collection")], ["values, used attributes, flags of loaded collections", "files", "errors"],
     level_note="Seeded search: histories of two meters on a simulated disk under the real io stack; errors, full disk and power cuts at any operation, unsynchronised data torn or lost.")

prop("C16", "A meter gets its newest library type that is not newer than its firmware",
     "For every library (any manufacturers, device types, versions, foreign files and folders, in any directory order) a request is answered with the type file of exactly that manufacturer and device type "
     "(encoding included: an octet string is not a text or number) and that version, else of the highest lower patch number of the same major.minor, else with NoConfig; never with a newer one or another branch. "
     "Versions compare by major, minor, patch as numbers; one without a patch number or with text after it breaks nothing. If a folder cannot be listed or a file is cut, that request ends with an error and "
     "later ones are answered by the whole library; after a restart the library as it then is counts. A firmware version told later is accepted only within the agreed branch and not newer than agreed; reading a "
     "newer one raises NeedUpdate. So are manufacturer (first three octets of the logical device name), type, country and versions: what is told first stays, a contradiction is refused; collections are told the same by manufacturer, type and version.",
     ("faults", "histories", "inputs"),
     "every library content, directory order, listing or file fault, every history of requests, library changes, restarts and identity messages",
     "Tests ask one fixed library for a few versions it holds; directory order, listing errors, look-alike types and cached answers are never exercised.",
     [IC + "collection.py", "src/DLMS_SPODES/version.py"],
     [("get_collection, get_dir_entry, get_manufactures_container", IC + "collection.py"), ("Collection.set_server_ver", IC + "collection.py"), ("AppVersion", "src/DLMS_SPODES/version.py"),
      ("ActiveFirmwareId, LDN", IC + "implementations/data.py")],
     [("requests to the library", "the library's files", "collection")], ["collection identification and marker value", "errors"],
     level_note="Seeded search: libraries of look-alike types on a simulated directory (any order, listing errors), histories of requests, files put, replaced, cut, removed, restarts.")

prop("C17", "Firmware images come byte for byte from their container, or not at all",
     "Loading the firmwares of a manufacturer gives every firmware and boot image of its container under its version and type key, byte for byte as packed, whatever sizes, key lengths and key notations, and "
     "whether the images were encrypted one by one or with one cipher in a row. If the file is absent, cannot be read, is cut, has a wrong name, a damaged, shortened, reordered or zeroed ciphertext, or the key is "
     "wrong, loading ends with a ValueError or OSError and gives no image at all, and a later load of a good file is complete. A manufacturer without configuration gets nothing.",
     ("faults", "histories", "inputs"),
     "every container content, damage of an encrypted image, disk error, wrong key, every history of spoiling, repairing, replacing and loading",
     "No test loads firmware; damage inside a ciphertext needs every position, errors must not be remembered.",
     ["src/DLMS_SPODES/firmwares.py"],
     [("get_firmware, decrypt, encrypt, init_cipher", "src/DLMS_SPODES/firmwares.py")],
     [("get_firmware", "container file and configured key", "images")], ["images returned", "errors"],
     level_note="Seeded search: containers made by an independent packer on a simulated disk; damaged ciphertexts, cut files, wrong keys, read errors, restarts. Keys of the container's index are not authenticated by "
                "the format and not damaged.")

prop("C18", "A firmware image arrives block by block whole, resumed or restarted",
     "For every image, block size and identifier: each block prepared for sending carries the number and exactly the octets of that piece of the image (the last one shorter), initiate tells the identifier and the "
     "whole size, next goes to the following block and ends after the last, and following the meter's first missing block or its block status a client brings the whole image to the meter whatever requests or "
     "answers are lost, blocks refused, whichever side restarts, or the image or block size changes on the way. A new identifier starts at block 0, the same one never skips blocks not sent. A block number "
     "outside of the image, an empty image or a block size absent or zero is refused and changes nothing.",
     ("faults", "crash_points", "histories", "inputs"),
     "every image and block size, every history of lost messages, refusals, resumes, restarts of host or meter, changed images",
     "The test prepares one image once; resuming after losses needs histories.",
     [IC + "image_transfer/ver0.py"],
     [("ImageTransfer", IC + "image_transfer/ver0.py")],
     [("blocks to send", "the image and the block status of the meter", "ImageTransfer")], ["method parameters", "image at the meter", "errors"],
     level_note="Seeded search: reference meter with flash and block status, link losing requests and answers, resets of either side, resumes, other images and block sizes; progress once faults stop.")
prop("C19", "A profile is read as asked, each column with its own value, object and unit",
     "For every profile and its capture objects: the request carries exactly the selection chosen (entries and columns, or range, bounds and columns), all by default; an answer is taken column by column in the order of the "
     "selection and kept octet for octet, the object of each column is the one captured, of this collection, and the unit of each column is that of the captured value: of its own register, or what the profile of scalers "
     "tells, whatever subset, order or repetition of columns is asked. An answer with other columns, other types or cut is refused and the buffer stays. Names and types of columns follow the current objects after values, units "
     "or capture objects change, and a copy reads on its own. A profile of the display has one yes-or-no column for each captured object, and captured objects not known before are in the collection.",
     ("faults", "histories", "inputs"),
     "every list of capture objects, selection, order of columns and rows, every history of selections, answers, changed meters and copies",
     "The tests take a few selections of one fixed profile; how columns, units and objects line up depends on the selection and its history.",
     [IC + "profile_generic/ver1.py", IC + "collection.py", IC + "implementations/profile_generic.py", T + "implementations/arrays.py"],
     [("ProfileGeneric", IC + "profile_generic/ver1.py"), ("SelectionAccess", T + "implementations/arrays.py")],
     [("selected answer", "the selection and answer of the meter", "ProfileGeneric")], ["selection", "capture objects", "scalers", "copies", "errors"],
     level_note="Seeded search: generated collections with up to five profiles, selections of both kinds, good and foreign answers, changed values, units and capture objects, copies, against a model of what was asked.")
prop("C20", "What a client knows of remote meters is what they hold, through any line",
     "For every meter, its objects and rights, and every history on a damaged line: what a client of this package reads through descriptors, services, LLC and HDLC is octet for octet what the meter of this package holds at that "
     "moment, a write or method takes effect once on the object and attribute named and nowhere else, a refusal changes neither side, a write without an answer has either happened whole or not at all. Reading the object list "
     "makes each object listed with its class and version and tells the rights; meters on one line and collections copied from one another never mix. Once the line is clean every readable attribute can be read and agrees.",
     ("schedules", "faults", "crash_points", "histories", "inputs"),
     "every set of objects and values, every interleaving of reads, writes, methods, measured values, restarts, reconnects and copies with every pattern of line damage",
     "The tests never join the layers; agreement of both sides needs whole exchanges over a line that loses, repeats and reorders.",
     [IC + "collection.py", IC + "cosem_interface_class.py", H + "frame.py", H + "sub_layer.py", T + "useful_types.py", T + "common_data_types.py"],
     [("Collection", IC + "collection.py"), ("COSEMInterfaceClasses", IC + "cosem_interface_class.py"), ("Frame", H + "frame.py")],
     [("answer taken", "the object of the meter", "set_attr of the client")], ["line", "meter restart", "association", "profiles", "copies"],
     level_note="Seeded search: one client with one or two generated meters on a simulated serial line; objects of up to 23 classes, profiles with selections; line faults, meter restarts, lost links; progress once the line is clean.")

prop("C21", "Names, accessors, state texts and reports tell the values held now",
     "Every logical name a meter may list has a name: the one of the DLMS and SPODES tables for it, in each language, the same whenever asked. Every object answers to the names of its attributes and methods with the elements of "
     "those indexes and their current values, and titles them by the configuration. Codes of events, network quality, seals, channels, relays, control modes, signal quality, clock status and scripts are told by the texts of those "
     "codes, each flag by itself, and a part of a code changes alone. A report of any object, after any history of answers taken and refused, tells each attribute asked that has a value, whole, in order, under its names, and never "
     "fails or stops short.",
     ("histories", "inputs", "faults"),
     "every logical name in each language; every code of every state; every class, attribute and history of sets, refusals and clears with a report between any two of them",
     "The tests print one report; that no name, code or element is lost needs every shape of object, code and history.",
     ["src/DLMS_SPODES/relation_to_OBIS.py", IC + "reports.py", IC + "events.py", IC + "overview.py", IC + "cosem_interface_class.py", "src/DLMS_SPODES/config_parser.py"],
     [("get_name", "src/DLMS_SPODES/relation_to_OBIS.py"), ("get_obj_report", IC + "reports.py"), ("FlagEvents", IC + "events.py")],
     [("answer taken or refused", "the object", "report of the object")], ["names", "accessors", "reports", "states"],
     level_note="Seeded search: 28 class versions, two languages, histories of sets, refused answers and clears; oracle: rule table of names kept with the checks, configuration shipped, own formatter over contents.")

prop("C22", "Tables edited by clients stay consistent and independent",
     "Calendars, special days, schedules and scripts are tables that several clients take from answers, edit and copy. After any history of answers, edits, refusals and copies each table holds exactly the elements its client put "
     "there. No table takes an element with a key it already has, whichever way the element comes, except that an entry may be set again with its own key; a refused answer or edit leaves the table as it was. A new element has a "
     "free key and refers to an existing day or week, and is refused only if there is none or all keys are busy. The lists of keys in use, known by the tables, by their entries and by the parameters of methods, are those of the "
     "tables now. A copy of the meter is independent: its tables refer to each other and never to those of the origin. Values taken over from another meter fill each object present with every value the source has, change "
     "nothing else in either meter, share nothing, and the result tells if every object was present. The actors of an arbitrator have a permission for each action; when their number becomes another, none is given until it is told.",
     ("histories", "faults", "interleavings"),
     "every history of answers, edits, deletions and copies of the tables by several clients, under every arrangement of writable and read-only attributes",
     "The tests set one table; lost links, double keys and shared entries show only after copies and refusals in a particular order.",
     [IC + "activity_calendar.py", IC + "special_days_table.py", IC + "schedule.py", IC + "script_table.py", IC + "cosem_interface_class.py", IC + "collection.py", "src/DLMS_SPODES/types/common_data_types.py"],
     [("new_element", IC + "activity_calendar.py"), ("append_validate", IC + "special_days_table.py"), ("set_callback", IC + "schedule.py"), ("copy_objects_attr_values_from", IC + "collection.py")],
     [("table elements", "what the client put into the table", "values of the array"), ("keys in use", "indexes, ids and names known to tables and parameters", "callbacks of elements")], ["encodings of the tables", "get_indexes, get_day_ids, get_week_profile_names", "results of copying"],
     level_note="Seeded search: up to 3 clients, 9 tables, 60 operations; answers cut, with foreign or short elements and double keys, full tables; oracle: model lists of elements per client, keys read from their encodings.")

prop("C23", "Objects of each class have the attributes, types and names of the standard",
     "An object of any supported class and version has the attributes and methods its interface class defines (DLMS UA 1000-1, 4.3-4.9), by those names and in that order, static or dynamic, with the defaults of the standard. Each "
     "attribute and each method parameter takes every value of its type: the value is kept octet for octet and each element of it, however deep, is found by its name; a value of another type, with elements missing, added or swapped, "
     "or with a code or number outside the range is refused and leaves the object as it was. A new method parameter is itself of its type. Behind each logical name a meter takes the classes the tables of the standard and of the meter's "
     "specification (DLMS, СПОДЭС 3, KPZ) give that name, with the value type they give it, by the precedence of manufacturer, specific and common names; any other class or version is refused and the meter is left as it was.",
     ("inputs", "histories", "faults"),
     "every class and version, every value of every attribute and parameter, every wrong answer, every logical name under every specification",
     "The tests make a few objects of a few classes with default values; a swapped element, a wrong width, a lost code or a name in a wrong row shows only on the right attribute with the right value.",
     [IC + "cosem_interface_class.py", IC + "collection.py", IC + "clock.py", IC + "push_setup/ver2.py", IC + "security_setup/ver1.py", IC + "implementations/data.py", T + "implementations/structs.py", T + "choices.py"],
     [("A_ELEMENTS", IC + "cosem_interface_class.py"), ("get_type", IC + "collection.py"), ("Structure", T + "common_data_types.py")],
     [("answer taken or refused", "the object", "set_attr of the client"), ("object made or refused", "the collection", "add")], ["definitions", "values", "objects of the meter"],
     level_note="Seeded search: 30 class versions, values generated from a class table written apart from the package, one fault per wrong answer; names by a rule table of four specifications and their neighbours.")
