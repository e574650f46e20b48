m("C09", "refuse other types and cut encodings for date/time in octet-string", "pop the last element of an Array by default")
m("C10", "find the latest moment described by a DateTime", "match special days by their date pattern", "take the host time once in Clock.get_current_time",
  "find the current season and an action that starts at midnight", "validate the day of sunday in week profiles")
m("C11", "GSM diagnostic version 1 tells its version", "search object type in C group by value group C", "relation group of payment, twisted pair and gas objects", "filter objects by the media given",
  "filter objects without logical name patterns", "collection properties follow the current objects of the collection", "find association by client SAP in the current objects of this collection",
  "find class version by the current objects of this collection")
m("C09", "append values to an array whose elements are a choice of types", "copy of an array keeps the element type of the array", "text of an array whose elements are a choice of types")
m("C12", "a collection copy does not share its attribute values with the origin", "copy a collection whose associations tell no objects or absent objects, and do not lose values of objects that wait for others",
  "copy of a not writable limiter threshold keeps its unit", "copy of a collection keeps units of limiter thresholds when the limiter is listed before its register")
m("C13", "compare authentication mechanisms for methods with authenticated access", "access rights answers are not shared between collections and follow the current object list")
m("C14", "keep thresholds of register monitor when its monitored value becomes known", "register monitor keeps the type of its thresholds when its monitored value is copied later",
  "demand register tells expected type of the average values when it refuses other",
  "encode an attribute that has a value gives the new value", "text of an enum value without names of elements", "refuse wrong HDLC negotiation information as a whole",
  "set the unit of a register whose value is a real number")
m("C15", "save a collection whose server did not tell its version yet", "read attribute values of a saved device file", "save attributes that are writable for the association given", "read the verified flag of a template",
  "a template has one collection for each type, whatever instances of server version are known", "a failed save does not spoil the file saved before", "read the text of a unit shown with a scaler prefix",
  "save a device some attributes of which have no value", "default value of an enum without names of elements", "save all elements of a value some of which are empty",
  "keep all used attributes of an object told by several collections of a template", "a template fills each collection that takes the value", "take capture objects before the sort object is known")
m("C16", "skip folders of the type library which are not of manufacturers or types", "take only .typ files from the type library", "tell of an unsupported server type of any data type",
  "compare versions without a patch number", "take only decimal numbers in a version text", "check a server version without a patch number")
m("C18", "refuse an image that can not be cut into blocks")
m("C19", "units of profile columns go in the order of the columns read", "name and type of captured attribute follow the current objects of this collection")
m("C20", "capture objects that come before the sort object are refused and taken later")
m("C21", "methods of security setup are told by their indexes", "a text of octets shows its spaces", "report device ids that are numbers", "daylight saving is the bit 7 of a clock status",
  "names of parameter changes and operating statuses in english", "objects with parts of the name not in the tables have a name too", "use the configuration of the package when there is no own one",
  "demand register has the method next_period", "names of script services go with their codes", "setting the interface of a channel number replaces the old interface",
  "a report tells the names of elements of a structure attribute", "a report does not end at an empty element", "tell all the flags of a network quality status")
m("C22", "insert a special day with a new index", "day id 255 is free for a new day profile too", "entries of a schedule know the indexes of their table",
  "the methods of a copied schedule know the indexes of its entries", "a special day to delete is looked up in the current entries", "a special day keeps its index when it is set again",
  "insert validates an element as append does", "tables of a copied activity calendar are linked with each other", "values of all interface classes are copied between collections",
  "copying of collection values tells if all was written")
m("C13", "writable attributes are told when an association has no object list yet", "get_writable_attr works on an association whose object list has not been read")
m("C13", "the attribute tree has no empty branches", "get_attr_tree by rights holds no object or group without attributes")
m("C12", "a value whose objects were not known yet is finished when it is set again", "the order of objects in a type file does not change scalers and selections (limiter or profile before the objects they refer to)")
m("C10", "hundredths over 99 and weekdays outside of 1..7 are refused", "times with hundredths over 99 and dates with weekday 0 or 8..254 were taken; set_weekday ignored them")
m("C09", "text of a float is validated as other simple types are", "validate_from of Float32/Float64 crashed")
m("C08", "bits of a bit string stay numbers when they are changed", "an inverted or assigned bit became True/False and the bit string could not be encoded")
m("C15", "thresholds known already are kept when the monitored value is finished", "thresholds of a limiter loaded before the value of the monitored object were emptied when attribute 2 was set again")
m("C08", "dont-care told by a text keeps its tag", "Data.from_str('255 ') was null-data")
m("C06", "dont-care of a pdu buffer told by a text keeps its tag", "Data.from_str('255:') of cosem_pdu was null-data")
m("C08", "a choice takes texts with spaces", "Choice.from_str of a text with a space (a visible string) raised ValueError")
m("C09", "flags told by a text of more digits than flags are refused", "a text of nine digits was taken for eight flags, the last one lost")
m("C14", "a SPODES version of no numbers is refused", "the text 'a.b' was taken as a SPODES version")
m("C15", "key info of push protection is told by values as well", "key info of push protection parameters had no default and could not be told by values: a template gave it back empty")
m("C09", "octets without a character in string values are shown replaced", "a visible string with octet 0x98, or a UTF-8 string with invalid octets, raised UnicodeDecodeError when shown")
m("C11", "energy values, error registers and profiles of thermal meters are in their groups", "names such as 6.0.10.0.0.255, 6.0.97.97.0.255 and 6.0.99.1.1.255 were in no group of their medium: an outer condition hid their rules")
m("C09", "a conformance of other than 24 bits is refused however it is told", "texts of more or fewer digits, contents of another length and numbers of more bits were taken as a conformance of 24 bits, cut or shifted")
m("C23", "length of the HDLC information field is 128 octets by default", "a new HDLC setup told 2030 octets for the information field: the standard says 128, which a UA without parameters means")
m("C23", "times of the preset adjusting are octet strings", "the times of preset_adjusting_time of a clock were of type date-time (25), the standard says octet string of 12")
m("C16", "agreed identity of a meter with false value is changed later", "country 0 (Finland), an empty or zero device type told first was replaced by any later one; an enum of no elements raised TypeError")
m("C15", "values with -- in them can not be saved with comments", "to_xml(with_comment=True) of a meter with a text a--b, ending with - or with control octets raised ExpatError and saved nothing")
m("C16", "collections of different meter types are told the same", "collections of the types 12 5331 (long-unsigned) and 10 5331 (long), or of a boolean and a number, of one manufacturer were equal: their hashes were compared, so the template list took one for the other")
m("C14", "an attribute value encoded from text keeps the scaler and unit", "InterfaceClass.encode of the text shown for a scaled register value gave another (unscaled) value or refused a fraction")
m("C15", "a file of texts is written whatever characters the values hold", "to_xml(is_decode=True) of a meter with a control character in any text raised ExpatError and wrote nothing")
