#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source because the one-line-per-object format is unreadable to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "No input can crash, abort or hang the library",
  "For every UTF-8 string handed to any parse or unfold entry point, the call returns a value or an error: it never panics, overflows the stack or fails to terminate, however deep the nesting or odd the bytes. The same holds for every conversion, typed getter, clone, comparison, drop and serialization applied to whatever was accepted, and for builder calls with extreme but valid argument values (dates, durations, counts and coordinates at the ends of their types).",
  ["inputs"], "all strings (valid, mutated, truncated, random, deeply nested) x all public entry points and every accessor of the results",
  "The tests parse about twenty benign documents; the only hostile one is \"BEGIN:\". Totality is a statement about every input.",
  ["src/parser/mod.rs","src/parser/components.rs","src/parser/properties.rs","src/parser/parameters.rs","src/parser/utils.rs","src/parser/parsed_string.rs","src/properties.rs","src/components/date_time.rs","src/components/alarm.rs","src/calendar.rs"],
  [("nom combinators return Result","src/parser/*"),("recursive component()","src/parser/components.rs"),("fold_line slicing","src/properties.rs fold_line"),("chrono/iso8601 parsing returning Option","src/components/date_time.rs, src/calendar.rs get_ttl")],
  ["return of parser::{unfold, read_calendar, read_calendar_simple, read_components}, str::parse for Calendar/CalendarComponent/Property/ValueType/CalendarDateTime, TryFrom<&str> of parser::{Component,Property,Parameter}","process exit status, sanitizer reports, per-case CPU clock"])

p("C02", "A calendar built with the API reads back identically",
  "Serialising any calendar built through the public builders and parsing that text gives a calendar with the same calendar properties in the same order, the same components of the same kinds in the same order, and in each of them, at every nesting level, the same properties with the same values and parameters, repeated properties in the same order. This holds for iCalendar names as property and parameter names, parameter values without double quotes or control characters, and property values without line breaks where the property is not of TEXT type.",
  ["programs","inputs"], "all sequences of builder calls on Calendar/Event/Todo/Venue/Alarm, all values in the stated domain",
  "full_circle.rs compares two getters of one event; its structural equality test is #[ignore]d as 'equality difficult'.",
  ["src/calendar.rs","src/components.rs","src/properties.rs","src/parser/components.rs","src/parser/properties.rs","src/parser/parameters.rs","src/parser/calendar.rs"],
  [("fmt_write of Calendar/Component/Property","src/calendar.rs, src/components.rs, src/properties.rs"),("escape_text / quote_if_contains_colon","src/properties.rs"),("property()/parameters()/component()","src/parser"),("From<parser::Component> for InnerComponent","src/parser/components.rs")],
  ["Display of Calendar, str::parse::<Calendar>, Component::{properties,multi_properties,components,component_kind}"])

p("C03", "TEXT values survive exactly, other values stay verbatim",
  "For every Unicode string used as the value of a TEXT property (TEXT by its VALUE parameter or by the library's name table: the RFC 5545 defaults plus NAME, TIMEZONE-ID, X-WR-CALNAME, X-WR-CALDESC, X-WR-TIMEZONE and the VVENUE address properties), the serialized value escapes backslash, comma, semicolon and line feed and reading it back yields exactly that string. Escapes written by other producers (\\\\ \\, \\; \\: \\n \\N) decode in one left-to-right pass, so no decoded character is decoded again. Values of every other type are written and read verbatim, apart from a line feed, which is never written raw.",
  ["inputs"], "all strings x all property names and VALUE parameters",
  "The tests use one escape string without backslash-letter sequences; exact inversion is a claim about every string, and the failures hide in two-character interactions.",
  ["src/properties.rs","src/parser/parsed_string.rs","src/value_types.rs","src/parser/properties.rs"],
  [("escape_text","src/properties.rs"),("unescape_text","src/parser/parsed_string.rs"),("ValueType::by_name / determin_value_type / value_type","src/value_types.rs, src/parser/properties.rs, src/properties.rs")],
  ["Property -> String, String -> Property, Calendar round trip, parser::ParseString::unescape_text, Property::value_type"])

p("C04", "Output is always well-formed content lines",
  "Whatever property values it holds, a serialized calendar, component or property consists of CRLF-terminated lines of at most 75 octets, folded only between UTF-8 characters, with properly nested matching BEGIN/END lines, and each property on exactly one logical line, so that no property value can add, hide or end a property or component. Parameter values (free of double quotes and control characters) containing a colon or semicolon are quoted, and an independent RFC 5545 content-line reader recovers every name, parameter and value that was put in.",
  ["inputs","programs"], "all builder programs; values are arbitrary Unicode (including line breaks and text that looks like iCalendar syntax)",
  "Tests fold three ASCII or near-ASCII lines and compare four fixed documents; line length, character boundaries and injection depend on every value at every fold offset.",
  ["src/properties.rs","src/components.rs","src/calendar.rs","src/parser/properties.rs"],
  [("fold_line","src/properties.rs"),("write_crlf!","src/lib.rs"),("escape_text, quote_if_contains_colon","src/properties.rs")],
  ["text produced by Display / to_string / try_into_string / TryInto<String>"])

p("C05", "Folding is transparent and unfolding is exact",
  "unfold removes every line break (CRLF or LF) that is followed by a space or tab, together with that one space or tab, and changes nothing else. Consequently a document parses to the same calendar however its lines were folded: at any position between characters, with CRLF or LF, space or tab, any number of times.",
  ["inputs"], "all strings for unfold; all documents x all legal refoldings",
  "Unit tests unfold five fixed strings.",
  ["src/parser/utils.rs","src/properties.rs","src/parser/calendar.rs","src/parser/components.rs","src/parser/properties.rs"],
  [("unfold","src/parser/utils.rs"),("fold_line","src/properties.rs")],
  ["parser::unfold, str::parse::<Calendar>, str::parse::<CalendarComponent>, str::parse::<Property>"])

p("C06", "Line-ending style and blank lines never change meaning",
  "A document parses to the same tree whether its lines end in CRLF or LF, even when both occur in one document, whether or not the last line is terminated, and with any number of blank lines before, between and after content lines.",
  ["inputs"], "all well-formed documents x all assignments of line endings and blank lines",
  "Each fixture uses one line-ending style throughout; mixtures are never parsed.",
  ["src/parser/properties.rs","src/parser/utils.rs","src/parser/components.rs"],
  [("property value terminator","src/parser/properties.rs property()"),("line / line_separated","src/parser/utils.rs"),("components()","src/parser/components.rs")],
  ["parser::read_components, read_calendar, read_calendar_simple"])

p("C07", "Parsing reports exactly what the document says",
  "For every well-formed unfolded document the parsed tree contains every root component, every nested component and every property line of the text, in document order, with its exact name, parameters (unquoted, in order; a comma-separated list with quoted members kept as written) and value (unescaped if TEXT), and nothing else. All entry points - read_components, read_calendar (which shows the inside of the first root if that is a VCALENDAR), read_calendar_simple and the string parsers of single components, properties and parameters - agree on this.",
  ["inputs"], "all well-formed documents: any nesting up to 64 levels, any names, parameters, values, number of roots",
  "Tests pin a dozen small documents; a shipped fixture with two root components (two_events.ics) passed its test while parsing to nothing, because only is_ok() is asserted.",
  ["src/parser/mod.rs","src/parser/components.rs","src/parser/properties.rs","src/parser/parameters.rs","src/parser/utils.rs","src/parser/calendar.rs"],
  [("components()/component()","src/parser/components.rs"),("property()","src/parser/properties.rs"),("parameters()","src/parser/parameters.rs"),("valid_key_sequence","src/parser/utils.rs")],
  ["parser::read_components / read_calendar / read_calendar_simple, TryFrom<&str>"])

p("C08", "Malformed structure is rejected, never misread",
  "A document whose first content line begins a component, and which is then cut off anywhere, lacks or duplicates a BEGIN or END line, closes a component under a different name, or contains a content line without a colon that is not a bare property name, is reported as an error. It is never accepted as an empty, shortened or restructured calendar, and a malformed line never absorbs the line after it.",
  ["inputs","fault_sequences"], "every truncation point and every single structural fault of every well-formed document",
  "One test checks one mismatched END; truncation and the other faults are not tested, and several used to return Ok with an empty calendar.",
  ["src/parser/components.rs","src/parser/properties.rs","src/parser/parameters.rs","src/parser/mod.rs"],
  [("many_till / cut in component()","src/parser/components.rs"),("END line match","src/parser/components.rs"),("components()","src/parser/components.rs"),("parameter value terminator","src/parser/parameters.rs")],
  ["Result of read_components, read_calendar, read_calendar_simple, Calendar::from_str, CalendarComponent::from_str"])

p("C09", "Rewriting a parsed document is lossless",
  "Serialising a parsed tree (parser::Calendar, its components and properties) and parsing the result gives an equal tree, for every accepted document whose parameters have balanced quotes. Likewise parsing into the typed Calendar, serialising and parsing again gives an equal Calendar, and values that are not TEXT - recurrence rules, date lists, geo positions, offsets, URIs, extension properties - come out byte for byte as they went in, and in CATEGORIES and RESOURCES the commas that separate list members stay separators. (The typed path is claimed for properties in which no parameter name occurs twice.)",
  ["inputs"], "all accepted documents whose components carry UID and DTSTAMP (which the typed serializer otherwise adds)",
  "reserialize.rs covers one document without escapes, quoted parameters or repeated properties.",
  ["src/parser/properties.rs","src/parser/components.rs","src/parser/calendar.rs","src/properties.rs","src/components.rs"],
  [("parser Property::fmt_write","src/parser/properties.rs"),("LikeComponent::fmt_write","src/parser/components.rs"),("Component::fmt_write","src/components.rs")],
  ["Display of parser::Calendar/Property, Display of Calendar, equality of trees"])

p("C10", "Converting a parsed tree to typed components loses nothing",
  "Converting any parsed document to Calendar keeps every calendar property in order and turns every VEVENT, VTODO, VVENUE or other component, in order, into the component of that kind. In each component, at every level, every property line is present exactly once among properties and multi_properties with its value and parameters, and repeated names keep their document order: the names that RFC 5545 lets a component repeat (ATTACH, ATTENDEE, CATEGORIES, COMMENT, CONTACT, EXDATE, FREEBUSY, RDATE, RESOURCES) are all found in multi_properties, and of any other name the first occurrence is the one in properties and seen by the getters.",
  ["inputs"], "all parsed documents, including repeated properties of any name (distinct parameter names within one property)",
  "Only ATTENDEE repetition is tested; every other repeated name was silently reduced to one.",
  ["src/parser/components.rs","src/parser/calendar.rs","src/parser/properties.rs","src/calendar/calendar_component.rs"],
  [("From<Component> for InnerComponent / CalendarComponent","src/parser/components.rs"),("MULTIS","src/parser/properties.rs"),("From<parser::Calendar> and From<Vec<parser::Component>> for Calendar","src/parser/calendar.rs")],
  ["Calendar::{properties,components}, Component::{properties,multi_properties,components,component_kind}"])

p("C11", "Serialization is deterministic and reaches a fixpoint",
  "Two equal calendars whose components carry UID and DTSTAMP serialize to the same text, in whatever order parameters and distinct properties were added, however they were produced (built, cloned, parsed) and by whichever entry point (Display, to_string, try_into_string, TryInto<String>, or print but for a final empty line). Text produced by serialising a parsed calendar, or one built with the repeatable names only through the multi-property calls and all others through the single ones, is unchanged by parsing and serialising it again; any other text reaches such a fixpoint after one round. Serialising does not modify the calendar.",
  ["inputs","histories"], "all calendars x all insertion orders x repeated serialization",
  "Parameter order came from a randomly seeded hash map, so a test sees one order per run; the folding test has no parameters at all.",
  ["src/properties.rs","src/components.rs","src/calendar.rs"],
  [("params map iteration in Property::fmt_write","src/properties.rs"),("BTreeMap property order","src/components.rs")],
  ["bytes of repeated serializations"])

p("C12", "Component builders and getters agree after any history",
  "After any sequence of setter, append and done calls on an Event, Todo, Venue or Alarm, every typed getter and property_value returns what the last corresponding setter set (priority capped at 10) or None if it was never set, setters of one property never disturb another, multi-properties and children accumulate in call order, and done() returns the accumulated component leaving an empty builder. A Property's own builder obeys the same rule (last parameter of a name wins, any order). The same getters return the same answers after serialising and parsing, because every setter and getter uses the RFC 5545 property name (property_value: for names that RFC 5545 allows only once per component).",
  ["histories","inputs"], "all operation sequences over the public setters with arbitrary arguments",
  "Unit tests set each property once, in one order, on a fresh component, and never read them from a document.",
  ["src/components.rs","src/components/event.rs","src/components/todo.rs","src/components/venue.rs","src/components/alarm.rs","src/properties.rs"],
  [("Component / EventLike default methods","src/components.rs"),("component_impl!","src/components.rs"),("InnerComponent::done, insert_multi","src/components.rs"),("Class/EventStatus/TodoStatus from_str and From","src/properties.rs")],
  ["all getters after every step"])

p("C13", "Dates and times keep their value and their form",
  "For every calendar date and whole-second time in years 0000-9999, a DATE, floating, UTC or TZID value written through any setter has the RFC 5545 text form of its kind and reads back, directly or from a document, as the same kind with the same date, time and zone id; no form is ever read as another. The typed reader and the parsed-property reader (TryFrom<&parser::Property>) agree on well-formed values, values with missing parts, letters, trailing characters or fields out of range give None or an error, and date_naive is the date part.",
  ["inputs"], "all dates, times, zone ids, all date-valued setters and both readers; malformed variants",
  "Tests use three dates; leading zeros, leap seconds, month ends and malformed values are not sampled.",
  ["src/components/date_time.rs","src/components.rs","src/components/todo.rs"],
  [("CalendarDateTime::{to_property,from_property,from_str}","src/components/date_time.rs"),("DatePerhapsTime::{to_property,from_property,date_naive}","src/components/date_time.rs"),("TryFrom<&parser::Property>","src/components/date_time.rs"),("format_utc_date_time / parse_utc_date_time","src/components/date_time.rs")],
  ["Property text, DatePerhapsTime values, getters"])

p("C14", "UTC conversion follows the zone rules",
  "try_into_utc of a date-time with a known zone id returns exactly the one UTC instant whose local time in that zone is the given local time, and None when there is no such instant or more than one, when the zone id is unknown, or when the time is floating; a UTC time returns itself. The zone-aware constructors (from_ymd_hm_tzid, ymd_hm_tzid, from_date_time, and conversion from (local time, zone)) produce that local time and zone id, and None or an error for impossible dates or unknown zones.",
  ["inputs"], "all zones of the database x local times, concentrated around transitions (gaps and overlaps)",
  "There is no test of try_into_utc or the zone-aware constructors.",
  ["src/components/date_time.rs"],
  [("CalendarDateTime::try_into_utc","src/components/date_time.rs"),("from_ymd_hm_tzid, ymd_hm_tzid, from_date_time","src/components/date_time.rs")],
  ["return values"])

p("C15", "Alarm triggers and durations round-trip with sign and relation",
  "Every trigger - a relative whole-second duration of either sign, with or without a START/END relation, or an absolute time in any form - written to an alarm and read back (directly or from a document) is the same trigger, and before_start/before_end place it before and after_* after that point. Every RFC 5545 duration text, signed or not, in weeks, days and time parts, is read as the length it denotes; alarms carry exactly one ACTION and TRIGGER, and the given REPEAT and DURATION.",
  ["inputs"], "all durations, relations, absolute times; all RFC 5545 duration spellings",
  "Tests use +15 minutes and one absolute time; negative triggers, the usual case, were never read back.",
  ["src/components/alarm.rs","src/components/date_time.rs"],
  [("TryFrom<&Property> for Trigger / From<Trigger> for Property","src/components/alarm.rs"),("parse_duration","src/components/date_time.rs"),("Alarm::{audio,display,duration_and_repeat}","src/components/alarm.rs")],
  ["Trigger values, TRIGGER/DURATION/REPEAT/ACTION properties"])

p("C16", "Every serialized component has one UID and one DTSTAMP",
  "A component serialized without a UID gets exactly one freshly generated, globally unique UID, and without a DTSTAMP exactly one UTC timestamp of the moment of serialization, at every nesting level; a UID or DTSTAMP that was set (as a single property) or parsed is written unchanged and never duplicated. Generated UIDs never repeat, across components, calls and threads, and generating them does not modify the component.",
  ["schedules","histories","inputs"], "all components, any number of serializations from any number of threads, any TZ setting",
  "No test looks at a generated UID or DTSTAMP; uniqueness and UTC-ness are statements over many calls and environments.",
  ["src/components.rs"],
  [("Component::fmt_write","src/components.rs"),("Uuid::new_v4, Utc::now","src/components.rs")],
  ["serialized text, wall clock bracket around the call"])

p("C17", "Calendars hold exactly what was put in, in order",
  "After any sequence of push, extend, append, collect, array or single-element conversion, append_property and the name/description/timezone/ttl setters, a calendar iterates, serializes and reports exactly the elements put in, in order and of the right kind; append empties its argument, done moves everything out, and new calendars (not empty ones, not parsed ones) carry VERSION, PRODID and CALSCALE once. The name, description, timezone and refresh-interval getters return the first value set under the standard name, else under the X- name, in builders and after parsing alike.",
  ["histories","inputs"], "all operation sequences; arbitrary values",
  "Tests check element counts for three single calls.",
  ["src/calendar.rs","src/calendar/calendar_component.rs","src/parser/calendar.rs"],
  [("Calendar methods","src/calendar.rs"),("From / FromIterator impls","src/calendar.rs"),("CalendarComponent","src/calendar/calendar_component.rs")],
  ["Calendar contents via Deref/AsRef/components, getters, text"])

p("C18", "JSON export of parsed documents is lossless",
  "With the serde feature, serialising any parsed calendar or component to JSON and deserialising it gives an equal tree that serializes to the same iCalendar text (for components nested up to 32 levels, where the JSON reader's own recursion limit starts).",
  ["inputs"], "all parsed documents",
  "No test touches serde; two examples do, unexecuted.",
  ["src/parser/calendar.rs","src/parser/components.rs","src/parser/properties.rs","src/parser/parameters.rs","src/parser/parsed_string.rs"],
  [("serde derives","src/parser/*"),("ParseString transparent Cow","src/parser/parsed_string.rs")],
  ["serde_json::to_string / from_str"])

p("C19", "Single components and properties round-trip on their own",
  "Serialising one typed component and parsing it as a CalendarComponent, or one property and parsing it as a Property, gives back an equal item, whatever its length (folded lines included), and agrees with what the same item gives inside a whole calendar. A property parses the same with or without its final line break.",
  ["inputs"], "all components and properties in the C02 domain, especially longer than one line",
  "Tests parse short single-line properties only.",
  ["src/parser/properties.rs","src/parser/components.rs","src/properties.rs","src/components.rs"],
  [("FromStr for Property","src/parser/properties.rs"),("FromStr for CalendarComponent","src/parser/components.rs"),("TryInto<String> for Property / components","src/properties.rs, src/components.rs")],
  ["str::parse::<Property>, str::parse::<CalendarComponent>"])

p("C20", "Cost grows in proportion to the data",
  "The work (instructions executed) and the memory allocated by unfolding, parsing, converting and serialising grow at most in proportion to the size of the document (up to the logarithm of a lookup by name), for documents with many lines, many components, many properties or parameters, or single very long lines, with either line ending, valid or erroneous. There is no document shape for which cost grows quadratically.",
  ["inputs"], "document shapes scaled over increasing sizes",
  "Tests use documents under 5 kB and measure nothing.",
  ["src/properties.rs","src/parser/properties.rs","src/parser/components.rs","src/parser/parsed_string.rs"],
  [("fold_line","src/properties.rs"),("value terminator search","src/parser/properties.rs"),("recursive descent without backtracking (cut)","src/parser/components.rs")],
  ["executed-instruction counts under callgrind, counting allocator"])

p("C21", "Results depend only on the input, from any thread",
  "Parsing, converting, reading and serialising (with UID and DTSTAMP present) give the same result for the same input regardless of what was processed before, how often, and what other threads are doing, shared read-only use of one calendar included. No such execution has a data race or undefined behaviour.",
  ["schedules","histories"], "interleavings of concurrent and repeated calls",
  "Tests run each operation once on private data.",
  ["src/parser/mod.rs","src/calendar.rs","src/components.rs","src/properties.rs"],
  [("no global mutable state; owned or borrowed immutable data","src/*")],
  ["results per thread and per call; Miri and AddressSanitizer reports"])

p("C22", "Value types follow the VALUE parameter, then the RFC table",
  "The value type reported for a property is the one named by its VALUE parameter when that is one of the fourteen RFC 5545 types, and otherwise the default type of its upper-case name in RFC 5545 (TEXT for NAME, TIMEZONE-ID, X-WR-CALNAME, X-WR-CALDESC, X-WR-TIMEZONE and the VVENUE address names STREET-ADDRESS, EXTENDED-ADDRESS, LOCALITY, REGION, COUNTRY and POSTAL-CODE), or none for names without one. The typed property and the parser use the same rule, so a value is unescaped on reading exactly when it is escaped on writing.",
  ["inputs"], "all property names x VALUE parameters, including unknown and differently-cased ones",
  "Only TEXT on three names is tested.",
  ["src/value_types.rs","src/properties.rs","src/parser/properties.rs"],
  [("ValueType::by_name / from_str / TryFrom<Parameter>","src/value_types.rs"),("Property::value_type","src/properties.rs"),("determin_value_type","src/parser/properties.rs"),("From<ValueType> for Parameter","src/properties.rs")],
  ["Property::value_type, ValueType::from_str, serialized escapes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
