#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PARSER="src/parser.rs"; VC="src/vcard.rs"; PROP="src/property.rs"; PARAM="src/parameter.rs"
HELP="src/helper.rs"; LIB="src/lib.rs"; ITER="src/iter.rs"; BLD="src/builder.rs"; DT="src/date_time.rs"; URI="src/uri.rs"; SER="src/serde.rs"

p("C01","Decode, encode, decode is lossless",
 "Whenever a document is accepted, encoding each decoded card and decoding that text again succeeds and yields a card equal to the first one: every property, group, parameter and value in the same order within its kind. Nothing is lost, invented, reordered among repeated properties or moved to another property.",
 ["inputs"],"every document the strict decoder (and, for the cards it keeps, the lenient decoder) accepts, over all properties, parameters, groups, value types, Unicode text and foldings; double quotes inside parameter values, fractional seconds and list-valued parameters whose items contain commas are outside",
 "The tests round-trip a few dozen hand-picked cards with plain values; the combinations of property, parameter, value type, escape and fold are unbounded.",
 [PARSER,VC,PROP,PARAM,HELP],[("decoder","src/parser.rs parse_one/parse_property_by_name"),("encoder","src/vcard.rs Display for Vcard, content_line"),("parameter encoder","src/parameter.rs Display for Parameters"),("value encoders","src/property.rs Display impls")])
p("C02","Programmatically built cards survive encoding and decoding",
 "Any card assembled through the public API whose value types agree with its VALUE parameters encodes to a document that decodes, strictly and to exactly one card, back to an equal card. This holds for arbitrary text in every text position: backslashes, commas, semicolons, colons, line feeds, tabs, non-ASCII characters and text that looks like vCard syntax.",
 ["inputs"],"every card with at least one formatted name, any texts without control characters other than tab and line feed, in every property, group-less or grouped, with any parameters (no double quote in parameter values, no comma in list-valued parameter items, text that is itself a URI excluded where the untyped value may be either)",
 "Tests build two cards with friendly ASCII values; an injection or loss needs particular characters in particular positions.",
 [VC,PROP,PARAM,LIB],[("escape_value/unescape_text","src/lib.rs"),("Parameters Display quoting","src/parameter.rs"),("component join","src/property.rs TextListProperty/DeliveryAddress/Gender Display")])
p("C03","Encoded lines are folded at 75 octets without cutting a character",
 "In encoder output no physical line is longer than 75 octets, not counting its line break, unless it holds one single user-perceived character that is itself too long. Folds are a CRLF followed by one space, never fall inside a user-perceived character, and removing them gives back exactly the unfolded content line.",
 ["inputs"],"every encodable card: all value lengths around every multiple of the wrap width, all mixtures of 1 to 4 octet characters, combining sequences, emoji and flag sequences, wherever they fall relative to the fold point, in names, parameters and values",
 "The tests fold three fixed strings; off-by-one and splitting errors need particular lengths and cluster sizes at the boundary.",
 [VC],[("fold_line","src/vcard.rs fold_line"),("content_line","src/vcard.rs content_line")])
p("C04","Line folding and line ending style never change what is decoded",
 "Decoding gives the same outcome, and the same cards, no matter at which places inside its content lines the source is folded (line break followed by one space or tab) and whether line breaks are CRLF or LF. This includes folds inside property names, parameters, escape sequences and the BEGIN, VERSION and END lines.",
 ["inputs"],"every document, every set of fold positions inside its lines, both fold characters, every mixture of CRLF and LF, strict and lenient decoding and iteration",
 "Tests fold at a handful of positions inside values; the positions times documents are unbounded.",
 [PARSER,ITER],[("unfold","src/parser.rs unfold"),("NewLine token","src/parser.rs Token")])
p("C05","Decoding any text returns: no panic, no hang",
 "For every string, strict decoding, lenient decoding, iteration to the end and the public value parsers all return a value or an error; they never panic, abort or run forever. Encoding, validating and serializing any card they return also never panics.",
 ["inputs"],"all strings (any Unicode, truncations at every position, corrupted documents, very long values, deep repetition) given to every public entry point that parses",
 "Tests feed about a hundred inputs; a panic needs one unusual input (a slice at a non-boundary, an arithmetic overflow, an empty part).",
 [PARSER,ITER,HELP,PROP,PARAM,DT,URI],[("lexer and token loop","src/parser.rs"),("date and time parsers","src/helper.rs"),("iterator offset","src/iter.rs")])
p("C06","A card is exactly BEGIN, VERSION, properties, END",
 "A document is accepted strictly only if it is a non-empty sequence of cards separated by nothing but blank lines, each starting with a BEGIN line, then a VERSION line of 3.0 or 4.0, then property lines, then an END line, all compared without regard to case. A card that is not closed, is nested in another, has a misplaced or repeated VERSION, contains a blank or unknown line, or is surrounded by other text makes the document an error, and each accepted card contains exactly the properties between its own BEGIN and END.",
 ["inputs","histories"],"every sequence of content lines, including every truncation and every order of the framing lines; trailing text on the END line itself is left open",
 "Tests check one malformed sample per error; the property is over all line sequences.",
 [PARSER],[("parse/parse_one/parse_properties","src/parser.rs"),("assert_token","src/parser.rs")])
p("C07","The iterator yields the same cards as the decoder and always ends",
 "On a document the decoder accepts, the iterator yields exactly the same cards in the same order and then ends. On any text it ends after finitely many items and stays ended, a card that fails gives one error, and iteration resumes at the next line that begins a card after the start of the failed one, so no later well-formed card is lost.",
 ["inputs","histories"],"every document and every position and kind of bad card among good ones, strict and lenient, and every sequence of calls to the iterator including calls after the end",
 "Tests iterate over two well-formed cards; termination and resumption depend on where the bad text lies.",
 [ITER,PARSER],[("VcardIterator::next/parse_next","src/iter.rs"),("next_begin","src/iter.rs")],[("offset","how far the source has been consumed","src/iter.rs")])
p("C08","Lenient decoding drops exactly the failing lines",
 "Lenient decoding of a correctly framed document yields the same cards as strict decoding of that document with exactly the lines that strict decoding would reject removed. In particular it equals strict decoding whenever strict decoding succeeds, an ignored line never disturbs the lines around it, and a VALUE parameter it does not know is ignored as if absent.",
 ["inputs"],"every framed document and every subset, kind and position of failing lines, including failures in the name, in a parameter, in the value, and repeated properties; misplaced VERSION and nested BEGIN lines stay errors",
 "One test drops a single bad property; what is dropped depends on where in the line the failure occurs and what follows it.",
 [PARSER],[("parse_properties strict flag","src/parser.rs"),("skip_line","src/parser.rs")])
p("C09","Cardinality and validity rules are enforced",
 "KIND, N, BDAY, ANNIVERSARY, GENDER, PRODID, REV and UID occur at most once: a second one is an error strictly and is dropped, keeping the first, leniently. A decoded card has at least one FN, and has MEMBER only if its KIND is group; validation of a built card succeeds under exactly those two conditions.",
 ["inputs"],"all multisets and orders of properties in a card, decoded or built, including properties that appear with groups or different case",
 "Tests repeat each property once; the rules must hold for every combination and order.",
 [PARSER,VC],[("OnlyOnce checks","src/parser.rs parse_property_by_name"),("validate","src/vcard.rs Vcard::validate")])
p("C10","Each property line lands in its own slot with its group and order",
 "A property line is recognized by its name without regard to ASCII case and with an optional group, and adds exactly one property, holding that group and that value, to the field for that name and to no other field. Repeated properties keep document order, private X- properties keep their name as written, and any other name is an error.",
 ["inputs"],"all property names in all case variants, all groups, all orders and repetitions, near-miss names, and all values valid for the property",
 "Tests cover each property once in upper case; swapped, missing or case-sensitive routing of one name in one spelling is invisible to most of them.",
 [PARSER,"src/name.rs"],[("Token::PropertyName regex","src/parser.rs"),("parse_property_by_name","src/parser.rs")])
p("C11","Parameters are decoded exactly and their constraints enforced",
 "Every parameter of a property line is decoded into its own field with exactly the given value, in any order, case and quoting, with the escapes for backslash, line feed, comma and semicolon undone, and no parameter changes another one. PREF outside 1 to 100, malformed PID, TYPE on a property that does not allow it, LABEL outside ADR, unquoted GEO, CHARSET other than UTF-8, unknown parameter names, unterminated quotes and control characters are errors.",
 ["inputs"],"every list of parameters on every property, with quoted and unquoted values, delimiters inside quotes, escapes, repeated TYPE and X- parameters; double quotes inside a value and escaped commas inside list-valued parameters are outside",
 "Tests use each parameter once with one value; the interaction of quoting, escapes, delimiters and order is combinatorial.",
 [PARSER,PARAM],[("parse_parameters/parse_parameter_value","src/parser.rs"),("TypeParameter/Pid/ValueType FromStr","src/parameter.rs")])
p("C12","The VALUE parameter selects the value type",
 "For properties with more than one value type and for private properties, the VALUE parameter (any case) decides how the value is read, and without it the default type applies. A VALUE that the property does not support, an unknown VALUE, or a value that is not of the selected type is an error in strict decoding, and integers, floats, booleans, URIs and lists of them are read exactly.",
 ["inputs"],"every property times every VALUE type times every well-formed and malformed value of that type, including lists and extreme numbers",
 "Tests try a few valid pairs; the table of property, type and value has hundreds of cells, each with unbounded values.",
 [PARSER,PROP,HELP,URI],[("parse_extension_property_by_name","src/parser.rs"),("parse_text_or_uri / parse_date_time_or_text","src/parser.rs"),("number parsers","src/helper.rs")])
p("C13","Dates, times and offsets decode to the instant that is written",
 "Every complete or truncated vCard date, every time, UTC offset, date-time and timestamp is accepted and decoded to exactly the year, month, day, hour, minute, second and offset it denotes, with absent parts set to their documented defaults. Values with an impossible month, day, hour, minute, second or offset, or that are not dates or times at all, are rejected.",
 ["inputs"],"all calendar dates (leap years included) in all supported forms, all times and offsets including negative offsets below one hour, and all out-of-range or malformed variations; fractional seconds, hour 24 of a time, second 60 and lax ISO 8601 forms are left open",
 "Tests parse about thirty literals; there are millions of dates and 86400 times and each form has its own branch.",
 [HELP,PROP,DT],[("parse_date/parse_time/parse_utc_offset/parse_timestamp","src/helper.rs"),("DateAndOrTime FromStr","src/property.rs")])
p("C14","Dates, times and offsets are written so they read back unchanged",
 "Writing any date, time, date-time, timestamp or UTC offset value gives standard vCard syntax that denotes exactly that value: the right digits, sign and offset, in every property and value type that holds one. A date stays a date, a time a time and a date-time a date-time when the text is read again.",
 ["inputs"],"all dates in years 0 to 9999, all whole-second times, all whole-minute offsets from -23:59 to +23:59, and their combinations and lists, in BDAY, ANNIVERSARY, REV, TZ, private properties and parameters",
 "Tests format a few values, mostly UTC; sign, padding and ambiguity errors need particular values.",
 [HELP,PROP,DT],[("format_date/format_time/format_date_time/format_utc_offset","src/helper.rs"),("UtcOffsetProperty Display, DateAndOrTime Display","src/property.rs"),("Date/DateTime Display and FromStr","src/date_time.rs")])
p("C15","Structured values split and join on exactly their own delimiters",
 "N, ORG, ADR, CATEGORIES, GENDER and CLIENTPIDMAP values are split into components only at unescaped delimiters, each component is unescaped on its own and lands in its own position, and encoding joins them so that decoding returns the same components. An address with fewer than seven components, an unknown sex or kind, or a client PID map without a positive number and a URI is an error.",
 ["inputs"],"all lists of components over all texts, including empty components and components made of delimiters, backslashes and line feeds in any arrangement",
 "Tests split two or three ordinary values; errors appear only with particular runs of backslashes and delimiters.",
 [PARSER,PROP,LIB],[("unescaped","src/lib.rs"),("DeliveryAddress/Gender/ClientPidMap FromStr and Display","src/property.rs")])
p("C16","Text escapes decode and encode as exact inverses",
 "In text values the sequences for backslash, line feed (either case), comma and semicolon decode to the one character they denote, every other character stands for itself, and encoding followed by decoding is the identity on text. A raw control character other than tab in a value is an error, and encoder output contains none.",
 ["inputs"],"all strings over all characters for every text property, especially all arrangements of backslashes before n, N, comma, semicolon and backslash",
 "Tests decode one escaped sample; runs of backslashes of every parity and position are needed to tell correct from nearly correct unescaping.",
 [LIB,PARSER,PROP],[("escape_value/unescape_text","src/lib.rs"),("parse_property_value","src/parser.rs"),("Control token","src/parser.rs")])
p("C17","Dropping a card erases its private text from memory",
 "With the default features, when a decoded or built card is dropped, every heap buffer that held text of the card (values, groups, parameter values and private names) is overwritten before it is freed. Only the externally defined types the documentation exempts (URIs, dates and times, language tags, media types) may remain.",
 ["inputs","configurations"],"every card: every property kind and variant, group and parameter that can hold text, any number of them, whether decoded or built",
 "No test looks at freed memory; a missing derive or a skip attribute on one field is invisible to functional tests.",
 [VC,PROP,PARAM],[("ZeroizeOnDrop derives and zeroize(skip) attributes","src/vcard.rs, src/property.rs, src/parameter.rs")])
p("C18","JSON serialization of a card is lossless",
 "With serialization enabled, serializing any decoded or built card to JSON succeeds and deserializing it gives an equal card: each value comes back with the same type and content. This includes every variant of the values that may be text or URI, date or text, or of any type.",
 ["inputs","configurations"],"all cards over all properties, value variants, parameters and groups, with mime and language-tag support on",
 "Tests serialize one card whose values are unambiguous; variants that serialize alike are only told apart by particular values.",
 [VC,PROP,PARAM,DT,SER],[("serde derives, tag/untagged attributes, renames","src/property.rs, src/parameter.rs"),("media_type module","src/serde.rs"),("Display/FromStr based serde","src/date_time.rs")])
p("C19","The builder sets exactly the named property",
 "Each builder call appends one property without group or parameters holding exactly the given value to the field it names, or replaces the single value of a field that can occur only once, and leaves everything else as it was. The finished card is therefore determined by the sequence of calls, in order.",
 ["histories","inputs"],"all sequences of builder calls with all values, including repeated calls and values that are rejected (an invalid gender leaves the card unchanged)",
 "One test makes each call once; interference needs sequences, and swapped fields need distinct values.",
 [BLD,VC],[("VcardBuilder methods","src/builder.rs")],[("card","card under construction","src/builder.rs")])
p("C20","Embedded JPEG photos decode to exactly their bytes",
 "Extracting embedded photos returns, in order, the base64-decoded bytes of exactly those text photos that are marked as base64 (encoding b) and JPEG, and of no other photo. A photo so marked whose text is not valid base64 makes the extraction an error.",
 ["inputs"],"all cards with any number and mixture of photos: URI photos, unmarked ones, other encodings and types in any case, all byte contents and paddings",
 "One fixture with one photo is tested; selection and order need mixtures.",
 [VC],[("parse_photo_jpeg","src/vcard.rs")])
p("C21","Optional features do not change what is decoded or encoded",
 "For any document whose language tags and media types are well formed (tags in the usual case, en-US), every combination of optional features accepts or rejects it alike, decodes the same values and encodes the same text. A malformed language tag or media type is rejected by the features that parse it and by no other configuration.",
 ["configurations","inputs"],"all feature combinations (none, default, each optional feature, all) and all documents",
 "The tests run one configuration at a time and compare nothing across configurations.",
 [PARSER,PARAM,PROP,"Cargo.toml"],[("parse_language_tag/parse_media_type cfg variants","src/parser.rs"),("cfg fields","src/parameter.rs, src/property.rs")])
p("C22","Encoder output is one well-formed card document",
 "Encoding any card gives a document whose lines all end in CRLF, starting with BEGIN:VCARD and VERSION:4.0 and ending with END:VCARD, with exactly one content line in between for each property of the card. Each such line carries the property's own name, group and parameters, repeated properties keep their order, and no other line break or control character appears.",
 ["inputs"],"all cards decoded or built, with any number of properties in each field and any text in values and parameters",
 "Tests compare one full output; a property omitted, doubled or written under another name shows only when that field is filled.",
 [VC,PARAM],[("Display for Vcard","src/vcard.rs"),("qualified_name/content_line","src/vcard.rs")])
p("C23","Documents compose: decoding a concatenation concatenates the cards",
 "Decoding two accepted documents written one after the other on separate lines, with any number of blank lines between, gives the cards of the first followed by the cards of the second; if exactly one is rejected, and it holds more than blank lines, the whole is rejected. Decoding is deterministic, leaves no state behind between calls and does not depend on what was decoded before.",
 ["inputs","histories"],"all pairs and longer sequences of documents (a document that starts with white space continues the line before it and is outside), separators, and orders of calls, strict and lenient",
 "Tests decode two fixed cards in a row; carry-over between cards depends on their contents.",
 [PARSER,LIB],[("parse loop","src/parser.rs VcardParser::parse")])
p("C24","Single values parse and print on their own as they do in a card",
 "Every public parser of a single value (the FromStr of the value types, the helper parse functions, UriProperty from text) accepts a text and reads it exactly as the specification reads that kind of value; writing a value as text and reading it again gives an equal value. Taking a text for one card gives the first card the iterator yields, and its failure is an error.",
 ["inputs"],"all texts, for every public value parser and every value it returns (times with fractions of a second excepted)",
 "Tests parse a few literals per type; the parsers are hand-written, one per type, with their own default, case and escape rules.",
 [HELP,PROP,PARAM,DT],[("parse_* functions","src/helper.rs"),("FromStr and Display of the value types","src/property.rs, src/parameter.rs, src/date_time.rs"),("TryFrom<&str> for Vcard","src/vcard.rs")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
