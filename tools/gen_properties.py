#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles and statements)."""
import json, os
P = []
S = "email-parser/src/"
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
I = ["inputs"]
prop("C01", "Parsing never panics, whatever the bytes",
     "For every byte string given to the message parser, and for every MIME entity it produced, parsing returns a value or an error and never panics: no arithmetic overflow, out-of-range index or slice, failed unwrap or unreachable arm is reachable, in debug builds included. This covers every header, date, address, MIME parameter, base64, quoted-printable, encoded-word, charset and multipart decoder.",
     I, "every byte string passed to the public parse functions, and every entity value derived from one", "The tests feed some sixty well-formed snippets; a panic needs one particular truncated or odd byte sequence out of an unbounded set.",
     ["parsing/combinators.rs", "parsing/time.rs", "parsing/message.rs", "parsing/mime/base64.rs", "parsing/mime/quoted_printables.rs", "parsing/mime/percent_encoding.rs", "parsing/mime/multipart.rs", "parsing/mime/mime_fields.rs", "parsing/mime/entity.rs", "email.rs"],
     [("length tests before indexing", "parsing/*.rs"), ("checked arithmetic in number readers", "parsing/mime/mime_fields.rs u8_number, parsing/time.rs year")])
prop("C02", "Unchecked memory accesses stay in bounds",
     "Every access made without a bounds check (unchecked indexing and slicing, raw slices rebuilt from a pointer and a length) stays inside the buffer it reads or writes, for every input. No input can make the parser read or write outside the message or a decoding buffer.",
     I, "every input and every execution path that reaches an unchecked access", "Tests run the unchecked accesses on a few inputs, where an out-of-range access usually goes unnoticed.",
     ["parsing/combinators.rs", "string.rs", "parsing/message.rs", "parsing/quoted_string.rs", "parsing/mime/base64.rs", "parsing/mime/percent_encoding.rs", "parsing/mime/multipart.rs"],
     [("bound tests dominating each unchecked access", "take_while, tag, tag_no_case, line, check_line, body, quoted_pair, before_boundary, decode_base64, decode_parameter, encode_base64"), ("adjacency test before two slices are joined", "string.rs add_string, add_str")])
prop("C03", "Every string handed out is valid UTF-8",
     "Every string the parser returns is valid UTF-8 for every input, although most are built from raw bytes without checking. Strings cut out of the message contain ASCII only; any other string comes from a checked or charset decoder.",
     I, "every input, every string created without a UTF-8 check", "The strings of the test snippets are ASCII anyway; invalid UTF-8 needs a byte above 0x7F in exactly the wrong place.",
     ["parsing/combinators.rs", "string.rs", "parsing/message.rs", "parsing/mime/percent_encoding.rs"],
     [("byte classes passed to take_while/take_while1 contain only ASCII", "parsing/*.rs"), ("from_utf8_unchecked call sites", "combinators.rs, string.rs, percent_encoding.rs")])
prop("C04", "Parsing always terminates, with bounded stack",
     "Parsing terminates for every input: every repetition consumes at least one byte or one element per round. The call depth does not depend on the input, so no nesting of comments or of anything else can exhaust the stack.",
     I, "every input; every loop and every call cycle reachable from the public parse functions", "A test can only show that the inputs it runs terminate; an endless loop or a stack overflow needs an input nobody wrote down.",
     ["parsing/combinators.rs", "parsing/whitespaces.rs", "parsing/common.rs", "parsing/address.rs", "parsing/fields.rs", "parsing/mime/base64.rs", "parsing/mime/quoted_printables.rs", "parsing/mime/multipart.rs"],
     [("repetition combinators stop at the first failure and are given parsers that consume", "combinators.rs"), ("comment nesting", "whitespaces.rs comment")])
prop("C05", "Character classes are exactly those of the RFCs",
     "For each of the 256 byte values, membership in the lexical classes (WSP, VCHAR, ALPHA, DIGIT, ctext, qtext, dtext, atext, ftext, text, specials, MIME tspecials and token characters, encoded-word charset, encoding and text characters) is exactly what RFC 5322, 2045 and 2047 define. One- and two-digit numbers are read with their decimal value.",
     I, "all 256 byte values for each class, and every input to the digit readers", "Tests touch a handful of characters per class.",
     ["parsing/character_sets.rs", "parsing/mime/encoded_headers.rs", "parsing/mime/mime_fields.rs"],
     [("class predicates", "character_sets.rs"), ("token, charset, encoding and encoded-text predicates", "mime_fields.rs token, encoded_headers.rs")])
prop("C06", "Folding white space and comments follow RFC 5322",
     "Folding white space is an optional run of WSP ending in CRLF, followed by at least one WSP, and its value is that white space with the line break removed. A comment is a balanced parenthesised text of ctext, quoted pairs, nested comments and folding white space; runs of comments and folding white space are consumed as a unit, contribute only their white space, and unbalanced or unterminated comments are rejected.",
     I, "every input position at which white space or a comment may start", "Nesting, escapes, folds and truncation combine in unboundedly many ways; the tests try six strings.",
     ["parsing/whitespaces.rs"], [("fws", "whitespaces.rs"), ("comment / ccontent", "whitespaces.rs"), ("cfws", "whitespaces.rs")])
prop("C07", "Quoted strings decode to exactly their content",
     "A quoted string is recognised exactly when RFC 5322 allows it (optional surrounding comments and white space, a closing quote, only qtext, quoted pairs and folding white space inside). Its value is the content between the quotes with the backslash of each quoted pair and the line breaks of folds removed, all other characters kept in order.",
     I, "every input", "Escapes and folds can stand anywhere in the content; the tests use three strings.",
     ["parsing/quoted_string.rs", "string.rs"], [("quoted_pair, quoted_string", "quoted_string.rs"), ("string joining", "string.rs add_string, add_str")])
prop("C08", "Atoms, words, phrases and free text are split and joined correctly",
     "Atoms and dot-atoms are the longest runs RFC 5322 allows, with surrounding comments and white space dropped; a word is an atom or a quoted string (or, with MIME, an encoded word in a phrase) and a phrase keeps all its words in order. Unstructured text keeps every printable character and the white space between words, drops line breaks of folds and trailing white space, and with MIME drops the white space between adjacent encoded words only.",
     I, "every input", "The tests cover a dozen phrases; the guarantee is about every sequence of words, folds and encoded words.",
     ["parsing/common.rs", "parsing/combinators.rs"], [("atom, dot_atom_text, dot_atom, word, phrase", "common.rs"), ("unstructured, mime_unstructured", "common.rs")])
prop("C09", "Addresses, mailboxes and groups are parsed as RFC 5322 defines them",
     "An address is parsed into exactly the parts RFC 5322 gives it: the local part and the domain (name or bracketed literal) land in their own fields, a display name is kept only where the grammar has one, lists keep every element in order, and a group keeps its name and its possibly empty member list. Input outside the grammar is rejected at the position where it leaves it.",
     I, "every input", "Quoted local parts, domain literals, comments, groups and lists combine freely; the tests try about fifteen addresses.",
     ["parsing/address.rs", "address.rs"], [("addr_spec, angle_addr, name_addr, local_part, domain, domain_literal", "parsing/address.rs"), ("mailbox, mailbox_list, group, address, address_list", "parsing/address.rs")])
prop("C10", "Message identifiers are split at the at-sign and lists keep their order",
     "A message identifier is accepted exactly as `<left@right>` with an optional comment or white space around it, the left part a dot-atom and the right part a dot-atom or bracketed literal, and yields (left, right) without delimiters. In-Reply-To and References yield one or more identifiers, in the order written.",
     I, "every input", "The tests try three identifiers.",
     ["parsing/address.rs", "parsing/fields.rs", "parsing/mime/mime_fields.rs"], [("message_id", "parsing/address.rs"), ("message_id, in_reply_to, references", "parsing/fields.rs"), ("content_id", "parsing/mime/mime_fields.rs")])
prop("C11", "Dates and times are read with the right values and ranges",
     "A date-time is accepted exactly when it follows the RFC 5322 form (optional day name, day, month, year, time with optional seconds, numeric zone), with the day in 1..=31, the year at least 1900 and of four or more digits, the hour at most 23, the minutes at most 59, the second at most 60 and the zone minutes at most 59. Each component of the result is the number or name written, day and month names being recognised in any letter case, the zone sign true exactly for `+`, and absent seconds read as 0.",
     I, "every input", "Each range has two ends and each name many spellings; the tests try one or two dates.",
     ["parsing/time.rs", "parsing/character_sets.rs", "time.rs"], [("day_name, month, day_of_week, year, day", "parsing/time.rs"), ("time_of_day, zone, time, date, date_time", "parsing/time.rs")])
prop("C12", "Each known header name selects its own value grammar and slot",
     "A header line is recognised by its name in any letter case, its value parsed with the grammar of that header and required to end with CRLF, and the result stored under the variant of that name; headers are returned in the order written. A line whose name is not known, or whose value does not fit the grammar, is kept as an unrecognised header with its name and its unstructured value.",
     I, "every input, every enabled header", "The tests parse a few headers in one letter case; a crossed name, grammar or variant shows only for the header concerned.",
     ["parsing/fields.rs"], [("fields dispatch table", "parsing/fields.rs fields"), ("one function per header", "parsing/fields.rs")])
prop("C13", "Trace headers keep their path, tokens, dates and resent blocks",
     "A trace block is an optional Return-Path (an address, or `<>` read as an empty path) followed by one or more Received headers, each with its tokens in order and its date, followed by any resent headers in any letter case and in the order written. Every Received token is classified as word, address or domain, the longer of word and domain winning.",
     I, "every input", "The tests parse two trace blocks.",
     ["parsing/fields.rs"], [("return_path, received, trace", "parsing/fields.rs"), ("resent_*", "parsing/fields.rs")])
prop("C14", "A parsed email holds each header exactly once and in its own field",
     "The email returned carries the value of every recognised header in the field of that name, comments, keywords, trace blocks and unrecognised headers in the order written and none lost. A second occurrence of a header that may appear only once is an error naming it, a missing From or Date is an error naming it, and a missing Sender is taken from From exactly when From has one mailbox, and is an error otherwise. Converting bytes with TryFrom gives what Email::parse gives.",
     I, "every list of parsed headers", "The tests check three missing or duplicated headers out of all combinations.",
     ["email.rs"], [("Email::parse assembly loop", "email.rs"), ("missing-header checks and sender inference", "email.rs")])
prop("C15", "The body is exactly what follows the blank line",
     "The body is absent when the message ends after the headers; otherwise the headers must be followed by CRLF and the body is every byte after it, unchanged. Without MIME support the body is accepted only if its lines are CRLF-separated, of text characters, and at most 998 characters each; with MIME support it is passed on as raw bytes.",
     I, "every input", "The tests parse two short bodies.",
     ["parsing/message.rs"], [("parse_message", "parsing/message.rs"), ("line, check_line, body, body_lines", "parsing/message.rs")])
prop("C16", "MIME header fields are parsed as their RFCs define them",
     "MIME-Version, Content-Type, Content-Transfer-Encoding and Content-Disposition are parsed as RFC 2045 and 2183 define them, names and types in any letter case: each type, encoding and disposition keyword yields its own variant and any other token yields the unknown variant with that token in lower case. Parameter names are lower-cased, values are tokens or quoted strings, and the file name and dates of a disposition land in their own fields.",
     I, "every input", "The tests parse a dozen such headers.",
     ["parsing/mime/mime_fields.rs", "parsing/common.rs"], [("mime_version, content_type, content_transfer_encoding, content_disposition, content_id, content_description", "parsing/mime/mime_fields.rs"), ("token, parameter", "parsing/mime/mime_fields.rs"), ("lowercase", "parsing/common.rs")])
prop("C17", "Split and encoded MIME parameters are reassembled as RFC 2231 says",
     "Parameters written in numbered pieces are joined in index order from 0 up to the first missing index, whatever order they were written in; pieces marked as encoded are percent-decoded and converted from the charset announced by piece 0 (a piece in a charset that is not known stays as written), the others are taken as they are. Percent-decoding replaces exactly each `%` followed by two hexadecimal digits by the byte they denote and leaves everything else unchanged.",
     I, "every list of parameters", "The tests reassemble four parameters.",
     ["parsing/mime/percent_encoding.rs"], [("collect_parameters", "percent_encoding.rs"), ("decode_parameter", "percent_encoding.rs")])
prop("C18", "Encoded words are decoded as RFC 2047 says",
     "`=?charset?encoding?text?=` (with an optional `*language` after the charset) is recognised exactly when its parts are non-empty runs of the allowed characters; B text is base64-decoded, Q text has `_` read as a space and `=XX` as a byte, and the bytes are converted from the named charset, names matched in any letter case. Unknown encodings or charsets and invalid UTF-8 are rejected, so the word stays as written.",
     I, "every input", "The tests decode eight encoded words.",
     ["parsing/mime/encoded_headers.rs", "parsing/mime/quoted_printables.rs"], [("encoded_word", "encoded_headers.rs"), ("decode_header_qp", "quoted_printables.rs")])
prop("C19", "Every charset name selects its own decoder, consistently",
     "Encoded words, text entities and encoded MIME parameters accept the same set of charset names, and each name selects the decoder of that charset in all three places. A charset name is matched in any letter case.",
     I, "every supported charset name, at every place a charset is used", "The tests use three charset names at one place each; a wrong entry in a table shows only for that name.",
     ["parsing/mime/encoded_headers.rs", "parsing/mime/entity.rs", "parsing/mime/percent_encoding.rs"], [("three charset dispatch tables", "encoded_word, entity, decode_parameter")])
prop("C20", "Base64 decoding and encoding follow RFC 2045",
     "Decoding maps each group of four alphabet characters to the three bytes they encode, ignores characters outside the alphabet, handles one or two `=` at the end, and rejects truncated groups. Encoding produces the standard alphabet with `=` padding, in lines of 72 characters separated by CRLF (within the 76 of the RFC).",
     I, "every byte string", "The tests round-trip a few strings.",
     ["parsing/mime/base64.rs"], [("get_value_encoded, decode_base64", "base64.rs"), ("BASE64_MAP, encode_base64", "base64.rs")])
prop("C21", "Quoted-printable decoding follows RFC 2045",
     "Decoding replaces `=XX` by the byte it denotes, removes soft line breaks, keeps printable characters, blanks, tabs and CRLF unchanged and in order, and replaces an invalid escape or a raw byte that may not appear by U+FFFD.",
     I, "every byte string", "The tests decode a few strings.",
     ["parsing/mime/quoted_printables.rs"], [("decode_qp", "quoted_printables.rs"), ("encode_qp", "quoted_printables.rs")])
prop("C22", "Multipart bodies are cut exactly at their boundaries",
     "A multipart value is split at each line consisting of `--` and the boundary parameter, ending at the closing line `--boundary--`: the text before the first boundary and after the closing one is dropped, every part is exactly the bytes between two consecutive delimiter lines, and parts keep their order. A missing boundary parameter or a missing closing delimiter is an error.",
     I, "every body and every boundary", "The tests split one body.",
     ["parsing/mime/multipart.rs"], [("before_boundary_idx, before_closing_boundary_idx", "multipart.rs"), ("parse_multipart", "multipart.rs")])
prop("C23", "MIME entities get the right type, headers, defaults and decoding",
     "Each MIME entity takes its type, encoding, id, description and disposition from the headers of those names, keeps any other header in order, defaults to 7-bit text/plain in us-ascii, and its value is what follows the blank line, decoded with the declared transfer encoding (an unknown encoding is an error). Parsing an entity yields the parts of a multipart, the text of a text entity in a supported charset, and nothing more for any other type; the top-level message follows the same rules.",
     I, "every entity", "The tests parse four entities.",
     ["parsing/mime/entity.rs", "mime.rs", "email.rs"], [("header_part, raw_entity, decode_value, entity", "entity.rs"), ("MIME defaults in Email::parse", "email.rs"), ("is_composite_type", "mime.rs")])
prop("C24", "Making a value owned changes nothing but its lifetime",
     "Converting a content type, transfer encoding, disposition or header part into its owned form yields the same variant and the same content in every field, whether the strings were borrowed or owned.",
     I, "every value of those types", "No test compares a value with its owned form.",
     ["mime.rs", "parsing/mime/entity.rs"], [("into_owned", "mime.rs"), ("header_part_owned", "parsing/mime/entity.rs")])
prop("C25", "Every feature combination builds, and a disabled header is still kept",
     "The library compiles with every feature on its own, every pair of features, every single feature left out, none and all of them. With the feature of a header disabled, that header is still returned, as an unrecognised header.",
     ["configurations"], "the feature sets of the crate: none, all, each alone, each pair, all but one", "The tests are only built with all and with the default features.",
     ["lib.rs", "email.rs", "parsing/fields.rs", "parsing/mime/entity.rs", "mime.rs", "prelude.rs"], [("cfg attributes", "email.rs, parsing/fields.rs, parsing/mime/entity.rs"), ("fall-through to the unrecognised header", "parsing/fields.rs fields")])
prop("C26", "Text that needs no decoding is returned without copying",
     "Whenever a string or value returned is a contiguous stretch of the message that needed no decoding, it borrows that stretch rather than owning a copy: joining two adjacent pieces of the input stays borrowed, atoms, identifiers, header names and the raw body always borrow. (Encoded words, percent, base64 and quoted-printable text, charset conversion and changes of letter case are decoding; the owned forms copy by design.)",
     I, "every input", "Two tests look at the representation of three strings.",
     ["string.rs", "parsing/message.rs", "parsing/common.rs", "parsing/combinators.rs"], [("adjacency test when joining", "string.rs add_string, add_str"), ("Cow::Borrowed results", "parsing/*.rs")])
prop("C27", "Parsing is a pure function of its input and safe to use from any thread",
     "The result depends on the input bytes only: parsing reads and writes no global state, does no input or output, and consults no clock, environment or randomness that could show in the result. All results can be sent to and shared with other threads.",
     ["schedules", "inputs"], "every input, every interleaving of parses on several threads", "Tests run one parse at a time and cannot show the absence of shared state.",
     ["lib.rs", "email.rs", "parsing/mod.rs"], [("no statics, no interior mutability, no I/O calls", "whole crate"), ("Send and Sync results", "email.rs, mime.rs, parsing/fields.rs")])
prop("C28", "No result can outlive or alias the message unsafely",
     "No program in safe Rust can keep a parsed email, header, entity or part after the bytes it was parsed from are freed or while they are modified: such programs do not compile. Converting the values that offer it into owned form lifts that restriction.",
     ["programs"], "every safe client program", "A test that must not compile is not part of the suite, and lifetimes are erased at run time.",
     ["email.rs", "mime.rs", "parsing/fields.rs", "parsing/message.rs", "string.rs"], [("lifetime parameters tying results to the input", "email.rs, mime.rs, parsing/fields.rs, address.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
