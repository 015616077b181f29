#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so that it stays readable)."""
import json, os
D = "rapiddlt/src/dlt_v1.rs"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


P("C01", "Decoding and the message accessors never panic",
  "Decoding a DLT storage entry or a bare DLT message from any byte slice, and calling any accessor on the result (flags, version, lengths, ECU id, timestamp, extended header, message info, payload), returns normally. The same holds for a message assembled from any header and any tail. Truncated, corrupt or hostile bytes give None, never a panic, an out-of-bounds access or an arithmetic overflow.",
  ["inputs"], "every byte slice of every length, every header value and every tail",
  "The tests decode a handful of recorded, well-formed files; a short length field or a cut-off optional part never occurs in them.",
  [D], [("bounds tests before every prefix read", D), ("ref_from_prefix returns None on short input", D)],
  ["FromBytesReadableTrait::try_read", "SearchableMarkerTrait::try_read_valid_marker", "DltEntry accessors"])
P("C02", "A decoded message is exactly the bytes its length field declares",
  "When decoding succeeds, the number of bytes consumed, the reported length of the entry and its on-disk size (16-byte storage header plus the length field of the standard header) are equal, do not exceed the input, and do not exceed the type's declared maximum length; header and tail are exactly those bytes of the input. Decoding succeeds whenever a storage header with the DLT marker is followed by a standard header whose declared length (at least 4) fits into the input. Decoding fails when the marker is missing, a header is cut off, the declared length is below 4 or does not fit.",
  ["inputs"], "every byte slice of every length",
  "Recorded files contain only complete messages of usual sizes; maximum-size, minimum-size and cut-off messages are not in them.",
  [D], [("size checks in try_read", D), ("len() and max_len()", D)],
  ["FromBytesReadableTrait::try_read", "len", "max_len"])
P("C03", "Optional header parts are found exactly where the flags say",
  "ECU id, session id, timestamp and extended header occupy 4, 4, 4 and 10 bytes in that order directly after the standard header, each only if its flag is set, and the payload is everything after them. Every accessor returns the value stored at that position (ECU id and timestamp big-endian), and returns None when its flag is not set or the message is too short to hold it. This holds for all 16 combinations of flags and for every message length.",
  ["inputs"], "all flag combinations, all tail lengths and contents",
  "The recorded files use two or three flag combinations and no truncated messages.",
  [D], [("offset computation in the accessors of DltEntry", D)],
  ["DltEntry::ecu_id", "DltEntry::timestamp", "DltEntry::extended_header", "DltEntry::payload"])
P("C04", "Header flags and message info survive encoding and decoding",
  "Every combination of header-type flags and version, and every combination of verbosity and message type with its info value, is encoded into the bits the DLT v1 protocol assigns to it and decodes to the same values. Every possible header-type byte and message-info byte decodes as the protocol tables say, and values the tables do not define decode to None rather than to another value.",
  ["inputs"], "all 256 header-type bytes, all 256 message-info bytes, all 38 verbosity/type/info combinations",
  "The tests print or count message types of recorded files; most type/info combinations never occur there.",
  [D], [("bit masks and shifts of DltHTyp and MessageType", D)],
  ["DltHTyp", "MessageType"])
P("C05", "Headers have the DLT v1 byte layout and endianness",
  "The byte image of a storage, standard or extended header built through the public constructors is the DLT v1 wire format: fields in the specified order, sizes and offsets, storage-header numbers little-endian, standard-header length big-endian, no padding. Decoding such an image gives back every field.",
  ["inputs"], "all field values",
  "The tests never encode a header and never compare decoded numbers with the file's bytes.",
  [D], [("repr(C) structs of endian-aware zerocopy integers", D)],
  ["AsBytes::as_bytes of the header structs", "FromBytesReadableTrait::try_read"])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")) else None
with open("/verif/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
print(len(PROPS))
