#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a maintenance aid; no check reads it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/decoders/common/src/"; I = "include/novatel_edie/decoders/common/"; OS = "src/decoders/oem/src/"; OI = "include/novatel_edie/decoders/oem/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="model_checking", reason=None, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, level=level, reason=reason, state=state, observe=observe))


TV = "TLA+ specification model-checked with TLC; traces recorded from the real code accepted or rejected by TLC"
GEN = "TLC checks the specification on toy parameters, generates plans replayed into the real code, and validates the recorded traces"

prop("B01", "The framing byte buffer is a bounded first-in-first-out queue",
     "For every history of writes, erasures, copies and searches the buffer behaves as a bounded first-in-first-out byte queue: a write is taken whole when it fits and refused whole when it does not, bytes come out in the order they went in, and searches report the first match among the bytes currently held. Neither the physical position of the data nor earlier operations can be observed.",
     ["histories", "inputs"], "every operation history over every capacity and every content", "Unit tests replay a handful of fixed sequences; wrap-around positions, refusals and searches depend on the whole history.",
     ["include/novatel_edie/common/fixed_buffer.hpp"], [("write/copy_out/erase_begin/search", "include/novatel_edie/common/fixed_buffer.hpp")],
     TV, "Layout refinement model-checked exhaustively at small capacity; every transition of the layout graph and random histories replayed on three element types.")
prop("B02", "Checksums equal their polynomial definition and compose",
     "For every byte sequence and initial value the checksum (CRC-8, -16, -32, -64, forward or reflected, and the OEM CRC-32) equals the bit-by-bit remainder for its generator polynomial, and computing it in any number of pieces, or byte by byte, gives the same value.",
     ["inputs"], "every byte sequence and every way of splitting it", "Tests compare a few constants; a table entry or a split point that is wrong is hit by few inputs.",
     ["include/novatel_edie/common/crc.hpp"], [("CalculateCharacterCrc32 / CalculateBlockCrc32", "include/novatel_edie/common/crc.hpp")],
     TV, "All 256 table steps from every reachable low byte and random splits; the specification computes the polynomial division bit by bit.")
prop("B03", "Message counts equal the number of messages counted",
     "After any sequence of increments and resets the reported count of each message kind equals the number of times that kind was counted since the last reset, and kinds not counted since then are absent from the report.",
     ["histories"], "every sequence of counting operations and keys", "Tests use two or three keys once each.",
     ["include/novatel_edie/decoders/common/message_counts_tracker.hpp"], [("counts map", "include/novatel_edie/decoders/common/message_counts_tracker.hpp")],
     TV, "Histories over colliding and near-equal keys.")
prop("F01", "Framing reports exactly the valid messages of the byte stream",
     "For every byte stream the framer returns, in order and unaltered, exactly the messages a left-to-right reading of the stream contains (sync, header, announced length or terminator, correct checksum), and hands back every other byte once, in order, as unknown. Nothing is lost, duplicated, altered or reported as a message with a wrong checksum.",
     ["inputs", "histories"], "every byte stream: concatenations of intact, truncated, corrupted and nested messages of all formats and arbitrary bytes", "Tests feed one message at a time; the interplay of rejected candidates, nested sync bytes and following messages is unbounded.",
     [OS + "framer.cpp", OI + "framer.hpp", I + "framer.hpp"], [("Framer::GetFrame state machine", OS + "framer.cpp"), ("checksum comparison", OS + "framer.cpp")],
     GEN, "Exhaustive over toy alphabets for the specification; thousands of spec-generated and random streams for the code.", state=[("buffered bytes and framer state", "the unconsumed stream suffix", OS + "framer.cpp")])
prop("F02", "Framing does not depend on how the bytes arrive",
     "The sequence of messages and unknown bytes reported for a stream is the same however the stream is cut into writes and whenever the framer is asked for a message, up to how consecutive unknown bytes are grouped. It does not depend on what the caller's metadata held before the call.",
     ["schedules", "inputs", "histories"], "every way of cutting a stream into writes and interleaving them with reads", "Tests cut a few messages at a few places with fresh metadata.",
     [OS + "framer.cpp", S + "framer.cpp"], [("INCOMPLETE with retained state", OS + "framer.cpp"), ("ASCII CRC and CRLF look-ahead", OS + "framer.cpp")],
     GEN, "Every single cut of each kind of frame, pairs of cuts at landmarks, byte-by-byte delivery.")
prop("F03", "Framing respects every buffer bound and loses nothing when short of room",
     "For every size of the caller's buffer and of the internal one, no call writes outside the bytes the caller offered; when a message does not fit this is reported and the message is still obtained by a later call with enough room. Writes are accepted whole or refused whole, the reported free space is exact, and flushing hands back the pending bytes, oldest first.",
     ["inputs", "configurations", "histories"], "every buffer size, message and history", "Tests always offer more room than needed, except in a couple of buffer-full cases.",
     [OS + "framer.cpp", S + "framer.cpp", I + "framer.hpp"], [("BUFFER_FULL checks", OS + "framer.cpp"), ("HandleUnknownBytes", I + "framer.hpp")],
     GEN, "Every caller-buffer size for a frame of each kind, small internal capacities, guard bytes around the caller's buffer.")
prop("F04", "Framing options and length limits are honoured exactly",
     "Payload-only framing returns exactly the body of a binary message, JSON objects are framed only when asked for, unknown bytes are copied out only when asked for, and the limits on message length separate accepted from rejected messages exactly. The reported format, length and response flag always describe the bytes returned.",
     ["configurations", "inputs"], "every combination and change of options, messages at and around every limit", "Tests set one option at a time and never approach the limits.",
     [OS + "framer.cpp", I + "framer.hpp", OI + "common.hpp"], [("bMyPayloadOnly / bMyFrameJson / bMyReportUnknownBytes", I + "framer.hpp")],
     GEN, "All option combinations, options changed mid-history, lengths around 11, 256 and 32768.")
prop("F05", "Each single-format framer reports exactly the messages of its format",
     "Each framer dedicated to one format returns exactly the valid messages of that format in the stream, in order and unaltered, and hands back everything else once, in order, as unknown, for every way the stream is cut.",
     ["inputs", "schedules", "histories"], "every stream and every cut, for each of the five framers", "Tests feed single messages; no test mixes formats or nests candidates.",
     [OS + "framer_ascii.cpp", OS + "framer_ascii_short.cpp", OS + "framer_binary.cpp", OS + "framer_binary_short.cpp", OS + "framer_abb_ascii.cpp", OI + "framer_ascii_base.hpp", OI + "framer_binary_base.hpp", S + "framer.cpp"],
     [("FindSync/FindFrameEnd/Validate", S + "framer.cpp")], GEN, "As F01/F02 for the five dialects, including the maximum length.")
prop("F06", "A framer manager merges its framers without losing or inventing bytes",
     "With any set of framers over one buffer, the manager returns at every point the message one of them finds there, attributed to that framer and with its format, hands back as unknown only bytes that none of them can still use, and conserves the stream.",
     ["configurations", "inputs", "schedules"], "every set and order of registered framers, every stream and cut", "Tests register one or two framers and feed single messages.",
     [S + "framer_manager.cpp", I + "framer_manager.hpp"], [("arbitration loop", S + "framer_manager.cpp"), ("ResetAllFramerStates", S + "framer_manager.cpp")],
     GEN, "Six framer sets, spec-generated and random streams.")

exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
have = [p for p in P if p["reason"] is None and os.path.exists(os.path.join(V, "checks", p["id"] + ".py"))]
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in have],
     "not_applicable": [{"property": p["id"], "reason": p["reason"] or "The check for this property has not been built."} for p in P if p not in have],
     "notes": "No hooks: the specifications bind to the public API. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(have), "claimed")
