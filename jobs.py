"""The harness runs of every property: harness, parameters, tier, stated bound."""
import os


ASSUMPTIONS = [
    "the LLVM IR rustc emits (release-like profile with overflow checks and debug assertions, no vectorisation) means what the engine implements; sampled paths are replayed on machine code in every run",
    "features: caching-sha2-password, serde; without tcpstream and time (the stream and the timer are the harness's)",
    "memory allocation succeeds; randomness (getrandom) is arbitrary but fixed to the engine's stub where stated",
    "z3 5.3.2 and the engine's rewriting are correct (differential selftest at setup)",
]
Q, T = "quick", "thorough"
PROPS = {}


def prop(id, outside="", budget=None, assumptions=()):
    PROPS[id] = {"jobs": [], "outside": outside, "budget": budget or {}, "assumptions": list(assumptions)}
    return PROPS[id]["jobs"]


def J(jobs, h, ps, tiers=(Q, T), b="", **k):
    """One job per parameter tuple."""
    if isinstance(tiers, str):
        tiers = (tiers,)
    for p in ps:
        p = p if isinstance(p, tuple) else (p,)
        k2 = dict(k)
        k2.setdefault("covers", [])
        jobs.append(dict(h=h, p=p, tiers=tiers, b=b.format(*p), **k2))


j = prop("C01", "more than 3 symbolic splits; commands of 256 packets and more (4 GB), so the wrap of the sequence number of outgoing packets; bytes of large payloads away from packet borders are concrete")
J(j, "h_frame_text", [(n, 0, c) for n in range(0, 7) for c in range(3)], b="text of {0} arbitrary ASCII bytes, command {2}", covers=["text command framed"])
J(j, "h_frame_text", [(n, 1, c) for n in range(0, 4) for c in range(3)], b="text of {0} bytes, any of 3 short writes, 2 pendings", covers=["text command framed"])
J(j, "h_frame_text", [(6, 1, c) for c in range(3)], T, b="text of {0} bytes, any of 3 short writes, 2 pendings", covers=["text command framed"])
J(j, "h_frame_large", [(d, c, k) for d in range(0, 5) for c in range(3) for k in (1, 2)], b="payload of {2}*(2^24-1)+{0}-2 bytes, command {1}, any bytes at the packet borders", covers=["large command framed"])
J(j, "h_frame_quit", [()], b="disconnect, any of 4 short writes, 3 pendings", covers=["quit framed"])
J(j, "h_frame_execute", [(2, 1), (1, 2)], b="execute with a string of 2 bytes, {0} short writes, {1} pendings", covers=["execute framed"])
J(j, "h_frame_execute", [(3, 2)], T, b="execute with a string of 2 bytes, {0} short writes, {1} pendings", covers=["execute framed"])
J(j, "h_flush", [(w, s, q) for w in range(7) for (s, q) in ((2, 1), (1, 0), (0, 2)) if not (w == 5 and s == 2)] + [(5, 1, 1)], b="what {0} (login, login with a switch, query, prepare, execute, long data, quit) sends to a stream that holds it back until flushed, {1} short writes, {2} pendings", covers=["flushed"])

j = prop("C02", "more than 3 splits; bytes of large payloads away from packet borders are concrete; payloads of more than 3 packets")
J(j, "h_read_split", [(k, s, p, 1, e) for k in range(4) for (s, p) in ((1, 1), (2, 0), (0, 2)) for e in (0, 1)], b="response {0}, any {1} short reads and {2} pendings (last parameter 1: EOF packets)", covers=["split response read"])
J(j, "h_read_split", [(k, s, p, 1, e) for k in range(4) for (s, p) in ((2, 1), (3, 0), (1, 2), (0, 4)) for e in (0, 1)], T, b="response {0}, any {1} short reads and {2} pendings", covers=["split response read"])
J(j, "h_read_split", [(k, 0, p, 2, e) for k in range(4) for p in (0, 1) for e in (0, 1)], b="response {0} byte by byte, {2} pendings", covers=["split response read"])
J(j, "h_read_seq", [(k, e) for k in range(3) for e in (0, 1)], b="any wrong sequence number at any packet of response {0}", covers=["wrong sequence number"])
J(j, "h_read_eof", [(k, e, m) for k in range(3) for e in (0, 1) for m in (0, 2)], b="end of the stream at any byte of response {0} (read mode {2})", covers=["stream ended"])
J(j, "h_read_big", [(d, 1, 0, e) for d in (0, 6, 7, 8, 9, 10) for e in (0, 1)] + [(8, 2, 0, 0), (9, 2, 0, 0)], b="row of {1}*(2^24-1)+{0}-8 bytes, any bytes at the packet borders", covers=["big row read"])
J(j, "h_read_big", [(d, 1, 0, e, 1) for d in (8, 9) for e in (0, 1)] + [(8, 2, 0, 0, 1)], b="row of {1}*(2^24-1)+{0}-8 bytes, any wrong sequence number at any of its packets", covers=["wrong sequence number"])
J(j, "h_read_big", [(d, k, 3, e) for d in (7, 8, 9) for k in (1, 2, 3) for e in (0, 1)], T, b="row of {1}*(2^24-1)+{0}-8 bytes, one read of one byte anywhere", covers=["big row read"], time=300)
J(j, "h_read_wrap", [300, 520], b="{0} rows, any sequence number at rows 254, 255 and the last", covers=["sequence numbers wrap", "wrapped mismatch"])

j = prop("C16", "strings of more characters (the escaping is per character)")
J(j, "h_string_escape", [(0, 1), (1, 0), (2, 0)], b="every string of {0} Unicode characters", covers=["string escaped"])
J(j, "h_string_escape", [(3, 1)], b="every string of {0} ASCII characters", covers=["string escaped"])
J(j, "h_string_escape", [(2, 0, 7, 1), (2, 1, 62, 0), (2, 1, 63, 64), (1, 0, 255, 300), (1, 0, 4100, 0)], b="every string of {0} Unicode characters behind {2} and before {3} others", covers=["string escaped"])
J(j, "h_string_escape", [(3, 0)], b="every string of {0} Unicode characters", covers=["string escaped"], time=120)
J(j, "h_string_escape", [(4, 1), (4, 0), (1, 0, 70000, 9)], T, b="every string of {0} characters (parameters: ASCII 1, characters before, behind)", covers=["string escaped"], time=400)

j = prop("C17", "identifiers of more characters")
J(j, "h_ident_escape", [(0, 1), (1, 0), (2, 0), (3, 1)], b="every identifier of {0} characters (second parameter 1: ASCII)", covers=["identifier escaped"])
J(j, "h_unquoted", [(0, 1), (1, 0), (2, 0), (3, 1)], b="every identifier of {0} characters (second parameter 1: ASCII)", covers=["unquoted identifier"])
for h, c in (("h_ident_escape", "identifier escaped"), ("h_unquoted", "unquoted identifier")):
    J(j, h, [(2, 0, 7, 0), (2, 0, 62, 2), (2, 0, 64, 0), (1, 0, 255, 255), (2, 1, 300, 0)], b="every identifier of {0} Unicode characters behind {2} and before {3} others", covers=[c])
J(j, "h_unquoted", [(3, 0)], b="every identifier of {0} Unicode characters", covers=["unquoted identifier"], time=120)
J(j, "h_ident_escape", [(3, 0), (4, 1)], T, b="every identifier of {0} characters (second parameter 1: ASCII)")
J(j, "h_unquoted", [(4, 0), (4, 1)], T, b="every identifier of {0} characters (second parameter 1: ASCII)", time=300)

j = prop("C19", "longer byte strings and texts")
J(j, "h_hex_enc", [0, 1, 2, 3], b="every string of {0} bytes", covers=["hex roundtrip"])
J(j, "h_hex_enc", [(2, 20, 0), (2, 0, 30), (1, 255, 0), (1, 300, 300)], b="every string of {0} bytes behind {1} and before {2} others", covers=["hex roundtrip"])
J(j, "h_hex_enc", [4, 5], b="every string of {0} bytes", time=120)
J(j, "h_hex_dec", [(n, m) for n in range(0, 5) for m in (0, 1)], b="every text of {0} bytes")
J(j, "h_hex_dec", [(4, 0, 16), (4, 1, 60), (3, 0, 251), (4, 1, 600), (3, 1, 60)], b="every text of {0} bytes with {2} hex digits behind them")
J(j, "h_hex_dec", [(n, m) for n in (5, 6) for m in (0, 1)], b="every text of {0} bytes", time=120)
J(j, "h_hex_dec", [(n, 2) for n in range(0, 4)], b="every text of {0} ASCII bytes and one multi-byte character")
J(j, "h_hex_dec", [(n, m) for n in (7, 8) for m in (0, 1)], T, b="every text of {0} bytes")
J(j, "h_hex_serde", [0, 1, 2], b="every string of {0} bytes", covers=["hex serde"])
J(j, "h_hex_serde", [3], T, b="every string of {0} bytes")

j = prop("C30", "longer lists (the check is pairwise over neighbours)")
J(j, "h_version", [()], b="all pairs of versions", covers=["versions compared"])
J(j, "h_ordered", [0, 1, 2, 3], b="every list of {0} versions")
J(j, "h_ordered", [4, 5], T, b="every list of {0} versions")

j = prop("C12", "longer strings than the stated ones; more columns")
J(j, "h_bin_one", [(0, 0), (1, 0), (2, 1)], b="one column of any of 33 type codes, any flags, any null bit, any value; strings of {0} bytes", covers=["binary null", "binary value", "binary error"])
J(j, "h_bin_one", [(4, 0), (8, 1), (16, 0)], T, b="one column of any of 33 type codes, any flags; strings of {0} bytes")
J(j, "h_bin_many", [(1, 0), (5, 0), (6, 0), (7, 0), (14, 0), (15, 0), (3, 1), (4, 1)], b="{0} columns (second parameter 1: mixed types), any null bitmap (beyond 8 columns: any bits at the byte boundaries), any values", covers=["binary row"])
J(j, "h_bin_many", [(8, 0), (22, 0), (23, 0), (5, 1), (6, 1)], T, b="{0} columns, any null bitmap, any values")
J(j, "h_bin_short", [(1, 0), (2, 1)], b="rows of {0} columns (second parameter 0: any types, 1: one type of each shape) cut anywhere", covers=["binary row cut"])
J(j, "h_bin_short", [(2, 0), (3, 1)], T, b="rows of {0} columns cut anywhere")

j = prop("C13", "longer texts; floating point texts other than the listed ones")
INTS = [(1, 3), (2, 5), (3, 10), (8, 20)]
for ty, l in INTS:
    J(j, "h_text_int", [(n, ty, u, 0) for n in (0, 1, 2, 3, min(l, 4)) for u in (0, 1)], b="type {1}: every text of {0} bytes (third parameter: unsigned)")
    J(j, "h_text_int", [(n, ty, u, 1) for n in range(4, l + 3) for u in (0, 1)], b="type {1}: every text of {0} digits or sign and digits", covers=[])
J(j, "h_text_int", [(2, 9, 0, 0), (3, 13, 1, 0), (4, 13, 0, 0), (10, 9, 0, 1), (10, 9, 1, 1)], b="type {1}: every text of {0} bytes")
J(j, "h_text_int", [(n, ty, u, 0) for n in (5, 6, 7, 8) for ty in (1, 2, 3, 8) for u in (0, 1)], T, b="type {1}: every text of {0} bytes")
J(j, "h_text_date", [0, 9, 10, 11], b="every DATE text of {0} bytes")
J(j, "h_text_time", [(8, 2, 0), (9, 3, 0), (9, 2, 1), (10, 2, 0), (11, 2, 0), (12, 2, 0), (13, 2, 1), (14, 3, 0), (15, 2, 0), (16, 2, 0), (10, 3, 1), (17, 3, 1), (7, 1, 0)], b="every TIME text of {0} bytes with {1} hour digits")
J(j, "h_text_datetime", [(n, ty) for n in (10, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27) for ty in (7, 12)], b="every DATETIME or TIMESTAMP text of {0} bytes")
J(j, "h_text_bytes", [(1, 0), (1, 1), (1, 3), (2, 1)], b="{0} columns of any string type, {1} bytes each or NULL, any length form", covers=["text row"])
J(j, "h_text_bytes", [(2, 2), (3, 0), (3, 1), (1, 8)], T, b="{0} columns of any string type, {1} bytes each or NULL")
J(j, "h_text_short", [()], b="cut rows and types without a text form", covers=["text row cut", "text type refused"])
J(j, "h_text_float", [()], b="a table of float texts (enumerated, not symbolic)", covers=["text floats"])

j = prop("C14", "packets of more bytes")
J(j, "h_ok_cut", [()], b="every cut of OK packets with integers in any form", covers=["ok packet cut"])
J(j, "h_lestr", [(pl, f, h) for pl in range(3) for f in range(4) for h in (0, 1, 3)], b="any announced length in form {1}, {2} bytes there, place {0}")
J(j, "h_count", [()], b="column counts in each form", covers=["count read", "count skipped"])

j = prop("C20", "longer messages")
J(j, "h_ok", [(c, m) for c in range(3) for m in (0, 1, 2, 4)], b="any OK packet with a message of {1}-1 bytes, command {0}", covers=["ok packet"])
J(j, "h_end", [(e, m, bn) for e in (0, 1) for m in (0, 2) for bn in (0, 1)], b="any closing packet (first parameter 1: EOF packet), message {1}-1 bytes, binary {2}", covers=["closing packet"])
J(j, "h_err", [(m, pl) for m in (0, 2) for pl in range(6)], b="any code, state and printable message of {0} bytes at place {1}", covers=["server error"])
J(j, "h_ok", [(c, 3, 1, 0) for c in range(3)] + [(0, 1, 0, 250), (0, 1, 0, 251), (0, 2, 1, 300), (1, 2, 1, 700), (2, 2, 0, 65536)], b="any OK packet with a message of {1}-1 characters (third parameter 1: any Unicode) before {3} others, command {0}", covers=["ok packet"])
J(j, "h_end", [(0, 2, bn, w, u, p) for bn in (0, 1) for (w, u, p) in ((1, 0, 0), (0, 1, 300), (1, 1, 0))] + [(0, 3, 0, 0, 1, 0)], b="any closing packet, message of {1}-1 characters (fifth parameter 1: any Unicode) before {5} others, binary {2}, skipped integers of any form: {3}", covers=["closing packet"])
J(j, "h_err", [(m, pl, u, p) for pl in range(6) for (m, u, p) in ((6, 0, 0), (3, 0, 300), (2, 1, 0), (1, 1, 70))], b="any code, state and printable message of {0} characters (third parameter 1: beyond ASCII) before {3} others at place {1}", covers=["server error"])
J(j, "h_ok", [(c, 4, 1, 0) for c in range(3)] + [(c, 2, 1, 70000) for c in range(3)], T, b="any OK packet with a message of {1}-1 Unicode characters before {3} others, command {0}", covers=["ok packet"], time=300)
J(j, "h_err", [(12, pl) for pl in range(6)], T, b="any code, state and printable message of {0} bytes at place {1}")

j = prop("C21", "symbolic names longer than stated; long names are mostly concrete")
J(j, "h_columns", [(1, 1), (1, 3), (2, 1), (2, 2), (3, 1)], b="{0} columns, every name of {1} ASCII bytes, any type and flags", covers=["columns"])
J(j, "h_long_name", [(n, w) for n in (250, 251, 300, 65535, 65536, 70000) for w in range(5)], b="name {1} of {0} bytes", covers=["long name"])
J(j, "h_bad_column", [0, 1, 2, 3, 4], b="malformed definition kind {0}")

j = prop("C03", "histories of more calls than stated; values of the rows are fixed; at most 2 rows per result; the stream splits nothing (C02)")
J(j, "h_history", [(2, e, 0, 0) for e in (0, 1)], b="any history of {0} of 25 kinds of calls", covers=["history"])
J(j, "h_history", [(3, e, f, 0) for e in (0, 1) for f in range(1, 26)], b="any history of {0} of 25 kinds of calls, the first fixed (all 25 run)", covers=["history"])
J(j, "h_history", [(4, e, f, 0) for e in (0, 1) for f in range(1, 26)], T, b="any history of {0} of 25 kinds of calls, the first fixed (all 25 run)", covers=["history"], time=600)

j = prop("C22", "more rows (each is read by the same code); rows of one column")
J(j, "h_result_set", [(r, w, bn, e) for r in range(4) for w in range(6) for bn in (0, 1) for e in (0, 1)], b="{0} rows of any content read in way {1}, binary {2}, no EOF packets {3}", covers=["result set read"])
J(j, "h_read_big", [(d, 1, 0, e) for d in (18, 19) for e in (0, 1)], b="a row that starts like a closing packet (a value of more than 2^24 bytes), of {1}*(2^24-1)+{0}-8 bytes", covers=["big row read"])
J(j, "h_result_set", [(r, w, bn, e) for r in (4, 6) for w in range(6) for bn in (0, 1) for e in (0, 1)], T, b="{0} rows of any content read in way {1}, binary {2}, no EOF packets {3}", covers=["result set read"])
J(j, "h_no_result_set", [0, 1, 2, 3], b="a response without result set, read in way {0}", covers=["no result set"])

SEQ = "any sequence of up to 5 of 13 kinds of server messages, forced plugin {1} (0: none), secure transport {2}, "
FEW = [(f, s) for f in range(4) for s in (0, 1) if (f, s) not in ((0, 0), (2, 0))]
ALL = [(f, s) for f in range(4) for s in (0, 1)]
j = prop("C04", "passwords of more bytes; more than 5 messages after the login packet")
J(j, "h_login", [(4, f, s, n, 0) for (f, s) in ALL for n in (0, 3)], b=SEQ + "a password of {3} bytes", covers=["switch refused"])
J(j, "h_login", [(4, f, s, n, 1) for (f, s) in FEW for n in (1, 4)], b=SEQ + "any password of {3} bytes, any nonces", covers=["switch refused"])
J(j, "h_login", [(4, f, 0, n, 1) for f in (0, 2) for n in (1, 4)], T, b=SEQ + "any password of {3} bytes, any nonces", time=600)
J(j, "h_login", [(4, f, s, n, 1) for (f, s) in FEW for n in (8, 16)], T, b=SEQ + "any password of {3} bytes, any nonces", time=600)

j = prop("C05", "more than 5 messages after the login packet; error texts longer than stated")
J(j, "h_login", [(5, f, s, 3, 0) for (f, s) in ALL], b=SEQ + "a password of {3} bytes", covers=["accepted", "refused"])
J(j, "h_login", [(5, f, s, 2, 1) for (f, s) in FEW], b=SEQ + "any password of {3} bytes, any nonces", covers=["accepted", "refused"])
J(j, "h_login", [(5, f, 0, 2, 1) for f in (0, 2)], T, b=SEQ + "any password of {3} bytes, any nonces", covers=["accepted", "refused"], time=600)
J(j, "h_refused", [(k, n) for k in (0, 1) for n in (0, 1, 3)], b="an ERR packet instead of the greeting, any code, any message of {1} bytes (first parameter 1: no SQL state)", covers=["refused"])
J(j, "h_refused", [(k, n) for k in (0, 1) for n in (6, 10)], T, b="an ERR packet instead of the greeting, any code, any message of {1} bytes", covers=["refused"])
J(j, "h_settings", [(5, 0)], b="an error instead of the packet limit", covers=["settings"])

j = prop("C06", "arbitrary packets longer than stated; two arbitrary packets in one login (except a switch followed by one); RSA keys of arbitrary numbers beyond 4 octets", {T: 700})
J(j, "h_wild_greeting", [(0, n) for n in range(6)], b="any packet of {1} bytes as greeting")
J(j, "h_wild_greeting", [(1, 1, 0), (1, 3, 1), (1, 4, 1), (1, 5, 1), (2, 0), (2, 13), (2, 20), (2, 34), (3, 0), (4, 0), (5, 3), (5, 4), (6, 6), (6, 8), (7, 0)], b="greeting of shape {0}, any {1} bytes in it")
J(j, "h_wild_greeting", [(2, 3), (0, 6), (6, 10)], T, b="greeting of shape {0}, any {1} bytes in it", time=300)
WILD = [(0, 0), (0, 1), (0, 4), (1, 3), (1, 21), (2, 3), (3, 2), (3, 10), (4, 3), (5, 6), (6, 4), (7, 4), (8, 3)]
J(j, "h_wild_auth", [(0, pl) + w for pl in range(6) for w in WILD], b="any packets of shape {2} with {3} arbitrary bytes at place {1} of the authentication")
J(j, "h_wild_auth", [(f, pl) + w for f in (1, 2) for pl in range(6) for w in WILD], T, b="the same with a forced plugin")
J(j, "h_wild_auth", [(0, 3, 9, n) for n in (1, 2)], b="a key of any {3} octets and any header byte")
J(j, "h_wild_auth", [(0, 3, 9, 4), (0, 0, 0, 8), (0, 2, 0, 8), (0, 3, 7, 8)], T, b="shape {2} with {3} arbitrary bytes at place {1}", time=300)
J(j, "h_settings", [(0, n) for n in (0, 1, 3)], b="any text of {1} bytes as packet limit", covers=["settings"])
J(j, "h_settings", [(2, 0), (3, 0), (4, 0)] + [(6, n) for n in range(5)], b="packet limit answer of shape {0}, {1} arbitrary bytes", covers=["settings"])

j = prop("C08", "passwords and nonces longer than stated; SHA-1 and SHA-256 are uninterpreted functions")
J(j, "h_login", [(8, f, s, 3, 1) for (f, s) in ALL], b=SEQ + "any password of {3} bytes, any nonces", covers=["responses", "switched"])
J(j, "h_login", [(8, f, s, n, 1) for (f, s) in FEW for n in (1, 8, 33)], T, b=SEQ + "any password of {3} bytes, any nonces", covers=["responses", "switched"], time=600)
CH = [(pl, pw, nl, z, sm) for pl in range(3) for pw in (0, 1, 5) for nl in (0, 8, 20) for z in (0, 1) for sm in (0, 1)]
J(j, "h_challenge", CH, b="plugin {0}, any password of {1} bytes, a switch with any nonce of {2} bytes (terminated: {3}, to the plugin in use: {4})", covers=["switched"])
J(j, "h_challenge", [(pl, pw, nl, z, sm) for pl in range(3) for pw in (20, 64) for nl in (19, 21, 32) for z in (0, 1) for sm in (0, 1)], T, b="plugin {0}, any password of {1} bytes, a switch with any nonce of {2} bytes", covers=["switched"])

j = prop("C09", "RSA keys other than even moduli with exponent 1 (where the exponentiation is the identity); SHA-1 is an uninterpreted function; moduli above 300 octets")
J(j, "h_login", [(9, f, s, 3, 1) for (f, s) in ALL], b=SEQ + "any password of {3} bytes, any nonces")
J(j, "h_login", [(9, 2, 0, 22, 0), (9, 2, 1, 22, 0)], b=SEQ + "a password of {3} bytes")
FA = [(o, t, p, h, n) for (o, t) in ((64, 0xC6), (64, 1), (65, 0x7F)) for p in (1, 3) for (h, n) in ((0, 20), (1, 20), (2, 20), (2, 8), (3, 20))]
J(j, "h_full_auth", FA, b="key of {0} octets (top byte {1}), any password of {2} bytes, any nonces (way {3}, switch nonce {4} bytes)", covers=[])
J(j, "h_full_auth", [(128, 0xC6, p, h, n) for p in (21, 22, 85, 86) for (h, n) in ((0, 20), (1, 20))] + [(64, 0xC6, p, 1, 20) for p in (21, 22, 23)] + [(42, 0xC6, 0, 1, 20), (41, 0xC6, 0, 1, 20)], T, b="key of {0} octets (top byte {1}), any password of {2} bytes, any nonces", covers=[], time=300)

j = prop("C10", "user, database and option values longer than stated; the tcp stream's own negotiation")
J(j, "h_response", [(u, d, v, f) for (u, d) in ((0, 0), (1, 1), (2, 2), (3, 0)) for v in range(5) for f in (0, 2)], b="user of {0} bytes, database of {1}-1 bytes, version form {2}, forced plugin {3}; any capabilities and status", covers=["logged in"])
J(j, "h_response", [(u, d, v, f) for (u, d) in ((5, 4), (8, 3)) for v in range(4) for f in (0, 1, 2, 3)], T, b="user of {0} bytes, database of {1}-1 bytes, version form {2}, forced plugin {3}", covers=["logged in"])
J(j, "h_settings", [(1, n) for n in (0, 1, 2, 5, 20)], b="any packet limit of {1} digits", covers=["settings"])

j = prop("C33", "texts that are odd but parsable (non-minimal lengths, data behind the key, negative or empty integers) may be accepted or not; bytes in the middle of long moduli are fixed")
J(j, "h_key", [(m, e, p, l, k, 0) for (m, e) in ((0, 1), (1, 1), (4, 3)) for p in (0, 1) for (l, k) in ((64, 0), (4, 1), (1, 4), (76, 2), (5, 3))], b="any modulus of {0} octets, exponent of {1}, PKCS#8: {2}, lines of {3}, line break kind {4}", covers=["key"])
J(j, "h_key", [(m, 3, p, 64, k, 1) for (m, p, k) in ((64, 0, 0), (125, 0, 1), (128, 1, 0), (250, 1, 1), (256, 0, 0))], b="modulus of {0} octets, exponent of {1}, PKCS#8: {2}", covers=["key"])
J(j, "h_key", [(m, 3, p, 64, 0, 1) for m in (126, 127, 129, 255, 257, 384, 512) for p in (0, 1)] + [(8, 3, p, 64, 0, 0) for p in (0, 1)], T, b="modulus of {0} octets, exponent of {1}, PKCS#8: {2}", covers=["key"])
J(j, "h_key_bad", [(p, k) for p in (0, 1) for k in range(5)], b="a key (PKCS#8: {0}) cut anywhere (0), any {1} bytes one after the other anywhere", covers=["rejected"])
J(j, "h_key_bad", [(p, 100 + w) for p in (0, 1) for w in (1, 2, 3, 4, 7, 8)], b="a key (PKCS#8: {0}), one element's length any number in the long form ({1}-100 octets)", covers=["rejected"])
J(j, "h_key_text", [(0, n) for n in (0, 1, 5, 9)] + [(1, n) for n in (0, 1, 4, 5)] + [(k, 0) for k in range(2, 7)], b="texts of kind {0}, any {1} bytes", covers=["rejected"])

j = prop("C07", "arbitrary packets longer than stated; several arbitrary packets at once (except behind a statement response); streams whose packet headers announce lengths other than 0, 1, 7, 300, 2^24-2 and 2^24-1")
WA = "call {0}, no EOF packets {1}: answer of shape {2} with any {3} bytes in it"
READS = (0, 4, 5, 6)
J(j, "h_wild_answer", [(op, e, w, k, 0) for op in range(7) for e in (0, 1) for (w, k) in ((0, 0), (0, 1), (0, 4), (0, 7), (1, 3), (1, 6), (9, 3))], b=WA, covers=["answered"])
J(j, "h_wild_answer", [(op, e, w, k, 0) for op in READS for e in (0, 1) for (w, k) in ((2, 0), (2, 5), (2, 8), (3, 2), (4, 0), (4, 1), (4, 2), (4, 4), (6, 0), (6, 4), (6, 8), (7, 1), (7, 2), (12, 1), (12, 3), (13, 3))], b=WA, covers=["answered"])
J(j, "h_wild_answer", [(4, e, 5, k, 0) for e in (0, 1) for k in (0, 1, 4, 5, 8, 9, 12, 13)], b=WA, covers=["answered"])
J(j, "h_wild_answer", [(op, e, w, k, 0) for op in (2, 3, 4) for e in (0, 1) for (w, k) in ((10, 0), (10, 4), (11, 6), (11, 8), (11, 11))], b=WA, covers=["answered"])
J(j, "h_wild_answer", [(op, e, 14, k, 4) for op in range(7) for e in (0, 1) for k in (0, 1)], b=WA + "; shape 14: one packet of a whole answer is cut anywhere", covers=["answered"])
J(j, "h_wild_answer", [(op, e, 17, k, 4) for op in range(7) for e in (0, 1) for k in (0, 3)], b=WA + "; shape 17: an ERR packet in place of one packet of a whole answer", covers=["answered"])
J(j, "h_wild_answer", [(op, 0, 15, k, t) for op in (0, 5) for t in (1, 2, 9, 11, 12, 13) for k in (1, 4, 5, 6, 7, 8, 9)], b=WA + "; shape 15: a row of one text of {3} bytes for a column of type number {4}", covers=["answered"])
J(j, "h_wild_answer", [(0, 0, 16, k, t) for (k, t) in ((0, 13), (0, 8), (1, 11), (2, 12), (3, 12), (4, 9), (5, 2), (6, 8), (6, 13), (1, 13), (1, 12), (2, 13), (5, 3), (5, 4), (4, 1), (5, 14), (3, 17))], b=WA + "; shape 16: text number {3} with any two bytes somewhere, cut anywhere, for a column of type number {4}", covers=["answered"])
J(j, "h_wild_answer", [(op, e, 14, k, 0) for op in range(7) for e in (0, 1) for k in (0, 1, 2)], T, b=WA, time=300)
J(j, "h_wild_answer", [(op, e, w, k, 0) for op in (0, 1, 2, 4) for e in (0, 1) for (w, k) in ((0, 8), (1, 8))], T, b=WA, time=300)
J(j, "h_wild_answer", [(op, e, w, k, 0) for op in (0, 4) for e in (0, 1) for (w, k) in ((2, 9), (4, 5), (4, 6), (7, 3), (12, 9), (5, 14), (5, 20))], T, b=WA, time=300)

j = prop("C11", "more parameters of any kind than stated; -0 times (the sign of a zero time is not told apart)")
EX = "{0} parameters of kinds {1} (0: any), strings of {2} bytes, any contents; {3}: execute, by references, query"
J(j, "h_exec", [(0, 0, 0, h) for h in range(3)] + [(1, 0, l, h) for l in (0, 1, 3) for h in range(3)] + [(2, 0, 1, h) for h in range(3)] + [(3, 100, 1, 0), (4, 100, 2, 2), (8, 101, 0, 0), (9, 101, 0, 1), (3, 0, 1, 0)], b=EX, covers=["executed"])
J(j, "h_exec", [(3, 0, 2, h) for h in (1, 2)] + [(6, 100, 1, 0), (12, 101, 0, 0)], T, b=EX, covers=["executed"], time=300)
J(j, "h_exec_many", [8, 9, 16, 17], b="{0} parameters of all kinds, any two of them NULL", covers=["executed"])
J(j, "h_exec_many", [24, 25], T, b="{0} parameters of all kinds, any two of them NULL", covers=["executed"], time=300)
J(j, "h_exec_long_text", [250, 251, 252, 65535, 65536, 65537, 70000], b="a text of {0} bytes, any at its ends and middle", covers=["executed"])

j = prop("C23", "more than 2 statements one after the other; numbers of parameters and columns other than the listed ones")
CM = [(p, cl, k, e) for (p, cl) in ((0, 0), (0, 2), (1, 0), (2, 3)) for k in (0, 1, 2, 3) for e in (0, 1)] + [(p, cl, k, e) for (p, cl, k) in ((256, 1, 0), (257, 300, 1), (2, 0, 258), (1, 256, 257), (300, 0, 44), (1, 513, 1)) for e in (0, 1)]
J(j, "h_count_mismatch", CM, b="{0} placeholders, {1} columns, first called with {2} values (no EOF packets: {3}), any id", covers=["executed"])
J(j, "h_count_mismatch", [(65535, 0, 0, 0), (65535, 65535, 65534, 1), (0, 65535, 1, 1)], T, b="{0} placeholders, {1} columns, first called with {2} values", covers=["executed"], max_steps=400000000, time=300)
J(j, "h_two_statements", [0, 1], b="two statements of up to 2 placeholders, any ids, each executed or queried (no EOF packets: {0})", covers=["executed"])

j = prop("C24", "sizes other than the listed ones; the middle of the large strings is fixed; whether a packet of exactly 2^24-1 bytes counts as one is left open")
LD = "layout {0}, a packet of 2^24-1+{1}-100 bytes (from 1000 on: {1}/1000 packets and the rest); any bytes at the chunks' borders, any values beside"
SIZES = [98, 99, 100, 101, 102, 103, 104, 105, 107, 110, 120, 2000, 2005, 2010, 2020]
J(j, "h_long_data", [(l, x) for l in range(6) for x in SIZES], b=LD)
J(j, "h_long_data", [(l, x, 1 + (l + x) % 2) for l in range(6) for x in SIZES if x != 100], b=LD + " (third parameter 1: by references, 2: a query)")
J(j, "h_long_data", [(l, x) for l in range(6) for x in list(range(90, 130)) + list(range(2000, 2040)) + [3000, 3010, 3020]], T, b=LD)

j = prop("C15", "floating point values (their text is the standard library's); byte strings longer than stated; dates and times outside the ranges of their types")
J(j, "h_show_int", [(k, bk, 0) for k in range(1, 9) for bk in (0, 1)], b="every integer of kind {0} (second parameter 1: and parsed back)", covers=["integer shown"])
J(j, "h_show_bytes", [0, 1, 2, 3, 8], b="every string of {0} bytes; NULL", covers=["bytes shown"])
J(j, "h_show_bytes", [16, 64, 256], b="every string of {0} bytes; NULL", covers=["bytes shown"])
J(j, "h_show_bytes", [32, 1000], T, b="every string of {0} bytes; NULL", covers=["bytes shown"])
J(j, "h_show_date", [(k, bk) for k in range(3) for bk in (0, 1) if (k, bk) != (1, 1)], b="every date (0), datetime (1), time (2) of the type's range: {0} (second parameter 1: and parsed back)", covers=["date shown"])
J(j, "h_show_date", [(1, 1)], T, b="every datetime, parsed back", covers=["date shown"])

j = prop("C18", "texts and byte strings longer than stated; booleans from negative numbers; leap seconds; spans of 2^48 s and more; floats from other numbers are only required to be refused for the wrong kinds")
J(j, "h_conv_num", list(range(15)), b="every value of kind {0} to every type of number", covers=["numbers converted"])
J(j, "h_conv_wrong", list(range(15)), b="every value of kind {0} to texts, bytes, dates, spans, options", covers=["wrong kinds"])
J(j, "h_conv_back", [0, 2, 5], b="every number, {0} bytes: to a value and back", covers=["survived"])
J(j, "h_conv_text", [0, 1, 2, 3, 4], b="every string of {0} bytes to text")
J(j, "h_conv_text", [5, 6], T, b="every string of {0} bytes to text")
J(j, "h_conv_date", [()], b="every date value", covers=["date", "no date"])
J(j, "h_conv_datetime", [0, 1], b="every date at a fixed time, every time of a fixed date: {0}", covers=["datetime", "no datetime"])
J(j, "h_conv_from_date", [0, 1], b="every chrono date (time) of the years -262000..262000: {0}", covers=["from date", "no value"])
J(j, "h_conv_time", [0, 1], b="every time value (second: valid parts, and back)", covers=["span"])
J(j, "h_conv_span", [20, 40, 48], b="every span below 2^{0} s to the nanosecond", covers=["span shown"])
J(j, "h_conv_big_span", [0, 1], b="spans of 2^32..2^36 days", covers=["big span"])
J(j, "h_conv_option", [()], b="options", covers=["options"])

j = prop("C25", "more pendings, splits and timer polls than stated; the stream's own connect and shutdown (no guard is claimed)")
J(j, "h_timeout_race", [3, 6], b="a future ready at any of {0} polls against a timer ready at any, any duration", covers=["in time", "timed out"])
J(j, "h_timeout_race", [20], T, b="a future ready at any of {0} polls against a timer ready at any, any duration", covers=["in time", "timed out"])
SL = "call {0}, any {1} pendings and {4} splits, timers fire at any of up to {2} polls, the answer cut anywhere: {3}; any timeout"
J(j, "h_slow", [(0, 2, 1, 0, 1), (1, 2, 1, 0, 0), (2, 2, 2, 0, 2), (3, 2, 2, 0, 1), (4, 2, 2, 0, 1), (5, 2, 2, 0, 1), (6, 3, 2, 0, 1), (7, 2, 2, 0, 0), (8, 3, 2, 0, 1)] + [(k, 2, 2, 0, 1) for k in range(9, 13)] + [(k, 1, 1, 1, 1) for k in range(9, 13)], b=SL, covers=["answered", "timed out"])
J(j, "h_slow", [(0, 1, 1, 1, 0), (1, 0, 1, 1, 1), (2, 0, 1, 1, 1), (3, 1, 1, 1, 1), (4, 1, 1, 1, 1), (6, 1, 1, 1, 0)], b=SL, covers=["answered", "timed out"])
J(j, "h_slow", [(0, 2, 1, 1, 1), (1, 1, 1, 1, 1), (2, 2, 2, 1, 1), (3, 2, 2, 1, 1), (4, 2, 2, 1, 1), (6, 1, 1, 1, 1), (0, 3, 3, 0, 2), (3, 3, 3, 0, 2), (6, 3, 3, 0, 2)], T, b=SL, covers=["answered", "timed out"], time=300)

j = prop("C26", "more than 3 threads, preemptions beyond those stated (each run explores every schedule with up to that many, under sequential consistency); pools larger than 2")
J(j, "h_buffers", [(4, 2), (5, 3)], b="histories of {0} steps of {1} users", covers=["buffers used"])
J(j, "h_buffers", [(6, 3), (6, 4), (7, 3)], T, b="histories of {0} steps of {1} users", covers=["buffers used"])
J(j, "h_things", [(6, 4), (7, 3)], b="histories of {0} steps of {1} users", covers=["things used"])
J(j, "h_things", [(8, 4), (9, 3)], T, b="histories of {0} steps of {1} users", covers=["things used"])
TH = "{0} threads, {1} rounds each, up to "
J(j, "h_things_threads", [(2, 1), (2, 2)], b=TH + "3 preemptions", covers=["threads used things"], no_native=True, preempts=3)
J(j, "h_things_threads", [(3, 1)], b=TH + "2 preemptions", covers=["threads used things"], no_native=True, preempts=2)
J(j, "h_things_threads", [(3, 1), (3, 2)], T, b=TH + "3 preemptions", covers=["threads used things"], no_native=True, preempts=3, time=300)
J(j, "h_things_threads", [(2, 1), (2, 2)], T, b=TH + "5 preemptions", covers=["threads used things"], no_native=True, preempts=5, time=300)

PO = "histories of {0} steps of {1} tasks, pool of {2}, up to {3} pending and {4} failing creations, cancellations anywhere"
PT = ["an item returned, one more asks", "an item returned, two more ask", "a creation is cancelled, one more asks", "a creation fails, one more asks", "three ask", "two come and go, one asks"]


SIZE_LABELS = ["an item has one user", "there are no more items than the pool's size", "items that were returned are used before new ones are made", "items are not lost", "the pool's settings are used"]
SERVE_LABELS = ["a creation is not polled after its end", "a failed creation is reported to the get that started it", "an error is the error of the get's own creation", "nobody waits while an item or a slot is there", "everyone is served at last"]


def pool_jobs(j, labels):
    J(j, "h_pool", [(5, 2, 1, 1, 1), (5, 3, 1, 1, 1), (5, 3, 2, 1, 1), (6, 3, 2, 2, 2)], b=PO, covers=["served", "history", "cancelled", "refused", "still waiting"], labels=labels)
    J(j, "h_pool", [(6, 4, 2, 1, 1), (6, 4, 3, 1, 1), (7, 3, 2, 2, 1), (8, 2, 1, 2, 2)], T, b=PO, covers=["served", "history", "cancelled", "refused"], time=300, labels=labels)
    for w, s, p in ((0, 1, 3), (0, 2, 3), (1, 1, 2), (2, 1, 3), (3, 1, 3), (4, 1, 2), (4, 2, 3), (5, 1, 2), (5, 2, 2)):
        J(j, "h_pool_threads", [(w, s)], b=PT[w] + f", pool of {{1}}, up to {p} preemptions", covers=["threads done"], no_native=True, preempts=p, labels=labels)
    for w, s, p in ((0, 1, 5), (0, 2, 5), (1, 1, 3), (2, 1, 5), (3, 1, 5), (4, 1, 3), (4, 2, 3), (5, 1, 3), (5, 2, 3)):
        J(j, "h_pool_threads", [(w, s)], T, b=PT[w] + f", pool of {{1}}, up to {p} preemptions", covers=["threads done"], no_native=True, preempts=p, time=400, labels=labels)


POUT = "more threads and preemptions than stated (each run explores every schedule with up to that many, under sequential consistency); pools larger than 3"
j = prop("C27", POUT)
pool_jobs(j, SIZE_LABELS)
j = prop("C28", POUT)
pool_jobs(j, SERVE_LABELS)

j = prop("C29", "more lists and migrations than stated; failures of the bookkeeping statements themselves (what is recorded is then up to the server); several migrators at once")
LAY = {0: "2 lists (2+1 migrations)", 1: "3 lists (1+2+1)", 2: "3 lists (1+1+0)", 3: "3 lists (2+2+1)", 4: "1 list (2)"}
CALL = ["up", "up_to_version", "down_to_version", "to_version"]
for lay in (0, 1, 2, 4):
    J(j, "h_migrate", [(lay, c, 0) for c in range(4)], b=LAY[lay] + ", any subset applied, any target version; call {1}", covers=["migrated"])
for lay in (0, 2, 4):
    J(j, "h_migrate", [(lay, c, 1) for c in range(4)], b=LAY[lay] + ", any subset applied, any target version, any one migration failing; call {1}", covers=["migrated", "migration failed"])
for lay in (1, 3):
    J(j, "h_migrate", [(lay, c, f) for c in range(4) for f in (0, 1)], T, b=LAY[lay] + ", any subset applied, any target version, any one migration failing ({2}); call {1}", covers=["migrated"], time=300)
J(j, "h_one_down", [(0, 0), (0, 1), (3, 1)], b="one_down till nothing is left, any subset applied", covers=["stepped down"])
J(j, "h_unknown_migration", [(lay, k) for lay in (0, 1, 4) for k in range(4) if (lay, k) != (1, 0)], b="lists {0}, any subset applied, and a row of an unknown migration (kind {1})", covers=["unknown migration"])
J(j, "h_versions", [()], b="any two versions", covers=["versions"])
J(j, "h_version_lists", [0, 1, 2, 3, 4], b="{0} lists of any versions", covers=["lists"])

j = prop("C31", "models other than the harness's (plain, optional and text fields, a flattened struct, references nested and repeated, keys that are not the database's, names that are keywords); what the derive macros generate is compiled from those models on every run")
MOD = {0: "plain model", 1: "model with its own key", 2: "model with a struct and a reference", 3: "two references to one table", 4: "two references, one nested", 5: "names that are keywords"}
for m in range(6):
    J(j, "h_insert", [(m, 0)], b=MOD[m] + ": any fields set to any values, any references", covers=["models sent"])
J(j, "h_insert", [(0, 1), (3, 1)], b="any fields set, any one statement failing (model {0})", covers=["models sent", "statement failed"])
J(j, "h_insert", [(2, 1), (4, 1)], T, b="any fields set, any one statement failing (model {0})", covers=["models sent", "statement failed"])
J(j, "h_insert_whole", [0, 1, 2, 3], b="whole models of any values (model {0})", covers=["models sent"])
J(j, "h_update", [(m, 0) for m in range(3)], b="any fields set to any values, any key (model {0})", covers=["models sent", "nothing to update"])
J(j, "h_update", [(0, 1), (1, 1), (2, 1)], b="any fields set, any one statement failing (model {0})", covers=["models sent", "statement failed"])

j = prop("C32", "models other than the harness's; result sets with two columns of one name outside of the nested models' aliases (which one is meant is open); orders of more than 5 columns other than rotations and their reverses")
J(j, "h_read_model", [(0, 0), (0, 1), (0, 2), (1, 0), (4, 0), (4, 1), (5, 0), (5, 1)], b="model {0}, its columns and {1} others in any order, any values, binary protocol", covers=["model read"])
J(j, "h_read_model", [(1, 1), (2, 0), (2, 1), (2, 3), (3, 0), (3, 3), (6, 0), (6, 2)], b="model {0}, its columns and {1} others in any rotation or its reverse, any values, binary protocol", covers=["model read"])
J(j, "h_read_model", [(0, 3), (4, 2), (5, 3)], T, b="model {0}, its columns and {1} others in any order, any values", covers=["model read"])
WR = ["one column missing", "one nested column under another alias", "text for a number, a number for text", "NULL for a field that is no option", "a number of another width"]
for w, c in enumerate(["missing", "other table", "wrong type", "null", "other width"]):
    J(j, "h_read_wrong", [w], b=WR[w], covers=[c])
J(j, "h_select_model", [0, 1, 2, 3, 4, 5], b="the generated select of model {0}", covers=["select"])

j = prop("C34", "more than two calls behind the interruption; more short reads and writes than stated; interruptions inside of commands of more than one packet; the stream's own buffering (an interrupted write is one the stream did not take)")
IB = "call {0} (tens 1: behind a result set that was not read to its end, 2: whose next row looks like packets; 6, 7: a result set with such a row) interrupted (how: {1}; 0 dropped, 1 timer, 2 stream error) at any of its waits, {2} short reads or writes, then calls {4} (digits), EOF packets {3}"
IC = ["interrupted", "not interrupted", "next call answered", "next call refused"]
J(j, "h_interrupt", [(k, h, s, e, (k + h + 3 * t + e) % 6 + 10 * ((2 * k + h + t) % 6)) for k in range(6) for h in range(3) for s in (0, 1) for e in (0, 1) for t in range(3 - 2 * (k == 5) * s)], b=IB, covers=IC)
J(j, "h_interrupt", [(10 + k, h, s, e, (k + h + 3 * e) % 6 + 10 * ((2 * k + h) % 6)) for k in range(6) for h in range(3) for s in (0, 1) for e in (0, 1)], b=IB, covers=IC)
J(j, "h_interrupt", [(k, h, 1, e, 10 * ((k + h + e) % 6)) for k in (6, 7, 20, 21, 22, 23, 24, 25) for h in range(3) for e in (0, 1)], b=IB, covers=IC)
J(j, "h_interrupt", [(k, h, 2, e, 10 * ((k + h + e) % 6)) for k in (6, 7, 20, 22, 23, 24) for h in range(3) for e in (0, 1)], T, b=IB, covers=IC, time=300)
J(j, "h_interrupt", [(k, h, 2, e, (k + h + e) % 6 + 10 * ((2 * k + h) % 6)) for k in (0, 2, 3) for h in range(3) for e in (0, 1)], b=IB, covers=IC, time=120)
J(j, "h_interrupt", [(k, h, 2, e, (k + h + e) % 6 + 10 * ((2 * k + h) % 6)) for k in (1, 4) for h in range(3) for e in (0, 1)], T, b=IB, covers=IC, time=300)
RB = "a row's future interrupted (how: {0}), {1} short reads, EOF packets {2}, the result set (1: with a row that looks like packets: {3}) used on and another call"
J(j, "h_interrupt_row", [(h, s, e, 0) for h in range(3) for s in (0, 1, 2, 3) for e in (0, 1)] + [(h, s, e, 1) for h in range(3) for s in (1, 2) for e in (0, 1)], b=RB, covers=["interrupted", "end", "next call answered"])
J(j, "h_interrupt_row", [(h, 4, e, 0) for h in range(3) for e in (0, 1)], T, b=RB, covers=["interrupted", "end", "next call answered"], time=300)

j = prop("C35", "pools of more than one connection (what a pool does with its items is C21 and C22, for pools of up to 3); more than 2 interruptions in a row; more short reads and writes than stated; connections that break while they lie in the pool (the call that finds out fails, then they are replaced)")
PB = "a pool's connection interrupted in call {0} (tens 1: behind a result set that was not read to its end) at any of its waits (how: {1}; 0 dropped, 1 timer, 2 stream error, 3 the server closes the stream anywhere in its answer), {2} short reads or writes, EOF packets {3}, who waits meanwhile: {4} (2: gave up, 3: two), then call {5}; {6} times"
PC = ["interrupted", "not interrupted", "next call answered"]
J(j, "h_pool_replaces", [(k + d, h, s, (k + h + w) % 2, w, (k + 2 * h + w) % 6, 1) for k in range(6) for d in (0, 10) for h in range(3) for s in (0, 1) for w in range(4)], b=PB, covers=PC)
J(j, "h_pool_replaces", [(k + d, 3, 0, e, (k + e + d // 10) % 4, (2 * k + e) % 6, 1) for k in (0, 1, 3, 4, 5) for d in (0, 10) for e in (0, 1)], b=PB, covers=PC)
J(j, "h_pool_replaces", [(k, h, 0, (k + h) % 2, w, (k + h + w) % 6, 2) for k in range(6) for h in range(3) for w in range(4)], b=PB, covers=PC)
J(j, "h_pool_replaces", [(k + d, h, 2, e, (k + h + e) % 4, (k + 2 * h) % 6, 1) for k in range(6) for d in (0, 10) for h in range(3) for e in (0, 1)], T, b=PB, covers=PC, time=300)
J(j, "h_pool_replaces", [(k, h, 1, e, (k + h + e) % 4, (k + 2 * h) % 6, 2) for k in range(6) for h in range(3) for e in (0, 1)], T, b=PB, covers=PC, time=300)

PROMOTED = {l.strip() for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "promoted.txt")) if l.startswith("C")}
for _c, _p in PROPS.items():
    for _j in _p["jobs"]:
        if " ".join([_c, _j["h"], *map(str, _j["p"])]) in PROMOTED:
            _j["tiers"] = (Q, T)
