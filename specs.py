"""The properties: what they say, where they live in the code, and which harnesses decide them."""
COMMON_ASSUME = [
    "Crypto is ideal: hash, HMAC and HKDF are injective functions of all their inputs; verification and decryption verdicts are arbitrary; key generation, random numbers and signing return fresh values.",
    "Harness build: message buffers of 448 bytes (messages up to 400), certificate chains up to 64 bytes, measurement records up to 48 bytes, 2 session slots; features hashed-transcript-data and mut-auth.",
    "The compiler's lowering from the LLVM IR of rustc (nightly-2022-11-21, overflow checks on, opt-level 2) to machine code, the executor in engine/, and Z3.",
]
TESTS = "The unit tests exercise "
P = {}


def prop(id, title, statement, over, text, why, files, mech, features, harness, bounds, outside, assumptions=(), state=()):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=list(state),
                 features=features, harness=harness, bounds=bounds, outside=outside, assumptions=list(assumptions) + COMMON_ASSUME)


def h(name, quick=((),), thorough=None, covers=(), depth=300, features=None):
    return dict(features=features, name=name, quick=[list(x) for x in quick], thorough=[list(x) for x in (thorough or quick)], covers=list(covers), depth=depth)


R = "spdmlib/src/responder/"
Q = "spdmlib/src/requester/"
C = "spdmlib/src/common/"
M = "spdmlib/src/message/"

OPS = (0x84, 0x81, 0x82, 0x83, 0xE0, 0xE1, 0xE3, 0xE4, 0xE5, 0xE6, 0xE7, 0xE8, 0xE9, 0xEA, 0xEB, 0xEC, 0xFE, 0xFF, 0x100)
prop("P05", "GET_VERSION restarts the connection completely",
     "A well-formed GET_VERSION with version 1.0 is answered, in every state, with the configured versions; it forgets everything negotiated, drops all transcripts in progress and terminates every session, and the new transcript A consists of exactly this exchange. Any other GET_VERSION gets one ERROR and leaves state, negotiated parameters, transcript and sessions as they were.",
     ["inputs", "histories", "configurations"], "every GET_VERSION message up to 6 bytes, in every connection state, with any configured versions, and with parameters negotiated, transcripts running and sessions open",
     TESTS + "one request in one state; leftovers of an earlier connection only show for particular histories.",
     [R + "version_rsp.rs", C + "mod.rs"], [("response and reset", R + "version_rsp.rs: handle_spdm_version"), ("reset of the context", C + "mod.rs: reset_context")],
     ["neg"], [h("h_version", covers=["VERSION", "refused"])],
     "GET_VERSION of 2 to 6 arbitrary bytes; all 6 connection states; all 27 version configurations; 3 negotiated versions; two sessions with an arbitrary id.",
     "Longer requests (trailing bytes are ignored by the code).")

prop("P06", "Responder capability negotiation accepts exactly the allowed requests",
     "GET_CAPABILITIES is accepted exactly if its version is one the responder advertised, it is complete, its flags are a combination DSP0274 allows and (1.2) its sizes are at least 42 and consistent. Then CAPABILITIES carries the configured values, the exchange joins transcript A and the peer's values are recorded; otherwise one ERROR is sent and state and transcript stay as they were.",
     ["inputs", "configurations"], "every request up to 22 bytes and every configured capability set, timing exponent and size",
     TESTS + "one flag combination; the rules relate 14 flags, the version and two sizes.",
     [R + "capability_rsp.rs", M + "capability.rs"], [("handler", R + "capability_rsp.rs: write_spdm_capability_response"), ("flag rules", M + "capability.rs: SpdmGetCapabilitiesRequestPayload::spdm_read")],
     ["neg"], [h("h_cap", [[0], [1]], covers=["version not offered", "refused", "1.0", "1.1"])],
     "Requests of 2 to 22 arbitrary bytes; responder capabilities, exponent and sizes arbitrary; version lists {1.0,1.1,1.2} and {1.0,1.1}.",
     "Longer requests (trailing bytes are ignored).")

prop("P07", "Responder selects only algorithms both sides support",
     "A well-formed NEGOTIATE_ALGORITHMS gets an ALGORITHMS response that selects, for every algorithm type, the strongest algorithm in both sides' sets, or none if there is none in common, and these are the algorithms then used. A request with another version, wrong length, extended algorithms or unknown, repeated or unordered algorithm structures is refused without changing state or transcript.",
     ["inputs", "configurations"], "all offered and configured algorithm sets, all subsets of algorithm structures, every request up to 50 bytes",
     TESTS + "one offer against one configuration.",
     [R + "algorithm_rsp.rs", M + "algorithm.rs", "spdmlib/src/protocol/algo.rs"], [("handler", R + "algorithm_rsp.rs: write_spdm_algorithm"), ("priority", "spdmlib/src/protocol/algo.rs: prioritize"), ("format", M + "algorithm.rs")],
     ["neg"], [h("h_alg", [[g, v] for g in range(7) for v in range(3)], covers=["ALGORITHMS"]), h("h_alg_form", [[0], [1], [2]], covers=["ALGORITHMS", "refused", "version"])],
     "Per algorithm type, both sets arbitrary with the other types fixed; all 16 subsets of algorithm structures; reserved bytes arbitrary; malformed requests: 2 to 50 arbitrary bytes.",
     "Two algorithm types arbitrary at the same time.")

prop("P16", "Secured records are bound to session, direction and sequence number",
     "Every record is protected with the key of its session, phase and direction and a nonce no other record under that key has, numbers increase by one and are never reused or wrapped, and session id, number and length are authenticated. A record is accepted only if it is the next one the peer sent in that direction of that session, unmodified; the data delivered is exactly what was sent; data that does not fit is refused.",
     ["inputs", "histories"], "every session id, sequence number, payload, record up to 34 bytes, and every modification, repetition, reordering or redirection of records between two ends",
     TESTS + "one round trip; number exhaustion, inner lengths and attacks on the record stream are combinations they do not sample.",
     [C + "session.rs"], [("protect", C + "session.rs: encode_msg"), ("accept", C + "session.rs: decode_msg")],
     ["sess"], [h("h_rec_enc", [[0], [2], [8]], covers=["data", "handshake", "exhausted"]), h("h_rec_dec", [[0], [2], [8]], covers=["refused", "rejected", "accepted"]),
                h("h_rec_pair", [[0], [1]], covers=["received", "refused"]), h("h_rec_size", [[0, 26], [0, 25], [400, 440], [415, 440], [422, 448], [423, 448], [430, 440], [446, 448], [450, 448], [70000, 448]], covers=["fits", "refused"])],
     "Payload 0 to 4 bytes (sizes around the buffer limits separately); records received up to 34 bytes into buffers of 0 to 8; 0, 2 or 8 number bytes on the wire; any 64-bit number; streams of 4 records and 2 deliveries with one byte changed arbitrarily.",
     "Changes of more than one byte of a record in the two-ended scenario (the one-ended one has arbitrary records).")

prop("P17", "Key update keeps both ends on the same keys",
     "KEY_UPDATE moves exactly the directions asked for to the secret derived from the previous one and restarts their numbering; VerifyNewKey changes no key, the acknowledgement repeats operation and tag and is protected with the response key then in use. Invalid or failed requests, and requests that are not acknowledged, leave all keys and numbers in use unchanged at either end; other sessions are never affected.",
     ["inputs", "histories", "fault_sequences"], "every KEY_UPDATE request and response up to 5 bytes, sequences of two, any single failing crypto call",
     TESTS + "the accepted sequence only.",
     [R + "key_update_rsp.rs", Q + "key_update_req.rs", C + "session.rs"], [("responder", R + "key_update_rsp.rs"), ("requester", Q + "key_update_req.rs"), ("update and rollback", C + "session.rs: create_data_secret_update, activate_data_secret_update")],
     ["sess"], [h("h_keys_update", covers=["updated"]), h("h_kupd_rsp", [[0], [1]], covers=["verify", "all", "single", "refused", "failed"]), h("h_kupd_req", covers=["updated", "unverified", "refused"])],
     "Two requests in a row; requests and responses up to 5 bytes; 3 versions; one failing crypto call per request; sequence numbers arbitrary in the session-level harness.",
     "Whether the requester compares operation and tag of the acknowledgement (it does not).")

prop("P18", "Session keys follow the DSP0274 key schedule",
     "Handshake, data, finished, encryption, nonce, export and updated secrets are derived from the DHE or pre-shared secret exactly as the standard says: with the negotiated hash, the standard's labels, lengths and version text, each direction and phase its own, and bound to the transcript hash of its phase. The keys used for records and the keys exported are these.",
     ["inputs", "configurations"], "every shared secret, PSK hint, pair of transcript hashes and combination of hash, AEAD and version",
     TESTS + "fixed vectors through a mock that ignores its inputs; a wrong label, root or transcript interoperates with itself and goes unnoticed.",
     [C + "key_schedule.rs", C + "session.rs"], [("derivation", C + "key_schedule.rs"), ("use", C + "session.rs: generate_handshake_secret, generate_data_secret")],
     ["sess"], [h("h_keys", [[0], [1], [2]], covers=["dhe", "psk"]), h("h_keys_update", covers=["updated"])],
     "3 hashes, 3 AEADs, 3 versions; 32-byte shared secret; PSK hints of 0 to 8 bytes; transcript hashes arbitrary.",
     "The HKDF primitive itself.")

prop("P09", "Responder serves requests only in the connection state they belong to",
     "Before the connection is negotiated, capabilities, algorithms, digests, certificates, challenges, measurements and session requests out of order are answered with one ERROR and use no key or random number and change nothing; requests that belong in a session are refused outside one, and codes that are no requests are not answered. The connection state advances exactly with the responses actually sent, never by a refused or failed request.",
     ["inputs", "histories", "fault_sequences"], "every connection state, request code, header and body, with sessions open or not, and any single failing crypto call or send",
     TESTS + "well-ordered exchanges only.",
     [R + "context.rs", R + "capability_rsp.rs", R + "algorithm_rsp.rs", R + "error_rsp.rs"], [("dispatch", R + "context.rs: dispatch_message"), ("state", R + "context.rs: send_message"), ("per request", R + "*_rsp.rs: connection state checks")],
     ["gate"], [h("h_gate", [[op, n] for op in (0x81, 0x82, 0x83, 0xE0, 0xE4, 0xE6) for n in (2, 4, 12, 144)], covers=["refused"]),
                h("h_gate_oos", [[op] for op in (0xE5, 0xE7, 0xE8, 0xE9, 0xEC, 0xFF)], covers=["refused"]), h("h_gate_unknown", covers=["ignored"]),
                h("h_state", [[0x81], [0x82], [0x83], [0xE0]], covers=["answered", "refused"]), h("h_cap_state", covers=["algorithms", "capabilities"])],
     "Bodies of 0 to 12 arbitrary bytes (requests that need a negotiated connection also 142); 7 connection states; 3 versions; two sessions in either phase.",
     "GET_VERSION (P05), vendor-defined requests (P28).")

prop("P10", "Requests in a session are served only in the phase they belong to",
     "In a session, only finishing and encapsulated requests are served before it is established and only digests, certificates, measurements, heartbeat, key update, vendor-defined and end-session afterwards; every other request gets the fitting ERROR, without using any other key and without any effect on connection, transcripts or sessions. Answers go out in the same session under the response key of the phase, and records of unknown or closed sessions, early application data and codes that are no requests have no effect.",
     ["inputs", "histories", "schedules"], "every request code in either phase with any header and body, either phase of another session, any connection state from negotiated on",
     TESTS + "the expected request in the expected phase.",
     [R + "context.rs", C + "session.rs"], [("dispatch by phase", R + "context.rs: dispatch_secured_message"), ("application data", R + "context.rs: dispatch_secured_app_message"), ("answers", R + "context.rs: send_secured_message")],
     ["gate"], [h("h_phase", [[op, e] for op in (0x81, 0x82, 0x83, 0x84, 0xE0, 0xE1, 0xE3, 0xE4, 0xE6, 0xE8, 0xE9, 0xEC, 0xFF, 0) for e in (0, 1)] + [[op, 1] for op in (0xE5, 0xE7, 0xEA, 0xEB, 0xFE)], covers=["refused", "allowed", "ignored"]),
                h("h_phase_clear", covers=["ignored"])],
     "Requests of 2 to 12 bytes with arbitrary content; two sessions; 4 connection states; 3 versions.",
     "FINISH, PSK_FINISH, encapsulated and vendor-defined requests before the session is established (P13, P25, P28).")

prop("P11", "Session slots and ids are allocated safely",
     "A session exchange that succeeds takes exactly one free slot and gives it an id no other session has, made of both sides' halves, whatever the requester chooses; with all slots taken it gets SessionLimitExceeded. A refused or failed exchange leaves the session table as it was, END_SESSION frees its own slot only, and nothing of an ended session is left in a session that reuses its slot.",
     ["histories", "fault_sequences", "inputs"], "every occupancy and phase of the slots, every requester id, and any single failing crypto or measurement call",
     TESTS + "the first session of a fresh context.",
     [C + "mod.rs", C + "session.rs", R + "key_exchange_rsp.rs", R + "psk_exchange_rsp.rs", R + "context.rs"], [("allocation", C + "mod.rs: get_next_avaiable_session, get_next_half_session_id"), ("release", R + "context.rs: release_new_sessions, send_secured_message"), ("clearing", C + "session.rs: set_default")],
     ["kex"], [h("h_table", [[op, f] for op in (0xE4, 0xE6) for f in (0, 1)], covers=["made", "full", "failed"]), h("h_reuse", [[0xE4], [0xE6]], covers=["reused"])],
     "Two session slots, each free or in either phase; ids arbitrary; one of the first 48 fallible calls fails; one end and reuse of a slot with every kind of leftover.",
     "An answer that turns out too large for the requester after the session was made (P24); more than two slots.")

prop("P12", "Session exchanges bind their keys to the whole handshake",
     "KEY_EXCHANGE and PSK_EXCHANGE with known fields are answered with a fresh exchange value or context and random number, the selected secured-message version, the summary asked for, and proofs: a signature by the asked-for slot and an HMAC under the finished key, over everything both sides have said. The session's secrets come from this exchange and this transcript only; anything else gets an ERROR and no session.",
     ["inputs", "configurations"], "every request with any fields and opaque data up to 20 bytes, both exchanges, all versions, any combination of handshake-in-the-clear, context and measurement capabilities",
     TESTS + "one request against a mock that signs and derives constants.",
     [R + "key_exchange_rsp.rs", R + "psk_exchange_rsp.rs", M + "key_exchange.rs", M + "psk_exchange.rs", C + "opaque.rs"], [("key exchange", R + "key_exchange_rsp.rs"), ("pre-shared key", R + "psk_exchange_rsp.rs"), ("version selection", C + "opaque.rs")],
     ["kex"], [h("h_kex", [[2, c, o] for c in range(4) for o in range(3)] + [[1, c, 1] for c in (0, 3)] + [[0, 0, 1]], covers=["answered", "refused"]),
               h("h_psk", [[1, 0, 1], [1, 1, 1], [2, 0, 0], [2, 0, 1], [2, 1, 1], [2, 0, 2], [2, 1, 2], [0, 0, 1]], thorough=[[v, c, o] for v in range(3) for c in range(2) for o in range(3)], covers=["answered", "established", "refused"]),
               h("h_kex_form", [[0xE4, n] for n in (2, 4, 20, 80, 104, 105, 106, 107, 110, 124)] + [[0xE6, n] for n in (2, 4, 6, 8, 10, 12, 14, 20, 24)], thorough=[[0xE4, n] for n in list(range(2, 126)) + [144]] + [[0xE6, n] for n in range(2, 32)], covers=["answered", "refused"])],
     "Slots 0 and 3 provisioned; opaque data: none, a list of 0 to 3 arbitrary versions, or 1 to 6 arbitrary bytes; hints of 0 to 9 and contexts of 0 to 33 bytes; requests of every listed length with arbitrary content.",
     "Key exchange with version 1.1 (this build refuses it); opaque data with several elements.")

prop("P13", "A session is established only by a peer that proves its keys",
     "FINISH and PSK_FINISH establish the session they belong to only when the HMAC under the requester's finished key and, exactly if mutual authentication was asked for, the signature with the requester's certificates are good over the transcript of both sides, and the response has gone out; the data keys are then bound to that whole transcript. Every other request gets an ERROR, DecryptError for a wrong proof, and leaves this and all other sessions as they are.",
     ["inputs", "histories", "fault_sequences"], "every FINISH and PSK_FINISH up to 100 bytes in either kind of session, all verdicts, with and without mutual authentication and handshake in the clear, any single failing call",
     TESTS + "one accepted FINISH.",
     [R + "finish_rsp.rs", R + "psk_finish_rsp.rs", R + "context.rs", C + "mod.rs"], [("FINISH", R + "finish_rsp.rs"), ("PSK_FINISH", R + "psk_finish_rsp.rs"), ("phase change", R + "context.rs: send_secured_message, send_message"), ("transcript", C + "mod.rs: append_message_f")],
     ["kex"], [h("h_finish", [[c, m, f] for c in (0, 1) for m in (0, 1) for f in (0, 1)], covers=["established", "mutual", "wrong proof", "refused", "failed"]),
               h("h_psk_finish", [[0, 0xE7, 0], [0, 0xE7, 1], [1, 0xE5, 0], [1, 0xE5, 1], [1, 0xE7, 0], [1, 0xE7, 1]], covers=["established", "wrong proof", "refused", "other kind", "failed"])],
     "One request after a completed exchange, six lengths with arbitrary content; a second session in either phase; requester certificates in one of two slots or missing; one of the first 30 fallible calls fails.",
     "A second FINISH after a wrong one (it fails too); which algorithm the requester's signature is checked with.")

prop("P20", "Responder certificates and digests are the provisioned ones",
     "DIGESTS names exactly the provisioned slots with the hash of each slot's chain in order, and CERTIFICATE carries exactly the part of the chain asked for, clipped to what is there and to the largest portion, with the length that remains. Slots and offsets there are not are refused; only exchanges answered outside a session enter the certificate transcript, in the order they happened, and the chain served is the provisioned one with its length and root hash under the negotiated hash.",
     ["inputs", "configurations", "histories", "fault_sequences"], "every provisioned set of slots, every offset and length, request lengths around the real one, in and outside a session, after earlier exchanges, any single failing call",
     TESTS + "one slot, offset 0 and one length.",
     [R + "digest_rsp.rs", R + "certificate_rsp.rs", R + "algorithm_rsp.rs", M + "certificate.rs", M + "digest.rs"], [("digests", R + "digest_rsp.rs"), ("certificate", R + "certificate_rsp.rs"), ("chain with its header", R + "algorithm_rsp.rs")],
     ["attest"], [h("h_digests", [[0, 1], [1, 1], [0, 2]], thorough=[[s, v] for s in (0, 1) for v in range(3)], covers=["answered", "refused"]),
                h("h_certificate", [[0, 2, 4], [1, 1, 4]], thorough=[[s, v, n] for s in (0, 1) for v in range(3) for n in (0, 4, 28)], covers=["answered", "refused"]),
                h("h_certificate_big", [[0], [1]], covers=["answered", "refused"], features=["attest", "big"]),
                h("h_attest_fail", [[0x81, 0], [0x82, 0], [0x81, 1], [0x82, 1]], covers=["failed", "answered"]), h("h_cert_chain_hash", covers=["built"])],
     "All 256 sets of slots; chains of 40 arbitrary bytes (thorough: 36 to 64) with every offset and length; a chain of 1100 bytes with 15 offsets and 13 lengths around the limits; one of the first 14 fallible calls fails.",
     "Chains above 1100 bytes; slots other than 0 in GET_CERTIFICATE (refused by design).")

prop("P26", "Responder measurements are complete, fresh and bound to their signature",
     "MEASUREMENTS carries the total number, one block or all blocks, exactly as asked for, as measured with the negotiated specification and hash, and a fresh nonce; a signature is there exactly when asked for, by a provisioned slot, and covers the negotiated connection and every exchange since the last signature, in and outside sessions separately. Unknown indices, slots, attributes and truncated requests are refused and leave no trace in the transcript; the change indication is the device's and only given when supported.",
     ["inputs", "histories", "configurations", "fault_sequences"], "every request of any length, 0 to 3 measurements, three versions, in and outside a session after any mix of earlier exchanges, all change indications, any single failing call",
     TESTS + "one request against a collection that ignores its arguments.",
     [R + "measurement_rsp.rs", M + "measurement.rs", C + "mod.rs"], [("response", R + "measurement_rsp.rs"), ("transcript", C + "mod.rs: append_message_m, reset_message_m")],
     ["attest"], [h("h_meas", [[v, s, g] for v in range(3) for s in (0, 1) for g in (0, 1)], covers=["answered", "signed", "refused"]),
                h("h_meas_form", [[v, n] for v in (0, 1, 2) for n in (2, 3, 4, 5, 20, 35, 36, 37, 40)], thorough=[[v, n] for v in range(3) for n in range(2, 45)], covers=["answered", "refused"]),
                h("h_attest_fail", [[0xE0, 0], [0xE0, 1]], covers=["failed", "answered"])],
     "0 to 3 measurement blocks of 15 bytes; requests of 2 to 44 arbitrary bytes; slots 0 and 3 provisioned; one of the first 14 fallible calls fails.",
     "Signed measurements with versions 1.0 and 1.1 (this build refuses them); whether measuring is among the responder's capabilities.")

prop("P27", "CHALLENGE_AUTH proves the asked-for slot over the whole exchange",
     "A complete CHALLENGE for a provisioned slot with a summary type the capabilities allow gets the hash of that slot's chain, a fresh nonce, the summary asked for and a signature over context, negotiation, certificate exchanges, this request and this response, after which authentication starts anew. Anything else gets the fitting ERROR, signs nothing and is not part of the transcript.",
     ["inputs", "histories", "configurations", "fault_sequences"], "every CHALLENGE of any length and content, with or without earlier certificate and measurement exchanges, all measurement capabilities and versions, any single failing call",
     TESTS + "one request with a mock that signs a constant.",
     [R + "challenge_rsp.rs", M + "challenge.rs"], [("response", R + "challenge_rsp.rs"), ("signature", R + "challenge_rsp.rs: generate_challenge_auth_signature")],
     ["attest"], [h("h_chal", [[v, n] for v in range(3) for n in (2, 3, 4, 20, 35, 36, 37)], thorough=[[v, n] for v in range(3) for n in range(2, 41)], covers=["answered", "refused"]), h("h_attest_fail", [[0x83, 0]], covers=["failed", "answered"])],
     "Requests of 2 to 40 arbitrary bytes; slots 0 and 3 provisioned; 7 bytes of negotiation and 5 of certificate exchange as history; one of the first 14 fallible calls fails.",
     "Versions 1.0 and 1.1 (this build refuses to sign); the slot mask announced with the response.")

prop("P28", "Vendor-defined and application data reach only their handler, unaltered",
     "A vendor-defined request, outside a session or in any phase of one, hands exactly its payload to the registered handler once and is answered with its own standard and vendor id and exactly the handler's reply; lengths beyond the message or the buffers are refused. Application data of an established session reaches exactly the application handler, with its session and auxiliary data, the reply goes out as application data of the same session whatever it looks like, and neither kind touches connection, sessions or transcripts.",
     ["inputs", "histories", "schedules"], "every header, vendor id and payload, any announced length, any connection state, either session in either phase, replies of several lengths including ones that look like protocol messages, refusing handlers",
     TESTS + "one vendor request with a handler that ignores it.",
     [R + "vendor_rsp.rs", R + "context.rs", R + "app_message_handler.rs", M + "vendor.rs"], [("vendor-defined", R + "vendor_rsp.rs"), ("application data", R + "context.rs: dispatch_secured_app_message"), ("lengths", M + "vendor.rs")],
     ["data"], [h("h_vendor", [[0, 2], [1, 1], [2, 2]], thorough=[[p, v] for p in range(3) for v in range(3)], covers=["answered", "handler refuses", "refused"]),
              h("h_vendor_len", [[9], [12], [40], [391], [400], [401], [448]], thorough=[[n] for n in range(9, 449, 3)], covers=["answered", "refused"]),
              h("h_app", [[0], [1]], covers=["answered", "early", "refused"])],
     "Vendor ids of 0 to 9 and payloads of 0 to 7 arbitrary bytes; announced payload lengths 0 to 65535 in messages of 9 to 448 bytes; application data of 0 to 12 bytes; replies of 0 to 391 bytes.",
     "Running without registered handlers (the library's defaults are unimplemented).")

prop("P29", "Heartbeat keeps and END_SESSION ends exactly its session",
     "HEARTBEAT and END_SESSION in an established session are acknowledged in that session; END_SESSION then forgets its id, phase, transcripts and keys, and what still comes in for it has no effect. Malformed requests and acknowledgements that could not be sent leave the session as it was, and other sessions and the connection are never affected.",
     ["inputs", "histories", "fault_sequences"], "every request of 2 to 7 bytes in either session, the other in any phase, any connection state, failing protection or send, any record afterwards",
     TESTS + "one acknowledged request.",
     [R + "heartbeat_rsp.rs", R + "end_session_rsp.rs", R + "context.rs", C + "session.rs"], [("heartbeat", R + "heartbeat_rsp.rs"), ("end", R + "context.rs: send_secured_message"), ("clearing", C + "session.rs: teardown")],
     ["data"], [h("h_end", [[op, f] for op in (0xE8, 0xEC) for f in (0, 1)], covers=["answered", "ended", "refused", "failed"]), h("h_ended", [[0], [1]], covers=["ignored"])],
     "Two sessions; requests of 2 to 7 arbitrary bytes; a record of 0 to 8 arbitrary bytes and sequence numbers 0 to 2 after the end.",
     "Timers: the library keeps none.")

prop("P30", "The responder survives anything it is sent and answers at most once",
     "Whatever bytes arrive, outside a session or protected in one, whatever was negotiated or left out, provisioned or announced, the responder neither panics nor overruns a buffer nor loops, sends at most one answer for each request, and that answer is a well-formed message no larger than the requester's buffer. Requests that depend on something not negotiated are refused with an ERROR.",
     ["inputs", "histories", "configurations"], "every request code with arbitrary content of several lengths, in clear and as a record of a handshake or established session, certificate or PSK based, any capabilities and any selection present or absent; arbitrary records; pairs of requests",
     TESTS + "one well-formed request per message, fully provisioned and negotiated.",
     [R + "context.rs", R + "*_rsp.rs", M + "*.rs", "spdmlib/src/protocol/algo.rs"], [("dispatch", R + "context.rs"), ("handlers", R + "*_rsp.rs"), ("encapsulated", R + "encap_rsp.rs"), ("sizes by algorithm", "spdmlib/src/protocol/algo.rs")],
     ["total"], [h("h_any", [[o, n] for o in OPS for n in (0, 1, 2, 3, 4, 7, 12, 37, 120) if (o, n) not in ((0xE6, 37), (0xE6, 120), (0xFE, 120))], thorough=[[o, n] for o in OPS for n in list(range(0, 46)) + [64, 80, 104, 112, 120, 140, 160] if not (o == 0xE6 and n > 16 or o == 0xFE and n > 45)], covers=["done"]),
              h("h_any_rec", [[o, n] for o in OPS for n in (0, 2, 4, 8, 20, 37, 120) if (o, n) not in ((0xFE, 37), (0xFE, 120))], thorough=[[o, n] for o in OPS for n in list(range(0, 46)) + [64, 80, 104, 112, 120, 140, 160] if not (o == 0xFE and n > 30)], covers=["done"]),
              h("h_any_two", [[a, b] for a in (0x84, 0x81, 0x82, 0x83, 0xE1, 0xE0, 0xE4) for b in (0x84, 0x81, 0x83, 0xE0, 0xE4)], covers=["done"]),
              h("h_any_raw", [[n] for n in (0, 3, 4, 5, 6, 7, 8, 9, 20, 23, 24, 25, 26, 28)], thorough=[[n] for n in range(0, 32)], covers=["done"])],
     "Requests of 0 to 160 arbitrary bytes (unknown codes included; vendor-defined up to 45, PSK_FINISH outside a session up to 16), records of 0 to 31 arbitrary bytes, two requests in a row; panics, buffer overruns, arithmetic overflow and non-termination within 4 million steps are all violations.",
     "A peer that announces a buffer below the 42 bytes the specification demands; stack use; the allocator.")

prop("P08", "Requester negotiates only what it offered, from scratch each time",
     "The requester announces its configuration, accepts VERSION, CAPABILITIES and ALGORITHMS only when they are well-formed, free of contradictions and select, of each kind, at most one thing it offered and what the capabilities need, takes the highest version both list, and uses exactly the selection received. Refused, failed or missing answers negotiate nothing and stay out of the transcript; GET_VERSION drops everything of an earlier connection.",
     ["inputs", "histories", "configurations"], "every response of any length and content to each of the three requests, every configuration and pair of capability sets, an earlier connection with everything selected, failing sends and missing answers",
     TESTS + "one well-formed response of each kind.",
     [Q + "get_version_req.rs", Q + "get_capabilities_req.rs", Q + "negotiate_algorithms_req.rs", M + "capability.rs", M + "algorithm.rs", M + "version.rs"],
     [("version", Q + "get_version_req.rs"), ("capabilities", M + "capability.rs"), ("algorithms", Q + "negotiate_algorithms_req.rs")],
     ["rneg"], [h("h_rq_version", [[]], covers=["accepted", "refused"]), h("h_rq_cap", [[0], [1], [2]], covers=["accepted", "refused"]),
                h("h_rq_alg", [[g, v] for g in range(8) for v in range(3)], covers=["accepted", "refused"]),
                h("h_rq_alg_form", [[0], [1], [2]], covers=["accepted", "refused"]), h("h_rq_again", [[]], covers=["again"]), h("h_rq_silent", [[0], [1], [2]], covers=["failed"])],
     "Responses of 0 to 14 (VERSION), 22 (CAPABILITIES) and 54 (ALGORITHMS) arbitrary bytes; one kind of algorithm arbitrary at a time.",
     "VERSION responses of more than three entries (this build refuses them); extended algorithms (refused).")

prop("P14", "Requester believes challenge and measurements only when proven",
     "The requester's CHALLENGE and GET_MEASUREMENTS name what was asked for with a fresh nonce, and an answer counts only if it is well-formed, for that slot and chain, and signed, when a signature is due, under that slot's certificates over context, negotiation and the whole exchange since the last signature. Measurements are handed out as received, only from records whose blocks are all right, in order and as many as announced; a refused answer hands out nothing and proves nothing.",
     ["inputs", "histories", "configurations", "fault_sequences"], "every response of any length and content, any slot, summary type, attributes and operation, outside and in a session, with or without earlier certificates and measurements, sequences of four requests, any single failing call",
     TESTS + "one response of this library's own responder each, under a mock that accepts every signature.",
     [Q + "challenge_req.rs", Q + "get_measurements_req.rs", M + "challenge.rs", M + "measurement.rs", C + "spdm_codec.rs"],
     [("challenge", Q + "challenge_req.rs"), ("measurements", Q + "get_measurements_req.rs"), ("records", C + "spdm_codec.rs: verify_measurement_record")],
     ["ratt"], [h("h_rq_chal", [[2, s, f] for s in range(3) for f in (0, 1)] + [[0, 0, 0], [1, 1, 0]], covers=["accepted", "refused", "bad signature", "no such slot"]),
                h("h_rq_chal_form", [[2, 0], [2, 120]], thorough=[[v, n] for v in range(3) for n in range(0, 160, 20)], covers=["accepted", "refused"]),
                h("h_rq_meas", [[v, s, g, 0] for v in range(3) for s in (0, 1) for g in (0, 1)] + [[2, s, g, 1] for s in (0, 1) for g in (0, 1)], covers=["accepted", "refused", "bad signature", "signed", "no such slot"]),
                h("h_rq_meas_rec", [[n, k, 0] for n in (0, 8, 15) for k in range(3)] + [[39, k, 1] for k in range(3)] + [[48, 2, 1]], thorough=[[n, k, 0] for n in range(0, 20) for k in range(3)] + [[n, k, 1] for n in range(20, 49) for k in range(3)] + [[n, 2, 2] for n in range(20, 48, 4)], covers=["accepted", "refused"]),
                h("h_rq_meas_form", [[2, 0, 0], [2, 40, 0], [2, 40, 1]], thorough=[[v, n, s] for v in range(3) for n in range(0, 60, 4) for s in (0, 1)], covers=["accepted", "refused"]),
                h("h_rq_meas_run", [[]], covers=["signed"])],
     "CHALLENGE_AUTH of 0 to 170 arbitrary bytes; measurement records of 0 to 48 arbitrary bytes (above 19 with at most two blocks), opaque data up to 4 bytes with measurements; SHA-256 and P-256; one of the first 9 fallible calls fails.",
     "Versions 1.0 and 1.1 with signatures (this build refuses them).")

prop("P15", "Requester's sessions are established only with a peer that proves its keys",
     "KEY_EXCHANGE and PSK_EXCHANGE go out with fresh random values as asked for; a session starts only from a well-formed answer whose signature by the asked-for slot and HMAC are good over everything both sides have said, with secrets from this exchange alone. FINISH and PSK_FINISH prove the requester's keys, signing exactly when asked to, and only a good answer establishes the session; anything else leaves no session behind and other sessions untouched.",
     ["inputs", "configurations", "histories", "fault_sequences"], "every answer of any length and content, any slot, summary type, hint and opaque data, all combinations of handshake in the clear, context and mutual authentication, the whole way to a session, any single failing call",
     TESTS + "one answer of this library's own responder each, under a mock that accepts every signature.",
     [Q + "key_exchange_req.rs", Q + "psk_exchange_req.rs", Q + "finish_req.rs", Q + "psk_finish_req.rs", Q + "context.rs", Q + "mutual_authenticate.rs"],
     [("key exchange", Q + "key_exchange_req.rs"), ("pre-shared key", Q + "psk_exchange_req.rs"), ("finish", Q + "finish_req.rs, psk_finish_req.rs"), ("the whole way", Q + "context.rs: start_session")],
     ["rkex"], [h("h_rq_kex", [[2, c, c % 3, o, 0] for c in range(4) for o in range(3)] + [[2, 0, 2, 1, 1], [2, 3, 0, 0, 1], [0, 0, 0, 0, 0], [1, 2, 1, 1, 0]], thorough=[[v, c, s, o, f] for v in range(3) for c in range(4) for s in range(3) for o in range(3) for f in (0, 1)], covers=["accepted", "refused", "bad signature", "bad HMAC", "version selected", "no such slot"]),
                h("h_rq_kex_form", [[0], [2]], covers=["accepted", "refused"]),
                h("h_rq_psk", [[1, 0, 1, 1, 0], [2, 0, 0, 2, 0], [2, 1, 0, 0, 0], [1, 1, 2, 1, 0], [2, 1, 0, 1, 1], [1, 0, 2, 0, 1]], thorough=[[v, c, s, o, f] for v in (1, 2) for c in (0, 1) for s in range(3) for o in range(3) for f in (0, 1)], covers=["accepted", "established", "refused", "bad HMAC", "version selected"]),
                h("h_rq_psk_form", [[0], [1]], covers=["accepted", "refused"]),
                h("h_rq_finish", [[c, m, f] for c in (0, 1) for m in (0, 1) for f in (0, 1)], covers=["accepted", "refused", "not sent"]),
                h("h_rq_psk_finish", [[v, f] for v in (1, 2) for f in (0, 1)], covers=["accepted", "refused"]),
                h("h_rq_start", [[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1], [1, 0, 0], [1, 0, 1]], covers=["established", "refused"])],
     "KEY_EXCHANGE_RSP and PSK_EXCHANGE_RSP with opaque data of up to 6 arbitrary bytes or a version selection, and of 15 lengths with arbitrary content; FINISH_RSP and PSK_FINISH_RSP of up to 38 bytes; two sessions; SHA-256 and P-256; one of the first 80 fallible calls fails.",
     "The encapsulated exchange of mutual authentication (P25); whether the selected secured-message version was offered; KEY_EXCHANGE with versions 1.0 and 1.1 (this build refuses it).")

prop("P25", "Mutual authentication accepts only a verified requester chain",
     "Encapsulated requests need version 1.1, both sides' support and an authenticating connection; the responder asks for digests and then for exactly the rest of slot 0's chain, and uses a chain only when it is complete, as long as it says, verified and under the provisioned root. The requester answers each encapsulated request with its own provisioned digests and certificates or an ERROR, ends only when told to and with a slot there is, and neither side touches other sessions or what was negotiated.",
     ["inputs", "histories", "configurations", "fault_sequences"], "every delivery and acknowledgement of any content, chains in any portions with any deviation, with and without a provisioned root, a second try after a refused one, any capabilities, version and own certificates, any single failing call",
     TESTS + "one message each of a well-behaved peer, none of them a complete exchange.",
     [R + "encap_rsp.rs", R + "encap_get_digest.rs", R + "encap_get_certificate.rs", Q + "encap_req.rs", Q + "encap_digest.rs", Q + "encap_certificate.rs", Q + "mutual_authenticate.rs", M + "encapsulated.rs"],
     [("responder", R + "encap_rsp.rs"), ("chain", R + "encap_get_certificate.rs"), ("requester", Q + "encap_req.rs")],
     ["encap"], [h("h_enc_get", [[0], [1], [2]], covers=["refused", "answered"]),
                 h("h_enc_chain", [[n, r, 0] for n in (1, 2, 3) for r in range(3)] + [[1, 1, 1], [2, 1, 1]], thorough=[[n, r, f] for n in (1, 2, 3, 4) for r in range(3) for f in (0, 1)], covers=["authenticated", "refused", "next portion"]),
                 h("h_enc_form", [[n, s] for n in (4, 8, 12, 20, 44) for s in (0, 1)], thorough=[[n, s] for n in range(2, 65) for s in (0, 1)], covers=["refused", "digests", "certificate"]),
                 h("h_enc_again", [[]], covers=["accepted afterwards", "mixed"]), h("h_enc_restart", [[]], covers=["accepted"]),
                 h("h_enc_rq", [[0, 2, 8], [1, 2, 8], [4, 0, 8], [2, 0, 8]] + [[2, v, n] for v in (1, 2) for n in (2, 4, 8, 12)] + [[4, 1, n] for n in (4, 5, 8, 12)] + [[4, 2, n] for n in (4, 8, 9, 12, 16)], thorough=[[0, 2, 8], [1, 2, 8], [4, 0, 8], [2, 0, 8]] + [[k, v, n] for k in (2, 4) for v in (1, 2) for n in range(0, 20) if n + 4 * (v == 1) < 17 + 4 * (k == 4)], covers=["not able", "refused", "ended", "slot", "delivered"]),
                 h("h_enc_rq_run", [[0], [1]], covers=["done", "failed"])],
     "Chains of 50 bytes in up to 3 portions (4 in the thorough run) of 1, 17, 40 bytes or all; deliveries of 2 to 64 and the responder's messages of 0 to 19 arbitrary bytes; one of the first 24 fallible calls fails.",
     "Whether the request id echoes the one asked with (the responder always uses 0); errors delivered by the requester (refused like other unknown messages).")

prop("P21", "Requester keeps only certificate chains that are whole and verified",
     "GET_DIGESTS and GET_CERTIFICATE go out as asked for, each asking for exactly the rest of the chain, and end. A chain replaces the one known for its slot only when every portion fits to what was announced, it has the length it says, it has been verified, its root hash is that of its root and the root is the provisioned one; refused, failed or foreign answers change no slot, and exactly the accepted exchanges outside sessions enter the transcript.",
     ["inputs", "histories", "configurations", "fault_sequences"], "every response of any length and content, chains in any portions with any deviation in one of them, slots known and unknown, with and without a provisioned root, outside and in a session, any single failing call",
     TESTS + "one chain in one portion by this library's own responder.",
     [Q + "get_digests_req.rs", Q + "get_certificate_req.rs", M + "digest.rs", M + "certificate.rs"],
     [("digests", Q + "get_digests_req.rs"), ("portions", Q + "get_certificate_req.rs: send_receive_spdm_certificate"), ("verification", Q + "get_certificate_req.rs: verify_spdm_certificate_chain")],
     ["rcert"], [h("h_rq_digests", [[v, s, 0] for v in range(3) for s in (0, 1)] + [[2, 0, 1], [2, 1, 1]], covers=["accepted", "refused"]),
                 h("h_rq_chain", [[n, r, s, 0] for n in (1, 2) for r in range(3) for s in (0, 1)] + [[3, 1, 0, 0], [1, 1, 0, 1], [2, 0, 0, 1], [2, 0, 1, 1]], thorough=[[n, r, s, f] for n in (1, 2, 3) for r in range(3) for s in (0, 1) for f in (0, 1)] + [[4, 1, 0, 0], [4, 0, 0, 1]], covers=["accepted", "refused", "no such slot"]),
                 h("h_rq_cert_form", [[v, n] for v in range(3) for n in (0, 2, 5, 8, 20, 60)], thorough=[[v, n] for v in range(3) for n in range(0, 80, 2)], covers=["accepted", "refused"]),
                 h("h_rq_long", [[0], [1]], covers=["accepted"], features=["rcert", "big"])],
     "Chains of 50 bytes in up to 3 portions (4 in the thorough run) of 1, 17, 40 bytes or the rest, and of 511 to 1099 bytes in portions of up to 512; DIGESTS of 11 lengths up to 110 bytes; one of the first 14 fallible calls fails.",
     "Whether the digests read earlier match the chain (the requester does not keep them); chains of exactly the buffer's size.")

prop("P22", "Certificate chain format check accepts exactly well-formed chains",
     "Whatever bytes it is given, the check ends without panicking and accepts exactly the concatenations of X.509 v3 certificates whose nested fields are all there, inside what encloses them and nothing left over, with the number of certificates. The last certificate's algorithm identifiers must both be the negotiated signature algorithm's.",
     ["inputs"], "chains with arbitrary bytes at any place of any header, cut anywhere or continued, lengths in every form, arbitrary short inputs, all supported algorithms with any identifier",
     TESTS + "the repository's own certificates and one truncated header.",
     ["spdmlib/src/crypto/x509v3.rs"], [("chain", "spdmlib/src/crypto/x509v3.rs: check_cert_chain_format"), ("lengths", "spdmlib/src/crypto/x509v3.rs: check_length"), ("algorithm", "spdmlib/src/crypto/x509v3.rs: check_object_identifier")],
     ["x509"], [h("h_x509_window", [[f, p, n, i] for f, p, n in ((0, 3, 3), (2, 3, 2), (8, 3, 1), (9, 3, 1), (0, 130, 1), (0, 259, 1)) for i in range(8)], thorough=[[f, p, n, i] for f, p, n in ((0, 3, 4), (1, 3, 3), (2, 3, 3), (8, 3, 1), (9, 3, 2), (0, 130, 1), (0, 259, 2), (3, 0, 2)) for i in range(8)], covers=["accepted", "refused"]),
                h("h_x509_any", [[n] for n in range(0, 16, 3)], thorough=[[n] for n in range(0, 19)], covers=["refused", "accepted"]),
                h("h_x509_cut", [[f] for f in (0, 1, 2, 3, 8)], covers=["accepted", "refused"]),
                h("h_x509_alg", [[a] for a in range(8)], covers=["accepted", "refused"])],
     "Chains of up to 3 certificates of 60 to 900 bytes with windows of 1 to 3 (4 in the thorough run) arbitrary bytes; arbitrary inputs of up to 15 (18) bytes.",
     "Extensions, names, validity and keys (skipped by the check); the check's caller (needs the ring library); chains signed with algorithms without an identifier here.")

RQ = [(o, 0) for o in (0x84, 0xE1, 0xE3, 0x81, 0x82, 0x83, 0xE0, 0xE4, 0xE6, 0xFE)] + [(o, 1) for o in (0x81, 0x82, 0xE0, 0xE5, 0xE7, 0xE8, 0xE9, 0xEC, 0xFE)]
prop("P23", "Requester operations succeed only on their own answer, errors are what they are",
     "HEARTBEAT, END_SESSION and vendor-defined requests go out as given and succeed exactly with their own complete answer, whose payload is handed out unaltered; ended sessions are forgotten. Any other answer to any request makes it fail with what the responder said (busy, not ready, a broken session, an error), ends only the session the error is about and otherwise leaves the connection, its certificates and every session as they were.",
     ["inputs", "histories", "fault_sequences"], "every ERROR and foreign answer up to 12 bytes to each of 17 requests outside and in sessions, every answer to HEARTBEAT and END_SESSION with any failing call, every vendor-defined payload and answer, any announced buffer",
     TESTS + "one good answer per request.",
     [Q + "handle_error_response_req.rs", Q + "vendor_req.rs", Q + "heartbeat_req.rs", Q + "end_session_req.rs", Q + "context.rs"],
     [("errors", Q + "handle_error_response_req.rs"), ("vendor-defined", Q + "vendor_req.rs"), ("heartbeat", Q + "heartbeat_req.rs"), ("end", Q + "end_session_req.rs")],
     ["rtotal"], [h("h_rq_error", [[o, s] for o, s in RQ if o not in (0xE5, 0xE7)], covers=["error", "other", "broken", "resynchronise", "goes on"]),
                  h("h_rq_simple", [[o, f] for o in (0xE8, 0xEC) for f in (0, 1)], covers=["answered", "ended", "refused"]),
                  h("h_rq_vendor", [[s, p, a] for s in (0, 1) for p, a in ((5, 12), (0, 9), (5, 20), (382, 8))] + [[0, 300, 40]], thorough=[[s, p, a] for s in (0, 1) for p in (0, 1, 40, 300, 376, 380, 385) for a in (0, 4, 8, 9, 10, 12, 20)] + [[0, 300, 60]], covers=["answered", "refused", "not sent"])],
     "Answers of 0 to 12 bytes (vendor-defined ones up to 60), vendor ids up to 4 and payloads up to 385 bytes, two sessions.",
     "FINISH and PSK_FINISH (every answer to them is P15's); the standard ids and ids of vendors not among three.")

prop("P31", "The requester survives whatever the responder answers",
     "Whatever bytes the responder answers to any request, with whatever it announced and selected or left out, the requester neither panics nor overruns a buffer nor loops nor uses a finished hash state; the operation returns. It waits for each answer as long as the responder announced for cryptographic requests and the usual time otherwise.",
     ["inputs", "histories", "configurations"], "every request code with arbitrary answers of several lengths, outside and in sessions, any capabilities, times, sizes and any selection present or absent; arbitrary records; pairs of requests",
     TESTS + "well-formed answers of this library's own responder.",
     [Q + "context.rs", Q + "*_req.rs", M + "*.rs", C + "spdm_codec.rs", C + "key_schedule.rs"], [("transport", Q + "context.rs"), ("operations", Q + "*_req.rs"), ("decoding", C + "spdm_codec.rs"), ("sizes by algorithm", "spdmlib/src/protocol/algo.rs")],
     ["rtotal"], [h("h_rq_any", [[o, s, n] for o, s in RQ for n in (0, 2, 4, 8, 20, 40) if (o, n) != (0xE0, 40)] + [[0xE3, 0, 52], [0x83, 0, 134], [0x81, 0, 100], [0xE4, 0, 160], [0xE4, 0, 204], [0xE6, 0, 44], [0xE6, 0, 76], [0xE0, 0, 14], [0xE0, 0, 20], [0x101, 0, 200], [0x102, 0, 80], [0x103, 0, 20]],
                      thorough=[[o, s, n] for o, s in RQ for n in list(range(0, 26)) + ([] if o == 0xE0 else [30, 36, 37, 40, 42, 48, 52, 60] + ([] if o == 0xFE else [100, 134, 170]))] + [[0xE4, 0, n] for n in (196, 200, 204, 210)] + [[0xE6, 0, 76], [0xE6, 0, 92], [0x101, 0, 200], [0x102, 0, 80], [0x103, 0, 20]], covers=["done"]),
                  h("h_rq_any_two", [[0x81, 0x82], [0x84, 0xE1], [0x82, 0x83], [0x83, 0x83], [0xE1, 0x84], [0x82, 0x82], [0x83, 0xE0]], thorough=[[0x81, 0x82], [0x84, 0xE1], [0x82, 0x83], [0x83, 0x83], [0xE1, 0x84], [0x82, 0x82], [0x83, 0xE0], [0xE1, 0xE3], [0xE3, 0x81], [0xE3, 0x83], [0x81, 0xE4]], covers=["done"]),
                  h("h_rq_raw", [[n] for n in (0, 3, 4, 5, 6, 7, 8, 9, 20, 23, 24, 25, 26, 28, 50)], thorough=[[n] for n in range(0, 64)], covers=["done"])],
     "Answers of 0 to 210 arbitrary bytes (measurements up to 25 here, longer ones in P14), records of 0 to 63 arbitrary bytes, two operations in a row; panics, buffer overruns, arithmetic overflow and non-termination within 4 million steps are all violations.",
     "Panics of the application's own making before anything is received (such as a session id that is not open); stack use; the allocator.")

MSGS = [[0x81, 6], [0x82, 10], [0x83, 38], [0x84, 6], [0xe0, 40], [0xe1, 24], [0xe3, 50], [0xe4, 112], [0xe5, 104], [0xe6, 24], [0xe7, 40], [0xe8, 6], [0xe9, 6], [0xea, 6], [0xeb, 12], [0xec, 6], [0xfe, 20], [0x1, 70], [0x2, 16], [0x3, 146], [0x3, 178, 2], [0x4, 16], [0x61, 24], [0x63, 54], [0x64, 212], [0x64, 244, 2], [0x65, 40], [0x66, 56], [0x66, 88, 2], [0x67, 6], [0x68, 6], [0x69, 6], [0x6a, 12], [0x6b, 12], [0x6c, 6], [0x7e, 20], [0x7f, 16], [0x60, 50], [0x60, 56], [0x60, 120, 1]]
prop("P01", "Integers and cursors: what is written is what is read, within the buffer",
     "Every integer is written least significant byte first and reads back as the same value; reading and writing move the cursor by exactly the bytes used, or fail and move nothing, and never touch a byte outside the buffer. Status codes survive being written and read.",
     ["inputs", "programs"], "every value of 8 to 128 bits in every buffer up to 20 bytes; every sequence of three reader and four writer operations, including absurd lengths; every status word",
     TESTS + "a few values in buffers that fit.",
     ["codec/src/codec.rs", "codec/src/macros.rs", "spdmlib/src/error.rs"], [("integers, Reader, Writer", "codec/src/codec.rs"), ("status", "spdmlib/src/error.rs: SpdmStatus")],
     ["wire"], [h("h_int", [[8], [16], [24], [32], [64], [128]], covers=["written", "full", "read", "short"]), h("h_cursor", covers=["done"]), h("h_status", covers=["status", "refused"])],
     "Buffers up to 20 bytes, reads after up to 3 bytes; three reader operations on 8 bytes with lengths 0 to 10 and the largest usize values, four writer operations on 8 bytes.",
     "Longer buffers and sequences (every operation's effect depends only on the cursor and the length).")

prop("P02", "Messages are read as they are written",
     "A message of any kind that is accepted is written again as exactly the bytes it was read from, reserved bits zero, and so carries every field in its place; the length reported is the length written. A message does not fit in less, is refused when cut short anywhere near its end, and does not depend on what follows it.",
     ["inputs", "configurations"], "every message of each of 37 kinds at a length that reaches all its parts, in versions 1.0 to 1.2, with any capabilities selected, with and without signature and measurement summary",
     TESTS + "one hand-written structure per message, compared field by field.",
     [M + "*.rs", C + "spdm_codec.rs", "spdmlib/src/protocol/*.rs", C + "opaque.rs"], [("messages", M + "*.rs"), ("parts", C + "spdm_codec.rs"), ("flags and algorithms", "spdmlib/src/protocol/*.rs")],
     ["wire"], [h("h_msg", MSGS, thorough=MSGS + [[0xE6, 34], [0xFE, 30], [0x7E, 30], [0x60, 80], [0x60, 130, 1], [0x64, 222], [0x64, 254, 2], [0x66, 66], [0x66, 98, 2], [3, 156], [3, 188, 2], [4, 40], [1, 260], [2, 40], [0xE4, 122], [0x7F, 40]], covers=["message"])],
     "SHA-256, 64-byte signatures and exchange data, opaque data up to 12 bytes (22 thorough), measurement records of one block or none, vendor ids and payloads up to 14 bytes (22 thorough), version lists and digests up to the message's length.",
     "Other algorithm sizes (they change only the lengths, P31 reads them); messages built from values no reader produces; reserved values that are refused or kept are as the code has them.")

prop("P04", "Transport framing is lossless and in bounds",
     "An MCTP or PCI DOE frame is the specified header and the payload (for DOE padded to whole double words), made exactly when the buffer has room, and taking it apart gives back the payload and its kind. Anything received is accepted exactly if it has a known type, is all there and fits, its payload alone is handed out, and nothing is written outside the buffers.",
     ["inputs"], "every payload up to 40 bytes into every kind of buffer, every received frame up to 40 bytes, both transports, both kinds, both layers",
     TESTS + "one frame of each kind with room to spare.",
     ["mctp_transport/src/header.rs", "pcidoe_transport/src/header.rs"], [("MCTP", "mctp_transport/src/header.rs"), ("PCI DOE", "pcidoe_transport/src/header.rs")],
     ["wire"], [h("h_mctp", [[0, 0], [0, 1], [0, 8], [20, 20], [20, 21], [20, 40]], thorough=[[l, c] for l in (0, 1, 2, 7, 20, 39, 40) for c in (0, 1, 2, 7, 8, 20, 21, 39, 40, 41, 60)], covers=["accepted", "refused"]),
                h("h_doe", [[l, c] for l in (0, 1, 3, 4, 13, 16, 29) for c in (0, 7, 8, 11, 12, 23, 24, 40)], thorough=[[l, c] for l in range(41) for c in range(0, 61)], covers=["inner"]),
                h("h_doe_rx", [[n] for n in range(0, 41, 3)] + [[8], [16], [20], [40]], thorough=[[n] for n in range(41)], covers=["refused"])],
     "Payloads up to 40 bytes, buffers up to 60, received frames up to 24 (MCTP) and 40 (DOE) bytes with outputs up to as much.",
     "The bytes of DOE padding when the buffer was not zero before (the senders' is); DOE discovery.")

def ways(kind, n, sent):
    """One disturbance of each kind for each message (of n, the responder's odd), and other requests in between."""
    return [[kind, e, i] for i in range(n) for e in (1, 3, 4, 5)] + [[kind, 6, i, 4] for i in range(0, sent, 2)]

# the negotiation changed at will, in one message or more
AT_WILL = [[2, 0, 4, 48], [2, 1, 1, 48], [2, 2, 1, 40], [2, 3, 1, 40], [2, 4, 4, 48], [2, 5, 4, 48],
           [2, 0, 4, 48, 2, 1, 4, 48], [2, 2, 4, 40, 2, 3, 4, 40], [2, 4, 8, 24, 2, 5, 8, 24], [2, 4, 32, 60, 2, 5, 36, 60], [1, 2, 0, 0, 1, 5], [1, 4, 0, 0, 1, 5], [1, 1, 0, 0, 1, 4]]
SESSION = [(0, 26, 26), (1, 22, 22), (4, 30, 30)]
prop("P19", "Whoever changes messages on the way gets no session and no trust",
     "When this library's requester and responder talk over a network that changes, cuts, drops or repeats messages or slips its own requests in, either both end up with the same negotiated terms, the best of what both offered, the same keys and the same session, or the requester has no session and believes no challenge and no signed measurements. In an established session a disturbed record is an error, never other data than was sent, and never delivered twice.",
     ["schedules", "fault_sequences", "inputs"], "every single byte of every message of a session's life changed to any other value, every message cut anywhere, dropped or replaced by the one before, other requests in between, negotiation messages changed at will, alone and together",
     "The tests connect both sides over an honest pipe; nothing between them is ever changed.",
     [Q + "*.rs", R + "*.rs", C + "mod.rs", C + "session.rs", "mctp_transport/src/header.rs"], [("transcripts", C + "mod.rs: calc_req_transcript_hash, calc_rsp_transcript_hash"), ("records", C + "session.rs"), ("requester", Q + "context.rs: start_session")],
     ["pair"], [h("h_pair", [w for k, n, s in SESSION for w in ways(k, n, s)] + [[k] + a for k in (0, 1) for a in AT_WILL],
                  thorough=[w for k, n, s in SESSION + [(2, 18, 18), (8, 26, 26), (9, 22, 22), (10, 18, 18), (16, 24, 24), (17, 20, 20), (20, 28, 28)] for w in ways(k, n, s)] + [[k] + a for k in (0, 1, 2, 4, 8) for a in AT_WILL]
                  + [[0, 2, 4, 4, 48, 2, 5, 4, 48], [0, 2, 1, 4, 40, 2, 2, 4, 40, 2, 3, 4, 40]] + [[0, 6, i, 8] for i in range(0, 16, 2)] + [[k, 2, i, a, a + 8] for k in (0, 1, 4) for i in range(6, 14) for a in range(0, 200, 8)],
                  covers=["no session", "session all the same", "ended", "used"]),
                h("h_pair_auth", [w for k, n in ((0, 18), (1, 16)) for w in ways(k, n, n)] + [[k] + a for k in (0, 1) for a in AT_WILL[:-3]],
                  thorough=[w for k, n in ((0, 18), (1, 16)) for w in ways(k, n, n)] + [[k] + a for k in (0, 1) for a in AT_WILL] + [[k, 2, i, a, a + 8] for k in (0, 1) for i in range(6, 18) for a in range(0, 200, 8)],
                  covers=["done", "measured"]),
                # with transcripts kept as they are (the other configuration of the library), which also signs with version 1.1
                h("h_pair", [[k, 1, i] for k, n in ((0, 14), (4, 20)) for i in range(n)] + [[k] + a for k in (0,) for a in AT_WILL],
                  thorough=[w for k, n, s in SESSION for w in ways(k, n, s)] + [[k] + a for k in (0, 1, 4) for a in AT_WILL], covers=["no session", "session all the same"], features=["pair", "raw"]),
                h("h_pair_auth", [[0, 1, i] for i in range(18)] + [[0] + a for a in AT_WILL[:-3]],
                  thorough=ways(0, 18, 18) + [[0] + a for a in AT_WILL], covers=["done", "measured"], features=["pair", "raw"])],
     "One conversation: connect, certificates, key exchange (certificates with and without mutual authentication, pre-shared key) and finish, application and vendor data, key update, heartbeat, signed measurements, end; or challenge and measurements without a session. Up to four disturbed messages, up to 47 bytes of each arbitrary, over the MCTP transport (the thorough run adds DOE and handshakes in the clear); SHA-256, two choices of each other algorithm, versions 1.0 to 1.2 offered, with hashed transcripts and with transcripts kept whole.",
     "Forgery: signatures, HMAC values and records the parties did not make are refused by the model of the cryptography, keys and hashes are functions of what they are made of; a responder of the pre-shared key without context holds a session as soon as it has answered; signed measurements of version 1.1 without a challenge, whose signature does not cover the negotiation.")

def picks(n, ds):
    """Every n of the open choices."""
    from itertools import combinations
    return [sum(c) for c in combinations(ds, n)]

prop("P24", "Peers with enough in common always connect, on the best of it",
     "Two undisturbed ends of this library negotiate the latest version and, of each kind of algorithm, the strongest both support, and whenever that is enough for the kind of session they have one: with the same keys and parameters on both sides, heartbeats and key updates where both can, and an end known to both. Without enough in common there is no session on either side.",
     ["configurations"], "every subset of versions, hashes, signatures, key exchanges, ciphers, requester signatures and optional capabilities on either side, two kinds open at a time, any heartbeat period, certificate based, mutually authenticated and pre-shared key sessions",
     "The tests connect with one configuration each, the same on both sides.",
     [Q + "*.rs", R + "*.rs", "spdmlib/src/protocol/algo.rs", M + "finish.rs"], [("choice", "spdmlib/src/protocol/algo.rs: prioritize"), ("responder", R + "context.rs"), ("requester", Q + "context.rs: start_session")],
     ["pair"], [h("h_pair_conf", [[0, m] for m in picks(1, (1, 2, 4, 8, 64, 128)) + [3, 6, 12, 24, 65, 160]] + [[1, 8], [1, 32], [1, 64], [1, 128], [1, 40], [2, 8], [2, 32], [2, 64], [2, 128], [4, 1], [4, 16], [4, 18], [8, 64], [8, 128], [9, 8], [10, 32]],
                  thorough=[[0, m] for n in (1, 2) for m in picks(n, (1, 2, 4, 8, 16, 64, 128))] + [[4, m] for n in (1, 2) for m in picks(n, (1, 2, 4, 8, 16, 128))] + [[k, m] for k in (1, 2, 9, 10) for n in (1, 2) for m in picks(n, (8, 32, 128))] + [[0, 7], [0, 14], [4, 22], [1, 168], [0, 32]],
                  covers=["ended", "no session", "strangers"]),
                h("h_pair_conf", [[0, 1], [0, 32], [0, 34], [1, 32], [2, 32], [4, 18], [4, 32], [8, 64]], thorough=[[k, m] for k in (0, 4, 8) for n in (1, 2) for m in picks(n, (1, 2, 4, 16, 32, 128))] + [[k, m] for k in (1, 2, 9) for n in (1, 2) for m in picks(n, (8, 32, 128))], covers=["ended", "no session", "strangers"], features=["pair", "raw"])],
     "SHA-256 and SHA-384, P-256 and P-384 (signatures and key exchange), three ciphers, versions 1.1 and 1.2, secured message versions 1.0 and 1.1; MCTP; two kinds of choice open at a time, three for some in the thorough run.",
     "RSA, finite-field key exchange and SHA-512 (larger than this configuration's buffers); certificate based sessions with version 1.1 and hashed transcripts (refused by the library); mutual authentication together with a handshake in the clear (the library cannot).")

NOT_APPLICABLE = []
