HOOKS = dict(
    guard="cfg(kani)",
    enable="cargo kani sets cfg(kani); no other build does",
    source_commits=["74807b98d487989ff88fe1641f22476062bf435f"],
)
NOT_APPLICABLE = {}
COMPLETE = ("Every obligation is discharged by Kani/CBMC on the compiled source of /repo, loops unwound completely "
            "(unwinding assertions on). ")
BUF = "Byte buffers have a stated maximal length; the code is loop-free in that length or unwound up to it, and those harnesses are counted as bounded. "
PROPS = [
dict(id="P01", title="Integers and buffers: exact little-endian encoding within bounds",
  statement="Every integer (8 to 128 bits, and 24 bits) encodes little-endian in exactly its size and decodes to the value encoded, consuming exactly its size; an encode or decode that does not fit is refused. A reader only ever returns the next bytes of its buffer and a refused read consumes nothing; a writer appends exactly the bytes given, refuses an append that does not fit, and changes no byte outside its capacity. Used plus left is always the length.",
  over=["inputs"], forall="every value, every buffer content and length, every sequence of reads or appends",
  why="The codec tests encode one constant per type into a buffer of exactly the right size; nothing exercises other values, offsets, short buffers or refused operations.",
  files=["codec/src/codec.rs"],
  mech=[("Codec impls for u8..u128, u24", "codec/src/codec.rs"), ("Reader::take/sub/rest, Writer::push/extend_from_slice", "codec/src/codec.rs")],
  note=COMPLETE + "Integers: all values, all buffer lengths up to size+4. " + BUF),
dict(id="P02", title="MCTP framing is exact and accepts only SPDM frames",
  statement="Framing a message for MCTP yields one type byte (SPDM, secured SPDM, or application) followed by the message unchanged, and unframing that returns the same message and kind. Unframing any received bytes succeeds exactly when the type byte is one of the two kinds expected and the payload fits the destination, and never writes outside the payload it reports. What does not fit is refused with an error.",
  over=["inputs"], forall="every message, frame, kind and buffer size",
  why="The transport tests frame one constant message into one buffer size; no test unframes arbitrary or short bytes.",
  files=["mctp_transport/src/header.rs"],
  mech=[("encap/decap, encap_app/decap_app", "mctp_transport/src/header.rs"), ("message header codec", "mctp_transport/src/header.rs")],
  note=COMPLETE + BUF + "Frames up to 24 bytes."),
dict(id="P03", title="PCI-DOE framing is exact and accepts only SPDM objects",
  statement="Framing a message for PCI-DOE yields the eight-byte header (PCI-SIG vendor, SPDM or secured SPDM type, zero byte, length of the whole object in dwords) followed by the message padded to a dword, and unframing that returns the message, its padding and its kind. Unframing any received bytes succeeds exactly when vendor and type are right, the declared length is present and fits the destination. What does not fit is refused with an error, never a panic.",
  over=["inputs"], forall="every message, frame, kind and buffer size, every 18-bit length",
  why="The transport tests frame one constant message into one buffer size; lengths, alignments and destinations that do not fit are not exercised.",
  files=["pcidoe_transport/src/header.rs"],
  mech=[("encap/decap, encap_app/decap_app", "pcidoe_transport/src/header.rs"), ("data object header codec", "pcidoe_transport/src/header.rs")],
  note=COMPLETE + BUF + "The header codec is proved for every length; frames up to 28 bytes."),
dict(id="P04", title="Status codes and their 32-bit encoding determine each other",
  statement="Every status value has one 32-bit code (severity in the top four bits, then zero bits, source, code), decoding that code gives the same status back, and a 32-bit value that is accepted is the code of the status it yields. Every named status has the code the SPDM library defines for it, so no two coincide. Propagating a status stops on everything but success and hands on the failing status unchanged.",
  over=["inputs"], forall="every status value and every 32-bit word",
  why="Tests compare individual statuses; the round trip quantifies over all 2^32 codes.",
  files=["spdmlib/src/error.rs"],
  mech=[("status codec, from/to u32", "spdmlib/src/error.rs"), ("named status constants", "spdmlib/src/error.rs"), ("Try impl", "spdmlib/src/error.rs")],
  note=COMPLETE + "All 2^32 codes and all status values; nothing bounded."),
dict(id="P05", title="Algorithm sets: only defined bits, right sizes, most preferred common choice",
  statement="Decoding an algorithm bit mask keeps exactly the bits SPDM defines, and each set correctly reports whether it is empty, single or larger. Choosing between an own and a peer's set yields the single most preferred algorithm present in both, and nothing when none is common. Every single algorithm reports its standard digest, signature, exchange-data, key, IV and tag size, which fits the buffer meant for it.",
  over=["inputs"], forall="every pair of bit masks, every algorithm",
  why="The tests decode one mask per type and negotiate one pair; a wrong preference order, a lost bit or a wrong size for an algorithm they do not select goes unseen.",
  files=["spdmlib/src/protocol/algo.rs"],
  mech=[("bit set codecs, prioritize, is_valid_one_select", "spdmlib/src/protocol/algo.rs"), ("get_size family", "spdmlib/src/protocol/algo.rs"), ("SpdmAlgStruct codec", "spdmlib/src/protocol/algo.rs")],
  note=COMPLETE + "All bit masks and pairs of masks; nothing bounded."),
dict(id="P06", title="Key schedule: every secret is the standard derivation of its parent",
  statement="Each handshake, master, directional, finished, exporter, encryption-key, IV and updated secret is obtained by exactly the one extraction or expansion SPDM defines: from the right parent secret, with the negotiated hash, the right label under the negotiated version, the right transcript hash and the right output length. If a derivation fails there is no secret.",
  over=["inputs"], forall="every secret, transcript hash and version; every hash and AEAD algorithm (quick: two or three per function)",
  why="No test compares a derived secret with the standard; both sides of the integration tests share one implementation, so a wrong label, parent or length goes unnoticed.",
  files=["spdmlib/src/common/key_schedule.rs"],
  mech=[("derive_* functions", "spdmlib/src/common/key_schedule.rs"), ("binconcat", "spdmlib/src/common/key_schedule.rs")],
  note=COMPLETE + "HKDF itself is an assumed primitive, recorded by a spy which returns arbitrary bytes or fails. binconcat on short buffers is bounded."),
dict(id="P07", title="Secured messages: bound to session, sequence number and content; tampering refused",
  statement="A secured message is the session id, the sequence number when the transport carries one, and the length, all authenticated, then the ciphertext and tag of the application data and its length, sealed with the sending direction's key under the IV combined with a sequence number that is never reused. It is opened only with the receiving direction's key and next number, only if session, number, length and tag are right; each attempt moves that direction on by one number and changes nothing else. What does not fit, or comes outside a handshake or established session, is refused with an error.",
  over=["inputs", "histories"], forall="every message, session, direction, state and sequence number",
  why="Tests seal and open a fixed message once or twice with matching peers; no test checks what is authenticated, alters a byte, reorders messages or gets near the end of the number space.",
  files=["spdmlib/src/common/session.rs"],
  mech=[("encode_spdm_secured_message, decode_spdm_secured_message", "spdmlib/src/common/session.rs"), ("encode_msg, decode_msg", "spdmlib/src/common/session.rs"), ("sequence numbers", "spdmlib/src/common/session.rs")],
  note=COMPLETE + "The AEAD primitive is assumed (spy: arbitrary output or failure). Application data of small lengths is unwound completely and labelled bounded; sequence numbers, keys and states are unrestricted."),
dict(id="P08", title="Session secrets: one per session and direction, updated and erased as required",
  statement="After key exchange or pre-shared-key set-up each direction of a session holds exactly the key and IV derived from its own secret with sequence number zero; in the established phase the handshake secrets are replaced. A key update replaces exactly the chosen directions' secrets by their successors, keeps the old one until the update is activated, and restores it exactly if it is abandoned. Tearing down or setting up a session erases everything of the previous one.",
  over=["inputs", "histories"], forall="every session content and every update, activation and teardown sequence up to the stated length",
  why="The key-update and teardown tests only check that calls return; they never look at which secret is in use for which direction or what is left behind.",
  files=["spdmlib/src/common/session.rs"],
  mech=[("generate_handshake_secret, generate_data_secret", "spdmlib/src/common/session.rs"), ("create_data_secret_update, activate_data_secret_update", "spdmlib/src/common/session.rs"), ("setup, teardown, set_default", "spdmlib/src/common/session.rs"), ("generate_hmac_with_*, verify_hmac_with_*", "spdmlib/src/common/session.rs")],
  note=COMPLETE + "HKDF is a free term algebra (different inputs give different secrets), HMAC is recorded; both are assumed primitives."),
dict(id="P09", title="Version and capability messages: exact layout, only legal capability sets",
  statement="Message headers, GET_VERSION, VERSION, GET_CAPABILITIES and CAPABILITIES are written and read exactly as SPDM lays them out for the negotiated version. A capability message is accepted exactly when it is complete, its buffer sizes are at least the protocol's minimum and consistent, and no flags contradict each other under that version; a VERSION message only when its count fits. Undefined flag bits are dropped, and what does not fit a buffer is refused.",
  over=["inputs"], forall="every message content and length, every flag combination, versions 1.0 to 1.2",
  why="The codec tests decode one flag combination per version; the rules on contradictory flags, short messages and buffer sizes are not sampled.",
  files=["spdmlib/src/message/capability.rs", "spdmlib/src/message/version.rs", "spdmlib/src/message/mod.rs", "spdmlib/src/protocol/capability.rs"],
  mech=[("GET_CAPABILITIES/CAPABILITIES codecs", "spdmlib/src/message/capability.rs"), ("VERSION codec", "spdmlib/src/message/version.rs"), ("header codec", "spdmlib/src/message/mod.rs")],
  note=COMPLETE + "All contents and all lengths up to the message size plus slack. Sessions are configured small (two slots) because they do not take part."),
dict(id="P10", title="Algorithm negotiation messages: exact layout, exactly one legal selection",
  statement="NEGOTIATE_ALGORITHMS and ALGORITHMS are written and read exactly as SPDM lays them out for the negotiated version, and accepted only when complete, with the declared length and known algorithm structures in increasing order. An ALGORITHMS message is accepted exactly when each selection holds at most one algorithm, and exactly one where the agreed capabilities need it (signature, hash, measurement hash and specification, opaque format and each listed structure).",
  over=["inputs"], forall="every message content, every pair of capability sets, versions 1.0 to 1.2",
  why="The codec tests decode one message per version under one capability pair; multiple or missing selections and malformed structure tables are not sampled.",
  files=["spdmlib/src/message/algorithm.rs", "spdmlib/src/protocol/algo.rs"],
  mech=[("NEGOTIATE_ALGORITHMS codec", "spdmlib/src/message/algorithm.rs"), ("ALGORITHMS codec", "spdmlib/src/message/algorithm.rs"), ("algorithm structure codec", "spdmlib/src/protocol/algo.rs")],
  note=COMPLETE + "Callers of the algorithm structure decoder are checked against its contract, which is discharged separately. Truncated messages with structures are bounded to one byte short; without structures every length is covered. Structure counts 0, 2, 4 and too many in the quick tier, all in the thorough tier."),
dict(id="P11", title="Transcripts: each covers exactly its messages, in order, and is reset when SPDM says",
  statement="The negotiation transcript holds the bytes appended, in order; the certificate, measurement and session transcripts are hashed over it (measurements from version 1.2 on), over the certificate chain hash where SPDM includes it, and over the messages appended, in order, with the negotiated hash, each connection or session having its own. What is refused by the hash or does not fit is an error. A request resets exactly the transcripts SPDM ends with it: the certificate transcript until authentication, the measurement transcript except for measurements.",
  over=["inputs", "histories"], forall="every message content, request code and connection state; versions, roles and mutual authentication each",
  why="Both sides of an integration run share this code, so an omitted, misplaced or leftover message agrees with itself and no test notices.",
  files=["spdmlib/src/common/mod.rs", "spdmlib/src/message/mod.rs"],
  mech=[("append_message_*, reset_message_*", "spdmlib/src/common/mod.rs"), ("calc_req/rsp_transcript_hash", "spdmlib/src/common/mod.rs"), ("reset_buffer_via_request_code", "spdmlib/src/common/mod.rs")],
  note=COMPLETE + "The hash is an assumed primitive, recorded by a spy; message contents are compared at one arbitrary position. Message lengths are a few fixed small ones."),
dict(id="P12", title="Session table: a message reaches the session it names, and no other",
  statement="Looking up a session finds exactly the slot in use under that id, allocation picks a free slot, and half session ids given out never repeat one in use. A secured message is sealed or opened by the session its id names, in the right direction, framed as an application then a secured message; for an unknown session, a frame of the other kind, or a failing stage nothing is sent or accepted. Starting over forgets the connection, the peer and every session.",
  over=["inputs", "histories"], forall="every pair of session ids, every message content, every stage failing",
  why="Tests use one session; id clashes, full tables and failures between stages are not exercised.",
  files=["spdmlib/src/common/mod.rs"],
  mech=[("get_session_via_id, get_next_half_session_id", "spdmlib/src/common/mod.rs"), ("encode_secured_message, decode_secured_message", "spdmlib/src/common/mod.rs"), ("reset_context", "spdmlib/src/common/mod.rs")],
  note=COMPLETE + "Two session slots instead of four. Sealing and opening are taken by contract (discharged in P07); transports are arbitrary. Message lengths are small fixed ones."),
dict(id="P13", title="Responder: each request is served only where SPDM allows it",
  statement="A request in the clear or in a session is given, complete and unchanged, to the handler for exactly that request code and that session, and only in the phase where SPDM allows it: no session request in the clear, only the finish requests while a session is being set up, in the clear only when both sides agreed to that, application data only in an established session. Any other known request is refused with the ERROR SPDM defines for it; what cannot be received, unframed or opened reaches no handler and changes no state.",
  over=["inputs", "histories"], forall="every message content, request code, session state and pair of capabilities; every stage failing",
  why="The dispatch tests send the expected request in the expected phase; a handler reachable in a wrong phase or a misrouted request is not exercised.",
  files=["spdmlib/src/responder/context.rs"],
  mech=[("process_message, dispatch_message, dispatch_secured_message", "spdmlib/src/responder/context.rs"), ("dispatch_secured_app_message", "spdmlib/src/responder/context.rs")],
  note=COMPLETE + "Request handlers and the opening of secured messages are taken by contract (any outcome). Message lengths are a few fixed small ones; two session slots."),
dict(id="P14", title="Responder: connection and session states follow what was actually sent",
  statement="A response is framed, secured for its session where it belongs to one, and sent exactly once; only when it was sent does the state move: the connection forwards by exactly the step of that response, a session to established by a finish response, and to closed with all its secrets erased by the end of the session. Any other message, application data, and any failure to frame, secure or send leave the connection and every session as they were.",
  over=["inputs", "histories"], forall="every response content, connection state and session state; every stage failing",
  why="Tests send well-formed responses over a working transport; a response lost on the way, an application answer that looks like a response, or a state moved backwards goes unseen.",
  files=["spdmlib/src/responder/context.rs"],
  mech=[("send_message, send_secured_message", "spdmlib/src/responder/context.rs")],
  note=COMPLETE + "Sealing is taken by contract (discharged in P07). Message lengths are a few fixed small ones; two session slots."),
dict(id="P15", title="Responder negotiation: only what both sides offer, exactly as announced",
  statement="GET_VERSION is answered with the configured versions and starts the connection over; GET_CAPABILITIES and NEGOTIATE_ALGORITHMS are answered only in their turn and under the version chosen. What is selected is a version this responder offers, the peer's and own capabilities, and of each algorithm kind the one most preferred of those both offer in this very negotiation, or none; the response states exactly that selection and the negotiation transcript holds exactly request and response. What is malformed, out of turn or cannot be recorded is answered by one ERROR alone.",
  over=["inputs"], forall="every request content, own configuration and connection state; versions 1.0 to 1.2",
  why="Tests negotiate one configuration once; another offer, a second attempt, or a failure half way is not exercised.",
  files=["spdmlib/src/responder/version_rsp.rs", "spdmlib/src/responder/capability_rsp.rs", "spdmlib/src/responder/algorithm_rsp.rs", "spdmlib/src/responder/error_rsp.rs"],
  mech=[("write_spdm_version_response", "spdmlib/src/responder/version_rsp.rs"), ("write_spdm_capability_response", "spdmlib/src/responder/capability_rsp.rs"), ("write_spdm_algorithm", "spdmlib/src/responder/algorithm_rsp.rs"), ("write_spdm_error", "spdmlib/src/responder/error_rsp.rs")],
  note=COMPLETE + "Transcripts, the algorithm structure decoder and certificate chain construction are taken by contract. Request lengths are the exact ones and a few too short ones; structure tables 0, 2 and 4 long."),
dict(id="P16", title="Responder certificates: exactly what is provisioned, under the negotiated hash",
  statement="DIGESTS names exactly the provisioned slots and holds, in slot order, the hash of each whole chain; CERTIFICATE carries the portion asked for (at most what remains and 512 bytes) and states how much remains, or ERROR where nothing is there. A chain given out is its length, the hash of its root certificate under the hash negotiated in this connection, and the certificates. Requests before negotiation, under another version or incomplete are refused with one ERROR; outside a session the transcript holds exactly request and response, and a failing provider is an ERROR.",
  over=["inputs"], forall="every chain content and connection state, offsets and lengths at and around the boundaries, every provider failing",
  why="Tests provision one chain in slot 0 and read it in one fixed way; other slots, ends of chains, renegotiated hashes and failures are not exercised.",
  files=["spdmlib/src/responder/digest_rsp.rs", "spdmlib/src/responder/certificate_rsp.rs", "spdmlib/src/common/mod.rs"],
  mech=[("write_spdm_digest_response", "spdmlib/src/responder/digest_rsp.rs"), ("write_spdm_certificate_response", "spdmlib/src/responder/certificate_rsp.rs"), ("construct_my_cert_chain", "spdmlib/src/common/mod.rs")],
  note=COMPLETE + "Contents are unrestricted; chain lengths, portions and provisioned slots are a few fixed ones including the boundaries. Transcripts and sending are taken by contract."),
dict(id="P17", title="Responder authentication: CHALLENGE is answered by a fresh signature over the exact transcript",
  statement="CHALLENGE_AUTH carries the hash of the chain in the slot asked for, 32 fresh random bytes, the measurement summary asked for, and a signature by the negotiated algorithm over the SPDM 1.2 signing prefix, the challenge purpose and the hash of the authentication transcript, which holds exactly the request and the response up to the signature; then the transcript ends. A slot not provisioned, a summary the responder does not offer, another version or an incomplete request is refused with one ERROR and nothing is signed; a failing provider is an ERROR.",
  over=["inputs"], forall="every request content, chain content and connection state; every provider failing",
  why="Tests check that a response comes back; what was signed, over which transcript, and that failures sign nothing is never looked at.",
  files=["spdmlib/src/responder/challenge_rsp.rs"],
  mech=[("write_spdm_challenge_response", "spdmlib/src/responder/challenge_rsp.rs"), ("generate_challenge_auth_signature", "spdmlib/src/responder/challenge_rsp.rs")],
  note=COMPLETE + "The slot mask of the response is not part of the property. Transcripts and sending are taken by contract; hash, signature, random and measurement providers are assumed primitives. Build with hashed transcripts."),
dict(id="P18", title="Responder measurements: exactly those asked for, signed over the exact transcript when asked to",
  statement="MEASUREMENTS carries the number of measurements when that is asked for, else the record the device gives for exactly the index asked for, 32 fresh random bytes, and, only when asked for, slot, content change and a signature over the SPDM 1.2 signing prefix, the measurement purpose and the hash of the measurement transcript of that connection or session. The transcript holds exactly request and response up to the signature, continues while measurements are unsigned and ends with the signature. An index the device does not have, a slot not provisioned, undefined attributes, another version or an incomplete request is refused with one ERROR and leaves no trace; a failing provider is an ERROR.",
  over=["inputs"], forall="every request content, device answer and connection state, in and outside sessions; every provider failing",
  why="Tests request one set of measurements from a device with ten; a single measurement, an index out of range, transcripts spanning requests and failures are not exercised.",
  files=["spdmlib/src/responder/measurement_rsp.rs", "spdmlib/src/message/measurement.rs"],
  mech=[("write_spdm_measurement_response", "spdmlib/src/responder/measurement_rsp.rs"), ("generate_measurement_signature", "spdmlib/src/responder/measurement_rsp.rs"), ("MEASUREMENTS codec", "spdmlib/src/message/measurement.rs")],
  note=COMPLETE + "Record lengths and measurement counts are a few fixed ones. Transcripts and sending are taken by contract; hash, signature, random and measurement providers are assumed primitives. Build with hashed transcripts."),
dict(id="P19", title="Responder session set-up: KEY_EXCHANGE yields one session, authenticated over the exact transcript",
  statement="A KEY_EXCHANGE accepted creates exactly one new session, named by both halves, holding the negotiated algorithms, the key agreed between a fresh key pair of the negotiated group and the requester's key, and the handshake secrets of exactly request, response up to its signature and signature; the response carries that public key, fresh randomness, the summary and secured message version asked for, a signature over the signing prefix, the key exchange purpose and that transcript, and verify data unless both sides chose a handshake in the clear. A request out of turn, under another version, for a slot not provisioned or with no session left is refused with one ERROR and records and signs nothing. Whenever anything fails half way one ERROR is sent, the session is free again and no other session is touched.",
  over=["inputs", "histories"], forall="every request content, session state of others and connection state; every provider and every step failing",
  why="No unit test reaches a successful key exchange with real transcripts, let alone one that fails half way with another session open.",
  files=["spdmlib/src/responder/key_exchange_rsp.rs", "spdmlib/src/common/mod.rs"],
  mech=[("write_spdm_key_exchange_response", "spdmlib/src/responder/key_exchange_rsp.rs"), ("generate_key_exchange_rsp_signature", "spdmlib/src/responder/key_exchange_rsp.rs")],
  note=COMPLETE + "Message codec, transcripts, session secrets and sending are taken by contract; hash, DHE, signature, random and measurement providers are assumed primitives. SPDM 1.2, P-256, SHA-256, two session slots; build with hashed transcripts and mutual authentication."),
dict(id="P20", title="Responder session set-up: FINISH establishes a session only for the peer that shares its keys",
  statement="A session set up by certificates gets data secrets, those of its whole transcript, only after the verify data of FINISH was verified over the transcript up to it and, where mutual authentication was requested, the requester's signature over the signing prefix, the finish purpose and that transcript was verified under the requester's certificate chain. FINISH_RSP is sent in that session, or in the clear with verify data over the transcript when both sides chose so. A FINISH with a wrong, missing or unasked signature, wrong verify data, another version, an incomplete one, one for a PSK session, or any failing step is answered by one ERROR and the session gets no data secrets.",
  over=["inputs", "histories"], forall="every request content, with and without mutual authentication, in the clear or not; every step failing",
  why="Unit tests have no requester to finish with; which transcript is verified, in which order, and that no failing step is passed over is not exercised.",
  files=["spdmlib/src/responder/finish_rsp.rs"],
  mech=[("write_spdm_finish_response", "spdmlib/src/responder/finish_rsp.rs"), ("verify_finish_req_signature", "spdmlib/src/responder/finish_rsp.rs")],
  note=COMPLETE + "Transcripts, session secrets and sending are taken by contract; signature verification is an assumed primitive. SPDM 1.2, P-256 on both sides, SHA-256, two session slots; build with hashed transcripts."),
dict(id="P21", title="Responder session set-up with a pre-shared key: one session, bound to hint, contexts and transcript",
  statement="A PSK_EXCHANGE accepted creates exactly one new session, named by both halves, whose handshake secrets come from the pre-shared key of the hint received and the transcript of exactly request and response; the response carries a fresh context unless none was agreed, the summary and secured message version asked for, and verify data over that transcript. Without a responder context the session gets its data secrets at once, otherwise only after the verify data of PSK_FINISH was verified over the transcript up to it, in a session set up with a pre-shared key. What is out of turn, of another version, incomplete, wrong or fails half way is answered by one ERROR; no session slot stays occupied, no secrets are made and no other session is touched.",
  over=["inputs", "histories"], forall="every request content, session state of others and connection state; every provider and every step failing",
  why="No unit test completes a session with a pre-shared key, let alone one that fails half way with another session open.",
  files=["spdmlib/src/responder/psk_exchange_rsp.rs", "spdmlib/src/responder/psk_finish_rsp.rs"],
  mech=[("write_spdm_psk_exchange_response", "spdmlib/src/responder/psk_exchange_rsp.rs"), ("write_spdm_psk_finish_response", "spdmlib/src/responder/psk_finish_rsp.rs")],
  note=COMPLETE + "Message codecs (P23), transcripts, session secrets and sending are taken by contract; hash, random and measurement providers are assumed primitives. SPDM 1.2, SHA-256, two session slots; build with hashed transcripts."),
dict(id="P22", title="Responder session maintenance: what is acknowledged is what was done",
  statement="Heartbeat, key update and end of session are acknowledged in the session with exactly their response, a key update with the operation and tag asked for and only after exactly the keys asked for were replaced (the requester's, or both directions', the old ones kept until verified where SPDM says so); if new keys cannot be derived all keys stay and the answer is ERROR. A vendor defined request is given to the vendor's handler complete and unchanged and its answer is sent under the same ids; without a handler, or if it fails, the answer is ERROR. What is incomplete, undefined, over-long or of another version is refused with one ERROR and changes no keys.",
  over=["inputs"], forall="every request content and length, operation and tag; every key derivation and handler failing",
  why="The unit tests send one well-formed request each and look at neither keys nor answer; failing updates, other operations and over-long payloads are not exercised.",
  files=["spdmlib/src/responder/heartbeat_rsp.rs", "spdmlib/src/responder/key_update_rsp.rs", "spdmlib/src/responder/end_session_rsp.rs", "spdmlib/src/responder/vendor_rsp.rs", "spdmlib/src/message/vendor.rs"],
  mech=[("write_spdm_heartbeat_response, write_spdm_end_session_response", "spdmlib/src/responder"), ("write_spdm_key_update_response", "spdmlib/src/responder/key_update_rsp.rs"), ("write_spdm_vendor_defined_response", "spdmlib/src/responder/vendor_rsp.rs")],
  note=COMPLETE + "Key updates are taken by contract (P08), as are transcripts and sending. Vendor payloads of a few fixed lengths (bounded), their length field for all values."),
dict(id="P23", title="Messages that set up and maintain sessions: exact layout and acceptance",
  statement="KEY_EXCHANGE, PSK_EXCHANGE, FINISH and PSK_FINISH requests and responses are written and read exactly as SPDM lays them out under the negotiated version and algorithms, every field in its place; a summary can be asked for only where the responder measures, and what is incomplete, over-long or undefined is refused. Heartbeat, key update and end of session messages are their two parameters, with defined operations only. The lists of secured message versions in opaque data are found exactly where DSP0277 puts them, with the head the negotiated version asks for, and what one side writes the other understands.",
  over=["inputs"], forall="every message content; every capability set for the summary; versions 1.1 and 1.2",
  why="The codec tests encode constants with every field alike and decode them with the same code, so swapped fields, a wrong constant on both sides or an unchecked length go unseen.",
  files=["spdmlib/src/message/key_exchange.rs", "spdmlib/src/message/psk_exchange.rs", "spdmlib/src/message/finish.rs", "spdmlib/src/message/psk_finish.rs", "spdmlib/src/message/key_update.rs", "spdmlib/src/common/opaque.rs"],
  mech=[("KEY_EXCHANGE codec", "spdmlib/src/message/key_exchange.rs"), ("PSK_EXCHANGE codec", "spdmlib/src/message/psk_exchange.rs"), ("FINISH codecs", "spdmlib/src/message/finish.rs"), ("opaque data", "spdmlib/src/common/opaque.rs")],
  note=COMPLETE + "P-256 and SHA-256; hint, context and opaque data of a few fixed lengths (bounded), as are the lists of versions."),
dict(id="P24", title="Requester negotiation: only what both sides offer, exactly as answered",
  statement="GET_VERSION, GET_CAPABILITIES and NEGOTIATE_ALGORITHMS are sent exactly as SPDM lays them out, with the requester's own configuration, and the answers decide: the highest version both sides list is selected, the responder's capabilities and sizes are kept as stated, and of the algorithms only ones this requester offered are accepted, a hash and a signature among them. The transcript then holds exactly each request and each response. Without a common version, with an algorithm never offered, or with any other, foreign, incomplete or missing answer, the negotiation fails and nothing is recorded for the transcript.",
  over=["inputs"], forall="every own configuration; every answer; every sending, receiving or recording failing",
  why="The unit tests run one negotiation against the library's own responder, whose answers are always fitting; unsorted or foreign version lists, algorithms never offered and failing steps never occur.",
  files=["spdmlib/src/requester/get_version_req.rs", "spdmlib/src/requester/get_capabilities_req.rs", "spdmlib/src/requester/negotiate_algorithms_req.rs", "spdmlib/src/requester/handle_error_response_req.rs"],
  mech=[("send_receive_spdm_version", "spdmlib/src/requester/get_version_req.rs"), ("send_receive_spdm_capability", "spdmlib/src/requester/get_capabilities_req.rs"), ("send_receive_spdm_algorithm", "spdmlib/src/requester/negotiate_algorithms_req.rs")],
  note=COMPLETE + "Response decoders (P09, P10), transcripts, sending and receiving are taken by contract; lists of one to three versions, algorithm answers with 0, 2 and 4 structures."),
dict(id="P25", title="Requester authentication of a responder: chain and signature decide",
  statement="GET_DIGESTS, GET_CERTIFICATE and CHALLENGE are sent exactly as SPDM lays them out, with 32 fresh random bytes in CHALLENGE; a portion of a chain is kept, at its place, only if it is of the slot asked for, no longer than asked for, fits the room and the length of the chain known so far, and brings something while more remains. A chain is accepted for a slot exactly when it has come whole, every certificate verifies, the root hash in it is that of its root certificate, and the root is the one provisioned, if any; a challenge exactly when the signature verifies, by the chain retrieved from that slot, over the SPDM 1.2 signing prefix, the purpose and the hash of the transcript of the connection. Transcripts hold exactly request and response (up to the signature) outside a session, and any other, foreign, incomplete or missing answer is an error that records nothing.",
  over=["inputs"], forall="every answer; every slot, offset and portion; chains whole, cut, foreign or unverifiable; every sending, receiving, hashing, random or recording step failing",
  why="The unit tests authenticate the library's own responder, whose portions always fit and whose signature is good; portions of other slots, without progress or beyond the room, wrong roots and forged signatures never occur.",
  files=["spdmlib/src/requester/get_digests_req.rs", "spdmlib/src/requester/get_certificate_req.rs", "spdmlib/src/requester/challenge_req.rs", "spdmlib/src/message/digest.rs", "spdmlib/src/message/certificate.rs", "spdmlib/src/message/challenge.rs"],
  mech=[("send_receive_spdm_digest", "spdmlib/src/requester/get_digests_req.rs"), ("send_receive_spdm_certificate", "spdmlib/src/requester/get_certificate_req.rs"), ("verify_spdm_certificate_chain", "spdmlib/src/requester/get_certificate_req.rs"), ("send_receive_spdm_challenge", "spdmlib/src/requester/challenge_req.rs")],
  note=COMPLETE + "Certificate and signature verification are assumed primitives, recorded; transcripts, sending and receiving are taken by contract; chains of up to three portions, a verified chain of 46 bytes."),
dict(id="P26", title="Requester measurements: reported only when complete, and verified when signed",
  statement="GET_MEASUREMENTS is sent exactly as SPDM lays it out, with 32 fresh random bytes and the slot when a signature is asked for, and reports the number of measurements or the record of the answer; when a signature was asked for, it reports exactly when that signature verifies, by the chain retrieved from the slot, over the SPDM 1.2 signing prefix, the measurement purpose and the hash of the measurement transcript of that connection or session. The transcript holds exactly request and response up to the signature, continues while measurements are unsigned and ends with the signature, verified or not. A record whose blocks are not ascending, not of their size, not of the negotiated digest or not filling it is refused, as is any other, foreign, incomplete or missing answer, and then nothing is reported.",
  over=["inputs"], forall="every operation, slot, content and answer; connection and session; SPDM 1.0, 1.1 and 1.2; every sending, receiving, hashing, random, verifying or recording step failing",
  why="The unit tests ask the library's own responder for measurements, which are always well formed and well signed; forged signatures, wrong blocks, another session's transcript and failing steps never occur.",
  files=["spdmlib/src/requester/get_measurements_req.rs", "spdmlib/src/message/measurement.rs", "spdmlib/src/common/spdm_codec.rs"],
  mech=[("send_receive_spdm_measurement_record", "spdmlib/src/requester/get_measurements_req.rs"), ("verify_measurement_signature", "spdmlib/src/requester/get_measurements_req.rs"), ("SpdmMeasurementRecordStructure::spdm_read", "spdmlib/src/common/spdm_codec.rs")],
  note=COMPLETE + "Signature verification is an assumed primitive, recorded; transcripts, sending and receiving are taken by contract; records of up to two blocks."),
dict(id="P27", title="Requester session set-up: only with a responder that proved its keys",
  statement="KEY_EXCHANGE, PSK_EXCHANGE, FINISH and PSK_FINISH are sent exactly as SPDM lays them out, with fresh randomness, a fresh key pair of the negotiated group, the identity of a free session and the versions of secured messages supported. A session with certificates exists after KEY_EXCHANGE exactly when the signature verifies, by the chain retrieved from the slot, over the SPDM 1.2 signing prefix, the purpose and the hash of the transcript, and, unless the handshake is in the clear, the verify data does too; one with a pre-shared key exactly when its verify data does. It then has the identity, algorithms, heartbeat period, secured message version and mutual authentication agreed, and keys derived from the shared key and that transcript; it is established exactly when the finishing exchange succeeds (with its verify data, in the clear), with keys of the whole transcript. Transcripts hold exactly requests and responses, signature and verify data each where it is due. Any other, foreign, incomplete or missing answer and any failing step is an error, after which the session is free again and every other session is as it was.",
  over=["inputs"], forall="every policy, kind of summary, content, signature and verify data; handshakes in the clear and not; mutual authentication or not; every sending, receiving, agreeing, hashing, deriving, random, signing, verifying or recording step failing",
  why="The unit tests set up sessions with the library's own responder, whose answers are well signed; forged signatures and verify data, foreign versions, sessions in use and failing steps never occur, and no test looks at what is signed, derived or left behind.",
  files=["spdmlib/src/requester/key_exchange_req.rs", "spdmlib/src/requester/finish_req.rs", "spdmlib/src/requester/psk_exchange_req.rs", "spdmlib/src/requester/psk_finish_req.rs", "spdmlib/src/requester/context.rs"],
  mech=[("send_receive_spdm_key_exchange", "spdmlib/src/requester/key_exchange_req.rs"), ("verify_key_exchange_rsp_signature", "spdmlib/src/requester/key_exchange_req.rs"), ("send_receive_spdm_finish", "spdmlib/src/requester/finish_req.rs"), ("send_receive_spdm_psk_exchange", "spdmlib/src/requester/psk_exchange_req.rs"), ("send_receive_spdm_psk_finish", "spdmlib/src/requester/psk_finish_req.rs")],
  note=COMPLETE + "Key agreement, signing and signature verification are assumed primitives, recorded; exchange codecs (P23), transcripts, session secrets, sending and receiving are taken by contract; SPDM 1.2, P-256 and SHA-256, a chain of 41 bytes."),
]
