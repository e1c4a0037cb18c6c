"""What each property is compared against (for DESIGN.md)."""
O = {
"P01": "The integer as a sum of its bytes, and a cursor kept beside the real one; buffers are filled with a pattern around the writable part.",
"P02": "The bytes the message was read from, masked with a table of reserved bits written from DSP0274 (harness/src/wire.rs `bits`): no second codec is needed.",
"P04": "DSP0275/DSP0276 and PCI DOE headers built by hand in the harness.",
"P05": "A snapshot of a fresh context: everything negotiated, transcripts, sessions and peer data must equal it, apart from message A.",
"P06": "The rules of DSP0274 table \"Flag fields\" restated over the raw bytes of the request; the answer is compared byte for byte.",
"P07": "Restated selection: intersection by priority list for each of eight algorithm kinds, over raw bytes.",
"P08": "What the requester itself sent and was configured with, and the responder's raw bytes; each response is accepted exactly when the restated rules hold, with every value taken from it.",
"P09": "A table of (request, connection state) pairs; whatever is not in it must be answered with ERROR and change nothing (snapshot before and after).",
"P10": "A table of (request, session phase) pairs, as for P09, for requests inside records.",
"P11": "A model of the slot table: which slots are free, which ids are in use.",
"P12": "The ideal-crypto log: the signature's, HMAC's and key derivations' inputs are followed back, call by call, to the raw bytes of the whole handshake.",
"P13": "The ideal-crypto log: established exactly if the HMAC of exactly the handshake's bytes under the peer's finished key equals the one received, and with mutual authentication the signature was verified over exactly them.",
"P14": "The ideal-crypto log: success exactly if a signature over exactly A, B, C (or L1/L2) was verified under the leaf of the chain for the slot asked for, and every hash in the response is the one recomputed.",
"P15": "As P12 and P13, from the requester's side, with the responder's answers arbitrary bytes.",
"P16": "The AEAD log: key, nonce (IV xor sequence number), associated data and length of each record against values computed in the harness; the two ends are also run against each other.",
"P17": "Which generation of which direction's key each end uses next, kept by the harness, over every sequence of KEY_UPDATE operations and failures.",
"P18": "The DSP0274 key schedule restated as a tree of HKDF calls with their labels; every derived secret is followed back through the crypto log.",
"P20": "The provisioned chains: portions are compared with the chain's own bytes, digests with the hash log.",
"P21": "What the responder sent portion by portion, and the log of chain verification.",
"P22": "An independent DER reader in the harness which decides well-formedness of the same symbolic bytes.",
"P23": "The documented status for each kind of answer, and a snapshot of the context before.",
"P25": "As P21 for the requester's chain fetched through encapsulated requests.",
"P26": "The provisioned measurement blocks and the crypto log; the response is rebuilt byte by byte.",
"P27": "As P26 for CHALLENGE_AUTH.",
"P28": "A recorder in place of the application's handlers: what it was given and what it answered against the raw bytes of request and response.",
"P29": "Snapshot of both sessions before and after.",
"P30": "No panic (every panic entry point is an error in the executor), no access outside an object, bounded steps, at most one send per request, the shape of the answer.",
"P31": "As P30 for the requester, and the timeout passed to the transport.",
"P19": "What both ends hold after the same conversation, compared with each other and with the undisturbed one; what the handlers were given, compared with what was sent.",
"P24": "The strongest element of the intersection of both configurations, computed in the harness; both ends compared with each other.",
}
