#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

XX = "vru-session/src/handshake/xx.rs"; KEY = "vru-session/src/handshake/key.rs"; NZ = "vru-session/src/handshake/noise.rs"
SYM = "vru-noise/src/symmetric_state.rs"; CIP = "vru-noise/src/cipher_state.rs"; HASH = "vru-noise/src/hash.rs"
ONE = "The single session test runs one fixed seed, one payload size and no adversary."

p("C01", "Honest handshake: both ends agree on everything",
  "When the four handshake messages are delivered unmodified, both sides complete without error, report the same session hash, each reports exactly the other's long-term public key, and every one of the four payloads arrives exactly as supplied. The two transport ciphers then interoperate in both directions: what one side encrypts the other decrypts, for every message in order.",
  ["inputs", "histories"], "all key seeds, ephemeral seeds, encapsulation seeds, payload contents and payload sizes, including concurrent sessions between the same parties",
  ONE + " It never sends from initiator to responder and compares nothing for other seeds or sizes.",
  [XX, KEY, NZ, SYM, CIP], [("out0/take0_out1/take1_out2/take2_out3/take_3", XX), ("finish + swap", XX)],
  [("symmetric_state", "running transcript hash and chaining key", XX)], ["return values of the five handshake functions", "encrypt/decrypt of the resulting ciphers"])
p("C02", "Any alteration of a handshake message is detected",
  "If any byte of any field of a delivered handshake message differs from what the peer sent - by corruption, by substitution of the same field from another session, or by replaying an older message - no party completes a handshake with that message in its transcript: the first party whose check depends on the altered field returns an error. In particular the two sides never both complete with different views of the transcript.",
  ["inputs", "histories", "fault_sequences"], "every field and byte of messages 0 to 3, every cross-session substitution and replay among concurrent sessions, all seeds and payload sizes",
  ONE + " No test ever delivers a message that was tampered with.",
  [XX, KEY, SYM, HASH, "vru-kyber/src/kem.rs"], [("hash of every public key and ciphertext mixed into the associated data", XX), ("implicit rejection of altered encapsulations", "vru-kyber/src/kem.rs")],
  [("hash", "transcript hash used as associated data", SYM)], ["Ok/Err of take1_out2, take2_out3, take_3"])
p("C03", "Peers are who they claim to be; the requested identity is enforced",
  "A party completes a handshake reporting a long-term public key for its peer only if the holder of the matching secret key took part in that same session. An initiator that asked for a given identity gets an error from the responder's first reply unless that reply presents the long-term key with exactly that identity, and it never completes a handshake with a responder that was addressed under another identity.",
  ["inputs", "histories", "fault_sequences"], "all combinations of honest and dishonest initiators and responders, including a man in the middle that knows every public value and runs the protocol with keys of its own",
  ONE + " Impersonation and identity mismatch are never attempted.",
  [XX, KEY], [("identity of the responder mixed first and compared with the received static key", XX), ("static-ephemeral shared secrets in both directions", XX)],
  [], ["Ok/Err of take1_out2, take2_out3, take_3", "reported peer public key"])
p("C04", "No malformed handshake or transport input crashes an endpoint",
  "Whatever bytes a peer sends as a handshake message or as an encrypted transport message, the receiving function returns (an error where the input is not genuine); it never panics. This includes public keys that are not valid curve points, arbitrary key-encapsulation ciphertexts and transport messages shorter than an authentication tag.",
  ["inputs"], "all byte strings in each field of each handshake message, also when sent by an authenticated peer, and all transport messages of any length",
  "Tests only feed well-formed messages produced by the library itself.",
  [XX, KEY, CIP, "vru-kyber/src/indcpa.rs", "vru-kyber/src/poly.rs"], [("point decompression in message processing", KEY), ("length check before splitting off the tag", CIP)],
  [], ["return or unwind of take0_out1, take1_out2, take2_out3, take_3, decrypt_ext"])
p("C05", "Handshake bytes follow the documented pattern exactly",
  "For given seeds and payloads every handshake message, the session hash and both transport keys are exactly the bytes prescribed by the documented pattern (-> e; <- ec,(p),e,ee,s,es; -> ec,(q),sc,s,se,(r); <- sc,(s)) over the Noise symmetric-state rules, SHA3-256, ChaCha20-Poly1305, Curve25519 and the key encapsulation, so an independent implementation interoperates. Outputs depend on nothing but the arguments.",
  ["inputs"], "all seeds, identities and payload sizes",
  "One fixed run compares only the final hash, which does not cover the last chaining-key inputs or the transport keys.",
  [XX, KEY, NZ, SYM, HASH, CIP], [("token order of the pattern", XX), ("HKDF split and nonce rules", SYM)],
  [], ["bytes of messages 0 to 3, session hash, first transport ciphertexts"])
p("C06", "Sessions and directions are cryptographically separate",
  "Two undisturbed sessions that differ in any seed, identity or payload end with different session hashes, and with unrelated transport keys whenever they differ in more than payloads (keys depend on seeds and identities only). Within one session the two directions use different keys. A transport message from one direction or from a session with other keys is never accepted in that session, in the opposite direction, or by its own sender.",
  ["inputs", "histories"], "all pairs of sessions and directions, all interleavings of their traffic",
  "The session test runs one session and one direction only.",
  [XX, CIP, SYM, NZ], [("split into two keys and swap at the responder", XX), ("chaining key fed by all ephemeral and static secrets", XX)],
  [("send/receive", "directional cipher states", CIP)], ["Ok/Err of decrypt across sessions and directions", "session hashes"])
p("C07", "Transport delivers exactly the sent sequence, authenticated",
  "On an established channel a receiver accepts a message only if it is the next message the peer sent in that direction, byte for byte and with the same associated data, and then recovers exactly the plaintext. Dropped, reordered, replayed, truncated, extended, altered, reflected or cross-channel messages are rejected, so the accepted sequence is always a prefix of the sent one.",
  ["histories", "inputs", "schedules"], "all interleavings of sends and deliveries in both directions under an adversarial network, all message sizes including empty, all associated data, long runs",
  "Existing tests send at most 16 messages, in order, in one direction, and never present a wrong one.",
  [CIP], [("counter nonce per direction", CIP), ("tag verification", CIP)],
  [("nonce", "number of messages processed in this direction", CIP)], ["results of encrypt, decrypt, encrypt_ext, decrypt_ext"])
p("C08", "A rejected message leaves the channel undisturbed",
  "When a transport message is rejected, the receiving side is exactly as before: the genuine next message still decrypts, in either direction, however many forgeries came in between. Sending is never affected by what was received, and receiving is never affected by what was sent.",
  ["histories", "fault_sequences"], "all sequences of genuine and rejected messages in both directions",
  "No existing test presents a message that must be rejected.",
  [CIP], [("nonce advanced only on success", CIP)],
  [("nonce", "receive counter", CIP)], ["decrypt results after rejections"])
p("C09", "No key and nonce pair is reused; key rotation stays in step",
  "Every message encrypted on a channel uses a (key, nonce) pair never used before by that channel, with the message counter as the nonce in the byte order of the cipher suite, for arbitrarily many messages. With a rotating key schedule the key is rotated after every INTERVAL messages successfully processed in that direction - never on rejected ones - so both ends always hold the same key and continue to interoperate across rotations.",
  ["histories"], "all interval settings, message counts across byte-boundary rollovers (2^8, 2^16, 2^32), interleaved directions and rejections",
  "No test uses a rotating schedule or more than 16 messages.",
  [CIP], [("next: increment and rotate", CIP), ("nonce serialisation", CIP)],
  [("nonce", "message counter", CIP), ("rotor", "key schedule state", CIP)], ["key and nonce handed to the AEAD", "interoperation across rotations"])
p("C10", "Symmetric handshake state follows the Noise rules exactly",
  "For every sequence of mixing, encrypting, decrypting and splitting operations, the running hash, every ciphertext and the resulting transport keys are exactly those the Noise specification prescribes: protocol name padding or hashing, two- and three-output HKDF, nonce restarting at zero with each new key, the ciphertext with its tag mixed into the hash. Consequently all published Noise test vectors for the supported suites are reproduced.",
  ["inputs", "histories"], "all operation sequences, protocol-name lengths, data lengths (across hash block boundaries) and supported hash/cipher combinations",
  "One of 200+ vectors in the repository is checked (XK, AESGCM, SHA512), on the encrypting side only.",
  [SYM, HASH, "vru-noise/src/config.rs"], [("mix_hash, mix_shared_secret, mix_psk, encrypt, decrypt, finish", SYM), ("mix_parts block buffering, HKDF split, truncation", HASH)],
  [("chaining_key", "HKDF chaining key", SYM), ("hash", "transcript hash", SYM)], ["hash(), ciphertexts, tags, transport ciphertexts"])
p("C11", "Handshake decryption accepts only an identical history",
  "A handshake ciphertext decrypts exactly when the decrypting state has the same history as the encrypting one (the same protocol name, the same data mixed into the hash in the same order, the same data mixed into the key in the same order, as many messages since the last key), and the ciphertext and tag are unmodified; both sides then hold the same hash and keys. In every other case decryption reports an error.",
  ["histories", "inputs", "fault_sequences"], "all pairs of operation histories and all tampering with ciphertext or tag",
  "The decrypting side of the symmetric state is exercised by one fixed honest run only.",
  [SYM, HASH, NZ], [("associated data is the running hash", SYM), ("hash computed over received bytes before decrypting", SYM)],
  [], ["Ok/Err and plaintext of decrypt", "hash()"])
p("C12", "KEM: decapsulation recovers the encapsulated secret",
  "For every key pair, encapsulation to its public key followed by decapsulation with its secret key yields the same shared secret on both sides, for all three security levels. This holds whichever of public key, secret key and ciphertext has been serialised and parsed back any number of times in between, and serialisation of each is lossless.",
  ["inputs", "histories"], "all seeds, widths 2, 3 and 4, and all sequences of serialising and reparsing the three objects",
  "One seed per width, always with a reparsed public key and ciphertext.",
  ["vru-kyber/src/kem.rs", "vru-kyber/src/indcpa.rs", "vru-kyber/src/poly.rs", "vru-kyber/src/poly_inner.rs", "vru-kyber/src/coefficient.rs"],
  [("key_pair, encapsulate, decapsulate", "vru-kyber/src/indcpa.rs"), ("compress/decompress", "vru-kyber/src/poly_inner.rs")],
  [], ["shared secrets", "serialised bytes"])
p("C13", "KEM: altered ciphertexts are rejected implicitly",
  "Decapsulating anything other than a ciphertext honestly produced for that key never yields the honest secret: it yields a value determined by the key's rejection secret and the presented ciphertext, SHA3-256(rejection secret || SHA3-256(ciphertext)). Hence it is deterministic, differs between different ciphertexts, and cannot be predicted without the rejection secret; no ciphertext makes decapsulation panic.",
  ["inputs", "fault_sequences"], "all ciphertext bytes: every altered byte, ciphertexts for other keys, arbitrary byte strings; widths 2, 3, 4",
  "The rejection path is never executed by a test.",
  ["vru-kyber/src/kem.rs"], [("re-encryption comparison and conditional selection", "vru-kyber/src/kem.rs")],
  [], ["shared secret returned by decapsulate"])
p("C14", "KEM outputs are the Kyber scheme's, bit for bit",
  "Public key, secret key, ciphertext and shared secret are, for every seed and width, exactly those defined by the scheme (q=7681, n=256: rejection-sampled matrix, centred binomial noise of the width's parameter, number-theoretic transform, 11-bit and 3-bit rounding, little-endian bit packing, the hash-based transform). An independent implementation therefore interoperates.",
  ["inputs"], "all seeds and widths 2, 3 and 4",
  "One vector per width; values that occur rarely (rejections, rounding edges) are sampled by chance.",
  ["vru-kyber/src/indcpa.rs", "vru-kyber/src/poly.rs", "vru-kyber/src/poly_inner.rs", "vru-kyber/src/coefficient.rs", "vru-kyber/src/kem.rs"],
  [("gen_matrix, ntt, cbd, compress", "vru-kyber/src/poly_inner.rs")],
  [], ["serialised pk, sk, ct and shared secret"])
p("C15", "Byte codecs are lossless, positional and total",
  "Serialising any value that was parsed, any point and any signature, and parsing the result, gives back the same value; a concatenation serialises to its parts' bytes in order and parses by the parts' lengths, and this composes through any nesting and through serde. Parsing bytes that denote no valid value returns an error for the whole rather than panicking or yielding a different value.",
  ["inputs"], "all byte strings, all nestings of the concatenation type, all leaf types (byte arrays, scalars, points on each curve, signatures)",
  "No test round-trips the codecs; only the handshake test uses some of them indirectly.",
  ["rac/src/line.rs", "rac/src/concat.rs", "rac/src/curve25519_dalek_m.rs", "rac/src/secp256k1_m.rs"],
  [("try_clone_array/clone_line/clone_array", "rac/src/concat.rs"), ("serde wrappers", "rac/src/line.rs")],
  [], ["results of parsing and serialising"])
p("C16", "Curve operations obey the group and field laws",
  "On every supported curve, the provided scalar and point operations obey the algebra they stand for: multiplication by a scalar is a homomorphism in both arguments, Diffie-Hellman commutes, sums and products of scalars act as repeated operations on points, and point compression, decompression and coordinates are faithful. The base point is the curve's standard generator.",
  ["inputs", "programs"], "all straight-line programs over scalar and point operations, with arbitrary scalars, on Edwards25519, Curve25519 and secp256k1",
  "Only signing and verifying one random signature on one curve exercises these operations.",
  ["rac/src/elliptic.rs", "rac/src/curve25519_dalek_m.rs", "rac/src/secp256k1_m.rs"],
  [("add_ff, sub_ff, mul_ff, mul_ec, exp_ec, base, compress, decompress, x_coordinate", "rac/src/curve25519_dalek_m.rs")],
  [], ["equality of compressed points and of scalars"])
p("C17", "Every genuine signature verifies, also after transmission",
  "A signature made with a secret key on a message verifies under the matching public key for that message, for every key, message and nonce. This remains true after the signature and the public key have been serialised and parsed back any number of times.",
  ["inputs", "histories"], "all keys, nonces and messages (any length), all sequences of serialising and reparsing",
  "One random signature is verified in memory; it is never serialised.",
  ["rac/src/schnorr.rs", "rac/src/curve25519_dalek_m.rs", "rac/src/secp256k1_m.rs"], [("sign, verify, codec of the signature", "rac/src/schnorr.rs")],
  [], ["Ok/Err of verify"])
p("C18", "No altered or transplanted signature verifies",
  "Verification fails when the message, the public key or any bit of the signature is not the one that was signed with, or when parts of different signatures are combined. Verifying arbitrary signature bytes never panics. (Keys lie in the prime-order group; negating the scalar of a signature and the key together gives the same signature, since the commitment is known by one coordinate.)",
  ["inputs", "fault_sequences"], "all alterations of message, key and each signature byte; combinations of the parts of several signatures",
  "No test presents a signature that must be refused.",
  ["rac/src/schnorr.rs"], [("challenge hash over commitment and message; comparison of the commitment", "rac/src/schnorr.rs")],
  [], ["Ok/Err of verify"])
p("C19", "Public keys and identities survive every representation",
  "All ways of storing or moving a public key - compressing, cloning, serialising - and its owner's secret key preserve its behaviour: same identity, same shared secrets, same encapsulations. Its identity is SHA3-256 of the compressed key and has exactly one text form, base64 of a zero byte followed by the hash, which parses back to it; any other text, and any bytes that are not a consistent key, are refused with an error and never cause a panic.",
  ["inputs", "histories"], "all keys, all sequences of representation changes, all texts and all serialised byte strings",
  "The session test only compares two compressed keys; parsing of text and serialised keys is never tested.",
  [KEY], [("compress/decompress, serde, Display/FromStr, identity", KEY)],
  [("lattice_hash", "cached hash of the encapsulation key", KEY)], ["identity(), to_string, parse, dh, encapsulate, decapsulate"])
p("C20", "UDP node: every datagram and command has its defined effect",
  "A connect request is kept until a well-formed datagram arrives from its address; then exactly one 1280-byte handshake datagram carrying a fresh valid key is sent there and the request is used up; a second request for an address still waiting is reported as failed and changes nothing. A datagram whose size is not exactly 1280 bytes is reported with its address and has no other effect, and a well-formed datagram from an address without a request is only reported as incoming. This goes on until the running flag is cleared, whatever signals the application handles meanwhile.",
  ["histories", "inputs", "schedules"], "all sequences of connect commands and datagrams of any size from any number of peers",
  "The UDP crate has no tests.",
  ["vru-udp/src/global.rs", "vru-udp/src/local.rs", "vru-udp/src/linkage/datagram.rs"], [("process, command", "vru-udp/src/global.rs")],
  [("pending_outgoing", "requested peers by address", "vru-udp/src/global.rs")], ["event stream", "datagrams received by peers"])
p("C21", "UDP node: never panics, always shuts down",
  "No sequence of commands and datagrams makes the caller or the node panic, whether or not the addressed peer is known or already commanded. After the running flag is cleared, joining the node returns within a bounded time, whatever connections exist and whatever arrives meanwhile, and the event stream then ends.",
  ["histories", "schedules"], "all sequences of commands and datagrams, and every point at which the flag is cleared relative to them",
  "The UDP crate has no tests.",
  ["vru-udp/src/global.rs", "vru-udp/src/local.rs"], [("run loop and join", "vru-udp/src/global.rs"), ("worker loop", "vru-udp/src/local.rs")],
  [("connections", "worker per connection", "vru-udp/src/global.rs"), ("handles", "command channels", "vru-udp/src/global.rs")], ["return of command and join", "end of the event stream"])
p("C22", "TCP node: commands never crash it, join always ends it",
  "Starting a node on an unusable address returns an error; any command, including a connection request to an unreachable address, returns to the caller and at most produces an error event; neither an incoming connection nor a signal handled by the application takes the node down. Joining the node returns within a bounded time whether or not the running flag has been cleared, and afterwards the event stream ends.",
  ["histories", "schedules", "inputs"], "all sequences of commands, incoming connections and flag changes before joining",
  "The TCP crate has no tests.",
  ["vru-tcp/src/lib.rs", "vru-session/src/node.rs"], [("command, run, join", "vru-tcp/src/lib.rs")],
  [], ["return of spawn, command, join", "event stream"])
p("C23", "A node keeps its identity across restarts and crashes",
  "Once a node has announced its identity for a data directory, every later start on that directory announces the same identity, no matter how or when the earlier process ended. Different directories get different identities, and a crash at any point before the announcement leaves a directory on which the node still starts.",
  ["crash_points", "histories"], "all sequences of starts, clean stops and kills at every file-system operation",
  "The node binary has no tests.",
  ["vru-node/src/database.rs", "vru-node/src/main.rs"], [("key_or_insert", "vru-node/src/database.rs")],
  [("key_seed", "stored seed", "vru-node/src/database.rs")], ["announced identity in the log"])
p("C24", "Control socket: each command acts once, bad ones harm nobody",
  "Every well-formed command sent to a running node's control socket, by the command-line client or any other writer, takes effect exactly once and in the order of connection. Malformed, truncated, empty or stalled connections are dropped without effect on other commands, for any number of commands in a node's life, and a stale socket file from a crashed node does not prevent a new start.",
  ["histories", "inputs", "fault_sequences"], "all sequences of well-formed, malformed and stalled control connections, long runs, restarts after kills",
  "The node binary has no tests.",
  ["vru-node/src/listener_unix.rs", "vru-node/src/main.rs", "vru-node/src/bin/client.rs", "vru-session/src/node.rs"], [("command iterator", "vru-node/src/listener_unix.rs")],
  [], ["outgoing connections opened by the node", "process liveness"])
p("C25", "The node stops promptly on interrupt",
  "After an interrupt signal the node process ends by itself with success status within a bounded time, whatever commands were processed, are queued or are half-sent at that moment. It leaves the directory usable for the next start with the same identity.",
  ["histories", "schedules"], "all points of the signal relative to idle, queued, malformed and stalled control connections",
  "The node binary has no tests.",
  ["vru-node/src/main.rs", "vru-node/src/listener_unix.rs", "vru-tcp/src/lib.rs"], [("running flag, poll timeouts, join", "vru-node/src/listener_unix.rs")],
  [("running", "flag cleared by the signal handler", "vru-node/src/main.rs")], ["process exit status and time"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
