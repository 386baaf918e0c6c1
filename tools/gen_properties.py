#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
S = "src/wickrcrypto/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    a = {"files": [os.path.normpath(S + f) for f in files],
         "mechanism": [{"name": n, "where": os.path.normpath(S + w)} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOJ = "The 24 tests that build here are JUnit tests of the Java binding on a handful of fixed values; "

prop("C01", "Every addressed device opens exactly the message that was sealed",
 "A message sealed by a device context for any non-empty set of recipient devices, in any supported format version, is parsed by every addressed device as validly signed and opened with the ephemeral key it was addressed to, giving exactly the original non-empty body, expiry and burn-on-read settings, channel tag, content type and message key. This holds whatever the number, order or mix of recipients (the sender's own device included) and however the packet was serialized, copied or parsed in two steps. Sealing and opening do not alter the payload, recipients or contexts they were given.",
 ["inputs", "configurations", "histories"],
 "all format versions 2-4; recipient sets of size 1..hundreds; arbitrary identifiers (NUL bytes, maximum length), bodies of any size, all 64-bit expiry values, all 16-bit content types, all channel tags; long histories of seals by the same contexts with key rotation",
 NOJ + "no existing test that can be built seals or opens a message for other format versions, for large recipient sets or boundary metadata.",
 ["wickr_ctx.c", "protocol.c", "payload.c", "packet_meta.c", "key_exchange.c", "ecdh_cipher_ctx.c", "cipher.c", "encoder_result.c"],
 [("sealing", "wickr_ctx.c: wickr_ctx_encode_packet"), ("packet assembly", "protocol.c: wickr_packet_create_from_components"), ("opening", "wickr_ctx.c: wickr_ctx_parse_packet, wickr_ctx_decode_packet")],
 ["bytes of the serialized packet handed from sender to receivers", "parse and decode results of every addressed device"])

prop("C02", "Tampered or misattributed messages never decode",
 "If the content of a sealed message is changed in any way, or it is attributed to a sender whose device key did not sign it, parsing reports a failure and no payload or message key is ever returned; attributing it to a sender with the right device key but other identifiers, or (from format 3 on) another root key, never yields a payload either. Changes to the bytes outside the signed content (version, curve, signature) never make a receiver accept any payload other than the one the sender sealed. Validly signed but internally inconsistent content (missing, truncated or wrongly encrypted parts) is reported as a failure, never as a success with partial data.",
 ["inputs", "fault_sequences"],
 "every bit/byte/length mutation and splice of sealed packets, every wrong or broken sender identity chain, every malformed inner structure under a valid signature",
 NOJ + "tampering is sampled, if at all, on one byte of one message; the guarantee is over all mutations, senders and inner structures.",
 ["protocol.c", "wickr_ctx.c", "ecdsa.c", "identity.c", "key_exchange.c", "payload.c", "openssl_suite.c"],
 [("signature check", "protocol.c: wickr_parse_result_from_packet"), ("decode gate", "wickr_ctx.c: wickr_ctx_decode_packet"), ("chain validation", "identity.c: wickr_identity_chain_validate")],
 ["parse status, signature status and decode result for mutated packets"])

prop("C03", "Only addressed devices can open a message, and nothing leaks in clear",
 "A device that was not addressed, an addressed device using any key other than the ephemeral private key it was addressed to, or a different root or device identity cannot recover the payload or the message key of a sealed message. The serialized message contains none of the payload body, channel tag, message key or recipient list in clear, and the routing header can be read only with the key derived from the sender's root and device identifiers.",
 ["inputs", "histories"],
 "every (message, non-addressee, wrong key, wrong identity) combination, every retained old or future ephemeral key, every format version",
 NOJ + "negative access combinations over recipients, identities and rotated keys are not enumerated by any test.",
 ["protocol.c", "key_exchange.c", "ecdh_cipher_ctx.c", "wickr_ctx.c", "payload.c"],
 [("key wrapping bound to both identities and device", "protocol.c: wickr_key_exchange_create_with_data / wickr_key_exchange_derive_data"), ("header key", "wickr_ctx.c: header key generation")],
 ["decode attempts by outsiders", "byte scan of serialized packets for known plaintext and keys"])

prop("C04", "Messages are sealed only to devices with an intact ownership chain",
 "Sealing succeeds only if for every recipient the root identity signed the device identity and the device identity signed the ephemeral key currently attached to it; if any recipient fails this, no packet is produced. The decision always reflects the recipient's current keys and identities, never a result remembered from before they were replaced, rotated or altered.",
 ["histories", "inputs"],
 "all interleavings of validation, sealing, ephemeral-key rotation, replacement or corruption of any signature, key or identity of recipients, for recipients at every position of the set",
 NOJ + "stale-cache histories (validate, mutate, seal) are not tested, and the unbuildable C tests only mutate one field once.",
 ["node.c", "identity.c", "ephemeral_keypair.c", "protocol.c"],
 [("recipient validation", "node.c: wickr_node_verify_signature_chain"), ("status caches", "node.c: wickr_node_has_valid_cache; identity.c: wickr_identity_chain_has_valid_cache"), ("sealing gate", "protocol.c: wickr_packet_create_from_components")],
 ["verdict of recipient verification and of sealing compared with independent signature checks"],
 [("node status cache", "remembered validation verdict and the digest of what it covers", "node.c"), ("chain status cache", "same for identity chains", "identity.c")])

prop("C05", "Message wire formats interoperate with an independent implementation",
 "For format versions 2, 3 and 4, messages produced by the library are opened correctly by an independent implementation of the documented format, and messages produced by that implementation are opened correctly by the library. Field layout, signature block, key derivation labels, ciphers and identifiers on the wire therefore never change silently for a supported version, and versions outside the supported range are refused.",
 ["inputs", "configurations"],
 "all versions, all payloads and recipient sets, both directions, all 256 version bytes",
 NOJ + "the library is only ever tested against itself, so a symmetric change of a label, cipher, layout or hash passes every round-trip test.",
 ["protocol.c", "key_exchange.c", "payload.c", "cipher.c", "ecdsa.c", "wickr_ctx.c"],
 [("packet serialization", "protocol.c: wickr_packet_serialize / wickr_packet_create_from_buffer"), ("exchange derivation", "protocol.c: wickr_key_exchange_create_with_data")],
 ["packet bytes crossing between the library and the reference codec"])

prop("C06", "Keys and nonces are fresh, from the CSPRNG, and never repeat under a key",
 "Every generated secret (message keys, ephemeral and identity private keys, recovery, storage and export keys, salts, transport secrets) comes from fresh output of the cryptographic random generator, is never derived from a constant or reused across operations, and changes whenever the generator's output changes. No two encryptions ever use the same key with the same nonce, within a context's life, across contexts, or across the packets of a stream (a copy of an encrypting stream is the same stream: one of the two may go on encrypting).",
 ["histories", "inputs"],
 "histories of up to tens of thousands of operations mixing all operations that generate keys or encrypt, over many contexts and streams",
 NOJ + "nonce and key uniqueness is a property of whole histories; a round trip with a constant nonce or key decrypts correctly in every test.",
 ["openssl_suite.c", "stream_iv.c", "stream_ctx.c", "wickr_ctx.c", "root_keys.c", "devinfo.c", "kdf.c", "transport_root_key.c", "transport_handshake.c"],
 [("random source", "openssl_suite.c: openssl_crypto_random, openssl_cipher_key_random, openssl_ec_rand_key"), ("stream nonces", "stream_iv.c: wickr_stream_iv_generate")],
 ["log of every (key, nonce) pair handed to the cipher and of every value drawn from the random generator"])

prop("C07", "Streams deliver exactly what was encrypted and reject everything else",
 "A packet encrypted on a stream with increasing sequence numbers decrypts on the peer stream to exactly the same bytes when given the same associated data and sequence number, even after gaps. Replayed, reordered, modified, cross-stream packets, or packets presented under a sequence number of another epoch or with other associated data (to which callers such as the transport bind the exact sequence number), are rejected; a stream never encrypts when created for decryption or the reverse. A rejected operation leaves the stream able to process the next genuine packet exactly as if the rejected one had never been presented.",
 ["histories", "inputs"],
 "all histories of encode/decode/replay/forge/gap over sequence numbers up to 2^63 and all evolution intervals in the permitted range",
 NOJ + "streams have no buildable test; histories that cross key evolutions, gaps, and forgeries in between are unbounded.",
 ["stream_ctx.c", "stream_key.c", "stream_iv.c", "cipher.c"],
 [("sequence check", "stream_ctx.c: wickr_stream_ctx_encode / wickr_stream_ctx_decode"), ("key evolution", "stream_ctx.c: key evolution per epoch")],
 ["results of every encode/decode call against a sequential model of the stream"],
 [("last sequence", "most recent sequence number that successfully encrypted or decrypted a packet", "stream_ctx.c")])

prop("C08", "Stream keys evolve exactly as specified and old keys are unrecoverable",
 "The key that protects a stream packet depends only on the initial key and the packet's epoch (sequence number divided by the packets-per-evolution setting), following the documented one-way evolution, so that two independent implementations agree for every sequence number. After a stream has moved to a later epoch its state no longer contains, and cannot be used to recompute, keys of earlier epochs, and packets of earlier epochs cannot be decrypted with it. Within an epoch the key never changes, and across epochs it always changes.",
 ["histories", "inputs"],
 "all sequence-number schedules, including jumps of several epochs, and all permitted packets-per-evolution values",
 NOJ + "no test compares the ratchet with an independent computation or looks at residual state after evolution.",
 ["stream_ctx.c", "stream_key.c"],
 [("evolution", "stream_ctx.c / stream_key.c: key evolution"), ("limits", "stream_ctx.h: PACKET_PER_EVO_MIN/MAX")],
 ["keys passed to the cipher per packet", "process memory and stream state after an epoch change"])

prop("C09", "Secure transports agree on keys and deliver data exactly once and in order",
 "When two honest endpoints exchange the handshake packets unmodified, both become active, agree on matching and distinct keys for the two directions, and each has authenticated the other's identity. From then on (for the responder from the moment it reports being active, if the initiator decides on identities at once) every buffer sent by one side is delivered to the other side's receive callback exactly once, unmodified and in order, in both directions and for any interleaving and any configured key-evolution interval. The handshake interoperates with an independent implementation of the protocol in both roles.",
 ["histories", "schedules", "inputs", "configurations"],
 "all interleavings of both directions, message sizes and counts crossing key evolutions, pinned/unpinned/one-sided configurations, synchronous and deferred identity decisions",
 NOJ + "the transport has no buildable test; interleavings and evolution crossings are histories no fixed test covers.",
 ["transport_ctx.c", "transport_handshake.c", "transport_packet.c", "transport_root_key.c", "stream_ctx.c"],
 [("handshake", "transport_handshake.c"), ("data path", "transport_ctx.c: process_tx_buffer / process_rx_buffer"), ("key schedule", "transport_root_key.c")],
 ["tx/rx/state callbacks of both endpoints", "handshake packets against a reference peer"])

prop("C10", "A transport becomes active only with the authenticated, approved peer",
 "An endpoint reaches the active state only if the peer proved possession of the device key of an identity chain whose root vouches for it, and that chain is exactly the pinned one when a peer was pinned, or was approved by the identity-verification callback otherwise. If the callback refuses, or the peer's chain or signature is wrong, or handshake packets come from different sessions or identities, the endpoint ends in error and never delivers or emits application data. The verification callback is consulted exactly once per session, with the peer's actual chain, and only when no peer was pinned.",
 ["histories", "inputs", "fault_sequences"],
 "active man-in-the-middle histories: substituted identities, re-signed packets, spliced sessions, reflected packets, wrong pins, refusals before or after other events",
 NOJ + "adversarial peers need an independent implementation of the protocol to produce validly formed but illegitimate packets.",
 ["transport_handshake.c", "transport_ctx.c", "transport_packet.c", "identity.c"],
 [("peer authentication", "transport_handshake.c: process_initial/process_response/verify_identity"), ("packet signatures", "transport_packet.c: wickr_transport_packet_verify")],
 ["status, error and identity callbacks for attacker-controlled packets"])

prop("C11", "Hostile transport input ends in a clean error and never delivers data",
 "Whatever bytes are presented to a transport, in whatever state, either are genuine next packets of the session or put the endpoint into the terminal error state with an error code, without crashing, without delivering any application data, and without doing an amount of work that the attacker can choose. State changes reported to the application only ever move forward (initial handshake, active, error), each reported once, and after an error no further data is accepted, emitted or delivered.",
 ["inputs", "histories", "fault_sequences"],
 "all byte strings and packet-type confusions injected at every point of handshake and data phases, and API calls made in every state",
 NOJ + "no test presents malformed, type-confused, duplicated or out-of-phase packets at all.",
 ["transport_ctx.c", "transport_handshake.c", "transport_packet.c", "stream_ctx.c"],
 [("rx dispatch", "transport_ctx.c: wickr_transport_ctx_process_rx_buffer"), ("handshake dispatch", "transport_handshake.c: wickr_transport_handshake_process"), ("packet parsing", "transport_packet.c: wickr_transport_packet_create_from_buffer")],
 ["sanitizers and the state/rx/tx callback trace while hostile packets are injected"])

prop("C12", "Passphrase-protected exports open only with the right passphrase",
 "A device context, storage keys or recovery key exported under a passphrase is restored exactly by the same passphrase and by no other, including passphrases that differ in a single bit, in length, or by a prefix (scrypt itself, by its definition over HMAC-SHA256, ignores trailing zero bytes and replaces passphrases longer than 64 bytes by their hash). Any modification of the exported bytes makes the import fail rather than return altered keys, and exports contain no key material in clear and differ on every export.",
 ["inputs"],
 "all passphrases (binary, empty-adjacent, long), all exported objects, all single-position mutations and truncations of the export",
 NOJ + "only fixed passphrases and untouched exports are tried.",
 ["wickr_ctx.c", "crypto_engine.c", "kdf.c", "storage.c"],
 [("passphrase encryption", "crypto_engine.c: wickr_crypto_engine_kdf_cipher / kdf_decipher"), ("export/import", "wickr_ctx.c: wickr_ctx_export/import, export_storage_keys, export_recovery_key_passphrase")],
 ["imported objects compared with the exported ones; results on wrong passphrases and mutated exports"])

prop("C13", "Accounts persist and recover without losing or mixing identity or storage keys",
 "A device context restored from its serialized form behaves exactly like the original: same identity, storage keys, routing key, able to open messages addressed to it and data it stored. An account recovered on any device from recovery data with the right recovery key (directly or via passphrase) has the same root identity and remote storage key, so it reads data stored remotely earlier; its local storage key depends on the device, and recovery data or keys from another account, or altered, never yield a context.",
 ["histories", "inputs", "configurations"],
 "all account/device/recovery histories: multiple devices per account, multiple accounts, re-recovery, cross combinations of recovery data and keys",
 NOJ + "multi-device and cross-account histories, and equality of behaviour after restore, are not covered.",
 ["wickr_ctx.c", "root_keys.c", "storage.c", "devinfo.c"],
 [("recovery", "wickr_ctx.c: wickr_ctx_gen_with_recovery / with_passphrase / make_recovery"), ("persistence", "wickr_ctx.c: wickr_ctx_serialize / create_from_buffer"), ("localization", "root_keys.c: wickr_root_keys_localize")],
 ["restored contexts compared field by field and by behaviour"])

prop("C14", "Parsing any untrusted bytes is memory-safe and leaves nothing behind",
 "Every entry point that accepts serialized bytes (packets, keys, signatures, ciphertexts, identities, nodes, contexts, exports, stream keys, transport packets, encoded text) either returns a well-formed object or a failure for every input, without reading or writing outside the input, undefined behaviour, crash, hang or memory proportional to anything but the input. A failed parse leaves no allocated memory behind, and an accepted object can be copied, serialized again, used and destroyed safely.",
 ["inputs"],
 "all byte strings up to tens of kilobytes, in particular structured mutations of valid encodings, for every parser",
 NOJ + "parsers run only on values the library itself produced.",
 ["protocol.c", "cipher.c", "ecdsa.c", "eckey.c", "identity.c", "node.c", "ephemeral_keypair.c", "key_exchange.c", "payload.c", "kdf.c", "storage.c", "root_keys.c", "stream_key.c", "transport_packet.c", "wickr_ctx.c", "util.c", "b32.c", "openssl_suite.c"],
 [("parsers", "*: *_create_from_buffer / *_from_buffer / import functions")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer reports", "allocation monitor"])

prop("C15", "Every serializable object survives serialization unchanged",
 "For every object with a byte encoding (keys, signatures, ciphertexts, password-based key-derivation settings, identities, chains, devices, key exchanges (one or more), payloads, packets, contexts, root, storage and stream keys, transport packets), decoding its encoding yields an object equal in every field, and re-encoding gives the same bytes. Encodings of distinct objects are distinct, and the encodings match an independent codec of the documented format.",
 ["inputs"],
 "all field values including boundaries (0, maximum 64-bit values, NUL bytes, absent optional fields, maximum-length identifiers)",
 NOJ + "a few fixed objects are round-tripped, none at the boundaries and none against an independent decoder.",
 ["cipher.c", "ecdsa.c", "eckey.c", "identity.c", "node.c", "ephemeral_keypair.c", "key_exchange.c", "payload.c", "kdf.c", "storage.c", "root_keys.c", "stream_key.c", "transport_packet.c", "wickr_ctx.c"],
 [("encoders/decoders", "*: *_serialize and *_create_from_buffer")],
 ["field-wise comparison after decode(encode(x)); byte comparison with a reference encoder"])

prop("C16", "Public forms of keys and identities never carry private keys",
 "Serialized devices, public identity chains, sealed messages, fingerprints, public ephemeral keys and handshake packets never contain private key bytes, even when made from objects that hold the private keys. Only the explicitly private encodings carry them, and removing the private part of an ephemeral key pair leaves no private bytes in it or in later copies.",
 ["inputs", "configurations"],
 "all objects holding private keys, through every publishing operation, alone and nested",
 NOJ + "tests check that public data parses, not what else it contains.",
 ["identity.c", "node.c", "ephemeral_keypair.c", "transport_handshake.c", "wickr_ctx.c", "eckey.c"],
 [("public encodings", "identity.c: wickr_identity_serialize, wickr_identity_chain_serialize; node.c: wickr_node_serialize; ephemeral_keypair.c: wickr_ephemeral_keypair_serialize / make_public")],
 ["taint scan of every published byte string for the private scalars and secret keys in play"])

prop("C17", "Ciphers encrypt faithfully and authenticated decryption rejects any change",
 "Encrypting with AES-256-GCM or AES-256-CTR gives the standard ciphertext for the key, nonce, associated data and plaintext, and decrypting with the same inputs returns the plaintext. Authenticated decryption fails, returning no bytes, whenever key, nonce, tag, ciphertext or associated data differ in any bit, and unauthenticated ciphertexts are refused when only authenticated ones are allowed. Inputs of the wrong size or mismatched cipher are refused rather than processed.",
 ["inputs"],
 "all plaintext sizes across block and buffer boundaries, all associated data including absent, all single-bit changes, all wrong-size keys and nonces",
 NOJ + "only a few sizes and one altered byte are tried, and never against a second implementation.",
 ["openssl_suite.c", "cipher.c"],
 [("AEAD", "openssl_suite.c: openssl_aes256_encrypt / openssl_aes256_decrypt"), ("validity", "cipher.c: wickr_cipher_result_is_valid")],
 ["results compared with a reference AES implementation"])

prop("C18", "File encryption round-trips and never releases unverified output",
 "Encrypting a file of any non-zero size and decrypting it gives back identical content, and file digests equal the digest of the content. Decrypting a modified, truncated or extended file, or with a wrong key, fails, leaves any existing destination file untouched and leaves no partial plaintext file behind. A read or write failure at any point makes the operation report failure rather than success with partial output.",
 ["inputs", "fault_sequences"],
 "all file sizes around buffer boundaries up to megabytes, every mutation position, read/write failures at every chunk",
 NOJ + "file sizes and I/O failures are sampled at one or two points, failures not at all.",
 ["openssl_file_suite.c", "openssl_suite.c"],
 [("path based", "openssl_file_suite.c"), ("stream based", "openssl_suite.c: openssl_encrypt_file / openssl_decrypt_file / openssl_sha2_file")],
 ["directory contents and file bytes after each operation; custom streams injecting I/O failures"])

prop("C19", "Hashes, MACs and key derivation match their standards for every input",
 "Digests (with and without salt, from memory or file), HMACs, HKDF extract-and-expand and expand-only, and the scrypt and bcrypt passphrase derivations equal the standard functions on all inputs, output lengths and parameters the library accepts. Verifying a MAC accepts exactly the correct value, and deriving again from stored parameters reproduces the same key.",
 ["inputs"],
 "all input, key, salt and info lengths across block boundaries, all three hash functions, all output lengths the expand mode accepts",
 NOJ + "a few vectors are checked; wrong behaviour at block boundaries, absent salts or long outputs is not.",
 ["openssl_suite.c", "kdf.c", "crypto_engine.c", "digest.c"],
 [("digest/HMAC/HKDF", "openssl_suite.c"), ("KDF dispatch", "kdf.c: wickr_perform_kdf / wickr_perform_kdf_meta")],
 ["outputs compared with an independent implementation"])

prop("C20", "Elliptic-curve keys, agreement and signatures conform and refuse invalid values",
 "Generated keys are valid P-521 key pairs; two parties always compute the same shared secret, equal to the standard value; a signature verifies under the signer's public key for the signed data and digest and, for any other data, key or digest, does not. Keys that are not points on the curve, and signatures that are malformed or out of range, are refused, and imports, exports and raw-signature conversions preserve values exactly.",
 ["inputs"],
 "all key pairs (including public keys and signature integers with leading zero bytes), all data, all malformed points and signature encodings",
 NOJ + "leading-zero and invalid-curve cases occur with low probability on random keys and are not constructed by tests.",
 ["openssl_suite.c", "eckey.c", "ecdsa.c"],
 [("EC operations", "openssl_suite.c: openssl_ec_rand_key, openssl_ec_key_import, openssl_ec_sign, openssl_ec_verify, openssl_gen_shared_secret, openssl_ecdsa_to_raw/from_raw"), ("signature encoding", "ecdsa.c")],
 ["results compared with direct use of a reference EC implementation"])

prop("C21", "Ownership checks accept exactly what the owner signed",
 "An identity chain is reported valid exactly when the root's key signed the device's public key, and an ephemeral key is reported as owned exactly when the device identity signed it; the answer is correct whether or not an earlier answer was remembered, and after copying, serializing or altering any part. Device identities can only be generated by a root identity, and an object lacking a signature is never reported as owned.",
 ["inputs", "histories"],
 "all combinations of genuine, swapped, altered, missing and foreign keys, signatures, identifiers and roles, under all histories of validation, mutation, copy and serialization",
 NOJ + "one valid and one invalid chain are tried, with no mutation after a remembered verdict.",
 ["identity.c", "ephemeral_keypair.c", "openssl_suite.c"],
 [("chain validation", "identity.c: wickr_identity_chain_validate"), ("ephemeral ownership", "ephemeral_keypair.c: wickr_ephemeral_keypair_verify_owner")],
 ["verdicts compared with an independent signature check of the current fields"])

prop("C22", "Fingerprints identify keys uniquely and agree on both sides",
 "A fingerprint depends on exactly the identifier and public key of the identity, is the same wherever it is computed, and differs for different keys or identifiers. The two-party fingerprint is the same regardless of which side computes it and depends on both identities. Its short and long text forms are the documented encodings of the same value and match an independent computation.",
 ["inputs"],
 "all identities, identifiers and pairs, in both orders, both text forms and lengths",
 NOJ + "one or two fixed identities are compared; symmetry and injectivity are over all pairs.",
 ["fingerprint.c", "identity.c", "b32.c", "util.c"],
 [("generation", "fingerprint.c: wickr_fingerprint_gen / gen_bilateral"), ("text", "fingerprint.c: get_b32 / get_hex")],
 ["fingerprints compared with a reference computation"])

prop("C23", "Text encodings are lossless, canonical and reject what they cannot represent",
 "Base64, hexadecimal and Crockford base32 encodings of any byte string equal the standard encodings and decode back to the same bytes. Decoding text that is not a valid encoding fails or yields the documented tolerant interpretation, never bytes read from outside the input, and never disagrees with an independent decoder on valid text.",
 ["inputs"],
 "all byte strings of lengths 1 to thousands, all byte values in text positions, all lengths modulo the group size",
 NOJ + "fixed vectors only.",
 ["b32.c", "util.c"],
 [("base32", "b32.c: base32_encode / base32_decode"), ("base64, hex", "util.c")],
 ["outputs compared with independent codecs; sanitizer reports"])

prop("C24", "Buffers and arrays behave like the values and lists they represent",
 "Buffer creation, copying, slicing, in-place modification, concatenation and comparison give exactly the bytes of the corresponding operations on byte strings, refuse ranges that are out of bounds (including ones that overflow) and leave their inputs unchanged. Arrays return exactly the items stored at each index, refuse indexes out of range, and deep copies are independent of the original.",
 ["inputs", "histories"],
 "all sequences of operations with arguments at and beyond the boundaries, including values near the maximum integer",
 NOJ + "individual calls on small values; overflow boundaries and operation sequences are not covered.",
 ["buffer.c", "array.c", "buffer_priv.c"],
 [("buffers", "buffer.c"), ("arrays", "array.c")],
 ["each operation's result against a model on byte vectors"])

prop("C25", "Device identity and storage keys are bound to device, system and account",
 "Device identifiers derived from the same device salt and system identifier are always identical and equal the documented derivation, and change whenever either input changes. Local storage keys are a function of the account's storage root and the device's identity, differing across devices and accounts, while remote storage keys are common to an account. Data stored locally or remotely is read back exactly by a context with the same keys and by no other.",
 ["inputs", "configurations"],
 "all device salts and system identifiers, all account/device pairs",
 NOJ + "equality is tested for one device; distinctness and conformance are over all pairs.",
 ["devinfo.c", "root_keys.c", "wickr_ctx.c"],
 [("device derivation", "devinfo.c: wickr_dev_info_derive"), ("localization", "root_keys.c: wickr_root_keys_localize"), ("storage", "wickr_ctx.c: wickr_ctx_cipher_local/remote, decipher_local/remote")],
 ["derived values compared with a reference derivation and across devices"])

prop("C26", "Secrets are wiped from memory before it is released",
 "When an object holding key material is destroyed, and when operations that handle keys (sealing, opening, key derivation, exports and imports, stream evolution, handshakes, copying, serializing and parsing of keys) finish, successfully or not, no memory the library itself releases still contains private keys, shared secrets, keys for messages, storage, recovery, streams or transports, or a passphrase and what is derived from it. (Plain buffers handed to the caller are the caller's to wipe, and memory the cryptographic provider manages is the provider's.)",
 ["histories", "fault_sequences"],
 "all object types and operations, on success and on every failure path reached by mutated input or provider failure",
 NOJ + "unit tests cannot see the contents of released memory.",
 ["memory.c", "buffer.c", "cipher.c", "eckey.c", "stream_key.c", "stream_ctx.c", "ecdh_cipher_ctx.c", "protocol.c", "transport_root_key.c", "root_keys.c", "storage.c", "kdf.c", "wickr_ctx.c"],
 [("zeroing destroy", "buffer.c: wickr_buffer_destroy_zero; memory.c: wickr_zero"), ("key destroys", "cipher.c: wickr_cipher_key_destroy; eckey.c: wickr_ec_key_destroy")],
 ["contents of every heap block at the moment it is freed, scanned for the secrets in play"])

prop("C27", "Copies are independent and every object is freed exactly once",
 "A copy of any object equals the original in every field, shares nothing with it that either side can free or change, and behaves identically in later operations. Destroying objects in any order frees all of their memory exactly once and clears the caller's pointer, and operations that take ownership of arguments do so only when they succeed.",
 ["histories", "inputs"],
 "all object types with any combination of optional parts, copied and destroyed in any order, before and after use, on success and failure of the consuming operation",
 NOJ + "leaks, double frees and shared ownership are invisible to the JUnit tests.",
 ["cipher.c", "eckey.c", "identity.c", "node.c", "key_exchange.c", "protocol.c", "payload.c", "wickr_ctx.c", "stream_ctx.c", "stream_key.c", "transport_ctx.c", "transport_handshake.c", "transport_packet.c", "root_keys.c", "storage.c", "array.c", "fingerprint.c", "devinfo.c", "kdf.c"],
 [("copies", "*: *_copy"), ("destroys", "*: *_destroy")],
 ["AddressSanitizer/LeakSanitizer while objects are copied, mutated and destroyed; field comparison"])

prop("C28", "Failure of any cryptographic operation fails the call cleanly",
 "If any single operation of the pluggable cryptographic provider (or the random source or passphrase hash below it), or any call that the built-in provider makes to the cryptographic primitives it is built on, fails during a library call, the call reports failure - never success with missing, partial or default data; where the failed operation only served to remember an earlier verification, the call may instead give its full and correct result. This happens without crash, undefined behaviour, memory corruption or leak, and the caller's objects are unchanged and usable: once the provider works again the same call succeeds on the same objects. A transport or handshake in which an operation failed instead stays in its failed state and sends and delivers nothing more, and a new one with the same identities succeeds.",
 ["fault_sequences"],
 "every position of the sequence of provider calls made by every API operation, and failures that persist from that position on",
 NOJ + "the real provider never fails in tests.",
 ["wickr_ctx.c", "protocol.c", "crypto_engine.c", "stream_ctx.c", "transport_ctx.c", "transport_handshake.c", "root_keys.c", "identity.c", "ephemeral_keypair.c", "devinfo.c", "key_exchange.c", "ecdh_cipher_ctx.c", "openssl_suite.c", "openssl_file_suite.c"],
 [("provider interface", "crypto_engine.c; include/wickrcrypto/crypto_engine.h")],
 ["results of each call with the n-th provider call failing, for every n, under sanitizers"])

prop("C29", "Independent contexts can be used from different threads at the same time",
 "Operations on contexts, streams, transports, handshakes, keys and buffers that are not shared between threads never race and give exactly the results they give when run alone, and operations that only read a shared context, message, key or identity (sealing, opening, encrypting, exporting, serializing, copying, fingerprints, key derivation) do not race or change it either. No operation keeps hidden mutable global state that lets one thread's operation affect another's. (Validating an identity or a device remembers the result in it and is not read-only.)",
 ["schedules", "histories"],
 "all interleavings of any operations on distinct contexts in several threads, and of read-only operations on shared ones",
 NOJ + "tests are single-threaded.",
 ["openssl_suite.c", "crypto_engine.c", "wickr_ctx.c", "stream_ctx.c", "transport_ctx.c", "protocol.c", "kdf.c", "b32.c", "util.c", "fingerprint.c"],
 [("absence of global state", "all files under src/wickrcrypto/src")],
 ["ThreadSanitizer reports and per-thread results compared with single-threaded runs"])

prop("C30", "The Java binding is as safe and as faithful as the library itself",
 "Through the Java binding every operation gives what the library gives for the same inputs: the values put into an object are the values read from it and used by it (digests, HKDF, AES, ECDSA and ECDH agree with the JDK's own), messages, accounts, exports and files survive being written and read, and refusals (wrong key, tampered, foreign, mis-sized) are refusals. Whatever the order in which Java code creates, reads, keeps, drops, deletes and garbage-collects objects, and from however many threads it uses separate ones or reads shared ones: an object obtained from another stays valid and unchanged for as long as it is reachable; the byte arrays passed in are not changed; no memory is touched after release or outside its bounds; a null object or array, or malformed bytes, give null, false or a Java exception, never a crash of the virtual machine; and once the Java objects are gone everything allocated for them is released exactly once and every Java array that was opened has been closed. (Not promised: objects made by the generated default constructors, objects used after delete(), a view of a part that was since replaced, and what is held when a value type, number or enumeration is null.)",
 ["inputs", "histories", "schedules"],
 "all sequences of binding operations with any arguments, any moments of garbage collection and explicit deletion, several threads",
 NOJ + "they check results only, never collect garbage between a getter and the use of its result, and cannot see leaks, double frees or reads of released memory.",
 ["../swig/" + f for f in ("buffer_java.i", "engine.i", "cipher.i", "digest.i", "eckey.i", "ecdsa.i", "kdf.i", "ecdh_cipher.i", "identity.i", "fingerprint.i", "dev_info.i", "root_keys.i", "storage_keys.i", "keypairs.i", "node.i", "wickr_array.i", "key_exchange.i", "packet_meta.i", "payload.i", "message_encoder.i", "wickr_ctx.i", "interface.i")],
 [("interface files", "../swig/*.i: typemaps for buffers, ownership (%newobject), parent references, %extend bodies"), ("library functions they call", "*.c")],
 ["a Java virtual machine embedded in the sanitized harness; results in Java, allocations and JNI array accesses underneath"])

prop("C31", "Running out of memory fails the call it happens in, and nothing else",
 "If any single allocation (or every allocation from some point on) is refused during a library call, the call either reports failure or does its full and correct work - never success with missing, partial or default data, an incomplete copy or a weaker outcome. There is no crash, undefined behaviour, memory corruption or leak, and the caller's objects are unchanged: once memory is available the same call succeeds on the same objects; a file operation leaves the destination as it was and no temporary file. A transport in which memory was refused either goes on as if nothing happened or is in its failed state with an error and sends and delivers nothing more - the two ends never go on silently with different keys or with data missing - and a new transport with the same identities works. (Allocations made inside libcrypto are not in scope; C28 covers the failure of its operations.)",
 ["fault_sequences"],
 "every position of the sequence of allocations made by every API operation, once and from that position on",
 NOJ + "memory never runs out in tests.",
 ["buffer.c", "array.c", "cipher.c", "eckey.c", "ecdsa.c", "kdf.c", "identity.c", "node.c", "key_exchange.c", "protocol.c", "payload.c", "wickr_ctx.c", "stream_ctx.c", "stream_key.c", "transport_ctx.c", "transport_handshake.c", "transport_packet.c", "root_keys.c", "storage.c", "fingerprint.c", "devinfo.c", "openssl_suite.c", "openssl_file_suite.c", "util.c", "b32.c"],
 [("allocation", "memory.c: wickr_alloc, wickr_alloc_zero"), ("every caller that checks its result", "*.c, private/*_priv.c")],
 ["results of each call with the n-th allocation refused, for every n, under sanitizers"])

prop("C32", "Every use of the library is memory-safe and leaves nothing behind",
 "Whatever a program does with the public C API within its documented contract - encrypting and decoding messages, conversations over transports, parsing arbitrary bytes, identities, keys, storage, files, streams, digests, codecs, buffers and arrays, with valid, hostile and boundary input, in calls that succeed and in calls that refuse - the library never reads or writes memory outside an object it owns or was given, never uses an object after releasing it, releases nothing twice, has no undefined behaviour, and when the program has released the objects it was given, everything the library allocated has been released.",
 ["inputs", "histories"],
 "all inputs and call histories of the whole public API",
 NOJ + "tests run without sanitizers and release checks, on a handful of inputs.",
 ["buffer.c", "array.c", "cipher.c", "eckey.c", "ecdsa.c", "kdf.c", "digest.c", "identity.c", "node.c", "key_exchange.c", "protocol.c", "packet_meta.c", "payload.c", "wickr_ctx.c", "stream_ctx.c", "stream_iv.c", "stream_key.c", "transport_ctx.c", "transport_handshake.c", "transport_packet.c", "root_keys.c", "storage.c", "fingerprint.c", "devinfo.c", "ecdh_cipher_ctx.c", "encoder_result.c", "openssl_suite.c", "openssl_file_suite.c", "util.c", "b32.c"],
 [("ownership", "buffer.c, array.c, memory.c"), ("error paths of every operation", "*.c, private/*_priv.c")],
 ["addresses accessed and allocations outstanding, by the sanitizers"])

prop("C33", "Nothing given, sent, stored or decided comes from memory never written",
 "No byte of anything the library returns, hands to a callback, writes to a file or puts on the wire, and no decision it takes (accept or refuse, which branch, which address), depends on memory that was never written: results are a function of the inputs, the provider's answers and the random generator alone. A field the caller did not set, a failed or truncated input and a refused packet do not make it read what earlier calls left on the heap or the stack.",
 ["inputs", "histories"],
 "all inputs and call histories of the whole public API",
 NOJ + "a test can not see that a right-looking value came from memory nobody wrote, and what such memory holds differs from run to run.",
 ["buffer.c", "array.c", "cipher.c", "eckey.c", "ecdsa.c", "kdf.c", "digest.c", "identity.c", "node.c", "key_exchange.c", "protocol.c", "packet_meta.c", "payload.c", "wickr_ctx.c", "stream_ctx.c", "stream_iv.c", "stream_key.c", "transport_ctx.c", "transport_handshake.c", "transport_packet.c", "root_keys.c", "storage.c", "fingerprint.c", "devinfo.c", "ecdh_cipher_ctx.c", "encoder_result.c", "openssl_suite.c", "openssl_file_suite.c", "util.c", "b32.c"],
 [("objects filled field by field", "every *_create of *.c"), ("buffers created empty", "buffer.c: wickr_buffer_create_empty and its callers"), ("decoded messages", "*_priv.c: *_create_from_proto")],
 ["definedness of every byte returned or sent, and of every value decided on, by valgrind's memcheck"])

prop("C34", "A handshake gives keys only after a complete accepted exchange, and once",
 "A transport handshake object used directly yields session keys exactly once, and only after the seed and the answer of one and the same session were exchanged, under the supported protocol version, properly signed by the pinned peer, or by a peer with a valid identity chain that the application then accepted. Any call out of turn, any packet that is not the next one of this session (of another session, of the other kind, altered, re-signed, of another version), and a declined decision make it fail for good: it never answers, asks or yields keys again. The two sides of a session get the same pair of keys in opposite roles, with the evolution interval the responder chose, and no two sessions share a key. A copy is in the same state and continues as the original would.",
 ["inputs", "histories"],
 "all sequences of calls and packets over handshake objects, their copies, sessions, pinnings and decisions",
 NOJ + "tests run one straight exchange between two honest peers.",
 ["transport_handshake.c", "transport_packet.c", "transport_root_key.c", "identity.c"],
 [("state machine", "transport_handshake.c: wickr_transport_handshake_start / _process / _verify_identity / _finalize / _copy"), ("packet authentication", "transport_packet.c: wickr_transport_packet_verify")],
 ["status, packets, callback calls and keys after every call, against a model of the state machine"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
