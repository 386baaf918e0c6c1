"""What each check runs, and the minimum it must have observed to count as an answer."""

ASSUMPTIONS = [
    'OpenSSL, protobuf-c and libxcrypt behave as documented; the harness calls OpenSSL primitives directly as its reference',
    'libscrypt and crypt_blowfish (external submodules, absent here) are replaced by a stand-in built on OpenSSL EVP_PBE_scrypt and libcrypt',
    'memory allocation succeeds, except in C31, which refuses it',
]

# calls into libcrypto that can fail, refused in turn by C28
OPENSSL_CALLS = '''BN_bin2bn BN_new BN_bn2binpad ECDSA_SIG_new ECDSA_SIG_set0 d2i_ECDSA_SIG i2d_ECDSA_SIG EC_KEY_new_by_curve_name EC_KEY_generate_key EC_KEY_set_private_key EC_KEY_set_public_key EC_POINT_new EC_POINT_mul d2i_ECPrivateKey i2d_ECPrivateKey i2o_ECPublicKey o2i_ECPublicKey EVP_CIPHER_CTX_new EVP_CIPHER_CTX_ctrl EVP_EncryptInit_ex EVP_EncryptUpdate EVP_EncryptFinal_ex EVP_DecryptInit_ex EVP_DecryptUpdate EVP_DecryptFinal_ex EVP_MD_CTX_new EVP_DigestInit EVP_DigestInit_ex EVP_DigestUpdate EVP_DigestFinal EVP_DigestFinal_ex EVP_DigestSignInit EVP_DigestSignUpdate EVP_DigestSignFinal EVP_DigestVerifyInit EVP_DigestVerifyUpdate EVP_DigestVerifyFinal EVP_PKEY_new EVP_PKEY_assign EVP_PKEY_set1_EC_KEY EVP_PKEY_CTX_new EVP_PKEY_CTX_new_id EVP_PKEY_derive_init EVP_PKEY_derive_set_peer EVP_PKEY_derive EVP_PKEY_CTX_set_hkdf_mode EVP_PKEY_CTX_set_hkdf_md EVP_PKEY_CTX_set1_hkdf_salt EVP_PKEY_CTX_set1_hkdf_key EVP_PKEY_CTX_add1_hkdf_info RAND_bytes HMAC'''.split()

def asan(q, t, **kw):
    return dict(dict(flavor='asan', cases=(q, t)), **kw)

PROPS = {
    'C01': dict(level='exploration',
        rule='distinct (version, number of recipients, sender included, duplicate, body size, tag size) sealed and opened',
        runs=[asan(1800, 60000)],
        require={'sealed': 400, 'opened': 1000, 'sealed_v2': 50, 'sealed_v3': 50, 'sealed_v4': 50, 'opened_by_sender': 20, 'two_step': 20, 'group_over_256': 8, 'message_over_16M': 1, 'similar_identifiers': 60, 'length_multiple_of_4096': 60}, min_distinct=150, min_evals=5000),
    'C04': dict(level='exploration', rule='distinct edits of recipients and (decision, recipients, step, history) situations decided',
        runs=[asan(1500, 60000)],
        require={'sealed': 400, 'refused': 400, 'verified_valid': 300, 'verified_invalid': 300, 'large_groups': 10}, min_distinct=200),
    'C21': dict(level='exploration', rule='distinct edits and histories of identity chains and ephemeral keys whose ownership was decided',
        runs=[asan(1500, 60000)],
        require={'chain_valid': 300, 'chain_invalid': 300, 'eph_owned': 300, 'eph_not_owned': 300}, min_distinct=100),
    'C02': dict(level='exploration', rule='distinct (version, changed byte), attribution and malformation kinds presented to the receiver',
        runs=[asan(1600, 60000)],
        require={'content_tampered': 10000, 'frame_tampered': 3000, 'misattributed': 800, 'inconsistent': 5000, 'baseline_opened': 500}, min_distinct=500),
    'C03': dict(level='exploration', rule='distinct (version, kind of outsider) that tried to open a sealed message',
        runs=[asan(800, 40000)],
        require={'sealed': 700, 'outsider_refused': 10000, 'wrong_header_keys': 5000, 'clear_scans': 5000, 'opened': 600}, min_distinct=25),
    'C05': dict(level='exploration', rule='distinct (direction, version, recipients, sizes) exchanged with the independent implementation',
        runs=[asan(2400, 60000)],
        require={'lib_to_ref': 500, 'ref_to_lib': 500, 'ref_opened': 1000, 'lib_opened': 1000, 'exchanges': 300, 'version_refusals': 300}, min_distinct=300),
    'C07': dict(level='exploration', rule='distinct (kind of rejected packet, packets per evolution) and (epochs skipped, packets per evolution) deliveries',
        runs=[asan(30000, 600000)],
        require={'encoded': 10000, 'delivered': 8000, 'rejected': 10000, 'delivered_after_rejection': 4000, 'gap': 1000, 'encode_refused': 3000, 'copied': 2000, 'provider_failure': 500, 'beyond_32_bits': 20, 'far_epochs': 20}, min_distinct=200),
    'C08': dict(level='exploration', rule='distinct (packets per evolution, epoch, position in epoch) packets exchanged with the independent implementation',
        runs=[asan(6000, 100000)],
        require={'lib_to_ref': 20000, 'ref_to_lib': 20000, 'state_scans': 10000, 'old_packets_tried': 5000, 'jumps': 300, 'beyond_32_bits': 15, 'long_streams': 50}, min_distinct=400),
    'C06': dict(level='exploration', rule='distinct (operation, kind of secret) whose origin was established, and stream configurations',
        runs=[asan(700, 20000)],
        require={'secrets': 20000, 'private_keys': 5000, 'public_keys': 5000, 'encryptions': 50000, 'compared': 10000, 'refused_without_randomness': 3000, 'stream_packets': 20000, 'nonces': 20000, 'conversations': 200}, min_distinct=45),
    'C09': dict(level='exploration', rule='distinct (peer kind, pinning, decision mode, evolution interval, evolutions crossed) sessions',
        runs=[asan(3000, 60000)],
        require={'sessions': 800, 'delivered': 30000, 'interop_sessions': 800, 'lib_to_ref': 8000, 'ref_to_lib': 8000, 'in_process_sessions': 400, 'handshakes': 400, 'deferred_decisions': 300, 'copied': 500, 'early_senders': 20}, min_distinct=150),
    'C10': dict(level='exploration', rule='distinct (attack or decision, role, pinning) sessions that were refused',
        runs=[asan(5000, 100000)],
        require={'forged_seeds': 800, 'forged_answers': 400, 'decisions': 400, 'mixed_sessions': 400, 'altered_packets': 1500, 'activated': 300, 'refused': 3000, 'verify_calls': 500, 'foreign_probes': 100}, min_distinct=45),
    'C11': dict(level='exploration', rule='distinct (kind of hostile packet, state it arrived in, role, pinning)',
        runs=[asan(9000, 300000)],
        require={'hostile_packets': 8000, 'steps': 40000, 'genuine_handshakes': 3000, 'genuine_data': 5000, 'sends': 3000, 'decisions': 1000, 'ended_in_error': 4000, 'copied': 1000, 'wrong_kind': 50}, min_distinct=250),
    'C12': dict(level='exploration', rule='distinct (kind of export, kind of wrong passphrase or altered position) refused',
        runs=[asan(600, 20000)],
        require={'exports': 500, 'imports': 500, 'interop': 500, 'wrong_passphrases': 15000, 'altered_exports': 20000, 'real_scrypt': 4}, min_distinct=200),
    'C13': dict(level='exploration', rule='distinct chains of persistence steps and (way of recovery, same or other system, devices) recoveries',
        runs=[asan(1600, 60000)],
        require={'restored': 400, 'recovered': 1000, 'stored_read': 3000, 'stored_refused': 2000, 'recovery_refused': 15000, 'opened': 800, 'sealed': 800, 'devices_checked': 2000, 'given_sig_key': 200}, min_distinct=200),
    'C14': dict(level='exploration', rule='distinct edges of the library reached by hostile inputs',
        runs=[asan(264, 6600, flavor='asanfz')],
        require={'inputs': 50000, 'accepted': 5000, 'refused': 20000, 'reserialized': 3000, 'new_coverage': 500}, min_distinct=800),
    'C17': dict(level='exploration', rule='distinct (cipher, plaintext size, associated data size, source of the nonce) encrypted and attacked',
        runs=[asan(12000, 200000)],
        require={'gcm': 5000, 'ctr': 1500, 'decrypted': 20000, 'changes_tried': 1000000, 'wrong_sizes': 10000, 'huge_aad': 1, 'large_texts': 1}, min_distinct=600),
    'C19': dict(level='exploration', rule='distinct (function, sizes of its inputs and output) compared with the standard',
        runs=[asan(1200, 60000)],
        require={'digests': 5000, 'file_digests': 5000, 'failing_files': 2000, 'macs': 5000, 'wrong_macs': 500000, 'hkdfs': 5000, 'expands': 1000, 'scrypts': 3000, 'bcrypts': 500, 'reproduced': 4000, 'real_kdfs': 5, 'large_inputs': 1}, min_distinct=2000),
    'C18': dict(level='exploration', rule='distinct (cipher, size, destination state) files and (cipher, fault, size class) streams',
        runs=[asan(5000, 100000)],
        require={'encrypted': 1200, 'decrypted': 1200, 'attacked': 800, 'failures_checked': 20000, 'streams': 8000, 'faulty_streams': 4000, 'large_files': 2}, min_distinct=400),
    'C20': dict(level='exploration', rule='distinct key kinds, agreements, signature sizes and digests, and kinds of invalid key or signature',
        runs=[asan(800, 20000)],
        require={'generated': 700, 'imported': 2000, 'invalid_points': 4000, 'agreed': 300, 'lib_signed': 200, 'ref_signed': 200, 'crafted_signed': 200, 'wrong_signatures': 20000, 'raw_values': 700, 'boxes': 100, 'large_data': 20}, min_distinct=100),
    'C22': dict(level='exploration', rule='distinct identities, relations between two parties, and positions where two fingerprints first differ',
        runs=[asan(8000, 200000)],
        require={'fingerprints': 20000, 'texts': 50000, 'bilateral': 6000, 'constructed': 7000, 'published': 2000}, min_distinct=300),
    'C23': dict(level='exploration', rule='distinct lengths encoded and character values at each position decoded',
        runs=[asan(3000, 60000)],
        require={'encoded': 50000, 'decoded': 80000, 'texts_valid': 50000, 'texts_invalid': 50000, 'large_texts': 1}, min_distinct=2300),
    'C24': dict(level='exploration', rule='distinct ranges, list lengths and array contents exercised against the model',
        runs=[asan(6000, 200000)],
        require={'created': 5000, 'sections': 2000, 'section_refused': 2000, 'modified': 2000, 'modify_refused': 2000, 'concats': 2000, 'concat_multis': 2000, 'compared': 2000, 'destroyed': 2000, 'set': 5000, 'set_copy': 2000, 'copy_failed': 500, 'cleared': 2000, 'range_refused': 2000, 'deep_copies': 1000, 'shallow_copies': 500, 'node_arrays': 200, 'over_64K': 50, 'over_16M': 1, 'large_arrays': 10}, min_distinct=500),
    'C25': dict(level='exploration', rule='distinct sizes of device salt and system identifier, and ways a context came to be',
        runs=[asan(3000, 100000)],
        require={'derived': 10000, 'changed_inputs': 8000, 'localized': 2000, 'read': 8000, 'read_refused': 30000, 'altered_refused': 20000}, min_distinct=400),
    'C15': dict(level='exploration', rule='distinct (type, encoded size) objects that made the round trip',
        runs=[asan(20400, 400000)],
        require={'round_trips': 15000, 'neighbours': 8000}, min_distinct=1000),
    'C16': dict(level='exploration', rule='distinct kinds of object (with or without each private key), versions and recipients, and handshakes whose public bytes were scanned for every secret involved',
        runs=[asan(800, 30000)],
        require={'public_scans': 20000, 'public_objects': 8000, 'private_encodings': 800, 'made_public': 700, 'messages': 700, 'handshakes': 100, 'secrets_tracked': 100}, min_distinct=40),
    'C27': dict(level='exploration', rule='distinct (kind, shape) of object copied, (operation, arguments given, outcome) of ownership, and transport states copied',
        runs=[asan(3000, 100000, leaks=8)],
        require={'made_public': 60, 'copies': 5000, 'destroyed': 20000, 'ownership_kept': 3000, 'ownership_kept_on_fault': 60, 'ownership_taken': 4000, 'arrays': 100, 'rotations': 80, 'references': 100, 'scribbled': 1000, 'compared': 50000, 'leak_checks': 100, 'twins_ctx': 100, 'twins_stream': 100, 'twins_transport': 100, 'twins_active': 30, 'twins_handshake': 100, 'twins_handshake_agreed': 80, 'twins_values': 100}, min_distinct=300),
    'C28': dict(level='fault_enumeration', rule='distinct (operation, position of the failing provider call, failing provider operation, once or for good, outcome)',
        runs=[asan(800, 20000, leaks=4), dict(asan(392, 4000), harness='C28b', wraps=OPENSSL_CALLS, leaks=4)],
        require=dict({o: 1 for o in ('op_chain_create_from_buffer', 'op_chain_create_from_private_buffer', 'op_chain_validate', 'op_cipher_local', 'op_cipher_remote', 'op_ctx_copy', 'op_ctx_create', 'op_ctx_create_from_buffer', 'op_ctx_export', 'op_ctx_gen_new', 'op_ctx_gen_new_with_sig_key', 'op_ctx_gen_result_copy', 'op_ctx_gen_with_passphrase', 'op_ctx_gen_with_recovery', 'op_ctx_gen_with_root_keys', 'op_ctx_import', 'op_decipher_local', 'op_decipher_remote', 'op_decode_packet', 'op_dev_info_create_new', 'op_dev_info_derive', 'op_ecdh_cipher', 'op_ecdh_cipher_ctx_create', 'op_ecdh_decipher', 'op_encode_packet_v2', 'op_encode_packet_v3', 'op_encode_packet_v4', 'op_ephemeral_create_from_buffer', 'op_ephemeral_generate_identity', 'op_ephemeral_keypair_gen', 'op_ephemeral_verify_owner', 'op_exchange_derive_data', 'op_exchange_derive_packet_key', 'op_exchange_set_create_from_buffer', 'op_exchange_set_create_from_cipher', 'op_exchange_set_encrypt', 'op_exchange_with_data', 'op_exchange_with_packet_key', 'op_export_recovery_key', 'op_export_storage_keys', 'op_handshake_answer', 'op_handshake_approve_initiator', 'op_handshake_approve_responder', 'op_handshake_finalize_initiator', 'op_handshake_finalize_responder', 'op_handshake_start', 'op_handshake_take_answer', 'op_identity_create_from_buffer', 'op_identity_sign', 'op_import_recovery', 'op_import_recovery_key', 'op_import_storage_keys', 'op_kdf_cipher', 'op_kdf_decipher', 'op_make_recovery', 'op_node_create_from_buffer', 'op_node_identity_gen', 'op_node_verify_signature_chain', 'op_packet_create_from_components', 'op_parse_packet', 'op_parse_packet_no_decode', 'op_payload_create_from_cipher', 'op_payload_encrypt', 'op_root_keys_create_from_buffer', 'op_root_keys_export', 'op_root_keys_generate', 'op_root_keys_localize', 'op_stateless_parse_packet', 'op_stream_ctx_create_decode', 'op_stream_ctx_create_encode', 'op_stream_ctx_decode', 'op_stream_ctx_encode', 'op_stream_iv_create', 'op_stream_iv_generate', 'op_stream_key_create_rand', 'op_transport_packet_sign', 'op_transport_packet_verify', 'op_transport_root_key_create_random', 'op_transport_root_key_to_stream_key')}, faults=3000, succeeded_again=2000, failed_for_good=150, transport_faults=400, conversations=10, new_transport_works=400, leak_checks=60, operations=550, calls=2500, refused=1800, refused_once=1200, refused_for_good=500,
                     fault_decrypt=100, fault_digest=300, fault_ec_import=150, fault_ec_rand_key=100, fault_ec_sign=80, fault_ec_verify=150, fault_ecdh=100, fault_encrypt=150, fault_hmac=80, fault_kdf=20, fault_kdf_gen=20, fault_kdf_meta=80, fault_key_random=60, fault_rand=250, fault_random=80), min_distinct=500),
    'C26': dict(level='exploration', rule='distinct (operation, position and kind of the failing provider call, outcome)',
        runs=[dict(asan(4000, 60000), asan='max_malloc_fill_size=268435456:malloc_fill_byte=165')],
        require={'canaries': 16, 'blocks_held': 10000, 'blocks_scanned': 500000, 'bytes_scanned': 20000000, 'operations': 8000, 'failing_operations': 6000, 'succeeding': 6000, 'refused': 800, 'conversations': 40, 'broken_conversations': 40, 'op_odd_export': 40, 'op_bad_ctx_import': 100, 'op_kdf': 100, 'op_root_keys_from_buffer': 100, 'op_stream_ctx_encode': 10, 'op_handshake_finalize_initiator': 10, 'op_encode_packet_v4': 10, 'op_decode_packet': 10}, min_distinct=600),
    'C29': dict(level='exploration', rule='distinct pairs of operations observed running at the same time in different threads',
        runs=[dict(flavor='tsan', cases=(700, 20000))],
        require={'threads': 800, 'overlaps': 3000, 'yields': 5000, 'same_inputs': 50, 'same_results': 4000, 'own_operations': 2000, 'shared_operations': 1500, 'op_transport_conversation': 10, 'op_file_cipher': 10, 'op_encode_packet_v4': 10, 'op_shared_encode': 30, 'op_shared_decode': 20, 'op_shared_transport_identities': 20}, min_distinct=1000),
    'C30': dict(level='exploration', rule='distinct binding operations (with their outcome), messages, serialized objects and null arguments exercised',
        runs=[dict(flavor='asan', binding=True, cases=(320, 8000), budget=120, asan='handle_segv=0:handle_sigbus=0:allow_user_segv_handler=1:detect_leaks=0')],
        require={'walks': 80, 'views_alone': 3000, 'operations': 12000, 'views': 1600, 'deleted': 900, 'dropped': 4000, 'collections': 550, 'unchanged': 16000, 'blocks_watched': 400000, 'blocks_released': 400000, 'arrays_opened': 30000, 'arrays_returned': 70000, 'null_calls': 800, 'null_refused': 2000, 'messages_sealed': 80, 'messages_opened': 150, 'tampered_packets': 900, 'accounts_recovered': 50, 'contexts_restored': 120, 'roundtrips': 200, 'hostile_refused': 1200, 'built': 15, 'keys_used': 15, 'ciphers': 250, 'files': 50, 'kdf': 100, 'signatures': 60, 'ecdh': 10, 'thread_messages': 300}, min_distinct=600),
    'C31': dict(level='fault_enumeration', rule='distinct (operation, position of the refused allocation, once or for good, outcome) and (transport operation, state, size of the refused allocation)',
        runs=[dict(asan(776, 8000), leaks=4, wraps=('malloc', 'calloc', 'realloc', 'strdup', 'protobuf_c_message_unpack'))],
        require={'operations': 500, 'calls': 8000, 'refused_once': 7000, 'refused_for_good': 3000, 'succeeded_again': 9000, 'failed_for_good': 600, 'transport_refused': 1000, 'conversations': 20, 'new_transport_works': 1000, 'leak_checks': 60}, min_distinct=3000),
}
# C32: the workloads of the other properties, watched for nothing but memory errors and leaks
WORKLOADS = dict(C01=(120, 3000), C02=(64, 2000), C03=(64, 2000), C04=(96, 3000), C05=(160, 4000), C06=(64, 2000), C07=(160, 4000), C08=(96, 3000), C09=(80, 3000),
                 C10=(240, 8000), C11=(240, 8000), C12=(48, 1000), C13=(160, 4000), C15=(240, 6000), C16=(80, 3000), C17=(240, 6000), C18=(64, 2000), C19=(48, 2000),
                 C20=(80, 3000), C21=(160, 4000), C22=(160, 4000), C23=(160, 4000), C24=(240, 6000), C25=(160, 4000), C34=(200, 8000))
PROPS['C32'] = dict(level='exploration', together=True, technique='ASan/UBSan/LSan over the workloads of 25 properties, leaks looked for every few cases', rule='distinct situations reached by the workloads of 25 properties while only memory errors and leaks are looked for',
    runs=[asan(*n, harness=h, leaks=5) for h, n in sorted(WORKLOADS.items())],
    require={'cases': 2500, 'leak_checks': 500}, min_distinct=3000)
WATCHED = dict(C01=(8, 400), C02=(8, 300), C03=(8, 400), C04=(8, 600), C05=(8, 200), C06=(8, 400), C07=(80, 3000), C08=(8, 1500), C09=(8, 800), C10=(80, 3000),
               C11=(16, 1500), C13=(16, 800), C15=(160, 5000), C16=(16, 400), C17=(8, 400), C18=(8, 300), C20=(8, 400), C21=(16, 1000), C22=(80, 3000), C24=(24, 2000),
               C25=(80, 3000), C28=(8, 300), C34=(40, 2000))
PROPS['C33'] = dict(level='exploration', together=True, technique='valgrind memcheck over generated workloads; every byte returned or sent is checked for definedness', rule='distinct operations, conversations and inputs whose outputs and decisions were checked for bytes that were never written',
    runs=[dict(flavor='mem', cases=(486, 8000), memcheck='own', budget=400)]
       + [dict(flavor='mem', cases=n, harness=h, memcheck='watch', budget=400, shards=2) for h, n in sorted(WATCHED.items())],
    require={'cases': 1100, 'operations': 150, 'bytes_checked': 1000000, 'packets': 150, 'parsed': 200, 'damaged': 20}, min_distinct=2000)
PROPS['C34'] = dict(level='exploration', rule='distinct (state, call, resulting state) and (state, kind and condition of the packet, pinning) of handshake objects',
    runs=[asan(3000, 100000)],
    require={'transitions': 10000, 'refused': 1000, 'accepted': 3000, 'keys': 1000, 'agreed': 300, 'copies': 2000, 'wrong_version': 200, 'damaged': 200, 'resigned': 100}, min_distinct=150)
NOT_APPLICABLE = {}
