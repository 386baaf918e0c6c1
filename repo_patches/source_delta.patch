From 935ccc3b237b4d464645b5a2243f567e40a77e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 01/89] fix: remembered ownership status must cover the
 identity chain and signature digest

---
 src/wickrcrypto/src/identity_priv.c | 4 ++--
 src/wickrcrypto/src/node_priv.c     | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/identity_priv.c b/src/wickrcrypto/src/identity_priv.c
index c439ec3..6694798 100644
--- a/src/wickrcrypto/src/identity_priv.c
+++ b/src/wickrcrypto/src/identity_priv.c
@@ -257,8 +257,8 @@ wickr_buffer_t *wickr_identity_chain_make_status_cache(const wickr_identity_chai
         return NULL;
     }
     
-    uint8_t status_int = (uint8_t)chain->status;
-    wickr_buffer_t status_buffer =  { .length = sizeof(uint8_t), .bytes = &status_int };
+    uint8_t status_bytes[] = { (uint8_t)chain->node->signature->digest_mode.digest_id, (uint8_t)chain->status };
+    wickr_buffer_t status_buffer =  { .length = sizeof(status_bytes), .bytes = status_bytes };
     
     wickr_buffer_t *buffers[] = {
         chain->root->sig_key->pub_data,
diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index 8a3adaf..90ca65b 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -116,10 +116,12 @@ wickr_buffer_t *wickr_node_make_status_cache(const wickr_node_t *node,
         return NULL;
     }
     
-    uint8_t status_int = (uint8_t)node->status;
-    wickr_buffer_t status_buffer =  { .length = sizeof(uint8_t), .bytes = &status_int };
+    uint8_t status_bytes[] = { (uint8_t)node->ephemeral_keypair->signature->digest_mode.digest_id, (uint8_t)node->status };
+    wickr_buffer_t status_buffer =  { .length = sizeof(status_bytes), .bytes = status_bytes };
     
+    /* The status depends on the identity chain as well, so the cache must change when the chain is replaced */
     wickr_buffer_t *buffers[] = {
+        node->id_chain->_status_cache,
         node->ephemeral_keypair->ec_key->pub_data,
         node->ephemeral_keypair->signature->sig_data,
         &status_buffer
-- 
2.43.0


From 61de112342a83715079cf31870358bea0ad610e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 02/89] fix: a failed stream operation must not move the stream
 forward

---
 src/wickrcrypto/src/stream_ctx.c | 49 ++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index 7baa2eb..d31c2f8 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -131,12 +131,16 @@ static wickr_stream_key_t *__wickr_stream_key_create_with_evo_buffer(wickr_strea
     return new_key;
 }
 
-static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder, uint64_t seq_num)
+/* Derives the key of the epoch of seq_num into evolved_key, or sets it to NULL if that is the epoch of the current key.
+   The stream itself is only moved forward by __wickr_stream_ctx_advance, once the packet has been processed */
+static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder, uint64_t seq_num, wickr_stream_key_t **evolved_key)
 {
     if (!encoder) {
         return false;
     }
     
+    *evolved_key = NULL;
+    
     uint64_t curr_evo = encoder->last_seq / encoder->key->packets_per_evolution;
     uint64_t seq_evo = seq_num / encoder->key->packets_per_evolution;
 
@@ -177,12 +181,21 @@ static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder,
         curr_evo++;
     }
     
-    wickr_stream_key_destroy(&encoder->key);
-    encoder->key = curr_key;
+    *evolved_key = curr_key;
     
     return true;
 }
 
+static void __wickr_stream_ctx_advance(wickr_stream_ctx_t *ctx, uint64_t seq_num, wickr_stream_key_t *evolved_key)
+{
+    if (evolved_key) {
+        wickr_stream_key_destroy(&ctx->key);
+        ctx->key = evolved_key;
+    }
+    
+    ctx->last_seq = seq_num;
+}
+
 wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *ctx, const wickr_buffer_t *data, const wickr_buffer_t *aad, uint64_t seq_num)
 {
     if (!data || seq_num <= ctx->last_seq || ctx->direction != STREAM_DIRECTION_ENCODE) {
@@ -195,15 +208,24 @@ wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *ctx, const wi
         return NULL;
     }
     
-    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num)) {
+    wickr_stream_key_t *evolved_key = NULL;
+    
+    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num, &evolved_key)) {
         wickr_buffer_destroy(&iv);
         return NULL;
     }
     
-    wickr_cipher_result_t *encrypt_result = ctx->engine.wickr_crypto_engine_cipher_encrypt(data, aad, ctx->key->cipher_key, iv);
+    const wickr_stream_key_t *packet_key = evolved_key ? evolved_key : ctx->key;
+    
+    wickr_cipher_result_t *encrypt_result = ctx->engine.wickr_crypto_engine_cipher_encrypt(data, aad, packet_key->cipher_key, iv);
     wickr_buffer_destroy(&iv);
     
-    ctx->last_seq = seq_num;
+    if (!encrypt_result) {
+        wickr_stream_key_destroy(&evolved_key);
+        return NULL;
+    }
+    
+    __wickr_stream_ctx_advance(ctx, seq_num, evolved_key);
     
     return encrypt_result;
 }
@@ -214,13 +236,22 @@ wickr_buffer_t *wickr_stream_ctx_decode(wickr_stream_ctx_t *ctx, const wickr_cip
         return NULL;
     }
     
-    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num)) {
+    wickr_stream_key_t *evolved_key = NULL;
+    
+    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num, &evolved_key)) {
         return NULL;
     }
     
-    wickr_buffer_t *decrypt_result = ctx->engine.wickr_crypto_engine_cipher_decrypt(data, aad, ctx->key->cipher_key, true);
+    const wickr_stream_key_t *packet_key = evolved_key ? evolved_key : ctx->key;
     
-    ctx->last_seq = seq_num;
+    wickr_buffer_t *decrypt_result = ctx->engine.wickr_crypto_engine_cipher_decrypt(data, aad, packet_key->cipher_key, true);
+    
+    if (!decrypt_result) {
+        wickr_stream_key_destroy(&evolved_key);
+        return NULL;
+    }
+    
+    __wickr_stream_ctx_advance(ctx, seq_num, evolved_key);
     
     return decrypt_result;
 }
-- 
2.43.0


From a31985602eed5e98d9274a40f08615648414ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 03/89] fix: an identity decision must not revive a transport
 that has failed

---
 src/wickrcrypto/src/transport_ctx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 53a1808..3dd1c6e 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -252,6 +252,11 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     /* Remove const for internal work */
     wickr_transport_ctx_t *_ctx = (wickr_transport_ctx_t *)ctx;
     
+    /* A decision that arrives after the transport has failed can not bring it back */
+    if (!_ctx || _ctx->status == TRANSPORT_STATUS_ERROR) {
+        return;
+    }
+    
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-- 
2.43.0


From 8c19a9cfbb9949cbe009e51cc624cc3d3e349fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 04/89] fix: a transport whose handshake can not be finalized
 must end in error

---
 src/wickrcrypto/src/transport_ctx.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 3dd1c6e..483b46a 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -222,6 +222,7 @@ static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
     
     if (!tx_stream) {
         wickr_stream_key_destroy(&tx_key);
+        wickr_transport_handshake_res_destroy(&res);
         return false;
     }
     
@@ -259,11 +260,15 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
-    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(_ctx);
+    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION &&
+        !__wickr_transport_ctx_finalize_handshake(_ctx)) {
+        wickr_transport_packet_destroy(&volley_packet);
+        __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
+        return;
     }
     
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
+        wickr_transport_packet_destroy(&volley_packet);
         __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
         return;
     }
@@ -390,11 +395,15 @@ static void __wickr_transport_ctx_process_handshake_packet(wickr_transport_ctx_t
     /* Process the packet with the handshake */
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_process(ctx->pending_handshake, packet);
     
-    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(ctx);
+    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION &&
+        !__wickr_transport_ctx_finalize_handshake(ctx)) {
+        wickr_transport_packet_destroy(&volley_packet);
+        __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
+        return;
     }
     
     if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
+        wickr_transport_packet_destroy(&volley_packet);
         __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
         return;
     }
-- 
2.43.0


From 1535d5774c454b4cc9fbaf7c28ea3311389c7efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 05/89] fix: only ciphertext packets have a sequence number to
 decode with

---
 src/wickrcrypto/src/transport_ctx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 483b46a..d522822 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -139,7 +139,7 @@ void wickr_transport_ctx_destroy(wickr_transport_ctx_t **ctx)
 
 static wickr_buffer_t *__wickr_transport_ctx_decode_pkt(const wickr_transport_ctx_t *ctx, const wickr_transport_packet_t *pkt)
 {
-    if (!ctx || !pkt) {
+    if (!ctx || !pkt || pkt->meta.body_type != TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT) {
         return NULL;
     }
     
-- 
2.43.0


From 106b79b73554fe8acf1f0942d72a1c7dda3974d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 06/89] fix: check which handshake payload is present before
 reading it

---
 src/wickrcrypto/src/transport_handshake.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index bc9a349..f21662f 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -387,7 +387,7 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
         return;
     }
     
-    if (!handshake_data->response ||
+    if (handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE || !handshake_data->response ||
         !handshake_data->response->has_encrypted_response_data ||
         !handshake_data->response->has_ephemeral_pubkey) {
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
@@ -511,7 +511,7 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
-    if (!handshake_data || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
+    if (!handshake_data || handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
         || !handshake_data->seed->has_identity_required) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
-- 
2.43.0


From 9c52a119997977590a1fa800de6935c49152c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 07/89] fix: starting a transport that is already answering a
 handshake must not replace that handshake

---
 src/wickrcrypto/src/transport_ctx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index d522822..5786a2a 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -317,7 +317,7 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
 
 void wickr_transport_ctx_start(wickr_transport_ctx_t *ctx)
 {
-    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE) {
+    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE || ctx->pending_handshake) {
         __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_BAD_START_STATUS);
         return;
     }
-- 
2.43.0


From 3491f04e2d94cd8885fb4f337d03470d94dd8e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 08/89] fix: copies of transports and transport packets must be
 complete

---
 src/wickrcrypto/src/transport_ctx.c    | 18 +++++++++++++++++-
 src/wickrcrypto/src/transport_packet.c |  6 ++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 5786a2a..dcc70bc 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -76,7 +76,7 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
-    if (!remote_copy) {
+    if (ctx->remote_identity && !remote_copy) {
         wickr_identity_chain_destroy(&local_copy);
         return NULL;
     }
@@ -98,6 +98,16 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
         return NULL;
     }
     
+    wickr_transport_handshake_t *handshake_copy = wickr_transport_handshake_copy(ctx->pending_handshake);
+    
+    if (!handshake_copy && ctx->pending_handshake) {
+        wickr_identity_chain_destroy(&local_copy);
+        wickr_identity_chain_destroy(&remote_copy);
+        wickr_stream_ctx_destroy(&tx_copy);
+        wickr_stream_ctx_destroy(&rx_copy);
+        return NULL;
+    }
+    
     wickr_transport_ctx_t *copy = wickr_alloc_zero(sizeof(wickr_transport_ctx_t));
     
     if (!copy) {
@@ -105,6 +115,7 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
         wickr_identity_chain_destroy(&remote_copy);
         wickr_stream_ctx_destroy(&tx_copy);
         wickr_stream_ctx_destroy(&rx_copy);
+        wickr_transport_handshake_destroy(&handshake_copy);
         return NULL;
     }
     
@@ -117,6 +128,11 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     copy->callbacks = ctx->callbacks;
     copy->evo_count = ctx->evo_count;
     copy->user = ctx->user;
+    copy->err = ctx->err;
+    copy->pending_handshake = handshake_copy;
+    
+    /* The handshake of the copy reports to the copy */
+    wickr_transport_set_user_data(copy->pending_handshake, copy);
     
     return copy;
 }
diff --git a/src/wickrcrypto/src/transport_packet.c b/src/wickrcrypto/src/transport_packet.c
index 516b4a6..1775984 100644
--- a/src/wickrcrypto/src/transport_packet.c
+++ b/src/wickrcrypto/src/transport_packet.c
@@ -172,6 +172,12 @@ wickr_transport_packet_t *wickr_transport_packet_copy(const wickr_transport_pack
     }
     
     copy->mac = mac_copy;
+    copy->network_buffer = wickr_buffer_copy(pkt->network_buffer);
+    
+    if (pkt->network_buffer && !copy->network_buffer) {
+        wickr_transport_packet_destroy(&copy);
+        return NULL;
+    }
     
     return copy;
 }
-- 
2.43.0


From 605269786e9c4456362bed1a965b1bd42ed1e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 09/89] fix: base64 decoding must stay inside its table and its
 output

---
 src/wickrcrypto/src/util.c | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index a76a634..d902888 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -102,7 +102,7 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
         intLength = strBase64->length;
     
 	int intCurrent;
-	int i = 0, j = 0, k;
+	int i = 0, j = 0;
 
     wickr_buffer_t *objResult;
 	objResult = wickr_buffer_create_empty_zero(intLength);
@@ -120,7 +120,7 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 			continue;
 		}
 
-		intCurrent = _base64DecodingTable[intCurrent];
+		intCurrent = _base64DecodingTable[(unsigned char)intCurrent];
 		if (intCurrent == -1) {
 			// we're at a whitespace -- simply skip over
 			continue;
@@ -152,21 +152,10 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 		i++;
 	}
 
-	// mop things up if we ended on a boundary
-	k = j;
-	if (intCurrent == '=') {
-		switch (i % 4) {
-			case 1:
-				// Invalid state
-                wickr_buffer_destroy(&objResult);
-				return NULL;
-
-			case 2:
-				k++;
-				// flow through
-			case 3:
-				objResult->bytes[k] = 0;
-		}
+	// a padding character can not follow a single character of a group
+	if (intCurrent == '=' && (i % 4) == 1) {
+        wickr_buffer_destroy(&objResult);
+		return NULL;
 	}
 
     objResult->length = j;
-- 
2.43.0


From db509217b8e8fd36e78526e10d9e9b2b5902ffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 10/89] fix: refusing a packet's signature must not leak it

---
 src/wickrcrypto/src/protocol.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 3813daf..b84310e 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -355,9 +355,13 @@ wickr_packet_t *wickr_packet_create_from_buffer(const wickr_buffer_t *buffer)
     
     wickr_ecdsa_result_t *signature = wickr_ecdsa_result_create_from_buffer(&sig_buffer);
     
-    if (!signature ||
-        signature->digest_mode.digest_id != digest.digest_id ||
+    if (!signature) {
+        return NULL;
+    }
+    
+    if (signature->digest_mode.digest_id != digest.digest_id ||
         signature->curve.identifier != curve->identifier) {
+        wickr_ecdsa_result_destroy(&signature);
         return NULL;
     }
     
@@ -394,7 +398,12 @@ wickr_buffer_t *wickr_packet_serialize(const wickr_packet_t *packet)
     
     wickr_buffer_t *sig_data = wickr_ecdsa_result_serialize(packet->signature);
     
-    if (!sig_data || sig_data->length != packet->signature->curve.signature_size) {
+    if (!sig_data) {
+        return NULL;
+    }
+    
+    if (sig_data->length != packet->signature->curve.signature_size) {
+        wickr_buffer_destroy(&sig_data);
         return NULL;
     }
     
-- 
2.43.0


From bed18eada2d9632eabfdf378c0a58af6e988d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 11/89] fix: a malformed passphrase export must not leave its
 derived key behind

---
 src/wickrcrypto/src/crypto_engine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/crypto_engine.c b/src/wickrcrypto/src/crypto_engine.c
index 7178dea..a2f5671 100644
--- a/src/wickrcrypto/src/crypto_engine.c
+++ b/src/wickrcrypto/src/crypto_engine.c
@@ -153,6 +153,7 @@ wickr_buffer_t *wickr_crypto_engine_kdf_decipher(const wickr_crypto_engine_t *en
     wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(&cipher_text);
     
     if (!cipher_result) {
+        wickr_kdf_result_destroy(&kdf_result);
         return NULL;
     }
     
-- 
2.43.0


From 34f91ba0a3b0e063a70f165f9920c94b44fa077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 12/89] fix: recovering with keys no device can be made from
 must fail, not crash

---
 src/wickrcrypto/src/wickr_ctx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index acf6bcb..655fadc 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -164,6 +164,10 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_recovery(const wickr_crypto_engine_t
     wickr_ctx_gen_result_t *gen_result = wickr_ctx_gen_with_root_keys(engine, dev_info, root_keys, identifier);
     wickr_root_keys_destroy(&root_keys);
     
+    if (!gen_result) {
+        return NULL;
+    }
+    
     /* Swap out the randomly assigned recovery key with the one that was specified */
     wickr_cipher_key_destroy(&gen_result->recovery_key);
     gen_result->recovery_key = wickr_cipher_key_copy(recovery_key);
-- 
2.43.0


From e1c1b8b026b347c5abd07f23abf1cc899e307a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 13/89] fix: an identity chain that does not validate must be
 released

---
 src/wickrcrypto/src/wickr_ctx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index 655fadc..baabbe1 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -221,12 +221,17 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t
     
     wickr_identity_chain_t *new_id_chain = wickr_identity_chain_create(root_identity, new_node_identity);
     
-    if (!new_id_chain || !wickr_identity_chain_validate(new_id_chain, &engine)) {
+    if (!new_id_chain) {
         wickr_identity_destroy(&new_node_identity);
         wickr_identity_destroy(&root_identity);
         return NULL;
     }
     
+    if (!wickr_identity_chain_validate(new_id_chain, &engine)) {
+        wickr_identity_chain_destroy(&new_id_chain);
+        return NULL;
+    }
+    
     wickr_storage_keys_t *new_storage_keys = wickr_root_keys_localize(root_keys, &engine, dev_info);
     
     if (!new_storage_keys) {
-- 
2.43.0


From 4aeae33d5266a6fd3550e22eb2780ef7e3342934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 14/89] fix: a stream key with an invalid evolution interval
 must not leak its user data

---
 src/wickrcrypto/src/stream_key_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index b8ac43f..3ee86d0 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -100,6 +100,7 @@ wickr_stream_key_t *wickr_stream_key_create_from_proto(const Wickr__Proto__Strea
     if (!stream_key) {
         wickr_cipher_key_destroy(&cipher_key);
         wickr_buffer_destroy_zero(&evo_key);
+        wickr_buffer_destroy(&user_data);
         return NULL;
     }
     
-- 
2.43.0


From ec96392034b761dcf98ccb36c1643160f1f7ecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 15/89] fix: refuse nonces and keys that do not fit the cipher,
 and never ignore associated data

---
 src/wickrcrypto/src/openssl_suite.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index fc48e27..b6802eb 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -409,6 +409,15 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         return NULL;
     }
     
+    if (aad && aad->length > INT_MAX) {
+        return NULL;
+    }
+    
+    /* An IV provided by the caller must fit the cipher */
+    if (iv && iv->length != cipher.iv_len) {
+        return NULL;
+    }
+    
     /* If an IV is not passed in, generate a random one */
     wickr_buffer_t *iv_f = iv ? wickr_buffer_copy(iv) : openssl_crypto_random(cipher.iv_len);
     
@@ -523,6 +532,16 @@ wickr_buffer_t *openssl_aes256_decrypt(const wickr_cipher_result_t *cipher_resul
         return NULL;
     }
     
+    if (aad && aad->length > INT_MAX) {
+        return NULL;
+    }
+    
+    /* The key and IV must fit the cipher */
+    if (key->key_data->length != cipher_result->cipher.key_len ||
+        !cipher_result->iv || cipher_result->iv->length != cipher_result->cipher.iv_len) {
+        return NULL;
+    }
+    
     /* In GCM mode, make sure the length of the auth tag is correct */
     if (cipher_result->cipher.is_authenticated) {
         if (!cipher_result->auth_tag || cipher_result->auth_tag->length != cipher_result->cipher.auth_tag_len) {
@@ -569,7 +588,7 @@ wickr_buffer_t *openssl_aes256_decrypt(const wickr_cipher_result_t *cipher_resul
     
     /* Update the AAD if needed */
     
-    if (aad && aad->length <= INT_MAX) {
+    if (aad) {
         if (1 != EVP_DecryptUpdate(ctx, NULL, &temp_length, aad->bytes, (int)aad->length)) {
             goto process_error;
         }
-- 
2.43.0


From 033039bea0048028340a37858b0ad7f2ee92e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 16/89] fix: an expand-only derivation must not silently
 shorten its output

---
 src/wickrcrypto/src/kdf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 86cd7e8..5277000 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -67,6 +67,11 @@ wickr_kdf_meta_t *wickr_kdf_meta_create_hkdf_expand(const wickr_digest_t *digest
         return NULL;
     }
     
+    // The algorithm can not represent larger outputs
+    if (output_size > UINT8_MAX) {
+        return NULL;
+    }
+    
     wickr_kdf_algo_t algo = KDF_HKDF_SHA512_EXPAND;
     algo.output_size = output_size;
     
-- 
2.43.0


From ce25c6641a3e5fb862a82901b353cb40e4c74158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:37 +0000
Subject: [PATCH 17/89] fix: an encrypted file must not be reported complete
 when reading or writing it failed

---
 src/wickrcrypto/src/openssl_suite.c | 60 +++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index b6802eb..f98cc14 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1259,6 +1259,12 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_create(key->cipher, iv_f, NULL, auth_tag);
         
+        if (!cipher_result) {
+            wickr_buffer_destroy(&iv_f);
+            wickr_buffer_destroy(&auth_tag);
+            return false;
+        }
+        
         wickr_buffer_t *serialized = wickr_cipher_result_serialize(cipher_result);
         if (!serialized)
             goto process_error;
@@ -1308,11 +1314,19 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         // Use a 4kb block size
         unsigned char plainBuffer[4096];
         cipherBuffer = (unsigned char *)wickr_alloc(sizeof(plainBuffer) + EVP_CIPHER_CTX_block_size(ctx));
+        if (!cipherBuffer) {
+            goto process_error;
+        }
         int outlength = 0;
         
         for (;;) {
             size_t bytes_read = fread(plainBuffer, 1, sizeof(plainBuffer), in_file);
             
+            /* A short read is only the end of the file when reading did not fail */
+            if (bytes_read < sizeof(plainBuffer) && ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_EncryptUpdate(ctx, cipherBuffer, &outlength, plainBuffer, (int)bytes_read)) {
                 goto process_error;
             }
@@ -1351,13 +1365,23 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         // Complete the saving of data to the file
         serialized = wickr_cipher_result_serialize(cipher_result);
-        if (serialized) {
-            //Seek to the position that the Tag zeros start in the file so we can fill in the tag
-            rewind(out_file);
-            size_t bytes_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
-            if (bytes_written != serialized->length) {
-                goto process_error;
-            }
+        if (!serialized) {
+            goto process_error;
+        }
+        
+        //Seek to the position that the Tag zeros start in the file so we can fill in the tag
+        if (fseek(out_file, 0, SEEK_SET) != 0) {
+            goto process_error;
+        }
+        
+        num_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
+        if (num_written != serialized->length) {
+            goto process_error;
+        }
+        
+        /* Buffered output that can not be written is a failure */
+        if (fflush(out_file) != 0) {
+            goto process_error;
         }
         
         ret_val = true;
@@ -1428,6 +1452,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(cipher_buffer);
         
         unsigned char *plainBuffer = NULL;
+        
+        if (!cipher_result) {
+            goto process_error;
+        }
+        
         const EVP_CIPHER *cipher = __openssl_get_cipher_mode(cipher_result->cipher);
         if (!cipher) {
             goto process_error;
@@ -1447,6 +1476,9 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         /* Allocate a cipher context */
         ctx = EVP_CIPHER_CTX_new();
+        if (!ctx) {
+            goto process_error;
+        }
         
         /* Initialize the context with NULL to allow us to perform control operations */
         if (1 != EVP_DecryptInit_ex(ctx, cipher, NULL, NULL, NULL)) {
@@ -1478,11 +1510,19 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         unsigned char cipherBuffer[4096];
         plainBuffer = wickr_alloc(sizeof(cipherBuffer) + EVP_CIPHER_CTX_block_size(ctx));
+        if (!plainBuffer) {
+            goto process_error;
+        }
         int outlength = 0;
         
         for (;;) {
             size_t bytesRead = fread(cipherBuffer, 1, sizeof(cipherBuffer), in_file);
             
+            /* A short read is only the end of the file when reading did not fail */
+            if (bytesRead < sizeof(cipherBuffer) && ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_DecryptUpdate(ctx, plainBuffer, &outlength, cipherBuffer, (int)bytesRead)) {
                 goto process_error;
             }
@@ -1506,6 +1546,12 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
                 break;
             }
         }
+        
+        /* Buffered output that can not be written is a failure */
+        if (fflush(out_file) != 0) {
+            goto process_error;
+        }
+        
         ret_val = true;
         
     process_error:
-- 
2.43.0


From 1584cf82ffe301e7953da2ba860ea9903332b825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:37 +0000
Subject: [PATCH 18/89] fix: decrypting a file must use the cipher its key is
 meant for

---
 src/wickrcrypto/src/openssl_suite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index f98cc14..01dd463 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1457,6 +1457,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
             goto process_error;
         }
         
+        /* The file names its own cipher, so make sure it is the one this key is meant for */
+        if (key->cipher.cipher_id != cipher_result->cipher.cipher_id) {
+            goto process_error;
+        }
+        
         const EVP_CIPHER *cipher = __openssl_get_cipher_mode(cipher_result->cipher);
         if (!cipher) {
             goto process_error;
-- 
2.43.0


From 2826932ecebb6f8889d490e8731449d7c2724f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 19/89] fix: a malformed or oversized signature must not
 convert to a raw signature

---
 src/wickrcrypto/src/openssl_suite.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 01dd463..752f03a 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -967,8 +967,9 @@ int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
 int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
     unsigned int out_buffer_len = (unsigned int)out_buffer->length;
     
-    return BN_bn2binpad(ECDSA_SIG_get0_r(sig), out_buffer->bytes, out_buffer_len / 2) &&
-        BN_bn2binpad(ECDSA_SIG_get0_s(sig), out_buffer->bytes + out_buffer_len / 2, out_buffer_len / 2);
+    /* BN_bn2binpad returns -1 if a value does not fit */
+    return BN_bn2binpad(ECDSA_SIG_get0_r(sig), out_buffer->bytes, out_buffer_len / 2) > 0 &&
+        BN_bn2binpad(ECDSA_SIG_get0_s(sig), out_buffer->bytes + out_buffer_len / 2, out_buffer_len / 2) > 0;
 }
 #else
 int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
@@ -1003,6 +1004,12 @@ wickr_buffer_t *openssl_ecdsa_to_raw(const wickr_ecdsa_result_t *input)
         return NULL;
     }
     
+    /* The signature must be everything there is */
+    if (result_holder != input->sig_data->bytes + input->sig_data->length) {
+        ECDSA_SIG_free(sig);
+        return NULL;
+    }
+    
     wickr_buffer_t *out_buffer = wickr_buffer_create_empty_zero(input->curve.raw_signature_size);
     
     if (!out_buffer) {
-- 
2.43.0


From 8f02690827c52673a95aa6c00f7c452f32176d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 20/89] fix: text that is not hexadecimal must not decode, nor
 may text beyond the buffer

---
 src/wickrcrypto/src/util.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index d902888..94af229 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -201,6 +201,13 @@ getHexStringFromData(const wickr_buffer_t *objData)
 }
 
 
+/* Utility function to determine if a character is a hex digit */
+INLINE static bool
+isHexChar(char c)
+{
+    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
+}
+
 unsigned char strToChar (char a, char b)
 {
     char encoder[3] = {'\0','\0','\0'};
@@ -217,23 +224,25 @@ getDataFromHexString(const wickr_buffer_t *hexString)
     
     const char * bytes = (const char *)hexString->bytes;
     size_t length = strlen(bytes);
+    if (length > hexString->length)
+        length = hexString->length;
+    
+    // Two digits are needed for every byte, and anything other than a digit is invalid
+    if (length % 2 != 0)
+        return NULL;
+    
+    for (size_t i = 0; i < length; i++) {
+        if (!isHexChar(bytes[i]))
+            return NULL;
+    }
+    
     wickr_buffer_t *result = wickr_buffer_create_empty((length / 2));
     if (!result)
         return NULL;
     
-    unsigned char * r = result->bytes;
-    
-    if (r != NULL) {
-        unsigned char * index = r;
-        
-        while ((*bytes) && (*(bytes +1))) {
-            *index = strToChar(*bytes, *(bytes +1));
-            index++;
-            bytes+=2;
-        }
-        
-        return result;
+    for (size_t i = 0; i < length; i += 2) {
+        result->bytes[i / 2] = strToChar(bytes[i], bytes[i + 1]);
     }
     
-    return NULL;
+    return result;
 }
-- 
2.43.0


From 025380df5375299ed682553a760e88396e478a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:52 +0000
Subject: [PATCH 21/89] fix: base32 text must be null terminated as documented

---
 src/wickrcrypto/src/b32.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/b32.c b/src/wickrcrypto/src/b32.c
index 4664ce5..48d0730 100644
--- a/src/wickrcrypto/src/b32.c
+++ b/src/wickrcrypto/src/b32.c
@@ -226,12 +226,21 @@ wickr_buffer_t *base32_encode(const wickr_buffer_t *buffer)
         return NULL;
     }
     
-    wickr_buffer_t *return_buffer = wickr_buffer_create_empty_zero(__base32_encode_length(buffer->length));
+    size_t encode_length = __base32_encode_length(buffer->length);
+    
+    if (encode_length == 0) {
+        return NULL;
+    }
+    
+    /* Leave room for a null terminator that is not counted in the length */
+    wickr_buffer_t *return_buffer = wickr_buffer_create_empty_zero(encode_length + 1);
     
     if (!return_buffer) {
         return NULL;
     }
     
+    return_buffer->length = encode_length;
+    
     if (!__base32_encode_base32(buffer->bytes, buffer->length, return_buffer->bytes)) {
         wickr_buffer_destroy(&return_buffer);
         return NULL;
-- 
2.43.0


From c236dbbab7d43a112ee56734b63a721210849181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 22/89] fix: base64 decoding must not look past the end of its
 text

---
 src/wickrcrypto/src/util.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index 94af229..5270ac9 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -110,9 +110,10 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
         return NULL;
     
 	// Run through the whole string, converting as we go
-	while ( ((intCurrent = *objPointer++) != '\0') && (intLength-- > 0) ) {
+	while ( intLength-- > 0 ) {
+		intCurrent = *objPointer++;
 		if (intCurrent == '=') {
-			if (*objPointer != '=' && ((i % 4) == 1)) {// || (intLength > 0)) {
+			if ((intLength == 0 || *objPointer != '=') && ((i % 4) == 1)) {// || (intLength > 0)) {
 				// the padding character is invalid at this point -- so this entire string is invalid
                 wickr_buffer_destroy(&objResult);
 				return NULL;
@@ -152,12 +153,6 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 		i++;
 	}
 
-	// a padding character can not follow a single character of a group
-	if (intCurrent == '=' && (i % 4) == 1) {
-        wickr_buffer_destroy(&objResult);
-		return NULL;
-	}
-
     objResult->length = j;
 	return objResult;
 }
-- 
2.43.0


From 934f2a87a7b6ba5ab8ed8f9a03dafac9e230f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 23/89] fix: copy device information which has no system salt

wickr_dev_info_create accepts device information without a system salt. A copy
of it was refused, and with it a copy of any context which holds it.
---
 src/wickrcrypto/src/devinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/devinfo.c b/src/wickrcrypto/src/devinfo.c
index 8e962bc..cbebf98 100644
--- a/src/wickrcrypto/src/devinfo.c
+++ b/src/wickrcrypto/src/devinfo.c
@@ -108,7 +108,7 @@ wickr_dev_info_t *wickr_dev_info_copy(const wickr_dev_info_t *info)
     
     wickr_buffer_t *system_salt_copy = wickr_buffer_copy(info->system_salt);
     
-    if (!system_salt_copy) {
+    if (info->system_salt && !system_salt_copy) {
         return NULL;
     }
     
-- 
2.43.0


From 2a4dd3eb3f3a16b754321dfb715adf0d0b2ab6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 24/89] fix: report a context which can not be copied

wickr_ctx_copy went on to write through the NULL result when creating the copy
failed, which happens when the engine fails to derive its header key.
---
 src/wickrcrypto/src/wickr_ctx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index baabbe1..e03d6be 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -457,6 +457,7 @@ wickr_ctx_t *wickr_ctx_copy(const wickr_ctx_t *ctx)
         wickr_dev_info_destroy(&dev_info_copy);
         wickr_identity_chain_destroy(&id_chain_copy);
         wickr_storage_keys_destroy(&storage_keys_copy);
+        return NULL;
     }
     
     copy->pkt_enc_version = ctx->pkt_enc_version;
-- 
2.43.0


From 83be177053c4a4e2ad571f4a4efdabb00ab2a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 25/89] fix: release what a failing handshake step has made

The packet was leaked when it could not be signed, and the ephemeral keys when
the root key could not be generated.
---
 src/wickrcrypto/src/transport_handshake.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index f21662f..71eefe3 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -235,6 +235,7 @@ static wickr_transport_packet_t *__wickr_transport_handshake_build_signed_packet
     
     /* Sign the handshake packet */
     if (!handshake_pkt || !wickr_transport_packet_sign(handshake_pkt, &handshake->engine, handshake->local_identity)) {
+        wickr_transport_packet_destroy(&handshake_pkt);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
@@ -559,6 +560,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     if (!handshake->root_key) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
+        wickr_ecdh_cipher_ctx_destroy(&cipher_ctx);
+        wickr_ec_key_destroy(&ephemeral_key);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
-- 
2.43.0


From 08280c21574b05727bc0ea49b9b44bec3ccc7036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 26/89] fix: do not remember a failed verification for ever

A device or identity whose signature could not be verified because the engine
failed was refused from then on, although its signature is valid.
---
 src/wickrcrypto/src/identity.c | 7 ++++---
 src/wickrcrypto/src/node.c     | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/wickrcrypto/src/identity.c b/src/wickrcrypto/src/identity.c
index e215af8..5f0be49 100644
--- a/src/wickrcrypto/src/identity.c
+++ b/src/wickrcrypto/src/identity.c
@@ -276,9 +276,10 @@ bool wickr_identity_chain_validate(wickr_identity_chain_t *chain, const wickr_cr
         return false;
     }
     
-    /* Check to see if we need to recalculate the status of the chain */
-    if (wickr_identity_chain_has_valid_cache(chain, engine)) {
-        return chain->status == IDENTITY_CHAIN_STATUS_VALID;
+    /* Check to see if we need to recalculate the status of the chain. Only success is remembered, because the engine
+       does not tell a wrong signature from a failure to verify it */
+    if (chain->status == IDENTITY_CHAIN_STATUS_VALID && wickr_identity_chain_has_valid_cache(chain, engine)) {
+        return true;
     }
     
     bool is_valid = engine->wickr_crypto_engine_ec_verify(chain->node->signature, chain->root->sig_key, chain->node->sig_key->pub_data);
diff --git a/src/wickrcrypto/src/node.c b/src/wickrcrypto/src/node.c
index 0bb0253..02f5a18 100644
--- a/src/wickrcrypto/src/node.c
+++ b/src/wickrcrypto/src/node.c
@@ -55,9 +55,10 @@ bool wickr_node_verify_signature_chain(wickr_node_t *node, const wickr_crypto_en
         return false;
     }
     
-    /* Check to see if we need to recalculate the status of the node */
-    if (wickr_node_has_valid_cache(node, engine)) {
-        return node->status == NODE_STATUS_VALID;
+    /* Check to see if we need to recalculate the status of the node. Only success is remembered, because the engine
+       does not tell a wrong signature from a failure to verify it */
+    if (node->status == NODE_STATUS_VALID && wickr_node_has_valid_cache(node, engine)) {
+        return true;
     }
     
     /* If the id_chain status is invalid, then return false without continuing */
-- 
2.43.0


From c76079190e613ca7cd3a7fb79176ef83304e91da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 27/89] fix: wipe the copy of the passphrase bcrypt hashes

---
 src/wickrcrypto/src/kdf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 5277000..9f523cb 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -318,12 +318,12 @@ static wickr_buffer_t *__bcrypt_generate_hash(const wickr_kdf_meta_t *meta, cons
     memset(&out, 0, BCRYPT_HASH_SIZE);
     
     if (!crypt_rn((char *)passphrase_final->bytes, (char *)salt_buffer->bytes, out, BCRYPT_HASH_SIZE)) {
-        wickr_buffer_destroy(&passphrase_final);
+        wickr_buffer_destroy_zero(&passphrase_final);
         wickr_buffer_destroy(&salt_buffer);
         return NULL;
     }
     
-    wickr_buffer_destroy(&passphrase_final);
+    wickr_buffer_destroy_zero(&passphrase_final);
     
     wickr_buffer_t *hash_buffer = wickr_buffer_create((uint8_t *)out, strlen(out));
     wickr_buffer_destroy(&salt_buffer);
-- 
2.43.0


From 58b932b077004f629f8a0b1911aa00a3b05342e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 28/89] fix: wipe the serialized copies of keys before
 releasing them

---
 src/wickrcrypto/src/storage_priv.c            | 2 ++
 src/wickrcrypto/src/stream_key_priv.c         | 1 +
 src/wickrcrypto/src/transport_handshake.c     | 2 +-
 src/wickrcrypto/src/transport_root_key_priv.c | 1 +
 4 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/storage_priv.c b/src/wickrcrypto/src/storage_priv.c
index ef5cd62..803575d 100644
--- a/src/wickrcrypto/src/storage_priv.c
+++ b/src/wickrcrypto/src/storage_priv.c
@@ -11,6 +11,8 @@ void wickr_storage_keys_proto_free(Wickr__Proto__StorageKeys *proto_keys)
         return;
     }
     
+    wickr_zero(proto_keys->local_storage.data, proto_keys->local_storage.len);
+    wickr_zero(proto_keys->remote_storage.data, proto_keys->remote_storage.len);
     wickr_free(proto_keys->local_storage.data);
     wickr_free(proto_keys->remote_storage.data);
     wickr_free(proto_keys);
diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index 3ee86d0..1d81ae4 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -8,6 +8,7 @@ void wickr_stream_key_proto_free(Wickr__Proto__StreamKey *proto_key)
     if (!proto_key) {
         return;
     }
+    wickr_zero(proto_key->cipher_key.data, proto_key->cipher_key.len);
     wickr_free(proto_key->cipher_key.data);
     wickr_free(proto_key);
 }
diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 71eefe3..2ed83d5 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -591,7 +591,7 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     wickr_cipher_result_t *result = wickr_ecdh_cipher_ctx_cipher(cipher_ctx, serialized_response_data, ephemeral_key, kdf_meta);
     
     wickr_kdf_meta_destroy(&kdf_meta);
-    wickr_buffer_destroy(&serialized_response_data);
+    wickr_buffer_destroy_zero(&serialized_response_data);
     wickr_ec_key_destroy(&ephemeral_key);
     
     if (!result) {
diff --git a/src/wickrcrypto/src/transport_root_key_priv.c b/src/wickrcrypto/src/transport_root_key_priv.c
index c9ea99b..44e240f 100644
--- a/src/wickrcrypto/src/transport_root_key_priv.c
+++ b/src/wickrcrypto/src/transport_root_key_priv.c
@@ -72,6 +72,7 @@ void wickr_transport_root_key_proto_free(Wickr__Proto__TransportRootKey *root_ke
         return;
     }
     
+    wickr_zero(root_key_proto->secret.data, root_key_proto->secret.len);
     wickr_free(root_key_proto->secret.data);
     wickr_free(root_key_proto);
 }
-- 
2.43.0


From 1390e240b23d262d174b9dffdf725313ff6fc3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 29/89] fix: wipe what is unpacked from serialized keys before
 releasing it

---
 .../include/wickrcrypto/private/buffer_priv.h |  8 ++++
 src/wickrcrypto/src/buffer_priv.c             | 39 +++++++++++++++++++
 src/wickrcrypto/src/identity.c                |  5 ++-
 src/wickrcrypto/src/root_keys.c               | 13 ++++---
 src/wickrcrypto/src/storage.c                 |  5 ++-
 src/wickrcrypto/src/stream_key.c              |  5 ++-
 src/wickrcrypto/src/transport_handshake.c     |  2 +-
 .../src/transport_handshake_priv.c            |  2 +-
 src/wickrcrypto/src/wickr_ctx.c               |  5 ++-
 9 files changed, 68 insertions(+), 16 deletions(-)

diff --git a/src/wickrcrypto/include/wickrcrypto/private/buffer_priv.h b/src/wickrcrypto/include/wickrcrypto/private/buffer_priv.h
index 6eb2e89..787c3a5 100644
--- a/src/wickrcrypto/include/wickrcrypto/private/buffer_priv.h
+++ b/src/wickrcrypto/include/wickrcrypto/private/buffer_priv.h
@@ -50,6 +50,14 @@ wickr_buffer_t *wickr_buffer_from_protobytes(ProtobufCBinaryData buffer);
  @return true if copy into 'proto_bin' is successful
  */
 bool wickr_buffer_to_protobytes(ProtobufCBinaryData *proto_bin, const wickr_buffer_t *buffer);
+
+/**
+ @ingroup wickr_buffer
+
+ An allocator for unpacking protocol buffers that hold secrets. The memory it manages is wiped when it is released.
+ A message that is unpacked with it must be released with it
+ */
+extern ProtobufCAllocator wickr_proto_zero_allocator;
     
 #ifdef __cplusplus
 }
diff --git a/src/wickrcrypto/src/buffer_priv.c b/src/wickrcrypto/src/buffer_priv.c
index b9cc9bf..efc3d87 100644
--- a/src/wickrcrypto/src/buffer_priv.c
+++ b/src/wickrcrypto/src/buffer_priv.c
@@ -1,8 +1,47 @@
 
 #include "private/buffer_priv.h"
 #include "memory.h"
+#include <stddef.h>
 #include <string.h>
 
+/* The size of a block is kept in front of it, so that all of it can be wiped */
+typedef union {
+    size_t size;
+    long double align_float;
+    void *align_ptr;
+} wickr_proto_block_t;
+
+static void *__wickr_proto_zero_alloc(void *allocator_data, size_t size)
+{
+    if (size > MAX_BUFFER_SIZE) {
+        return NULL;
+    }
+    
+    wickr_proto_block_t *block = wickr_alloc(sizeof(wickr_proto_block_t) + size);
+    
+    if (!block) {
+        return NULL;
+    }
+    
+    block->size = size;
+    
+    return block + 1;
+}
+
+static void __wickr_proto_zero_free(void *allocator_data, void *pointer)
+{
+    if (!pointer) {
+        return;
+    }
+    
+    wickr_proto_block_t *block = (wickr_proto_block_t *)pointer - 1;
+    
+    wickr_zero(pointer, block->size);
+    wickr_free(block);
+}
+
+ProtobufCAllocator wickr_proto_zero_allocator = { __wickr_proto_zero_alloc, __wickr_proto_zero_free, NULL };
+
 wickr_buffer_t *wickr_buffer_from_protobytes(ProtobufCBinaryData buffer)
 {
     return wickr_buffer_create(buffer.data, buffer.len);
diff --git a/src/wickrcrypto/src/identity.c b/src/wickrcrypto/src/identity.c
index 5f0be49..b44e224 100644
--- a/src/wickrcrypto/src/identity.c
+++ b/src/wickrcrypto/src/identity.c
@@ -1,5 +1,6 @@
 
 #include "identity.h"
+#include "private/buffer_priv.h"
 #include "private/identity_priv.h"
 #include "memory.h"
 
@@ -339,14 +340,14 @@ wickr_identity_chain_t *wickr_identity_chain_create_from_buffer(const wickr_buff
         return NULL;
     }
     
-    Wickr__Proto__IdentityChain *proto_identity = wickr__proto__identity_chain__unpack(NULL, buffer->length, buffer->bytes);
+    Wickr__Proto__IdentityChain *proto_identity = wickr__proto__identity_chain__unpack(&wickr_proto_zero_allocator, buffer->length, buffer->bytes);
     
     if (!proto_identity) {
         return NULL;
     }
     
     wickr_identity_chain_t *return_chain = wickr_identity_chain_create_from_proto(proto_identity, engine);
-    wickr__proto__identity_chain__free_unpacked(proto_identity, NULL);
+    wickr__proto__identity_chain__free_unpacked(proto_identity, &wickr_proto_zero_allocator);
     
     return return_chain;
 }
diff --git a/src/wickrcrypto/src/root_keys.c b/src/wickrcrypto/src/root_keys.c
index 3434e0a..bc8ce34 100644
--- a/src/wickrcrypto/src/root_keys.c
+++ b/src/wickrcrypto/src/root_keys.c
@@ -1,5 +1,6 @@
 
 #include "root_keys.h"
+#include "private/buffer_priv.h"
 #include "memory.h"
 #include "storage.pb-c.h"
 #include "private/cipher_priv.h"
@@ -71,7 +72,7 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
         return NULL;
     }
     
-    Wickr__Proto__RootKeys *proto_keypair = wickr__proto__root_keys__unpack(NULL, buffer->length, buffer->bytes);
+    Wickr__Proto__RootKeys *proto_keypair = wickr__proto__root_keys__unpack(&wickr_proto_zero_allocator, buffer->length, buffer->bytes);
     
     if (!proto_keypair) {
         return NULL;
@@ -79,7 +80,7 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
     
     if (!proto_keypair->has_node_storage_root || !proto_keypair->has_remote_storage_root ||
         proto_keypair->version > CURRENT_ROOT_KEY_VERSION) {
-        wickr__proto__root_keys__free_unpacked(proto_keypair, NULL);
+        wickr__proto__root_keys__free_unpacked(proto_keypair, &wickr_proto_zero_allocator);
         return NULL;
     }
     
@@ -90,7 +91,7 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
     wickr_cipher_key_t *node_storage_key = wickr_cipher_key_from_protobytes(proto_keypair->node_storage_root);
     
     if (!node_storage_key) {
-        wickr__proto__root_keys__free_unpacked(proto_keypair, NULL);
+        wickr__proto__root_keys__free_unpacked(proto_keypair, &wickr_proto_zero_allocator);
         return NULL;
     }
     
@@ -98,7 +99,7 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
     
     if (!node_storage_key) {
         wickr_cipher_key_destroy(&node_storage_key);
-        wickr__proto__root_keys__free_unpacked(proto_keypair, NULL);
+        wickr__proto__root_keys__free_unpacked(proto_keypair, &wickr_proto_zero_allocator);
         return NULL;
     }
     
@@ -107,12 +108,12 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
     if (!node_signature_root) {
         wickr_cipher_key_destroy(&remote_storage_key);
         wickr_cipher_key_destroy(&node_storage_key);
-        wickr__proto__root_keys__free_unpacked(proto_keypair, NULL);
+        wickr__proto__root_keys__free_unpacked(proto_keypair, &wickr_proto_zero_allocator);
         return NULL;
     }
     
     wickr_root_keys_t *root_keys = wickr_root_keys_create(node_signature_root, node_storage_key, remote_storage_key);
-    wickr__proto__root_keys__free_unpacked(proto_keypair, NULL);
+    wickr__proto__root_keys__free_unpacked(proto_keypair, &wickr_proto_zero_allocator);
     
     if (!root_keys) {
         wickr_cipher_key_destroy(&remote_storage_key);
diff --git a/src/wickrcrypto/src/storage.c b/src/wickrcrypto/src/storage.c
index 1bf93a0..2214d6a 100644
--- a/src/wickrcrypto/src/storage.c
+++ b/src/wickrcrypto/src/storage.c
@@ -1,5 +1,6 @@
 
 #include "private/storage_priv.h"
+#include "private/buffer_priv.h"
 #include "memory.h"
 #include "storage.pb-c.h"
 #include "private/cipher_priv.h"
@@ -78,11 +79,11 @@ wickr_storage_keys_t *wickr_storage_keys_create_from_buffer(const wickr_buffer_t
         return NULL;
     }
     
-    Wickr__Proto__StorageKeys *key_proto = wickr__proto__storage_keys__unpack(NULL, buffer->length,
+    Wickr__Proto__StorageKeys *key_proto = wickr__proto__storage_keys__unpack(&wickr_proto_zero_allocator, buffer->length,
                                                                               buffer->bytes);
     
     wickr_storage_keys_t *storage_keys = wickr_storage_keys_create_from_proto(key_proto);
-    wickr__proto__storage_keys__free_unpacked(key_proto, NULL);
+    wickr__proto__storage_keys__free_unpacked(key_proto, &wickr_proto_zero_allocator);
     
     return storage_keys;
 }
diff --git a/src/wickrcrypto/src/stream_key.c b/src/wickrcrypto/src/stream_key.c
index 04a339e..64c4212 100644
--- a/src/wickrcrypto/src/stream_key.c
+++ b/src/wickrcrypto/src/stream_key.c
@@ -7,6 +7,7 @@
 //
 
 #include "private/stream_key_priv.h"
+#include "private/buffer_priv.h"
 #include "memory.h"
 
 wickr_stream_key_t *wickr_stream_key_create(wickr_cipher_key_t *cipher_key, wickr_buffer_t *evolution_key, uint32_t packets_per_evolution)
@@ -135,14 +136,14 @@ wickr_stream_key_t *wickr_stream_key_create_from_buffer(const wickr_buffer_t *bu
         return NULL;
     }
     
-    Wickr__Proto__StreamKey *proto_key = wickr__proto__stream_key__unpack(NULL, buffer->length, buffer->bytes);
+    Wickr__Proto__StreamKey *proto_key = wickr__proto__stream_key__unpack(&wickr_proto_zero_allocator, buffer->length, buffer->bytes);
     
     if (!proto_key) {
         return NULL;
     }
     
     wickr_stream_key_t *stream_key = wickr_stream_key_create_from_proto(proto_key);
-    wickr__proto__stream_key__free_unpacked(proto_key, NULL);
+    wickr__proto__stream_key__free_unpacked(proto_key, &wickr_proto_zero_allocator);
     
     return stream_key;
 }
diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 2ed83d5..213b1cb 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -492,7 +492,7 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
     }
     
     handshake->root_key = wickr_transport_root_key_from_proto(response_data->root_key);
-    wickr__proto__handshake_v1_response_data__free_unpacked(response_data, NULL);
+    wickr__proto__handshake_v1_response_data__free_unpacked(response_data, &wickr_proto_zero_allocator);
     
     if (!handshake->root_key) {
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
diff --git a/src/wickrcrypto/src/transport_handshake_priv.c b/src/wickrcrypto/src/transport_handshake_priv.c
index 6591cf8..cf75b52 100644
--- a/src/wickrcrypto/src/transport_handshake_priv.c
+++ b/src/wickrcrypto/src/transport_handshake_priv.c
@@ -94,7 +94,7 @@ Wickr__Proto__HandshakeV1ResponseData *wickr_proto_handshake_response_data_from_
         return NULL;
     }
     
-    return wickr__proto__handshake_v1_response_data__unpack(NULL, buffer->length, buffer->bytes);
+    return wickr__proto__handshake_v1_response_data__unpack(&wickr_proto_zero_allocator, buffer->length, buffer->bytes);
 }
 
 void wickr_proto_handshake_response_data_free(Wickr__Proto__HandshakeV1ResponseData *data)
diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index e03d6be..27ae12b 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -1,5 +1,6 @@
 
 #include "wickr_ctx.h"
+#include "private/buffer_priv.h"
 #include "memory.h"
 #include "private/identity_priv.h"
 #include "private/storage_priv.h"
@@ -591,11 +592,11 @@ wickr_ctx_t *wickr_ctx_create_from_buffer(const wickr_crypto_engine_t engine,
         return NULL;
     }
     
-    Wickr__Proto__Ctx *ctx_proto = wickr__proto__ctx__unpack(NULL, buffer->length,
+    Wickr__Proto__Ctx *ctx_proto = wickr__proto__ctx__unpack(&wickr_proto_zero_allocator, buffer->length,
                                                              buffer->bytes);
     
     wickr_ctx_t *ctx = __wickr_ctx_create_from_proto(engine, dev_info, ctx_proto);
-    wickr__proto__ctx__free_unpacked(ctx_proto, NULL);
+    wickr__proto__ctx__free_unpacked(ctx_proto, &wickr_proto_zero_allocator);
     
     return ctx;
 }
-- 
2.43.0


From 9a52d581e4304254950f576531b720fc76d1c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 30/89] fix: release refused handshake answers that carry no
 key

---
 src/wickrcrypto/src/transport_handshake.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 213b1cb..738feb1 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -488,6 +488,7 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
     
     if (!response_data || !response_data->root_key) {
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
+        wickr__proto__handshake_v1_response_data__free_unpacked(response_data, &wickr_proto_zero_allocator);
         return;
     }
     
-- 
2.43.0


From 98cfc55ac50fb4dfe9e8a660926c85db86b8a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:59 +0000
Subject: [PATCH 31/89] fix: check a key for NULL before reading its curve

---
 src/wickrcrypto/src/eckey.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/eckey.c b/src/wickrcrypto/src/eckey.c
index 015cbac..90d6e8c 100644
--- a/src/wickrcrypto/src/eckey.c
+++ b/src/wickrcrypto/src/eckey.c
@@ -45,13 +45,17 @@ wickr_ec_key_t *wickr_ec_key_copy(const wickr_ec_key_t *source)
 
 wickr_buffer_t *wickr_ec_key_get_pubdata_fixed_len(const wickr_ec_key_t *key)
 {
+    if (!key || !key->pub_data) {
+        return NULL;
+    }
+    
     /* If no adjustments are necessary, just return a new copy of the pub key data as is */
     if (key->pub_data->length == key->curve.max_pub_size) {
         return wickr_buffer_copy(key->pub_data);
     }
     
     /* Verify that we don't have a corrupt key with a length greater than the maximum */
-    if (!key || key->pub_data->length > key->curve.max_pub_size) {
+    if (key->pub_data->length > key->curve.max_pub_size) {
         return NULL;
     }
     
-- 
2.43.0


From c15213e731d0f8ba93c796728b4ba837fcaa67a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:22 +0000
Subject: [PATCH 32/89] fix: let go of the Java arrays and returned buffers the
 binding opens

---
 src/wickrcrypto/swig/buffer_java.i | 52 +++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/wickrcrypto/swig/buffer_java.i b/src/wickrcrypto/swig/buffer_java.i
index 8418249..bdf12e9 100644
--- a/src/wickrcrypto/swig/buffer_java.i
+++ b/src/wickrcrypto/swig/buffer_java.i
@@ -1,39 +1,53 @@
 %include "typemaps.i"
 
-%typemap(in) const wickr_buffer_t * ( const wickr_buffer_t * )
+%typemap(in) const wickr_buffer_t * ( wickr_buffer_t temp )
 %{
-  wickr_buffer_t temp$argnum;
+  $1 = NULL;
 
-  if ($input == NULL) {
-    $1 = NULL;
+  if ($input != NULL) {
+    temp.length = (size_t)((*jenv)->GetArrayLength(jenv,$input));
+    temp.bytes = (uint8_t *)((*jenv)->GetByteArrayElements(jenv,$input,0));
+    if (temp.bytes == NULL) {
+      return $null;
+    }
+    $1 = &temp;
   }
-  else {    
-    temp$argnum.length = (size_t)((*jenv)->GetArrayLength(jenv,$input));
-    temp$argnum.bytes = (uint8_t *)((*jenv)->GetByteArrayElements(jenv,$input,0));
-    $1 = &temp$argnum;
+
+%}
+
+%typemap(freearg) const wickr_buffer_t *
+%{
+  if ($1 != NULL) {
+    (*jenv)->ReleaseByteArrayElements(jenv,$input,(jbyte *)$1->bytes,JNI_ABORT);
   }
-  
 %}
 
-%typemap(in) wickr_buffer_t * ( wickr_buffer_t * )
+%typemap(in) wickr_buffer_t *
 %{
+  $1 = NULL;
 
   if ($input != NULL) {
-    jbyte *bytes = (*jenv)->GetByteArrayElements(jenv,$input,0);
-    size_t length = (*jenv)->GetArrayLength(jenv,$input);
-    $1 = wickr_buffer_create((uint8_t *)bytes, length);
+    jsize length$argnum = (*jenv)->GetArrayLength(jenv,$input);
+    jbyte *bytes$argnum = (*jenv)->GetByteArrayElements(jenv,$input,0);
+    if (bytes$argnum == NULL) {
+      return $null;
+    }
+    $1 = wickr_buffer_create((uint8_t *)bytes$argnum, (size_t)length$argnum);
+    (*jenv)->ReleaseByteArrayElements(jenv,$input,bytes$argnum,JNI_ABORT);
   }
-  
+
 %}
 
+/* The copy belongs to the function that is called */
+%typemap(freearg) wickr_buffer_t * ""
+
 %typemap(out) wickr_buffer_t * 
 %{  
   if ($1 != NULL) {
-    const jbyte *returnDataC = (jbyte *)result->bytes;
-    jsize returnDataL = (jsize)result->length;
-    jbyteArray returnDataJ = (*jenv)->NewByteArray(jenv, returnDataL);
-    (*jenv)->SetByteArrayRegion(jenv,returnDataJ,0,returnDataL,returnDataC);
-    return returnDataJ;
+    $result = (*jenv)->NewByteArray(jenv, (jsize)$1->length);
+    if ($result != NULL) {
+      (*jenv)->SetByteArrayRegion(jenv,$result,0,(jsize)$1->length,(const jbyte *)$1->bytes);
+    }
   }
 %}
 
-- 
2.43.0


From 75f5c7a7bd5ee2209f6ee4ce98da541b9bdf92e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 33/89] fix: keep the owner of a value alive while the binding
 refers to it

---
 src/wickrcrypto/swig/cipher.i       |  13 +++
 src/wickrcrypto/swig/ecdh_cipher.i  | 132 ++++++++++++------------
 src/wickrcrypto/swig/ecdsa.i        |  13 +++
 src/wickrcrypto/swig/eckey.i        |  13 +++
 src/wickrcrypto/swig/kdf.i          |   4 +-
 src/wickrcrypto/swig/key_exchange.i | 154 ++++++++++++++--------------
 src/wickrcrypto/swig/wickr_ctx.i    |   4 +-
 7 files changed, 186 insertions(+), 147 deletions(-)

diff --git a/src/wickrcrypto/swig/cipher.i b/src/wickrcrypto/swig/cipher.i
index 5992d40..250170b 100644
--- a/src/wickrcrypto/swig/cipher.i
+++ b/src/wickrcrypto/swig/cipher.i
@@ -4,6 +4,19 @@
 #include <wickrcrypto/cipher.h>	
 %}
 
+#if defined(SWIGJAVA)
+%typemap(javaout) wickr_cipher_t *cipher {
+  long cPtr = $jnicall;
+    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
+}
+#elif defined(SWIGJAVASCRIPT)
+%typemap(ret) wickr_cipher_t *cipher {
+  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
+    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
+  }
+}
+#endif
+
 %ignore CIPHER_AES256_GCM;
 %ignore CIPHER_AES256_CTR;
 %ignore wickr_cipher_find;
diff --git a/src/wickrcrypto/swig/ecdh_cipher.i b/src/wickrcrypto/swig/ecdh_cipher.i
index 75f44d5..981f5fc 100644
--- a/src/wickrcrypto/swig/ecdh_cipher.i
+++ b/src/wickrcrypto/swig/ecdh_cipher.i
@@ -1,67 +1,67 @@
-%module ecdh_cipher
-
-%include engine.i
-
-%{
-#include <wickrcrypto/ecdh_cipher_ctx.h>
-%}
-
-#if defined(SWIGJAVA)
-%typemap(javaout) SWIGTYPE *local_key {
-  long cPtr = $jnicall;
-    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
-}
-#elif defined(SWIGJAVASCRIPT)
-%typemap(ret) SWIGTYPE *local_key {
-  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
-    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
-  }
-}
-#endif
-
-%ignore wickr_ecdh_cipher_ctx_create;
-%ignore wickr_ecdh_cipher_ctx_create_key;
-%ignore wickr_ecdh_cipher_ctx_copy;
-%ignore wickr_ecdh_cipher_ctx_destroy;
-%ignore wickr_ecdh_cipher_ctx_cipher;
-%ignore wickr_ecdh_cipher_ctx_decipher;
-
-%immutable;
-
-%include "wickrcrypto/ecdh_cipher_ctx.h"
-
-%extend struct wickr_ecdh_cipher_ctx {
-
- ~wickr_ecdh_cipher_ctx() {
-   wickr_ecdh_cipher_ctx_destroy(&$self);
- }
-
- %newobject gen;
- %newobject from_components;
- %newobject encrypt;
- %newobject decrypt;
-
- static wickr_ecdh_cipher_ctx_t *gen(wickr_ec_curve_t curve, wickr_cipher_t cipher) {
-    wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-    return wickr_ecdh_cipher_ctx_create(engine, curve, cipher);
- }
-
- static wickr_ecdh_cipher_ctx_t *from_components(wickr_ec_key_t *key, wickr_cipher_t cipher) {
-    wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-    wickr_ec_key_t *key_copy = wickr_ec_key_copy(key);
-    wickr_ecdh_cipher_ctx_t *ctx = wickr_ecdh_cipher_ctx_create_key(engine, key_copy, cipher);
-    if (!ctx) {
-        wickr_ec_key_destroy(&key_copy);
-    }
-    return ctx;
- }
-
- wickr_cipher_result_t *encrypt(const wickr_buffer_t *plaintext, const wickr_ec_key_t *remote_pub, const wickr_kdf_meta_t *kdf_params) {
-   return wickr_ecdh_cipher_ctx_cipher($self, plaintext, remote_pub, kdf_params);
- }
-
- wickr_buffer_t *decrypt(const wickr_cipher_result_t *ciphertext, const wickr_ec_key_t *remote_pub, const wickr_kdf_meta_t *kdf_params) {
-   return wickr_ecdh_cipher_ctx_decipher($self, ciphertext, remote_pub, kdf_params);
- }
-
+%module ecdh_cipher
+
+%include engine.i
+
+%{
+#include <wickrcrypto/ecdh_cipher_ctx.h>
+%}
+
+#if defined(SWIGJAVA)
+%typemap(javaout) SWIGTYPE *local_key, wickr_crypto_engine_t *engine {
+  long cPtr = $jnicall;
+    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
+}
+#elif defined(SWIGJAVASCRIPT)
+%typemap(ret) SWIGTYPE *local_key, wickr_crypto_engine_t *engine {
+  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
+    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
+  }
+}
+#endif
+
+%ignore wickr_ecdh_cipher_ctx_create;
+%ignore wickr_ecdh_cipher_ctx_create_key;
+%ignore wickr_ecdh_cipher_ctx_copy;
+%ignore wickr_ecdh_cipher_ctx_destroy;
+%ignore wickr_ecdh_cipher_ctx_cipher;
+%ignore wickr_ecdh_cipher_ctx_decipher;
+
+%immutable;
+
+%include "wickrcrypto/ecdh_cipher_ctx.h"
+
+%extend struct wickr_ecdh_cipher_ctx {
+
+ ~wickr_ecdh_cipher_ctx() {
+   wickr_ecdh_cipher_ctx_destroy(&$self);
+ }
+
+ %newobject gen;
+ %newobject from_components;
+ %newobject encrypt;
+ %newobject decrypt;
+
+ static wickr_ecdh_cipher_ctx_t *gen(wickr_ec_curve_t curve, wickr_cipher_t cipher) {
+    wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
+    return wickr_ecdh_cipher_ctx_create(engine, curve, cipher);
+ }
+
+ static wickr_ecdh_cipher_ctx_t *from_components(wickr_ec_key_t *key, wickr_cipher_t cipher) {
+    wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
+    wickr_ec_key_t *key_copy = wickr_ec_key_copy(key);
+    wickr_ecdh_cipher_ctx_t *ctx = wickr_ecdh_cipher_ctx_create_key(engine, key_copy, cipher);
+    if (!ctx) {
+        wickr_ec_key_destroy(&key_copy);
+    }
+    return ctx;
+ }
+
+ wickr_cipher_result_t *encrypt(const wickr_buffer_t *plaintext, const wickr_ec_key_t *remote_pub, const wickr_kdf_meta_t *kdf_params) {
+   return wickr_ecdh_cipher_ctx_cipher($self, plaintext, remote_pub, kdf_params);
+ }
+
+ wickr_buffer_t *decrypt(const wickr_cipher_result_t *ciphertext, const wickr_ec_key_t *remote_pub, const wickr_kdf_meta_t *kdf_params) {
+   return wickr_ecdh_cipher_ctx_decipher($self, ciphertext, remote_pub, kdf_params);
+ }
+
 };
\ No newline at end of file
diff --git a/src/wickrcrypto/swig/ecdsa.i b/src/wickrcrypto/swig/ecdsa.i
index 6ce40f5..8f713c7 100644
--- a/src/wickrcrypto/swig/ecdsa.i
+++ b/src/wickrcrypto/swig/ecdsa.i
@@ -4,6 +4,19 @@
 #include <wickrcrypto/ecdsa.h>
 %}
 
+#if defined(SWIGJAVA)
+%typemap(javaout) wickr_ec_curve_t *curve, wickr_digest_t *digest_mode {
+  long cPtr = $jnicall;
+    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
+}
+#elif defined(SWIGJAVASCRIPT)
+%typemap(ret) wickr_ec_curve_t *curve, wickr_digest_t *digest_mode {
+  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
+    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
+  }
+}
+#endif
+
 %ignore wickr_ecdsa_result_create;
 %ignore wickr_ecdsa_result_serialize;
 %ignore wickr_ecdsa_result_create_from_buffer;
diff --git a/src/wickrcrypto/swig/eckey.i b/src/wickrcrypto/swig/eckey.i
index 7e5dfc7..c1ce0b9 100644
--- a/src/wickrcrypto/swig/eckey.i
+++ b/src/wickrcrypto/swig/eckey.i
@@ -4,6 +4,19 @@
 #include <wickrcrypto/eckey.h>
 %}
 
+#if defined(SWIGJAVA)
+%typemap(javaout) wickr_ec_curve_t *curve {
+  long cPtr = $jnicall;
+    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
+}
+#elif defined(SWIGJAVASCRIPT)
+%typemap(ret) wickr_ec_curve_t *curve {
+  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
+    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
+  }
+}
+#endif
+
 %ignore wickr_ec_key_create;
 %ignore wickr_ec_key_copy;
 %ignore wickr_ec_key_destroy;
diff --git a/src/wickrcrypto/swig/kdf.i b/src/wickrcrypto/swig/kdf.i
index 8ebd9d1..d63acd2 100644
--- a/src/wickrcrypto/swig/kdf.i
+++ b/src/wickrcrypto/swig/kdf.i
@@ -1,12 +1,12 @@
 %module kdf
 
 #if defined(SWIGJAVA)
-%typemap(javaout) SWIGTYPE *meta {
+%typemap(javaout) SWIGTYPE *meta, wickr_kdf_algo_t *algo {
   long cPtr = $jnicall;
     return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
 }
 #elif defined(SWIGJAVASCRIPT)
-%typemap(ret) SWIGTYPE *meta {
+%typemap(ret) SWIGTYPE *meta, wickr_kdf_algo_t *algo {
   if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
     SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
   }
diff --git a/src/wickrcrypto/swig/key_exchange.i b/src/wickrcrypto/swig/key_exchange.i
index 2aebb97..6b3439a 100644
--- a/src/wickrcrypto/swig/key_exchange.i
+++ b/src/wickrcrypto/swig/key_exchange.i
@@ -1,78 +1,78 @@
-%module key_exchange
-
-%include engine.i
-
-%{
-#include <wickrcrypto/key_exchange.h>
-%}
-
-#if defined(SWIGJAVA)
-%typemap(javaout) SWIGTYPE *exchange_ciphertext {
-	long cPtr = $jnicall;
-    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
-}
-#elif defined(SWIGJAVASCRIPT)
-%typemap(ret) SWIGTYPE *exchange_ciphertext {
-  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
-    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
-  }
-}
-#endif
-
-%ignore wickr_key_exchange_create;
-%ignore wickr_key_exchange_copy;
-%ignore wickr_key_exchange_destroy;
-%ignore wickr_exchange_array_new;
-%ignore wickr_exchange_array_set_item;
-%ignore wickr_exchange_array_fetch_item;
-%ignore wickr_exchange_array_copy;
-%ignore wickr_exchange_array_destroy;
-%ignore wickr_key_exchange_set_create;
-%ignore wickr_key_exchange_set_find;
-%ignore wickr_key_exchange_set_copy;
-%ignore wickr_key_exchange_set_destroy;
-%ignore wickr_key_exchange_set_serialize;
-%ignore wickr_key_exchange_set_create_from_buffer;
-%ignore exchanges;
-
-%immutable;
-
-%include "wickrcrypto/key_exchange.h"
-
-%extend struct wickr_key_exchange {
-
- ~wickr_key_exchange() {
-   wickr_key_exchange_destroy(&$self);
- }
-
- %newobject from_values;
-
- static wickr_key_exchange_t *from_values(wickr_buffer_t *exchange_id, uint64_t key_id, wickr_cipher_result_t *exchange_ciphertext) {
- 	wickr_cipher_result_t *ciphertext_copy = wickr_cipher_result_copy(exchange_ciphertext);
-   	wickr_key_exchange_t *exchange = wickr_key_exchange_create(exchange_id, key_id, ciphertext_copy);
-   	if (!exchange) {
-   		wickr_cipher_result_destroy(&ciphertext_copy);
-   	}
-   	return exchange;
- }
-
-};
-
-%extend struct wickr_key_exchange_set {
-
- ~wickr_key_exchange_set() {
-   wickr_key_exchange_set_destroy(&$self);
- }
-
- %newobject from_buffer;
- %newobject serialize;
-
- static wickr_key_exchange_set_t *from_buffer(const wickr_buffer_t *buffer) {
-     const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-     return wickr_key_exchange_set_create_from_buffer(&engine, buffer);
- }
-
- wickr_buffer_t *serialize();
- 
-
+%module key_exchange
+
+%include engine.i
+
+%{
+#include <wickrcrypto/key_exchange.h>
+%}
+
+#if defined(SWIGJAVA)
+%typemap(javaout) SWIGTYPE *exchange_ciphertext, SWIGTYPE *sender_pub {
+	long cPtr = $jnicall;
+    return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
+}
+#elif defined(SWIGJAVASCRIPT)
+%typemap(ret) SWIGTYPE *exchange_ciphertext, SWIGTYPE *sender_pub {
+  if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
+    SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
+  }
+}
+#endif
+
+%ignore wickr_key_exchange_create;
+%ignore wickr_key_exchange_copy;
+%ignore wickr_key_exchange_destroy;
+%ignore wickr_exchange_array_new;
+%ignore wickr_exchange_array_set_item;
+%ignore wickr_exchange_array_fetch_item;
+%ignore wickr_exchange_array_copy;
+%ignore wickr_exchange_array_destroy;
+%ignore wickr_key_exchange_set_create;
+%ignore wickr_key_exchange_set_find;
+%ignore wickr_key_exchange_set_copy;
+%ignore wickr_key_exchange_set_destroy;
+%ignore wickr_key_exchange_set_serialize;
+%ignore wickr_key_exchange_set_create_from_buffer;
+%ignore exchanges;
+
+%immutable;
+
+%include "wickrcrypto/key_exchange.h"
+
+%extend struct wickr_key_exchange {
+
+ ~wickr_key_exchange() {
+   wickr_key_exchange_destroy(&$self);
+ }
+
+ %newobject from_values;
+
+ static wickr_key_exchange_t *from_values(wickr_buffer_t *exchange_id, uint64_t key_id, wickr_cipher_result_t *exchange_ciphertext) {
+ 	wickr_cipher_result_t *ciphertext_copy = wickr_cipher_result_copy(exchange_ciphertext);
+   	wickr_key_exchange_t *exchange = wickr_key_exchange_create(exchange_id, key_id, ciphertext_copy);
+   	if (!exchange) {
+   		wickr_cipher_result_destroy(&ciphertext_copy);
+   	}
+   	return exchange;
+ }
+
+};
+
+%extend struct wickr_key_exchange_set {
+
+ ~wickr_key_exchange_set() {
+   wickr_key_exchange_set_destroy(&$self);
+ }
+
+ %newobject from_buffer;
+ %newobject serialize;
+
+ static wickr_key_exchange_set_t *from_buffer(const wickr_buffer_t *buffer) {
+     const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
+     return wickr_key_exchange_set_create_from_buffer(&engine, buffer);
+ }
+
+ wickr_buffer_t *serialize();
+ 
+
 };
\ No newline at end of file
diff --git a/src/wickrcrypto/swig/wickr_ctx.i b/src/wickrcrypto/swig/wickr_ctx.i
index 0b0ab5f..493e387 100644
--- a/src/wickrcrypto/swig/wickr_ctx.i
+++ b/src/wickrcrypto/swig/wickr_ctx.i
@@ -12,12 +12,12 @@
 %}
 
 #if defined(SWIGJAVA)
-%typemap(javaout) SWIGTYPE *dev_info, SWIGTYPE *id_chain, SWIGTYPE *storage_keys, SWIGTYPE *packet_header_key, SWIGTYPE *recovery_key, SWIGTYPE *ctx, SWIGTYPE *root_keys, SWIGTYPE *recovery_key, SWIGTYPE *packet, SWIGTYPE *sender, SWIGTYPE *parse_result, SWIGTYPE *packet_key, SWIGTYPE *encoded_packet, SWIGTYPE *signature, SWIGTYPE *header, SWIGTYPE *key_exchange, SWIGTYPE *enc_payload, SWIGTYPE *payload_key, SWIGTYPE *decrypted_payload {
+%typemap(javaout) SWIGTYPE *dev_info, SWIGTYPE *id_chain, SWIGTYPE *storage_keys, SWIGTYPE *packet_header_key, SWIGTYPE *recovery_key, SWIGTYPE *ctx, SWIGTYPE *root_keys, SWIGTYPE *recovery_key, SWIGTYPE *packet, SWIGTYPE *sender, SWIGTYPE *parse_result, SWIGTYPE *packet_key, SWIGTYPE *encoded_packet, SWIGTYPE *signature, SWIGTYPE *header, SWIGTYPE *key_exchange, SWIGTYPE *enc_payload, SWIGTYPE *payload_key, SWIGTYPE *decrypted_payload, SWIGTYPE *key_exchange_set, wickr_crypto_engine_t *engine {
 	long cPtr = $jnicall;
     return (cPtr == 0) ? null : new $javaclassname(cPtr, $owner, this);
 }
 #elif defined(SWIGJAVASCRIPT)
-%typemap(ret) SWIGTYPE *dev_info, SWIGTYPE *id_chain, SWIGTYPE *storage_keys, SWIGTYPE *packet_header_key, SWIGTYPE *recovery_key, SWIGTYPE *ctx, SWIGTYPE *root_keys, SWIGTYPE *recovery_key, SWIGTYPE *packet, SWIGTYPE *sender, SWIGTYPE *parse_result, SWIGTYPE *packet_key, SWIGTYPE *encoded_packet, SWIGTYPE *signature, SWIGTYPE *header, SWIGTYPE *key_exchange, SWIGTYPE *enc_payload, SWIGTYPE *payload_key, SWIGTYPE *decrypted_payload {
+%typemap(ret) SWIGTYPE *dev_info, SWIGTYPE *id_chain, SWIGTYPE *storage_keys, SWIGTYPE *packet_header_key, SWIGTYPE *recovery_key, SWIGTYPE *ctx, SWIGTYPE *root_keys, SWIGTYPE *recovery_key, SWIGTYPE *packet, SWIGTYPE *sender, SWIGTYPE *parse_result, SWIGTYPE *packet_key, SWIGTYPE *encoded_packet, SWIGTYPE *signature, SWIGTYPE *header, SWIGTYPE *key_exchange, SWIGTYPE *enc_payload, SWIGTYPE *payload_key, SWIGTYPE *decrypted_payload, SWIGTYPE *key_exchange_set, wickr_crypto_engine_t *engine {
     if (jsresult->IsObject() && SWIGV8_TO_OBJECT(jsresult)->Set(SWIGV8_CURRENT_CONTEXT(), SWIGV8_SYMBOL_NEW("parent"), info.Holder()).IsNothing()) {
         SWIG_exception_fail(SWIG_ERROR, "Could not set parent object for getter");
     }
-- 
2.43.0


From 2acdec77972253cc76b8c4aee031be400171a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 34/89] fix: destroy the copies, not the caller's keys, when
 storage keys are refused

---
 src/wickrcrypto/swig/storage_keys.i | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/swig/storage_keys.i b/src/wickrcrypto/swig/storage_keys.i
index 26a2780..a29b163 100644
--- a/src/wickrcrypto/swig/storage_keys.i
+++ b/src/wickrcrypto/swig/storage_keys.i
@@ -44,8 +44,8 @@
    wickr_cipher_key_t *remote_copy = wickr_cipher_key_copy(remote);
    wickr_storage_keys_t *keys = wickr_storage_keys_create(local_copy, remote_copy);
    if (!keys) {
-   		wickr_cipher_key_destroy(&local);
-   		wickr_cipher_key_destroy(&remote);
+   		wickr_cipher_key_destroy(&local_copy);
+   		wickr_cipher_key_destroy(&remote_copy);
    }
    return keys;
  }
-- 
2.43.0


From f2bb26aff9e6e5b2bcab10ce9dbc64e734c19bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 35/89] fix: return nothing from the binding's kdf when it
 fails

---
 src/wickrcrypto/swig/engine.i | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wickrcrypto/swig/engine.i b/src/wickrcrypto/swig/engine.i
index 5d2e888..271e6fd 100644
--- a/src/wickrcrypto/swig/engine.i
+++ b/src/wickrcrypto/swig/engine.i
@@ -97,6 +97,9 @@ struct wickr_crypto_engine{
     static wickr_buffer_t *kdf(wickr_kdf_algo_t algo, const wickr_buffer_t *passphrase) {
       wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
       wickr_kdf_result_t *result = engine.wickr_crypto_kdf_gen(algo, passphrase);
+      if (!result) {
+        return NULL;
+      }
       wickr_buffer_t *copy_out = wickr_buffer_copy(result->hash);
       wickr_kdf_result_destroy(&result);
       return copy_out;
-- 
2.43.0


From 9222b601ae95f58e2c3bfe0cc9de0e8525b52272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 36/89] fix: release the copied parameters when the binding's
 kdf fails

---
 src/wickrcrypto/swig/engine.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/swig/engine.i b/src/wickrcrypto/swig/engine.i
index 271e6fd..b8581d8 100644
--- a/src/wickrcrypto/swig/engine.i
+++ b/src/wickrcrypto/swig/engine.i
@@ -126,6 +126,7 @@ struct wickr_crypto_engine{
 
       meta_copy->algo.output_size = (uint8_t)output_size;
       wickr_kdf_result_t *result = engine.wickr_crypto_kdf_meta(meta_copy, passphrase);
+      wickr_kdf_meta_destroy(&meta_copy);
 
       if (!result) {
         return NULL;
@@ -133,7 +134,6 @@ struct wickr_crypto_engine{
 
       wickr_buffer_t *copy_out = wickr_buffer_copy(result->hash);
       wickr_kdf_result_destroy(&result);
-      wickr_kdf_meta_destroy(&meta_copy);
       return copy_out;
     }
 
-- 
2.43.0


From 9451498f84c4b81326493c2c77ba1eb89a1371a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 37/89] fix: refuse KDF output sizes the binding cannot pass on

---
 src/wickrcrypto/swig/engine.i | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wickrcrypto/swig/engine.i b/src/wickrcrypto/swig/engine.i
index b8581d8..9859106 100644
--- a/src/wickrcrypto/swig/engine.i
+++ b/src/wickrcrypto/swig/engine.i
@@ -90,6 +90,9 @@ struct wickr_crypto_engine{
 
     static wickr_kdf_result_t *kdf_full(wickr_kdf_algo_t algo, const wickr_buffer_t *passphrase, size_t output_size) {
       wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
+      if (output_size > UINT8_MAX) {
+        return NULL;
+      }
       algo.output_size = (uint8_t)output_size;
       return engine.wickr_crypto_kdf_gen(algo, passphrase);
     }
@@ -117,6 +120,10 @@ struct wickr_crypto_engine{
     }
 
     static wickr_buffer_t *kdf_salt_full(const wickr_kdf_meta_t *existing_meta, const wickr_buffer_t *passphrase, size_t output_size) {
+      if (output_size > UINT8_MAX) {
+        return NULL;
+      }
+
       wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
       wickr_kdf_meta_t *meta_copy = wickr_kdf_meta_copy(existing_meta);
 
-- 
2.43.0


From d2c1369b25786d46111a86b34149e0326f3cc7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 38/89] fix: give the objects the binding creates to their Java
 owners

---
 src/wickrcrypto/swig/cipher.i       | 2 ++
 src/wickrcrypto/swig/eckey.i        | 2 ++
 src/wickrcrypto/swig/engine.i       | 6 ++++++
 src/wickrcrypto/swig/identity.i     | 4 ++--
 src/wickrcrypto/swig/key_exchange.i | 3 +++
 src/wickrcrypto/swig/keypairs.i     | 3 +++
 src/wickrcrypto/swig/node.i         | 3 +++
 src/wickrcrypto/swig/wickr_ctx.i    | 2 ++
 8 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/swig/cipher.i b/src/wickrcrypto/swig/cipher.i
index 250170b..abb8f7b 100644
--- a/src/wickrcrypto/swig/cipher.i
+++ b/src/wickrcrypto/swig/cipher.i
@@ -37,6 +37,8 @@
 
 %immutable;
 
+%newobject wickr_cipher_key_create;
+
 %include "wickrcrypto/cipher.h"
 
 %extend struct wickr_cipher {
diff --git a/src/wickrcrypto/swig/eckey.i b/src/wickrcrypto/swig/eckey.i
index c1ce0b9..7a8afd7 100644
--- a/src/wickrcrypto/swig/eckey.i
+++ b/src/wickrcrypto/swig/eckey.i
@@ -27,6 +27,8 @@
 
 %immutable;
 
+%newobject wickr_ec_key_get_pubdata_fixed_len;
+
 %include "wickrcrypto/eckey.h"
 
 %extend struct wickr_ec_curve {
diff --git a/src/wickrcrypto/swig/engine.i b/src/wickrcrypto/swig/engine.i
index 9859106..9a3fb5a 100644
--- a/src/wickrcrypto/swig/engine.i
+++ b/src/wickrcrypto/swig/engine.i
@@ -29,6 +29,9 @@ struct wickr_crypto_engine{
     %newobject ecdh_gen_key;
     %newobject kdf;
     %newobject kdf_salt;
+    %newobject kdf_full;
+    %newobject kdf_salt_full;
+    %newobject ecdh_gen_shared_secret;
     %newobject kdf_encrypt;
     %newobject kdf_decrypt; 
     %newobject ecdsa_to_raw;
@@ -168,4 +171,7 @@ struct wickr_crypto_engine{
 
 };
 
+%newobject wickr_crypto_engine_kdf_cipher;
+%newobject wickr_crypto_engine_kdf_decipher;
+
 %include "wickrcrypto/crypto_engine.h"
diff --git a/src/wickrcrypto/swig/identity.i b/src/wickrcrypto/swig/identity.i
index fc96136..13cd986 100644
--- a/src/wickrcrypto/swig/identity.i
+++ b/src/wickrcrypto/swig/identity.i
@@ -52,8 +52,8 @@
  %newobject sign_data;
  %newobject gen_node;
  %newobject from_buffer;
- %newobject get_fingerprint;
- %newobject get_bilateral_fingerprint;
+ %newobject fingerprint;
+ %newobject bilateral_fingerprint;
  %newobject serialize;
 
  static wickr_identity_t *from_buffer(const wickr_buffer_t *data) {
diff --git a/src/wickrcrypto/swig/key_exchange.i b/src/wickrcrypto/swig/key_exchange.i
index 6b3439a..a227557 100644
--- a/src/wickrcrypto/swig/key_exchange.i
+++ b/src/wickrcrypto/swig/key_exchange.i
@@ -37,6 +37,9 @@
 
 %immutable;
 
+%newobject wickr_key_exchange_set_encrypt;
+%newobject wickr_key_exchange_set_create_from_cipher;
+
 %include "wickrcrypto/key_exchange.h"
 
 %extend struct wickr_key_exchange {
diff --git a/src/wickrcrypto/swig/keypairs.i b/src/wickrcrypto/swig/keypairs.i
index a199fe2..22ac4a2 100644
--- a/src/wickrcrypto/swig/keypairs.i
+++ b/src/wickrcrypto/swig/keypairs.i
@@ -28,6 +28,9 @@
 %ignore wickr_ephemeral_keypair_make_public;
 %ignore wickr_ephemeral_keypair_destroy;
 
+%newobject wickr_ephemeral_keypair_serialize;
+%newobject wickr_ephemeral_keypair_create_from_buffer;
+
 %include "wickrcrypto/ephemeral_keypair.h"
 
 %extend struct wickr_ephemeral_keypair {
diff --git a/src/wickrcrypto/swig/node.i b/src/wickrcrypto/swig/node.i
index 7934e29..2dbc00d 100644
--- a/src/wickrcrypto/swig/node.i
+++ b/src/wickrcrypto/swig/node.i
@@ -35,6 +35,8 @@
 %ignore wickr_node_serialize;
 %ignore wickr_node_from_buffer;
 
+%newobject wickr_node_create_from_buffer;
+
 %include "wickrcrypto/node.h"
 
 %extend struct wickr_node {
@@ -44,6 +46,7 @@
 	}
 
 	%newobject from_values;
+	%newobject from_buffer;
   %newobject serialize;
 
  	static wickr_node_t *from_values(wickr_buffer_t *dev_id, wickr_identity_chain_t *id_chain, wickr_ephemeral_keypair_t *ephemeral_keypair) {
diff --git a/src/wickrcrypto/swig/wickr_ctx.i b/src/wickrcrypto/swig/wickr_ctx.i
index 493e387..2748d69 100644
--- a/src/wickrcrypto/swig/wickr_ctx.i
+++ b/src/wickrcrypto/swig/wickr_ctx.i
@@ -120,6 +120,8 @@
     %newobject from_buffer;
     %newobject export;
     %newobject import_from_buffer;
+    %newobject serialize;
+    %newobject export_passphrase;
 
 	wickr_buffer_t *export_storage_keys(const wickr_buffer_t *passphrase);
 
-- 
2.43.0


From 9492c75338e0e2a0e79456984604dfd3d08bdf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 39/89] fix: do not copy what generating an account only reads

---
 src/wickrcrypto/swig/wickr_ctx.i | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/wickrcrypto/swig/wickr_ctx.i b/src/wickrcrypto/swig/wickr_ctx.i
index 2748d69..92bbca2 100644
--- a/src/wickrcrypto/swig/wickr_ctx.i
+++ b/src/wickrcrypto/swig/wickr_ctx.i
@@ -219,29 +219,29 @@
     %newobject import_recovery_key_passphrase;
     %newobject import_recovery;
     
-	static wickr_ctx_gen_result_t *gen_new(wickr_dev_info_t *dev_info,wickr_buffer_t *identifier) {
+	static wickr_ctx_gen_result_t *gen_new(wickr_dev_info_t *dev_info,const wickr_buffer_t *identifier) {
 		const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-		return wickr_ctx_gen_new(engine, dev_info, identifier);
+		return wickr_ctx_gen_new(engine, dev_info, (wickr_buffer_t *)identifier);
 	}
 
-	static wickr_ctx_gen_result_t *gen_new_with_sig_key(wickr_dev_info_t *dev_info, wickr_ec_key_t *sig_key, wickr_buffer_t *identifier) {
+	static wickr_ctx_gen_result_t *gen_new_with_sig_key(wickr_dev_info_t *dev_info, wickr_ec_key_t *sig_key, const wickr_buffer_t *identifier) {
 		const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-		return wickr_ctx_gen_new_with_sig_key(engine, dev_info, sig_key, identifier);
+		return wickr_ctx_gen_new_with_sig_key(engine, dev_info, sig_key, (wickr_buffer_t *)identifier);
 	}
 
-	static wickr_ctx_gen_result_t *gen_with_root_keys(wickr_dev_info_t *dev_info, wickr_root_keys_t *root_keys, wickr_buffer_t *identifier) {
+	static wickr_ctx_gen_result_t *gen_with_root_keys(wickr_dev_info_t *dev_info, wickr_root_keys_t *root_keys, const wickr_buffer_t *identifier) {
 		const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-		return wickr_ctx_gen_with_root_keys(engine, dev_info, root_keys, identifier);
+		return wickr_ctx_gen_with_root_keys(engine, dev_info, root_keys, (wickr_buffer_t *)identifier);
     }
 
-    static wickr_ctx_gen_result_t *gen_with_passphrase(wickr_dev_info_t *dev_info, wickr_buffer_t *exported_recovery_key, wickr_buffer_t *passphrase, wickr_buffer_t *recovery_data, wickr_buffer_t *identifier) {
+    static wickr_ctx_gen_result_t *gen_with_passphrase(wickr_dev_info_t *dev_info, const wickr_buffer_t *exported_recovery_key, const wickr_buffer_t *passphrase, const wickr_buffer_t *recovery_data, const wickr_buffer_t *identifier) {
 		const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-		return wickr_ctx_gen_with_passphrase(engine, dev_info, exported_recovery_key, passphrase, recovery_data, identifier);
+		return wickr_ctx_gen_with_passphrase(engine, dev_info, (wickr_buffer_t *)exported_recovery_key, (wickr_buffer_t *)passphrase, (wickr_buffer_t *)recovery_data, (wickr_buffer_t *)identifier);
     }
 
-    static wickr_ctx_gen_result_t *gen_with_recovery(wickr_dev_info_t *dev_info, wickr_buffer_t *recovery_data, wickr_cipher_key_t *recovery_key, wickr_buffer_t *identifier) {
+    static wickr_ctx_gen_result_t *gen_with_recovery(wickr_dev_info_t *dev_info, const wickr_buffer_t *recovery_data, wickr_cipher_key_t *recovery_key, const wickr_buffer_t *identifier) {
 		const wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
-		return wickr_ctx_gen_with_recovery(engine, dev_info, recovery_data, recovery_key, identifier);
+		return wickr_ctx_gen_with_recovery(engine, dev_info, (wickr_buffer_t *)recovery_data, recovery_key, (wickr_buffer_t *)identifier);
     }
 
     wickr_buffer_t *export_recovery_key_passphrase(const wickr_buffer_t *passphrase) {
-- 
2.43.0


From 31cd1d0362e728d5ddedeb497ae13d5dcfb0d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 40/89] fix: release the buffers of objects that are refused

---
 src/wickrcrypto/swig/cipher.i       | 6 +++++-
 src/wickrcrypto/swig/dev_info.i     | 6 +++++-
 src/wickrcrypto/swig/identity.i     | 1 +
 src/wickrcrypto/swig/kdf.i          | 7 ++++++-
 src/wickrcrypto/swig/key_exchange.i | 1 +
 src/wickrcrypto/swig/node.i         | 1 +
 src/wickrcrypto/swig/packet_meta.i  | 6 +++++-
 src/wickrcrypto/swig/payload.i      | 1 +
 8 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/swig/cipher.i b/src/wickrcrypto/swig/cipher.i
index abb8f7b..755998c 100644
--- a/src/wickrcrypto/swig/cipher.i
+++ b/src/wickrcrypto/swig/cipher.i
@@ -77,7 +77,11 @@
  wickr_buffer_t *serialize();
 
  static wickr_cipher_key_t *from_components(wickr_cipher_t cipher, wickr_buffer_t *key_data) {
-   return wickr_cipher_key_create(cipher, key_data);
+   wickr_cipher_key_t *key = wickr_cipher_key_create(cipher, key_data);
+   if (!key) {
+     wickr_buffer_destroy(&key_data);
+   }
+   return key;
  }
 
  static wickr_cipher_key_t *from_buffer(const wickr_buffer_t *buffer);
diff --git a/src/wickrcrypto/swig/dev_info.i b/src/wickrcrypto/swig/dev_info.i
index 60ee638..e6e6bc2 100644
--- a/src/wickrcrypto/swig/dev_info.i
+++ b/src/wickrcrypto/swig/dev_info.i
@@ -32,7 +32,11 @@
 
  static wickr_dev_info_t *compute(wickr_buffer_t *dev_salt, const wickr_buffer_t *system_id) {
  	wickr_crypto_engine_t engine = wickr_crypto_engine_get_default();
- 	return wickr_dev_info_derive(&engine, dev_salt, system_id);
+ 	wickr_dev_info_t *dev_info = wickr_dev_info_derive(&engine, dev_salt, system_id);
+ 	if (!dev_info) {
+ 		wickr_buffer_destroy(&dev_salt);
+ 	}
+ 	return dev_info;
  }
 
 };
\ No newline at end of file
diff --git a/src/wickrcrypto/swig/identity.i b/src/wickrcrypto/swig/identity.i
index 13cd986..889cc34 100644
--- a/src/wickrcrypto/swig/identity.i
+++ b/src/wickrcrypto/swig/identity.i
@@ -80,6 +80,7 @@
    	if (!identity) {
    		wickr_ec_key_destroy(&key_copy);
    		wickr_ecdsa_result_destroy(&sig_copy);
+   		wickr_buffer_destroy(&identifier);
    	}
    	return identity;
  }
diff --git a/src/wickrcrypto/swig/kdf.i b/src/wickrcrypto/swig/kdf.i
index d63acd2..2bdb95c 100644
--- a/src/wickrcrypto/swig/kdf.i
+++ b/src/wickrcrypto/swig/kdf.i
@@ -75,7 +75,12 @@
  %newobject serialize;
  
  static wickr_kdf_meta_t *from_components(wickr_kdf_algo_t algo, wickr_buffer_t *salt, wickr_buffer_t *info) {
-   return wickr_kdf_meta_create(algo,salt, info);
+   wickr_kdf_meta_t *meta = wickr_kdf_meta_create(algo,salt, info);
+   if (!meta) {
+     wickr_buffer_destroy(&salt);
+     wickr_buffer_destroy(&info);
+   }
+   return meta;
  }
 
  ~wickr_kdf_meta() {
diff --git a/src/wickrcrypto/swig/key_exchange.i b/src/wickrcrypto/swig/key_exchange.i
index a227557..d98c3f7 100644
--- a/src/wickrcrypto/swig/key_exchange.i
+++ b/src/wickrcrypto/swig/key_exchange.i
@@ -55,6 +55,7 @@
    	wickr_key_exchange_t *exchange = wickr_key_exchange_create(exchange_id, key_id, ciphertext_copy);
    	if (!exchange) {
    		wickr_cipher_result_destroy(&ciphertext_copy);
+   		wickr_buffer_destroy(&exchange_id);
    	}
    	return exchange;
  }
diff --git a/src/wickrcrypto/swig/node.i b/src/wickrcrypto/swig/node.i
index 2dbc00d..26cf751 100644
--- a/src/wickrcrypto/swig/node.i
+++ b/src/wickrcrypto/swig/node.i
@@ -57,6 +57,7 @@
  		if (!node) {
  			wickr_identity_chain_destroy(&id_chain_copy);
  			wickr_ephemeral_keypair_destroy(&keypair_copy);
+ 			wickr_buffer_destroy(&dev_id);
  		}
 
  		return node;
diff --git a/src/wickrcrypto/swig/packet_meta.i b/src/wickrcrypto/swig/packet_meta.i
index 369895e..1e00d1e 100644
--- a/src/wickrcrypto/swig/packet_meta.i
+++ b/src/wickrcrypto/swig/packet_meta.i
@@ -46,7 +46,11 @@
 %extend struct wickr_packet_meta {
     %newobject from_values;
     static wickr_packet_meta_t *from_values(wickr_ephemeral_info_t ephemerality_settings, wickr_buffer_t *channel_tag, uint16_t content_type) {
-        return wickr_packet_meta_create(ephemerality_settings, channel_tag, content_type);
+        wickr_packet_meta_t *meta = wickr_packet_meta_create(ephemerality_settings, channel_tag, content_type);
+        if (!meta) {
+            wickr_buffer_destroy(&channel_tag);
+        }
+        return meta;
     }
     ~wickr_packet_meta() {
         wickr_packet_meta_destroy(&$self);
diff --git a/src/wickrcrypto/swig/payload.i b/src/wickrcrypto/swig/payload.i
index edac7d5..0347b22 100644
--- a/src/wickrcrypto/swig/payload.i
+++ b/src/wickrcrypto/swig/payload.i
@@ -47,6 +47,7 @@
 
         if (!payload) {
             wickr_packet_meta_destroy(&meta_copy);
+            wickr_buffer_destroy(&body);
         }
 
         return payload;
-- 
2.43.0


From 639e47ddc2aca4df281f34705c5090f427d94503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 41/89] fix: release the digests and ciphers the binding
 returns by value

---
 src/wickrcrypto/swig/cipher.i | 1 -
 src/wickrcrypto/swig/digest.i | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/wickrcrypto/swig/cipher.i b/src/wickrcrypto/swig/cipher.i
index 755998c..cac9ea0 100644
--- a/src/wickrcrypto/swig/cipher.i
+++ b/src/wickrcrypto/swig/cipher.i
@@ -33,7 +33,6 @@
 %ignore wickr_cipher_result_is_valid;
 
 %nodefaultctor wickr_cipher;
-%nodefaultdtor wickr_cipher;
 
 %immutable;
 
diff --git a/src/wickrcrypto/swig/digest.i b/src/wickrcrypto/swig/digest.i
index bdd2e91..8dc4433 100644
--- a/src/wickrcrypto/swig/digest.i
+++ b/src/wickrcrypto/swig/digest.i
@@ -6,7 +6,6 @@
 
 %ignore wickr_digest_find_with_id;
 %nodefaultctor wickr_digest;
-%nodefaultdtor wickr_digest;
 
 %immutable;
 
-- 
2.43.0


From 7cf652c09672dd58f155a761de8158fdd1755a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:30 +0000
Subject: [PATCH 42/89] fix: destroy the results of parsing and decoding a
 packet with their owners

---
 src/wickrcrypto/swig/wickr_ctx.i | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/wickrcrypto/swig/wickr_ctx.i b/src/wickrcrypto/swig/wickr_ctx.i
index 92bbca2..1de750b 100644
--- a/src/wickrcrypto/swig/wickr_ctx.i
+++ b/src/wickrcrypto/swig/wickr_ctx.i
@@ -98,6 +98,24 @@
 	static wickr_packet_t *create_from_buffer(const wickr_buffer_t *buffer);
 }
 
+%extend struct wickr_parse_result {
+	~wickr_parse_result() {
+		wickr_parse_result_destroy(&$self);
+	}
+}
+
+%extend struct wickr_decode_result {
+	~wickr_decode_result() {
+		wickr_decode_result_destroy(&$self);
+	}
+}
+
+%extend struct wickr_ctx_packet {
+	~wickr_ctx_packet() {
+		wickr_ctx_packet_destroy(&$self);
+	}
+}
+
 %extend struct wickr_ctx {
 
 	~wickr_ctx() {
-- 
2.43.0


From 288ad36204bc354a61b7ab14cbd074917f0cac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:30 +0000
Subject: [PATCH 43/89] fix: release the data of cipher keys that are refused

---
 src/wickrcrypto/swig/cipher.i | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wickrcrypto/swig/cipher.i b/src/wickrcrypto/swig/cipher.i
index cac9ea0..7b4012b 100644
--- a/src/wickrcrypto/swig/cipher.i
+++ b/src/wickrcrypto/swig/cipher.i
@@ -38,6 +38,14 @@
 
 %newobject wickr_cipher_key_create;
 
+/* The key data still belongs to the binding when the key is refused */
+%exception wickr_cipher_key_create %{
+  $action
+  if (!result) {
+    wickr_buffer_destroy(&arg2);
+  }
+%}
+
 %include "wickrcrypto/cipher.h"
 
 %extend struct wickr_cipher {
-- 
2.43.0


From 2ed0f23f7b75573153689e292cefe9d5780181d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 44/89] fix: refuse to serialize root keys without a private
 signature root

---
 src/wickrcrypto/src/root_keys.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/root_keys.c b/src/wickrcrypto/src/root_keys.c
index bc8ce34..c9c762d 100644
--- a/src/wickrcrypto/src/root_keys.c
+++ b/src/wickrcrypto/src/root_keys.c
@@ -126,6 +126,11 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
 
 wickr_buffer_t *wickr_root_keys_serialize(const wickr_root_keys_t *keys)
 {
+    /* The private part of the signature root is what is kept */
+    if (!keys || !keys->node_signature_root || !keys->node_signature_root->pri_data) {
+        return NULL;
+    }
+    
     Wickr__Proto__RootKeys rootkeys = WICKR__PROTO__ROOT_KEYS__INIT;
     rootkeys.version = CURRENT_ROOT_KEY_VERSION;
     
-- 
2.43.0


From b80a20816754a4f270291f9fe1ee6344ccdd2e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:38 +0000
Subject: [PATCH 45/89] fix: copy a node's new keypair before destroying the
 old one

---
 src/wickrcrypto/src/node.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/wickrcrypto/src/node.c b/src/wickrcrypto/src/node.c
index 02f5a18..2b76549 100644
--- a/src/wickrcrypto/src/node.c
+++ b/src/wickrcrypto/src/node.c
@@ -31,21 +31,20 @@ bool wickr_node_rotate_keypair(wickr_node_t *node, wickr_ephemeral_keypair_t *ne
         return false;
     }
     
-    wickr_ephemeral_keypair_destroy(&node->ephemeral_keypair);
+    /* The new keypair may belong to the node already, so it is taken before the old one goes away */
+    wickr_ephemeral_keypair_t *keypair = copy ? wickr_ephemeral_keypair_copy(new_keypair) : new_keypair;
     
-    node->status = NODE_STATUS_UNKNOWN;
-    
-    if (copy) {
-        wickr_ephemeral_keypair_t *copy_keypair = wickr_ephemeral_keypair_copy(new_keypair);
-        if (!copy_keypair) {
-            return false;
-        }
-        node->ephemeral_keypair = copy_keypair;
+    if (!keypair) {
+        return false;
     }
-    else {
-        node->ephemeral_keypair = new_keypair;
+    
+    if (keypair != node->ephemeral_keypair) {
+        wickr_ephemeral_keypair_destroy(&node->ephemeral_keypair);
     }
     
+    node->ephemeral_keypair = keypair;
+    node->status = NODE_STATUS_UNKNOWN;
+    
     return true;
 }
 
-- 
2.43.0


From 225d97d65ddc16b75c688716adc36e55ffa6c7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 46/89] fix: release the copied passphrase when bcrypt refuses
 it

---
 src/wickrcrypto/src/kdf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 9f523cb..9243fa6 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -309,7 +309,13 @@ static wickr_buffer_t *__bcrypt_generate_hash(const wickr_kdf_meta_t *meta, cons
     
     wickr_buffer_t *passphrase_final = wickr_buffer_create_empty_zero(passphrase->length + 1);
     
+    if (!passphrase_final) {
+        wickr_buffer_destroy(&salt_buffer);
+        return NULL;
+    }
+    
     if (!wickr_buffer_modify_section(passphrase_final, passphrase->bytes, 0, passphrase->length)) {
+        wickr_buffer_destroy_zero(&passphrase_final);
         wickr_buffer_destroy(&salt_buffer);
         return NULL;
     }
-- 
2.43.0


From 529613d3c672aa634ea9ff1a6629f633f8101df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:21 +0000
Subject: [PATCH 47/89] fix: check the allocation of a cipher result

---
 src/wickrcrypto/src/cipher.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/cipher.c b/src/wickrcrypto/src/cipher.c
index b9d669b..f580c67 100644
--- a/src/wickrcrypto/src/cipher.c
+++ b/src/wickrcrypto/src/cipher.c
@@ -31,6 +31,11 @@ wickr_cipher_result_t *wickr_cipher_result_create(wickr_cipher_t cipher, wickr_b
     }
     
     wickr_cipher_result_t *new_result = wickr_alloc_zero(sizeof(wickr_cipher_result_t));
+    
+    if (!new_result) {
+        return NULL;
+    }
+    
     new_result->cipher = cipher;
     
     
-- 
2.43.0


From aa93b954ca23fede6820a6e4e620dd7c348d2a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:21 +0000
Subject: [PATCH 48/89] fix: check the allocation of a cipher key

---
 src/wickrcrypto/src/cipher.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/cipher.c b/src/wickrcrypto/src/cipher.c
index f580c67..43deacd 100644
--- a/src/wickrcrypto/src/cipher.c
+++ b/src/wickrcrypto/src/cipher.c
@@ -175,6 +175,11 @@ wickr_cipher_key_t *wickr_cipher_key_create(wickr_cipher_t cipher, wickr_buffer_
     }
     
     wickr_cipher_key_t *new_key = wickr_alloc_zero(sizeof(wickr_cipher_key_t));
+    
+    if (!new_key) {
+        return NULL;
+    }
+    
     new_key->cipher = cipher;
     new_key->key_data = key_data;
     
-- 
2.43.0


From 55aae61b1427ea1b03ce2912412a426533f433ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:21 +0000
Subject: [PATCH 49/89] fix: check the allocation of a signature

---
 src/wickrcrypto/src/ecdsa.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index f55267a..fe48ad5 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -12,6 +12,11 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create(wickr_ec_curve_t curve, wickr_di
     }
     
     wickr_ecdsa_result_t *new_result = wickr_alloc_zero(sizeof(wickr_ecdsa_result_t));
+    
+    if (!new_result) {
+        return NULL;
+    }
+    
     new_result->curve = curve;
     new_result->digest_mode = digest_mode;
     new_result->sig_data = sig_data;
-- 
2.43.0


From 3861c370e2cee84e409dddfff35e32d2793655be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:21 +0000
Subject: [PATCH 50/89] fix: check the allocation of an elliptic curve key

---
 src/wickrcrypto/src/eckey.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/eckey.c b/src/wickrcrypto/src/eckey.c
index 90d6e8c..8b40a1e 100644
--- a/src/wickrcrypto/src/eckey.c
+++ b/src/wickrcrypto/src/eckey.c
@@ -10,6 +10,11 @@ wickr_ec_key_t *wickr_ec_key_create(wickr_ec_curve_t curve, wickr_buffer_t *pub_
     }
     
     wickr_ec_key_t *new_key = wickr_alloc_zero(sizeof(wickr_ec_key_t));
+    
+    if (!new_key) {
+        return NULL;
+    }
+    
     new_key->curve = curve;
     new_key->pub_data = pub_data;
     new_key->pri_data = pri_data;
-- 
2.43.0


From 856cf1e28dc92849a86fb4fc17e438a879b43caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:21 +0000
Subject: [PATCH 51/89] fix: check the allocation of a key exchange

---
 src/wickrcrypto/src/key_exchange.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/key_exchange.c b/src/wickrcrypto/src/key_exchange.c
index b61bfeb..ce7e375 100644
--- a/src/wickrcrypto/src/key_exchange.c
+++ b/src/wickrcrypto/src/key_exchange.c
@@ -16,6 +16,11 @@ wickr_key_exchange_t *wickr_key_exchange_create(wickr_buffer_t *exchange_id,
     }
     
     wickr_key_exchange_t *new_exchange = wickr_alloc_zero(sizeof(wickr_key_exchange_t));
+    
+    if (!new_exchange) {
+        return NULL;
+    }
+    
     new_exchange->exchange_id = exchange_id;
     new_exchange->key_id = key_id;
     new_exchange->exchange_ciphertext = exchange_ciphertext;
-- 
2.43.0


From 1b94264e8c6fb9ff3b0dcc242fb9c1c829dd7df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:21 +0000
Subject: [PATCH 52/89] fix: check the allocation of packet metadata

---
 src/wickrcrypto/src/packet_meta.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/packet_meta.c b/src/wickrcrypto/src/packet_meta.c
index 4262b87..b0fe8c8 100644
--- a/src/wickrcrypto/src/packet_meta.c
+++ b/src/wickrcrypto/src/packet_meta.c
@@ -9,6 +9,11 @@ wickr_packet_meta_t *wickr_packet_meta_create(wickr_ephemeral_info_t ephemeralit
     }
     
     wickr_packet_meta_t *new_packet_meta = wickr_alloc_zero(sizeof(wickr_packet_meta_t));
+    
+    if (!new_packet_meta) {
+        return NULL;
+    }
+    
     new_packet_meta->channel_tag = channel_tag;
     new_packet_meta->content_type = content_type;
     new_packet_meta->ephemerality_settings = ephemerality_settings;
-- 
2.43.0


From d9a3fe1fd6926f64eb43c0b64f86be6e10697150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:21 +0000
Subject: [PATCH 53/89] fix: fail when no buffer can be allocated for random
 bytes

---
 src/wickrcrypto/src/openssl_suite.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 752f03a..5e7f43e 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -360,6 +360,10 @@ wickr_buffer_t *openssl_crypto_random(size_t len)
     
     wickr_buffer_t *new_buffer = wickr_buffer_create_empty(len);
     
+    if (!new_buffer) {
+        return NULL;
+    }
+    
     if (1 != RAND_bytes(new_buffer->bytes, (int)len)) {
         wickr_buffer_destroy(&new_buffer);
         return NULL;
-- 
2.43.0


From 908ebafed4a4dc7277aa2bf49d8d19107fbd2dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 54/89] fix: check the allocation of serialized storage keys

---
 src/wickrcrypto/src/storage_priv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/storage_priv.c b/src/wickrcrypto/src/storage_priv.c
index 803575d..93a1e61 100644
--- a/src/wickrcrypto/src/storage_priv.c
+++ b/src/wickrcrypto/src/storage_priv.c
@@ -25,6 +25,11 @@ Wickr__Proto__StorageKeys *wickr_storage_keys_to_proto(const wickr_storage_keys_
     }
     
     Wickr__Proto__StorageKeys *proto_keys = wickr_alloc_zero(sizeof(Wickr__Proto__StorageKeys));
+    
+    if (!proto_keys) {
+        return NULL;
+    }
+    
     wickr__proto__storage_keys__init(proto_keys);
     proto_keys->version = CURRENT_STORAGE_KEY_VERSION;
     
-- 
2.43.0


From 001333405d77e7f1da081228077e925335cbac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 55/89] fix: release the parts of KDF metadata and results that
 cannot be created

---
 src/wickrcrypto/src/kdf.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 9243fa6..6ac9c50 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -121,7 +121,13 @@ wickr_kdf_meta_t *wickr_kdf_meta_create_with_buffer(const wickr_buffer_t *buffer
         return NULL;
     }
     
-    return wickr_kdf_meta_create(*algo, salt_buffer, NULL);
+    wickr_kdf_meta_t *meta = wickr_kdf_meta_create(*algo, salt_buffer, NULL);
+    
+    if (!meta) {
+        wickr_buffer_destroy_zero(&salt_buffer);
+    }
+    
+    return meta;
 }
 
 wickr_buffer_t *wickr_kdf_meta_serialize(const wickr_kdf_meta_t *meta)
@@ -159,11 +165,18 @@ wickr_kdf_meta_t *wickr_kdf_meta_copy(const wickr_kdf_meta_t *source)
     wickr_buffer_t *info_copy = wickr_buffer_copy(source->info);
     
     if (!info_copy && source->info) {
-        wickr_buffer_destroy(&salt_copy);
+        wickr_buffer_destroy_zero(&salt_copy);
         return NULL;
     }
     
-    return wickr_kdf_meta_create(source->algo, salt_copy, info_copy);
+    wickr_kdf_meta_t *copy = wickr_kdf_meta_create(source->algo, salt_copy, info_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy_zero(&salt_copy);
+        wickr_buffer_destroy(&info_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_kdf_meta_destroy(wickr_kdf_meta_t **meta)
@@ -215,7 +228,14 @@ wickr_kdf_result_t *wickr_kdf_result_copy(const wickr_kdf_result_t *source)
         return NULL;
     }
     
-    return wickr_kdf_result_create(meta_copy, hash_copy);
+    wickr_kdf_result_t *copy = wickr_kdf_result_create(meta_copy, hash_copy);
+    
+    if (!copy) {
+        wickr_kdf_meta_destroy(&meta_copy);
+        wickr_buffer_destroy_zero(&hash_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_kdf_result_destroy(wickr_kdf_result_t **result)
@@ -472,11 +492,18 @@ wickr_kdf_result_t *wickr_perform_kdf_meta(const wickr_kdf_meta_t *existing_meta
     wickr_kdf_meta_t *result_meta = wickr_kdf_meta_copy(existing_meta);
     
     if (!result_meta) {
-        wickr_buffer_destroy(&hash_output);
+        wickr_buffer_destroy_zero(&hash_output);
         return NULL;
     }
     
-    return wickr_kdf_result_create(result_meta, hash_output);
+    wickr_kdf_result_t *result = wickr_kdf_result_create(result_meta, hash_output);
+    
+    if (!result) {
+        wickr_kdf_meta_destroy(&result_meta);
+        wickr_buffer_destroy_zero(&hash_output);
+    }
+    
+    return result;
 }
 
 const wickr_kdf_algo_t *wickr_hkdf_algo_for_digest(wickr_digest_t digest)
-- 
2.43.0


From 73ce864cb16a187867be969079072fc1fc19c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 56/89] fix: release the parts of a cipher key or result that
 cannot be created

---
 src/wickrcrypto/src/cipher.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/cipher.c b/src/wickrcrypto/src/cipher.c
index 43deacd..9191c0d 100644
--- a/src/wickrcrypto/src/cipher.c
+++ b/src/wickrcrypto/src/cipher.c
@@ -165,7 +165,15 @@ wickr_cipher_result_t *wickr_cipher_result_from_buffer(const wickr_buffer_t *buf
     } else {
         cipher_text = NULL;
     }
-    return wickr_cipher_result_create(*mode, iv, cipher_text, auth_tag);
+    wickr_cipher_result_t *result = wickr_cipher_result_create(*mode, iv, cipher_text, auth_tag);
+    
+    if (!result) {
+        wickr_buffer_destroy(&iv);
+        wickr_buffer_destroy(&cipher_text);
+        wickr_buffer_destroy(&auth_tag);
+    }
+    
+    return result;
 }
 
 wickr_cipher_key_t *wickr_cipher_key_create(wickr_cipher_t cipher, wickr_buffer_t *key_data)
@@ -251,5 +259,11 @@ wickr_cipher_key_t *wickr_cipher_key_from_buffer(const wickr_buffer_t *buffer)
         return NULL;
     }
     
-    return wickr_cipher_key_create(*cipher, key_buffer);
+    wickr_cipher_key_t *key = wickr_cipher_key_create(*cipher, key_buffer);
+    
+    if (!key) {
+        wickr_buffer_destroy_zero(&key_buffer);
+    }
+    
+    return key;
 }
-- 
2.43.0


From 0c8a4891ddf16bc8e647f4cd0efe4cbbae15cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 57/89] fix: release a ciphertext that no result can be created
 for

---
 src/wickrcrypto/src/openssl_suite.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 5e7f43e..84ff372 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -490,9 +490,15 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         }
     }
     
+    wickr_cipher_result_t *cipher_result = wickr_cipher_result_create(cipher, iv_f, cipher_text, auth_tag);
+    
+    if (!cipher_result) {
+        goto process_error;
+    }
+    
     EVP_CIPHER_CTX_free(ctx);
     
-    return wickr_cipher_result_create(cipher, iv_f, cipher_text, auth_tag);
+    return cipher_result;
     
 process_error:
     if (auth_tag) {
-- 
2.43.0


From d3dcf7327575d7820d664d5673b047e8c7dca007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 58/89] fix: fail when the padding of a signature cannot be
 allocated

---
 src/wickrcrypto/src/ecdsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index fe48ad5..eb729f3 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -72,6 +72,10 @@ wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *result)
     pad_count_buffer.length = sizeof(uint8_t);
     
     wickr_buffer_t *pad_buffer = wickr_buffer_create_empty_zero(pad_count);
+    
+    if (!pad_buffer && pad_count > 0) {
+        return NULL;
+    }
 
     wickr_buffer_t *buffers[] = { &meta_buffer, &pad_count_buffer, pad_buffer, result->sig_data };
     
-- 
2.43.0


From 21e249c0acae2c4766d156e23cdc56e25171fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 59/89] fix: release the data of a signature that cannot be
 created

---
 src/wickrcrypto/src/ecdsa.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index eb729f3..9180a5c 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -50,7 +50,13 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create_from_buffer(const wickr_buffer_t
         return NULL;
     }
     
-    return wickr_ecdsa_result_create(*curve, *digest_mode, key_data);
+    wickr_ecdsa_result_t *result = wickr_ecdsa_result_create(*curve, *digest_mode, key_data);
+    
+    if (!result) {
+        wickr_buffer_destroy(&key_data);
+    }
+    
+    return result;
 }
 
 wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *result)
@@ -93,7 +99,13 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_copy(const wickr_ecdsa_result_t *source
     
     wickr_buffer_t *sig_data_copy = wickr_buffer_copy(source->sig_data);
     
-    return wickr_ecdsa_result_create(source->curve, source->digest_mode, sig_data_copy);
+    wickr_ecdsa_result_t *copy = wickr_ecdsa_result_create(source->curve, source->digest_mode, sig_data_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy(&sig_data_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_ecdsa_result_destroy(wickr_ecdsa_result_t **result)
-- 
2.43.0


From 1a66ce2a05754797b09a156ce32a5eed2ae64eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 60/89] fix: release the parts of an elliptic curve key copy
 that cannot be created

---
 src/wickrcrypto/src/eckey.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/eckey.c b/src/wickrcrypto/src/eckey.c
index 8b40a1e..cabaa99 100644
--- a/src/wickrcrypto/src/eckey.c
+++ b/src/wickrcrypto/src/eckey.c
@@ -45,7 +45,14 @@ wickr_ec_key_t *wickr_ec_key_copy(const wickr_ec_key_t *source)
         }
     }
     
-    return wickr_ec_key_create(source->curve, pub_key_copy, pri_key_copy);
+    wickr_ec_key_t *copy = wickr_ec_key_create(source->curve, pub_key_copy, pri_key_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy(&pub_key_copy);
+        wickr_buffer_destroy_zero(&pri_key_copy);
+    }
+    
+    return copy;
 }
 
 wickr_buffer_t *wickr_ec_key_get_pubdata_fixed_len(const wickr_ec_key_t *key)
-- 
2.43.0


From 56b26a7a2d5b73bff08e6e1877fbedb6407c889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 61/89] fix: never copy an identity without its signature

---
 src/wickrcrypto/src/identity.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/identity.c b/src/wickrcrypto/src/identity.c
index b44e224..de4ccf2 100644
--- a/src/wickrcrypto/src/identity.c
+++ b/src/wickrcrypto/src/identity.c
@@ -92,6 +92,12 @@ wickr_identity_t *wickr_identity_copy(const wickr_identity_t *source)
     
     wickr_ecdsa_result_t *sig_copy = wickr_ecdsa_result_copy(source->signature);
     
+    if (source->signature && !sig_copy) {
+        wickr_buffer_destroy(&identifier_copy);
+        wickr_ec_key_destroy(&sig_key_copy);
+        return NULL;
+    }
+    
     wickr_identity_t *copy = wickr_identity_create(source->type, identifier_copy, sig_key_copy, sig_copy);
     
     if (!copy) {
-- 
2.43.0


From 95e6304c1eeae4ececd3845d8f68e809218ef6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 62/89] fix: check the remote storage key when loading root
 keys

---
 src/wickrcrypto/src/root_keys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/root_keys.c b/src/wickrcrypto/src/root_keys.c
index c9c762d..d2db37b 100644
--- a/src/wickrcrypto/src/root_keys.c
+++ b/src/wickrcrypto/src/root_keys.c
@@ -97,7 +97,7 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
     
     wickr_cipher_key_t *remote_storage_key = wickr_cipher_key_from_protobytes(proto_keypair->remote_storage_root);
     
-    if (!node_storage_key) {
+    if (!remote_storage_key) {
         wickr_cipher_key_destroy(&node_storage_key);
         wickr__proto__root_keys__free_unpacked(proto_keypair, &wickr_proto_zero_allocator);
         return NULL;
-- 
2.43.0


From f32c197b4a8dd121fbd8ce2ff7f8b47a80a0637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 63/89] fix: release key material when no transport stream key
 can be derived

---
 src/wickrcrypto/src/transport_root_key.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wickrcrypto/src/transport_root_key.c b/src/wickrcrypto/src/transport_root_key.c
index cb7df79..bf2b1e3 100644
--- a/src/wickrcrypto/src/transport_root_key.c
+++ b/src/wickrcrypto/src/transport_root_key.c
@@ -98,6 +98,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     wickr_kdf_result_t *raw_key_material = engine->wickr_crypto_kdf_meta(&kdf_meta, root_key->secret);
     
     if (!raw_key_material || raw_key_material->hash->length != root_key->cipher.key_len * 2) {
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
@@ -106,6 +107,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     
     if (!cipher_key) {
         wickr_buffer_destroy_zero(&cipher_key_data);
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
-- 
2.43.0


From ce29eb23328b5f0a4e1e5dc2722f7c61ea49a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 64/89] fix: release the parts of a handshake seed that cannot
 be created

---
 src/wickrcrypto/src/transport_handshake_priv.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake_priv.c b/src/wickrcrypto/src/transport_handshake_priv.c
index cf75b52..046f29d 100644
--- a/src/wickrcrypto/src/transport_handshake_priv.c
+++ b/src/wickrcrypto/src/transport_handshake_priv.c
@@ -27,12 +27,12 @@ Wickr__Proto__HandshakeV1__Seed *wickr_proto_handshake_seed_create(const wickr_i
     seed->identity_required = needs_remote_identity;
     
     if (!wickr_buffer_to_protobytes(&seed->ephemeral_pubkey, ephemeral_pub_key)) {
-        wickr_free(seed);
+        wickr_proto_handshake_seed_free(seed);
         return NULL;
     }
     
     if (!seed->id_chain) {
-        wickr_free(seed);
+        wickr_proto_handshake_seed_free(seed);
         return NULL;
     }
     
@@ -41,6 +41,10 @@ Wickr__Proto__HandshakeV1__Seed *wickr_proto_handshake_seed_create(const wickr_i
 
 void wickr_proto_handshake_seed_free(Wickr__Proto__HandshakeV1__Seed *seed)
 {
+    if (!seed) {
+        return;
+    }
+    
     wickr_identity_chain_proto_free(seed->id_chain);
     wickr_free(seed->ephemeral_pubkey.data);
     wickr_free(seed);
-- 
2.43.0


From 26ea6087fea2ad1677efa0905cbb4c4dcf6c76e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 65/89] fix: leave a transport packet as it was when it cannot
 be signed

---
 src/wickrcrypto/src/transport_packet.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_packet.c b/src/wickrcrypto/src/transport_packet.c
index 1775984..a25018d 100644
--- a/src/wickrcrypto/src/transport_packet.c
+++ b/src/wickrcrypto/src/transport_packet.c
@@ -326,7 +326,13 @@ bool wickr_transport_packet_sign(wickr_transport_packet_t *pkt, const wickr_cryp
     
     pkt->network_buffer = wickr_transport_packet_serialize(pkt);
     
-    return pkt->network_buffer != NULL;
+    if (!pkt->network_buffer) {
+        wickr_buffer_destroy(&pkt->mac);
+        pkt->meta.mac_type = old_mac_type;
+        return false;
+    }
+    
+    return true;
 }
 
 bool wickr_transport_packet_verify(const wickr_transport_packet_t *packet, const wickr_crypto_engine_t *engine, wickr_identity_chain_t *identity_chain)
-- 
2.43.0


From 5a5cc089d56c05f6d22a82ffdccef7ace4532220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:25 +0000
Subject: [PATCH 66/89] fix: release the nonce generator of a stream that
 cannot be created

---
 src/wickrcrypto/src/stream_ctx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index d31c2f8..7ab0c3a 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -23,6 +23,7 @@ wickr_stream_ctx_t *wickr_stream_ctx_create(const wickr_crypto_engine_t engine,
     wickr_stream_ctx_t *stream_cipher = wickr_alloc_zero(sizeof(wickr_stream_ctx_t));
     
     if (!stream_cipher) {
+        wickr_stream_iv_destroy(&iv_factory);
         return NULL;
     }
     
-- 
2.43.0


From 38d06ee65557232bc1a09797e08def1dc3f091fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 67/89] fix: check the allocation of a digest

---
 src/wickrcrypto/src/openssl_suite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 84ff372..223b803 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -682,6 +682,11 @@ wickr_buffer_t *openssl_sha2(const wickr_buffer_t *buffer, const wickr_buffer_t
     
     wickr_buffer_t *hash_result = wickr_buffer_create_empty_zero(mode.size);
     
+    if (!hash_result) {
+        EVP_MD_CTX_destroy(c);
+        return NULL;
+    }
+    
     if (1 != EVP_DigestFinal(c, hash_result->bytes, NULL)) {
         wickr_buffer_destroy(&hash_result);
         EVP_MD_CTX_destroy(c);
-- 
2.43.0


From 3a675641fee05d98e61709e4263aff63c9b4acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 68/89] fix: fail when a fingerprint cannot be encoded

---
 src/wickrcrypto/src/fingerprint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/fingerprint.c b/src/wickrcrypto/src/fingerprint.c
index d2801d6..87033b5 100644
--- a/src/wickrcrypto/src/fingerprint.c
+++ b/src/wickrcrypto/src/fingerprint.c
@@ -181,6 +181,10 @@ static wickr_buffer_t *__wickr_fingerprint_encode_for_output_mode(const wickr_fi
     
     wickr_buffer_t *encoded_fingerprint_data = enc_func(fingerprint->data);
     
+    if (!encoded_fingerprint_data) {
+        return NULL;
+    }
+    
     if (output_mode == FINGERPRINT_OUTPUT_SHORT) {
         size_t short_length = encoded_fingerprint_data->length / 2;
         
-- 
2.43.0


From 4aad8ca9750643d3d35e671963049707a6c87859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 69/89] fix: fail when storage or stream keys cannot be encoded

---
 src/wickrcrypto/src/storage.c    | 5 +++++
 src/wickrcrypto/src/stream_key.c | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/storage.c b/src/wickrcrypto/src/storage.c
index 2214d6a..254ce0d 100644
--- a/src/wickrcrypto/src/storage.c
+++ b/src/wickrcrypto/src/storage.c
@@ -59,6 +59,11 @@ wickr_buffer_t *wickr_storage_keys_serialize(const wickr_storage_keys_t *keys)
     }
     
     Wickr__Proto__StorageKeys *proto_keys = wickr_storage_keys_to_proto(keys);
+    
+    if (!proto_keys) {
+        return NULL;
+    }
+    
     size_t buffer_size = wickr__proto__storage_keys__get_packed_size(proto_keys);
     wickr_buffer_t *concat_buffer = wickr_buffer_create_empty(buffer_size);
     
diff --git a/src/wickrcrypto/src/stream_key.c b/src/wickrcrypto/src/stream_key.c
index 64c4212..9442ab1 100644
--- a/src/wickrcrypto/src/stream_key.c
+++ b/src/wickrcrypto/src/stream_key.c
@@ -111,7 +111,7 @@ wickr_buffer_t *wickr_stream_key_serialize(const wickr_stream_key_t *key)
     
     Wickr__Proto__StreamKey *proto_key = wickr_stream_key_to_proto(key);
     
-    if (!key) {
+    if (!proto_key) {
         return NULL;
     }
     
-- 
2.43.0


From 4c7635e2d5423ceaca681b8193d6be06b29d59e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 70/89] fix: never copy a cipher result in part

---
 src/wickrcrypto/src/cipher.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/cipher.c b/src/wickrcrypto/src/cipher.c
index 9191c0d..d7f2297 100644
--- a/src/wickrcrypto/src/cipher.c
+++ b/src/wickrcrypto/src/cipher.c
@@ -60,7 +60,19 @@ wickr_cipher_result_t *wickr_cipher_result_copy(const wickr_cipher_result_t *res
         cipher_text_copy = NULL;
     wickr_buffer_t *auth_tag_copy = result->auth_tag ? wickr_buffer_copy(result->auth_tag) : NULL;
     
-    return wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
+    wickr_cipher_result_t *copy = NULL;
+    
+    if ((cipher_text_copy || !result->cipher_text) && (auth_tag_copy || !result->auth_tag)) {
+        copy = wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
+    }
+    
+    if (!copy) {
+        wickr_buffer_destroy(&iv_copy);
+        wickr_buffer_destroy(&cipher_text_copy);
+        wickr_buffer_destroy(&auth_tag_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_cipher_result_destroy(wickr_cipher_result_t **result)
-- 
2.43.0


From f8652f9dfd3ebc1670c6dbaefc4a20f1a64a0eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 71/89] fix: never copy a parse or decode result in part

---
 src/wickrcrypto/src/protocol.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index b84310e..6ae9b6f 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -500,7 +500,13 @@ wickr_parse_result_t *wickr_parse_result_copy(const wickr_parse_result_t *source
     wickr_cipher_result_t *enc_payload_copy = wickr_cipher_result_copy(source->enc_payload);
     wickr_key_exchange_t *key_exchange_copy = wickr_key_exchange_copy(source->key_exchange);
     
-    wickr_parse_result_t *copy = __wickr_parse_result_create(header_copy, key_exchange_copy, enc_payload_copy, source->signature_status, source->err);
+    wickr_parse_result_t *copy = NULL;
+    
+    if ((header_copy || !source->key_exchange_set) &&
+        (enc_payload_copy || !source->enc_payload) &&
+        (key_exchange_copy || !source->key_exchange)) {
+        copy = __wickr_parse_result_create(header_copy, key_exchange_copy, enc_payload_copy, source->signature_status, source->err);
+    }
     
     if (!copy) {
         wickr_key_exchange_set_destroy(&header_copy);
@@ -559,10 +565,15 @@ wickr_decode_result_t *wickr_decode_result_copy(const wickr_decode_result_t *res
     wickr_payload_t *payload_copy = wickr_payload_copy(result->decrypted_payload);
     wickr_cipher_key_t *cipher_key_copy = wickr_cipher_key_copy(result->payload_key);
     
-    wickr_decode_result_t *copy = __wickr_decode_result_create(result->err, payload_copy, cipher_key_copy);
+    wickr_decode_result_t *copy = NULL;
+    
+    if ((payload_copy || !result->decrypted_payload) && (cipher_key_copy || !result->payload_key)) {
+        copy = __wickr_decode_result_create(result->err, payload_copy, cipher_key_copy);
+    }
     
     if (!copy) {
         wickr_payload_destroy(&payload_copy);
+        wickr_cipher_key_destroy(&cipher_key_copy);
     }
     
     return copy;
-- 
2.43.0


From a8616493fc67f01b4b6d1ef160d336e93964a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 72/89] fix: release the identity chain of a node that cannot
 be encoded

---
 src/wickrcrypto/src/node_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index 90ca65b..6b3f2ec 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -41,6 +41,7 @@ Wickr__Proto__Node *wickr_node_to_proto(const wickr_node_t *node)
     
     if (!proto_node) {
         wickr_ephemeral_keypair_proto_free(ephemeral_keypair);
+        wickr_identity_chain_proto_free(identity_chain);
         return NULL;
     }
     
-- 
2.43.0


From 342f7ce599699c145426c9d22fbed6ebd19b9170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 73/89] fix: remove the temporary file of a file operation that
 cannot start

---
 src/wickrcrypto/src/openssl_file_suite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index 8e6d7c3..d93ec5a 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -133,6 +133,7 @@ process_error:
     }
     if (destinationHandle) {
         fclose(destinationHandle);
+        remove(tempPath);
     }
     if (tempPath) {
         wickr_free(tempPath);
-- 
2.43.0


From e8531c9b80e7ee268272cc282b743f3123ce7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 74/89] fix: never negotiate without the identity a transport
 is pinned to

---
 src/wickrcrypto/src/transport_ctx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index dcc70bc..3bc0c1e 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -316,6 +316,12 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
     wickr_identity_chain_t *local_copy = wickr_identity_chain_copy(ctx->local_identity);
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
+    if (!local_copy || (ctx->remote_identity && !remote_copy)) {
+        wickr_identity_chain_destroy(&local_copy);
+        wickr_identity_chain_destroy(&remote_copy);
+        return NULL;
+    }
+    
     wickr_transport_handshake_t *handshake = wickr_transport_handshake_create(ctx->engine,
                                                                               local_copy,
                                                                               remote_copy,
-- 
2.43.0


From b61cf6aa967ce64419d22a17ea810890ca99c043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:36 +0000
Subject: [PATCH 75/89] fix: check the serialized payload of a packet before it
 is used

---
 src/wickrcrypto/src/protocol.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 6ae9b6f..3a53314 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -271,6 +271,11 @@ wickr_packet_t *wickr_packet_create_with_components(const wickr_crypto_engine_t
     
     wickr_buffer_t *enc_payload_bytes = wickr_cipher_result_serialize(enc_payload);
     
+    if (!enc_payload_bytes) {
+        wickr_buffer_destroy(&enc_header_bytes);
+        return NULL;
+    }
+    
     proto_packet.enc_header.data = enc_header_bytes->bytes;
     proto_packet.enc_header.len = enc_header_bytes->length;
     proto_packet.enc_payload.data = enc_payload_bytes->bytes;
-- 
2.43.0


From c08b0be60893e6febd983577c40e86062efbae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:36 +0000
Subject: [PATCH 76/89] fix: release the hashed info and stop when the
 handshake kdf meta can not be made

---
 src/wickrcrypto/src/transport_handshake.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 738feb1..1f70edb 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -351,7 +351,7 @@ static wickr_kdf_meta_t *__wickr_transport_handshake_kdf_meta_gen(wickr_transpor
     wickr_kdf_meta_t *kdf_meta = wickr_kdf_meta_create(KDF_HKDF_SHA512, NULL, hashed_info);
     
     if (!kdf_meta) {
-        wickr_buffer_destroy(&info_data);
+        wickr_buffer_destroy(&hashed_info);
     }
     
     return kdf_meta;
@@ -589,6 +589,16 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     }
         
     wickr_kdf_meta_t *kdf_meta = __wickr_transport_handshake_kdf_meta_gen(handshake, cipher_ctx->local_key, ephemeral_key);
+    
+    if (!kdf_meta) {
+        wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
+        wickr_buffer_destroy_zero(&serialized_response_data);
+        wickr_ecdh_cipher_ctx_destroy(&cipher_ctx);
+        wickr_ec_key_destroy(&ephemeral_key);
+        handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
+        return NULL;
+    }
+    
     wickr_cipher_result_t *result = wickr_ecdh_cipher_ctx_cipher(cipher_ctx, serialized_response_data, ephemeral_key, kdf_meta);
     
     wickr_kdf_meta_destroy(&kdf_meta);
-- 
2.43.0


From 86f14f6e8daeb98ba479154f003a9337310316ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:36 +0000
Subject: [PATCH 77/89] fix: never complete a handshake whose transcript misses
 a packet

---
 src/wickrcrypto/src/transport_handshake.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 1f70edb..5c2321d 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -241,7 +241,11 @@ static wickr_transport_packet_t *__wickr_transport_handshake_build_signed_packet
     }
     
     /* Record this packet into the packet list for later use */
-    wickr_array_set_item(handshake->packet_list, packet_num, handshake_pkt->network_buffer, true); //TODO: Use hash builder instead of array
+    if (!wickr_array_set_item(handshake->packet_list, packet_num, handshake_pkt->network_buffer, true)) { //TODO: Use hash builder instead of array
+        wickr_transport_packet_destroy(&handshake_pkt);
+        handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
+        return NULL;
+    }
     
     return handshake_pkt;
 }
@@ -379,7 +383,10 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
                                                          const wickr_transport_packet_t *packet)
 {
     /* Record this packet into the packet list for later use */
-    wickr_array_set_item(handshake->packet_list, 1, packet->network_buffer, true); //TODO: Use hash builder instead of array
+    if (!wickr_array_set_item(handshake->packet_list, 1, packet->network_buffer, true)) { //TODO: Use hash builder instead of array
+        handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
+        return;
+    }
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
@@ -509,7 +516,10 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
                                                                              const wickr_transport_packet_t *packet)
 {
     /* Record this packet into the packet list for later use */
-    wickr_array_set_item(handshake->packet_list, 0, packet->network_buffer, true); //TODO: Use hash builder instead of array
+    if (!wickr_array_set_item(handshake->packet_list, 0, packet->network_buffer, true)) { //TODO: Use hash builder instead of array
+        handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
+        return NULL;
+    }
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
-- 
2.43.0


From 5990f125493eff53dde8371e6b43e4e4ac1eb18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:36 +0000
Subject: [PATCH 78/89] fix: fail the handshake when the identity to verify can
 not be copied

---
 src/wickrcrypto/src/transport_handshake.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 5c2321d..7ff4df2 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -748,6 +748,7 @@ wickr_transport_packet_t *wickr_transport_handshake_process(wickr_transport_hand
         wickr_identity_chain_t *identity_chain_copy = wickr_identity_chain_copy(handshake->remote_identity);
         
         if (handshake->status == TRANSPORT_HANDSHAKE_STATUS_FAILED || identity_chain_copy == NULL) {
+            handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
             return NULL;
         }
         
-- 
2.43.0


From 52ec8ca631ea998056f7fc21cffea5cf2b574771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:36 +0000
Subject: [PATCH 79/89] fix: release the packet header key of a context that
 can not be created

---
 src/wickrcrypto/src/wickr_ctx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index 27ae12b..47871c9 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -407,6 +407,7 @@ wickr_ctx_t *wickr_ctx_create(const wickr_crypto_engine_t engine, wickr_dev_info
     wickr_ctx_t *new_ctx = wickr_alloc_zero(sizeof(wickr_ctx_t));
     
     if (!new_ctx) {
+        wickr_cipher_key_destroy(&packet_header_key);
         return NULL;
     }
     
-- 
2.43.0


From 641f7e1fe29fb391b90810514f45ea2ca2ba6e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:36 +0000
Subject: [PATCH 80/89] fix: release a handshake response that can not be
 completed

---
 src/wickrcrypto/src/transport_handshake_priv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake_priv.c b/src/wickrcrypto/src/transport_handshake_priv.c
index 046f29d..039b511 100644
--- a/src/wickrcrypto/src/transport_handshake_priv.c
+++ b/src/wickrcrypto/src/transport_handshake_priv.c
@@ -136,12 +136,12 @@ Wickr__Proto__HandshakeV1__Response *wickr_proto_handshake_response_create(const
     }
     
     if (!wickr_buffer_to_protobytes(&response->ephemeral_pubkey, ephemeral_pubkey)) {
-        wickr_free(response);
+        wickr_proto_handshake_response_free(response);
         return NULL;
     }
     
     if (!wickr_buffer_to_protobytes(&response->encrypted_response_data, encrypted_response_data)) {
-        wickr_free(response);
+        wickr_proto_handshake_response_free(response);
         return NULL;
     }
     
-- 
2.43.0


From 5fcee5861db9af019a73a8a0e7aa379d14340c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:36 +0000
Subject: [PATCH 81/89] fix: release a stream key message that can not be
 completed

---
 src/wickrcrypto/src/stream_key_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index 1d81ae4..a1f24ac 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -36,6 +36,7 @@ Wickr__Proto__StreamKey *wickr_stream_key_to_proto(const wickr_stream_key_t *key
     
     if (!wickr_buffer_to_protobytes(&proto->cipher_key, key_buffer)) {
         wickr_buffer_destroy_zero(&key_buffer);
+        wickr_free(proto);
         return NULL;
     }
     
-- 
2.43.0


From 0bee1655071c2a7fcbaef1d551fa814e678fcc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:41 +0000
Subject: [PATCH 82/89] fix: a key that can not be allocated is not configured

---
 src/wickrcrypto/src/openssl_suite.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 223b803..48b2b86 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -766,13 +766,13 @@ wickr_ec_key_t *openssl_ec_rand_key(wickr_ec_curve_t curve)
     /* Generate an EC_KEY struct with the selected curve */
     EC_KEY *new_key = EC_KEY_new_by_curve_name(nid);
     
-    /* Tell OpenSSL we are using a named curve so it gets serialized with the keys */
-    EC_KEY_set_asn1_flag(new_key, OPENSSL_EC_NAMED_CURVE);
-    
     if (!new_key) {
         return NULL;
     }
     
+    /* Tell OpenSSL we are using a named curve so it gets serialized with the keys */
+    EC_KEY_set_asn1_flag(new_key, OPENSSL_EC_NAMED_CURVE);
+    
     /* Generate a random  key pair  and store it in new_key */
     if (1 != EC_KEY_generate_key(new_key)) {
         EC_KEY_free(new_key);
-- 
2.43.0


From 8a2d2b4ffb412d374e09e03bacc93891b68b06a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:41 +0000
Subject: [PATCH 83/89] fix: a digest context that can not be allocated is not
 initialized

---
 src/wickrcrypto/src/openssl_suite.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 48b2b86..77ca322 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -221,6 +221,10 @@ static EVP_MD_CTX * __openssl_digest_ctx_create(wickr_digest_t digest_mode)
     
     EVP_MD_CTX *ctx = EVP_MD_CTX_create();
     
+    if (!ctx) {
+        return NULL;
+    }
+    
     /* Initialize a digest context using the requested digest mode */
     if (1 != EVP_DigestInit_ex(ctx, digest, NULL)) {
         EVP_MD_CTX_destroy(ctx);
-- 
2.43.0


From d92026fd734d834d5031d561aeb3499c3751564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:41 +0000
Subject: [PATCH 84/89] fix: a key that can not be encoded is not returned

---
 src/wickrcrypto/src/openssl_suite.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 77ca322..0e25485 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -128,8 +128,13 @@ static EVP_PKEY *__openssl_evp_ec_key_from_buffer(EC_KEY *existing,
 
 static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC_KEY *key)
 {
-    size_t key_size = i2o_ECPublicKey(key, NULL);
-    wickr_buffer_t *pub_key_data = wickr_buffer_create_empty_zero(sizeof(uint8_t) + key_size);
+    int key_size = i2o_ECPublicKey(key, NULL);
+    
+    if (key_size <= 0) {
+        return NULL;
+    }
+    
+    wickr_buffer_t *pub_key_data = wickr_buffer_create_empty_zero(sizeof(uint8_t) + (size_t)key_size);
     
     if (!pub_key_data) {
         return NULL;
@@ -144,7 +149,7 @@ static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC
     }
     
     uint8_t* bytes = pub_key_data->bytes + sizeof(uint8_t);
-    if (!i2o_ECPublicKey(key, &bytes)) {
+    if (key_size != i2o_ECPublicKey(key, &bytes)) {
         wickr_buffer_destroy(&pub_key_data);
         return NULL;
     }
@@ -154,15 +159,20 @@ static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC
 
 static wickr_buffer_t *__openssl_ec_pri_key_to_buffer(EC_KEY *key)
 {
-    size_t key_size = i2d_ECPrivateKey(key, NULL);
-    wickr_buffer_t *pri_key_data = wickr_buffer_create_empty_zero(key_size);
+    int key_size = i2d_ECPrivateKey(key, NULL);
+    
+    if (key_size <= 0) {
+        return NULL;
+    }
+    
+    wickr_buffer_t *pri_key_data = wickr_buffer_create_empty_zero((size_t)key_size);
     
     if (!pri_key_data) {
         return NULL;
     }
     
     uint8_t *bytes = pri_key_data->bytes;
-    if (!i2d_ECPrivateKey(key, &bytes)) {
+    if (key_size != i2d_ECPrivateKey(key, &bytes)) {
         wickr_buffer_destroy_zero(&pri_key_data);
         return NULL;
     }
-- 
2.43.0


From e2b9abb01612ff3a2b1041ba9aa87f22f4a095c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:41 +0000
Subject: [PATCH 85/89] fix: release a private key that can not be converted

---
 src/wickrcrypto/src/openssl_suite.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 0e25485..0ca5758 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -114,12 +114,19 @@ static EVP_PKEY *__openssl_evp_ec_key_from_buffer(EC_KEY *existing,
     EVP_PKEY *evp_signing_key = EVP_PKEY_new();
     
     if (!evp_signing_key) {
+        /* An existing key still belongs to the caller */
+        if (!existing) {
+            EC_KEY_free(key);
+        }
         return NULL;
     }
     
     /* Convert the EC_KEY structure to an EVP_PKEY */
     if (1 != EVP_PKEY_assign_EC_KEY(evp_signing_key, key)) {
         EVP_PKEY_free(evp_signing_key);
+        if (!existing) {
+            EC_KEY_free(key);
+        }
         return NULL;
     }
     
-- 
2.43.0


From a4327f09893d056255148f54a6f43cf8015ee7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:41 +0000
Subject: [PATCH 86/89] fix: release the digest context of a signature that can
 not be started

---
 src/wickrcrypto/src/openssl_suite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 0ca5758..03f88a5 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -271,6 +271,7 @@ static EVP_MD_CTX * __openssl_digest_sign_ctx_create(wickr_digest_t digest_mode,
     EVP_PKEY *evp_signing_key = key_deserialization_function(key_data);
     
     if (!evp_signing_key) {
+        EVP_MD_CTX_destroy(ctx);
         return NULL;
     }
     
@@ -298,6 +299,7 @@ static EVP_MD_CTX * __openssl_digest_verify_ctx_create(wickr_digest_t digest_mod
     
     /* Initialize a digest context with the digest the signature was created with */
     if (1 != EVP_DigestInit_ex(ctx, EVP_MD_CTX_md(ctx), NULL)) {
+        EVP_MD_CTX_destroy(ctx);
         return NULL;
     }
     
-- 
2.43.0


From 05eb12adeaf728f6cf9c10896266bed4c1ad298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:41 +0000
Subject: [PATCH 87/89] fix: release a raw signature that can not be encoded

---
 src/wickrcrypto/src/openssl_suite.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 03f88a5..75de783 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1107,11 +1107,15 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
 #ifdef OPENSSL_IS_AWSLC
         if (!ECDSA_SIG_set0(sig, r, s)) {
+            BN_free(r);
+            BN_free(s);
             ECDSA_SIG_free(sig);
             return NULL;
         }
 #elif OPENSSL_VERSION_NUMBER >= 0x010100000
         if (!ECDSA_SIG_set0(sig, r, s)) {
+            BN_free(r);
+            BN_free(s);
             ECDSA_SIG_free(sig);
             return NULL;
         }
@@ -1122,9 +1126,14 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         sig->s = s;
 #endif
         
-        size_t sig_size = i2d_ECDSA_SIG(sig, NULL);
+        int sig_size = i2d_ECDSA_SIG(sig, NULL);
         
-        wickr_buffer_t *sig_data = wickr_buffer_create_empty_zero(sig_size);
+        if (sig_size <= 0) {
+            ECDSA_SIG_free(sig);
+            return NULL;
+        }
+        
+        wickr_buffer_t *sig_data = wickr_buffer_create_empty_zero((size_t)sig_size);
         
         if (!sig_data) {
             ECDSA_SIG_free(sig);
@@ -1134,6 +1143,7 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         uint8_t *bytes = sig_data->bytes;
         
         if (sig_size != i2d_ECDSA_SIG(sig, &bytes)) {
+            ECDSA_SIG_free(sig);
             wickr_buffer_destroy(&sig_data);
             return NULL;
         }
-- 
2.43.0


From c60d95df9d2c9ce51265efcdad277577f26904ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:41 +0000
Subject: [PATCH 88/89] fix: release a computed mac that has nothing to be
 compared with

---
 src/wickrcrypto/src/openssl_suite.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 75de783..bf72cb6 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1280,10 +1280,14 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
     
     bool openssl_hmac_verify(const wickr_buffer_t *data, const wickr_buffer_t *hmac_key, wickr_digest_t mode, const wickr_buffer_t *expected)
     {
+        if (!expected) {
+            return false;
+        }
+        
         /* Compute the expected HMAC */
         wickr_buffer_t *computed_hmac = openssl_hmac_create(data, hmac_key, mode);
         
-        if (!expected || !computed_hmac) {
+        if (!computed_hmac) {
             return false;
         }
         
-- 
2.43.0


From 715ba6f8d0b98afcadd5eb2512eec38eadf18beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:35 +0000
Subject: [PATCH 89/89] fix: the placeholder of an encrypted file's tag is
 written as zeros, not as whatever memory holds

---
 src/wickrcrypto/src/openssl_suite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index bf72cb6..a5a175d 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1314,7 +1314,7 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         bool ret_val = false;
         
         wickr_buffer_t *iv_f = openssl_crypto_random(key->cipher.iv_len);
-        wickr_buffer_t *auth_tag = wickr_buffer_create_empty(key->cipher.auth_tag_len);
+        wickr_buffer_t *auth_tag = wickr_buffer_create_empty_zero(key->cipher.auth_tag_len);
         
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_create(key->cipher, iv_f, NULL, auth_tag);
         
-- 
2.43.0

