From bb08ab387639f4cec45a7ea037c7c49b74228cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:06 +0000
Subject: [PATCH 01/19] fix: ML-DSA verification rejects public keys and
 signatures of the wrong length

---
 pq_logic/fips/fips204.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pq_logic/fips/fips204.py b/pq_logic/fips/fips204.py
index e3776f0..9234c4a 100644
--- a/pq_logic/fips/fips204.py
+++ b/pq_logic/fips/fips204.py
@@ -614,6 +614,12 @@ class ML_DSA:
         if param is not None:
             self.__init__(param)
 
+        # FIPS 204, section 3.6.2: public keys and signatures of any other length are rejected.
+        pk_len = 32 + 32 * self.k * (int(self.q - 1).bit_length() - self.d)
+        sig_len = self.lam // 4 + 32 * self.ell * (1 + int(self.gam1 - 1).bit_length()) + self.omega + self.k
+        if len(pk) != pk_len or len(sig) != sig_len:
+            return False
+
         (rho, t1) = self.pk_decode(pk)
         (ct, z, h) = self.sig_decode(sig)
         # print('# rho:', rho.hex())
-- 
2.43.0


From cb8dbcabb01e337d7aa0fa1384add1b376bb2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:05 +0000
Subject: [PATCH 02/19] fix: ML-KEM private keys whose seed does not belong to
 the stored expanded key are refused

---
 pq_logic/keys/kem_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pq_logic/keys/kem_keys.py b/pq_logic/keys/kem_keys.py
index 7edd610..675fda2 100644
--- a/pq_logic/keys/kem_keys.py
+++ b/pq_logic/keys/kem_keys.py
@@ -216,7 +216,7 @@ class MLKEMPrivateKey(PQKEMPrivateKey):
             # The first 64 bytes are the seed, the rest is the private key
             seed = data[:64]
             private_key = data[64:]
-            key = cls(alg_name=name, private_bytes=private_key, seed=seed)
+            key = cls.from_seed(alg_name=name, seed=seed)
             if key.private_bytes_raw() != private_key:
                 raise InvalidKeyData("Invalid private key data the key does not match the provided seed.")
 
-- 
2.43.0


From 11e3354ba4fb57176900319305c757094c20fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:54 +0000
Subject: [PATCH 03/19] fix: DHBasedMac with GMAC or KMAC derives the key from
 OWF(shared secret) as RFC 4210 5.1.3.2 says

---
 resources/protectionutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 0bb0387..cd41a7d 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -491,7 +491,7 @@ def compute_dh_based_mac_from_alg_id(
         mac = cryptoutils.compute_hmac(key=derived_key, data=data, hash_alg=mac_alg)
     elif mac_alg_oid in AES_GMAC_OID_2_NAME:
         length = _get_aes_length(AES_GMAC_OID_2_NAME[mac_alg_oid])
-        derived_key = dh_based_mac_derive_key(basekey=shared_secret, desired_length=length, owf=owf)
+        derived_key = dh_based_mac_derive_key(basekey=derived_key, desired_length=length, owf=owf)
         if not isinstance(params["mac"]["parameters"], rfc9044.GCMParameters):
             gmac_params, rest = decoder.decode(params["mac"]["parameters"], rfc9044.GCMParameters())
         else:
@@ -501,7 +501,7 @@ def compute_dh_based_mac_from_alg_id(
         mac = cryptoutils.compute_gmac(data=data, key=derived_key, iv=nonce)
 
     elif mac_alg_oid in KMAC_OID_2_NAME:
-        derived_key = dh_based_mac_derive_key(basekey=shared_secret, desired_length=32, owf=owf)
+        derived_key = dh_based_mac_derive_key(basekey=derived_key, desired_length=32, owf=owf)
         mac = cryptoutils.compute_kmac_from_alg_id(alg_id=params["mac"], data=data, key=derived_key)
     else:
         raise BadAlg(f"Unsupported MAC algorithm for DHBasedMAC: {may_return_oid_to_name(mac_alg_oid)}")
-- 
2.43.0


From 31abd25e7bdce25994a8cd8687128626c5d048e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:54 +0000
Subject: [PATCH 04/19] fix: decode the parameters of a PBKDF2 kdf as
 PBKDF2-params

---
 resources/protectionutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index cd41a7d..13f0b59 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -2091,7 +2091,7 @@ def compute_kdf_from_alg_id(kdf_alg_id: rfc9480.AlgorithmIdentifier, ss: bytes,
 
     if kdf_alg_id["algorithm"] == rfc9481.id_PBKDF2:
         if not isinstance(kdf_alg_id["parameters"], rfc8018.PBKDF2_params):
-            pbkdf2_params = decoder.decode(kdf_alg_id["parameters"], asn1Spec=rfc9480.AlgorithmIdentifier())[0]
+            pbkdf2_params = decoder.decode(kdf_alg_id["parameters"], asn1Spec=rfc8018.PBKDF2_params())[0]
         else:
             pbkdf2_params = kdf_alg_id["parameters"]
 
-- 
2.43.0


From f0a88858e552e96bc0a383b5f29ade36318b7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:14 +0000
Subject: [PATCH 05/19] fix: compute_mac_from_alg_id uses the owf of
 PBMParameter and decodes GCMParameters

---
 resources/protectionutils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 13f0b59..01077f6 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -564,12 +564,23 @@ def compute_mac_from_alg_id(key: bytes, alg_id: rfc9480.AlgorithmIdentifier, dat
 
         salt = prot_params["salt"].asOctets()
         iterations = int(prot_params["iterationCount"])
-        hash_alg = HMAC_OID_2_NAME[prot_params["mac"]["algorithm"]].split("-")[1]
+        hash_alg_owf = get_hash_from_oid(prot_params["owf"]["algorithm"])
+        mac_hash_alg = HMAC_OID_2_NAME[prot_params["mac"]["algorithm"]].split("-")[1]
         return cryptoutils.compute_password_based_mac(
-            data=data, key=key, iterations=iterations, salt=salt, hash_alg=hash_alg
+            data=data,
+            key=key,
+            iterations=iterations,
+            salt=salt,
+            hash_alg=hash_alg_owf,
+            mac_hash_alg=mac_hash_alg,
         )
 
     if protection_type_oid in AES_GMAC_OID_2_NAME:
+        if not isinstance(prot_params, rfc9044.GCMParameters):
+            prot_params, rest = decoder.decode(prot_params, rfc9044.GCMParameters())
+            if rest != b"":
+                raise BadAsn1Data("GCMParameters")
+
         nonce = prot_params["nonce"].asOctets()
         return cryptoutils.compute_gmac(data=data, key=key, iv=nonce)
 
-- 
2.43.0


From 7a08b2e1ebb512de7413dd61e1fa6a6337b7f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:15:19 +0000
Subject: [PATCH 06/19] fix: signature protection checked against a certificate
 of extraCerts follows protectionAlg

---
 resources/protectionutils.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 01077f6..7d1cd17 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1336,17 +1336,13 @@ def _verify_pki_message_sig(pki_message: PKIMessageTMP, public_key: Optional[Ver
             )
         verify_rsassa_pss_from_alg_id(pub_key, data=encoded, signature=protection_value, alg_id=prot_alg_id)
     else:
-        hash_alg = get_hash_from_oid(protection_type_oid)
-        hash_alg = hash_alg if hash_alg is None else hash_alg.split("-")[-1]
-        if public_key is not None:
-            verify_signature_with_alg_id(
-                public_key=public_key, data=encoded, signature=protection_value, alg_id=prot_alg_id
-            )
-            return
-
+        pub_key = public_key or certutils.load_public_key_from_cert(pki_message["extraCerts"][0])
         # Raises an InvalidSignature Exception if invalid.
-        certutils.verify_signature_with_cert(
-            asn1cert=pki_message["extraCerts"][0], data=encoded, signature=protection_value, hash_alg=hash_alg
+        verify_signature_with_alg_id(
+            public_key=convertutils.ensure_is_verify_key(pub_key),
+            alg_id=prot_alg_id,
+            data=encoded,
+            signature=protection_value,
         )
 
 
-- 
2.43.0


From f745e9b1b69e923cf43d808351208f93dd66c3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:17:17 +0000
Subject: [PATCH 07/19] fix: RSASSA-PSS signatures are verified with the
 saltLength of the parameters, 0 included

---
 resources/protectionutils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 7d1cd17..22d94fa 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1877,9 +1877,7 @@ def verify_rsassa_pss_from_alg_id(
     public_key.verify(
         signature=signature,
         data=data,
-        padding=padding.PSS(
-            mgf=padding.MGF1(algorithm=hash_algorithm), salt_length=salt_length or hash_algorithm.digest_size
-        ),
+        padding=padding.PSS(mgf=padding.MGF1(algorithm=hash_algorithm), salt_length=salt_length),
         algorithm=hash_algorithm,
     )
 
-- 
2.43.0


From 5326c834c3f20d11cdbaf4d347c7401306804f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:17:34 +0000
Subject: [PATCH 08/19] fix: RSASSA-PSS with SHAKE uses SHAKE as the mask
 generation function (RFC 8702)

---
 resources/cryptoutils.py     |  2 +-
 resources/data_objects.py    | 10 ++++++++++
 resources/protectionutils.py |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/resources/cryptoutils.py b/resources/cryptoutils.py
index f21652a..1801c21 100644
--- a/resources/cryptoutils.py
+++ b/resources/cryptoutils.py
@@ -217,7 +217,7 @@ def _sign_data_rsa_pss_shake(
         salt_length = hash_for_signing.digest_size
 
     pycrypto_key = RSA.import_key(pem_data)
-    signer = pss.new(pycrypto_key, salt_bytes=salt_length)
+    signer = pss.new(pycrypto_key, mask_func=hash_for_signing.mask, salt_bytes=salt_length)
     signature = signer.sign(hash_for_signing)  # type: ignore
     logging.info("RSA-PSS-%s Signature: %s", hash_alg, signature.hex())
     return signature
diff --git a/resources/data_objects.py b/resources/data_objects.py
index 88c7fab..1ec72f5 100644
--- a/resources/data_objects.py
+++ b/resources/data_objects.py
@@ -288,6 +288,11 @@ class FixedSHAKE128:
         """Create a new instance of FixedSHAKE128."""
         return cls(data=data)
 
+    @staticmethod
+    def mask(seed: bytes, length: int) -> bytes:
+        """Return the RSASSA-PSS mask, which is the SHAKE128 output itself (RFC 8702, Section 3.1)."""
+        return SHAKE128.new(seed).read(length)
+
 
 class FixedSHAKE256:
     """Wrapper for SHAKE256 to have a digest_size attribute to use RSA-PSS."""
@@ -317,3 +322,8 @@ class FixedSHAKE256:
     def new(cls, data: Optional[bytes] = None) -> "FixedSHAKE256":
         """Create a new instance of FixedSHAKE256."""
         return cls(data=data)
+
+    @staticmethod
+    def mask(seed: bytes, length: int) -> bytes:
+        """Return the RSASSA-PSS mask, which is the SHAKE256 output itself (RFC 8702, Section 3.1)."""
+        return SHAKE256.new(seed).read(length)
diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 22d94fa..36df525 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1913,7 +1913,7 @@ def verify_rsassa_pss_shake(
     if salt_length is None:
         salt_length = hash_for_verifying.digest_size
 
-    verifier = pss.new(pub_key_tmp, salt_bytes=salt_length)
+    verifier = pss.new(pub_key_tmp, mask_func=hash_for_verifying.mask, salt_bytes=salt_length)
     try:
         verifier.verify(hash_for_verifying, signature)  # type: ignore
     except ValueError as err:
-- 
2.43.0


From 1292e1940c2ea6150143f62ffae6e0125688e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:27:07 +0000
Subject: [PATCH 09/19] fix: RSASSA-PSS signing follows the hash and salt
 length of the AlgorithmIdentifier

---
 resources/cryptoutils.py     |  4 +++-
 resources/protectionutils.py | 26 ++++++++++++--------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/resources/cryptoutils.py b/resources/cryptoutils.py
index 1801c21..e7a0866 100644
--- a/resources/cryptoutils.py
+++ b/resources/cryptoutils.py
@@ -177,7 +177,9 @@ def sign_data_rsa_pss(
     hash_alg = "sha256" if hash_alg is None else hash_alg
     hash_algorithm = hash_name_to_instance(hash_alg)
     second_hash_algorithm = hash_name_to_instance(second_hash_alg) if second_hash_alg else hash_algorithm
-    pss_padding = padding.PSS(mgf=padding.MGF1(hash_algorithm), salt_length=salt_length or hash_algorithm.digest_size)
+    if salt_length is None:
+        salt_length = hash_algorithm.digest_size
+    pss_padding = padding.PSS(mgf=padding.MGF1(hash_algorithm), salt_length=salt_length)
     return private_key.sign(data=data, padding=pss_padding, algorithm=second_hash_algorithm)
 
 
diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 36df525..7c36605 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -696,24 +696,24 @@ def sign_rsa_pss_data_with_alg_id(
     :param private_key: The RSA private key used for signing.
     :param data: The data to be signed.
     :param alg_id: The AlgorithmIdentifier specifying the RSASSA-PSS algorithm.
-    :param hash_alg: The hash algorithm to use for the signature. Defaults to "sha256".
+    :param hash_alg: The hash algorithm to use, if the parameters do not name one. Defaults to "sha256".
     :return: The signature as a byte string.
     """
-    if not alg_id["parameters"].isValue:
-        salt_length = None
-    elif isinstance(alg_id["parameters"], rfc8017.RSASSA_PSS_params):
-        salt_length = int(alg_id["parameters"]["saltLength"])
-    elif isinstance(alg_id["parameters"], univ.Any):
+    salt_length = None
+    params = alg_id["parameters"]
+
+    if alg_id["algorithm"] != rfc9481.id_RSASSA_PSS:
+        hash_alg = get_hash_from_oid(alg_id["algorithm"], only_hash=True)
+    elif isinstance(params, univ.Any) and params.isValue:
         # TODO fix with unsafe param, for better negative testing in general.
         params, _ = try_decode_pyasn1(  # type: ignore
-            alg_id["parameters"].asOctets(),
+            params.asOctets(),
             rfc8017.RSASSA_PSS_params(),
         )
-        params: rfc8017.RSASSA_PSS_params
-        salt_length = int(params["saltLength"])
 
-    else:
-        salt_length = None
+    if isinstance(params, rfc8017.RSASSA_PSS_params):
+        salt_length = int(params["saltLength"])
+        hash_alg = get_hash_from_oid(params["hashAlgorithm"]["algorithm"])
 
     return cryptoutils.sign_data_rsa_pss(
         data=data, private_key=private_key, hash_alg=hash_alg or "sha256", salt_length=salt_length
@@ -2457,10 +2457,8 @@ def sign_data_with_alg_id(  # noqa: D417 Missing argument descriptions in the do
         use_pss = name.endswith("-pss")
         return key.sign(data=data, use_pss=use_pss)
 
-    # TODO fix this
     if oid in RSASSA_PSS_OID_2_NAME and isinstance(key, rsa.RSAPrivateKey):
-        hash_alg = get_hash_from_oid(oid, only_hash=True)
-        return cryptoutils.sign_data(key=key, data=data, hash_alg=hash_alg, use_rsa_pss=True)
+        return sign_rsa_pss_data_with_alg_id(private_key=key, data=data, alg_id=alg_id)
 
     if oid in PQ_OID_2_NAME or oid in TRAD_SIG_OID_2_NAME:
         hash_alg = get_hash_from_oid(oid, only_hash=True)
-- 
2.43.0


From 36a50625829ce8d6cfae0eab3fc6e898a26cd9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:00:58 +0000
Subject: [PATCH 10/19] fix: the check of a batch response looks for the answer
 to every request, not one per body type

---
 resources/checkutils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index f6e4541..2003e0d 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -2027,7 +2027,7 @@ def validate_ids_and_nonces_for_nested_response(  # noqa D417 undocumented-param
             f"{len(request['body'])}. The response size was: {len(response['body'])}"
         )
 
-    req_pair: Dict[str, Tuple[bytes, bytes]] = {}
+    req_pair: List[Tuple[str, Tuple[bytes, bytes]]] = []
     resp_pair: Dict[Tuple[bytes, bytes], str] = {}
     for msg in response["body"]["nested"]:
         body_name = msg["body"].getName()
@@ -2035,11 +2035,12 @@ def validate_ids_and_nonces_for_nested_response(  # noqa D417 undocumented-param
 
     for msg in request["body"]["nested"]:
         body_name = msg["body"].getName()
-        req_pair[body_name] = (msg["header"]["senderNonce"].asOctets(), msg["header"]["transactionID"].asOctets())
+        id_pair = (msg["header"]["senderNonce"].asOctets(), msg["header"]["transactionID"].asOctets())
+        req_pair.append((body_name, id_pair))
 
     allowed_answer_bodies = {"p10cr": "cp", "cr": "cp", "genm": "genp", "kur": "kup", "ir": "ip"}
     always_allowed = ["error", "pollReq"]
-    for body_name, tuple_data in req_pair.items():
+    for body_name, tuple_data in req_pair:
         if tuple_data not in resp_pair:
             raise ValueError("The response nested message did not contain the response for a message.")
 
-- 
2.43.0


From 74b15f34a0f7d4e8e56680edaf752ad04a12ace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:00:58 +0000
Subject: [PATCH 11/19] fix: a certProfile is refused if it has more profiles
 than the message requests, not if it has as many

---
 resources/checkutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 2003e0d..298d90b 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1287,11 +1287,11 @@ def validate_cert_profile_for_ca(  # noqa D417 undocumented-param
     if len(profiles) == 0:
         raise BadRequest("The `certProfile` structure must contain at least one profile.")
 
-    if len(profiles) == _get_cert_profile_msg_size(pki_message):
-        raise BadRequest("The `certProfile` structure must not contain the same profile multiple times.")
+    if len(profiles) > _get_cert_profile_msg_size(pki_message):
+        raise BadRequest("The `certProfile` structure must not contain more profiles than the message has requests.")
 
     if cert_profiles is not None:
-        cert_profiles.append("")
+        cert_profiles = [*cert_profiles, ""]
         for profile in profiles:
             if profile.prettyPrint() not in cert_profiles:
                 raise BadRequest(f"The `certProfile` {profile} is not known to the CA!")
-- 
2.43.0


From 60885d1ee3306517848ff0eb5c5919972e6e86b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:00:58 +0000
Subject: [PATCH 12/19] fix: check_rp_cmp_message_body accepts the PKIStatus
 rejection

---
 resources/checkutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 298d90b..fe6745b 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1689,7 +1689,7 @@ def check_rp_cmp_message_body(  # noqa D417 undocumented-param
             raise ValueError("The `failInfo` MUST be absent if the `status` is accepted")
 
         return
-    is_correct = asn1utils.asn1_compare_named_values(pki_status_info["status"], "rejected")
+    is_correct = asn1utils.asn1_compare_named_values(pki_status_info["status"], "rejection")
     if is_correct:
         return
 
-- 
2.43.0


From 3387d26a06236a6b46073f8a4d3055d7df710807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:03:21 +0000
Subject: [PATCH 13/19] fix: CA message checks look at the response, status and
 certificate of the given response_index

---
 resources/checkutils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index fe6745b..d5308d4 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -256,7 +256,7 @@ def validate_ca_msg_ca_pubs_field(  # noqa D417 undocumented-param
     pki_body = pki_message["body"]
     body_name = pki_body.getName()
     pki_body = pki_body[body_name]
-    certified_key_pair: rfc9480.CertifiedKeyPair = pki_body["response"][response_index]["certifiedKeyPair"]
+    certified_key_pair: rfc9480.CertifiedKeyPair = pki_body["response"][int(response_index)]["certifiedKeyPair"]
     # The optional caPubs field may be used if certifiedKeyPair is present
     if certified_key_pair.isValue:
         # certificate REQUIRED
@@ -265,7 +265,7 @@ def validate_ca_msg_ca_pubs_field(  # noqa D417 undocumented-param
         if not certified_key_pair["certOrEncCert"].isValue:
             raise ValueError("`certOrEncCert` must be present, if `certifiedKeyPair` field is present.")
 
-        asn1cert = cmputils.get_cert_from_pkimessage(pki_message)
+        asn1cert = cmputils.get_cert_from_pkimessage(pki_message, cert_number=response_index)
 
         if pki_body["caPubs"].isValue:
             if body_name == "cp" or used_ir_as_cr:
@@ -1799,7 +1799,7 @@ def validate_ca_message_body(  # noqa D417 undocumented-param
 
     validate_certReqId(pki_message, response_index, used_p10cr)
     cert_response = cmputils.get_cert_response_from_pkimessage(pki_message, response_index)
-    pki_status_info = cmputils.get_pkistatusinfo(pki_message)
+    pki_status_info = cmputils.get_pkistatusinfo(pki_message, response_index)
     status = str(pki_status_info["status"])
     if status in ["accepted", "grantedWithMods"]:
         if pki_status_info["failInfo"].isValue:
@@ -1816,6 +1816,7 @@ def validate_ca_message_body(  # noqa D417 undocumented-param
             pki_message=pki_message,
             trustanchors=trustanchors,
             verbose=verbose,
+            response_index=response_index,
             allow_os_store=allow_os_store,
             used_ir_as_cr=used_ir_as_cr,
         )
@@ -1968,7 +1969,7 @@ def check_for_granted_with_mods(  # noqa D417 undocumented-param
             f"got body type: {pki_message_response['body'].getName()}"
         )
 
-    issued_cert = cmputils.get_cert_from_pkimessage(pki_message_response)
+    issued_cert = cmputils.get_cert_from_pkimessage(pki_message_response, cert_number=response_index)
     is_equal = compareutils.compare_cert_template_and_cert(
         cert_template,
         issued_cert=issued_cert,
@@ -1978,7 +1979,7 @@ def check_for_granted_with_mods(  # noqa D417 undocumented-param
     )
 
     if not is_equal:
-        pki_status_info: rfc9480.PKIStatusInfo = cmputils.get_pkistatusinfo(pki_message_response)
+        pki_status_info: rfc9480.PKIStatusInfo = cmputils.get_pkistatusinfo(pki_message_response, response_index)
         if "grantedWithMods" != str(pki_status_info["status"]):
             logging.info("CA responded with `PKIStatusInfo`: %s", pki_status_info.prettyPrint())
             raise ValueError(
-- 
2.43.0


From 0a31e5993a43330c0c3d0c8a99ab8a030b97e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:03:31 +0000
Subject: [PATCH 14/19] fix: checking a certificate response no longer replaces
 the certificate or encryptedCert in it

---
 resources/checkutils.py | 9 ++++++---
 resources/cmputils.py   | 4 ++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index d5308d4..8501785 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -181,8 +181,10 @@ def validate_certified_key_pair_structure(  # noqa D417 undocumented-param
             else:
                 logging.info("Supposed to use the `EnvelopedData` data structure, for `privateKey`")
 
-    if cert_key_pair["certOrEncCert"]["encryptedCert"].isValue:
-        if cert_key_pair["certOrEncCert"]["encryptedCert"].getName() == "envelopedData":
+    # Only look at the alternative, which is set, because accessing the other one would select it.
+    cert_or_enc_cert = cert_key_pair["certOrEncCert"]
+    if cert_or_enc_cert.isValue and cert_or_enc_cert.getName() == "encryptedCert":
+        if cert_or_enc_cert["encryptedCert"].getName() == "envelopedData":
             if version != 3:
                 raise ValueError(
                     f"The `EnvelopedData` data structure is used, but version != 3. Got Version: {version}"
@@ -1807,7 +1809,8 @@ def validate_ca_message_body(  # noqa D417 undocumented-param
             raise ValueError(f"The status was: {status}, but failinfo was set to: {names}")
 
         certified_key_pair: rfc9480.CertifiedKeyPair = cert_response["certifiedKeyPair"]
-        if not certified_key_pair["certOrEncCert"]["certificate"].isValue:
+        cert_or_enc_cert = certified_key_pair["certOrEncCert"]
+        if not cert_or_enc_cert.isValue or cert_or_enc_cert.getName() != "certificate":
             raise ValueError("certificate field has no Value!")
 
         logging.info(certified_key_pair.prettyPrint())
diff --git a/resources/cmputils.py b/resources/cmputils.py
index d245fe8..250da0b 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -3901,6 +3901,10 @@ def get_cert_from_pkimessage(  # noqa D417 undocumented-param
     if not response["certifiedKeyPair"]["certOrEncCert"].isValue:
         raise ValueError("The provided PKIMessage did not had the `certOrEncCert` field set.")
 
+    # Accessing the alternative of the choice, which is not set, would select it.
+    if response["certifiedKeyPair"]["certOrEncCert"].getName() != "certificate":
+        raise ValueError("The provided PKIMessage does not contain a certificate.")
+
     cert = response["certifiedKeyPair"]["certOrEncCert"]["certificate"]
     if not cert.isValue:
         raise ValueError("The provided PKIMessage does not contain a certificate.")
-- 
2.43.0


From 0fbda97ea5c19f2ca2aa744dfb773caa73991aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:11:12 +0000
Subject: [PATCH 15/19] fix: a MAC protected message without a common name in
 the sender is reported

---
 resources/checkutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 8501785..36052f9 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -382,7 +382,8 @@ def _verify_sender_field_for_mac(sender_name: rfc9480.GeneralName, allow_failure
     cm_name = utils.get_openssl_name_notation(name=sender_name["directoryName"], oids=[rfc5280.id_at_commonName])
 
     if not allow_failure:
-        if cm_name is None:
+        # A name without a common name is returned as `NULL-DN`.
+        if cm_name in (None, "NULL-DN"):
             raise BadMessageCheck(
                 " For MAC-based protection, the CA "
                 "MUST use an identifier in the commonName field of the directoryName choice."
@@ -616,7 +617,7 @@ def _verify_senderkid_for_mac(pki_message: PKIMessageTMP, allow_mac_failure: boo
 
     cm_name = utils.get_openssl_name_notation(name=sender_name, oids=[rfc5280.id_at_commonName])
 
-    if not cm_name:
+    if not cm_name or cm_name == "NULL-DN":
         if not allow_mac_failure:
             raise BadMessageCheck(f"PKIMessage `sender` did not contain a commonName: {sender_name.prettyPrint()}")
         logging.warning("PKIMessage `sender` did not contain a commonName: %s", sender_name.prettyPrint())
-- 
2.43.0


From 5c8e43928c7991155fc0d3f5cc2ffe19e31be0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:14:16 +0000
Subject: [PATCH 16/19] fix: validate_ca_message_body refuses caPubs in the
 answer to a cr request

---
 resources/checkutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 36052f9..e7645d9 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1822,6 +1822,7 @@ def validate_ca_message_body(  # noqa D417 undocumented-param
             verbose=verbose,
             response_index=response_index,
             allow_os_store=allow_os_store,
+            used_p10cr=used_p10cr,
             used_ir_as_cr=used_ir_as_cr,
         )
         validate_certified_key_pair_structure(
-- 
2.43.0


From 48690b7e7ebe539843ffeb5f8b3ffd0e9659edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:15 +0000
Subject: [PATCH 17/19] fix: comparison of MAC protection algorithms handles
 decoded requests, absent key lengths, NULL parameters and the pkiconf message

---
 resources/protectionutils.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 7c36605..1ea92de 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -142,18 +142,17 @@ def _compare_alg_id(
     :param allow_null: If True, allows absent values to have the value `NULL` for legacy systems.
     :return: True if equal; False otherwise.
     """
-    if allow_null:
-        alg_id1_der = encoder.encode(alg_id1)
-        alg_id2_der = encoder.encode(alg_id2)
-        return alg_id1_der == alg_id2_der
-
     if alg_id1["algorithm"] != alg_id2["algorithm"]:
         return False
 
-    if alg_id2["parameters"].isValue:
-        return False
+    has_params = [alg_id["parameters"].isValue for alg_id in (alg_id1, alg_id2)]
+    if not allow_null:
+        return not any(has_params)
 
-    return True
+    if all(not alg_id["parameters"].isValue or _is_parmeters_null(alg_id) for alg_id in (alg_id1, alg_id2)):
+        return True
+
+    return all(has_params) and encoder.encode(alg_id1["parameters"]) == encoder.encode(alg_id2["parameters"])
 
 
 def _compare_pbm_parameters(
@@ -170,6 +169,8 @@ def _compare_pbm_parameters(
     :return: True if all components match; False otherwise.
     """
     try:
+        if not isinstance(param1, rfc9480.PBMParameter):
+            param1, _ = decoder.decode(encoder.encode(param1), asn1Spec=rfc9480.PBMParameter())
         param2, _ = decoder.decode(param2, asn1Spec=rfc9480.PBMParameter())
     except pyasn1.error.PyAsn1Error:
         logging.info("Could not decode `PBMParameter` structure.")
@@ -227,7 +228,10 @@ def _compare_pbkdf2_parameters(
     if int(param1["iterationCount"]) != int(param2["iterationCount"]):
         return False
 
-    if param1["keyLength"].isValue or param2["keyLength"].isValue:
+    if param1["keyLength"].isValue != param2["keyLength"].isValue:
+        return False
+
+    if param1["keyLength"].isValue:
         if int(param1["keyLength"]) != int(param2["keyLength"]):
             return False
 
@@ -259,6 +263,11 @@ def _compare_pbmac1_parameters(
         logging.info("Could not decode `PBMAC1_params` structure.")
         return False
 
+    if param1["keyDerivationFunc"]["algorithm"] != param2["keyDerivationFunc"]["algorithm"]:
+        raise ValueError(
+            "Mismatch in `keyDerivationFunc` field between the sent and server PBMAC1Parameters structures."
+        )
+
     try:
         dec_key_der_func, _ = decoder.decode(
             (param1["keyDerivationFunc"]["parameters"]),  # type: ignore
@@ -1644,12 +1653,16 @@ def mac_protection_algorithms_must_match(  # noqa D417 undocumented-param
         pki_conf_id = pkiconf["header"]["protectionAlg"]
         # To just compare DER, because they must be the same.
         if same_salt:
-            if not _compare_alg_id(pki_conf_id, response_algo, allow_null=False):
+            if pki_conf_id["algorithm"] != response_algo["algorithm"] or (
+                encoder.encode(pki_conf_id["parameters"]) != encoder.encode(response_algo["parameters"])
+            ):
                 logging.info("PKI Confirmation `protectionAlg`:\n %s", pki_conf_id.prettyPrint())
                 raise ValueError("Protection algorithm mismatch between PKI Confirmation and CA response.")
         else:
             # For convenience, use the request, which must be equal.
-            _compare_mac_params(request_algo, response_algo, same_salt=same_salt, allow_null=allow_null)
+            if pki_conf_id["algorithm"] != request_algo["algorithm"]:
+                raise ValueError("Protection algorithm mismatch between PKI Confirmation and the request.")
+            _compare_mac_params(request_algo, pki_conf_id, same_salt=same_salt, allow_null=allow_null)
 
 
 @not_keyword
-- 
2.43.0


From 7e3e442f7eddf60fe82c68141b33c1b9bfaf8238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:23:08 +0000
Subject: [PATCH 18/19] fix: signature protection of a message exchange is
 checked for every signature algorithm

---
 resources/checkutils.py      |  2 +-
 resources/protectionutils.py | 47 +++++++++++-------------------------
 2 files changed, 15 insertions(+), 34 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index e7645d9..744a81d 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1000,7 +1000,7 @@ def check_protection_alg_conform_to_spki(
         return prot_alg_id["algorithm"] in ECDSA_SHA_OID_2_NAME
 
     if cert_alg_id["algorithm"] in {rfc9481.id_Ed25519, rfc9481.id_Ed448}:
-        return prot_alg_id["algorithm"] in {rfc9481.id_Ed25519, rfc9481.id_Ed448}
+        return prot_alg_id["algorithm"] == cert_alg_id["algorithm"]
 
     if cert_alg_id["algorithm"] == rsaEncryption:
         return prot_alg_id["algorithm"] in RSA_OID_2_NAME or prot_alg_id["algorithm"] in RSASSA_PSS_OID_2_NAME
diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 1ea92de..fc3ab1e 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1675,8 +1675,8 @@ def check_signature_alg_is_consistent(
 
     Verifies that the `protectionAlg` used in the first PKI response matches
     the signature algorithm used in the optional `pki_conf` and `pki_polling` messages. It also
-    ensures that the `protectionAlg` parameters are not present, as required for signature-based
-    protection.
+    ensures that the `protectionAlg` parameters are absent, `NULL` or present, as the signature
+    algorithm requires it.
 
     :param pki_response: An `PKIMessageTMP` object representing the PKI response message to check.
     :param pki_conf: An optional `PKIMessageTMP` object representing the PKI confirmation message
@@ -1684,7 +1684,7 @@ def check_signature_alg_is_consistent(
     :param pki_polling: An optional `PKIMessageTMP` object representing the PKI polling message
         for comparison. Defaults to `None`.
     :raises ValueError: If the signature algorithms in the provided messages do not match, or if the
-        `protectionAlg` field includes parameters when they should not be present.
+        `parameters` of the `protectionAlg` field are not the ones of the signature algorithm.
     """
     protection_alg = pki_response["header"]["protectionAlg"]
 
@@ -1704,16 +1704,13 @@ def check_signature_alg_is_consistent(
             logging.info("Initial ProtectionAlg OID was: %s but pkiConf OID was %s", server_alg_id, pki_polling_oid)
             raise ValueError("The `pkiConf` message has a different ObjectIdentifier!")
 
-    pki_conf_value = None
-    pki_polling_value = None
-    if pki_conf is not None:
-        pki_conf_value = pki_conf["header"]["protectionAlg"]["parameters"].isValue
-
-    if pki_polling is not None:
-        pki_polling_value = pki_polling["header"]["protectionAlg"]["parameters"].isValue
-
-    if protection_alg["parameters"].isValue or pki_conf_value or pki_polling_value:
-        raise ValueError("The `protectionAlg` MUST not have parameters for PKIMessage signature-based protection.")
+    for pki_message in (pki_response, pki_conf, pki_polling):
+        if pki_message is None:
+            continue
+        try:
+            _validate_sig_alg_id(pki_message["header"]["protectionAlg"])
+        except (BadAlg, BadSigAlgIDParams) as err:
+            raise ValueError("The `protectionAlg` is not valid for PKIMessage signature-based protection.") from err
 
 
 def _check_is_same_chain(
@@ -1792,16 +1789,10 @@ def signature_protection_must_match(  # noqa D417 undocumented-param
 
     check_signature_alg_is_consistent(response, pki_conf, pki_polling)
     first_msg_cert = response["extraCerts"][0]
-    hash_alg = get_hash_from_oid(response["header"]["protectionAlg"]["algorithm"])
-    hash_alg = None if hash_alg is None else hash_alg.split("-")[1]
+    public_key = convertutils.ensure_is_verify_key(certutils.load_public_key_from_cert(first_msg_cert))
 
     try:
-        certutils.verify_signature_with_cert(
-            asn1cert=first_msg_cert,
-            data=prepare_protected_part(response),
-            signature=response["protection"].asOctets(),
-            hash_alg=hash_alg,
-        )
+        _verify_pki_message_sig(response, public_key)
     except InvalidSignature as err:
         raise ValueError("Signature verification failed for the `response`.") from err
 
@@ -1810,12 +1801,7 @@ def signature_protection_must_match(  # noqa D417 undocumented-param
         if pki_conf["extraCerts"].isValue:
             pki_conf_certs = pki_conf["extraCerts"]
         try:
-            certutils.verify_signature_with_cert(
-                asn1cert=first_msg_cert,
-                data=prepare_protected_part(pki_conf),
-                signature=pki_conf["protection"].asOctets(),
-                hash_alg=hash_alg,
-            )
+            _verify_pki_message_sig(pki_conf, public_key)
         except InvalidSignature as err:
             raise ValueError("Signature verification failed for `pki_conf`.") from err
 
@@ -1825,12 +1811,7 @@ def signature_protection_must_match(  # noqa D417 undocumented-param
             polling_certs = pki_polling["extraCerts"]
 
         try:
-            certutils.verify_signature_with_cert(
-                asn1cert=first_msg_cert,
-                data=prepare_protected_part(pki_polling),
-                signature=pki_polling["protection"].asOctets(),
-                hash_alg=hash_alg,
-            )
+            _verify_pki_message_sig(pki_polling, public_key)
         except InvalidSignature as err:
             raise ValueError("Signature verification failed for `pki_polling`.") from err
 
-- 
2.43.0


From 69bc4e03e1e3f30434a2f5f38ff28e964730c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:37:24 +0000
Subject: [PATCH 19/19] fix: a changed CMP protection certificate in the
 pkiconf or polling message is reported

---
 resources/protectionutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index fc3ab1e..4ff3ad8 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1733,12 +1733,16 @@ def _check_is_same_chain(
     der_data_first = b"".join([encoder.encode(cert) for cert in first_chain])
 
     if pki_conf_certs is not None:
+        if encoder.encode(pki_conf_certs[0]) != encoder.encode(cmp_cert):
+            raise ValueError("The PKI Confirmation message contains a different CMP protection certificate.")
         pki_conf_chain = certutils.build_chain_from_list(certs=pki_conf_certs, ee_cert=cmp_cert)  # type: ignore
         der_data_pki_conf = b"".join([encoder.encode(cert) for cert in pki_conf_chain])
         if der_data_first != der_data_pki_conf:
             raise ValueError("The PKI Confirmation message contains a different certificate chain.")
 
     if polling_certs is not None:
+        if encoder.encode(polling_certs[0]) != encoder.encode(cmp_cert):
+            raise ValueError("The Polling message contains a different CMP protection certificate.")
         polling_chain = certutils.build_chain_from_list(certs=polling_certs, ee_cert=cmp_cert)  # type: ignore
         der_data_polling = b"".join([encoder.encode(cert) for cert in polling_chain])
         if der_data_first != der_data_polling:
-- 
2.43.0

