NOTE = ("All obligations hold for every input of the stated domains: pyvc executes the real source symbolically and z3 (cvc5 on retry) "
        "discharges each obligation. Trusted: the pyvc interpreter (cross-checked against CPython), the solvers, and the items the evidence lists.")

P("D01", "ML-DSA rounding and hints recover the right high bits for every coefficient",
  "For every parameter set and every coefficient, rounding, decomposition, hint making, hint use and norms give exactly the values FIPS 204 defines. "
  "A hint made for a sum lets the verifier recover the high bits of that sum, whatever the coefficient.",
  ["inputs"], "every integer coefficient (not only reduced ones), every parameter set",
  "Known-answer tests sample a few signatures; boundary coefficients (r0 = +-gamma2, r - r0 = q-1) are hit with probability about 2^-20 per coefficient.",
  ["pq_logic/fips/fips204.py"],
  [("ML_DSA.decompose", "pq_logic/fips/fips204.py"), ("ML_DSA.use_hint", "pq_logic/fips/fips204.py"),
   ("ML_DSA.make_hint", "pq_logic/fips/fips204.py"), ("ML_DSA.power2round", "pq_logic/fips/fips204.py"), ("ML_DSA.inf_norm", "pq_logic/fips/fips204.py")],
  note=NOTE)

P("D02", "ML-DSA encodings are exact inverses and malformed hints are refused",
  "Every ML-DSA public key, private key, signature and commitment is encoded bit for bit as FIPS 204 says, and decoding gives back exactly what was encoded. "
  "A hint encoding that is not the canonical one (wrong order, wrong counts, non-zero padding) is refused. "
  "Candidate coefficients drawn from hash output are accepted or rejected exactly as the standard's sampling rules say.",
  ["inputs"], "every coefficient vector in range, every byte string of the encoded length, every parameter set",
  "Tests round-trip a handful of random keys and signatures; they never reach most malformed hint encodings or boundary coefficients.",
  ["pq_logic/fips/fips204.py"],
  [("ML_DSA.bit_pack / bit_unpack", "pq_logic/fips/fips204.py"), ("ML_DSA.hint_bit_pack / hint_bit_unpack", "pq_logic/fips/fips204.py"),
   ("ML_DSA.sig_encode / sig_decode", "pq_logic/fips/fips204.py"), ("ML_DSA.pk_encode / sk_encode", "pq_logic/fips/fips204.py")],
  note=NOTE)

P("D04", "ML-DSA polynomial multiplication by NTT is exact multiplication modulo X^256+1",
  "For every polynomial the forward transform gives its values at the 256 roots FIPS 204 fixes, and the inverse transform gives the polynomial back. "
  "Pointwise products and matrix-vector products of transforms are exact modulo q.",
  ["inputs"], "every polynomial with arbitrary integer coefficients; every matrix and vector shape of the parameter sets",
  "Tests multiply a few polynomials; a wrong twiddle factor or missing reduction can survive sampled vectors and only concerns some inputs.",
  ["pq_logic/fips/fips204.py"],
  [("ML_DSA.ntt / ntt_inverse", "pq_logic/fips/fips204.py"), ("ML_DSA.mul_ntt / matrix_vector_ntt", "pq_logic/fips/fips204.py"), ("ML_DSA_ZETAS", "pq_logic/fips/fips204.py")],
  note=NOTE)

P("D03", "ML-DSA signatures verify exactly when FIPS 204 says so, bound to their context",
  "Verification accepts a signature exactly when key and signature have the right length, the hint is well formed, the response is short and the challenge matches the one recomputed from the key and the framed message. "
  "Signing returns the first candidate that meets every rejection bound, so own signatures verify; signatures are bound to the context string and to pure or pre-hashed mode. "
  "The ML-DSA key objects use exactly their key, parameter set and framing, refuse over-long contexts and malformed keys, and raise InvalidSignature for everything that does not verify.",
  ["inputs"], "every key, message, context, signature string (of any length), every parameter set and hash mode",
  "Tests check a handful of valid signatures; nearly all conditions in signing and verification only matter for rare or adversarial inputs.",
  ["pq_logic/fips/fips204.py", "pq_logic/keys/sig_keys.py"],
  [("ML_DSA.sign_internal / verify_internal", "pq_logic/fips/fips204.py"), ("ML_DSA.sign / verify / hash_ml_dsa_*", "pq_logic/fips/fips204.py"),
   ("MLDSAPublicKey.verify, MLDSAPrivateKey.sign", "pq_logic/keys/sig_keys.py")],
  note=NOTE)

P("K01", "ML-KEM compression, encodings, samplers and NTT are exactly those of FIPS 203",
  "For every value and parameter set, compression, byte encoding, noise sampling and rejection sampling give exactly what FIPS 203 defines, and decoding inverts encoding. "
  "The number-theoretic transform, its inverse and its products are exact multiplication modulo X^256+1 for every polynomial.",
  ["inputs"], "every coefficient vector and byte string of the right length, every polynomial with integer coefficients",
  "Tests round-trip a few random keys; a wrong rounding boundary, table entry or rejected sample changes only some inputs and can still round-trip.",
  ["pq_logic/fips/fips203.py"],
  [("ML_KEM.compress / decompress", "pq_logic/fips/fips203.py"), ("ML_KEM.byte_encode / byte_decode", "pq_logic/fips/fips203.py"),
   ("ML_KEM.ntt / ntt_inverse / multiply_ntts", "pq_logic/fips/fips203.py"), ("ML_KEM.sample_ntt / sample_poly_cbd", "pq_logic/fips/fips203.py")],
  note=NOTE)

P("K02", "ML-KEM encapsulation and decapsulation agree and bad ciphertexts are rejected",
  "Key generation, encapsulation and decapsulation compute exactly what FIPS 203 defines from their inputs, for every parameter set. "
  "Decapsulation gives the encapsulated secret whenever decryption recovers the message, and otherwise the pseudo-random value J(z || c), never an error or the real secret. "
  "The ML-KEM key objects use fresh randomness, take keys only of the right length, and refuse a seed that does not belong to the expanded key stored with it.",
  ["inputs"], "every seed, key, message and ciphertext of the encoded lengths, every parameter set",
  "Tests encapsulate and decapsulate a few times; the rejection path, key layout slices and mismatching stored keys are hardly sampled.",
  ["pq_logic/fips/fips203.py", "pq_logic/keys/kem_keys.py"],
  [("ML_KEM.k_pke_keygen / k_pke_encrypt / k_pke_decrypt", "pq_logic/fips/fips203.py"), ("ML_KEM.keygen_internal / encaps_internal / decaps_internal", "pq_logic/fips/fips203.py"),
   ("MLKEMPublicKey, MLKEMPrivateKey", "pq_logic/keys/kem_keys.py")],
  note=NOTE)

P("P01", "Message MACs and derived keys are exactly what the algorithm identifier says",
  "For every secret, salt, iteration count, key length, nonce and message, the protection computed for a CMP message is the MAC its protectionAlg prescribes, over DER(header, body). "
  "This holds for HMAC, KMAC, AES-GMAC, PasswordBasedMac, PBMAC1, DHBasedMac and KEMBasedMac, whether the parameters are decoded or still encoded. "
  "The key derivations they use (PBKDF2, HKDF, KDF2/KDF3, the DHBasedMac and KEMBasedMac key derivations) give exactly the keys their RFCs define.",
  ["inputs"], "every key, salt, iteration count, output length, nonce, header and body value; every supported algorithm combination",
  "Tests protect a few messages and verify them with the same code; a swapped parameter, a wrong hash or a wrong key length in both directions goes unnoticed.",
  ["resources/protectionutils.py", "resources/cryptoutils.py"],
  [("_compute_symmetric_protection, compute_mac_from_alg_id", "resources/protectionutils.py"), ("compute_kem_based_mac_from_alg_id, compute_dh_based_mac_from_alg_id", "resources/protectionutils.py"),
   ("compute_kdf_from_alg_id, dh_based_mac_derive_key", "resources/protectionutils.py"), ("compute_pbmac1, compute_password_based_mac, compute_ansi_x9_63_kdf, compute_hkdf", "resources/cryptoutils.py"),
   ("prepare_protected_part", "resources/protectionutils.py")],
  note=NOTE + " Hash, HMAC, KMAC, GMAC, PBKDF2 and HKDF primitives of the cryptography libraries are uninterpreted functions of all their inputs; pyasn1 encoding of symbolic values is a trusted layer.")

P("P02", "A protected message is accepted exactly if its protection is valid",
  "Verifying a protected message succeeds exactly if the protection value is valid for DER(header, body) under the algorithm its protectionAlg names and the given secret or key. "
  "For signatures the key (given, or that of the first extraCerts certificate) must be of the type the algorithm is for, the parameters must be those its RFC permits, and hash, padding, mask function and salt length are taken from them. "
  "Anything else raises: without a secret or key, with an unknown or mismatched algorithm, a truncated or altered value, or an algorithm the Lightweight CMP Profile excludes when that is enforced. Verification leaves the message unchanged.",
  ["inputs"], "every protection value, header and body content, secret and parameter value; every supported algorithm with every key type",
  "Tests verify a few good messages and one flipped bit; acceptance under mismatched algorithms, parameters or keys and truncated values is hardly sampled.",
  ["resources/protectionutils.py", "resources/cryptoutils.py", "resources/keyutils.py"],
  [("verify_pkimessage_protection, _verify_pki_message_sig", "resources/protectionutils.py"), ("verify_signature_with_alg_id, verify_rsassa_pss_from_alg_id", "resources/protectionutils.py"),
   ("verify_kem_based_mac_protection, _verify_dh_based_protection", "resources/protectionutils.py"), ("verify_signature", "resources/cryptoutils.py"), ("check_consistency_sig_alg_id_and_key", "resources/keyutils.py")],
  note=NOTE + " What a native key or hash does to bytes is an uninterpreted function of key, scheme, signature and data (assumed contract of the cryptography libraries); ML-DSA keys enter by the contract D03 establishes, SLH-DSA keys by an assumed one.")

P("P03", "Protecting a message names what was asked for and a verifier accepts it",
  "Protecting a message sets protectionAlg to the requested algorithm with exactly the requested hash, salt, iteration count, length and MAC, and leaves the other header fields and the body unchanged. "
  "The protection added is the MAC or signature over DER(header, body) that this very protectionAlg prescribes, so verification with the matching secret or public key succeeds. "
  "Signing data by an algorithm identifier uses the hash, padding and salt length of its parameters; the option to damage the protection always makes it invalid.",
  ["inputs"], "every secret, salt, iteration count, header and body value; every protection type with every supported hash and key type",
  "Tests protect with default parameters; non-default hashes and salt lengths where header and computation disagree are not sampled.",
  ["resources/protectionutils.py", "resources/prepare_alg_ids.py", "resources/cryptoutils.py"],
  [("protect_pkimessage, _prepare_prot_alg_id, _compute_pkimessage_protection", "resources/protectionutils.py"), ("sign_data_with_alg_id, sign_rsa_pss_data_with_alg_id", "resources/protectionutils.py"),
   ("prepare_pbmac1_parameters, prepare_rsa_pss_alg_id, prepare_dh_based_mac_params", "resources/prepare_alg_ids.py"), ("sign_data, sign_data_rsa_pss", "resources/cryptoutils.py")],
  note=NOTE + " Primitives as in P01/P02: uninterpreted functions; a signature made by a native key is some value its verification accepts.")

P("H01", "CMP header and identifier checks accept exactly what RFC 9483 allows",
  "A response passes the identifier checks exactly if its transactionID is the request's (16 bytes), its recipNonce is the request's senderNonce and its own nonce is present and long enough. "
  "First requests, certConf messages, messages with added protection and batches (with their answers) are held to their own rules for identifiers and nonces, which must be distinct within a batch. "
  "Header checks accept exactly pvno 2 or 3, consistent protection fields, sender and senderKID that fit the protection, and implicitConfirm, confirmWaitTime, certProfile and messageTime where and as RFC 9483 permits them. "
  "Whatever is refused is refused with a validation error.",
  ["inputs"], "every transactionID, nonce, key identifier, name and generalInfo value (absent, of any length); every body type",
  "Tests check a few well-formed pairs and single deviations; combinations such as absent nonces, short equal nonces or duplicates inside a batch are not enumerated.",
  ["resources/checkutils.py"],
  [("validate_transaction_id, validate_sender_and_recipient_nonce, validate_sender_and_recipient", "resources/checkutils.py"),
   ("validate_nested_message_unique_nonces_and_ids, validate_ids_and_nonces_for_nested_response", "resources/checkutils.py"),
   ("validate_request_message_nonces_and_tx_id, validate_add_protection_tx_id_and_nonces", "resources/checkutils.py"),
   ("validate_pkimessage_header, check_generalinfo_field, validate_cert_profile_for_ca", "resources/checkutils.py"), ("validate_senderkid_for_cmp_protection, check_sender_cmp_protection", "resources/checkutils.py")],
  note=NOTE + " Batches are bounded to three messages (answers: two); times are checked on sampled offsets; names are a fixed set.")

P("H02", "Response checks accept exactly the CMP response bodies RFC 9483 allows",
  "A certificate response passes exactly if it has the expected number of entries, the right certReqId, and a status that fits its content: a certificate and no failInfo when granted, nothing when rejected. "
  "A private key is present exactly when central key generation was asked for, EnvelopedData needs pvno 3, and caPubs is accepted only where allowed and if its certificates are trust anchors that lead to the issued certificate. "
  "Revocation responses, confirmations, cross certification responses, body types (nested ones included) and the kind of protection are held to their rules, always looking at the response that was asked for. "
  "A granted certificate that differs from the template is accepted only with grantedWithMods. Checking never changes the message.",
  ["inputs"], "every certReqId, status and version; every combination of present and absent parts; every body type pair",
  "Tests check a few responses, mostly with one entry; a check that looks at another entry, or alters the message it checks, passes them.",
  ["resources/checkutils.py", "resources/cmputils.py"],
  [("validate_ca_message_body, validate_ca_msg_ca_pubs_field, validate_certified_key_pair_structure", "resources/checkutils.py"),
   ("check_rp_cmp_message_body, validate_pki_confirmation_message, check_for_granted_with_mods", "resources/checkutils.py"),
   ("validate_cmp_body_types, validate_wrong_integrity, validate_cross_certification_response", "resources/checkutils.py"),
   ("get_cert_from_pkimessage, get_pkistatusinfo, get_certreqid_from_pkimessage", "resources/cmputils.py")],
  note=NOTE + " Chain building and verification, template comparison and protection comparison are callees replaced by recording stand-ins; messages have at most two responses (batches three).")

P("A01", "One protection per exchange: algorithms match, are permitted and fit the key",
  "Comparing the MAC protection of request, response and confirmation accepts exactly equal algorithms with equal iteration count, hash, MAC and key length, whose salts are equal or different as asked; NULL for absent parameters only where tolerated. "
  "Signature protection of an exchange is accepted exactly if every message verifies under the first message's certificate key with one algorithm, and no message brings another protection certificate or chain. "
  "Classifying a protection gives its kind exactly for supported algorithms, and under the Lightweight profile only for those RFC 9481 permits. "
  "A signature algorithm identifier is accepted only with the parameters it demands, and fits a certificate exactly if its key type is the one the algorithm is for.",
  ["inputs"], "every salt, iteration count and key length (absent or present); every pair of MAC algorithms and parameter forms; every supported signature algorithm with every key type; every protection value and transactionID",
  "Tests compare a few pairs; asymmetries (a field present on one side only, the third message, another certificate with the same issuer) are not enumerated.",
  ["resources/protectionutils.py", "resources/checkutils.py", "resources/suiteenums.py"],
  [("mac_protection_algorithms_must_match, _compare_mac_params, _compare_pbm_parameters, _compare_pbmac1_parameters", "resources/protectionutils.py"),
   ("signature_protection_must_match, check_signature_alg_is_consistent, _check_is_same_chain", "resources/protectionutils.py"),
   ("get_protection_type_from_pkimessage, _enforce_lwcmp_protection_alg, _validate_sig_alg_id", "resources/protectionutils.py"),
   ("check_protection_alg_conform_to_spki, check_protection_alg_field", "resources/checkutils.py"), ("ProtectedType.get_protection_type", "resources/suiteenums.py")],
  note=NOTE + " DER is taken as injective (checked element by element). Names of certificates in chains are a fixed set; signatures as in P02.")
