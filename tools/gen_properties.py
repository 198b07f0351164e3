#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one line per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, tests, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": tests,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None,
                          **({"state": state} if state else {})}})

M = "pycose/messages/"
K = "pycose/keys/"
p("C01", "A signed message verifies after transport, with its content intact",
  "Every COSE_Sign1 and COSE_Sign message produced with legal keys and headers decodes to a message of the same type whose payload, headers and signer list equal what was put in, and on which verification with the matching public key and external data returns true, for every signature algorithm, header layout, payload and number of signers. This also holds after the unprotected header (other than a sole algorithm entry) is changed in transit, after a decoded message is encoded and decoded again without re-signing, and when signers are added or headers are updated before encoding.",
  ["inputs", "configurations", "histories"],
  "all signature algorithms x curves/key forms x header layouts x payload sizes x external data x tag on/off x 1..n signers x edit/encode/decode histories",
  "The vectors exercise a handful of fixed keys, payloads and header layouts; no test quantifies over sizes at CBOR length boundaries, leading-zero keys and signatures, several signers, or histories of edits before encoding.",
  [M+"sign1message.py", M+"signmessage.py", M+"signer.py", M+"signcommon.py", "pycose/algorithms.py"],
  [("signature structure construction and signing", M+"signcommon.py SignCommon.compute_signature / verify_signature"),
   ("signer/parent link", M+"signmessage.py _SignMessage.signers")],
  ["encode()/decode()/verify_signature() results"])
p("C02", "No altered signed message ever verifies",
  "For a valid COSE_Sign1 message or COSE_Sign signer, verification never returns true once any authenticated ingredient differs from what was signed: payload, encoded body protected header, encoded signer protected header, external data, signature bytes, verification key, algorithm, or the message kind (a signature made for one kind, another signer or another message does not carry over). Verification then returns false or raises; the only exception is the inherent negation symmetry of ECDSA signatures.",
  ["inputs"],
  "all valid messages x all single and combined alterations of authenticated data (bit flips at every signature byte, truncation, extension, substitution, transplant between messages, kinds and signers)",
  "Existing tests contain a few fail vectors only; rejection must hold for every alteration.",
  [M+"sign1message.py", M+"signer.py", M+"signcommon.py", M+"cosemessage.py", "pycose/algorithms.py"],
  [("Sig_structure covers context, protected headers, external data, payload", M+"sign1message.py / signer.py _create_sig_structure"),
   ("primitive verification", "pycose/algorithms.py _Ecdsa.verify, EdDSA.verify, _Rsa.verify")],
  ["verify_signature() verdict on altered messages"])
p("C03", "A MACed message verifies after transport, with its content intact",
  "Every COSE_Mac0 and COSE_Mac message produced with a legal key decodes to the same type, payload, headers and recipients, carries a tag of exactly the length its algorithm prescribes, and its tag verifies with the same key and external data, for every MAC algorithm, key length allowed for it, header layout and payload. Re-encoding a decoded message with the same key yields the same tag.",
  ["inputs", "configurations", "histories"],
  "all MAC algorithms x key lengths x header layouts x payload sizes x external data x tag on/off x re-encoding",
  "Vectors cover fixed inputs; block-boundary payloads, every key length and re-encoding histories are not sampled.",
  [M+"maccommon.py", M+"mac0message.py", M+"macmessage.py", "pycose/algorithms.py"],
  [("MAC structure and tag computation", M+"maccommon.py MacCommon.compute_tag / verify_tag")],
  ["encode()/decode()/verify_tag() results"])
p("C04", "No altered MACed message ever verifies",
  "For a valid COSE_Mac0 or COSE_Mac message, tag verification never returns true once the payload, the encoded protected header, the external data, the tag (flipped, truncated, extended, emptied or transplanted), the key, the algorithm or the message kind differs from what was authenticated.",
  ["inputs"],
  "all valid messages x all alterations of authenticated data",
  "Only a handful of fail vectors exist; every tag byte, every truncation length and kind confusion must be rejected.",
  [M+"maccommon.py", "pycose/algorithms.py", M+"cosemessage.py"],
  [("full-length tag comparison", "pycose/algorithms.py _HMAC.verify_tag, _AesMac.verify_tag"),
   ("MAC_structure covers context, protected header, external data, payload", M+"maccommon.py _mac_structure")],
  ["verify_tag() verdict on altered messages"])
p("C05", "An encrypted message decrypts after transport to exactly the plaintext",
  "Every COSE_Encrypt0 message, and every COSE_Encrypt message with direct recipients, produced with a legal key and nonce decodes to the same type, headers and recipients, and decryption with the same key and external data returns exactly the original plaintext, for every AEAD algorithm, header layout and payload size. The transmitted ciphertext is exactly the algorithm's tag length longer than the plaintext and never contains the plaintext, and a decoded message encoded again without re-encryption still decrypts.",
  ["inputs", "configurations", "histories"],
  "all AEAD algorithms x header layouts x payload sizes x external data x nonce sources x re-encoding",
  "Vectors cover fixed inputs; sizes, layouts, nonce sources and re-encoding histories are not quantified over.",
  [M+"enccommon.py", M+"enc0message.py", M+"encmessage.py", "pycose/algorithms.py"],
  [("AEAD invocation with Enc_structure", M+"enccommon.py EncCommon.encrypt / decrypt")],
  ["encode()/decode()/decrypt() results"])
p("C06", "No altered encrypted message ever decrypts",
  "For a valid COSE_Encrypt0 or COSE_Encrypt message, decryption raises, and never returns any plaintext, once the ciphertext or its tag (any byte, truncation, extension, removal), the encoded protected header, the external data, the nonce, the key, the algorithm (other than a CCM variant differing in nonce length only) or the message kind differs from what was authenticated.",
  ["inputs"],
  "all valid messages x all alterations of authenticated data",
  "A handful of fail vectors; rejection must hold for all alterations.",
  [M+"enccommon.py", "pycose/algorithms.py", M+"cosemessage.py"],
  [("Enc_structure as additional authenticated data", M+"enccommon.py _enc_structure"),
   ("AEAD decryption", "pycose/algorithms.py _AesGcm.decrypt, _AesCcm.decrypt")],
  ["decrypt() outcome on altered messages"])
p("C07", "Messages interoperate with an independent RFC 8152 implementation",
  "For all six message types and every supported signature, MAC and content encryption algorithm, the bytes the library emits are the structure RFC 8152 prescribes (message tag, array shape, empty protected header as zero-length string, parameters bound to the IANA identifier: hash, curve, padding, salt, tag and truncation length) and are accepted by an independent implementation. Conversely, every well-formed message that an independent implementation produces, including ones using any other valid CBOR encoding of the same items, is accepted by the library with the same payload and headers.",
  ["inputs", "programs"],
  "all message types x algorithms x headers x payloads x external data x valid CBOR encodings, in both directions",
  "Round-trip tests cannot see an error made on both sides, and the published vectors cover a fraction of algorithm/structure combinations and only one CBOR encoding.",
  [M+"cosemessage.py", M+"cosebase.py", M+"enccommon.py", M+"maccommon.py", M+"sign1message.py", M+"signer.py", "pycose/algorithms.py"],
  [("authenticated structures", M+"*: _enc_structure, _mac_structure, _create_sig_structure"),
   ("algorithm parameter tables", "pycose/algorithms.py")],
  ["encoded bytes", "verdicts on reference-made messages"])
p("C08", "Every listed recipient, and nobody else, recovers the message key",
  "For COSE_Encrypt and COSE_Mac messages whose recipients use AES key wrap, RSA-OAEP or ECDH with key wrap in any number and mix, or a single direct key agreement, each recipient's own key recovers one and the same content key of the algorithm's length and with it the plaintext or tag verification, also as computed by an independent implementation and after the message is encoded repeatedly or recipients are added, replaced or given a preset key. Content keys and ephemeral keys are fresh for every message. A wrong key, another recipient's key, a recipient not belonging to the message, or an altered wrapped key or ephemeral key never yields the plaintext.",
  ["inputs", "configurations", "histories"],
  "all recipient algorithms x curves x RSA sizes x target algorithms x 1..n recipients x histories of adding/replacing recipients and re-encoding x alterations",
  "Tests use at most one vector per recipient kind; mixes, orders and histories are unsampled.",
  [M+"recipient.py", M+"encmessage.py", M+"macmessage.py", "pycose/algorithms.py"],
  [("CEK distribution loop", M+"encmessage.py EncMessage.encrypt; macmessage.py MacMessage.compute_tag"),
   ("wrap/unwrap", M+"recipient.py KeyWrap, KeyAgreementWithKeyWrap, DirectKeyAgreement")],
  ["recipient.decrypt / compute_cek / message.decrypt results", "encoded recipients"])
p("C09", "Key agreement binds the derived key to the complete KDF context",
  "For all ECDH algorithms (ephemeral and static, direct and with key wrap) and all supported NIST curves the derived key equals an independent ECDH + HKDF computation over the RFC 8152 context: target algorithm, key length, both parties' identity/nonce/other, the recipient's encoded protected header, supplementary public and private information, and the salt. Sender and receiver derive equal keys exactly when all of these agree.",
  ["inputs", "configurations"],
  "all ECDH algorithms x curves x target algorithms x presence and values of every context field, protected or unprotected, and every single-field disagreement",
  "Vectors fix the context; no test changes each field in turn or computes the key independently.",
  [M+"context.py", M+"recipient.py", "pycose/algorithms.py"],
  [("context construction", M+"recipient.py CoseRecipient.get_kdf_context; context.py"),
   ("HKDF", "pycose/algorithms.py _EcdhHkdf.derive_kek")],
  ["compute_cek / get_kdf_context().encode() / message.decrypt"])
p("C10", "Protected headers keep their exact bytes until they are changed",
  "The encoded protected header of a decoded message, signer or recipient is kept byte for byte, however it was encoded, and is what is authenticated and what is emitted when encoding again, no matter how often it is read, verified, decrypted or re-encoded or how the unprotected header changes. Replacing or updating the protected header makes the next encoding and authentication reflect exactly the new content.",
  ["histories", "inputs"],
  "all encodings of protected headers at every layer x all sequences of decode, read, verify, update, replace and encode",
  "One test checks one re-encoding of one message; encodings, layers and update histories are unbounded.",
  [M+"cosebase.py", M+"cosemessage.py", M+"signer.py", M+"recipient.py"],
  [("cached encoding and its invalidation", M+"cosebase.py phdr setter, phdr_update, phdr_encoded")],
  ["raw protected bytes on the wire"],
  [{"name": "cached protected encoding", "meaning": "wire bytes of the protected header or none", "where": M+"cosebase.py _phdr_encoded"}])
p("C11", "Headers survive transport and are validated at every layer",
  "Header parameters may be named by class, registered integer or registered name interchangeably when a message is built or its headers are assigned or updated, and any header map (registered or custom labels, nested values, either bucket) comes back from transport equal. When unknown attributes are disallowed, an unregistered label in any bucket of the body, of any signer or of any recipient is refused; unregistered algorithms and ill-typed key ids, key id contexts, IVs, partial IVs, content types, critical lists and embedded keys are refused in every layer in both modes.",
  ["inputs", "configurations"],
  "all header maps x label spellings x layers x strict/lenient mode x entry points (constructor, assignment, update, decode)",
  "Tests sample a few labels at the top layer only.",
  [M+"cosebase.py", "pycose/headers.py", "pycose/utils.py", M+"recipient.py", M+"signer.py"],
  [("header parsing", M+"cosebase.py _parse_header"), ("value parsers", "pycose/headers.py"), ("attribute lookup", "pycose/utils.py from_id")],
  ["decoded header maps", "exceptions"])
p("C12", "A header lookup is never ambiguous",
  "Looking up a header parameter returns the value from whichever bucket holds it, the given default when neither does, and raises when both buckets hold it, whatever the values (including empty or zero ones) and whatever the default. Consequently no sign, verify, MAC or encryption operation ever proceeds with an algorithm or IV that appears in both buckets.",
  ["inputs", "histories"],
  "all parameters x bucket placements x values x defaults, after any sequence of header edits, on all message kinds, signers and recipients",
  "Tests check a single duplicated parameter.",
  [M+"cosebase.py"], [("bucket lookup", M+"cosebase.py get_attr")], ["get_attr results", "operation outcomes"])
p("C13", "Key restrictions are enforced on every cryptographic operation",
  "Signing, verifying, MAC creation and verification, encryption, decryption, key wrapping and unwrapping, and key derivation succeed only with a key of the type the algorithm requires, whose algorithm restriction (if any) names that algorithm, whose operation restriction (if any) permits that operation, and whose curve or symmetric length fits the algorithm; otherwise they raise without producing output. With a key that satisfies all of these they are not refused.",
  ["inputs", "configurations"],
  "all operations x message kinds x algorithms x key types x algorithm restrictions x operation restriction lists (single, several, all) x ways of setting them",
  "Tests check a few combinations for two message kinds; the matrix has thousands of cells.",
  [K+"cosekey.py", M+"signcommon.py", M+"maccommon.py", M+"enccommon.py", M+"recipient.py", "pycose/algorithms.py"],
  [("key verification", K+"cosekey.py CoseKey.verify"), ("call sites", M+"*: .verify(KeyType, alg, [ops])"),
   ("length and curve checks", "pycose/algorithms.py")],
  ["outcome of each operation"])
p("C14", "COSE_Key objects survive encoding and match their CBOR form",
  "Encoding any EC2, OKP, RSA or symmetric key, public or private, with any optional and custom parameters, yields the CBOR map RFC 8152/8230 prescribes for it, and decoding any valid encoding of that map yields a key of the right class with identical parameters, coordinates and secrets, including values with leading zero bytes. Building the key from a dictionary gives the same key whether parameters and values are written as classes, registered integers or registered names, and invalid maps (missing or contradictory type, missing curve or key material, wrong curve family, illegal symmetric key length, incomplete RSA private key, unknown algorithm or operations, ill-typed key id, base IV or key material) are refused. Key bytes converted to BASE64 text and back, in either alphabet, padded or not, come out unchanged.",
  ["inputs", "programs"],
  "all key types x curves x parameter subsets x spellings x CBOR encodings",
  "Tests use fixed keys and one encoding.",
  [K+"cosekey.py", K+"ec2.py", K+"okp.py", K+"rsa.py", K+"symmetric.py", K+"keyparam.py"],
  [("from_dict / encode", K+"*.py")], ["key.encode() bytes", "decoded key parameters"])
p("C15", "Key objects stay valid under any sequence of edits",
  "After any sequence of attribute assignments, deletions and dictionary operations a key still has its type, a curve of its family (where applicable) and its essential key material parameters. A deletion that would break this, or an attribute assignment of an illegal type, curve, symmetric key length, value type or operation list, raises and leaves the key exactly as it was, and an accepted edit is what reading and encoding the key show afterwards.",
  ["histories", "inputs"],
  "all edit sequences over all key types and parameters, with legal and illegal values in every spelling",
  "Tests perform single edits on one key per type.",
  [K+"cosekey.py", K+"ec2.py", K+"okp.py", K+"rsa.py", K+"symmetric.py"],
  [("setters and deletion guards", K+"*.py setters, __delitem__")], ["key parameters and encoding after each step"])
p("C16", "PEM import and key generation yield exactly the right keys",
  "Importing a PEM private (any supported container, encrypted or not) or public key yields a COSE key of the right type and curve whose components equal the imported key's, with fixed-length coordinates, so that signatures and key agreements made with one are accepted with the other; unsupported key kinds and curves are refused. Generated keys have the requested type, curve or size, carry the requested optional parameters, are valid and are never repeated.",
  ["inputs", "configurations"],
  "all curves, RSA sizes, PEM containers and optional parameters; keys with leading-zero components",
  "Tests import a few fixed files; one key in 256 has a leading zero component.",
  [K+"cosekey.py", K+"ec2.py", K+"okp.py", K+"rsa.py", K+"symmetric.py"],
  [("conversion", K+"*: _from_cryptography_key, generate_key")], ["components of the resulting keys"])
p("C17", "Inconsistent or invalid elliptic curve keys are never used",
  "A private EC2 key whose public coordinates do not belong to its private value is refused; a key given with the X coordinate alone, or with the sign of Y, gets a Y that lies on the curve and has that sign; and points that are not on the key's curve, coordinates outside the field, private values outside the group order and key agreements between different curves are refused at construction or at the latest before a signature is accepted or a shared secret derived. This does not depend on interpreter optimisation settings.",
  ["inputs", "configurations"],
  "all curves x private/public/compressed forms x perturbed and adversarial coordinates x verify and derive operations x -O on/off",
  "Tests use valid keys and two mismatches; invalid-curve inputs are unbounded.",
  [K+"ec2.py", "pycose/algorithms.py"],
  [("consistency checks", K+"ec2.py EC2Key.__init__"), ("point validation", "pycose/algorithms.py _Ecdsa.verify, _EcdhHkdf._ecdh")],
  ["construction outcome", "verify/derive outcome"])
p("C18", "Registered identifiers and names match the IANA registries one to one",
  "Every supported header parameter, algorithm, curve, key type, key operation and key parameter has the identifier the IANA COSE registries assign to it, and looking it up by identifier, by name in any letter case or by class gives that same attribute and no other, independently per registry. Unknown identifiers and names are refused, or passed through unchanged where unknown attributes are allowed, and using the library never alters these registries.",
  ["inputs", "histories"],
  "all registry entries and spellings, and all unknown integers, strings and other values",
  "Tests look at some entries; nothing checks the complete tables or non-members.",
  ["pycose/utils.py", "pycose/headers.py", "pycose/algorithms.py", K+"keyparam.py", K+"keyops.py", K+"keytype.py", K+"curves.py"],
  [("registration and lookup", "pycose/utils.py _CoseAttribute")], ["from_id results", "encoded identifiers"])
p("C19", "Decoding arbitrary bytes gives a well-formed message or an exception",
  "Decoding any byte string terminates and either raises an ordinary exception or returns a message object of the type its CBOR tag denotes, whose headers are maps, whose payload is a byte string or absent and whose signature or tag is a byte string, at every layer. Decoding through a specific message class never returns a message of another type, untagged or unknown-tagged data is refused, and a failed decode has no effect on later decodes.",
  ["inputs", "histories"],
  "all byte strings: random, structurally mutated valid messages, type-confused, truncated, deeply nested",
  "Tests feed well-formed vectors and one mismatched tag.",
  [M+"cosemessage.py", M+"cosebase.py", M+"*message.py", M+"recipient.py", M+"signer.py"],
  [("tag dispatch and type checks", M+"cosemessage.py decode; cosebase.py __init__; payload setter")],
  ["decode() outcome and object types"])
p("C20", "Operations are pure, repeatable and isolated between messages",
  "Encoding, verifying, decrypting, key import and lookup do not modify the dictionaries, lists, keys or byte strings the caller supplied, repeating an operation gives the same outcome (the same bytes for deterministic algorithms), and a header map assigned to a message is independent of later changes to the caller's object. Operations on different messages and keys, interleaved in any order or run in concurrent threads, even sharing keys, give the results each would give alone.",
  ["histories", "schedules", "inputs"],
  "all interleavings of operations on several messages and keys, and concurrent thread schedules",
  "Tests run one message at a time, single-threaded, and never compare snapshots of inputs.",
  [M+"cosebase.py", M+"cosemessage.py", M+"context.py", M+"recipient.py", K+"cosekey.py", "pycose/utils.py"],
  [("copying at the API boundary, no shared mutable state", M+"*.py, "+K+"*.py")], ["snapshots of inputs, results per operation"])
p("C21", "The nonce is the IV, or the base IV combined with the partial IV",
  "Encryption and decryption use exactly the IV header when present (from either bucket), and otherwise the key's base IV XORed with the partial IV left-padded to the base IV's length, always keeping that full length, for all values including ones with leading zeros. If neither source is complete, or the partial IV is longer than the base IV, encryption and decryption raise instead of using another nonce.",
  ["inputs", "configurations"],
  "all IV/base IV/partial IV values, lengths and placements x AEAD algorithms x message kinds",
  "No test covers a partial IV; only fixed IVs are used.",
  [M+"enccommon.py", K+"cosekey.py"], [("nonce derivation", M+"enccommon.py _get_nonce")], ["ciphertext checked with independently computed nonce"])
p("C22", "Detached payloads authenticate exactly like attached ones",
  "A signature made over a detached payload is encoded with a nil payload and verifies exactly when the same payload is supplied at verification or attached to the decoded message; detaching or attaching never changes the signed bytes. Signing or verifying with neither an attached nor a supplied payload, or with both, raises, and MAC tags or plaintexts are never produced from an absent payload while a payload re-attached after transport works normally.",
  ["inputs", "histories"],
  "all payloads (including empty) x Sign1/Sign/Mac/Encrypt x attach/detach histories",
  "Tests cover one payload and a few steps.",
  [M+"sign1message.py", M+"signer.py", M+"signmessage.py", M+"maccommon.py"],
  [("payload selection", M+"sign1message.py / signer.py _create_sig_structure")], ["encode/verify outcomes"])
p("C23", "Recipient structures obey the rules of their recipient class",
  "Both building and decoding enforce: direct encryption carries no ciphertext, no nested recipients, no protected header (for plain direct) and is never mixed with other recipient classes; direct key agreement is the only recipient, has no nested recipients and, if ephemeral, an ephemeral key; AES key wrap has an empty protected header; wrapping classes carry a wrapped key; and every recipient names a recipient algorithm. A structure violating one of these is refused before any key or plaintext is produced, and conforming ones are accepted with the right class.",
  ["inputs", "configurations"],
  "all recipient algorithms x rule violations x encode/decode/encrypt/decrypt entry points x mixes of recipients",
  "Tests only use conforming structures.",
  [M+"recipient.py", M+"encmessage.py", M+"macmessage.py"],
  [("class rules", M+"recipient.py from_cose_obj / encode / verify_recipients")], ["exceptions and classes of decoded recipients"])
p("C24", "Certificate thumbprints and X.509 header items are exact",
  "For every hash algorithm the thumbprint of a certificate equals the independently computed (and, where defined, truncated) digest of its bytes, matches that certificate and no other, and survives its header encoding; certificate bags, chains and URIs encode to a single byte string for one certificate, the ordered list for several, and the same text for a URI.",
  ["inputs"],
  "all hash algorithms x certificate byte strings (raw and CBOR-wrapped) x list lengths",
  "One test with one hash and one certificate.",
  ["pycose/extensions/x509.py", "pycose/algorithms.py"],
  [("thumbprint", "pycose/extensions/x509.py X5T"), ("hash algorithms", "pycose/algorithms.py _HashAlg.compute_hash")], ["encode()/matches() results"])
p("C25", "Chain verification accepts only certificate chains that are valid",
  "Verifying a certificate chain succeeds for chains that lead from the first certificate through the supplied intermediates to a trusted root, are within their validity period and permit the required key usage, whether verification is requested at construction or later and whether the chain is given as one certificate or a list. It raises for every chain with a missing, wrong, expired, not yet valid, non-CA, tampered or untrusted link, or whose first certificate does not permit the required key usage.",
  ["inputs", "configurations"],
  "generated certificate hierarchies of depth 1..4 x defects at every position x key usages",
  "No test verifies any chain.",
  ["pycose/extensions/x509.py"], [("delegation to path validation", "pycose/extensions/x509.py X5Chain.verify_chain")], ["verify_chain outcome"])
p("C26", "Printing never fails and never reveals secret key material",
  "Converting any message, signer, recipient or key to text succeeds in every state (fresh, encoded, decoded, detached, with custom headers or parameters) and names its kind; the text never contains a complete secret key value, nor more than a short prefix of a payload, ciphertext, tag or signature.",
  ["inputs", "histories"],
  "all objects x states x header/parameter contents",
  "Tests never print objects.",
  [M+"*.py", K+"*.py", "pycose/utils.py"],
  [("truncating representations", "pycose/utils.py truncate; __repr__ methods")], ["repr() output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
