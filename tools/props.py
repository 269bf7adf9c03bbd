"""Single source of properties.jsonl and MANIFEST.json (tools/gen.py writes them)."""

P = []


def p(id, title, statement, over, text, why, files, mech, technique, level_note, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level_note=level_note, thorough=thorough))


M = "pycose/messages/"
p("C01", "Signatures cover exactly the RFC 8152 Sig_structure",
  "Whatever a COSE_Sign1 message or a COSE_Sign signer signs or verifies is exactly the serialised RFC 8152 Sig_structure: "
  "the context string of the structure, the protected header of the message as a byte string (empty string when empty), for "
  "COSE_Sign also the signer's own protected header, the externally supplied data, and the payload (or the detached payload "
  "handed to the call); with neither, nothing is signed or verified. Nothing is left out, added, reordered or taken from another object.",
  ["inputs", "histories"],
  "every payload, external data, header content and header history, every signature algorithm and key type, attached and "
  "detached payload, any number of signers",
  "The tests sign and verify a few dozen example messages with the same code on both sides; a field missing from both sides, "
  "or wrong only when a header is empty or a payload detached, passes every round trip.",
  [M + "sign1message.py", M + "signmessage.py", M + "signer.py", M + "signcommon.py", M + "cosebase.py"],
  [("SignCommon.compute_signature/verify_signature", M + "signcommon.py"), ("_sig_structure", M + "sign1message.py, " + M + "signer.py")],
  "gated value-flow analysis of the bytes reaching signing primitives, compared with a specification term",
  "the operand of every library sign/verify call reachable from the public operations is compared, as a term over the "
  "message's state, with the serialised Sig_structure; holds for every state of the message. Library primitives are trusted.")
p("C02", "MACs cover exactly the RFC 8152 MAC_structure",
  "Whatever a COSE_Mac or COSE_Mac0 message authenticates is exactly the serialised RFC 8152 MAC_structure: the context string "
  "of the structure, the protected header of the message as a byte string, the externally supplied data and the payload (without "
  "one, nothing is authenticated). "
  "The tag is the specified leading part of the output of the MAC primitive over that structure, when computing and when "
  "verifying.",
  ["inputs", "histories"],
  "every payload, external data and header content, every MAC algorithm, with and without recipients",
  "Tests compare a few vectors; both directions share the structure builder, so an omission is invisible to round trips.",
  [M + "mac0message.py", M + "macmessage.py", M + "maccommon.py", "pycose/algorithms.py"],
  [("MacCommon.compute_tag/verify_tag", M + "maccommon.py"), ("_HMAC, _CBCMAC", "pycose/algorithms.py")],
  "gated value-flow analysis of the bytes reaching MAC primitives, compared with a specification term",
  "bytes fed to every keyed stream reached from the public operations compared with the serialised MAC_structure term")
p("C03", "AEAD associated data is exactly the RFC 8152 Enc_structure",
  "The associated data of every content encryption and decryption is exactly the serialised RFC 8152 Enc_structure (context "
  "string of the message type, protected header as a byte string, externally supplied data), and the operand is the message's "
  "payload. What is emitted or returned is the result of that primitive call.",
  ["inputs", "histories"],
  "every payload, external data, header content and history, every AEAD algorithm, COSE_Encrypt and COSE_Encrypt0, every "
  "recipient class",
  "Round-trip tests use the same structure builder on both sides; only a handful of fixed vectors pin it down.",
  [M + "enc0message.py", M + "encmessage.py", M + "enccommon.py", "pycose/algorithms.py"],
  [("EncCommon.encrypt/decrypt/_enc_structure", M + "enccommon.py"), ("_AesGcm, _AesCcm", "pycose/algorithms.py")],
  "gated value-flow analysis of AEAD operands, compared with a specification term",
  "associated-data, data and result terms of every AEAD call reached from the public operations compared with the specification")
p("C04", "Nothing is reported authentic unless the primitive accepted it",
  "A signature or tag verification reports success, and a content or key decryption returns, only when the cryptographic "
  "primitive accepted the signature, the full-length tag or the ciphertext stored in the message. No error, empty value, type "
  "confusion or truncated comparison turns into acceptance.",
  ["inputs", "fault_sequences"],
  "every stored signature/tag/ciphertext including empty, short and malformed ones, every algorithm, every way the primitive "
  "may fail",
  "Tests tamper with a few bytes of a few messages; acceptance for any other malformed tag or primitive failure is unsampled.",
  [M + "signcommon.py", M + "maccommon.py", M + "enccommon.py", M + "recipient.py", "pycose/algorithms.py"],
  [("verify methods of the algorithms", "pycose/algorithms.py"), ("verify_signature, verify_tag, decrypt", M)],
  "dominance of accepting outcomes by primitive acceptance (guarded path analysis)",
  "the path condition of every accepting outcome has to imply the acceptance of the library call on the stored value")
p("C05", "A key is only used for what its type, algorithm and operations permit",
  "A cryptographic operation is carried out with a key only if the key is of the type the algorithm needs, the algorithm "
  "recorded in the key (if any) is that algorithm, and the operations recorded in the key (if any) include a permitted one; "
  "otherwise it is refused before any primitive runs. A key that does permit the operation is not refused on these grounds.",
  ["inputs", "configurations"],
  "every key class, recorded algorithm and set of recorded operations, for every algorithm, message type, recipient class and "
  "direction",
  "The combinations of operation, algorithm, key type and recorded restrictions number in the thousands; tests try a few.",
  ["pycose/keys/cosekey.py", M + "signcommon.py", M + "maccommon.py", M + "enccommon.py", M + "recipient.py", "pycose/algorithms.py"],
  [("CoseKey.verify", "pycose/keys/cosekey.py"), ("callers of verify before each primitive", M)],
  "typestate / guard analysis of primitive calls over key restrictions",
  "for each operation the guard of the primitive call is decided unsatisfiable for each class of impermissible key, satisfiable "
  "for permitted ones, and to imply the permission condition for a key in an arbitrary state")
p("C06", "Primitives get the key material of the key that was supplied",
  "Each cryptographic primitive receives the key material of exactly the key object set for the operation: the private part of "
  "that key for signing, key agreement and unwrapping, its public part for verification and wrapping, the symmetric bytes as "
  "they stand; no component is swapped, truncated, re-encoded or taken from another key.",
  ["inputs"],
  "every key value of every key type, for every algorithm that uses it",
  "A swapped or mangled component that is used consistently on both sides still round-trips; interoperability is lost for all "
  "but sampled values.",
  ["pycose/algorithms.py", M + "recipient.py", "pycose/keys/rsa.py", "pycose/keys/ec2.py", "pycose/keys/okp.py"],
  [("sign/verify/wrap implementations", "pycose/algorithms.py"), ("key properties", "pycose/keys/")],
  "value-flow analysis of key operands of library primitives",
  "the term of every key operand is compared with the specified component of the key in use; big-endian integers via int.from_bytes")
p("C07", "The authenticated protected header is the transported one",
  "The serialised protected header used for authentication and emitted by encoding is the byte string that was received for as "
  "long as the header is unchanged, and the serialisation of the current header once it was created or changed through the "
  "public interface; no operation (computing, verifying, encrypting, encoding) changes it, and changes of the unprotected "
  "header never affect it.",
  ["inputs", "histories"],
  "every history of construction, reception, header updates and replacements and operations, any header content including "
  "non-canonical encodings; messages, signers and recipients",
  "Re-serialisation agrees with the received bytes in all sample vectors; only non-canonical encodings and specific update "
  "orders expose a stale or re-encoded header.",
  [M + "cosebase.py"],
  [("phdr_encoded, _is_decoded, phdr_update, setters", M + "cosebase.py")],
  "history-indexed value-flow analysis of the serialised protected header",
  "fifteen kinds of public history per message class and five per signer/recipient with symbolic header contents; each operation "
  "analysed after each")
p("C08", "A header parameter carried in both buckets is refused",
  "Looking up a header parameter yields the value of the one bucket that carries it, the default when none does, and raises a "
  "COSE exception exactly when both the protected and the unprotected header carry it; no cryptographic operation is carried "
  "out with an algorithm or nonce parameter present in both.",
  ["inputs", "configurations"],
  "every header parameter, every content of the two buckets, every message, signer and recipient class",
  "Which of two conflicting values wins is only visible on messages no test constructs.",
  [M + "cosebase.py"],
  [("get_attr", M + "cosebase.py")],
  "guarded value-flow analysis of header lookup against a specification",
  "result and raise condition of the lookup equal the specification on arbitrary buckets; guards of primitive calls unsatisfiable")
p("C09", "Header parameter values are validated and resolved in both buckets",
  "A message, signer or recipient can be constructed or decoded with a format-restricted header parameter (algorithm, critical "
  "list, content type, key id, IV, partial IV, countersignature0, KID context, ephemeral and static key) only if its value is "
  "permitted; the object then holds that value, registered algorithm identifiers and names resolved to the registered "
  "algorithm and key maps to key objects, in the bucket that carried it. Permitted values and unrestricted parameters are "
  "kept unchanged; unregistered labels are refused unless unknown attributes are allowed.",
  ["inputs"],
  "every value of every header parameter, both buckets, every message, signer and recipient class, by constructor and decode",
  "Tests put one or two values into one bucket of one message class; the value space is unbounded and a lost check only "
  "admits values no test carries.",
  ["pycose/headers.py", M + "cosebase.py", M + "cosemessage.py", M + "recipient.py"],
  [("_parse_header", M + "cosebase.py"), ("value parsers", "pycose/headers.py")],
  "guarded value-flow analysis of header parsing against format predicates",
  "completion condition and stored value compared with the specification per parameter, bucket, class and entry point; "
  "complete table of registered algorithm identifiers. Updates after construction are outside the statement.")
p("C10", "Decoding dispatches on the CBOR tag and refuses anything else",
  "Decoding returns an instance of exactly the message class registered for the CBOR tag of the received item, and only when "
  "it is the class decode was called on or a subclass; untagged items, unregistered or other classes' tags, non-array "
  "contents and arrays lacking a mandatory element are refused with an exception and never yield a message object.",
  ["inputs"],
  "every tag, every class decode is called on, every kind and length of content",
  "Tests try a few wrong tags; which class an arbitrary tag or a malformed array yields is unsampled.",
  [M + "cosemessage.py", M + "cosebase.py"],
  [("CoseMessage.decode, record_cbor_tag", M + "cosemessage.py"), ("from_cose_obj", M)],
  "guarded value-flow analysis of message dispatch",
  "class of the result and refusal condition decided for each registered tag, an arbitrary other tag, untagged items of each "
  "CBOR type, non-array contents and truncated arrays")
p("C11", "The emitted and accepted arrays are those of RFC 8152",
  "Encoding emits exactly the elements of the RFC 8152 array of the message class in order: protected header bytes, "
  "unprotected map, payload or ciphertext (nil when detached), signature or tag, signers or recipients in the order of the "
  "message, wrapped in the CBOR tag of the class exactly when asked; inner signers and recipients are 3-element arrays of "
  "their own fields. Decoding puts each element into the attribute it belongs to. Registered attributes are serialised by "
  "their integer identifier (algorithms by name on request).",
  ["inputs", "configurations"],
  "every content of every field, every message class, 0 to 3 signers or recipients, every recipient class, all encode flags",
  "Encoder and decoder agree with each other in round trips; a wrong order, dropped element or wrong identifier for one of "
  "the classes or counts not in the sample vectors is not seen.",
  [M + "sign1message.py", M + "signmessage.py", M + "mac0message.py", M + "macmessage.py", M + "enc0message.py",
   M + "encmessage.py", M + "signer.py", M + "recipient.py", M + "cosebase.py", M + "cosemessage.py"],
  [("encode", M), ("from_cose_obj", M), ("_custom_cbor_encoder", M + "cosebase.py")],
  "value-flow analysis of the serialised array and of decoded attributes against a layout table",
  "element terms of the emitted structure and attribute terms of the decoded object compared position by position with "
  "symbolic contents; counts of inner structures bounded by 3")
p("C17", "The AEAD nonce is the IV, or Base IV xor Partial IV",
  "The nonce of every content encryption and decryption is the value of the message's IV parameter, or, without one, the "
  "key's Base IV exclusive-or the Partial IV left-padded with zeros to the length of the Base IV (RFC 8152 3.1). When neither "
  "is defined, or the Partial IV is longer than the Base IV, the operation is refused before any cipher is called; a content "
  "key derived for a recipient carries no Base IV.",
  ["inputs", "histories"],
  "every IV, Partial IV and Base IV value and length, both buckets, both classes, constructed, updated and received messages, "
  "every way of giving a key its Base IV, every recipient class",
  "Tests use one IV; a nonce built wrongly for one length of the Partial IV or one placement still decrypts in a round trip "
  "because both directions agree, yet repeats a nonce or fails to interoperate.",
  [M + "enccommon.py", M + "encmessage.py", M + "enc0message.py", "pycose/keys/cosekey.py"],
  [("_get_nonce", M + "enccommon.py"), ("base_iv", "pycose/keys/cosekey.py")],
  "gated value-flow analysis of the nonce operand, compared with a specification term",
  "nonce term and its definedness condition compared with the specification at every AEAD call, for symbolic values and "
  "lengths; the nonce length required by an algorithm is left to the library")
p("C18", "Every algorithm identifier runs its registered primitive and parameters",
  "Every operation performed under a registered algorithm identifier uses the hash, curve, RSA padding with its mask generation "
  "and salt, HKDF hash, cipher mode, zero IV and zero padding of CBC-MAC, tag length, tag truncation (leftmost bytes) and "
  "wrapping key length which the COSE registrations (RFC 8152, 8230, 9053, 9054) give for that identifier, on the producing and "
  "the consuming side alike, and refuses AES keys of any other length.",
  ["inputs", "configurations"],
  "every registered algorithm identifier, both directions, every key and every input length (all residues modulo the block size)",
  "Both directions share the parameter, so a wrong salt length, tag length or padding byte still round-trips; vectors exist for "
  "some of the identifiers only, and key lengths that must be refused are not sampled.",
  ["pycose/algorithms.py"], [("algorithm classes", "pycose/algorithms.py")],
  "value-flow analysis of primitive operands against a table of algorithm registrations",
  "operands and reachability of each library primitive, per identifier and side, compared with the registered row; trusts the "
  "library's implementation of the primitives")
p("C15", "Key derivation is bound to the RFC 8152 key derivation context",
  "Every key derived through key agreement comes out of HKDF with exactly the serialised COSE_KDF_Context of RFC 8152 section 11.2 "
  "as info: identifier of the algorithm the derived key is for, PartyU and PartyV identity, nonce and other information of the "
  "recipient structure, derived key length in bits, the protected header bytes of the recipient structure, and, when given, the "
  "supplementary public and private information; with the length of that key as output length and the Salt header parameter as "
  "salt. Sender and receiver build the same context from the same recipient structure.",
  ["inputs", "configurations"],
  "every key-agreement algorithm and content algorithm, every value and placement of the party, salt and supplementary "
  "parameters, every protected header (empty, constructed, received), sending and receiving",
  "A dropped or swapped context field agrees with itself in a round trip; interoperability vectors leave most fields unset.",
  [M + "recipient.py", M + "context.py", "pycose/algorithms.py"],
  [("CoseRecipient.get_kdf_context", M + "recipient.py"), ("CoseKDFContext", M + "context.py"), ("_EcdhHkdf.derive_kek", "pycose/algorithms.py")],
  "gated value-flow analysis of HKDF operands, compared with a specification term",
  "info, length and salt of every HKDF call compared as terms over the recipient's state; an explicitly empty supplementary "
  "field counts as absent")
p("C16", "Key agreement combines own private and peer public key on one curve",
  "Every ECDH exchange combines the private value of the recipient structure's own key (or of a freshly generated ephemeral key "
  "on the peer's curve) with the public coordinates of the peer key: the static receiver key when sending, the key carried in "
  "the header the algorithm prescribes when receiving. Keys on different curves are refused. The header carries the public part "
  "of exactly the ephemeral key that was used, and no private value; the shared secret goes into the key derivation unchanged, "
  "and the derived key is the one that encrypts, authenticates or wraps.",
  ["inputs", "configurations"],
  "every key-agreement algorithm, curve pair, key content and header content; sending with supplied and with fresh ephemeral "
  "keys, receiving",
  "Tests use a few matching key pairs; using a wrong operand, another curve or another ephemeral key than the one announced "
  "shows for particular combinations only, and a private value left in a header never fails a test.",
  [M + "recipient.py", "pycose/algorithms.py", "pycose/keys/ec2.py"],
  [("_EcdhHkdf.derive_kek", "pycose/algorithms.py"), ("DirectKeyAgreement, KeyAgreementWithKeyWrap", M + "recipient.py")],
  "value-flow analysis of exchange, derivation and key-use operands, with path conditions",
  "operand terms of every exchange compared with the terms of the keys set through the public API; a user-supplied ephemeral key "
  "is not compared with a header the user also supplied")
p("C12", "Encrypted messages reveal payload and keys only through primitives",
  "The bytes produced by encoding an encrypted message with protection switched on (COSE_Encrypt0, COSE_Encrypt), or a COSE_Mac "
  "message or recipient structure, contain the payload of the encrypted message, the content key, wrapping keys, derived and "
  "agreed secrets, fresh random key bytes and private key values only inside the output of an encryption, wrapping or "
  "authentication primitive. Direct recipients emit an empty ciphertext whatever their payload field holds, a generated ephemeral "
  "key appears without its private value.",
  ["inputs", "configurations", "histories"],
  "every content algorithm, every recipient kind and pairs of kinds, nested recipients, fresh and supplied keys, every header, "
  "payload and recipient state, tagged and untagged",
  "A message that leaks its key still decrypts, so no round-trip test notices; leaks depend on header, recipient or key state.",
  [M + "recipient.py", M + "encmessage.py", M + "enc0message.py", M + "macmessage.py"],
  [("encode of messages and recipients", M + "recipient.py, " + M + "encmessage.py")],
  "information-flow (taint) analysis over gated value-flow terms",
  "secret terms searched in the term of the emitted bytes, primitives being the only declassifiers; values the user puts into a "
  "header are the user's; flows through control (length, presence) are not tracked")
p("C13", "One fresh content key for all wrapping recipients",
  "When a COSE_Encrypt or COSE_Mac message is produced for key-wrapping recipients, the key that protects the content is the very "
  "byte string wrapped for every recipient. It is the content key the sender placed in the recipient structures or, when none is "
  "there, bytes drawn for this message from the system's random source, as many as the content algorithm's key has. Recipient "
  "structures carrying different content keys are refused.",
  ["inputs", "configurations", "histories"],
  "every wrapping algorithm and content algorithm, one to three recipients of mixed kinds with and without chosen content keys, a "
  "second message after a first one, every message state",
  "Tests use one recipient or equal content keys; a key that is short, reused, or different for the second recipient still "
  "round-trips for the recipient that is tested.",
  [M + "encmessage.py", M + "macmessage.py", M + "recipient.py"],
  [("EncMessage.encrypt", M + "encmessage.py"), ("MacMessage.compute_tag", M + "macmessage.py")],
  "value-flow analysis relating random sources, wrapping operands and content-key operands",
  "operand terms compared under path conditions; up to three recipients; the quality of os.urandom is trusted; nested recipient "
  "layers (a key-wrapping recipient without a key of its own) are not covered")
p("C14", "Recipient structures obey the structural rules of their class",
  "A direct-encryption recipient structure has no protected header (alg Direct), a zero-length ciphertext, holds no further recipient "
  "structures and is not mixed with other kinds; an AES key-wrap structure has no protected header; structures that transport a "
  "wrapped key have a non-empty ciphertext when received; direct key agreement is the only recipient structure of its message, is "
  "sent with a zero-length ciphertext, announces its ephemeral key and, when received, holds no further structures. Whatever "
  "violates these rules is refused when encoding, producing, decrypting and decoding, at every nesting depth, as is a structure "
  "without or with a foreign algorithm. Decryption works only for recipient structures that are part of the message, at any depth, and only "
  "recipient objects can be put into a recipient list.",
  ["inputs", "configurations"],
  "every recipient algorithm in either header, every header, ciphertext and nesting (two levels decoded), every mix of recipient "
  "kinds up to three, both message types",
  "Malformed structures are combinations of algorithm, header placement, ciphertext, mixing and nesting; the tests contain a "
  "handful, nearly all at the first level.",
  [M + "recipient.py", M + "encmessage.py", M + "macmessage.py"],
  [("from_cose_obj / encode of the recipient classes", M + "recipient.py"), ("verify_recipients, has_recipient", M + "recipient.py")],
  "path-condition analysis: completion with a violated rule must be unsatisfiable",
  "gated value-flow analysis decides reachability of completion per rule; nesting deeper than two and mixes of more than three "
  "structures not enumerated; MAC verification does not inspect the mix and is not claimed")
p("C19", "Registries resolve every registered identifier, name and class",
  "Every header parameter, algorithm, curve, key type, key operation and key parameter of the COSE registries that the library "
  "supports is found by from_id under its IANA identifier, under its name in any letter case, and under its class, always as that one "
  "class; no two share an entry. Whatever is not registered is refused with a COSE exception, or handed back untouched where "
  "unknown values are allowed. Curves carry their registered key type, coordinate size and library curve.",
  ["inputs"],
  "every registered identifier and name, every unregistered integer, registered names in several spellings, all twelve registries",
  "A wrong or duplicate number hides one entry behind another and shows only when exactly that entry is used; unknown values are "
  "an infinite set.",
  ["pycose/utils.py", "pycose/headers.py", "pycose/algorithms.py", "pycose/keys/curves.py", "pycose/keys/keyparam.py",
   "pycose/keys/keyops.py", "pycose/keys/keytype.py"],
  [("_CoseAttribute.from_id, register_attribute", "pycose/utils.py")],
  "value-flow analysis of the registries against IANA tables",
  "registries evaluated from the decorators; from_id compared per entry and for an arbitrary integer; identifiers outside the "
  "tables may be added under their own number")
p("C20", "Key objects come into being only well formed",
  "A key constructor, CoseKey.from_dict, decode or key attribute setter completes only with a well-formed result: the key type is the class's own, the curve "
  "belongs to that key type, coordinates, private values and other byte parameters are byte strings, the public coordinates of an EC2 key with a "
  "private value are those of that value (given ones are compared, missing ones derived, and y is completed from x), an OKP key has a "
  "public or private value, RSA parameters form a public, a two-prime or a complete multi-prime key, a symmetric key has 16, 24 or "
  "32 bytes, and algorithm and key operations are registered ones; the key_ops setter admits only operations the key type supports. Everything else is refused.",
  ["inputs"],
  "every key type, curve, presence combination and value of the parameters, labels given as number, name or class",
  "Malformed keys are combinations of presence, curve, type and length; tests contain some, mostly for one curve, and never a key "
  "whose y alone is inconsistent.",
  ["pycose/keys/ec2.py", "pycose/keys/okp.py", "pycose/keys/rsa.py", "pycose/keys/symmetric.py", "pycose/keys/cosekey.py"],
  [("EC2Key.__init__", "pycose/keys/ec2.py"), ("RSAKey.__init__", "pycose/keys/rsa.py")],
  "path-condition and value-flow analysis of constructors, factories and setters",
  "completion conditions and stored terms compared with specification conditions; OKP public and private values are not compared with each other "
  "(the code does not), nor is a public point without private value checked against the curve; item assignment (key[...] = v) does not validate and is not claimed")
p("C21", "A key is what was put into it",
  "Decoding a COSE_Key (or from_dict) stores every parameter, known or unknown, unchanged under its own attribute; encoding emits "
  "every parameter exactly once under its registered label with the value the attribute has, and nothing else. The attribute, the "
  "numeric label, the name and the class of a parameter always read, test and write the same entry, and assigning one parameter "
  "changes no other. The key type parameter alone decides the class; a missing or unknown one is refused.",
  ["inputs", "histories"],
  "every key type, every parameter and value, each label form, keys in any state after any history, two unknown labels",
  "A parameter swapped with its neighbour in both directions, or dropped only when it has an unusual label form, survives round-trip tests.",
  ["pycose/keys/cosekey.py", "pycose/keys/ec2.py", "pycose/keys/okp.py", "pycose/keys/rsa.py", "pycose/keys/symmetric.py"],
  [("from_dict, encode, decode, __getitem__", "pycose/keys/cosekey.py")],
  "value-flow analysis of factories, accessors and the encoder operand, with the encoding hook analysed",
  "terms compared per parameter; the CBOR library is trusted for values; an empty key_ops list is dropped by the code and not claimed")
p("C22", "Removing parameters never leaves an invalid key",
  "Deleting a parameter from a key, with del or pop, by label, name or class, leaves a valid key or is refused: key type, curve, the k of a symmetric "
  "key and all values of an RSA key cannot be removed, and of x and d of an EC2 or OKP key the last one cannot. A completed removal removes "
  "that parameter and no other (except that x and y of an EC2 key with a private value go together), a refused one leaves a valid "
  "key, and optional parameters, also those with labels unknown to the library, can always be removed.",
  ["inputs", "histories"],
  "every key type, valid key state, parameter and label form",
  "Tests delete a few parameters from complete keys; invalid leftovers depend on which other parameters are present.",
  ["pycose/keys/ec2.py", "pycose/keys/okp.py", "pycose/keys/rsa.py", "pycose/keys/symmetric.py", "pycose/keys/cosekey.py"],
  [("__delitem__", "pycose/keys/ec2.py, okp.py, rsa.py, symmetric.py")],
  "typestate analysis over presence of parameters",
  "presence conditions before and after each removal compared with the validity rule, by case analysis over all presence combinations; "
  "popitem and clear are taken to work through __delitem__ unless the package overrides them; unknown labels are represented by one number and one name")
p("C23", "Representations and diagnostics do not disclose keys or content",
  "The textual representation of a key, message, recipient or signer can always be produced, also when the content is detached, and shows at most "
  "eight bytes of each private key value, symmetric key, content encryption key and payload in it, and nothing of further RSA primes. No exception "
  "raised by creating, changing or using a key contains such a value, and nothing about it is printed, logged or passed to a warning.",
  ["inputs", "histories"],
  "every key type and way of setting a parameter, every message class with and without content and with keys in its headers, the operations of every algorithm with suitable and unsuitable keys",
  "Tests compare no representations of complete private keys; a parameter dropped from a truncation list, or an error message quoting a key, appears in logs only.",
  ["pycose/utils.py", "pycose/keys/ec2.py", "pycose/keys/okp.py", "pycose/keys/rsa.py", "pycose/keys/symmetric.py", "pycose/keys/cosekey.py",
   M + "cosebase.py", M + "recipient.py", "pycose/algorithms.py"],
  [("__repr__, _key_repr", "pycose/keys/*.py"), ("truncate", "pycose/utils.py"), ("__repr__, _hdr_repr", M + "*.py")],
  "information-flow (taint) analysis from secrets to representations, exceptions and output",
  "every occurrence of a secret in the value term of a representation, or in the operands of an exception, print, logging or warnings call, has to lie "
  "under a constant slice or a length; exceptions raised inside libraries are not seen")
p("C28", "Attributes hold only values of their types and a refused value changes nothing",
  "The payload (bytes or None), external data (bytes), key (one of the four COSE key classes or None), signature (bytes), protected and unprotected "
  "headers (dict), signers (list) and recipients (recipient objects) of messages, signers and recipients, and the key data length of a SuppPubInfo (16, 24 or "
  "32), can only be given values of those types, by constructor, setter or header update. A value of the right type is accepted and reads back as it is. "
  "An assignment that is refused leaves the attribute as it was, and a refused assignment to a key leaves every parameter of the key as it was.",
  ["inputs", "histories"],
  "every public attribute of every message, signer and recipient class and every key parameter, any value of any type, objects in any state",
  "Tests assign one or two wrong types to fresh objects; they do not look at the object after the exception, nor at falsy values of wrong types.",
  ["pycose/messages/cosebase.py", "pycose/messages/cosemessage.py", "pycose/messages/signer.py", "pycose/messages/context.py", "pycose/keys/cosekey.py"],
  [("CoseMessage.payload", "pycose/messages/cosemessage.py"), ("CoseMessage.key", "pycose/messages/cosemessage.py"), ("CoseBase.phdr", "pycose/messages/cosebase.py")],
  "typestate and path-condition analysis of setters and constructors",
  "completion conditions compared with type predicates, states at exceptions compared with states before; contents of headers are C09 and C24, types of key parameters C20; "
  "elements of the signers list are not checked by the code")
p("C29", "What is encoded is decoded, verified and decrypted again",
  "Encoding a message with suitable keys free of restrictions is not refused by the library itself. Decoding the output gives a message of the same class with the headers it was given in the same buckets (known parameters and "
  "algorithms resolved, unknown ones and falsy values unchanged), the same payload, and the same signers and recipients in the same order with their headers; a "
  "key announced in a recipient structure comes back with its curve and coordinates and without private part. Verifying, decrypting or recomputing the tag on "
  "the decoded message, given keys without restrictions and the same external data, is not refused by the library and hands the "
  "primitives exactly what the sender's primitives used and produced: signed data and signature, ciphertext, nonce and associated data, "
  "key derivation context, hash, salt and length, wrapped keys.",
  ["inputs"],
  "every message class, algorithm, recipient kind, fresh and given sender keys, attached and detached content, every placement and shape of headers, every key and content",
  "Round-trip tests sample a few algorithms and contents; a parameter dropped only when it is empty, of a text label or in one bucket is not in them.",
  ["pycose/messages/*.py", "pycose/algorithms.py", "pycose/headers.py", "pycose/utils.py"],
  [("encode, from_cose_obj", "pycose/messages/*.py"), ("CoseBase._custom_cbor_encoder, _parse_header", "pycose/messages/cosebase.py"),
   ("CoseRecipient.create_recipient, get_kdf_context", "pycose/messages/recipient.py")],
  "value-flow analysis of encode, decode and the consuming operation in sequence",
  "the item the CBOR package returns is constructed from the term handed to it and the encoder the library supplies; the CBOR package "
  "and the primitives are trusted to invert; header values are arbitrary of their kind, five header shapes per class; up to two signers or recipients; keys hold all their parameters, of the "
  "length of the algorithm; failures of the CBOR package or a primitive do not count as refusals")
p("C25", "Generated and imported keys are the library's keys",
  "generate_key draws, anew on every call, a key of exactly the requested curve or size from the system's cryptographic generator and refuses curves "
  "of another key type and other symmetric sizes. Importing a PEM key parses exactly the given text with the given password. The resulting COSE "
  "key has the class and curve of the library key and holds exactly its numbers: coordinates and private value padded to the curve size, RSA "
  "numbers in minimal length, OKP keys as raw bytes, no private value for a public key, and the optional parameters given.",
  ["inputs"],
  "every supported curve and kind of library key, public and private, every key size, all bit lengths of RSA numbers up to 16384",
  "A coordinate whose leading byte is zero occurs in one key of 256; swapped CRT parameters or a weak generator pass every round trip.",
  ["pycose/keys/cosekey.py", "pycose/keys/ec2.py", "pycose/keys/okp.py", "pycose/keys/rsa.py", "pycose/keys/symmetric.py", "pycose/keys/curves.py"],
  [("generate_key, _from_cryptography_key", "pycose/keys/*.py"), ("from_pem_private_key, from_pem_public_key", "pycose/keys/cosekey.py")],
  "value-flow analysis from the library key to the attributes of the COSE key",
  "stored values compared as terms over the library key, length expressions evaluated for every bit length; PEM parsing, key generation and the "
  "accessors of the cryptography package are trusted")
p("C26", "Certificate thumbprints and chains",
  "A thumbprint made from a certificate is the hash of exactly that certificate (of the certificate inside the CBOR byte string when told so) under the "
  "algorithm it is labelled with, and survives encoding and decoding. matches() is true exactly for a certificate with that thumbprint, never for an "
  "empty thumbprint; two thumbprints are equal only if algorithm and value agree. X5Bag and X5Chain encode a single certificate bare and several as "
  "the list in the given order. Verifying a chain completes only if the validator accepted the first certificate with the others as intermediates "
  "for the requested usage under its own trust settings; a chain created with verify=True does not exist otherwise.",
  ["inputs"],
  "every registered hash algorithm, any certificate and thumbprint, bags and chains of one to four certificates",
  "There is one certificate test; an exception swallowed on the way or intermediates cut short change nothing for valid chains.",
  ["pycose/extensions/x509.py"],
  [("X5T, X5Chain, X5Bag", "pycose/extensions/x509.py")],
  "value-flow and path-condition analysis against the digest and the validator call",
  "results compared as terms over the library digest, decoder and validator; the certvalidator package and the hash functions are trusted; an X5T encodes its "
  "algorithm as the algorithm class, as the existing tests demand")
p("C24", "Objects are separate and operations leave their inputs alone",
  "Changing one message, recipient, signer or key never changes another one, also when both were created from the same dictionary; dictionaries "
  "given to constructors, factories and setters are left as they were, and later changes of them do not reach the object nor the reverse (recipient lists likewise); the header setters copy the values inside, too. "
  "Signing, verifying, MACing, encrypting, decrypting and encoding, completed or refused, leave headers, payload, external data and keys as they "
  "were, apart from content and ephemeral keys generated for the message; verifying or decrypting again gives the same result.",
  ["histories"],
  "every class, way of giving a dictionary and label form; every operation with every algorithm, on arbitrary header values and keys",
  "Tests create one object, use it once and drop it; a shared default, an aliased header dictionary or a parameter added while signing is only "
  "seen by the second user.",
  [M + "cosebase.py", M + "recipient.py", M + "encmessage.py", M + "macmessage.py", M + "signmessage.py", M + "signer.py", M + "signcommon.py",
   M + "maccommon.py", M + "enccommon.py", "pycose/keys/cosekey.py", "pycose/keys/ec2.py"],
  [("CoseBase setters, _parse_header", M + "cosebase.py"), ("recipients setter", M + "encmessage.py, macmessage.py"), ("compute_*, verify_*, encrypt, decrypt, encode", M)],
  "alias and effect analysis on an abstract heap",
  "object identity and contents compared before and after; mutable values inside headers given to a constructor or an update, the signers list, a recipient's payload and the key "
  "attribute of a message with recipients are not claimed")
p("C27", "Operations without a suitable algorithm or key are refused",
  "An operation of a message, signer or recipient structure whose algorithm header is missing or names an algorithm registered for another kind of "
  "operation (a MAC algorithm in a signed message, a content cipher in a recipient structure, key agreement with key wrap in a direct key agreement "
  "structure ...), or whose key (content key, own key, peer key under the header parameter the algorithm prescribes) is missing, never completes and "
  "runs no primitive; no algorithm is assumed or taken from the key, and no key is generated except the ephemeral key of an ephemeral-static sender.",
  ["inputs"],
  "every operation of every class with every foreign algorithm and a key of each class, every own algorithm without each of its keys, objects in any state",
  "A helpful default (algorithm from the key, peer key from whichever header has one) passes all tests, which use complete messages.",
  [M + "signcommon.py", M + "maccommon.py", M + "enccommon.py", M + "recipient.py", M + "encmessage.py", M + "macmessage.py", "pycose/algorithms.py"],
  [("_key_verification", M + "signcommon.py"), ("compute_tag, verify_tag", M + "maccommon.py"), ("encrypt, decrypt", M + "enccommon.py"),
   ("compute_cek, encrypt, decrypt", M + "recipient.py")],
  "reachability analysis: completion conditions and guards of primitive calls must be unsatisfiable",
  "refusal by any exception counts (several are AttributeErrors of the language); signing with an OAEP algorithm is refused by the cryptography library, which "
  "is trusted for it; recipient structures nested in a key-wrap structure are not covered")


NA = [
    dict(id="N01", title="Comparisons of secrets take the same time whatever they hold",
         statement="The time verification takes does not depend on how much of a tag, signature or key agrees with the expected one.",
         over=["inputs"], text="every tag and key value", why="tests do not measure time",
         files=["pycose/algorithms.py"], mech=[("tag comparison", "pycose/algorithms.py")],
         reason="Time is decided by the interpreter and by compiled libraries; the source shows only that == is used for tags, and a rule demanding "
                "one particular function would judge how the code is written, not what it does."),
    dict(id="N02", title="Messages cannot be forged or read without the key",
         statement="Nobody without the key can produce an accepted message or learn its content.",
         over=["inputs", "histories"], text="every adversary", why="quantifies over all adversaries",
         files=["pycose/algorithms.py"], mech=[("primitives", "pycose/algorithms.py")],
         reason="Computational security of the primitives is outside any source analysis; the parts that depend on pycose (what is covered, by which "
                "key, when it is accepted) are C01-C07, C12, C16-C18."),
    dict(id="N03", title="Decoding hostile input uses bounded time and memory",
         statement="Decoding a byte string takes time and memory proportional to its length.",
         over=["inputs"], text="every byte string", why="tests decode well-formed messages",
         files=["pycose/messages/cosemessage.py"], mech=[("decode", "pycose/messages/cosemessage.py")],
         reason="Bounded by the CBOR library and the recursion limit of the interpreter; nesting depth and allocation are runtime quantities no "
                "static argument about pycose's source bounds."),
    dict(id="N04", title="Generated keys and nonces are unpredictable and never repeat",
         statement="Random content keys, ephemeral keys and generated keys are uniformly distributed and never repeat.",
         over=["histories"], text="every sequence of generations", why="statistical",
         files=["pycose/messages/recipient.py", "pycose/keys/"], mech=[("os.urandom", "pycose/messages/")],
         reason="A property of the operating system's generator; that the generator is used, once per message and with the right length, is C13, C16 and C25."),
]
