"""The properties: text, anchors, and how each is decided.  tools/gen.py writes properties.jsonl and MANIFEST.json from here."""

PROPS = []
NOT_APPLICABLE = []

ABS = "static analysis: abstract interpretation of the compiler's MIR over symbolic values and path facts"
SHAPE = "static analysis: query over the type-checked program (effective serde shape) and MIR of the accessors"
TRUST = ("Trusts rustc's type checking and MIR, the models of std and external crates in analyzer/models.py, "
         "the meaning of serde attributes in analyzer/wire.py. Obligations the analysis cannot decide are counted as undecided in the evidence, not reported.")


def p(pid, title, statement, text, why, files, mech, explanation, technique=ABS, over=("inputs",), note=""):
    assert len(title) <= 80, title
    PROPS.append({"id": pid, "title": title, "statement": statement, "over": list(over), "text": text, "why": why, "files": files,
                  "mech": mech, "explanation": explanation, "technique": technique, "note": (note + " " if note else "") + TRUST})


def na(pid, title, statement, text, why, files, mech, reason, over=("inputs",)):
    assert len(title) <= 80, title
    NOT_APPLICABLE.append({"id": pid, "title": title, "statement": statement, "over": list(over), "text": text, "why": why, "files": files,
                           "mech": mech, "reason": reason})


WHY_WIRE = "Tests parse and print a few fixed documents; the member rules must hold for every value of every member, including absent, empty and unknown ones, that no test vector contains."

p("D01", "Plaintext messages keep every member across JSON",
  "A plaintext message written as JSON and read back is the same message: every standard member has its DIDComm v2 name (id, typ, type, body, from, to, thid, pthid, created_time, expires_time, from_prior, attachments), absent members are omitted rather than written as null, and every other top-level member is kept as an extra header. Reading tolerates unknown members, requires id, typ, type and body, and keeps the full range of the timestamps.",
  "every message and every JSON object offered as one", WHY_WIRE, ["src/message/message.rs"],
  [("derived (de)serialisation of the message", "src/message/message.rs: struct Message")],
  "For each field of the message type the effective JSON name when writing and reading, optionality, omission rule, flattening and numeric width are computed from the type-checked program's attributes and compared with the DIDComm v2 table.", SHAPE)

p("D02", "A built message holds exactly what the builder was given",
  "A message built with the builder has the id, type and body it was started with, each member last set by its setter, every added recipient, header and attachment (added ones after earlier ones, in order), nothing in members never set, and the media type of DIDComm plaintext.",
  "every sequence of builder calls with every argument", "Tests build two or three fixed messages; the claim is over every order and repetition of setter calls.",
  ["src/message/message.rs"], [("builder", "src/message/message.rs: MessageBuilder")],
  "Each builder method is interpreted on a symbolic builder and a symbolic argument; the resulting product is compared member by member with the old one: the set member holds the argument (or the old list plus the argument), all others are unchanged; the finaliser's value is compared with the builder's members.", over=("inputs", "histories"))

p("D03", "Attachments keep their members and their kind across JSON and building",
  "An attachment written and read back is the same attachment, with the DIDComm member names, absent members omitted; its data is read as base64, links or JSON by the members it has, with no kind read as another. An attachment built with a builder holds exactly what the builder was given.",
  "every attachment value, every JSON object offered as one, and every sequence of builder calls", WHY_WIRE, ["src/message/attachment.rs"],
  [("attachment data told apart by content", "src/message/attachment.rs: AttachmentData"), ("builders", "src/message/attachment.rs: AttachmentBuilder, JsonAttachmentDataBuilder, Base64AttachmentDataBuilder, LinksAttachmentDataBuilder")],
  "Effective JSON shape of attachment and each kind of data, shadowing among the untagged kinds, and interpretation of every builder method on symbolic values.", SHAPE, over=("inputs", "histories"))

p("D04", "DID documents and services are read member for member",
  "A DID document written and read back is the same document: did, key agreements, authentications, verification methods with their type and JWK, base58 or multibase material, and services with DIDComm endpoints including accepted profiles and routing keys, all under their documented names. Kinds of verification material and of service are told apart only by their own members.",
  "every DID document value and JSON", WHY_WIRE, ["src/did/did_doc.rs"],
  [("derived (de)serialisation", "src/did/did_doc.rs: DIDDoc, VerificationMethod, VerificationMaterial, Service, ServiceKind, DIDCommMessagingService")],
  "Effective JSON shape of the document types; for enums told apart by content, each kind is written as its own members only and no kind shadows another.", SHAPE)

p("D05", "Secrets are read member for member",
  "A secret written as JSON and read back is the same secret: id, type and private material in the kind it was given (JWK, base58 or multibase), with no kind read as another.",
  "every secret value and JSON", WHY_WIRE, ["src/secrets/mod.rs"], [("derived (de)serialisation", "src/secrets/mod.rs: Secret, SecretType, SecretMaterial")],
  "Effective JSON shape of the secret types as for D04.", SHAPE)

p("D06", "Encrypted and signed envelopes have the JOSE members",
  "Encrypted messages are written and read with exactly the JOSE general-JSON members (protected, recipients with header.kid and encrypted_key, iv, ciphertext, tag; header members typ, alg, enc, skid, apu, apv, epk) and signed messages with theirs (payload, signatures with header.kid, protected, signature; header members typ, alg), absent optional members being omitted. Unknown members are tolerated.",
  "every envelope the library writes or reads", WHY_WIRE, ["src/jwe/envelope.rs", "src/jws/envelope.rs"],
  [("envelope types", "src/jwe/envelope.rs"), ("envelope types", "src/jws/envelope.rs")],
  "Effective JSON shape of the envelope types, compared with RFC 7515/7516 and DIDComm v2 tables.", SHAPE)

p("D07", "Algorithm identifiers are the registered ones and defaults never change",
  "Every algorithm the library names on the wire or to the caller has its registered identifier both when written and when read, and no two share one (the caller-facing AnonCryptAlg, AuthCryptAlg and SignAlg are written and read in JSON under their documented names, bare); without a choice by the caller, authenticated encryption uses A256CBC-HS512 with ECDH-1PU and anonymous encryption uses XC20P with ECDH-ES.",
  "every algorithm value and every identifier text", "Tests see only the identifiers their vectors use, and never that two could be confused or that a default slipped.",
  ["src/algorithms.rs", "src/jwe/envelope.rs", "src/jws/envelope.rs"],
  [("derived names", "src/algorithms.rs, src/jwe/envelope.rs, src/jws/envelope.rs"), ("defaults", "src/algorithms.rs: Default impls")],
  "The serialised name of every variant of each algorithm enumeration is computed and compared with the registry; Default implementations are interpreted to the variant they return.", SHAPE)

p("D08", "The in-memory resolvers answer exactly for what they hold",
  "The provided in-memory DID and secrets resolvers return the entry whose identifier equals the asked one (the first such), answer 'not found' for anything else, and the search for several secrets returns exactly the known ones of the asked identifiers, in the asked order.",
  "every set of held documents or secrets and every asked identifier", "Tests ask for a handful of identifiers of fixed sets; prefixes, near misses and duplicates are never asked.",
  ["src/did/resolvers/example.rs", "src/secrets/resolvers/example.rs"],
  [("look-up", "src/did/resolvers/example.rs: ExampleDIDResolver::resolve"), ("look-up", "src/secrets/resolvers/example.rs: ExampleSecretsResolver")],
  "Each resolver operation is interpreted (async bodies included) with symbolic contents and identifier; its value must be the reference term 'first element whose id equals the asked id' or the filter of the asked ids by membership.")

p("D09", "Packing and unpacking options default as documented",
  "Options left out, in code or in JSON, take the documented defaults: packing does not hide the sender, wraps in Forward messages, has no extra forward headers, no chosen service, and the default algorithms; unpacking does not require decryption by all keys. Options given in JSON are read under their own names and tolerate unknown members.",
  "every options value and JSON", WHY_WIRE, ["src/message/pack_encrypted/mod.rs", "src/message/unpack/mod.rs"],
  [("defaults", "src/message/pack_encrypted/mod.rs: PackEncryptedOptions"), ("defaults", "src/message/unpack/mod.rs: UnpackOptions")],
  "Default implementations are interpreted; serde defaults of each member are resolved to the function they call and interpreted; both are compared with the documented defaults.", SHAPE)

p("D10", "An error reports the kind of the failure that caused it",
  "Errors keep their kind: an error made, wrapped or given context reports the kind it was given and shows the messages of its causes, each kind has its own text, and errors of the JSON and base58 libraries become Malformed, or InvalidState where the library itself failed.",
  "every error value and every way it is wrapped", "Tests check a dozen concrete failures; the kind must survive every chain of wrapping.",
  ["src/error.rs"], [("error type and conversions", "src/error.rs: Error, ErrorKind, ResultExt, ToResult, err_msg")],
  "Every accessor and conversion is interpreted on symbolic errors and results; kind and source of the produced error are compared with reference terms; Display output is reduced to a template of the kind's text and causes.")

p("D11", "Forward messages are recognised and taken apart exactly",
  "A message is treated as a Forward only if its type is the routing 2.0 forward type, its body has a text member 'next', and its first attachment carries JSON data; then the next hop and the forwarded message reported are exactly those.",
  "every plaintext message", "Tests hand in one well-formed Forward; the decision must be right for every type text, body and attachment list.",
  ["src/protocols/routing/forward.rs", "src/protocols/routing/mod.rs"], [("recognition", "src/protocols/routing/mod.rs: try_parse_forward"), ("body", "src/protocols/routing/forward.rs")],
  "The recogniser is interpreted on a symbolic message; its value must equal the reference decision tree over type, body, next and first attachment.")

p("D12", "Rotation claims keep every member across JSON and building",
  "A rotation claim (from_prior) written and read back is the same claim, with JWT member names (iss, sub, aud, exp, nbf, iat, jti) and absent members omitted; one built with the builder holds exactly what the builder was given.",
  "every claim value and JSON, every sequence of builder calls", WHY_WIRE, ["src/message/from_prior/mod.rs"],
  [("type and builder", "src/message/from_prior/mod.rs: FromPrior, FromPriorBuilder")],
  "Effective JSON shape and interpretation of every builder method, as for D01 and D02.", SHAPE, over=("inputs", "histories"))

p("D13", "What is reported about a message is written under its documented names",
  "The metadata types handed to callers (UnpackMetadata, PackEncryptedMetadata, MessagingServiceMetadata, PackSignedMetadata) and the parsed forward message are written as JSON objects with each of their members under its documented name and no two members share a name: none is skipped, merged into the object or written under another name, and only an absent optional value may be left out.",
  "every reported value", "The repository's tests compare the Rust values and never their JSON, which is what the WebAssembly callers receive.",
  ["src/message/unpack/mod.rs", "src/message/pack_encrypted/mod.rs", "src/message/pack_signed.rs", "src/protocols/routing/forward.rs"],
  [("reported types", "src/message/unpack/mod.rs: UnpackMetadata"), ("reported types", "src/message/pack_encrypted/mod.rs: PackEncryptedMetadata, MessagingServiceMetadata"),
   ("reported types", "src/message/pack_signed.rs: PackSignedMetadata"), ("reported types", "src/protocols/routing/forward.rs: ParsedForward")],
  "Effective JSON shape of the reported types, computed from the derive attributes in the compiled program and compared with the documented members (wasm/src/message/*.rs TypeScript sections).", SHAPE)

p("E01", "Parsing an encrypted envelope is exact and never guesses",
  "Reading a text as an encrypted message gives the parsed envelope, its decoded protected header and its decoded apu and apv only if all of them are well-formed (base64url without padding, JSON), and otherwise reports Malformed. The addressing check accepts only if apv is the hash of the sorted recipient key ids and, for authenticated encryption, apu names the sender key and agrees with skid.",
  "every input text", "Tests feed about a dozen malformed texts; agreement of apv, apu, skid and recipients must hold for every list of recipients.",
  ["src/jwe/parse.rs"], [("parse", "src/jwe/parse.rs: parse"), ("addressing", "src/jwe/parse.rs: ParsedJWE::verify_didcomm")],
  "Both operations are interpreted on a symbolic text; their values must equal reference decision trees built from the JSON parse, the base64url decodings and the hash of the sorted, dot-joined recipient ids.")

p("E02", "Parsing a signed envelope is exact",
  "Reading a text as a signed message decodes every signature's protected header and keeps it, in order, with its own signature; any malformed part makes the whole Malformed.",
  "every input text", "Tests feed single-signature vectors and a few malformed ones; pairing of headers with signatures needs every list length.",
  ["src/jws/parse.rs"], [("parse", "src/jws/parse.rs: parse")],
  "Interpretation of the parser on a symbolic text; value compared with a reference decision tree; header list compared element-wise with the signature list.")

p("K01", "Key material becomes exactly the key it denotes, or is refused",
  "Each pair of method (or secret) type and material kind the library supports - JSON Web Key 2020 with P-256, secp256k1, Ed25519 or X25519; the 2018/2019 suites in base58; the 2020 suites in base58 multibase with the multicodec of that key - is turned into exactly the key of that kind whose bytes the material holds; every other pair is refused as Unsupported, and material that does not decode, lacks its multibase or multicodec prefix or names another codec is refused with an error and never accepted nor a crash. The algorithm told for a key is the algorithm of the key made from it. A DID is told by its 'did' scheme and at least three colon-separated parts; a DID URL is split at its first '#'.",
  "every method, secret, type, material kind and text of material", "Tests convert one example key per format; the claim is for every text in every format, including truncated, mislabelled and non-ASCII ones, in the code shared by packing and unpacking.",
  ["src/utils/did.rs", "src/utils/crypto.rs", "src/jwk.rs"],
  [("methods", "src/utils/did.rs: impl AsKnownKeyPair for VerificationMethod"), ("secrets", "src/utils/did.rs: impl AsKnownKeyPair for Secret"), ("codec", "src/utils/did.rs: Codec, _from_multicodec"), ("typed access", "src/utils/crypto.rs: AsKnownKeyPair")],
  "as_key_pair, key_alg and the typed accessors are interpreted for every (type, material) pair with unknown text: accepted cases must entail base58, prefix and codec conditions and import a JWK whose x and d are the unpadded base64url of exactly the decoded bytes; refused cases must be inconsistent with sound material; slicing must be in range under the path's facts.")

WHY_UNPACK = "Tests unpack a few dozen vectors, most of them valid; acceptance must be right for every text, DID document, key set and resolver answer, and each forged envelope differs in its own way."

p("U01", "Signed messages are accepted only under the signer's valid signature",
  "Taking off a signed layer succeeds only if the text is a signed envelope with exactly one signature, whose unprotected kid is a key listed under 'authentication' in the document its DID resolves to, the verification method of that id is of the key type the protected alg names (EdDSA: Ed25519, ES256: P-256, ES256K: secp256k1), and the signature verifies with that key over 'protected . payload' exactly as received; any protected kid must equal it. The payload returned is the decoded signed text, and the metadata says authenticated, non-repudiation, the kid, the algorithm and the signed message itself, and leaves the rest alone. Every envelope meeting this is accepted; each other is refused with the kind of what is wrong, and a text that is not a signed envelope is left to the next layer.",
  "every text, resolver answer and DID document", WHY_UNPACK, ["src/message/unpack/sign.rs", "src/jws/verify.rs", "src/jws/parse.rs"],
  [("signed layer", "src/message/unpack/sign.rs: _try_unpack_sign"), ("verification", "src/jws/verify.rs: ParsedJWS::verify")],
  "The layer is interpreted on a symbolic text, resolver and metadata. Each path that ends in success must entail the acceptance conditions (origin of every part of the key, of the signature and of the signed bytes), each path that refuses must be explained by one of the listed reasons with the kind of that reason; metadata of each path is compared member by member.")

p("U02", "Anonymously encrypted messages are opened only when intact and addressed to us",
  "Taking off an anonymous encryption layer succeeds only if the text is an encrypted envelope with alg ECDH-ES+A256KW whose recipients are key ids of one DID and whose apv binds exactly these, at least one of the recipient keys has a secret held here (all those held when decryption by all keys is required, and with one result), the content key is unwrapped with the key agreed between that secret and the envelope's epk of the same curve, and the ciphertext opens under the enc it names with the protected header as associated data. Content, metadata (encrypted, anonymous sender, recipient kids, algorithm) and the kinds of refusal are exactly those; other envelopes are left to the next layer; every supported combination is accepted.",
  "every text, secrets resolver answer and option", WHY_UNPACK, ["src/message/unpack/anoncrypt.rs", "src/jwe/decrypt.rs", "src/jwe/parse.rs"],
  [("anoncrypt layer", "src/message/unpack/anoncrypt.rs: _try_unpack_anoncrypt"), ("decryption", "src/jwe/decrypt.rs: ParsedJWE::decrypt")],
  "The layer, parsing, addressing check and decryption are interpreted together on a symbolic text, secrets resolver, options and metadata. Every successful path must entail where each input of key agreement, key unwrapping and content decryption came from; every refusing path must have a listed reason of the same kind; metadata is compared member by member; every algorithm and curve must have a successful path.")

p("U03", "Authenticated encryption is opened only with the named sender's key",
  "Taking off an authenticated encryption layer succeeds only if, besides what is required of recipients and integrity, alg is ECDH-1PU+A256KW, the sender is the key id carried in apu (equal to skid when given), that key is listed under 'keyAgreement' in the document its DID resolves to, its verification method is on the same curve as epk and the recipient's secret, and the content key is unwrapped with the key agreed from all three with the tag bound in. Metadata names that sender's kid, the recipients and the algorithm and nothing else; refusals report the kind of what is wrong; other envelopes are left to the next layer; every supported combination is accepted.",
  "every text, resolver answer, DID document and option", WHY_UNPACK, ["src/message/unpack/authcrypt.rs", "src/jwe/decrypt.rs", "src/jwe/parse.rs"],
  [("authcrypt layer", "src/message/unpack/authcrypt.rs: _try_unpack_authcrypt"), ("decryption", "src/jwe/decrypt.rs: ParsedJWE::decrypt")],
  "As for anonymous encryption, with the sender's key traced from apu through the resolved document's keyAgreement and verification methods to the key agreement.")

p("U04", "A DID rotation claim is believed only under the prior DID's signature",
  "Unpacking a from_prior token succeeds only if it consists of exactly three dot-separated base64url parts, its header has typ JWT and a kid that is a key id of the DID in the claim's iss, listed under 'authentication' in the document that DID resolves to, with a verification method of the key type alg names, and the third part is a signature by that key over the first two parts exactly as received. It returns the claim read from the second part and that kid. Every token meeting this is accepted; each other is refused with the kind of what is wrong (Malformed, DIDNotResolved, DIDUrlNotFound, Unsupported, or that of the failed resolver).",
  "every token, resolver answer and DID document", "Tests unpack one genuine token and a few broken ones; a forged or transplanted claim moves a conversation to an attacker's DID.",
  ["src/message/from_prior/unpack.rs", "src/jws/parse.rs", "src/jws/verify.rs"],
  [("unpack", "src/message/from_prior/unpack.rs: FromPrior::unpack"), ("parse", "src/jws/parse.rs: parse_compact"), ("verification", "src/jws/verify.rs: ParsedCompactJWS::verify")],
  "The operation, the compact parser and the verification are interpreted together on a symbolic token and resolver. A text cut at dots by any means is told as parts of one list with bounds on its length. Each successful path must entail the conditions, with the origin of key, signature and signed text; each refusal must have a listed reason of its kind.")

p("U05", "Unpacking takes the layers off in order and reports exactly what it found",
  "Message::unpack starts from no trust (every metadata member false or absent), takes off an anonymous encryption, then an authenticated encryption, then a signature, each if present, gives each layer the content of the one before and the caller's resolvers and options, and reads what is left as plaintext; metadata is exactly what the layers told. With unwrapping of forwards asked for, a Forward found under anonymous encryption whose next is a key held here (the key itself, or any keyAgreement key of the DID) is replaced by what it forwards and re_wrapped_in_forward is told; no other is unwrapped. The plaintext must have typ application/didcomm-plain+json, a from_prior in it must verify and is told with its issuer's kid; otherwise the message fails with the kind of the failing step, and a text that is none of these is Malformed.",
  "every text, resolver answer, option and nesting of layers", WHY_UNPACK,
  ["src/message/unpack/mod.rs", "src/message/unpack/plaintext.rs"],
  [("composition", "src/message/unpack/mod.rs: Message::unpack"), ("forwards", "src/message/unpack/mod.rs: has_key_agreement_secret"), ("plaintext", "src/message/unpack/plaintext.rs: _try_unpack_plaintext")],
  "Message::unpack is interpreted with the layers cut out as unknown operations that change the metadata; the chain of texts and metadata from the result back to the caller's text must run through every layer in order, also round the forward loop; refusals must be those of a layer. The plaintext layer and the look-up of own keys are interpreted on their own.")

WHY_PACK = "Tests pack for a few fixed documents and keys; a message sealed for a key or with a header other than promised is readable by the wrong party, or by nobody, whatever the documents hold."

p("P01", "Anonymous encryption seals for exactly the recipient's usable keys",
  "Encrypting anonymously for `to` resolves the DID of `to`, uses of its keyAgreement keys the one asked for (if `to` is a key id) or all, keeps those of the same kind as the first of a supported kind (X25519, P-256), and yields a JWE whose recipients list exactly these key ids in order, whose protected header tells typ application/didcomm-encrypted+json, alg ECDH-ES+A256KW, the asked-for enc, a fresh epk of that kind and the apv of exactly these ids, with a fresh random content key wrapped for each recipient with the key agreed between the fresh epk and that recipient's own key, and the message as ciphertext under that content key, a random iv and the protected header as associated data. It returns the key ids sealed for. Whatever prevents this is refused with its own kind (DIDNotResolved; DIDUrlNotFound without such a key; Unsupported for a key the document does not describe; InvalidState with no key of a supported kind; Malformed for an unreadable key; or that of the resolver).",
  "every message, recipient, resolver answer and DID document", WHY_PACK, ["src/message/pack_encrypted/anoncrypt.rs", "src/jwe/encrypt.rs", "src/utils/did.rs"],
  [("anoncrypt", "src/message/pack_encrypted/anoncrypt.rs: anoncrypt"), ("encryption", "src/jwe/encrypt.rs: encrypt")],
  "Selection of keys and encryption are interpreted together on a symbolic message, recipient and resolver. For each successful path the parts of the JSON text made are traced to their origin (document, key, random generator, key agreement); lists of recipients are compared element by element under the facts by which they were filtered; each refusing path must have a listed reason of its kind.")

p("P02", "Authenticated encryption seals with one sender key that fits the recipient",
  "Encrypting from `from` to `to` uses of the sender's keyAgreement keys (the one asked for, or all) those the secrets resolver holds, picks the first of a supported kind shared with a usable recipient key, and seals for exactly the recipient's usable keys of that kind: the JWE tells alg ECDH-1PU+A256KW, apu and skid of exactly that sender key, the apv of exactly the recipients' ids and the asked-for enc; the content key is wrapped with the key agreed from a fresh epk, the recipient's key and the secret with the id of that sender key, with the tag of the ciphertext bound in. With sender protection this is sealed anonymously once more for the same recipients, and only then. It returns the sender's key id and the ids sealed for; whatever prevents this is refused with its own kind (DIDNotResolved, DIDUrlNotFound, SecretNotFound, NoCompatibleCrypto, Malformed, Unsupported, or that of the resolver).",
  "every message, pair of parties, resolver answer, secrets and DID documents", WHY_PACK, ["src/message/pack_encrypted/authcrypt.rs", "src/jwe/encrypt.rs", "src/utils/did.rs"],
  [("authcrypt", "src/message/pack_encrypted/authcrypt.rs: authcrypt"), ("encryption", "src/jwe/encrypt.rs: encrypt")],
  "As for anonymous encryption, with the sender's key traced from the document and the secrets resolver to key agreement, apu and skid, and the protecting layer compared with the layer it contains.")

p("P03", "Signed messages are signed with a key of the signer, over the whole message",
  "Signing by `sign_by` (a DID or key id) resolves its DID, uses of the keys listed under 'authentication' the one asked for, or those the secrets resolver holds, and makes a JWS with one signature: the payload is the plaintext of the message itself, the unprotected kid is that key's id, the protected header tells typ application/didcomm-signed+json and the algorithm of that kind of key (EdDSA, ES256, ES256K), and the signature is made with the secret of that id over exactly the protected header and payload written. It returns that key's id. An unlisted key (DIDUrlNotFound), an unknown DID (DIDNotResolved), no secret (SecretNotFound), a key that cannot sign (Unsupported), what is no DID (IllegalArgument) and failures of resolvers (their own kind) are refused, and nothing else is.",
  "every message, signer, resolver answer, secret and DID document", WHY_PACK, ["src/message/pack_signed.rs", "src/jws/sign.rs"],
  [("pack_signed", "src/message/pack_signed.rs: Message::pack_signed"), ("signing", "src/jws/sign.rs: sign")],
  "The operation and JWS signing are interpreted together on a symbolic message, signer and resolvers; on every successful path the parts of the JSON text are traced to their origin and compared with what signing demands, for each kind of key; each refusal must be explained by its reason.")

p("P04", "A DID rotation claim is signed by the prior DID, for what it claims",
  "Packing a from_prior claim makes the compact JWS of the claim's own JSON, with typ JWT, the algorithm of the key's kind and the kid of a key listed under 'authentication' by the document of `iss` (the one asked for, if given, which must be a key id of `iss`), signed with the secret of that id; it returns the token and that kid. `iss` and `sub` must be DIDs, no key ids, and differ (Malformed otherwise); each other reason it fails for is told with its own kind.",
  "every claim, issuer key, resolver answer, secret and DID document", WHY_PACK, ["src/message/from_prior/pack.rs", "src/jws/sign.rs"],
  [("pack", "src/message/from_prior/pack.rs: FromPrior::pack"), ("validation", "src/message/from_prior: validate_pack"), ("signing", "src/jws/sign.rs: sign_compact")],
  "The operation, the checks and compact signing are interpreted together on a symbolic claim, key id and resolvers; the three parts of the token are traced to their origin; refusals as in P03.")

p("P05", "Packing plaintext writes the message itself, after checking its rotation claim",
  "pack_plaintext returns exactly the JSON of the message; a message with a from_prior is packed only if FromPrior::unpack accepts that token, and its `sub` is the message's `from` if it has one; otherwise it is refused with the kind of what failed (Malformed for a `sub` that differs), and no message is refused for anything else.",
  "every message and resolver answer", WHY_PACK, ["src/message/pack_plaintext.rs", "src/message/from_prior"],
  [("pack_plaintext", "src/message/pack_plaintext.rs: Message::pack_plaintext")],
  "Interpretation on a symbolic message with the unpacking of the claim (decided by U04) included; each success must entail the conditions and return the JSON of that message; each refusal must be explained.")

p("P06", "Packing encrypted puts the layers on in order and tells what was used",
  "Message::pack_encrypted makes the plaintext or, if sign_by is given, the signed text of the message; seals exactly this from `from` to `to`, or anonymously if no sender is given, with the algorithms and protection asked for in the options; then wraps exactly the sealed text for the route to `to`, and returns it wrapped or, if no wrapping is needed, as it is. Key ids and service told in the metadata are those used. `to`, `from` and sign_by must be DIDs or key ids, `to` one of the message's `to` and `from` of the DID in the message's `from`, where it has these (IllegalArgument otherwise). No other reason refuses a message and each failure keeps its kind.",
  "every message, party, resolver answer and option", WHY_PACK, ["src/message/pack_encrypted/mod.rs", "src/utils/did.rs"],
  [("composition", "src/message/pack_encrypted/mod.rs: Message::pack_encrypted")],
  "Message::pack_encrypted is interpreted with the layers cut out as unknown operations; on every path the returned text and metadata are traced through the calls that made them, whose arguments must be the ones demanded; each refusal must be entailed by the reason of its kind.")

WHY_ROUTE = "Tests wrap for two or three fixed routes; a message wrapped in another order, or for another service, is read by the wrong mediator or never delivered, whatever the documents hold."

p("R01", "A message goes by a service of the recipient that can take it",
  "With forwarding asked for, packing resolves the DID of `to` and uses the service asked for or else the first one that is a DIDCommMessaging service whose accept is absent, empty or holds didcomm/v2. If its uri is a DID, the first such service of that DID is the mediator's: its endpoint is where the message goes and that DID comes before the routing keys. The message is wrapped for exactly these keys in this order, with the forward headers, algorithm and resolver given, unless forwarding is off, nothing is offered, or there is no key to wrap for. The service id told is that of the recipient's service and the endpoint told is that of the mediator's, or the service's own. Refused are: an unknown DID (DIDNotResolved), a service asked for that is not there or not suitable (IllegalArgument), a mediator without a suitable service or given by yet another DID (InvalidState), and what the resolver or wrapping fails with (that kind); nothing else is.",
  "every recipient, resolver answer, DID document and option", WHY_ROUTE, ["src/protocols/routing/mod.rs", "src/utils/did.rs"],
  [("route", "src/protocols/routing/mod.rs: wrap_in_forward_if_needed"), ("service", "src/protocols/routing/mod.rs: find_did_comm_service")],
  "The choice of services is interpreted on a symbolic recipient, resolver and options, with sealing cut out. On every path the service, keys and endpoint used are traced to the documents; the recorded reasons for passing over services must rule out that an earlier one was suitable; each refusal must be entailed by the reason of its kind.")

p("R02", "Forwards are wrapped from the last mediator to the first, telling the next hop",
  "wrap_in_forward(msg, headers, to, routing_keys, alg, resolver) seals, from the last routing key to the first, a new Forward message anonymously for that key with that algorithm: its body names as `next` the following routing key, or `to` after the last, its one attachment is the JSON of what was made so far (msg to begin with), it has a fresh id, type and typ of a Forward, and the headers given, each with its value, and no others. The result is what the first routing key gets, or msg itself without routing keys. It fails only if msg is no JSON (Malformed) or sealing fails (that kind).",
  "every text, route, headers and algorithm", WHY_ROUTE, ["src/protocols/routing/mod.rs"],
  [("onion", "src/protocols/routing/mod.rs: wrap_in_forward")],
  "The loop is interpreted once on a symbolic route of unknown length: the text carried from one round to the next must be the sealed form of a Forward around the one before, for the element of the reversed route at hand, and next must be the element after it on the route.")

WHY_FFI = "The bindings' tests call each operation once or twice on fixed data; a swapped argument, a lost error kind or an outcome reported twice or never shows only for some inputs, and only through the foreign language."

p("F01", "uniffi operations are the core's, and report their outcome exactly once",
  "Each operation of the uniffi DIDComm object asks the core operation of that name exactly once, with exactly the arguments it was given (in the order of the interface description, absent ones staying absent) and adapters of the two resolvers the object was made with. The callback is told exactly once: success with exactly the core's result and metadata, or error with the kind and text of the core's failure; the call itself answers Success and cannot panic. JSON values cross as their text; texts that are no JSON are refused.",
  "every argument and every outcome of the core operation", WHY_FFI, ["uniffi/src/didcomm", "uniffi/src/common.rs", "uniffi/src/didcomm.udl"],
  [("operations", "uniffi/src/didcomm: impl DIDComm"), ("interface", "uniffi/src/didcomm.udl: interface DIDComm"), ("JSON values", "uniffi/src/common.rs: impl UniffiCustomTypeConverter for JsonValue")],
  "The binding crate is type-checked against the current core crate, and each operation interpreted on symbolic arguments with the spawned task included. Arguments of the one call of the core operation and of the callback's calls are compared with those demanded; the path facts of the callback's calls must cover each outcome once.")

p("F02", "uniffi resolvers are asked what the core asks, and their reports arrive",
  "Asked for a DID, a secret or the known ones of some key ids, the uniffi adapters ask the user's resolver exactly once for exactly that, and answer what it reports to the callback handed to it: the value as it is (of key ids: those asked for that are reported, in the order asked), or the failure with its kind; InvalidState if nothing is ever reported. A report is passed on exactly once; a second one is refused with InvalidState. The bundled example resolvers report the entry of exactly that id, None for others.",
  "every question, every report and every number of reports", WHY_FFI, ["uniffi/src/did", "uniffi/src/secrets", "uniffi/src/common.rs"],
  [("DID adapter", "uniffi/src/did/did_resolver_adapter.rs"), ("secrets adapter", "uniffi/src/secrets/secrets_resolver_adapter.rs"), ("reports", "uniffi/src/common.rs: OnResult"), ("bundled resolvers", "uniffi/src/did/resolvers/example.rs, uniffi/src/secrets/resolvers/example.rs")],
  "The adapter the operations hand to the core crate is interpreted on a symbolic question with the channel's ends as symbols: question, receiving end and answer are compared with those demanded for each thing that can arrive; the callback's two functions must send what they are given through the sending end of that same channel and answer whether they did. That one sending end sends once is its type's doing (send takes it by value).")

p("F03", "wasm errors keep their kind in both directions",
  "A failure of the core becomes a JavaScript Error with its text as message and the name DIDComm<Kind>; an Error thrown by JavaScript becomes a failure of the kind its name tells, with its message kept; every kind has its name and every name its kind, any other Error, string or value thrown becomes InvalidState. Successes are handed on unchanged.",
  "every result and every thrown value", WHY_FFI, ["wasm/src/error.rs"],
  [("to JavaScript", "wasm/src/error.rs: JsResult::as_js"), ("from JavaScript", "wasm/src/error.rs: FromJsResult::from_js")],
  "Both conversions are interpreted on a symbolic result. The name set must equal the name of the kind on every path; each path of the other direction is examined for the name it was recognised by and the kind given, and all names must occur.")

p("F04", "wasm operations are the core's, and their promises settle as those do",
  "Each operation of the wasm Message and FromPrior asks the core operation of that name exactly once with the value the object stands for, exactly the arguments given (read from plain values where they are such; if that fails it rejects with Malformed) and adapters of the resolvers given. Its promise resolves to exactly the core's result (text, or [result, metadata] in this order) or rejects with the core's failure. Objects made from plain values stand for exactly these, and are given back as them.",
  "every argument and every outcome of the core operation", WHY_FFI, ["wasm/src/message", "wasm/src/lib.rs"],
  [("operations", "wasm/src/message: impl Message, impl FromPrior"), ("objects", "wasm/src/message/mod.rs, wasm/src/message/from_prior/mod.rs")],
  "The binding crate is type-checked against the current core crate and each operation interpreted on symbolic arguments, including the promise's task; what wasm-bindgen generates is left uninterpreted. The arguments of the one core call, and the settled value in each outcome, with the members stored in a JavaScript array, are compared with those demanded.")

p("F05", "wasm resolvers are asked what the core asks, and their answers arrive",
  "Asked for a DID, a secret or the known ones of some key ids, the wasm adapters call the JavaScript resolver exactly once for exactly that, and answer what its promise resolves to (of key ids: those asked for that are in the array, in the order asked); an answer of another shape is refused as InvalidState or Malformed; what it throws becomes a failure of the kind its name tells.",
  "every question, every answer and everything thrown", WHY_FFI, ["wasm/src/did", "wasm/src/secrets", "wasm/src/error.rs"],
  [("DID adapter", "wasm/src/did/did_resolver.rs"), ("secrets adapter", "wasm/src/secrets/secrets_resolver.rs")],
  "The adapters the operations hand to the core crate are interpreted on a symbolic question with JavaScript's own functions uninterpreted; question and answer are compared with those demanded on every path, and what is thrown is followed as in F03.")

p("F06", "The wasm package's TypeScript declarations tell the truth",
  "For each data type the TypeScript declarations of the wasm package share by name with the core crate (DID documents and services, secrets, messages and attachments, from_prior, options and metadata of packing and unpacking, parsed Forwards), the declared members are those of its JSON: same names, none missing, none that the core crate would ignore, each of the kind the core reads and writes, optional exactly where it may be absent (and not where its absence is refused), the literals of an enumeration all and only its values; and each declared method or function exists, takes as many parameters in that order and of those kinds, and returns a promise, plain data or an object as declared.",
  "every value of every declared type, every exported function", "Nothing compiles the declarations against the Rust side: a member under another name is dropped silently by serde (a service's routing keys: the message is then not wrapped for its mediators), and the Rust tests never see JavaScript.", ["wasm/src"],
  [("declarations", "wasm/src: typescript_custom_section constants"), ("data types", "src: the serde types of the same names"), ("functions", "wasm/src: exported impls, imported resolver methods")],
  "The declarations are parsed as TypeScript; data types are compared structurally with the serde model of the core types that D01 uses (names, renames, flattening, skipping, defaults, untagged kinds, enumerations), functions with the signatures of the exported and imported functions.",
  technique="static contract comparison of TypeScript declarations with the serde model of the type-checked program (own parser over compiler data)")

p("F07", "The uniffi interface description matches what it describes",
  "Each dictionary, enumeration and tagged choice of the uniffi interface description that shares its name with a type of the core crate has exactly that type's members or cases, under the same names and of the same types, optional exactly where the core's may be absent; and each described method of a type or trait of the binding takes as many parameters, in the order described.",
  "every value of every described type, every described method", WHY_FFI, ["uniffi/src/didcomm.udl", "uniffi/src", "src"],
  [("interface description", "uniffi/src/didcomm.udl"), ("data types", "src: the types of the same names"), ("functions", "uniffi/src: impls and traits of the same names")],
  "The description is parsed; its types are compared structurally with the members, cases and types of the type-checked core crate, its methods with the parameter lists of the binding's functions. (The tests never build the binding, so that they pass when the two have parted.)",
  technique="static contract comparison of the interface description with the type-checked program (own parser over compiler data)")

p("X01", "No input makes the library panic",
  "Whatever message text, DID document, DID or key identifier, secret, option or answer of a resolver it is given, an operation of the library (packing, unpacking, wrapping in and parsing Forward messages, from_prior, builders, in-memory resolvers, and what they use) returns a value or an error and never panics: nothing absent is unwrapped, no list, text or byte string is indexed, sliced or split outside its bounds, no unsigned length is subtracted below zero, and no explicit panic, unreachable, todo or failing assertion is reached. Panics inside other crates, exhausted memory and arithmetic overflow of sums are outside this property.",
  "every input of every function", "Messages come from the network: a panic on malformed input is a remote denial of service, and the tests try a few dozen malformed inputs out of all of them.",
  ["src"],
  [("panicking places", "src: every function of the crate (obligations in evidence/X01.json)")],
  "Every function of the crate is interpreted on its own with arbitrary arguments and arbitrary results of the crate's larger functions; each place that can panic must be unreachable under the facts of its path (variants, lengths, prefixes, first-match facts, joined by a satisfiability test over them). For a private function the facts its callers establish are taken into account by interpreting the callers through it.",
  technique=ABS)

p("X02", "No input makes the language bindings panic",
  "Whatever its caller, a JavaScript or foreign resolver or the core library hands it (values of the wrong shape, errors, reports that come twice or never, a callback dropped), no function of the uniffi and wasm bindings panics: nothing absent is unwrapped, nothing indexed or sliced outside its bounds, and no explicit panic reached. Outside this property: panics inside other crates and in generated glue, exhausted memory and threads, and writing a JSON value as text (which cannot fail).",
  "every input of every function of the bindings", WHY_FFI, ["uniffi/src", "wasm/src"],
  [("panicking places", "uniffi/src, wasm/src: every function (obligations in evidence/X02.json)")],
  "As X01, for each function of the two binding crates, type-checked against the current core crate.",
  technique=ABS)

p("X03", "Operations depend only on what they are given and leave nothing behind",
  "What an operation of the library does depends only on its arguments, on what the resolvers it is given answer, and on fresh random values: no function of the library reads or writes files, network, environment, clock, standard streams (nothing is printed or logged) or process state, none starts a thread, and none keeps anything between calls: there is no static or thread-local value that changes, and no value of the library's types changes behind a shared reference, so repeated and concurrent operations cannot influence each other.",
  "every input, every history of earlier operations and every interleaving with others", "A test sees one operation at a time, or a short fixed history; a stale cache, a leftover of an earlier message or a race shows only in particular histories.",
  ["src"],
  [("every function of the crate", "src (obligations in evidence/X03.json)")],
  "Effect analysis over the MIR of every function of the crate, closures and async bodies included: each function called or handed on as a value is looked up among those of the standard library and its likely companions that reach outside the arguments; each static used must be immutable and free of interior mutability (or a lazily made constant whose initialiser captures nothing); each type of the crate must have no member that changes behind a shared reference.",
  technique="effect analysis over the compiler's MIR: reachable callees, statics and interior mutability", over=("inputs", "histories", "schedules"))

p("X04", "Private key material goes into the key functions and nowhere else",
  "The private key material the library gets from the secrets resolver, the key pairs it makes of it and the content and wrapping keys it draws, agrees or unwraps are used as keys only: they never appear in an error's message or context or in any text formatted, are never asked of a DID or secrets resolver, and no private key is exported as a JWK, a key pair or bytes.",
  "every secret, every message and every way an operation can fail", "An error text is looked at by no test; what a particular failure tells of a key shows only on that failure, in somebody's log.",
  ["src/utils/crypto.rs", "src/utils/did.rs", "src/secrets", "src/message", "src/jwe", "src/jws"],
  [("where errors are made", "src/error.rs, ResultExt and its callers"), ("where keys are made of secrets", "src/utils/did.rs AsKnownKeyPair"), ("where keys are agreed and unwrapped", "src/utils/crypto.rs, src/jwe, src/message")],
  "Every function of the crate is interpreted over all its paths with its secrets and keys as marked values; what is handed to the functions that make error messages and contexts, to text formatting and to the resolvers is an expression over the inputs, which must contain none of the marked values nor a member that holds private material, other than through a function that gives only a public fact of it (a length, an algorithm, a public key) or a library's own error. Calls of the functions that export a private key are looked for in the MIR of every function.",
  technique="information flow: marked values followed through an abstract interpretation of the MIR to error texts, formatting and resolver calls", over=("inputs",))

na("N01", "What one party packs, the other unpacks to the same message",
  "For every message, parties and options with which pack_encrypted, pack_signed or pack_plaintext succeeds, unpacking its result with the recipient's (or any) resolvers gives the same message, with metadata that tells the protections used.",
  "every message, pair of parties, choice of options and pair of resolvers", "Tests round-trip a few messages between two fixed parties.",
  ["src/message"], [("packing", "src/message/pack_encrypted/mod.rs"), ("unpacking", "src/message/unpack/mod.rs")],
  "The equality rests on decryption being the inverse of encryption, verification accepting what signing made, and key agreement giving both sides one secret: numeric facts about askar-crypto's functions, whose source is not available here and which no dataflow or syntactic argument reaches. What is structural in it is decided: both directions name the same members, algorithms, parties, associated data and derivation inputs (E01, E02, D06, D07, P01-P06, U01-U05).")

na("N02", "Sealed content cannot be read or altered without a recipient's key",
  "Without the private key of a recipient nobody learns anything of a sealed message but its length, its recipients and its algorithms, nor makes another one that is accepted; nobody signs for a key they do not have.",
  "every adversary", "No test can quantify over adversaries.",
  ["src/jwe", "src/jws"], [("encryption", "src/jwe/encrypt.rs"), ("decryption", "src/jwe/decrypt.rs")],
  "Confidentiality and unforgeability are computational claims about the primitives of askar-crypto and its random generator; a static analysis of this crate can only show that the right primitive is used with the right inputs, freshly made where they must be, and that nothing is accepted unverified, which P01, P02, P03, U01, U02, U03 and U04 do.")

na("N03", "No operation tells secrets by its duration",
  "The duration of unpacking and signing does not depend on private keys or on sealed content.",
  "every pair of secrets and every message", "Tests do not measure time, and could sample only a few secrets.",
  ["src/jwe/decrypt.rs", "src/jws/sign.rs"], [("decryption", "src/jwe/decrypt.rs"), ("signing", "src/jws/sign.rs")],
  "Time is made in the compiled code of the primitives and the allocator; this crate's own branches on secret-dependent data (whether a key unwraps) are visible in its documented answers anyway. Nothing about duration can be settled from this crate's source.")

na("N04", "Every operation ends",
  "Given resolvers that answer, every operation ends, within time and memory proportional to a polynomial of the size of its inputs.",
  "every input", "Tests see only runs that end.",
  ["src/message/unpack/mod.rs", "src/protocols/routing/mod.rs"], [("unwrapping loop", "src/message/unpack/mod.rs"), ("mediator chain", "src/protocols/routing/mod.rs")],
  "The one loop that is not over a finished list unwraps forwards: it ends because each unwrapped message is shorter than the text it was sealed in, a numeric fact about ciphertext lengths of external ciphers and about JSON text. (The mediator chain is bounded at one mediator, which R01 decides.) Polynomial bounds would need cost models of serde_json and askar-crypto.")
