#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
B='webauthn_rp/backends.py'; P='webauthn_rp/parsers.py'; A='webauthn_rp/attesters.py'
C='webauthn_rp/converters.py'; U='webauthn_rp/utils.py'; T='webauthn_rp/types.py'
V='webauthn_rp/verifiers.py'; L='webauthn_rp/validators.py'; R='webauthn_rp/registrars.py'
D='webauthn_rp/builders.py'; E='webauthn_rp/errors.py'; S='webauthn_rp/asn1.py'
out=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    out.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=observe,hook_needed=hook)))

p('C01','Registration succeeds exactly when every ceremony condition holds',
 'Handling a registration response completes, and hands the new credential to the relying party\'s registrar, if and only if the client data type is "webauthn.create", its challenge equals the expected bytes, its origin is one of the expected origins, its token binding equals the expected one (both absent, or same status and id), the RP ID hash is that of the given relying party, the user-present flag is set, the user-verified flag is set when verification is required, every expected extension output is present, a usable credential key is included, and the attestation statement verifies. Whenever any one of these fails the call raises and the registrar is not asked to store anything. Statement formats the library does not verify (packed, tpm, android-safetynet) are never accepted.',
 ['inputs','configurations'],'every combination of honest and deviating values of the client data, authenticator data, attestation statement and relying-party expectations',
 'test_backends.py walks one success and about a dozen single deviations, with one key, one origin and only the "none" format; combinations, boundary values and the other formats are never run through the backend.',
 [B,P,A],[('handle_credential_attestation',B+': CredentialsBackend'),('attest dispatch',A)],
 ['handle_credential_attestation return/raise','calls to register_credential_attestation'])
p('C02','Authentication succeeds exactly when every ceremony condition holds',
 'Handling an authentication response completes, and reports it to the registrar, if and only if the credential is in the allow list when one is given and is known to the registrar, user and relying party resolve consistently, the client data type is "webauthn.get", challenge, origin and token binding match the expected ones, the RP ID hash is that of the resolved relying party, the user-present flag (and the user-verified flag when required) is set, every expected extension output is present, the signature verifies under the stored public key, and the signature counter is acceptable (or clone errors are ignored). Whenever any one of these fails the call raises and the registrar is not told of a successful authentication.',
 ['inputs','configurations'],'every combination of honest and deviating values of the assertion, the stored credential data and the relying-party expectations',
 'The tests sample single deviations with one P-256 key; interacting conditions (for instance a verification requirement together with an extension and an ignored clone error) are never combined.',
 [B,P,V],[('handle_credential_assertion',B+': CredentialsBackend'),('verify',V)],
 ['handle_credential_assertion return/raise','calls to register_credential_assertion'])
p('C03','Evidence cannot be recombined, altered or replayed across ceremonies',
 'An authentication is only accepted if the private key belonging to the stored credential signed exactly the presented authenticator data followed by the SHA-256 of exactly the presented client data. No recombination of credential ids, client data, authenticator data, signatures and user handles captured from other ceremonies (another user, relying party, challenge, origin, ceremony type or the attacker\'s own authenticator) is accepted, and neither is any response in which a byte of the authenticator data, client data or signature was changed, removed, inserted or appended. In particular a captured response is never accepted for a later challenge.',
 ['histories','inputs'],'all recombinations of all pieces an attacker captured from a set of honest ceremonies, and all single-byte changes, truncations and extensions of honest responses',
 'The tests only present responses of one ceremony each and flip signature bytes only in the verifier unit tests.',
 [B,V],[('verification data is authenticator data + client data hash',B),('challenge comparison',B)],
 ['handle_credential_assertion return/raise'])
p('C04','The signature counter detects clones and never goes backwards',
 'An assertion for a credential whose stored counter is known is accepted only if the reported counter is strictly greater than the stored one, or both are zero (authenticator without a counter); otherwise it is refused as a possible clone, unless the caller asked to ignore clone errors. With no stored counter any reported value is accepted, and the reported 32-bit value is what the registrar is given to store. Consequently, for a registrar that stores what it is given, along every history of genuine, replayed and cloned assertions an assertion with an old nonzero counter is never accepted.',
 ['histories','inputs'],'all histories of assertions over the boundary values of the 32-bit counter, with several credentials, stored and missing counters, and clone errors enforced or ignored',
 'One test uses a stored count of 10 against 0; equality, both-zero, the 2^31 and 2^32-1 boundaries and histories are not exercised.',
 [B,R],[('counter comparison',B+': handle_credential_assertion')],['SignatureCountError','authenticator_data.sign_count given to register_credential_assertion'],
 state=[('stored signature count','last counter the registrar stored for the credential',R+': CredentialData.signature_count')])
p('C05','Registrar failures always fail the ceremony, and it is called exactly once',
 'If the registrar raises any exception or returns anything other than None when storing a registration or an authentication, or raises while looking up a credential, the ceremony raises a registration error; if the lookup returns nothing it raises a credential data error, and if what it returns is not credential data the ceremony fails with a library error; it never completes normally. On an otherwise valid ceremony the storing callback is called exactly once, last, with the credential, user and relying party of that ceremony and the parsed data that were verified. Failures leave the backend fully usable for later ceremonies.',
 ['fault_sequences','histories'],'all sequences of registrar answers (None, truthy and falsy values, library and other exceptions) over sequences of registrations and authentications',
 'The tests try one exception and the string "Error"; falsy answers, library exceptions raised by the registrar, call counts, call arguments and behaviour after a failure are not checked.',
 [B,R],[('registrar calls and result check',B)],['RegistrationError / CredentialDataError','registrar call log'])
p('C06','Malformed client bytes only ever raise the library\'s own errors',
 'Whatever bytes or JSON values a client sends, the registration and authentication handlers and the parsing functions either return a result or raise an error derived from the library\'s base error; no other exception type escapes, and the call terminates. Input that cannot be decoded or does not have the required structure is reported as a parser error by the parsing functions and never reaches the storing callbacks.',
 ['inputs'],'every short byte string, every truncation and single-byte change of valid messages, every small CBOR tree (including tags, invalid text and deep nesting) and small JSON tree in every position',
 'The parser tests pick a few dozen malformed inputs; escaping exception types depend on rare inputs such as invalid UTF-8, CBOR tags, huge integers or deep nesting.',
 [P,B,E],[('exception translation',P+', '+B)],['exceptions raised by parse_* and handle_credential_*'])
p('C07','Each failed check is reported with its own documented error class',
 'When exactly one condition of a ceremony fails, the handler raises the documented error class for that condition (client data type, challenge, origin, token binding, RP ID or RP ID hash, user presence, user verification, extension, attestation, disallowed credential, missing credential data, user id, user handle, missing relying party, signature, signature counter, registration, parsing or decoding), and when several fail it raises the class of one of them. An otherwise valid ceremony never raises, and a client-side mistake the documentation names is never reported as an unexpected internal error, nor is an attestation statement that cannot be used, whatever is wrong with it.',
 ['inputs','configurations'],'every single deviation and every pair of deviations of both ceremonies',
 'The tests check one instance of most classes from one base ceremony; pairs of failures and boundary instances of each class are not covered.',
 [B,E],[('raise sites',B),('error hierarchy',E)],['exception class raised by handle_credential_*'])
p('C08','Origins match exactly by scheme, host and effective port',
 'A client origin is accepted if and only if its scheme, its host (compared case-insensitively) and its port (80 for http and 443 for https when not written) equal those of one of the expected origins, whether these are given as a single string or a collection. A string without scheme or host, with a scheme other than http or https, with user information, a non-empty path, query or fragment, or with an invalid port is refused with an origin error, on either side; an empty collection of expected origins is refused too. Look-alikes such as subdomains, suffixes, prefixes and other ports never match.',
 ['inputs','configurations'],'all pairs of origins from a grammar of schemes, hosts, ports and decorations, in single and collection form, in both ceremonies',
 'There is no test of origin parsing at all, and backend tests use a single origin.',
 [P,B],[('parse_origin',P),('allowed origins',B+': _extract_allowed_origins')],['parse_origin','OriginError from handle_credential_*'])
p('C09','Authenticator data is decoded exactly, with nothing missing or left over',
 'Parsing raw authenticator data returns exactly the encoded RP ID hash, flags byte, big-endian 32-bit counter, AAGUID, credential id of the encoded 16-bit length, credential public key and extension outputs, with attested credential data and extensions present if and only if their flags are set. Data that is too short, is cut at any byte, has bytes left over, or whose contents disagree with the flags is refused with a parser error.',
 ['inputs'],'all flag bytes, boundary counters, credential id lengths, key types and extension maps, and every truncation and extension of each',
 'Tests parse a handful of hand-written values with short credential ids; flag bytes, the length field\'s high byte, counter boundaries and cuts at each byte are sampled at best.',
 [P,T],[('parse_authenticator_data',P)],['parse_authenticator_data result'])
p('C10','Credential public keys survive COSE encoding and decoding unchanged',
 'For every supported key (EC2 on P-256, P-384, P-521; OKP on Ed25519, Ed448; any supported algorithm; with or without key id, key operations and base IV; identifiers in numeric or text form) encoding to COSE and parsing back, from bytes or from the decoded map, yields an equal key, and the encoded map contains exactly the fields that are set. A map with a missing, mistyped, unknown or unsupported type, algorithm, curve or key operation, or with coordinates whose length does not fit the curve, is refused with a parser error.',
 ['inputs'],'the full product of key types, curves, algorithms, optional fields and identifier forms, and all one- and two-field malformations',
 'Round trips are tested only for keys without optional fields; malformations are sampled one by one.',
 [C,P,T],[('cose_key',C),('parse_cose_key',P)],['cose_key bytes','parse_cose_key result'])
p('C11','Attestation objects and statements are parsed strictly per format',
 'An attestation object is accepted only if it is a map with binary authenticator data, a known textual format and a statement map holding exactly the fields of that format with the right types (packed and tpm in their basic, certificate and ECDAA variants; android-key; android-safetynet; fido-u2f; none with an empty statement); the result is the statement kind for that format and carries the encoded values unchanged, together with the raw decoded object. Any missing, mistyped or additional field, unknown format or unknown algorithm is refused with a parser error.',
 ['inputs'],'all six formats and their variants with every combination of missing, mistyped and additional fields up to the bound',
 'Tests sample particular malformations for each format; combinations and cross-format confusion are not enumerated.',
 [P,T],[('parse_attestation_object and statement parsers',P)],['parse_attestation_object result'])
p('C12','Client data is decoded faithfully and refused when malformed',
 'Parsing client data accepts exactly UTF-8 JSON objects whose type, challenge and origin are strings and whose token binding, if present and not null, is an object with status "supported" or "present", the latter with an id; the result carries those values unchanged and members the library does not know are ignored. Everything else is refused with a parser error (undecodable bytes and JSON with its decoding subclass).',
 ['inputs'],'all combinations of present, missing and mistyped members and of JSON-level malformations',
 'Tests list a few malformed objects; cross products of members, unknown members, unusual Unicode and numeric limits are not covered.',
 [P,T],[('parse_client_data',P)],['parse_client_data result'])
p('C13','Public key credentials survive the JSON form unchanged',
 'For every registration or authentication credential, parsing its JSON form (bytes in standard base64, camel-case names) yields the same id, type, raw id and response with identical bytes, and the user handle is absent exactly when it was absent. JSON with a missing or mistyped member, an additional member, members of both response kinds mixed, or invalid base64 is refused with a parser error.',
 ['inputs'],'all credentials over byte strings of every small length and every byte value, and all one- and two-member malformations',
 'Tests check a few sample credentials and malformations.',
 [P,C,T],[('parse_public_key_credential',P),('jsonify',C)],['parse_public_key_credential result','jsonify result'])
p('C14','Extension outputs are type-checked and carried through unchanged',
 'Parsing extension outputs returns every known extension with exactly the value that was sent (including false, empty and zero values) and leaves the others unset. A value of the wrong type for its extension (including nested entries of the extension list, the verification methods and the coordinates) or an unknown extension or coordinate name is refused with a parser error. A required extension counts as present exactly when the parsed output is set.',
 ['inputs'],'all extensions with all alphabet values, alone and in pairs, and all subsets of present extensions against all required sets',
 'Tests sample values for each extension, mostly truthy; falsy outputs and requirement checks against them are not exercised.',
 [P,B,T],[('parse_extensions',P),('expected_extensions check',B)],['parse_extensions result','ExtensionError'])
p('C15','Options sent to the browser contain exactly what was configured',
 'Converting credential creation or request options to JSON yields an object with exactly the configured members under their WebAuthn names, byte strings in standard base64, enumerations as their standard values, lists in order, and members that were not set left out; members set to false, zero or an empty value are kept. The result is serialisable as JSON, decoding the base64 members gives back the original bytes, and the options object is not changed. Without name conversion the same values appear under the library\'s own member names. Plain lists and mappings are converted the same way, and a value or mapping key that has no JSON form is refused with the library\'s own error.',
 ['inputs','configurations'],'all subsets of optional members at every nesting level, all enumeration values, falsy and boundary values, all byte values',
 'Two tests convert one fully populated object each; absent and falsy members and their combinations are not covered.',
 [C,T,D],[('jsonify',C),('snake_to_camel_case',U)],['jsonify result'])
p('C16','Builders are persistent: deriving one never changes another',
 'Setting an attribute on an options builder returns a new builder that differs from the original in that attribute only, and the original still builds exactly what it built before, along every sequence of settings and builds starting from any constructor arguments. A derived builder shares no changeable state with the original for the attributes it inherited, so later in-place changes to one\'s values do not show in the other. Building passes every configured attribute through unchanged and fails with a builder error exactly when a required one is missing.',
 ['histories'],'all sequences of setter and build operations up to a depth on a growing family of derived builders',
 'The tests call each setter once with mock values and never look at the original again.',
 [D],[('copy-on-set',D)],['options returned by build'])
p('C17','FIDO U2F attestation accepts exactly genuine U2F signatures',
 'A fido-u2f registration is accepted if and only if the statement holds exactly one X.509 certificate with a P-256 key and a signature by that key over 0x00, the RP ID hash, the client data hash, the credential id and the uncompressed credential public key of this very ceremony; it is then reported as basic attestation with that certificate as trusted path. Any other certificate count, certificate, key type, signature or signed content is refused and nothing is stored.',
 ['inputs'],'all combinations of certificate counts, certificate kinds, signers and deviations of every component of the signed content',
 'One unit test calls the statement verifier directly with a few invalid variants; it is never run through the backend, with the other components of the signed content changed.',
 [A,B],[('attest_fido_u2f',A)],['handle_credential_attestation','arguments of register_credential_attestation'])
p('C18','Android key attestation enforces every certificate constraint',
 'An android-key registration is accepted if and only if the first certificate\'s key is an elliptic-curve or Edwards key equal to the credential public key and signed the authenticator data followed by the client data hash with the stated algorithm, and its key description extension is present and well-formed, has the client data hash as challenge, has no allApplications entry in either authorization list, and in its hardware-enforced list has the origin "generated" and contains the purpose "sign". It is then reported as basic attestation with that certificate as trusted path; anything else is refused and nothing is stored.',
 ['inputs'],'all combinations of certificate keys, signers, algorithms, challenges, and origin, purpose and allApplications entries in both lists, with and without other authorization entries',
 'One unit test calls the statement verifier directly with signature, key and extension failures; origin, purpose and allApplications constraints are never tested.',
 [A,S,B],[('attest_android_key',A),('KeyDescription schema',S)],['handle_credential_attestation','arguments of register_credential_attestation'])
p('C19','A signature verifies only for its key, algorithm, data and exact bytes',
 'Verification with a credential public key succeeds for every signature made by the matching private key over the same data with the hash its algorithm names (SHA-256, SHA-384, SHA-512, or EdDSA), for every supported curve and data length. It raises a verification error for any other key, algorithm, data or signature bytes, including empty, truncated, extended and re-encoded signatures, and a key that is not a point on its curve is refused with a conversion error.',
 ['inputs'],'all pairs of signer and verifier over all curves and algorithms, all byte changes, truncations and extensions of signatures and data',
 'Tests use matched curve and algorithm pairs and flip bytes of the signature only.',
 [V,C,U],[('verify',V),('cryptography_public_key',C),('hash selection',U)],['verify return/raise'])
p('C20','Concurrent ceremonies and builders do not influence each other',
 'When several threads use one backend, or derive and build options from one builder, at the same time, each call has exactly the outcome it would have alone, and each registrar call carries the credential, user, relying party and parsed data of its own ceremony, whatever the interleaving.',
 ['schedules'],'all interleavings of two concurrent calls up to the preemption bound, at the granularity of source lines or bytecodes, from a freshly started process',
 'The tests are single-threaded.',
 [B,D,P],[('handlers keep all ceremony state in locals',B)],['outcome of each call','registrar call log'])
p('C21','Results depend only on the arguments, and arguments are left unchanged',
 'The outcome of every parser, converter, verifier, builder and handler call depends only on its arguments and the registrar\'s answers, never on which calls, successful or failed, were made before in the process, and repeating a call gives the same outcome. No call modifies the objects passed to it, or a result returned earlier.',
 ['histories'],'all sequences of up to three calls over an alphabet of valid and invalid, deliberately colliding calls, from a freshly started process',
 'Each test uses fresh objects and looks at one call; hidden state such as caches or reused results is never provoked.',
 [P,C,B,A,D,V],[('functions without module state','webauthn_rp/')],['results and arguments before and after each call'])
p('C22','Any challenge bytes survive the trip to the client and back',
 'For every challenge byte string, the JSON options carry it in standard base64, and the same bytes returned by a client as base64url, with or without padding, are recognised as that challenge, while the encoding of any other byte string is not. Encoding bytes as base64url and decoding the result is the identity, uses only the URL-safe alphabet, and decoding does not need the padding.',
 ['inputs'],'all byte strings up to a small length and all byte values in all alignments of longer ones',
 'Tests use a few short values; the characters that differ between the two base64 alphabets and each padding length meet only by chance.',
 [U,C,B],[('url_base64_encode / url_base64_decode',U),('challenge comparison',B)],['url_base64_*','handle_credential_*'])
p('C23','Only coherent, supported public keys can be registered',
 'A credential key passes validation, and can be registered, exactly when an EC2 key uses curve P-256, P-384 or P-521 with ES256, ES384 or ES512, or an OKP key uses Ed25519 or Ed448 with EdDSA, in numeric or text form; any other combination of key type, curve and algorithm is refused with a library error and never stored. Each curve has its fixed coordinate length, which is enforced exactly.',
 ['inputs'],'the full product of key types, curves, algorithms, identifier forms and coordinate lengths, directly and through registration',
 'Validator tests cover numeric forms on key objects only; the combination with parsing and registration is not tested.',
 [L,P,T,U],[('validate',L),('parse_cose_key',P)],['validate','handle_credential_attestation'])
p('C24','Registered credentials authenticate their owner over the whole lifecycle',
 'With a registrar that stores what it is given, as the documentation describes, every registered credential of every supported key type later authenticates its owner, with the user named by the caller or by the user handle, and never another user, another relying party, or an unregistered or differently owned credential, along every history of registrations and authentications by several users and authenticators. Failed attempts change nothing.',
 ['histories'],'all histories of registrations and authentications of two users with two authenticators up to a depth, for all key types and attestation formats',
 'No test registers a credential and then authenticates with what was stored.',
 [B,C,P,R],[('both handlers, key storage encoding',B+', '+C)],['outcomes along the history, stored credential state'],
 state=[('credential store','credential id -> key, counter, owner, relying party',R+': CredentialsRegistrar')])
p('C25','The authenticated user and relying party are the credential\'s own',
 'An authentication names the credential owner: a user given by the caller must have the id of the credential\'s registered owner, without one a user handle is required, and a user handle, when sent, must equal that id exactly. The relying party used is the registered one or, if none is registered, the given one; both given with different ids, or neither, is refused; and with an allow list, even an empty one, only a credential whose id is exactly one of the listed ids is allowed. The registrar is told of exactly this user and relying party.',
 ['inputs','configurations'],'the full product of given and registered users, user handles, given and registered relying parties and allow lists, including empty, prefix and extended ids',
 'Tests try single mismatches; empty ids, prefixes, empty and longer allow lists and combinations are not covered.',
 [B],[('user, handle, RP and allow-list resolution',B+': handle_credential_assertion')],['handle_credential_assertion','arguments of register_credential_assertion'])
p('C26','The answers do not depend on how the interpreter is run',
 'For the same arguments, every parse, conversion, check, build and ceremony gives the same outcome however the Python interpreter is run: with -O or -OO (no check rests on an assertion that optimisation strips), under any hash seed, with byte-comparison warnings or other warnings turned into errors, in development mode, in any locale, time zone or environment, without standard streams, with garbage collection off or eager, in a thread, in a coroutine or under a tracer, from a zip file or from compiled files alone, and whichever module of the package is imported first. What happens when a plain interpreter fails an assertion, because a caller broke a precondition, is open.',
 ['configurations','inputs'],'every listed way to start and set up the interpreter x a catalogue of calls of every part, complete small input spaces with and without optimisation, every order of importing two modules',
 'The tests run in one plain interpreter with assertions enabled, one import order and one hash seed.',
 [B,P,V,A],[('assertions next to the checks',B+', '+P+', '+A),('collections of origins and names',B+', '+P),('package imports','webauthn_rp/__init__.py')],['results and exceptions of the public functions','calls to the registrar'])
p('C27','What is not supported is refused, never passed',
 'Attestation statements, credential public keys, curves and algorithms for which the library has no logic (formats parsed but not verified, base and caller-made classes, symmetric or foreign keys, coordinates on another curve) are refused as unimplemented or invalid by attestation, validation, verification and conversion: no operation returns a result for them, and no signature is verified under another curve or algorithm than the key states. Every registered number and name of an algorithm, key type, key operation, curve, format or option stands for exactly its own meaning and nothing else is recognised. A registrar that leaves out a callback a ceremony needs makes it fail, never complete, and one that has all it needs suffices.',
 ['inputs','configurations'],'every operation x every unsupported class and foreign value; every key class x curve x coordinates x algorithm; every integer and text of a large alphabet in each table; every subset of registrar callbacks x ceremony',
 'The tests call each operation on supported values; the refusing branches, the tables and partly defined registrars are barely touched.',
 [A,V,R],[('base cases of the dispatching functions',A+', '+V+', webauthn_rp/converters.py, webauthn_rp/validators.py'),('enumerations','webauthn_rp/types.py'),('default callbacks',R)],['results and exceptions of attest, verify, validate, cryptography_public_key, cose_key','outcome of ceremonies'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for o in out: f.write(json.dumps(o)+'\n')
print(len(out))
