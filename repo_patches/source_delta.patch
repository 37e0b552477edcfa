From 24134564e2cd52216470132a0d71dc1ba1b99320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 01/11] fix: pass the attestation object, not the public key,
 to attest

attest takes the parsed attestation object. The backend handed it the
credential public key, so every FIDO U2F and Android Key registration ended
in InternalError (AttributeError on auth_data). Missing attested credential
data is now refused explicitly instead of by an assert.
---
 webauthn_rp/backends.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 4f684a5..73e65a1 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -3,7 +3,7 @@ from typing import Collection, Optional, Sequence, Set, Union, cast
 
 from webauthn_rp.attesters import attest
 from webauthn_rp.errors import (
-    ChallengeError, ClientDataTypeError, CredentialDataError,
+    AttestationError, ChallengeError, ClientDataTypeError, CredentialDataError,
     CredentialNotAllowedError, DecodingError, ExtensionError, InternalError,
     OriginError, RegistrationError, RPIDError, RPIDHashError, RPNotFoundError,
     SignatureCountError, TokenBindingError, UserHandleError, UserIDError,
@@ -198,12 +198,13 @@ class CredentialsBackend:
                             e.value))
 
             assert attestation.auth_data is not None
-            assert attestation.auth_data.attested_credential_data is not None
+            if attestation.auth_data.attested_credential_data is None:
+                raise AttestationError(
+                    'Attested credential data must be present')
 
-            att_type, trusted_path = attest(
-                attestation.att_stmt, attestation.auth_data.
-                attested_credential_data.credential_public_key,
-                raw_att_obj['authData'], client_data_JSON_hash)
+            att_type, trusted_path = attest(attestation.att_stmt, attestation,
+                                            raw_att_obj['authData'],
+                                            client_data_JSON_hash)
 
             try:
                 response = self.registrar.register_credential_attestation(
-- 
2.43.0


From 9fbb689e5df0424b97b21236c18d294f49475ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 02/11] fix: encode the COSE base IV whenever it is present

cose_key dropped base_IV when key_ops was absent, and wrote a null base IV
when key_ops was present without one.
---
 webauthn_rp/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/converters.py b/webauthn_rp/converters.py
index 2d12b1e..6eb41eb 100644
--- a/webauthn_rp/converters.py
+++ b/webauthn_rp/converters.py
@@ -170,7 +170,7 @@ def _build_base_cose_dictionary(
     d[3] = credential_public_key.alg.value
     if credential_public_key.key_ops is not None:
         d[4] = [x.value for x in credential_public_key.key_ops]
-    if credential_public_key.key_ops is not None:
+    if credential_public_key.base_IV is not None:
         d[5] = credential_public_key.base_IV
     return d
 
-- 
2.43.0


From 4da95b383558321587f1cd8040ea082fc54fb817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 03/11] fix: do not report a clone for authenticators without a
 counter

An authenticator that does not implement the signature counter always
reports zero. The counters are only to be compared when either one is
nonzero (WebAuthn, verifying an authentication assertion, step 17);
such authenticators could never authenticate a second time.
---
 webauthn_rp/backends.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 73e65a1..0070f79 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -431,7 +431,10 @@ class CredentialsBackend:
 
             registered_sign_count = credential_data.signature_count
             if registered_sign_count is not None:
-                if auth_data.sign_count <= registered_sign_count:
+                counter_in_use = (auth_data.sign_count != 0
+                                  or registered_sign_count != 0)
+                if (counter_in_use
+                        and auth_data.sign_count <= registered_sign_count):
                     if not ignore_clone_error:
                         raise SignatureCountError(
                             'Detected a possible authenticator clone')
-- 
2.43.0


From e60bfb7a91e022ffee39185d76db6020ccea3c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 04/11] fix: raise OriginError for origins that cannot be
 parsed

urlparse raises ValueError for unbalanced IPv6 brackets, and reading its
port attribute does for ports that are not in range.
---
 webauthn_rp/parsers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index d902be6..4bb5a97 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -66,7 +66,12 @@ def parse_origin(origin: str) -> Origin:
     if '://' not in origin:
         raise OriginError('Invalid origin, missing scheme')
 
-    url = urlparse(origin)
+    try:
+        url = urlparse(origin)
+        explicit_port = url.port
+    except ValueError:
+        raise OriginError('Invalid origin, could not be parsed')
+
     if url.path or url.params or url.query or url.fragment:
         raise OriginError('Invalid origin, cannot have path, params, query, '
                           'or fragment present')
@@ -80,10 +85,10 @@ def parse_origin(origin: str) -> Origin:
 
     scheme = url.scheme
     hostname = url.netloc
-    if url.port is None:
+    if explicit_port is None:
         port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]
     else:
-        port = url.port
+        port = explicit_port
 
     return Origin(
         scheme=scheme,
-- 
2.43.0


From 225fbc14a5f09fa1ccf856ad9733afd7fa665bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 05/11] fix: keep the port out of the parsed origin's hostname

The hostname was the whole network location, port included and in its
original case, so https://example.com:443 and https://example.com, or
differently cased hosts, never compared equal although they are the same
origin. Origins have no user information.
---
 webauthn_rp/parsers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 4bb5a97..5fca36e 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -76,7 +76,11 @@ def parse_origin(origin: str) -> Origin:
         raise OriginError('Invalid origin, cannot have path, params, query, '
                           'or fragment present')
 
-    if not url.netloc:
+    if '@' in url.netloc:
+        raise OriginError('Invalid origin, cannot have user information')
+
+    hostname = url.hostname
+    if not hostname:
         raise OriginError('Invalid origin, must provide a hostname')
 
     if url.scheme not in {'http', 'https'}:
@@ -84,7 +88,6 @@ def parse_origin(origin: str) -> Origin:
             url.scheme))
 
     scheme = url.scheme
-    hostname = url.netloc
     if explicit_port is None:
         port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]
     else:
-- 
2.43.0


From 5828fce02bd68c683eabaac7f0fbd62370816bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 06/11] fix: raise DecodingError for all undecodable client
 data

json.loads also raises ValueError for integers with too many digits, and
RecursionError for deeply nested data.
---
 webauthn_rp/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 5fca36e..6759bba 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -727,7 +727,7 @@ def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
     try:
         client_data_text = client_data_JSON.decode('utf-8')
         client_data = json.loads(client_data_text)
-    except (UnicodeDecodeError, json.JSONDecodeError):
+    except (ValueError, RecursionError):
         raise DecodingError('Could not decode the client data JSON')
 
     if type(client_data) is not dict:
-- 
2.43.0


From 44af76efc356d0345fe3f0d637e7f2414281964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 07/11] fix: raise DecodingError for all undecodable CBOR

cbor2 lets other exceptions through: UnicodeDecodeError for text strings that
are not UTF-8, and ValueError, TypeError, OverflowError, RecursionError,
SystemError and others for malformed tagged, nested and oversized data.
---
 webauthn_rp/parsers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 6759bba..e3b49bd 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -797,7 +797,7 @@ def parse_cose_key(
     if type(credential_public_key) is bytes:
         try:
             credential_public_key = cbor2.loads(credential_public_key)
-        except cbor2.CBORDecodeError:
+        except Exception:
             raise DecodingError('Could not decode credential public key CBOR')
 
         if type(credential_public_key) is not dict:
@@ -869,7 +869,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
 
             try:
                 credential_public_key = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError(
                     'Could not decode the credential public key CBOR')
 
@@ -893,7 +893,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
         try:
             try:
                 extensions = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError('Could not decode the extensions CBOR')
 
             if type(extensions) is not dict:
@@ -936,7 +936,7 @@ def parse_attestation_object(
     """
     try:
         attestation_object_data = cbor2.loads(attestation_object)
-    except cbor2.CBORDecodeError:
+    except Exception:
         raise DecodingError('Could not decode the attestation object CBOR')
 
     if type(attestation_object_data) is not dict:
-- 
2.43.0


From bb7bc242cfc458900b21cf29abe7063c84375fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 08/11] fix: accept key attestations without a verified boot
 hash

RootOfTrust.verifiedBootHash only exists since attestation version 3, so
the key description of every version 1 or 2 attestation with a root of
trust failed to decode.
---
 webauthn_rp/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/asn1.py b/webauthn_rp/asn1.py
index 8e6e11c..d5b0183 100644
--- a/webauthn_rp/asn1.py
+++ b/webauthn_rp/asn1.py
@@ -44,7 +44,7 @@ class RootOfTrust(Sequence):
         NamedType('verifiedBootKey', OctetString()),
         NamedType('deviceLocked', Boolean()),
         NamedType('verifiedBootState', VerifiedBootState()),
-        NamedType('verifiedBootHash', OctetString()),
+        OptionalNamedType('verifiedBootHash', OctetString()),
     )
 
 
-- 
2.43.0


From 0f1f43cc83252977ac44c79b82285394210176cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:13 +0000
Subject: [PATCH 09/11] fix: raise ParserError for a credential that is not a
 JSON object

---
 webauthn_rp/parsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index e3b49bd..90b8208 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -149,6 +149,9 @@ def parse_public_key_credential(data: Dict) -> PublicKeyCredential:
       ParserError: Could not correctly parse the data.
       DecodingError: Could not decode base64-encoded data.
     """
+    if type(data) is not dict:
+        raise ParserError('Public key credential must be a dictionary')
+
     _check_unsupported_keys({'id', 'rawId', 'response', 'type'}, data)
     id_ = _parse_dictionary_field('id', str, data)
     type_ = _parse_dictionary_field('type', str, data)
-- 
2.43.0


From 721a9cbf9e65afddaf5b66614c69811c519d48f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 10/11] fix: refuse invalid base64 in JSON credentials instead
 of dropping characters

---
 webauthn_rp/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 90b8208..426a844 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -128,7 +128,7 @@ def _check_unsupported_keys(supported: Set[str], data: Dict):
 
 def _bytes_from_base64(s: str) -> bytes:
     try:
-        return base64.b64decode(s)
+        return base64.b64decode(s, validate=True)
     except Exception:
         raise DecodingError('Invalid base64 string')
 
-- 
2.43.0


From aab50690c71850f8e281797ea340bde1257b96c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 11/11] fix: unusable attestation certificates, keys and
 algorithms raise AttestationError

---
 webauthn_rp/attesters.py | 42 ++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 8a8cec0..ca7daba 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -1,8 +1,9 @@
 from functools import singledispatch
-from typing import Tuple, cast
+from typing import Tuple
 
 import cryptography
 import cryptography.x509
+from cryptography.exceptions import UnsupportedAlgorithm
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives.asymmetric.ec import (
     ECDSA, SECP256R1, EllipticCurvePublicKey)
@@ -33,6 +34,13 @@ __all__ = [
     'attest_none',
 ]
 
+#: What loading a certificate, its public key or its extensions raises for
+#: bytes that are not a usable X.509 certificate.
+_CERTIFICATE_ERRORS = (ValueError, UnsupportedAlgorithm,
+                       cryptography.x509.InvalidVersion,
+                       cryptography.x509.DuplicateExtension,
+                       cryptography.x509.UnsupportedGeneralNameType)
+
 
 @singledispatch
 def attest(att_stmt: AttestationStatement, att_obj: AttestationObject,
@@ -85,11 +93,11 @@ def attest_fido_u2f(
     try:
         att_cert_x509 = cryptography.x509.load_der_x509_certificate(
             att_cert, default_backend())
-    except ValueError:
+        att_cert_x509_pk = att_cert_x509.public_key()
+    except _CERTIFICATE_ERRORS:
         raise AttestationError(
             'FIDO U2F attestation failed: unable to load X509 certificate')
 
-    att_cert_x509_pk = att_cert_x509.public_key()
     if not isinstance(att_cert_x509_pk, EllipticCurvePublicKey):
         raise AttestationError(
             'FIDO U2F attestation failed: must use an Elliptic Curve Public Key'
@@ -102,11 +110,15 @@ def attest_fido_u2f(
     assert att_obj.auth_data is not None
     assert att_obj.auth_data.attested_credential_data is not None
 
-    credential_public_key = cast(
-        EC2CredentialPublicKey,
+    credential_public_key = (
         att_obj.auth_data.attested_credential_data.credential_public_key)
 
     assert credential_public_key is not None
+    if not isinstance(credential_public_key, EC2CredentialPublicKey):
+        raise AttestationError(
+            'FIDO U2F attestation failed: credential must use an Elliptic '
+            'Curve Public Key')
+
     public_key_u2f = b'\x04' + (credential_public_key.x +
                                 credential_public_key.y)
 
@@ -151,9 +163,14 @@ def attest_android_key(
     if len(att_stmt.x5c) == 0:
         raise AttestationError('Must have at least 1 X509 certificate')
 
-    credential_certificate = cryptography.x509.load_der_x509_certificate(
-        att_stmt.x5c[0], default_backend())
-    cred_cert_pk = credential_certificate.public_key()
+    try:
+        credential_certificate = cryptography.x509.load_der_x509_certificate(
+            att_stmt.x5c[0], default_backend())
+        cred_cert_pk = credential_certificate.public_key()
+    except _CERTIFICATE_ERRORS:
+        raise AttestationError(
+            'Android key attestation failed: unable to load X509 certificate')
+
     if not isinstance(
             cred_cert_pk,
         (EllipticCurvePublicKey, Ed25519PublicKey, Ed448PublicKey)):
@@ -177,6 +194,11 @@ def attest_android_key(
             assert isinstance(cred_cert_pk, EllipticCurvePublicKey)
             assert att_stmt.alg is not None
 
+            if att_stmt.alg.name not in {'ES256', 'ES384', 'ES512'}:
+                raise AttestationError(
+                    'Android key attestation failed: invalid alg for the '
+                    'certificate public key')
+
             hash_algorithm = ECDSA(ec2_hash_algorithm(att_stmt.alg))
             cred_cert_pk.verify(att_stmt.sig, verification_data,
                                 hash_algorithm)
@@ -202,6 +224,10 @@ def attest_android_key(
         raise AttestationError(
             'Android key attestation failed: could not find android key '
             'attestation certificate extension data')
+    except _CERTIFICATE_ERRORS:
+        raise AttestationError(
+            'Android key attestation failed: unable to load the certificate '
+            'extensions')
 
     try:
         key_description, _ = decode(extension.value.value, KeyDescription())
-- 
2.43.0

