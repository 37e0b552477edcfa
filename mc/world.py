"""The closed world the explorer drives: deterministic keys, authenticators,
certificates and messages, all built without the code under test (only its
public data types are used, to hold values)."""
import base64
import datetime
import functools
import hashlib
import hmac
import json
import struct

import cbor2
from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives.asymmetric import ec, rsa
from cryptography.hazmat.primitives.asymmetric.ed448 import Ed448PrivateKey
from cryptography.hazmat.primitives.asymmetric.ed25519 import \
    Ed25519PrivateKey
from cryptography.hazmat.primitives.asymmetric.utils import \
    encode_dss_signature
from cryptography.hazmat.primitives.serialization import (Encoding,
                                                          NoEncryption,
                                                          PrivateFormat,
                                                          PublicFormat)

from webauthn_rp import types as T

UP, UV, AT, ED = 1, 4, 64, 128


def sha256(b):
    return hashlib.sha256(b).digest()


def b64(b):
    return base64.b64encode(b).decode('ascii')


def b64url(b, pad=False):
    s = base64.urlsafe_b64encode(b).decode('ascii')
    return s if pad else s.rstrip('=')


# --------------------------------------------------------------------------
# Keys.  Curve facts are restated here so that the code under test is compared
# with them rather than with itself.

CURVES = {
    # name: (kty, crv value, crv text, coordinate length)
    'P256': ('EC2', 1, 'P-256', 32),
    'P384': ('EC2', 2, 'P-384', 48),
    'P521': ('EC2', 3, 'P-521', 66),
    'ED25519': ('OKP', 6, 'Ed25519', 32),
    'ED448': ('OKP', 7, 'Ed448', 57),
}
EC_CURVE = {'P256': ec.SECP256R1, 'P384': ec.SECP384R1, 'P521': ec.SECP521R1}
ORDER = {
    'P256':
    0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
    'P384':
    0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
    'P521':
    0x01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
}
ALGS = {
    # name: (value, text, hash)
    'ES256': (-7, 'ES256', 'sha256'),
    'ES384': (-35, 'ES384', 'sha384'),
    'ES512': (-36, 'ES512', 'sha512'),
    'EDDSA': (-8, 'EdDSA', None),
}
KTY_VALUE = {'OKP': 1, 'EC2': 2, 'SYMMETRIC': 4}
KTY_TEXT = {'OKP': 'OKP', 'EC2': 'EC2', 'SYMMETRIC': 'Symmetric'}
LIB_CRV = {
    'P256': 'P_256',
    'P384': 'P_384',
    'P521': 'P_521',
    'ED25519': 'ED25519',
    'ED448': 'ED448'
}
DEFAULT_ALG = {
    'P256': 'ES256',
    'P384': 'ES384',
    'P521': 'ES512',
    'ED25519': 'EDDSA',
    'ED448': 'EDDSA'
}


@functools.lru_cache(None)
def private_key(curve, label):
    """A deterministic private key."""
    seed = hashlib.shake_256('{}/{}'.format(curve, label).encode()).digest(66)
    if curve == 'ED25519':
        return Ed25519PrivateKey.from_private_bytes(seed[:32])
    if curve == 'ED448':
        return Ed448PrivateKey.from_private_bytes(seed[:57])
    if curve == 'K256':
        return ec.derive_private_key(
            int.from_bytes(seed[:31], 'big') + 1, ec.SECP256K1(),
            default_backend())
    d = int.from_bytes(seed, 'big') % (ORDER[curve] - 1) + 1
    return ec.derive_private_key(d, EC_CURVE[curve](), default_backend())


@functools.lru_cache(None)
def coordinates(curve, label):
    """(x, y) as fixed-length bytes; y is None for Edwards keys."""
    pk = private_key(curve, label).public_key()
    if curve in ('ED25519', 'ED448'):
        return pk.public_bytes(Encoding.Raw, PublicFormat.Raw), None
    n = CURVES[curve][3]
    nums = pk.public_numbers()
    return nums.x.to_bytes(n, 'big'), nums.y.to_bytes(n, 'big')


@functools.lru_cache(None)
def short_label(curve, which):
    """A label whose x (which=0) or y (which=1) coordinate starts with a zero
    byte: leading zeros must be kept."""
    i = 0
    while True:
        lab = 'z{}'.format(i)
        if coordinates(curve, lab)[which][0] == 0:
            # for P-521 the top byte is 0 or 1, ask for two zero bytes
            if curve != 'P521' or coordinates(curve, lab)[which][1] == 0:
                return lab
        i += 1


def _point_x(curve, k):
    sk = ec.derive_private_key(k, EC_CURVE[curve](), default_backend())
    return sk.public_key().public_numbers().x


def _bits2int(curve, b):
    q = ORDER[curve]
    v = int.from_bytes(b, 'big')
    extra = len(b) * 8 - q.bit_length()
    return v >> extra if extra > 0 else v


@functools.lru_cache(200000)
def ecdsa_sign(curve, label, hash_name, data, nonce=0):
    """Deterministic ECDSA (the point multiplication is done by OpenSSL)."""
    q = ORDER[curve]
    d = private_key(curve, label).private_numbers().private_value
    z = _bits2int(curve, hashlib.new(hash_name, data).digest())
    ctr = nonce
    while True:
        raw = hashlib.shake_256('{}|{}|{}|{}'.format(
            curve, label, hash_name, ctr).encode() + data).digest(80)
        k = int.from_bytes(raw, 'big') % (q - 1) + 1
        r = _point_x(curve, k) % q
        s = pow(k, -1, q) * (z + r * d) % q
        if r and s:
            return encode_dss_signature(r, s)
        ctr += 1000003


@functools.lru_cache(200000)
def sign(curve, label, alg, data):
    if curve in ('ED25519', 'ED448'):
        return private_key(curve, label).sign(data)
    return ecdsa_sign(curve, label, ALGS[alg][2], data)


def cose_map(curve, label, alg=None, form='value', kid=None, key_ops=None,
             base_iv=None):
    """The COSE map of a key. form: 'value' (numbers) or 'name' (text)."""
    kty, crv_v, crv_t, _ = CURVES[curve]
    alg = alg or DEFAULT_ALG[curve]
    i = 0 if form == 'value' else 1
    m = {1: (KTY_VALUE[kty], KTY_TEXT[kty])[i]}
    if kid is not None:
        m[2] = kid
    m[3] = ALGS[alg][i]
    if key_ops is not None:
        m[4] = key_ops
    if base_iv is not None:
        m[5] = base_iv
    m[-1] = (crv_v, crv_t)[i]
    x, y = coordinates(curve, label)
    m[-2] = x
    if y is not None:
        m[-3] = y
    return m


def lib_key(curve, label, alg=None, form='value', kid=None, key_ops=None,
            base_iv=None, x=None, y=None):
    """The same key as the library's data type."""
    kty = CURVES[curve][0]
    alg = alg or DEFAULT_ALG[curve]
    f = 'Value' if form == 'value' else 'Name'
    cx, cy = coordinates(curve, label)
    kw = dict(kty=getattr(getattr(T.COSEKeyType, f), kty),
              alg=getattr(getattr(T.COSEAlgorithmIdentifier, f), alg),
              kid=kid,
              key_ops=key_ops,
              base_IV=base_iv,
              x=cx if x is None else x)
    if kty == 'EC2':
        return T.EC2CredentialPublicKey(
            crv=getattr(getattr(T.EC2Curve, f), LIB_CRV[curve]),
            y=cy if y is None else y,
            **kw)
    return T.OKPCredentialPublicKey(crv=getattr(getattr(T.OKPCurve, f),
                                                LIB_CRV[curve]),
                                    **kw)


# --------------------------------------------------------------------------
# Messages


def client_data(type='webauthn.get', challenge=b'', origin='',
                token_binding=None, extra=None, drop=()):
    d = {
        'type': type,
        'challenge': b64url(challenge)
        if isinstance(challenge, bytes) else challenge,
        'origin': origin,
    }
    if token_binding is not None:
        d['tokenBinding'] = token_binding
    if extra:
        d.update(extra)
    for k in drop:
        d.pop(k, None)
    return json.dumps(d).encode('utf-8')


def attested_data(aaguid, cred_id, cose):
    return (aaguid + struct.pack('>H', len(cred_id)) + cred_id +
            (cose if isinstance(cose, bytes) else cbor2.dumps(cose)))


def auth_data(rp_hash, flags, count, attested=b'', ext=b''):
    return rp_hash + bytes([flags]) + struct.pack('>I', count) + attested + ext


def attestation_object(fmt, stmt, adata):
    return cbor2.dumps({'fmt': fmt, 'attStmt': stmt, 'authData': adata})


# --------------------------------------------------------------------------
# Certificates, signed by an Ed25519 issuer so that their bytes never change.

_ISSUER = Ed25519PrivateKey.from_private_bytes(sha256(b'issuer'))

# Cannot be derived deterministically, so it is a fixed fixture.
_RSA_NUMBERS = None


@functools.lru_cache(None)
def rsa_public_key():
    # RSA-1024 with fixed primes (found once with next-prime of a hash).
    p = _next_prime(int.from_bytes(hashlib.shake_256(b'p').digest(64), 'big')
                    | (3 << 510))
    q = _next_prime(int.from_bytes(hashlib.shake_256(b'q').digest(64), 'big')
                    | (3 << 510))
    return rsa.RSAPublicNumbers(65537, p * q).public_key(default_backend())


def _next_prime(n):
    n |= 1
    while True:
        if all(n % p for p in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31)):
            if all(_mr(n, a) for a in (2, 3, 5, 7, 11, 13, 17, 19, 23)):
                return n
        n += 2


def _mr(n, a):
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    x = pow(a, d, n)
    if x in (1, n - 1):
        return True
    for _ in range(s - 1):
        x = x * x % n
        if x == n - 1:
            return True
    return False


ANDROID_OID = x509.ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17')


@functools.lru_cache(None)
def certificate(curve, label, ext=None, serial=1, ext_oid=None):
    """DER certificate of the key; ext: raw value of the android extension."""
    if curve == 'RSA':
        pk = rsa_public_key()
    else:
        pk = private_key(curve, label).public_key()
    name = x509.Name(
        [x509.NameAttribute(x509.oid.NameOID.COMMON_NAME, 'issuer')])
    subj = x509.Name(
        [x509.NameAttribute(x509.oid.NameOID.COMMON_NAME, 'subject')])
    b = x509.CertificateBuilder(
        issuer_name=name,
        subject_name=subj,
        serial_number=serial,
        not_valid_before=datetime.datetime(2000, 1, 1),
        not_valid_after=datetime.datetime(2100, 1, 1),
        public_key=pk)
    if ext is not None:
        b = b.add_extension(
            x509.UnrecognizedExtension(ext_oid or ANDROID_OID, ext), False)
    return b.sign(_ISSUER, None, default_backend()).public_bytes(Encoding.DER)


def _name(*parts):
    oid = x509.oid.NameOID
    return x509.Name([x509.NameAttribute(getattr(oid, k), v)
                      for k, v in parts])


#: what an attestation certificate may look like beyond its key: one change
#: from the plain certificate each (or several at once); 'open' where a
#: verifier may well look at it
SHAPES = {
    'plain': ('ok', {}),
    'self-issued': ('ok', {'subject': [('COMMON_NAME', 'issuer')]}),
    'no subject': ('ok', {'subject': []}),
    'no names': ('ok', {'subject': [], 'issuer': []}),
    'fido subject': ('ok', {'subject': [
        ('COUNTRY_NAME', 'SE'), ('ORGANIZATION_NAME', 'Yubico AB'),
        ('ORGANIZATIONAL_UNIT_NAME', 'Authenticator Attestation'),
        ('COMMON_NAME', 'Yubico U2F EE Serial 1955003842')]}),
    'unicode': ('ok', {'subject': [('COMMON_NAME', '\u4e2d\U0001f600')],
                       'issuer': [('COMMON_NAME', '\u00e9')]}),
    'android subject': ('ok', {'subject': [
        ('COMMON_NAME', 'Android Keystore Key')]}),
    'long serial': ('ok', {'serial': 2**158 + 7}),
    'serial 2^31': ('ok', {'serial': 2**31}),
    'CA': ('ok', {'basic': (True, None)}),
    'not CA': ('ok', {'basic': (False, None)}),
    'unknown extension': ('ok', {'more': [('1.3.6.1.4.1.45724.1.1.4',
                                           b'\x04\x10' + b'\x00' * 16)]}),
    'unknown extensions': ('ok', {'more': [
        ('1.3.6.1.4.1.45724.2.1.1', b'\x03\x02\x04\x30'),
        ('1.3.6.1.4.1.41482.2', b'1.3.6.1.4.1.41482.1.7')]}),
    'extension before': ('ok', {'before': [('1.3.6.1.4.1.11129.2.1.30',
                                            b'\xa0')]}),
    'long life': ('ok', {'dates': ((1950, 1, 1), (9999, 12, 31))}),
    'expired': ('open', {'dates': ((2000, 1, 1), (2001, 1, 1))}),
    'not yet valid': ('open', {'dates': ((2099, 1, 1), (2100, 1, 1))}),
    'several': ('ok', {'subject': [('COMMON_NAME', 'issuer')],
                       'basic': (True, 0), 'serial': 2**64,
                       'more': [('1.2.3.4', b'x')]}),
}


@functools.lru_cache(None)
def shaped_certificate(curve, label, shape, ext=None):
    d = SHAPES[shape][1]
    lo, hi = d.get('dates', ((2000, 1, 1), (2100, 1, 1)))
    b = x509.CertificateBuilder(
        issuer_name=_name(*d.get('issuer', [('COMMON_NAME', 'issuer')])),
        subject_name=_name(*d.get('subject', [('COMMON_NAME', 'subject')])),
        serial_number=d.get('serial', 1),
        not_valid_before=datetime.datetime(*lo),
        not_valid_after=datetime.datetime(*hi),
        public_key=private_key(curve, label).public_key())
    raw = [(x509.ObjectIdentifier(o), v) for o, v in d.get('before', [])]
    if ext is not None:
        raw.append((ANDROID_OID, ext))
    raw += [(x509.ObjectIdentifier(o), v) for o, v in d.get('more', [])]
    if 'basic' in d:
        b = b.add_extension(x509.BasicConstraints(*d['basic']), True)
    for oid, v in raw:
        b = b.add_extension(x509.UnrecognizedExtension(oid, v), False)
    return b.sign(_ISSUER, None, default_backend()).public_bytes(Encoding.DER)


# --------------------------------------------------------------------------
# A tiny DER encoder (independent of pyasn1) for the Android key description.


def der(tag_bytes, content):
    n = len(content)
    if n < 128:
        ln = bytes([n])
    else:
        body = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        ln = bytes([0x80 | len(body)]) + body
    return tag_bytes + ln + content


def der_int(v):
    n = max(1, (v.bit_length() + 8) // 8)
    return der(b'\x02', v.to_bytes(n, 'big', signed=True))


def der_enum(v):
    return der(b'\x0a', bytes([v]))


def der_octets(b):
    return der(b'\x04', b)


def der_null():
    return b'\x05\x00'


def der_bool(v):
    return der(b'\x01', b'\xff' if v else b'\x00')


def der_set(items):
    return der(b'\x31', b''.join(sorted(items)))


def der_seq(items):
    return der(b'\x30', b''.join(items))


def der_ctx(n, content):
    """EXPLICIT [n] (constructed, context class)."""
    if n < 31:
        tag = bytes([0xa0 | n])
    else:
        parts = []
        m = n
        while True:
            parts.insert(0, m & 0x7f)
            m >>= 7
            if not m:
                break
        tag = b'\xbf' + bytes([p | 0x80
                               for p in parts[:-1]] + [parts[-1]])
    return der(tag, content)


#: authorization list entries: name -> (context tag, kind)
AUTH_TAGS = {
    'purpose': (1, 'setint'),
    'algorithm': (2, 'int'),
    'keySize': (3, 'int'),
    'digest': (5, 'setint'),
    'padding': (6, 'setint'),
    'ecCurve': (10, 'int'),
    'rsaPublicExponent': (200, 'int'),
    'rollbackResistance': (303, 'null'),
    'activeDateTime': (400, 'int'),
    'originationExpireDateTime': (401, 'int'),
    'usageExpireDateTime': (402, 'int'),
    'noAuthRequired': (503, 'null'),
    'userAuthType': (504, 'int'),
    'authTimeout': (505, 'int'),
    'allowWhileOnBody': (506, 'null'),
    'trustedUserPresenceRequired': (507, 'null'),
    'trustedConfirmationRequired': (508, 'null'),
    'unlockedDeviceRequired': (509, 'null'),
    'allApplications': (600, 'null'),
    'applicationId': (601, 'octets'),
    'creationDateTime': (701, 'int'),
    'origin': (702, 'int'),
    'rollbackResistant': (703, 'null'),
    'rootOfTrust': (704, 'rot'),
    'osVersion': (705, 'int'),
    'osPatchLevel': (706, 'int'),
    'attestationApplicationId': (709, 'octets'),
    'attestationIdBrand': (710, 'octets'),
    'attestationIdDevice': (711, 'octets'),
    'attestationIdProduct': (712, 'octets'),
    'attestationIdSerial': (713, 'octets'),
    'attestationIdImei': (714, 'octets'),
    'attestationIdMeid': (715, 'octets'),
    'attestationIdManufacturer': (716, 'octets'),
    'attestationIdModel': (717, 'octets'),
    'vendorPatchLevel': (718, 'int'),
    'bootPatchLevel': (719, 'int'),
}


def auth_list(entries):
    """entries: {name: value}; encoded in tag order."""
    items = []
    for name in sorted(entries, key=lambda n: AUTH_TAGS[n][0]):
        tag, kind = AUTH_TAGS[name]
        v = entries[name]
        if kind == 'int':
            body = der_int(v)
        elif kind == 'setint':
            body = der_set([der_int(i) for i in v])
        elif kind == 'null':
            body = der_null()
        elif kind == 'octets':
            body = der_octets(v)
        else:  # rot: (key, locked, state, hash or None)
            parts = [der_octets(v[0]), der_bool(v[1]), der_enum(v[2])]
            if v[3] is not None:
                parts.append(der_octets(v[3]))
            body = der_seq(parts)
        items.append(der_ctx(tag, body))
    return der_seq(items)


def key_description(challenge, software, tee, version=3, sec=1, kmver=4,
                    kmsec=1, unique=b''):
    return der_seq([
        der_int(version),
        der_enum(sec),
        der_int(kmver),
        der_enum(kmsec),
        der_octets(challenge),
        der_octets(unique),
        auth_list(software),
        auth_list(tee)
    ])


# --------------------------------------------------------------------------
# Views: plain-data pictures of the library's values, by public attribute.

_FIELDS = {
    'PublicKeyCredentialRpEntity': ('name', 'icon', 'id'),
    'PublicKeyCredentialUserEntity': ('name', 'icon', 'id', 'display_name'),
    'PublicKeyCredential': ('id', 'type', 'raw_id', 'response'),
    'AuthenticatorAttestationResponse':
    ('client_data_JSON', 'attestation_object'),
    'AuthenticatorAssertionResponse':
    ('client_data_JSON', 'authenticator_data', 'signature', 'user_handle'),
    'EC2CredentialPublicKey':
    ('kty', 'kid', 'alg', 'key_ops', 'base_IV', 'x', 'y', 'crv'),
    'OKPCredentialPublicKey':
    ('kty', 'kid', 'alg', 'key_ops', 'base_IV', 'x', 'crv'),
    'AttestedCredentialData': ('aaguid', 'credential_id_length',
                               'credential_id', 'credential_public_key'),
    'AuthenticatorData': ('rp_id_hash', 'flags', 'sign_count',
                          'attested_credential_data', 'extensions'),
    'AttestationObject': ('auth_data', 'fmt', 'att_stmt'),
    'PackedAttestationStatement': ('alg', 'sig'),
    'PackedX509AttestationStatement': ('alg', 'sig', 'x5c'),
    'PackedECDAAAttestationStatement': ('alg', 'sig', 'ecdaa_key_id'),
    'TPMAttestationStatement': ('alg', 'sig', 'ver', 'cert_info', 'pub_area'),
    'TPMX509AttestationStatement': ('alg', 'sig', 'ver', 'cert_info',
                                    'pub_area', 'x5c'),
    'TPMECDAAAttestationStatement': ('alg', 'sig', 'ver', 'cert_info',
                                     'pub_area', 'ecdaa_key_id'),
    'AndroidKeyAttestationStatement': ('alg', 'sig', 'x5c'),
    'AndroidSafetyNetAttestationStatement': ('ver', 'response'),
    'FIDOU2FAttestationStatement': ('sig', 'x5c'),
    'NoneAttestationStatement': (),
    'AuthenticationExtensionsClientOutputs':
    ('appid', 'tx_auth_simple', 'tx_auth_generic', 'authn_sel', 'exts', 'uvi',
     'loc', 'uvm', 'biometric_perf_bounds'),
    'Coordinates': ('latitude', 'longitude', 'altitude', 'accuracy',
                    'altitude_accuracy', 'heading', 'speed'),
    'CollectedClientData': ('type', 'challenge', 'origin', 'token_binding'),
    'TokenBinding': ('status', 'id'),
    'PublicKeyCredentialDescriptor': ('type', 'id', 'transports'),
    'PublicKeyCredentialParameters': ('type', 'alg'),
    'TxAuthGenericArg': ('content_type', 'content'),
    'AuthenticatorBiometricPerfBounds': ('FAR', 'FRR'),
    'AuthenticationExtensionsClientInputs':
    ('appid', 'tx_auth_simple', 'tx_auth_generic', 'authn_sel', 'exts', 'uvi',
     'loc', 'uvm', 'biometric_perf_bounds'),
    'AuthenticatorSelectionCriteria': ('authenticator_attachment',
                                       'require_resident_key',
                                       'user_verification'),
    'PublicKeyCredentialCreationOptions':
    ('rp', 'user', 'challenge', 'pub_key_cred_params', 'timeout',
     'authenticator_selection', 'extensions', 'attestation',
     'exclude_credentials'),
    'PublicKeyCredentialRequestOptions':
    ('challenge', 'timeout', 'rp_id', 'extensions', 'allow_credentials',
     'user_verification'),
    'CredentialCreationOptions': ('public_key', ),
    'CredentialRequestOptions': ('mediation', 'public_key'),
    'CredentialData': ('credential_public_key', 'signature_count',
                       'user_entity', 'rp_entity'),
    'Origin': ('scheme', 'hostname', 'port'),
}
from webauthn_rp import registrars as _R  # noqa: E402
_CLASS = {
    n: getattr(T, n, None) or getattr(_R, n, None)
    for n in _FIELDS
}
_BY_CLASS = {c: n for n, c in _CLASS.items()}

import enum  # noqa: E402


def view(o):
    """A plain, comparable picture of a value. Lists and tuples are the same
    ('seq'), types of numbers are kept apart."""
    if o is None:
        return None
    if isinstance(o, enum.Enum):
        return ('enum', type(o).__qualname__, o.name)
    c = type(o)
    if c in _BY_CLASS:
        n = _BY_CLASS[c]
        return (n, ) + tuple((f, view(getattr(o, f))) for f in _FIELDS[n])
    for k, n in _BY_CLASS.items():  # a subclass of a known type
        if isinstance(o, k) and n != 'NoneAttestationStatement':
            return (n, ) + tuple((f, view(getattr(o, f))) for f in _FIELDS[n])
    if isinstance(o, (bytes, bytearray)):
        return ('bytes', bytes(o))
    if c in (bool, int, str):
        return (c.__name__, o)
    if c is float:
        return ('float', repr(o))
    if c in (list, tuple):
        return ('seq', ) + tuple(view(v) for v in o)
    if c in (set, frozenset):
        return ('set', ) + tuple(sorted((view(v) for v in o), key=repr))
    if c is dict:
        return ('map', ) + tuple(
            sorted(((view(k), view(v)) for k, v in o.items()), key=repr))
    if isinstance(o, x509.Certificate):
        return ('cert', o.public_bytes(Encoding.DER))
    if isinstance(o, cbor2.CBORTag):
        return ('tag', o.tag, view(o.value))
    return ('other', c.__name__, repr(o))


# --------------------------------------------------------------------------
# The registrar


class Recorder(_R.CredentialsRegistrar):
    """Records every call; answers as told."""
    def __init__(self, data=None, store=None, on_att=None, on_ass=None,
                 on_get=None):
        self.calls = []
        self.data = data
        self.store = store or {}
        self.on_att = on_att
        self.on_ass = on_ass
        self.on_get = on_get

    def register_credential_attestation(self, credential, att, att_type, user,
                                        rp, trusted_path=None):
        self.calls.append(
            ('att',
             dict(credential=credential,
                  att=att,
                  att_type=att_type,
                  user=user,
                  rp=rp,
                  trusted_path=trusted_path)))
        return self.on_att() if self.on_att else None

    def register_credential_assertion(self, credential, authenticator_data,
                                      user, rp):
        self.calls.append(('ass',
                           dict(credential=credential,
                                authenticator_data=authenticator_data,
                                user=user,
                                rp=rp)))
        return self.on_ass() if self.on_ass else None

    def get_credential_data(self, credential_id):
        self.calls.append(('get', dict(credential_id=credential_id)))
        if self.on_get:
            return self.on_get(credential_id)
        if self.data is not None:
            return self.data
        return self.store.get(credential_id)

    def named(self, kind):
        return [a for k, a in self.calls if k == kind]


def user(id=b'user-a', name='alice', display_name='Alice', icon=None):
    return T.PublicKeyCredentialUserEntity(name=name,
                                           id=id,
                                           display_name=display_name,
                                           icon=icon)


def rp(id='example.org', name='Example', icon=None):
    return T.PublicKeyCredentialRpEntity(name=name, id=id, icon=icon)


def attestation_credential(raw_id, cd, ao):
    return T.PublicKeyCredential(id=b64url(raw_id),
                                 type='public-key',
                                 raw_id=raw_id,
                                 response=T.AuthenticatorAttestationResponse(
                                     client_data_JSON=cd,
                                     attestation_object=ao))


def assertion_credential(raw_id, cd, ad, sig, handle=None):
    return T.PublicKeyCredential(id=b64url(raw_id),
                                 type='public-key',
                                 raw_id=raw_id,
                                 response=T.AuthenticatorAssertionResponse(
                                     client_data_JSON=cd,
                                     authenticator_data=ad,
                                     signature=sig,
                                     user_handle=handle))
