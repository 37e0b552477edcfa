"""Reference decoders: what every message means according to the properties,
restated independently of the library (only cbor2 and json, the trusted
decoders of the two encodings, and the library's data types are used).

Each returns (status, view): status 'ok' (must be accepted with this view),
'bad' (must be refused) or 'open' (the property leaves it open: refusing is
fine, accepting must give this view when one is given).
"""
import io
import json
import struct

import cbor2

from mc import ceremony as c
from mc import world as w
from mc.core import Violation
from webauthn_rp import errors as E
from webauthn_rp import types as T

BAD = ('bad', None)

KTY = {1: 'OKP', 2: 'EC2', 'OKP': 'OKP', 'EC2': 'EC2'}
ALG = {
    -7: 'ES256', -35: 'ES384', -36: 'ES512', -8: 'EDDSA',
    'ES256': 'ES256', 'ES384': 'ES384', 'ES512': 'ES512', 'EdDSA': 'EDDSA'
}
CRV = {
    'EC2': {1: 'P_256', 2: 'P_384', 3: 'P_521', 'P-256': 'P_256',
            'P-384': 'P_384', 'P-521': 'P_521'},
    'OKP': {6: 'ED25519', 7: 'ED448', 'Ed25519': 'ED25519', 'Ed448': 'ED448'},
}
CRV_LEN = {'P_256': 32, 'P_384': 48, 'P_521': 66, 'ED25519': 32, 'ED448': 57}
OPS = ['SIGN', 'VERIFY', 'ENCRYPT', 'DECRYPT', 'WRAP_KEY', 'UNWRAP_KEY',
       'DERIVE_KEY', 'DERIVE_BITS', 'MAC_CREATE', 'MAC_VERIFY']
OPS_TEXT = ['sign', 'verify', 'encrypt', 'decrypt', 'wrap key', 'unwrap key',
            'derive key', 'derive bits', 'MAC create', 'MAC verify']
OP = {}
for _i, _n in enumerate(OPS):
    OP[_i + 1] = _n
    OP[OPS_TEXT[_i]] = _n


def lookup(table, v):
    """Exact types only: True is not 1, 1.0 is not 1."""
    if type(v) not in (int, str):
        return None
    return table.get(v)


def enum(cls, member, raw):
    return getattr(getattr(cls, 'Value' if type(raw) is int else 'Name'),
                   member)


def cose(m):
    if type(m) is not dict:
        return BAD
    status = 'ok'
    for k in m:
        if type(k) is not int or k not in (1, 2, 3, 4, 5, -1, -2, -3):
            status = 'open'  # unknown or oddly typed labels
    get = m.get
    kty = lookup(KTY, get(1))
    if kty is None:
        return BAD
    alg = lookup(ALG, get(3))
    crv = lookup(CRV[kty], get(-1))
    if alg is None or crv is None:
        return BAD
    n = CRV_LEN[crv]
    x, y = get(-2), get(-3)
    if type(x) is not bytes or len(x) != n:
        return BAD
    if kty == 'EC2':
        if type(y) is not bytes or len(y) != n:
            return BAD
    elif -3 in m:
        status = 'open'
    for k in (2, 5):
        if get(k) is not None and type(get(k)) is not bytes:
            return BAD
    ops = get(4)
    key_ops = None
    if ops is not None:
        if type(ops) not in (list, tuple) or not ops:
            return BAD
        key_ops = []
        for o in ops:
            name = lookup(OP, o)
            if name is None:
                return BAD
            key_ops.append(enum(T.COSEKeyOperation, name, o))
    kw = dict(kty=enum(T.COSEKeyType, kty, get(1)),
              alg=enum(T.COSEAlgorithmIdentifier, alg, get(3)),
              kid=get(2), key_ops=key_ops, base_IV=get(5), x=x)
    if kty == 'EC2':
        key = T.EC2CredentialPublicKey(crv=enum(T.EC2Curve, crv, get(-1)),
                                       y=y, **kw)
    else:
        key = T.OKPCredentialPublicKey(crv=enum(T.OKPCurve, crv, get(-1)),
                                       **kw)
    return status, w.view(key)


def coherent(m):
    """EC2 with ES*, OKP with EdDSA (for a map cose() accepts)."""
    return (lookup(KTY, m[1]) == 'EC2') == (lookup(ALG, m[3]) != 'EDDSA')


def ext(m):
    if type(m) is not dict or not c.ref_ext_ok(m):
        return BAD
    return 'ok', c.ext_view(m)


def load(bio):
    try:
        return True, cbor2.CBORDecoder(bio).decode()
    except Exception:
        return False, None


def auth_data(b):
    if len(b) < 37:
        return BAD
    flags = b[32]
    count = struct.unpack('>I', b[33:37])[0]
    pos = 37
    status = 'ok'
    att = None
    if flags & w.AT:
        if len(b) < pos + 18:
            return BAD
        aaguid = b[pos:pos + 16]
        n = b[pos + 16] * 256 + b[pos + 17]
        pos += 18
        cid = b[pos:pos + n]
        if len(cid) != n:
            return BAD
        pos += n
        bio = io.BytesIO(b[pos:])
        ok, m = load(bio)
        if not ok:
            return BAD
        pos += bio.tell()
        st, kv = cose(m)
        if st == 'bad' or not coherent(m):
            return BAD
        if st == 'open':
            status = 'open'
        att = ('AttestedCredentialData', ('aaguid', w.view(aaguid)),
               ('credential_id_length', w.view(n)),
               ('credential_id', w.view(cid)), ('credential_public_key', kv))
    e = None
    if flags & w.ED:
        bio = io.BytesIO(b[pos:])
        ok, m = load(bio)
        if not ok:
            return BAD
        pos += bio.tell()
        st, e = ext(m)
        if st == 'bad':
            return BAD
    if pos != len(b):
        return BAD
    return status, ('AuthenticatorData', ('rp_id_hash', w.view(b[:32])),
                    ('flags', w.view(flags)), ('sign_count', w.view(count)),
                    ('attested_credential_data', att), ('extensions', e))


#: format -> (variants: {class: exact fields})
FORMATS = {
    'packed': [('PackedAttestationStatement', ('alg', 'sig')),
               ('PackedX509AttestationStatement', ('alg', 'sig', 'x5c')),
               ('PackedECDAAAttestationStatement', ('alg', 'sig',
                                                    'ecdaaKeyId'))],
    'tpm': [('TPMAttestationStatement', ('alg', 'sig', 'ver', 'certInfo',
                                         'pubArea')),
            ('TPMX509AttestationStatement', ('alg', 'sig', 'ver', 'certInfo',
                                             'pubArea', 'x5c')),
            ('TPMECDAAAttestationStatement',
             ('alg', 'sig', 'ver', 'certInfo', 'pubArea', 'ecdaaKeyId'))],
    'android-key': [('AndroidKeyAttestationStatement', ('alg', 'sig',
                                                        'x5c'))],
    'android-safetynet': [('AndroidSafetyNetAttestationStatement',
                           ('ver', 'response'))],
    'fido-u2f': [('FIDOU2FAttestationStatement', ('sig', 'x5c'))],
    'none': [('NoneAttestationStatement', ())],
}
FMT_NAME = {
    'packed': 'PACKED', 'tpm': 'TPM', 'android-key': 'ANDROID_KEY',
    'android-safetynet': 'ANDROID_SAFETYNET', 'fido-u2f': 'FIDO_U2F',
    'none': 'NONE'
}
ATTR = {'ecdaaKeyId': 'ecdaa_key_id', 'certInfo': 'cert_info',
        'pubArea': 'pub_area'}


def field_ok(name, v):
    if name == 'alg':
        return lookup(ALG, v) is not None
    if name == 'ver':
        return type(v) is str
    if name == 'x5c':
        return type(v) in (list, tuple) and all(type(x) is bytes for x in v)
    return type(v) is bytes


def statement(fmt, m):
    """-> (status, view) of a statement map of a known format."""
    if type(m) is not dict:
        return BAD
    for cls, fields in FORMATS[fmt]:
        if set(m) == set(fields):
            if not all(field_ok(f, m[f]) for f in fields):
                return BAD
            kw = {}
            for f in fields:
                v = m[f]
                if f == 'alg':
                    v = enum(T.COSEAlgorithmIdentifier, lookup(ALG, v), v)
                kw[ATTR.get(f, f)] = v
            return 'ok', w.view(getattr(T, cls)(**kw))
    return BAD


def att_obj(b):
    """-> (status, view, decoded)"""
    ok, m = load(io.BytesIO(b))
    if not ok or type(m) is not dict:
        return 'bad', None, None
    for k in ('authData', 'fmt', 'attStmt'):
        if k not in m:
            return 'bad', None, None
    fmt = m['fmt']
    if type(fmt) is not str or fmt not in FORMATS or type(
            m['authData']) is not bytes:
        return 'bad', None, None
    st1, ad = auth_data(m['authData'])
    st2, st = statement(fmt, m['attStmt'])
    if 'bad' in (st1, st2):
        return 'bad', None, None
    status = 'open' if 'open' in (st1, st2) or len(m) != 3 else 'ok'
    return status, ('AttestationObject', ('auth_data', ad),
                    ('fmt', ('enum', 'AttestationStatementFormatIdentifier',
                             FMT_NAME[fmt])), ('att_stmt', st)), m


class _Dup(Exception):
    pass


def _constant(x):
    raise _Dup


def _pairs(pairs):
    if len({k for k, v in pairs}) != len(pairs):
        raise _Dup
    return dict(pairs)


def client_data(b):
    """-> (status, view, decodes?)"""
    try:
        text = b.decode('utf-8')
    except UnicodeDecodeError:
        return 'bad', None, False
    try:
        m = json.loads(text)
    except (ValueError, RecursionError):
        return 'bad', None, False
    status = 'ok'
    try:
        json.loads(text, object_pairs_hook=_pairs, parse_constant=_constant)
    except _Dup:
        status = 'open'  # duplicate members, NaN and the like
    if type(m) is not dict:
        return 'bad', None, True
    vals = [m.get(k) for k in ('type', 'challenge', 'origin')]
    if not all(type(v) is str for v in vals):
        return 'bad', None, True
    tb = m.get('tokenBinding')
    tv = None
    if tb is not None:
        if type(tb) is not dict:
            return 'bad', None, True
        s = tb.get('status')
        if type(s) is not str or s not in ('supported', 'present'):
            return 'bad', None, True
        if s == 'present' and tb.get('id') is None:
            return 'bad', None, True
        if tb.get('id') is not None and type(tb['id']) is not str:
            status = 'open'
        tv = ('TokenBinding', ('status', ('enum', 'TokenBindingStatus',
                                          s.upper())),
              ('id', w.view(tb.get('id'))))
    return status, ('CollectedClientData', ('type', w.view(vals[0])),
                    ('challenge', w.view(vals[1])),
                    ('origin', w.view(vals[2])), ('token_binding', tv)), True


def compare(ctx, fn, arg, status, want, what, extra_errors=(), pick=None):
    """Run the parser and hold its answer against the reference."""
    ctx.step()
    try:
        got = fn(arg)
    except (E.ParserError, ) + tuple(extra_errors) as e:
        ctx.outcome('refused:' + type(e).__name__)
        if status == 'ok':
            raise Violation('{} was refused with {!r}'.format(what(), e))
        return None
    ctx.outcome('parsed')
    if status == 'bad':
        raise Violation('{} was accepted as {!r}'.format(
            what(), w.view(got if pick is None else pick(got))))
    v = w.view(got if pick is None else pick(got))
    if want is not None and v != want:
        raise Violation('{} was parsed as {!r}, expected {!r}'.format(
            what(), v, want))
    return got
