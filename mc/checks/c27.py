"""C27: what is not supported is refused, never passed."""
import enum
import itertools

import cbor2
from cryptography.hazmat.primitives.serialization import (Encoding,
                                                          PublicFormat)

from mc import ceremony as c
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.attesters import attest
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.converters import cose_key, cryptography_public_key
from webauthn_rp.parsers import parse_attestation_object
from webauthn_rp.registrars import CredentialsRegistrar
from webauthn_rp.validators import validate
from webauthn_rp.verifiers import verify

LOOKUPS = 70000 if THOROUGH else 3000
BOUNDS = ('each of 7 operations x every kind of value it does not support '
          '(bare, derived and foreign); every key class x curve x coordinates '
          'x algorithm, known and unknown; every integer up to {} and every '
          'text of an alphabet in each numbered or named table; every set of '
          'callbacks a registrar may leave out x every ceremony').format(
              LOOKUPS)
ASSUMPTIONS = [
    'classes derived by the caller from a supported class may be supported '
    'or refused',
    'values that break the type annotations must not pass, but by which '
    'exception they are refused is open',
]

# --------------------------------------------------------------------------
# operations x values


class _Key(T.CredentialPublicKey):
    """A key of a kind the library does not know."""
    def __init__(self, **kw):
        super().__init__(kty=T.COSEKeyType.Value.SYMMETRIC, **kw)
        self.k = b'k' * 32


class _Statement(T.AttestationStatement):
    """A statement of a kind the library does not know."""


class _Thing:
    """Not of the library at all, but with the attributes of a P-256 key."""
    def __init__(self):
        self.__dict__.update(w.lib_key('P256', 'a').__dict__)


class _Enum(enum.Enum):
    ES256 = -7
    P_256 = 1


def _base_key(curve):
    k = w.lib_key(curve, 'a')
    b = T.CredentialPublicKey(kty=k.kty, alg=k.alg, kid=b'k', key_ops=None,
                              base_IV=None)
    for n in ('x', 'y', 'crv'):
        if hasattr(k, n):
            setattr(b, n, getattr(k, n))
    return b


X5C = [b'certificate']
ALG = T.COSEAlgorithmIdentifier.Value.ES256
UNSUPPORTED_STATEMENTS = {
    'base': lambda: T.AttestationStatement(alg=ALG, sig=b's'),
    'base, empty': lambda: T.AttestationStatement(),
    'derived': lambda: _Statement(alg=ALG, sig=b's'),
    'packed': lambda: T.PackedAttestationStatement(alg=ALG, sig=b's'),
    'packed x5c': lambda: T.PackedX509AttestationStatement(
        alg=ALG, sig=b's', x5c=X5C),
    'packed ecdaa': lambda: T.PackedECDAAAttestationStatement(
        alg=ALG, sig=b's', ecdaa_key_id=b'k'),
    'tpm': lambda: T.TPMAttestationStatement(
        alg=ALG, sig=b's', ver='2.0', cert_info=b'c', pub_area=b'p'),
    'tpm x5c': lambda: T.TPMX509AttestationStatement(
        alg=ALG, sig=b's', ver='2.0', cert_info=b'c', pub_area=b'p',
        x5c=X5C),
    'tpm ecdaa': lambda: T.TPMECDAAAttestationStatement(
        alg=ALG, sig=b's', ver='2.0', cert_info=b'c', pub_area=b'p',
        ecdaa_key_id=b'k'),
    'safetynet': lambda: T.AndroidSafetyNetAttestationStatement(
        ver='1', response=b'r'),
}
UNSUPPORTED_KEYS = {
    'base': lambda: T.CredentialPublicKey(
        kty=T.COSEKeyType.Value.EC2, alg=ALG),
    'base, symmetric': lambda: T.CredentialPublicKey(
        kty=T.COSEKeyType.Name.SYMMETRIC),
    'base with P-256': lambda: _base_key('P256'),
    'base with Ed25519': lambda: _base_key('ED25519'),
    'derived': lambda: _Key(alg=ALG),
}
FOREIGN = {
    'None': lambda: None,
    'bytes': lambda: cbor2.dumps(w.cose_map('P256', 'a')),
    'text': lambda: 'key',
    'map': lambda: w.cose_map('P256', 'a'),
    'list': lambda: [w.lib_key('P256', 'a')],
    'number': lambda: 0,
    'class': lambda: T.EC2CredentialPublicKey,
    'statement class': lambda: T.NoneAttestationStatement,
    'thing': _Thing,
    'cryptography': lambda: w.private_key('P256', 'a').public_key(),
    'object': object,
    'flag': lambda: False,
}

CDHASH = w.sha256(b'client data')


def att_obj():
    return parse_attestation_object(c.build_reg(dict(c.BASE_REG))[2])


KEY_OPS = {
    'verify': lambda v: verify(v, b'', b''),
    'verify genuine': lambda v: verify(
        v, w.sign('P256', 'a', 'ES256', b'data'), b'data'),
    'validate': validate,
    'convert': cryptography_public_key,
    'encode': cose_key,
}


def attest_(v):
    ad = c.build_reg(dict(c.BASE_REG))[1]
    return attest(v, att_obj(), ad, CDHASH)


def kind_cases():
    for op in KEY_OPS:
        for n in UNSUPPORTED_KEYS:
            yield (op, n), ['key', op, n]
        for n in list(FOREIGN) + list(UNSUPPORTED_STATEMENTS):
            yield (op, 'foreign', n), ['foreign', op, n]
    for n in UNSUPPORTED_STATEMENTS:
        yield ('attest', n), ['statement', 'attest', n]
    for n in list(FOREIGN) + list(UNSUPPORTED_KEYS):
        yield ('attest', 'foreign', n), ['foreign', 'attest', n]


def run_kind(ctx, case):
    group, op, name = case
    fn = KEY_OPS.get(op, attest_)
    make = {'key': UNSUPPORTED_KEYS, 'statement': UNSUPPORTED_STATEMENTS
            }.get(group) or {**FOREIGN, **(
                UNSUPPORTED_KEYS if op == 'attest' else
                UNSUPPORTED_STATEMENTS)}
    for _ in range(2):
        ctx.step()
        try:
            got = fn(make[name]())
        except E.UnimplementedError:
            ctx.outcome('unimplemented')
            continue
        except Exception as e:
            ctx.outcome('refused')
            if group == 'foreign':
                continue
            raise Violation('{} of the unsupported {} ({}) was refused with '
                            '{!r}, not UnimplementedError'.format(
                                op, group, name, e))
        raise Violation('{} of the unsupported value {} passed: {!r}'.format(
            op, name, got))


# --------------------------------------------------------------------------
# curves and algorithms


class Strange(enum.Enum):
    """Curves and algorithms the library does not know."""
    P_192 = 1
    SECP256K1 = 8
    X25519 = 4
    X448 = 5
    P256 = 1
    ed25519 = 6
    RS256 = -257
    ES256K = -47
    HMAC = 5


CURVES = [('EC2', f, n) for f in ('Name', 'Value')
          for n in ('P_256', 'P_384', 'P_521')] + [
              ('OKP', f, n) for f in ('Name', 'Value')
              for n in ('ED25519', 'ED448')] + [
                  ('?', '', n) for n in Strange.__members__]
ALGS = [(f, n) for f in ('Name', 'Value') for n in w.ALGS] + [
    ('?', n) for n in Strange.__members__]
OF = {v: k for k, v in w.LIB_CRV.items()}


def crv_of(spec):
    kind, f, n = spec
    if kind == '?':
        return Strange[n]
    return getattr(getattr(T.EC2Curve if kind == 'EC2' else T.OKPCurve, f), n)


def alg_of(spec):
    f, n = spec
    if f == '?':
        return Strange[n]
    return getattr(getattr(T.COSEAlgorithmIdentifier, f), n)


def curve_cases():
    for cls in ('EC2', 'OKP'):
        for crv in CURVES:
            for src in OF.values():
                for alg in ALGS:
                    yield (cls, crv, src, alg), [cls, list(crv), src,
                                                 list(alg)]


def run_curve(ctx, case):
    cls, crv, src, alg = case
    x, y = w.coordinates(src, 'a')
    kw = dict(kty=getattr(T.COSEKeyType.Value, cls), alg=alg_of(alg),
              crv=crv_of(crv), x=x)
    if cls == 'EC2':
        key = T.EC2CredentialPublicKey(y=y if y is not None else x, **kw)
    else:
        key = T.OKPCredentialPublicKey(**kw)
    same = crv[0] == cls and OF.get(crv[2]) == src
    real = w.DEFAULT_ALG[src]
    fits = crv[0] == cls and src == OF[crv[2]]
    # conversion
    ctx.step()
    try:
        pk = cryptography_public_key(key)
    except Exception as e:
        ctx.outcome('not converted')
        if same:
            raise Violation('a {} key was not converted: {!r}'.format(src, e))
        want = ((E.UnimplementedError, ) if crv[0] == '?' else
                (E.UnimplementedError, E.PublicKeyConversionError))
        if crv[0] in (cls, '?') and not isinstance(e, want):
            raise Violation('{} key on curve {} with the coordinates of {}: '
                            '{!r}'.format(cls, crv, src, e))
    else:
        ctx.outcome('converted')
        if not same and crv[2] == 'ED25519' and crv[0] == cls and len(x) == 32:
            pass  # any 32 bytes may be an Ed25519 key
        elif not same:
            raise Violation('{} key on curve {} with the coordinates of {} '
                            'was converted: {!r}'.format(cls, crv, src, pk))
        good = w.private_key(src, 'a').public_key()
        form = (Encoding.DER, PublicFormat.SubjectPublicKeyInfo)
        if same and pk.public_bytes(*form) != good.public_bytes(*form):
            raise Violation('a {} key was converted to another'.format(src))
    # verification, with a signature by each algorithm the curve can do
    for name in (['ES256', 'ES384', 'ES512'] if y is not None else [real]):
        sig = w.sign(src, 'a', name, b'data')
        ctx.step()
        ok = fits and (alg[1] == name or y is None)
        try:
            verify(key, sig, b'data')
        except Exception as e:
            ctx.outcome('not verified')
            if ok and alg[0] != '?' and (alg[1] == name):
                raise Violation('{} signature of {} ({}): {!r}'.format(
                    name, src, alg, e))
        else:
            ctx.outcome('verified')
            if not ok:
                raise Violation(
                    '{} signature of {} was verified with a {} key on curve '
                    '{} for algorithm {}'.format(name, src, cls, crv, alg))


# --------------------------------------------------------------------------
# the tables

TABLES = {
    'algorithm': (T.COSEAlgorithmIdentifier, {
        'ES256': ('ES256', -7), 'ES384': ('ES384', -35),
        'ES512': ('ES512', -36), 'EDDSA': ('EdDSA', -8)}),
    'key type': (T.COSEKeyType, {
        'OKP': ('OKP', 1), 'EC2': ('EC2', 2), 'SYMMETRIC': ('Symmetric', 4)}),
    'operation': (T.COSEKeyOperation, {
        'SIGN': ('sign', 1), 'VERIFY': ('verify', 2),
        'ENCRYPT': ('encrypt', 3), 'DECRYPT': ('decrypt', 4),
        'WRAP_KEY': ('wrap key', 5), 'UNWRAP_KEY': ('unwrap key', 6),
        'DERIVE_KEY': ('derive key', 7), 'DERIVE_BITS': ('derive bits', 8),
        'MAC_CREATE': ('MAC create', 9), 'MAC_VERIFY': ('MAC verify', 10)}),
    'EC2 curve': (T.EC2Curve, {
        'P_256': ('P-256', 1), 'P_384': ('P-384', 2), 'P_521': ('P-521', 3)}),
    'OKP curve': (T.OKPCurve, {
        'ED25519': ('Ed25519', 6), 'ED448': ('Ed448', 7)}),
}
PLAIN = {
    'format': (T.AttestationStatementFormatIdentifier, {
        'PACKED': 'packed', 'TPM': 'tpm', 'ANDROID_KEY': 'android-key',
        'ANDROID_SAFETYNET': 'android-safetynet', 'FIDO_U2F': 'fido-u2f',
        'NONE': 'none'}),
    'transport': (T.AuthenticatorTransport, {
        'USB': 'usb', 'NFC': 'nfc', 'BLE': 'ble', 'INTERNAL': 'internal'}),
    'attachment': (T.AuthenticatorAttachment, {
        'PLATFORM': 'platform', 'CROSS_PLATFORM': 'cross-platform'}),
    'conveyance': (T.AttestationConveyancePreference, {
        'NONE': 'none', 'INDIRECT': 'indirect', 'DIRECT': 'direct'}),
    'verification': (T.UserVerificationRequirement, {
        'REQUIRED': 'required', 'PREFERRED': 'preferred',
        'DISCOURAGED': 'discouraged'}),
    'mediation': (T.CredentialMediationRequirement, {
        'SILENT': 'silent', 'OPTIONAL': 'optional', 'REQUIRED': 'required'}),
    'type': (T.PublicKeyCredentialType, {'PUBLIC_KEY': 'public-key'}),
    'binding': (T.TokenBindingStatus, {
        'SUPPORTED': 'supported', 'PRESENT': 'present'}),
    'attestation': (T.AttestationType, {
        'BASIC': 'Basic', 'ATTCA': 'AttCA', 'ECDAA': 'ECDAA', 'SELF': 'Self',
        'NONE': 'None', 'UNCERTAIN': 'Uncertain'}),
    'extension': (T.ExtensionIdentifier, {
        'APPID': 'appid', 'TX_AUTH_SIMPLE': 'txAuthSimple',
        'TX_AUTH_GENERIC': 'txAuthGeneric', 'AUTHN_SEL': 'authnSel',
        'EXTS': 'exts', 'UVI': 'uvi', 'LOC': 'loc', 'UVM': 'uvm',
        'BIOMETRIC_PERF_BOUNDS': 'biometricPerfBounds'}),
}
TEXTS = sorted({t for _, m in TABLES.values() for p in m.values()
                for t in (p[0],)} |
               {n for _, m in TABLES.values() for n in m} |
               {t for _, m in PLAIN.values() for t in m.values()} |
               {'', ' ', 'RS256', 'X25519', 'X448', 'secp256k1', 'RSA', '-7',
                '1', '2', 'apple', 'hybrid', 'None', 'true'})
TEXTS = sorted(set(TEXTS) | {f(t) for t in TEXTS
                             for f in (str.lower, str.upper, str.title,
                                       lambda t: t + ' ', lambda t: ' ' + t,
                                       lambda t: t + '\0')})
OTHERS = [None, True, False, 1.0, -7.0, 2.0, b'ES256', b'1', (1, ), [1], {}]
NUMBERS = sorted(set(range(-LOOKUPS, LOOKUPS + 1)) | {
    s * 2**k + d for k in range(12, 66) for s in (1, -1) for d in (-1, 0, 1)} |
    {m + 2**k for m in list(range(-37, 12)) for k in (8, 16, 32, 64)})


#: flag -> the bits it stands for
FLAGS = {'UP': 1, 'RFU1': 2, 'UV': 4, 'RFU2': 0x38, 'AT': 0x40, 'ED': 0x80}


def run_flag(ctx, name):
    ctx.step()
    got = getattr(T.AuthenticatorDataFlag, name).value
    if got != FLAGS[name]:
        raise Violation('flag {} stands for {!r}'.format(name, got))


def table_cases():
    step = 512
    for n in FLAGS:
        yield ('flags', n), ['flags', n]
    for t in TABLES:
        for i in range(0, len(NUMBERS), step):
            yield (t, 'numbers', i), [t, 'numbers', i, i + step]
        yield (t, 'texts'), [t, 'texts', 0, len(TEXTS)]
        yield (t, 'others'), [t, 'others', 0, len(OTHERS)]
    for t in PLAIN:
        yield (t, 'texts'), [t, 'texts', 0, len(TEXTS)]
        yield (t, 'others'), [t, 'others', 0, len(OTHERS)]
        yield (t, 'numbers'), [t, 'numbers', 0, 64]


def run_table(ctx, case):
    if case[0] == 'flags':
        return run_flag(ctx, case[1])
    t, what, a, b = case
    values = {'numbers': NUMBERS, 'texts': TEXTS, 'others': OTHERS}[what][a:b]
    if t in TABLES:
        cls, members = TABLES[t]
        want = {}
        for n, (text, num) in members.items():
            want[text] = getattr(cls.Name, n)
            want[num] = getattr(cls.Value, n)
            if (want[text].value, want[num].value) != (text, num):
                raise Violation('{} {} stands for {!r} and {!r}'.format(
                    t, n, want[text].value, want[num].value))
    else:
        cls, members = PLAIN[t]
        want = {}
        for n, text in members.items():
            want[text] = getattr(cls, n)
            if want[text].value != text:
                raise Violation('{} {} stands for {!r}'.format(
                    t, n, want[text].value))
    for v in values:
        ctx.step()
        exp = want.get(v) if type(v) in (int, str) else None
        try:
            got = cls(v)
        except Exception:
            ctx.outcome('unknown')
            if exp is not None:
                raise Violation('{} {!r} is unknown'.format(t, v))
            continue
        ctx.outcome('known')
        if exp is not None:
            if got is not exp:
                raise Violation('{} {!r} is {!r}'.format(t, v, got))
        elif (type(v) not in (int, str) or got in want.values()
              or t in TABLES):
            # further names may come to be known, but not as these
            raise Violation('{} {!r} is taken for {!r}'.format(t, v, got))


# --------------------------------------------------------------------------
# registrars that leave callbacks out

CALLBACKS = ('register_credential_attestation',
             'register_credential_assertion', 'get_credential_data')


def partial(defined):
    """A registrar class that defines only those callbacks."""
    body = {n: w.Recorder.__dict__[n] for n in CALLBACKS if n in defined}
    body['__init__'] = w.Recorder.__init__
    body['named'] = w.Recorder.named
    return type('Partial', (CredentialsRegistrar, ), body)


def subsets(xs):
    return [list(s) for n in range(len(xs) + 1)
            for s in itertools.combinations(xs, n)]


REG_DEVS = [{}, {'fmt': 'u2f'}, {'fmt': 'android'}, {'user': b''},
            {'key': ('ED25519', 'a', None, 'value')}]
AUTH_DEVS = [{}, {'allow': None}, {'handle': None}, {'count': 7}]


def partial_cases():
    for defined in subsets(CALLBACKS):
        for kind in ('reg', 'auth'):
            for i in range(len(REG_DEVS if kind == 'reg' else AUTH_DEVS)):
                for n in (1, 2):
                    yield (tuple(defined), kind, i, n), [defined, kind, i, n]


def run_partial(ctx, case):
    defined, kind, i, n = case
    base, devs, run = ((c.BASE_REG, REG_DEVS, c.run_reg) if kind == 'reg' else
                       (c.BASE_AUTH, AUTH_DEVS, c.run_auth))
    dev = {k: v for k, v in devs[i].items() if k in base}
    cfg = c.full(base, dev)
    # what the whole registrar answers, and which callbacks it is asked
    whole = run(ctx, cfg)
    if whole[0] is not None:
        raise Violation('{} with {} failed: {!r}'.format(kind, dev, whole[0]))
    asked = {{'att': CALLBACKS[0], 'ass': CALLBACKS[1], 'get': CALLBACKS[2]
              }[k] for k, _ in whole[1].calls}
    reg = partial(defined)(on_get=whole[1].on_get)
    be = CredentialsBackend(reg)
    for _ in range(n):
        ctx.step()
        err = run(ctx, cfg, reg, be)[0]
        if asked <= set(defined):
            ctx.outcome('completed')
            if err is not None:
                raise Violation('{} with a registrar that defines all it '
                                'needs ({}) failed: {!r}'.format(
                                    kind, defined, err))
        else:
            ctx.outcome('refused')
            if err is None:
                raise Violation('{} completed although the registrar lacks '
                                '{}'.format(kind, sorted(asked -
                                                         set(defined))))
            if not isinstance(err, (E.RegistrationError,
                                    E.UnimplementedError)):
                raise Violation('{} with a registrar that lacks {} raised '
                                '{!r}'.format(kind, sorted(asked -
                                                           set(defined)),
                                              err))
    # and a bare registrar says so itself
    bare = CredentialsRegistrar()
    for name in CALLBACKS:
        m = getattr(bare, name)
        args = {'get_credential_data': [b'id'],
                'register_credential_assertion': [None] * 4,
                'register_credential_attestation': [None] * 5}[name]
        ctx.step()
        try:
            got = m(*args)
        except E.UnimplementedError:
            continue
        except Exception as e:
            raise Violation('{} of a bare registrar raised {!r}'.format(
                name, e))
        raise Violation('{} of a bare registrar returned {!r}'.format(
            name, got))


def spaces():
    return [
        FnSpace('kinds', BOUNDS, kind_cases, run_kind),
        FnSpace('curves', BOUNDS, curve_cases, run_curve),
        FnSpace('tables', BOUNDS, table_cases, run_table),
        FnSpace('registrars', BOUNDS, partial_cases, run_partial),
    ]
