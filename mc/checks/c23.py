"""C23: only coherent, supported keys pass validation and are registered."""
import itertools

import cbor2

from mc import ref
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import types as T
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.errors import WebAuthnRPError
from webauthn_rp.parsers import (parse_authenticator_data, parse_cose_key,
                                 parse_ec2_public_key, parse_okp_public_key)
from webauthn_rp.utils import curve_coordinate_byte_length
from webauthn_rp.validators import (validate, validate_ec2_public_key,
                                    validate_okp_public_key)

MISSING = '<missing>'
KTYS = [1, 2, 'OKP', 'EC2', 4, 'Symmetric', 3, 'RSA', 0, -1, 'ec2', 'okp',
        None, MISSING]
CRVS = [1, 2, 3, 6, 7, 'P-256', 'P-384', 'P-521', 'Ed25519', 'Ed448', 4, 5, 8,
        0, -7, 'P_256', 'ED25519', 'X25519', 'secp256k1', None, MISSING]
ALGS = [-7, -35, -36, -8, 'ES256', 'ES384', 'ES512', 'EdDSA', -37, -257, -47,
        'EDDSA', 'RS256', 'es256', 7, 0, None, MISSING]
LENS = [32, 48, 57, 66, 0, 1, 31, 33, 47, 49, 56, 58, 64, 65, 67, MISSING]
YLENS = LENS if THOROUGH else [32, 48, 57, 66, 31, 33, 65, MISSING]

CRED = b'credential-id-01'
CHAL = b'challenge'
CD = w.client_data('webauthn.create', CHAL, 'https://example.org')
CRED_ARGS = dict(user=w.user(), rp=w.rp(), expected_challenge=CHAL,
                 expected_origin='https://example.org')

_GENUINE = {32: ('P256', 'a'), 48: ('P384', 'a'), 57: ('ED448', 'a'),
            66: ('P521', 'a')}


def bytes_of(n, which):
    """A coordinate of n bytes: genuine when a curve has that length."""
    if n in _GENUINE:
        x, y = w.coordinates(*_GENUINE[n])
        return x if which == 0 or y is None else y
    return bytes((i * 37 + 1) & 255 for i in range(n))


def make_map(kty, crv, alg, xl, yl):
    m = {}
    for k, v in ((1, kty), (3, alg), (-1, crv)):
        if v != MISSING:
            m[k] = v
    for k, n in ((-2, xl), (-3, yl)):
        if n != MISSING:
            m[k] = bytes_of(n, k == -3)
    return m


def auth_data(m):
    return w.auth_data(w.sha256(b'example.org'), w.UP | w.AT, 0,
                       w.attested_data(bytes(16), CRED, cbor2.dumps(m)))


def register(ctx, m, what):
    """Registers the key; returns it as stored, or None when refused."""
    rec = w.Recorder()
    ctx.step()
    try:
        CredentialsBackend(rec).handle_credential_attestation(
            credential=w.attestation_credential(
                CRED, CD, w.attestation_object('none', {}, auth_data(m))),
            **CRED_ARGS)
    except WebAuthnRPError as e:
        if rec.calls:
            raise Violation('{}: refused with {!r} but stored'.format(what, e))
        return None
    a = rec.named('att')
    if len(a) != 1:
        raise Violation('{}: accepted but stored {} times'.format(
            what, len(a)))
    return a[0]['att'].auth_data.attested_credential_data.credential_public_key


def judge(ctx, m):
    what = 'key {!r}'.format({k: (len(v) if isinstance(v, bytes) else v)
                              for k, v in m.items()})
    status, want = ref.cose(m)
    ok = status != 'bad' and ref.coherent(m)
    got = register(ctx, m, what)
    if got is not None and not ok:
        raise Violation('{} was registered'.format(what))
    if got is None and ok and status == 'ok':
        raise Violation('{} was refused'.format(what))
    if got is not None and w.view(got) != want:
        raise Violation('{} was stored as {!r}'.format(what, w.view(got)))
    ctx.outcome('registered' if got is not None else 'refused')


def map_cases():
    for p in itertools.product(range(len(KTYS)), range(len(CRVS)),
                               range(len(ALGS))):
        for x in range(len(LENS)):
            yield p + (x, ), list(p) + [x]


def run_map(ctx, case):
    k, c, a, x = case
    for yl in YLENS:
        judge(ctx, make_map(KTYS[k], CRVS[c], ALGS[a], LENS[x], yl))


# --- the same keys wherever they may stand -------------------------------------

CONTEXTS = [
    # flags, counter, extension outputs, attestation format, credential id,
    # AAGUID
    (w.UP, 0, {}, 'none'), (w.UP, 0, {'appid': True}, 'none'),
    (w.UP | w.UV, 7, {'uvm': [[1, 2, 3]]}, 'none'),
    (w.UP | w.UV, 2**32 - 1, None, 'none'), (w.UP | 0x3a, 1, None, 'none'),
    (w.UP, 0, None, 'fido-u2f'), (w.UP, 0, {'appid': False}, 'fido-u2f'),
    (w.UP, 0, None, 'android-key'),
    (w.UP, 0, {'loc': {'latitude': 1}}, 'android-key'),
]
CONTEXTS = [c + (CRED, bytes(16)) for c in CONTEXTS] + [
    (w.UP, 0, ext, fmt, cred, aaguid)
    for ext, fmt in ((None, 'none'), ({'appid': True}, 'none'),
                     (None, 'fido-u2f'), (None, 'android-key'))
    for cred, aaguid in ((b'', bytes(16)), (b'\x00', b'\xff' * 16),
                         (bytes(range(256)) * 3, bytes(range(16))))]


def context_cases():
    for c in range(len(CONTEXTS)):
        for k in range(len(KTYS)):
            for v in range(len(CRVS)):
                yield (c, k, v), [c, k, v]


def statement(fmt, m, ad, cred):
    """A statement that would be genuine if the key were usable."""
    h = w.sha256(CD)
    label = 'a'
    if fmt == 'none':
        return {}
    if fmt == 'fido-u2f':
        data = (b'\x00' + ad[:32] + h + cred + b'\x04' +
                bytes(m.get(-2, b'')) + bytes(m.get(-3, b'')))
        return {'sig': w.sign('P256', 'u2f', 'ES256', data),
                'x5c': [w.certificate('P256', 'u2f')]}
    curve = next((cv for cv in w.CURVES
                  if m.get(-2) == w.coordinates(cv, label)[0]), 'P256')
    alg = w.DEFAULT_ALG[curve]
    desc = w.key_description(h, {}, {'purpose': [2], 'algorithm': 3,
                                     'keySize': 256, 'origin': 0})
    return {'alg': w.ALGS[alg][0], 'sig': w.sign(curve, label, alg, ad + h),
            'x5c': [w.certificate(curve, label, desc)]}


def coordinate_length(crv):
    for table in ref.CRV.values():
        name = ref.lookup(table, crv)
        if name:
            return ref.CRV_LEN[name]
    return 32


def run_context(ctx, case):
    c, k, v = case
    flags, count, ext, fmt, cred, aaguid = CONTEXTS[c]
    n = coordinate_length(CRVS[v])
    for alg in ALGS:
        for xl, yl in ((n, n), (n, MISSING), (n + 1, n), (n, n - 1)):
            m = make_map(KTYS[k], CRVS[v], alg, xl, yl)
            ad = w.auth_data(w.sha256(b'example.org'),
                             flags | w.AT | (0 if ext is None else w.ED),
                             count, w.attested_data(aaguid, cred,
                                                    cbor2.dumps(m)),
                             b'' if ext is None else cbor2.dumps(ext))
            status, want = ref.cose(m)
            ok = status != 'bad' and ref.coherent(m)
            what = 'key {!r} in context {}'.format(m, CONTEXTS[c])
            ctx.step()
            try:
                parsed = parse_authenticator_data(ad)
            except WebAuthnRPError as e:
                parsed = None
            if parsed is not None and not ok:
                raise Violation(what + ' was parsed')
            if parsed is None and ok and status == 'ok':
                raise Violation(what + ' was refused by the parser')
            rec = w.Recorder()
            ctx.step()
            try:
                CredentialsBackend(rec).handle_credential_attestation(
                    credential=w.attestation_credential(
                        cred, CD, w.attestation_object(
                            fmt, statement(fmt, m, ad, cred), ad)), **CRED_ARGS)
                got = True
            except WebAuthnRPError:
                got = False
            if got and not ok:
                raise Violation(what + ' was registered')
            if bool(rec.named('att')) != got:
                raise Violation(what + ': stored and refused, or lost')
            genuine = fmt == 'none' or ok and ref.lookup(ref.KTY,
                                                         m[1]) == 'EC2'
            if not got and ok and status == 'ok' and genuine:
                raise Violation(what + ' was refused')
            ctx.outcome('registered' if got else 'refused')


# --- every length ------------------------------------------------------------

MAXLEN = 140


def len_cases():
    for curve in w.CURVES:
        for form in ('value', 'name'):
            for xl in range(MAXLEN):
                yield (curve, form, xl), [curve, form, xl]


def run_len(ctx, case):
    curve, form, xl = case
    kty, crv_v, crv_t, n = w.CURVES[curve]
    f = 'Value' if form == 'value' else 'Name'
    crv = getattr(getattr(T.EC2Curve if kty == 'EC2' else T.OKPCurve, f),
                  w.LIB_CRV[curve])
    if curve_coordinate_byte_length(crv) != n:
        raise Violation('{} has coordinates of {} bytes'.format(
            crv, curve_coordinate_byte_length(crv)))
    for yl in range(MAXLEN) if kty == 'EC2' else [MISSING]:
        m = w.cose_map(curve, 'a', None, form)
        m[-2] = w.coordinates(curve, 'a')[0] if xl == n else bytes_of(xl, 0)
        if yl != MISSING:
            m[-3] = (w.coordinates(curve, 'a')[1] if yl == n else
                     bytes_of(yl, 1))
        want = xl == n and yl in (n, MISSING)
        one = parse_ec2_public_key if kty == 'EC2' else parse_okp_public_key
        for fn, arg in ((one, m), (parse_cose_key, m),
                        (parse_cose_key, cbor2.dumps(m)),
                        (parse_authenticator_data, auth_data(m))):
            ctx.step()
            try:
                fn(arg)
                got = True
            except WebAuthnRPError:
                got = False
            if got != want:
                raise Violation('{}: {} key with coordinates of {} and {} '
                                'bytes {}'.format(
                                    fn.__name__, curve, xl, yl,
                                    'accepted' if got else 'refused'))
        if want:
            judge(ctx, m)
    ctx.outcome('ok')


# --- validation of keys built by the caller -----------------------------------

def val_cases():
    for cls in ('EC2', 'OKP'):
        for kty in itertools.product(('Name', 'Value'),
                                     ('OKP', 'EC2', 'SYMMETRIC')):
            for crv in itertools.product(('Name', 'Value'),
                                         list(w.LIB_CRV.values()) + ['<none>']):
                for alg in itertools.product(('Name', 'Value'),
                                             list(w.ALGS) + ['<none>']):
                    key = (cls, kty, crv, alg)
                    yield key, [cls, list(kty), list(crv), list(alg)]


def run_val(ctx, case):
    cls, kty, crv, alg = case
    C = T.EC2Curve if crv[1].startswith('P') else T.OKPCurve
    kw = dict(kty=getattr(getattr(T.COSEKeyType, kty[0]), kty[1]), x=b'x')
    kw['crv'] = (None if crv[1] == '<none>' else
                 getattr(getattr(C, crv[0]), crv[1]))
    kw['alg'] = (None if alg[1] == '<none>' else
                 getattr(getattr(T.COSEAlgorithmIdentifier, alg[0]), alg[1]))
    if cls == 'EC2':
        key = T.EC2CredentialPublicKey(y=b'y', **kw)
        one = validate_ec2_public_key
        want = (crv[1] in ('P_256', 'P_384', 'P_521') and
                alg[1] in ('ES256', 'ES384', 'ES512') and kty[1] == 'EC2')
    else:
        key = T.OKPCredentialPublicKey(**kw)
        one = validate_okp_public_key
        want = (crv[1] in ('ED25519', 'ED448') and alg[1] == 'EDDSA' and
                kty[1] == 'OKP')
    # a key object of the wrong class or with nothing set breaks the type
    # annotations: it must not pass, but the class of the error is open
    typed = kty[1] == cls and '<none>' not in (crv[1], alg[1])
    for fn in (validate, one):
        ctx.step()
        try:
            fn(key)
            got = True
        except WebAuthnRPError:
            got = False
        except Exception as e:
            if typed:
                raise Violation('{} {}: {!r}'.format(fn.__name__, case, e))
            got = False
        if got != want:
            raise Violation('{}: {} {}'.format(
                fn.__name__, case, 'passes' if got else 'is refused'))
    ctx.outcome('valid' if want else 'invalid')


BOUNDS = ('registration of every key map over {} key types x {} curves x {} '
          'algorithms x {} x lengths x {} y lengths; every such key in {} contexts of '
          'flags, counter, extension outputs and attestation format; every '
          'pair of coordinate lengths below {} for every curve in both forms, '
          'through every parser; validation of every combination of class, '
          'key type, curve and algorithm members').format(
              len(KTYS), len(CRVS), len(ALGS), len(LENS), len(YLENS),
              len(CONTEXTS), MAXLEN)
ASSUMPTIONS = [
    'a key object whose class disagrees with its key type, or without curve '
    'or algorithm, may be refused with any exception',
    'members of a key map the library does not use are left open',
]


def spaces():
    return [
        FnSpace('maps', BOUNDS, map_cases, run_map),
        FnSpace('contexts', BOUNDS, context_cases, run_context),
        FnSpace('lengths', BOUNDS, len_cases, run_len),
        FnSpace('validate', BOUNDS, val_cases, run_val),
    ]
