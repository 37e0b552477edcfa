"""C06: malformed client bytes only ever raise the library's own errors."""
import functools
import itertools
import json
import struct

import cbor2

from mc import ceremony as c
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import errors as E
from webauthn_rp import parsers as P
from webauthn_rp import types as T
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.registrars import CredentialData

PARSE_ERRORS = (E.ParserError, E.ValidationError)

# --------------------------------------------------------------------------
# Drivers: the entry points client bytes reach


def parse(ctx, fn, data, what):
    """True if it parsed."""
    ctx.step()
    try:
        fn(data)
    except PARSE_ERRORS as e:
        ctx.outcome(fn.__name__ + ':' + type(e).__name__)
        return False
    except Exception as e:
        raise Violation('{} raised {!r} for {}'.format(fn.__name__, e, what))
    ctx.outcome(fn.__name__ + ':parsed')
    return True


CD_CREATE = w.client_data('webauthn.create', b'chal', 'https://example.org')
CD_GET = w.client_data('webauthn.get', b'chal', 'https://example.org')
RPH = w.sha256(b'example.org')


def register(ctx, cd, ao, parsed, what):
    reg = w.Recorder()
    ctx.step()
    ok = True
    try:
        CredentialsBackend(reg).handle_credential_attestation(
            credential=w.attestation_credential(b'id', cd, ao),
            user=w.user(),
            rp=w.rp(),
            expected_challenge=b'chal',
            expected_origin='https://example.org')
        ctx.outcome('register:accepted')
    except E.WebAuthnRPError as e:
        ctx.outcome('register:' + type(e).__name__)
        ok = False
    except Exception as e:
        raise Violation('registration raised {!r} for {}'.format(e, what))
    if (ok and not parsed) or (not ok and reg.named('att')):
        raise Violation('malformed input reached the registrar: {}'.format(
            what))


def authenticate(ctx, cd, ad, sig, parsed, what, key=('P256', 'a'),
                 handle=None):
    reg = w.Recorder(data=CredentialData(
        credential_public_key=w.lib_key(*key),
        signature_count=None,
        user_entity=w.user(),
        rp_entity=w.rp()))
    ctx.step()
    ok = True
    try:
        CredentialsBackend(reg).handle_credential_assertion(
            credential=w.assertion_credential(b'id', cd, ad, sig, handle),
            expected_challenge=b'chal',
            expected_origin='https://example.org',
            user=w.user())
        ctx.outcome('authenticate:accepted')
    except E.WebAuthnRPError as e:
        ctx.outcome('authenticate:' + type(e).__name__)
        ok = False
    except Exception as e:
        raise Violation('authentication raised {!r} for {}'.format(e, what))
    if (ok and not parsed) or (not ok and reg.named('ass')):
        raise Violation('malformed input reached the registrar: {}'.format(
            what))


def cbor_message(ctx, ao, what):
    register(ctx, CD_CREATE, ao, parse(ctx, P.parse_attestation_object, ao,
                                       what), what)


def auth_message(ctx, ad, what):
    ok = parse(ctx, P.parse_authenticator_data, ad, what)
    sig = w.sign('P256', 'a', 'ES256', ad + w.sha256(CD_GET))
    authenticate(ctx, CD_GET, ad, sig, ok, what)
    register(ctx, CD_CREATE, w.attestation_object('none', {}, ad), ok, what)


def client_message(ctx, cd, what):
    ok = parse(ctx, P.parse_client_data, cd, what)
    register(ctx, cd, GOOD_AO, ok, what)
    ad = w.auth_data(RPH, w.UP, 1)
    authenticate(ctx, cd, ad,
                 w.sign('P256', 'a', 'ES256', ad + w.sha256(cd)), ok, what)


GOOD_AD = w.auth_data(
    RPH, w.UP | w.AT | w.ED, 1,
    w.attested_data(b'\x01' * 16, b'id', w.cose_map('P256', 'a')),
    cbor2.dumps({
        'appid': True,
        'uvm': [[1, 2]],
        'loc': {
            'latitude': 1.5,
            'longitude': 0,
            'accuracy': 1
        }
    }))
GOOD_AO = w.attestation_object(
    'none', {},
    w.auth_data(RPH, w.UP | w.AT, 1,
                w.attested_data(b'\x01' * 16, b'id', w.cose_map('P256',
                                                                'a'))))

# --------------------------------------------------------------------------
# 1. every short byte string


def short_cases():
    """One case per prefix; the case runs all byte strings with that prefix
    and one more byte."""
    yield (0, ), [b'', True]
    for a in range(256):
        yield (1, a), [bytes([a]), False]
    if THOROUGH:
        for a in range(256):
            for b in range(256):
                yield (2, a, b), [bytes([a, b]), False]


def run_short(ctx, case):
    prefix, empty = case
    strings = [prefix + bytes([x]) for x in range(256)]
    if empty:
        strings = [b''] + strings
    for s in strings:
        what = 'the bytes {!r}'.format(s)
        ok = {}
        for fn in (P.parse_attestation_object, P.parse_cose_key,
                   P.parse_client_data, P.parse_authenticator_data):
            ok[fn] = parse(ctx, fn, s, what)
        for fl in (w.ED, w.AT, w.AT | w.ED):
            parse(ctx, P.parse_authenticator_data,
                  RPH + bytes([w.UP | fl]) + bytes(4) + s, what)
        if len(s) == 1 or not THOROUGH:
            register(ctx, CD_CREATE, s, ok[P.parse_attestation_object], what)
            register(ctx, s, GOOD_AO, ok[P.parse_client_data], what)
            authenticate(ctx, CD_GET, s, s, ok[P.parse_authenticator_data],
                         what)
            authenticate(ctx, s, GOOD_AD, s, ok[P.parse_client_data], what)
        if len(s) == 1:
            for k in (('P256', 'a'), ('P521', 'a'), ('ED25519', 'a'),
                      ('ED448', 'a')):
                authenticate(ctx, CD_GET, w.auth_data(RPH, w.UP, 1), s, False,
                             what, key=k)
    ctx.outcome('strings')


# --------------------------------------------------------------------------
# 2. truncations and single-byte changes of valid messages


@functools.lru_cache(None)
def messages():
    m = {}
    for fmt in ('none', 'u2f', 'android', 'packed-x5c', 'tpm-x5c',
                'packed-ecdaa', 'safetynet'):
        for key in (('P256', 'a', None, 'value'), ('ED25519', 'a', None,
                                                   'name')):
            if fmt not in ('none', 'android') and key[0] != 'P256':
                continue
            cfg = dict(c.BASE_REG, fmt=fmt, key=key, cred_id=b'id',
                       exp_challenge=b'chal', ext={'uvm': [[1, 2]]})
            cd, ad, ao, st = c.build_reg(cfg)
            m['ao:{}:{}'.format(fmt, key[0])] = ao
    m['ad:full'] = GOOD_AD
    m['ad:plain'] = w.auth_data(RPH, w.UP, 1)
    m['cose:ec'] = cbor2.dumps(
        w.cose_map('P256', 'a', kid=b'k', key_ops=[2, 'sign'], base_iv=b'iv'))
    m['cose:okp'] = cbor2.dumps(w.cose_map('ED25519', 'a', form='name'))
    m['cd:get'] = CD_GET
    m['cd:create'] = w.client_data('webauthn.create', b'chal',
                                   'https://example.org', {
                                       'status': 'present',
                                       'id': 'x'
                                   }, {'extra': [1, {
                                       'a': None
                                   }]})
    return m


def deliver(ctx, name, b, what):
    if name.startswith('ao'):
        cbor_message(ctx, b, what)
    elif name.startswith('ad'):
        auth_message(ctx, b, what)
    elif name.startswith('cose'):
        parse(ctx, P.parse_cose_key, b, what)
    else:
        client_message(ctx, b, what)


def mutate_cases():
    for name, b in messages().items():
        for i in range(len(b) + 1):
            yield (name, i), [name, i]


def run_mutate(ctx, case):
    name, i = case
    b = messages()[name]
    deliver(ctx, name, b[:i], '{} cut at {}'.format(name, i))
    deliver(ctx, name, b[i:], '{} from {}'.format(name, i))
    deliver(ctx, name, b[:i] + b[i + 1:], '{} without {}'.format(name, i))
    if i < len(b):
        vals = range(1, 256)
        if not THOROUGH and len(b) > 400:
            vals = (1, 2, 4, 8, 16, 32, 64, 128, 255, 127, 224, 31)
        for x in vals:
            deliver(ctx, name, b[:i] + bytes([b[i] ^ x]) + b[i + 1:],
                    '{} byte {} xor {}'.format(name, i, x))
    for x in ((0, 0x60, 0x80, 0xa0, 0xc0, 0xf6, 0xff) if not THOROUGH else
              range(256)):
        deliver(ctx, name, b[:i] + bytes([x]) + b[i:],
                '{} with {} inserted at {}'.format(name, x, i))


# --------------------------------------------------------------------------
# 3. small CBOR trees in every position


def head(major, n):
    if n < 24:
        return bytes([major << 5 | n])
    for code, fmt, lim in ((24, '>B', 2**8), (25, '>H', 2**16),
                           (26, '>I', 2**32), (27, '>Q', 2**64)):
        if n < lim:
            return bytes([major << 5 | code]) + struct.pack(fmt, n)
    raise AssertionError


def cb(b):
    return head(2, len(b)) + b


def ct(b):
    b = b.encode() if isinstance(b, str) else b
    return head(3, len(b)) + b


def ca(*xs):
    return head(4, len(xs)) + b''.join(xs)


def cm(*kv):
    return head(5, len(kv)) + b''.join(k + v for k, v in kv)


def ci(n):
    return head(0, n) if n >= 0 else head(1, -1 - n)


def tag(n, x):
    return head(6, n) + x


ATOMS = {
    'zero': ci(0), 'one': ci(1), 'minus': ci(-1), 'es256': ci(-7),
    'u64': ci(2**64 - 1), 'n64': ci(-2**64), 'bytes0': cb(b''),
    'bytes1': cb(b'\x00'), 'bytes32': cb(b'\x01' * 32), 'text0': ct(''),
    'text': ct('a'), 'none-text': ct('none'), 'text-es256': ct('ES256'),
    'text-nul': ct('\x00'), 'text-invalid': ct(b'\xff'),
    'text-surrogate': ct(b'\xed\xa0\x80'), 'text-cut': head(3, 5) + b'ab',
    'bytes-cut': head(2, 5) + b'ab', 'array0': ca(), 'array1': ca(ci(1)),
    'array-cut': head(4, 3) + ci(1), 'map0': cm(),
    'map1': cm((ci(1), ci(2))), 'map-text': cm((ct('a'), ci(1))),
    'map-cut': head(5, 2) + ci(1) + ci(1),
    'map-arraykey': cm((ca(ci(1)), ci(1))), 'map-mapkey': cm((cm(), ci(1))),
    'map-nullkey': cm((b'\xf6', ci(1))), 'map-nankey':
    cm((b'\xf9\x7e\x00', ci(1))), 'map-boolkey': cm((b'\xf5', ci(1))),
    'map-dup': cm((ci(1), ci(1)), (ci(1), ci(2))),
    'false': b'\xf4', 'true': b'\xf5', 'null': b'\xf6', 'undef': b'\xf7',
    'simple0': b'\xe0', 'simple19': b'\xf3', 'simple255': b'\xf8\xff',
    'simple24': b'\xf8\x18', 'simple-bad': b'\xf8\x01',
    'half': b'\xf9\x3c\x00', 'nan': b'\xf9\x7e\x00', 'inf': b'\xf9\x7c\x00',
    'float': b'\xfa\x3f\x80\x00\x00', 'double': b'\xfb' + bytes(8),
    'half-cut': b'\xf9\x00', 'break': b'\xff', 'reserved28': b'\x1c',
    'reserved-bytes': b'\x5c', 'reserved-map': b'\xbd', 'nothing': b'',
    'indef-bytes': b'\x5f\x41a\x41b\xff', 'indef-bytes-text': b'\x5f\x61a\xff',
    'indef-text': b'\x7f\x61a\xff', 'indef-text-bytes': b'\x7f\x41a\xff',
    'indef-text-int': b'\x7f\x01\xff', 'indef-array': b'\x9f\x01\xff',
    'indef-array-open': b'\x9f\x01', 'indef-map': b'\xbf\x01\x02\xff',
    'indef-map-odd': b'\xbf\x01\xff', 'indef-open': b'\x5f',
    'indef-int': b'\x1f', 'indef-tag': b'\xdf\x01',
    'huge-bytes': b'\x5b' + b'\xff' * 8, 'huge-bytes2': b'\x5b\x7f' + b'\xff' *
    7, 'huge-text': b'\x7b\x00\x00\x00\xff' + b'\xff' * 4,
    'huge-array': b'\x9b\x7f' + b'\xff' * 7, 'huge-array2':
    b'\x9b\x00\x00\x00\x00' + b'\xff' * 4, 'huge-array3': b'\x9a\x00\xff\xff'
    b'\xff', 'huge-map': b'\xbb\xff' + b'\xff' * 7,
    'deep-array': b'\x81' * 3000 + b'\x00', 'deep-array-open': b'\x81' *
    100000, 'deep-map': b'\xa1\x00' * 3000 + b'\x00',
    'deep-tag': b'\xc6' * 3000 + b'\x00', 'deep-keymap': b'\xa1' * 3000,
    'datetime': tag(0, ct('2020-01-01T00:00:00Z')),
    'datetime-bad': tag(0, ct('x')), 'datetime-int': tag(0, ci(1)),
    'datetime-day': tag(0, ct('2020-99-99T99:99:99Z')),
    'epoch': tag(1, ci(1)), 'epoch-text': tag(1, ct('x')),
    'epoch-huge': tag(1, ci(2**64 - 1)), 'epoch-nan': tag(1, b'\xf9\x7e\x00'),
    'epoch-inf': tag(1, b'\xf9\x7c\x00'), 'epoch-null': tag(1, b'\xf6'),
    'bignum': tag(2, cb(b'\x01' * 9)), 'bignum1': tag(2, cb(b'\x01')),
    'bignum-text': tag(2, ct('x')), 'bignum0': tag(2, cb(b'')),
    'negbignum': tag(3, cb(b'\x06')), 'negbignum-int': tag(3, ci(1)),
    'decimal': tag(4, ca(ci(1), ci(2))), 'decimal-bad': tag(4, ci(1)),
    'decimal-text': tag(4, ca(ct('x'), ct('y'))), 'decimal1': tag(
        4, ca(ci(1))), 'decimal-huge': tag(4, ca(ci(2**63), ci(1))),
    'bigfloat': tag(5, ca(ci(1), ci(2))), 'bigfloat-bad': tag(5, ca()),
    'bigfloat-huge': tag(5, ca(ci(2**40), ci(1))),
    'rational': tag(30, ca(ci(1), ci(2))), 'rational0': tag(
        30, ca(ci(1), ci(0))), 'rational-bad': tag(30, ct('x')),
    'shared': tag(28, ci(1)), 'shared-cyclic': tag(28, ca(tag(29, ci(0)))),
    'shared-cyclic-map': tag(28, cm((ci(1), tag(29, ci(0))))),
    'sharedref': tag(29, ci(0)), 'sharedref-text': tag(29, ct('x')),
    'sharedref-neg': tag(29, ci(-1)), 'stringref': tag(25, ci(0)),
    'namespace': tag(256, ca(ct('aaa'), tag(25, ci(0)))),
    'namespace-bad': tag(256, tag(25, ci(9))),
    'regexp': tag(35, ct('a*')), 'regexp-bad': tag(35, ct('(')),
    'regexp-int': tag(35, ci(1)), 'mime': tag(36, ct('a: b\n\nc')),
    'mime-int': tag(36, ci(1)), 'uuid': tag(37, cb(b'\x01' * 16)),
    'uuid-short': tag(37, cb(b'\x01')), 'uuid-text': tag(37, ct('x')),
    'set': tag(258, ca(ci(1), ci(2))), 'set-unhashable': tag(
        258, ca(cm())), 'set-int': tag(258, ci(1)),
    'ip': tag(260, cb(b'\x7f\x00\x00\x01')), 'ip-bad': tag(260, cb(b'x')),
    'ip-text': tag(260, ct('x')), 'net': tag(
        261, cm((cb(b'\x7f\x00\x00\x00'), ci(8)))), 'net-bad': tag(
            261, cm((cb(b'x'), ci(99)))), 'net-empty': tag(261, cm()),
    'net-int': tag(261, ci(1)), 'self': tag(55799, ci(1)),
    'self-map': tag(55799, cm()), 'unknown-tag': tag(999, ci(1)),
    'huge-tag': tag(2**64 - 1, ci(1)), 'tag-open': b'\xc0',
    'tag-map': tag(6, cm((ci(1), ci(1)))), 'tag-bytes': tag(24, cb(b'\x00')),
}
# values of another type that are as long as the real ones
for _n in (16, 32, 37, 66, 200):
    ATOMS['text%d' % _n] = ct('A' * _n)
    ATOMS['array%d' % _n] = ca(*[ci(65)] * _n)
    ATOMS['bytes%d' % _n] = cb(b'A' * _n)
    ATOMS['map%d' % _n] = cm(*[(ci(i), ci(65)) for i in range(_n)])


def wraps(x):
    """The atom alone and one level inside every kind of container."""
    yield 'it', x
    yield 'array', ca(x)
    yield 'array2', ca(ci(1), x)
    yield 'arrays', ca(ca(x))
    yield 'value', cm((ct('a'), x))
    yield 'ivalue', cm((ci(1), x))
    yield 'key', cm((x, ci(1)))
    yield 'indef', b'\x9f' + x + b'\xff'
    yield 'indefkey', b'\xbf' + x + ci(1) + b'\xff'
    for t in (0, 1, 2, 4, 28, 30, 258, 261, 999):
        yield 'tag{}'.format(t), tag(t, x)


def raw_map(d):
    return head(5, len(d)) + b''.join(k + v for k, v in d.items())


COSE = {
    ci(1): ci(2),
    ci(2): cb(b'kid'),
    ci(3): ci(-7),
    ci(4): ca(ci(2)),
    ci(5): cb(b'iv'),
    ci(-1): ci(1),
    ci(-2): cb(w.coordinates('P256', 'a')[0]),
    ci(-3): cb(w.coordinates('P256', 'a')[1]),
}
STMTS = {
    'packed': {'alg': ci(-7), 'sig': cb(b's'), 'x5c': ca(cb(b'c'))},
    'packed+': {'alg': ci(-7), 'sig': cb(b's'), 'ecdaaKeyId': cb(b'k')},
    'tpm': {'alg': ci(-7), 'sig': cb(b's'), 'ver': ct('2'),
            'certInfo': cb(b'c'), 'pubArea': cb(b'p'), 'x5c': ca(cb(b'c'))},
    'tpm+': {'alg': ci(-7), 'sig': cb(b's'), 'ver': ct('2'),
             'certInfo': cb(b'c'), 'pubArea': cb(b'p'),
             'ecdaaKeyId': cb(b'k')},
    'android-key': {'alg': ci(-7), 'sig': cb(b's'), 'x5c': ca(cb(b'c'))},
    'android-safetynet': {'ver': ct('1'), 'response': cb(b'r')},
    'fido-u2f': {'sig': cb(b's'), 'x5c': ca(cb(b'c'))},
    'none': {},
}


def _ao(fmt, stmt, ad):
    return raw_map({ct('fmt'): fmt, ct('attStmt'): stmt, ct('authData'): ad})


AD_PLAIN = cb(
    w.auth_data(RPH, w.UP | w.AT, 1,
                w.attested_data(b'\x01' * 16, b'id', w.cose_map('P256',
                                                                'a'))))


def ad_with_key(k):
    return w.auth_data(RPH, w.UP | w.AT, 1,
                       w.attested_data(b'\x01' * 16, b'id', k))


def ad_with_ext(x):
    return w.auth_data(RPH, w.UP | w.ED, 1, b'', x)


def positions():
    out = {}
    out['ao'] = lambda x: ('ao', x)
    out['ao.fmt'] = lambda x: ('ao', _ao(x, cm(), AD_PLAIN))
    out['ao.attStmt'] = lambda x: ('ao', _ao(ct('none'), x, AD_PLAIN))
    out['ao.authData'] = lambda x: ('ao', _ao(ct('none'), cm(), x))
    out['ao.extra'] = lambda x: ('ao', raw_map({
        ct('fmt'): ct('none'), ct('attStmt'): cm(), ct('authData'): AD_PLAIN,
        ct('x'): x}))
    out['ao.key'] = lambda x: ('ao', raw_map({
        ct('fmt'): ct('none'), ct('attStmt'): cm(), ct('authData'): AD_PLAIN,
        x: ci(0)}))
    for name, st in STMTS.items():
        fmt = ct(name.rstrip('+'))

        def put(x, f, st=st, fmt=fmt):
            d = {ct(k): v for k, v in st.items()}
            d[f] = x
            return 'ao', _ao(fmt, raw_map(d), AD_PLAIN)

        for f in st:
            out['stmt.{}.{}'.format(name, f)] = (
                lambda x, f=f, put=put: put(x, ct(f)))
            if f == 'x5c':
                out['stmt.{}.x5c[]'.format(name)] = (
                    lambda x, f=f, put=put: put(ca(cb(b'c'), x), ct(f)))
        out['stmt.{}.extra'.format(name)] = (
            lambda x, put=put: put(x, ct('zz')))
        out['stmt.{}.key'.format(name)] = (
            lambda x, put=put: put(ci(1), x))
        out['stmt.{}'.format(name)] = (
            lambda x, fmt=fmt: ('ao', _ao(fmt, x, AD_PLAIN)))
    for f in COSE:
        def cose(x, f=f):
            d = dict(COSE)
            d[f] = x
            return 'cose', raw_map(d)
        out['cose[{}]'.format(f.hex())] = cose
    out['cose[4][]'] = lambda x: ('cose', raw_map(
        dict(COSE, **{}) | {ci(4): ca(ci(1), x)}))
    out['cose.key'] = lambda x: ('cose', raw_map({**COSE, x: ci(1)}))
    out['cose.okp'] = lambda x: ('cose', raw_map(
        {ci(1): ci(1), ci(3): ci(-8), ci(-1): x, ci(-2): cb(b'x' * 32)}))
    out['cose'] = lambda x: ('cose', x)
    out['ext'] = lambda x: ('ad', ad_with_ext(x))
    for n in c.EXT_ATTR:
        out['ext.' + n] = lambda x, n=n: ('ad', ad_with_ext(
            raw_map({ct(n): x})))
    out['ext.key'] = lambda x: ('ad', ad_with_ext(raw_map({x: b'\xf5'})))
    out['ext.exts[]'] = lambda x: ('ad', ad_with_ext(
        raw_map({ct('exts'): ca(ct('a'), x)})))
    out['ext.uvm[]'] = lambda x: ('ad', ad_with_ext(
        raw_map({ct('uvm'): ca(ca(ci(1)), x)})))
    out['ext.uvm[][]'] = lambda x: ('ad', ad_with_ext(
        raw_map({ct('uvm'): ca(ca(ci(1), x))})))
    out['ext.loc.latitude'] = lambda x: ('ad', ad_with_ext(
        raw_map({ct('loc'): raw_map({ct('latitude'): x})})))
    out['ext.loc.key'] = lambda x: ('ad', ad_with_ext(
        raw_map({ct('loc'): raw_map({x: ci(1)})})))
    out['ext-after-key'] = lambda x: ('ad', w.auth_data(
        RPH, w.UP | w.AT | w.ED, 1,
        w.attested_data(b'\x01' * 16, b'id', w.cose_map('P256', 'a')), x))
    return out


def tree_cases():
    pos = positions()
    for p in pos:
        for a, x in ATOMS.items():
            yield (p, a), [p, a]


def run_tree(ctx, case):
    p, a = case
    put = positions()[p]
    for wname, x in wraps(ATOMS[a]):
        kind, b = put(x)
        what = '{} in {} at {}'.format(a, wname, p)
        if kind == 'ao':
            cbor_message(ctx, b, what)
        elif kind == 'cose':
            parse(ctx, P.parse_cose_key, b, what)
            if len(b) < 5000:
                auth_message(ctx, ad_with_key(b), what)
        else:
            auth_message(ctx, b, what)


# --------------------------------------------------------------------------
# 4. small JSON trees in every position of the client data

JSON_ATOMS = [
    'null', 'true', 'false', '0', '-1', '1.5', '1e999', '-0', 'NaN',
    'Infinity', '9' * 400, '9' * 5000, '1e-400', '""', '"a"', '"\\u0000"',
    '"\\ud800"', '"\\ud83d\\ude00"', '"\u00e9"', '"=="', '"AAAA"', '"A"',
    '"https://example.org"', '"https://[::1"', '"https://a:99999"',
    '"https://\\u2100"', '"://"', '"https://\\ud800"', '"present"',
    '"supported"', '"webauthn.get"', '[]', '[null]', '[[]]', '{}',
    '{"a":1}', '{"":{}}', '{"status":"present"}',
    '{"status":"present","id":"x"}', '{"status":[]}', '{"status":{}}',
    '{"status":null}', '{"status":"supported","id":[]}', '[' * 2000 + ']' *
    2000, '[' * 100000, '{"a":' * 100000, '"', '{', '}', '', ' ', '\x00',
    '\ufeff""', '{"a":1,"a":2}', '{1:2}', "'a'", 'undefined', '//', '\\',
    '"\t"', '"\\x"', 'tru', '01', '+1', '.5', '1.', '"' + 'x' * 100000 + '"',
]
JSON_FORMS = [
    '%s', '[%s]', '{"type":%s,"challenge":"Y2hhbA","origin":"https://example.'
    'org"}', '{"type":"webauthn.get","challenge":%s,"origin":"https://example'
    '.org"}', '{"type":"webauthn.get","challenge":"Y2hhbA","origin":%s}',
    '{"type":"webauthn.create","challenge":"Y2hhbA","origin":%s}',
    '{"type":"webauthn.get","challenge":"Y2hhbA","origin":"https://example.or'
    'g","tokenBinding":%s}',
    '{"type":"webauthn.get","challenge":"Y2hhbA","origin":"https://example.or'
    'g","tokenBinding":{"status":%s}}',
    '{"type":"webauthn.get","challenge":"Y2hhbA","origin":"https://example.or'
    'g","tokenBinding":{"status":"present","id":%s}}',
    '{"type":"webauthn.get","challenge":"Y2hhbA","origin":"https://example.or'
    'g","extra":%s}', '{"type":"webauthn.get","challenge":"Y2hhbA","origin":"'
    'https://example.org",%s:1}', '%s{"type":"webauthn.get"}',
    '{"type":"webauthn.get","challenge":"Y2hhbA","origin":"https://example.or'
    'g"}%s',
]
ENCODINGS = ['utf-8', 'utf-8-sig', 'utf-16', 'utf-16-le', 'utf-32-be',
             'latin-1']


def json_cases():
    for i in range(len(JSON_FORMS)):
        for j in range(len(JSON_ATOMS)):
            for k in range(len(ENCODINGS)):
                yield (i, j, k), [i, j, k]


def run_json(ctx, case):
    i, j, k = case
    try:
        b = (JSON_FORMS[i] % JSON_ATOMS[j]).encode(ENCODINGS[k], 'replace')
    except UnicodeEncodeError:
        b = (JSON_FORMS[i] % JSON_ATOMS[j]).encode('utf-8', 'surrogatepass')
    client_message(ctx, b, 'client data form {} with atom {!r} in {}'.format(
        i, JSON_ATOMS[j][:40], ENCODINGS[k]))


# --------------------------------------------------------------------------
# 5. JSON credentials

CRED_ATOMS = [
    None, True, False, 0, 1, -1, 1.5, float('nan'), 2**70, '', 'a', 'AAAA',
    'AAA=', 'A', 'AA', '=', '====', 'AA==AA', '\u00e9', '\ud800', '\x00',
    'AA\nAA', '-_-_', [], ['AAAA'], {}, {
        'a': 1
    }, [None], {
        'clientDataJSON': 'AAAA'
    }
]
CRED_REG = {
    'id': 'x', 'rawId': 'AAAA', 'type': 'public-key',
    'response': {'clientDataJSON': 'AAAA', 'attestationObject': 'AAAA'}
}
CRED_AUTH = {
    'id': 'x', 'rawId': 'AAAA', 'type': 'public-key',
    'response': {'clientDataJSON': 'AAAA', 'authenticatorData': 'AAAA',
                 'signature': 'AAAA', 'userHandle': 'AAAA'}
}


def cred_cases():
    n = len(CRED_ATOMS)
    for i in range(n):
        yield ('top', i), ['top', 0, '', i, '', i]
    for b, base in enumerate((CRED_REG, CRED_AUTH)):
        fields = list(base) + ['.' + f for f in base['response']
                               ] + ['extra', '.extra', '.attestationObject']
        for f1, f2 in itertools.combinations(sorted(set(fields)), 2):
            for i in range(n):
                for j in range(n):
                    yield (b, f1, i, f2, j), ['two', b, f1, i, f2, j]


def run_cred(ctx, case):
    mode, b, f1, i, f2, j = case
    if mode == 'top':
        d = CRED_ATOMS[i]
    else:
        base = (CRED_REG, CRED_AUTH)[b]
        d = dict(base, response=dict(base['response']))
        for f, x in ((f1, CRED_ATOMS[i]), (f2, CRED_ATOMS[j])):
            if f.startswith('.'):
                if isinstance(d['response'], dict):
                    d['response'] = dict(d['response'])
                    d['response'][f[1:]] = x
            else:
                d[f] = x
    ctx.step()
    try:
        P.parse_public_key_credential(d)
        ctx.outcome('parsed')
    except E.ParserError as e:
        ctx.outcome(type(e).__name__)
    except Exception as e:
        raise Violation('parse_public_key_credential raised {!r} for {!r}'.
                        format(e, d))


# --------------------------------------------------------------------------
# 6. whole JSON responses into the handlers: wrong kinds of response


def kind_cases():
    for i in range(2):
        for j in range(6):
            yield (i, j), [i, j]


def run_kind(ctx, case):
    i, j = case
    raw = [b'', b'\x00', GOOD_AO, GOOD_AD, CD_GET, b'\xff' * 40][j]
    creds = [
        w.attestation_credential(raw, raw, raw),
        w.assertion_credential(raw, raw, raw, raw, raw)
    ]
    reg = w.Recorder()
    be = CredentialsBackend(reg)
    cred = creds[i]
    for h in ('att', 'ass'):
        ctx.step()
        try:
            if h == 'att':
                be.handle_credential_attestation(
                    credential=cred, user=w.user(), rp=w.rp(),
                    expected_challenge=b'chal',
                    expected_origin='https://example.org')
            else:
                be.handle_credential_assertion(
                    credential=cred, expected_challenge=b'chal',
                    expected_origin='https://example.org', user=w.user(),
                    rp=w.rp())
            raise Violation('junk was accepted')
        except E.WebAuthnRPError as e:
            ctx.outcome(type(e).__name__)
    if reg.named('att') or reg.named('ass'):
        raise Violation('junk reached the registrar')


BOUNDS = (
    'all byte strings up to {} bytes into every parser and handler position; '
    'all truncations at both ends, deletions, insertions ({} values) and '
    'single-byte changes ({}) of {} valid messages; {} CBOR atoms (every major '
    'type, reserved and truncated encodings, all tags the decoder interprets, '
    'deep nesting) in 18 wrappings at {} positions; {} JSON atoms in {} '
    'positions and {} encodings; all pairs of {} JSON values in two members '
    'of both credential kinds').format(
        3 if THOROUGH else 2, 'all' if THOROUGH else '7',
        'all values' if THOROUGH else 'all values, 12 for the longest',
        len(messages()), len(ATOMS), len(positions()), len(JSON_ATOMS),
        len(JSON_FORMS), len(ENCODINGS), len(CRED_ATOMS))
ASSUMPTIONS = [
    'one call is given {} s to terminate and 6 GB of memory'.format(20)
]


def spaces():
    return [
        FnSpace('short-strings', BOUNDS, short_cases, run_short),
        FnSpace('mutations', BOUNDS, mutate_cases, run_mutate),
        FnSpace('cbor-trees', BOUNDS, tree_cases, run_tree),
        FnSpace('json-trees', BOUNDS, json_cases, run_json),
        FnSpace('json-credentials', BOUNDS, cred_cases, run_cred),
        FnSpace('wrong-kind', BOUNDS, kind_cases, run_kind),
    ]
