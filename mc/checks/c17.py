"""C17: FIDO U2F attestation."""
import functools
import itertools

import cbor2
from cryptography.hazmat.primitives.asymmetric.utils import (
    decode_dss_signature, encode_dss_signature)

from mc import ceremony as c
from mc import ref
from mc import world as w
from mc.attest import attempt
from mc.core import FnSpace, THOROUGH, Violation

BASE = dict(c.BASE_REG, fmt='u2f')
RP_HASH = w.sha256(b'example.org')


def cfg_of(key=('P256', 'a', None, 'value'), **kw):
    return dict(BASE, key=key, **kw)


@functools.lru_cache(None)
def world(key, cred_id=BASE['cred_id']):
    """(cfg, client data, its hash, authenticator data) of a ceremony."""
    cfg = cfg_of(key, cred_id=cred_id)
    cd = c.client_data_bytes(cfg)
    return cfg, cd, w.sha256(cd), c.auth_data_bytes(cfg)


def u2f_key(key):
    x, y = w.coordinates(key[0], key[1])
    return b'\x04' + x + (y or b'')


def genuine_data(key, cred_id=BASE['cred_id']):
    cfg, cd, h, ad = world(key, cred_id)
    return b'\x00' + RP_HASH + h + cred_id + u2f_key(key)


P256 = ('P256', 'a', None, 'value')
CERT = w.certificate('P256', 'batch')

# --------------------------------------------------------------------------
# 1. certificate lists

CERTS = [
    # name, DER, (curve, label) of its key or None, usable
    ('batch', CERT, ('P256', 'batch'), 'ok'),
    ('other', w.certificate('P256', 'other'), ('P256', 'other'), 'ok'),
    ('self', w.certificate('P256', 'a'), ('P256', 'a'), 'ok'),
    ('P384', w.certificate('P384', 'batch'), ('P384', 'batch'), 'bad'),
    ('P521', w.certificate('P521', 'batch'), ('P521', 'batch'), 'bad'),
    ('K256', w.certificate('K256', 'batch'), ('K256', 'batch'), 'bad'),
    ('RSA', w.certificate('RSA', ''), None, 'bad'),
    ('Ed25519', w.certificate('ED25519', 'batch'), ('ED25519', 'batch'), 'bad'),
    ('Ed448', w.certificate('ED448', 'batch'), ('ED448', 'batch'), 'bad'),
    ('empty', b'', None, 'bad'),
    ('garbage', b'\x30\x03\x02\x01\x01', None, 'bad'),
    ('cut', CERT[:-1], ('P256', 'batch'), 'bad'),
    ('text', b'-----BEGIN CERTIFICATE-----', None, 'bad'),
    ('trailing', CERT + b'\x00', ('P256', 'batch'), 'open'),
]
SIGNERS = [('P256', 'batch'), ('P256', 'other'), ('P256', 'a'),
           ('P384', 'batch'), ('P521', 'batch'), ('K256', 'batch'),
           ('ED25519', 'batch'), ('ED448', 'batch')]


@functools.lru_cache(None)
def signature(signer, data, alg='ES256'):
    if signer[0] == 'K256':
        # not one of the deterministic signers: sign once per process
        from cryptography.hazmat.primitives.asymmetric.ec import ECDSA
        from cryptography.hazmat.primitives.hashes import SHA256
        return w.private_key(*signer).sign(data, ECDSA(SHA256()))
    if signer[0].startswith('ED'):
        return w.sign(signer[0], signer[1], 'EDDSA', data)
    return w.sign(signer[0], signer[1], alg, data)


def cert_cases():
    k = 4 if THOROUGH else 3
    for n in range(k + 1):
        for t in itertools.product(range(len(CERTS)), repeat=n):
            if n > 2 and len(set(t)) > (3 if THOROUGH else 2):
                continue
            yield t, list(t)


def run_cert(ctx, case):
    cfg, cd, h, ad = world(P256)
    data = genuine_data(P256)
    x5c = [CERTS[i][1] for i in case]
    for signer in SIGNERS:
        status = 'bad'
        if len(case) == 1:
            _, _, who, usable = CERTS[case[0]]
            if who == signer:
                status = usable
        attempt(ctx, cfg, cd, ad, 'fido-u2f', {
            'sig': signature(signer, data),
            'x5c': x5c
        }, status, x5c[0] if x5c else None, lambda:
                'U2F with certificates {} signed by {}'.format(
                    [CERTS[i][0] for i in case], signer), status != 'open')


# 2. the signed content, part by part

KEYS = [('P256', 'a', None, 'value'), ('P256', 'a', 'ES512', 'name'),
        ('P256', w.short_label('P256', 0), None, 'value'),
        ('P256', w.short_label('P256', 1), None, 'value'),
        ('P384', 'a', None, 'value'), ('P521', 'a', None, 'value')]


def parts(key):
    cfg, cd, h, ad = world(key)
    x, y = w.coordinates(key[0], key[1])
    cid = cfg['cred_id']
    return [
        [b'\x00', b'', b'\x01', b'\x00\x00', b'\x05', b'\xff'],
        [RP_HASH, b'', w.sha256(b'evil.org'), RP_HASH[::-1], b'example.org',
         w.sha256(b'https://example.org')],
        [h, b'', cd, w.sha256(h), w.sha256(cd + b' '), h[:-1]],
        [cid, b'', cid[:-1], cid + b'\x00', cid[::-1],
         len(cid).to_bytes(2, 'big') + cid],
        [b'\x04' + x + y, b'', x + y, b'\x04' + y + x, b'\x04' + x,
         bytes([2 + (y[-1] & 1)]) + x,
         b'\x04' + b''.join(w.coordinates(key[0], 'other')),
         b'\x04' + x + y + b'\x00', b'\x04' + x.lstrip(b'\0') + y.lstrip(b'\0'),
         cbor2.dumps(w.cose_map(*key[:4]))],
    ]


def content_cases():
    for k in range(len(KEYS)):
        p = parts(KEYS[k])
        n = 5 if THOROUGH else 3
        for t in itertools.product(*[range(len(x)) for x in p]):
            if sum(1 for i in t if i) <= n:
                yield (k, ) + t, [k, 'parts', list(t)]
        for t in itertools.permutations(range(5)):
            yield (k, 'order') + t, [k, 'order', list(t)]
        for a in ('ES256', 'ES384', 'ES512'):
            yield (k, a), [k, 'hash', a]


def run_content(ctx, case):
    k, kind, t = case
    key = KEYS[k]
    cfg, cd, h, ad = world(key)
    p = parts(key)
    alg = 'ES256'
    if kind == 'parts':
        data = b''.join(x[i] for x, i in zip(p, t))
    elif kind == 'order':
        data = b''.join(p[i][0] for i in t)
    else:
        alg = t
        data = genuine_data(key)
    ok = data == genuine_data(key) and alg == 'ES256'
    attempt(ctx, cfg, cd, ad, 'fido-u2f', {
        'sig': w.sign('P256', 'batch', alg, data),
        'x5c': [CERT]
    }, 'ok' if ok else 'bad', CERT, lambda: 'U2F signed over {}'.format(case))


# 3. signature bytes

SIG = w.sign('P256', 'batch', 'ES256', genuine_data(P256))
R, S = decode_dss_signature(SIG)
N = w.ORDER['P256']


def ber_int(v, pad=0, neg=False):
    b = v.to_bytes((v.bit_length() + 8) // 8 or 1, 'big')
    if neg:
        b = b.lstrip(b'\0')
    return w.der(b'\x02', b'\x00' * pad + b)


def reencodings():
    seq = lambda *x: w.der(b'\x30', b''.join(x))  # noqa: E731
    body = ber_int(R) + ber_int(S)
    yield 'bad', b''
    yield 'bad', R.to_bytes(32, 'big') + S.to_bytes(32, 'big')
    yield 'bad', seq(ber_int(R, 1), ber_int(S))
    yield 'bad', seq(ber_int(R), ber_int(S, 1))
    yield 'bad', seq(ber_int(S), ber_int(R))
    yield 'bad', seq(ber_int(R), ber_int(S), ber_int(0))
    yield 'bad', seq(ber_int(R))
    yield 'bad', seq()
    yield 'bad', body
    yield 'bad', w.der(b'\x31', body)
    yield 'bad', b'\x30\x81' + bytes([len(body)]) + body
    yield 'bad', b'\x30\x82\x00' + bytes([len(body)]) + body
    yield 'bad', b'\x30\x80' + body + b'\x00\x00'
    yield 'bad', seq(body) + b'\x00'
    yield 'bad', b'\x00' + seq(body)
    yield 'bad', seq(body) * 2
    for r, s in itertools.product((0, 1, R, R + N, N - R, N, 2**256 - 1),
                                  (0, 1, S, S + N, N - S, N, 2**256 - 1)):
        if (r, s) == (R, S):
            continue
        # (r, n - s) is by construction of ECDSA another signature of the
        # same data by the same key
        yield ('open' if (r, s) == (R, N - S) else 'bad',
               encode_dss_signature(r, s))


def sig_cases():
    for i in range(len(SIG)):
        for x in range(1, 256):
            yield ('flip', i, x), ['flip', i, x]
        yield ('cut', i), ['cut', i, 0]
        yield ('drop', i), ['drop', i, 0]
        for x in (0, 1, 0x30, 0x80, 0xff):
            yield ('insert', i, x), ['insert', i, x]
    for x in range(256):
        yield ('append', x), ['insert', len(SIG), x]
    for i in range(len(list(reencodings()))):
        yield ('der', i), ['der', i, 0]


def run_sig(ctx, case):
    kind, i, x = case
    cfg, cd, h, ad = world(P256)
    status = 'bad'
    if kind == 'flip':
        s = SIG[:i] + bytes([SIG[i] ^ x]) + SIG[i + 1:]
    elif kind == 'cut':
        s = SIG[:i]
    elif kind == 'drop':
        s = SIG[:i] + SIG[i + 1:]
    elif kind == 'insert':
        s = SIG[:i] + bytes([x]) + SIG[i:]
    else:
        status, s = list(reencodings())[i]
    if s == SIG:
        status = 'ok'
    attempt(ctx, cfg, cd, ad, 'fido-u2f', {'sig': s, 'x5c': [CERT]}, status,
            CERT, lambda: 'U2F with signature {}'.format(case))


# 4. every byte of what was signed, changed afterwards

def tamper_cases():
    cfg, cd, h, ad = world(P256)
    for where, n in (('ad', len(ad)), ('cd', len(cd)), ('cert', len(CERT))):
        for i in range(n):
            yield (where, i), [where, i]


def run_tamper(ctx, case):
    where, i = case
    cfg, cd, h, ad = world(P256)
    data = genuine_data(P256)
    for x in range(1, 256) if THOROUGH else (1, 2, 4, 8, 16, 32, 64, 128):
        cd2, ad2, cert = cd, ad, CERT
        status = 'bad'
        if where == 'cd':
            cd2 = cd[:i] + bytes([cd[i] ^ x]) + cd[i + 1:]
        elif where == 'cert':
            # the certificate is not covered by the signature: whatever
            # still holds the same key may be accepted
            cert = CERT[:i] + bytes([CERT[i] ^ x]) + CERT[i + 1:]
            status = 'open'
            if same_key(cert) is False:
                status = 'bad'
        else:
            ad2 = ad[:i] + bytes([ad[i] ^ x]) + ad[i + 1:]
            st, v = ref.auth_data(ad2)
            if st != 'bad':
                d = dict(v[1:])
                att = d['attested_credential_data']
                if att is not None and ad2[32] & w.UP:
                    a = dict(att[1:])
                    k = dict(a['credential_public_key'][1:])
                    if a['credential_public_key'][0].startswith('EC2') and (
                            b'\x00' + d['rp_id_hash'][1] + h +
                            a['credential_id'][1] + b'\x04' + k['x'][1] +
                            k['y'][1]) == data:
                        status = st
        attempt(ctx, cfg, cd2, ad2, 'fido-u2f', {'sig': SIG, 'x5c': [cert]},
                status, cert, lambda: 'U2F with {} byte {} changed by {}'.
                format(where, i, x), exact=False)


def same_key(cert):
    from cryptography import x509
    from cryptography.hazmat.backends import default_backend
    try:
        pk = x509.load_der_x509_certificate(cert,
                                            default_backend()).public_key()
        want = w.private_key('P256', 'batch').public_key()
        return pk.public_numbers() == want.public_numbers()
    except Exception:
        return False


# 5. every key and every credential id

IDS = [b'', b'\x00', b'\x04', b'\xff' * 16, b'x' * 1023, b'x' * 65535] + [
    bytes(i & 255 for i in range(n)) for n in range(2, 300, 7)]


def key_cases():
    for curve in w.CURVES:
        for form in ('value', 'name'):
            for alg in w.ALGS:
                for i in range(len(IDS) if alg == 'ES256' and form == 'value'
                               and curve == 'P256' else 5):
                    yield (curve, form, alg, i), [curve, form, alg, i]


def run_key(ctx, case):
    curve, form, alg, i = case
    key = (curve, 'a', alg, form)
    cfg, cd, h, ad = world(key, IDS[i])
    ok = curve.startswith('P') and alg != 'EDDSA'
    data = genuine_data(key, IDS[i])
    for d, st in ((data, 'ok' if ok else 'bad'), (data + b'\x00', 'bad'),
                  (data[1:], 'bad')):
        attempt(ctx, cfg, cd, ad, 'fido-u2f', {
            'sig': w.sign('P256', 'batch', 'ES256', d),
            'x5c': [CERT]
        }, st, CERT, lambda: 'U2F with key {} and id {!r}'.format(key, IDS[i]))


# 6. two ceremonies: nothing of one serves another

def cross_cases():
    n = 2 if not THOROUGH else 3
    for t in itertools.product(range(n), repeat=6):
        yield t, list(t)


CROSS_CH = [c.BASE_REG['exp_challenge'], b'another', b'']
CROSS_RP = ['example.org', 'a.org', 'org']
CROSS_ID = [b'credential-id-01', b'credential-id-0', b'']
CROSS_KEY = ['a', 'b', 'c']
CROSS_CERT = ['batch', 'other', 'a']


def run_cross(ctx, case):
    """The statement was made in the base ceremony with some parts swapped."""
    ch, rp, cid, kl, signer, cert = case
    origin = 'https://{}'.format(CROSS_RP[rp])
    made = dict(BASE, exp_challenge=CROSS_CH[ch], cred_id=CROSS_ID[cid],
                hash_of=CROSS_RP[rp], key=('P256', CROSS_KEY[kl], None,
                                           'value'))
    mh = w.sha256(c.client_data_bytes(made))
    data = (b'\x00' + w.sha256(CROSS_RP[rp].encode()) + mh + CROSS_ID[cid] +
            u2f_key(made['key']))
    sig = w.sign('P256', CROSS_CERT[signer], 'ES256', data)
    crt = w.certificate('P256', CROSS_CERT[cert])
    # presented in the base ceremony
    cfg, cd, h, ad = world(P256)
    ok = (ch, rp, cid, kl) == (0, 0, 0, 0) and signer == cert
    attempt(ctx, cfg, cd, ad, 'fido-u2f', {'sig': sig, 'x5c': [crt]},
            'ok' if ok else 'bad', crt,
            lambda: 'U2F statement of another ceremony {}'.format(case))
    # and in its own
    cfg2 = dict(made, rp=CROSS_RP[rp], origin=origin,
                exp_origin=('str', origin))
    cd2 = c.client_data_bytes(cfg2)
    data2 = (b'\x00' + w.sha256(CROSS_RP[rp].encode()) + w.sha256(cd2) +
             CROSS_ID[cid] + u2f_key(made['key']))
    attempt(ctx, cfg2, cd2, c.auth_data_bytes(cfg2), 'fido-u2f', {
        'sig': w.sign('P256', CROSS_CERT[signer], 'ES256', data2),
        'x5c': [crt]
    }, 'ok' if signer == cert else 'bad', crt,
            lambda: 'genuine U2F registration {}'.format(case))


# 7. what else a certificate may contain

def shape_cases():
    for n in w.SHAPES:
        for curve in ('P256', 'P384', 'ED25519'):
            yield (n, curve), [n, curve]


def run_shape(ctx, case):
    n, curve = case
    for label in ('batch', 'a'):
        cert = w.shaped_certificate(curve, label, n)
        for k in (0, 1, 5):
            cfg, cd, h, ad = world(KEYS[k])
            data = genuine_data(KEYS[k])
            for signer in ('batch', 'a'):
                ok = curve == 'P256' and signer == label
                status = w.SHAPES[n][0] if ok else 'bad'
                attempt(ctx, cfg, cd, ad, 'fido-u2f', {
                    'sig': signature((curve, signer), data), 'x5c': [cert]
                }, status, cert, lambda: 'U2F with a certificate ({}) of {} '
                        'signed by {}'.format(n, (curve, label), signer))


BOUNDS = (
    'every list of at most {} of {} certificates (all key types, undecodable '
    'ones) x {} signers; every combination of at most {} deviating parts of '
    'the signed content ({} keys, 6 x 6 x 6 x 6 x 10 parts), all orders of '
    'the parts and all hashes; every one-byte change, cut, removal, '
    'insertion and {} re-encodings of the signature; every one-{} change of '
    'the authenticator data, client data and certificate; all keys, '
    'algorithms and {} credential ids; all swaps of the parts of two '
    'ceremonies; {} certificate shapes').format(4 if THOROUGH else 3, len(CERTS), len(SIGNERS),
                         5 if THOROUGH else 3, len(KEYS),
                         len(list(reencodings())),
                         'byte' if THOROUGH else 'bit', len(IDS),
                         len(w.SHAPES))
ASSUMPTIONS = [
    'bytes after the certificate may be accepted or ignored, and so may '
    'certificates changed outside their key (their issuer is not checked)',
    '(r, n - s), a second signature that ECDSA itself allows, may be accepted',
    'ECDSA, SHA-256 and X.509 decoding by cryptography/OpenSSL are trusted',
]


# Every flow of a registration with every broken statement
FMTS = [x for x in ['u2f'] + c.REG_WIDE['fmt'] + c.REG_CORE['fmt']
        if x.startswith('u2f')]
FKEYS = [('P256', 'a', None, 'value'), ('P521', 'a', None, 'value'),
         ('ED25519', 'a', None, 'value'), ('ED448', 'a', None, 'name')]
FLOWS = [dict(fmt=f, key=k) for f in FMTS for k in FKEYS]


def flow_cases():
    for key, d in c.flow_cases('reg', FLOWS, without='fmt'):
        yield key, d


def run_flow(ctx, case):
    c.run_flow(ctx, case, False)


VARIED = (['u2f', 'u2f-sig', 'u2f-content'], ['P256', 'P521'],
          4096 if THOROUGH else 1024, 4096 if THOROUGH else 512)


def spaces():
    return [
        FnSpace('varied', c.varied_text(VARIED[0], *VARIED[2:]),
                lambda: c.varied_cases(*VARIED), c.run_varied),
        FnSpace('flows', c.flow_text('reg', FLOWS), flow_cases, run_flow),
        FnSpace('certificates', BOUNDS, cert_cases, run_cert),
        FnSpace('content', BOUNDS, content_cases, run_content),
        FnSpace('signature', BOUNDS, sig_cases, run_sig),
        FnSpace('tampering', BOUNDS, tamper_cases, run_tamper),
        FnSpace('keys', BOUNDS, key_cases, run_key),
        FnSpace('shapes', BOUNDS, shape_cases, run_shape),
        FnSpace('crossed', BOUNDS, cross_cases, run_cross),
    ]
