"""C19: signature verification."""
import itertools

from cryptography.hazmat.primitives.asymmetric.utils import \
    decode_dss_signature, encode_dss_signature

from mc import ceremony as c
from mc import world as w
from mc.checks.c17 import ber_int
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.converters import cryptography_public_key
from webauthn_rp.verifiers import verify

EC = ('P256', 'P384', 'P521')
CURVES = list(w.CURVES)
HASHES = ('ES256', 'ES384', 'ES512')
FIELD = {
    'P256': 2**256 - 2**224 + 2**192 + 2**96 - 1,
    'P384': 2**384 - 2**128 - 2**96 + 2**32 - 1,
    'P521': 2**521 - 1,
}
ED_ORDER = {
    'ED25519': 2**252 + 27742317777372353535851937790883648493,
    'ED448': 2**446 -
    13818066809895115352007386748515426880336692474882178609894547503885,
}


def check(ctx, key, sig, data, status, what,
          classes=(E.VerificationError, )):
    """status: 'ok', 'bad' (one of classes), 'raise' (any exception) or
    'open'."""
    before = w.view(key)
    ctx.step()
    try:
        res = verify(key, sig, data)
    except Exception as e:
        ctx.outcome('refused:' + type(e).__name__)
        if status == 'ok':
            raise Violation('{}: refused with {!r}'.format(what(), e))
        if status == 'bad' and not isinstance(e, classes):
            raise Violation('{}: refused with {!r} instead of {}'.format(
                what(), e, [c.__name__ for c in classes]))
    else:
        ctx.outcome('verified')
        if status in ('bad', 'raise'):
            raise Violation('{}: verified'.format(what()))
        if res is not None:
            raise Violation('{}: returned {!r}'.format(what(), res))
    if w.view(key) != before:
        raise Violation('{}: the key was changed'.format(what()))


def alg_of(curve):
    return w.DEFAULT_ALG[curve]


DATA = b'authenticator data' + w.sha256(b'client data')

# 1. every key and algorithm against every signer and algorithm

LABELS = {c: ['a', 'b'] + ([w.short_label(c, 0), w.short_label(c, 1)]
                           if c in EC else []) for c in CURVES}


def pair_cases():
    for curve in CURVES:
        for label in LABELS[curve]:
            for alg in w.ALGS:
                for form in ('value', 'name'):
                    yield (curve, label, alg, form), [curve, label, alg, form]


def run_pair(ctx, case):
    curve, label, alg, form = case
    key = w.lib_key(curve, label, alg, form)
    coherent = (alg == 'EDDSA') == (curve not in EC)
    datas = [DATA, b'', DATA[:-1]]
    for scurve in CURVES:
        for slabel in LABELS[scurve]:
            for salg in HASHES if scurve in EC else ('EDDSA', ):
                for i, sd in enumerate(datas):
                    sig = w.sign(scurve, slabel, salg, sd)
                    for j, d in enumerate(datas):
                        mine = (scurve, slabel) == (curve, label)
                        if mine and i == j and salg == alg:
                            status = 'ok'
                        elif coherent:
                            status = 'bad'
                        elif curve not in EC and mine and i == j:
                            # an Edwards key named with an ECDSA algorithm
                            status = 'open'
                        else:
                            status = 'raise'
                        check(ctx, key, sig, d, status,
                              lambda: 'key {} signed by {}'.format(
                                  case, (scurve, slabel, salg, i, j)))


# 2. every data length

LENGTHS = list(range(0, 300 if not THOROUGH else 1300)) + [
    511, 512, 513, 1023, 1024, 1025, 4096, 65535, 65536, 100003]


def length_cases():
    for curve in CURVES:
        for alg in HASHES if curve in EC else ('EDDSA', ):
            for n in range(len(LENGTHS)):
                yield (curve, alg, n), [curve, alg, n]


def run_length(ctx, case):
    curve, alg, n = case
    data = bytes((i * 31 + (i >> 8)) & 255 for i in range(LENGTHS[n]))
    key = w.lib_key(curve, 'a', alg)
    sig = w.sign(curve, 'a', alg, data)
    what = lambda: 'data of length {} for {}'.format(len(data), curve)  # noqa
    check(ctx, key, sig, data, 'ok', what)
    for other in (data + b'\x00', b'\x00' + data, data + data,
                  data[:-1], data[1:], data[::-1], b'',
                  data[:-1] + b'\xff' if data else b'\xff'):
        if other != data:
            check(ctx, key, sig, other, 'bad', what)


# 3. every change of the data

def data_cases():
    for curve in CURVES:
        for alg in HASHES if curve in EC else ('EDDSA', ):
            for i in range(len(DATA)):
                yield (curve, alg, i), [curve, alg, i]


def run_data(ctx, case):
    curve, alg, i = case
    key = w.lib_key(curve, 'a', alg)
    sig = w.sign(curve, 'a', alg, DATA)
    xs = range(1, 256) if THOROUGH else [1 << k for k in range(8)] + [255]
    for d in [DATA[:i], DATA[:i] + DATA[i + 1:], DATA[:i] + b'\0' + DATA[i:],
              DATA[i + 1:]] + [
            DATA[:i] + bytes([DATA[i] ^ x]) + DATA[i + 1:] for x in xs]:
        check(ctx, key, sig, d, 'bad',
              lambda: 'data {!r} for {}'.format(d, curve))
    check(ctx, key, sig, DATA, 'ok', lambda: 'the data itself')


# 4. every change of the signature

def sig_cases():
    for curve in CURVES:
        for alg in HASHES if curve in EC else ('EDDSA', ):
            n = len(w.sign(curve, 'a', alg, DATA))
            for i in range(n + 1):
                yield (curve, alg, i), [curve, alg, i]
            yield (curve, alg, 're'), [curve, alg, -1]


def reencoded(curve, sig):
    """(status, signature): other encodings and related numbers."""
    out = [('bad', b''), ('bad', sig + sig), ('bad', sig[::-1]),
           ('bad', sig.hex().encode()), ('bad', b'\x00' * len(sig)),
           ('bad', b'\xff' * len(sig)), ('bad', sig + b'\x00' * 32)]
    if curve not in EC:
        h = len(sig) // 2
        R, S = sig[:h], int.from_bytes(sig[h:], 'little')
        q = ED_ORDER[curve]
        for k in (1, 2, 3, 4, 5, 6, 7, 8, 15):
            v = S + k * q
            if v < 1 << (8 * h):
                out.append(('bad', R + v.to_bytes(h, 'little')))
        for v in (0, 1, q, q - S, q - 1):
            out.append(('bad', R + v.to_bytes(h, 'little')))
        out += [('bad', sig[h:] + R), ('bad', R), ('bad', sig[h:]),
                ('bad', R + R),
                ('bad', R + sig[h:][::-1]),
                ('bad', R[:-1] + bytes([R[-1] ^ 0x80]) + sig[h:])]
        return out
    r, s = decode_dss_signature(sig)
    q = w.ORDER[curve]
    n = w.CURVES[curve][3]
    seq = lambda *x: w.der(b'\x30', b''.join(x))  # noqa: E731
    R, S = ber_int(r), ber_int(s)
    body = R + S
    ln = bytes([len(body)])
    out += [('bad', x) for x in (
        r.to_bytes(n, 'big') + s.to_bytes(n, 'big'), seq(ber_int(r, 1), S),
        seq(R, ber_int(s, 1)), seq(S, R), seq(R, S, ber_int(0)), seq(R),
        seq(), body, w.der(b'\x31', body), b'\x30\x82\x00' + ln + body,
        b'\x30\x80' + body + b'\x00\x00', seq(body) + b'\x00',
        seq(body) + b'\x05\x00', b'\x00' + seq(body), seq(seq(body)),
        b'\x04\x00' + seq(body))]
    if len(body) < 128:
        out.append(('bad', b'\x30\x81' + ln + body))
    for a, b in itertools.product((0, 1, r, r + q, q - r, q),
                                  (0, 1, s, s + q, q - s, q)):
        if (a, b) != (r, s):
            out.append(('open' if (a, b) == (r, q - s) else 'bad',
                        encode_dss_signature(a, b)))
    return out


def run_sig(ctx, case):
    curve, alg, i = case
    key = w.lib_key(curve, 'a', alg)
    sig = w.sign(curve, 'a', alg, DATA)
    if i < 0:
        muts = reencoded(curve, sig)
    else:
        muts = [('bad', sig[:i]), ('bad', sig[i + 1:])]
        muts += [('bad', sig[:i] + bytes([x]) + sig[i:])
                 for x in (range(256) if THOROUGH else (0, 1, 2, 0x30, 0x7f,
                                                        0x80, 0xff))]
        if i < len(sig):
            muts += [('bad', sig[:i] + sig[i + 1:])]
            xs = range(1, 256) if THOROUGH else [1 << k for k in range(8)
                                                 ] + [255]
            muts += [('bad', sig[:i] + bytes([sig[i] ^ x]) + sig[i + 1:])
                     for x in xs]
    for st, s in muts:
        if s == sig:
            continue
        check(ctx, key, s, DATA, st,
              lambda: 'signature {} for {}'.format(s.hex(), curve))


# 5. changed and impossible keys

CONV = (E.PublicKeyConversionError, )


def on_curve(curve, x, y):
    p = FIELD[curve]
    b = {
        'P256':
        0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
        'P384':
        0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
        'P521':
        0x051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
    }[curve]
    return (x < p and y < p and (y * y - (x * x * x - 3 * x + b)) % p == 0)


def key_cases():
    for curve in CURVES:
        for i in range(w.CURVES[curve][3]):
            for which in (0, 1):
                if curve in EC or not which:
                    yield (curve, which, i), [curve, which, i]
        for k in range(len(odd_points(curve))):
            yield (curve, 'odd', k), [curve, 'odd', k]


def odd_points(curve):
    n = w.CURVES[curve][3]
    if curve not in EC:
        x, _ = w.coordinates(curve, 'a')
        return [(b, None) for b in (
            b'', x[:-1], x[1:], x + b'\0', b'\0' + x, x + x, b'\0' * n,
            b'\xff' * n, x[::-1], b'\x01' + b'\0' * (n - 1), x[:16],
            x + b'\0' * 25, w.coordinates('ED448' if curve == 'ED25519' else
                                          'ED25519', 'a')[0],
            b'\x04' + x, b'\x02' + b'\0' * (n - 1))]
    p = FIELD[curve]
    x, y = [int.from_bytes(v, 'big') for v in w.coordinates(curve, 'a')]
    vals = []
    for a, b in [(0, 0), (0, y), (x, 0), (y, x), (x, p - y), (x + 1, y),
                 (x, y + 1), (p, y), (x, p), (p, p), (p - 1, y), (1, 1),
                 (2**(8 * n) - 1, 2**(8 * n) - 1), (x, 2**(8 * n) - 1),
                 (x + p, y), (x, y + p), (p - x, y), (x ^ 1, y)]:
        if a < 1 << 8 * n and b < 1 << 8 * n:
            vals.append((a.to_bytes(n, 'big'), b.to_bytes(n, 'big')))
    vals += [(b'', b''), (b'\x00', b'\x00')]
    for other in EC:
        if other != curve:
            vals.append(w.coordinates(other, 'a'))
    return vals


def run_key(ctx, case):
    curve, which, i = case
    alg = alg_of(curve)
    sig = w.sign(curve, 'a', alg, DATA)
    x, y = w.coordinates(curve, 'a')
    muts = []
    if which == 'odd':
        muts.append(odd_points(curve)[i])
    else:
        v = (x, y)[which]
        for m in range(8):
            z = v[:i] + bytes([v[i] ^ 1 << m]) + v[i + 1:]
            muts.append((z, y) if which == 0 else (x, z))
    for a, b in muts:
        what = lambda: 'key {} with x={} y={}'.format(  # noqa: E731
            curve, a.hex(), b and b.hex())
        classes = (E.VerificationError, )
        off = False
        if curve in EC:
            off = not on_curve(curve, int.from_bytes(a, 'big'),
                               int.from_bytes(b, 'big'))
            if off:
                classes = CONV
        elif len(a) != w.CURVES[curve][3]:
            off, classes = True, CONV
        else:
            # bytes of the right length that are no point show up at one
            # place or the other
            classes = CONV + classes
        kw = dict(x=a)
        if b is not None:
            kw['y'] = b
        for form in ('value', 'name'):
            key = w.lib_key(curve, 'a', alg, form, **kw)
            check(ctx, key, sig, DATA, 'bad', what, classes)
            check(ctx, key, b'', DATA, 'bad', what, classes)
            ctx.step()
            try:
                cryptography_public_key(key)
            except E.PublicKeyConversionError:
                if curve in EC and not off:
                    raise Violation('{}: not converted'.format(what()))
            else:
                if off:
                    raise Violation('{}: converted'.format(what()))


# 6. a key named with another curve

def curve_cases():
    for a, b in itertools.permutations(CURVES, 2):
        if (a in EC) == (b in EC):
            yield (a, b), [a, b]


def run_curve(ctx, case):
    a, b = case
    x, y = w.coordinates(a, 'a')
    for n in {len(x), w.CURVES[b][3]}:
        xx = x[:n].rjust(n, b'\0')
        yy = y and y[:n].rjust(n, b'\0')
        kw = dict(x=xx)
        if y:
            kw['y'] = yy
        for alg in HASHES if a in EC else ('EDDSA', ):
            key = w.lib_key(b, 'a', alg, **kw)
            for signer in (a, b):
                check(ctx, key, w.sign(signer, 'a', alg, DATA), DATA, 'bad',
                      lambda: 'key of {} named {}'.format(a, b),
                      CONV + (E.VerificationError, ))


# 7. optional members of the key do not matter

def optional_cases():
    for curve in CURVES:
        for form in ('value', 'name'):
            yield (curve, form), [curve, form]


def run_optional(ctx, case):
    curve, form = case
    for alg in HASHES if curve in EC else ('EDDSA', ):
        sig = w.sign(curve, 'a', alg, DATA)
        bad = w.sign(curve, 'b', alg, DATA)
        for kid, iv in itertools.product((None, b'', b'k'), (None, b'', b'i')):
            key = w.lib_key(curve, 'a', alg, form, kid=kid, base_iv=iv)
            check(ctx, key, sig, DATA, 'ok', lambda: 'key {}'.format(case))
            check(ctx, key, bad, DATA, 'bad', lambda: 'key {}'.format(case))
        for look in range(len(c.LOOKS)):
            key = w.lib_key(curve, 'a', alg, form,
                            **c.look_key({'looks': look}, True))
            check(ctx, key, sig, DATA, 'ok', lambda: 'key {}'.format(case))
            check(ctx, key, bad, DATA, 'bad', lambda: 'key {}'.format(case))
    if curve in EC:
        key = w.lib_key(curve, 'a')
        key.alg = None
        check(ctx, key, w.sign(curve, 'a', 'ES256', DATA), DATA, 'bad',
              lambda: 'key without algorithm')


BOUNDS = (
    'all keys (5 curves, 2-4 keys each, 4 algorithms, both forms) against all '
    'signers, hashes and 3 data; {} data lengths with neighbours; every '
    'one-{} change, removal, insertion and cut of the data and of the '
    'signature for every curve and hash; re-encoded signatures and related '
    'numbers (r, s plus and minus the order); every one-bit change of the '
    'coordinates, points off the curve, wrong lengths, wrong curve names; '
    'optional key members').format(len(LENGTHS),
                                   'byte' if THOROUGH else 'bit')
ASSUMPTIONS = [
    '(r, n - s), a second signature that ECDSA itself allows, may be accepted',
    'keys naming an algorithm of the other family must not verify foreign '
    'signatures; which error they raise is not prescribed',
    'Edwards keys of the right length that are no point may be refused by the '
    'conversion or the verification',
    'the signature primitives (cryptography/OpenSSL) are trusted',
]


def spaces():
    return [
        FnSpace('pairs', BOUNDS, pair_cases, run_pair),
        FnSpace('lengths', BOUNDS, length_cases, run_length),
        FnSpace('data', BOUNDS, data_cases, run_data),
        FnSpace('signatures', BOUNDS, sig_cases, run_sig),
        FnSpace('keys', BOUNDS, key_cases, run_key),
        FnSpace('curves', BOUNDS, curve_cases, run_curve),
        FnSpace('optional', BOUNDS, optional_cases, run_optional),
    ]
