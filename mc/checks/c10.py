"""C10: COSE encoding and decoding of credential public keys."""
import copy
import itertools

import cbor2

from mc import ladder
from mc import ref
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import types as T
from webauthn_rp.converters import cose_key
from webauthn_rp.parsers import (parse_cose_key, parse_ec2_public_key,
                                 parse_okp_public_key)

CURVES = list(w.CURVES)
ALGS = list(w.ALGS)
KIDS = [None, b'', b'\x00', b'key-id', b'x' * 300]
IVS = [None, b'', b'\x00', b'iv' * 8]
OPS = [None] + [[i] for i in range(1, 11)] + [[t] for t in ref.OPS_TEXT] + [
    [1, 2], ['verify', 'sign'], [2, 'sign', 10], [2, 2],
    list(range(1, 11)), list(reversed(ref.OPS_TEXT)), (1, 'MAC create')
]
COORDS = ['a', 'shortx', 'shorty', 'zero', 'ones']


def coords(curve, kind):
    n = w.CURVES[curve][3]
    if kind == 'zero':
        return bytes(n), bytes(n)
    if kind == 'ones':
        return b'\xff' * n, b'\x00' * (n - 1) + b'\xff'
    label = kind
    if kind != 'a':
        label = w.short_label(curve, 0 if kind == 'shortx' or
                              curve.startswith('ED') else 1)
    return w.coordinates(curve, label)


def picked(case):
    curve, alg, f1, f2, f3, kid, ops, iv, co = case
    return (curve, alg, f1, f2, f3, KIDS[kid], OPS[ops], IVS[iv],
            coords(curve, COORDS[co]))


def expected_map(case):
    curve, alg, f1, f2, f3, kid, ops, iv, (x, y) = case
    kty, cv, ct, _ = w.CURVES[curve]
    m = {1: (w.KTY_TEXT[kty], w.KTY_VALUE[kty])[f1]}
    if kid is not None:
        m[2] = kid
    m[3] = (w.ALGS[alg][1], w.ALGS[alg][0])[f2]
    if ops is not None:
        m[4] = list(ops)
    if iv is not None:
        m[5] = iv
    m[-1] = (ct, cv)[f3]
    m[-2] = x
    if kty == 'EC2':
        m[-3] = y
    return m


def make_key(case):
    curve, alg, f1, f2, f3, kid, o, iv, (x, y) = case
    kty = w.CURVES[curve][0]
    nv = ('Name', 'Value')
    if o is not None:
        o = type(o)(ref.enum(T.COSEKeyOperation, ref.OP[v], v) for v in o)
    kw = dict(kty=getattr(getattr(T.COSEKeyType, nv[f1]), kty),
              alg=getattr(getattr(T.COSEAlgorithmIdentifier, nv[f2]), alg),
              kid=kid, key_ops=o, base_IV=iv, x=x)
    if kty == 'EC2':
        return T.EC2CredentialPublicKey(
            crv=getattr(getattr(T.EC2Curve, nv[f3]), w.LIB_CRV[curve]), y=y,
            **kw)
    return T.OKPCredentialPublicKey(
        crv=getattr(getattr(T.OKPCurve, nv[f3]), w.LIB_CRV[curve]), **kw)


def round_cases():
    for t in itertools.product(CURVES, ALGS, (0, 1), (0, 1), (0, 1),
                               range(len(KIDS)), range(len(OPS)),
                               range(len(IVS)), range(len(COORDS))):
        yield t, list(t)


def run_round(ctx, case):
    round_trip(ctx, picked(case))
    ctx.outcome('equal')


def round_trip(ctx, case):
    key = make_key(case)
    want = expected_map(case)
    kv = w.view(key)
    ctx.step()
    enc = cose_key(key)
    if type(enc) is not bytes:
        raise Violation('cose_key gave {!r}'.format(enc))
    dec = cbor2.loads(enc)
    if type(dec) is not dict or w.view(dec) != w.view(want):
        raise Violation('encoded as {!r}, expected {!r}'.format(dec, want))
    # nothing twice, nothing after it
    if enc != cbor2.dumps(dec) and len(enc) != len(cbor2.dumps(want)):
        raise Violation('the encoding {} is not that of {!r}'.format(
            enc.hex(), dec))
    if w.view(key) != kv:
        raise Violation('encoding changed the key')
    back = []
    arg = copy.deepcopy(want)
    for fn, a in ((parse_cose_key, enc), (parse_cose_key, dec),
                  (parse_cose_key, arg),
                  (parse_ec2_public_key if -3 in want else
                   parse_okp_public_key, arg)):
        ctx.step()
        got = fn(a)
        if w.view(got) != kv:
            raise Violation('{!r} came back as {!r}'.format(kv, w.view(got)))
        back.append(got)
    if w.view(arg) != w.view(want):
        raise Violation('parsing changed the map')
    ctx.step()
    if cose_key(back[0]) != enc:
        raise Violation('encoding the parsed key again gives other bytes')


# every byte, length and operation list


def scale_cases():
    for c in CURVES:
        for a, i in ladder.cases(300, texts=False):
            yield (c, ) + a, [c] + i
        for k in range(20):
            yield (c, 'ops', k), [c, 'ops', k]
        for k in range(2 * w.CURVES[c][3]):
            yield (c, 'coordinate', k), [c, 'coordinate', k]


def run_scale(ctx, case):
    curve, what, i = case
    alg = w.DEFAULT_ALG[curve]
    xy = coords(curve, 'a')
    base = [curve, alg, i & 1, i >> 1 & 1, i >> 2 & 1, None, None, None, xy]

    def go(**kw):
        c = list(base)
        for k, v in kw.items():
            c[('kid', 'ops', 'iv', 'xy').index(k) + 5] = v
        round_trip(ctx, c)

    if what in ('byte', 'length'):
        for b in ladder.blobs(i) if what == 'byte' else [
                ladder.sized_blob(i), bytes(i), b'\xff' * i]:
            go(kid=b)
            go(iv=b)
            go(kid=b, iv=b[::-1])
            go(kid=b[::-1], iv=b, ops=[1])
        if what == 'length':
            go(ops=[(k * 7 + i) % 10 + 1 for k in range(i + 1)])
    elif what == 'ops':
        op = (list(range(1, 11)) + list(ref.OPS_TEXT))
        one = op[i]
        for rest in [()] + [(a, ) for a in op] + [
                (a, b) for a in op for b in op]:
            go(ops=[one] + list(rest))
            go(ops=tuple(rest) + (one, ))
    else:
        n = w.CURVES[curve][3]
        j, k = divmod(i, n)
        if j and w.CURVES[curve][0] != 'EC2':
            return
        for v in range(256):
            new = list(xy)
            c = bytearray(xy[j])
            c[k] = v
            new[j] = bytes(c)
            go(xy=tuple(new))
    ctx.outcome('equal')


# --------------------------------------------------------------------------
# Malformed maps

DROP = '<drop>'
JUNK = [
    DROP, None, True, False, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, -1, -7, -8,
    -35, -36, -37, -257, 2**64, 1.0, 2.0, -7.0, '', 'EC2', 'OKP', 'Symmetric',
    'ec2', 'ES256', 'ES384', 'ES512', 'EdDSA', 'EDDSA', 'es256', 'RS256',
    'P-256', 'P_256', 'P-384', 'P-521', 'p-256', 'Ed25519', 'ED25519',
    'Ed448', 'X25519', 'sign', 'SIGN', 'verify', '1', '-7', b'', b'\x00',
    b'x' * 31, b'x' * 32, b'x' * 33, b'x' * 47, b'x' * 48, b'x' * 49,
    b'x' * 56, b'x' * 57, b'x' * 58, b'x' * 65, b'x' * 66, b'x' * 67,
    [], [1], [2, 1], ['sign'], [0], [11], [True], [1.0], [None], ['SIGN'],
    [[1]], [1, 99], ['verify', ''], {}, {1: 2}, 'x' * 32
]
LABELS = [1, 2, 3, 4, 5, -1, -2, -3]
BASES = [('P256', 'value'), ('P384', 'name'), ('P521', 'value'),
         ('ED25519', 'value'), ('ED448', 'name')]


def junk_cases():
    for b in range(len(BASES)):
        for l in LABELS:
            for i in range(len(JUNK)):
                yield (b, l, i), [b, l, i, None, None]
        for l1, l2 in itertools.combinations(LABELS, 2):
            for i in range(len(JUNK)):
                for j in range(len(JUNK)):
                    yield (b, l1, i, l2, j), [b, l1, i, l2, j]
        # additional and oddly typed labels
        for i, k in enumerate(('1', 'kty', 0, 6, -4, -70000, '', 'alg')):
            for j in range(len(JUNK)):
                yield (b, 'x', k, j), [b, k, j, None, None]


def changed(case):
    b, l1, i, l2, j = case
    curve, form = BASES[b]
    m = w.cose_map(curve, 'a', form=form, kid=b'k', key_ops=[2], base_iv=b'i')
    for l, x in ((l1, i), (l2, j)):
        if l is None:
            continue
        if JUNK[x] == DROP and type(JUNK[x]) is str:
            m.pop(l, None)
        else:
            m[l] = copy.deepcopy(JUNK[x])
    return m


def check_map(ctx, m):
    status, want = ref.cose(m)
    before = w.view(m)
    ref.compare(ctx, parse_cose_key, m, status, want,
                lambda: 'the key map {!r}'.format(m))
    if w.view(m) != before:
        raise Violation('parsing changed the map')
    ref.compare(ctx, parse_cose_key, cbor2.dumps(m), status, want,
                lambda: 'the key map {!r}, encoded,'.format(m))


def run_junk(ctx, case):
    check_map(ctx, changed(case))


# every integer and text identifier near the known ones


def ident_cases():
    ints = list(range(-300, 301)) + [
        -2**63, 2**63, -65535, -65536, 65536, 2**64, -2**64
    ]
    words = sorted(
        set(ref.OPS_TEXT) | set(ref.OPS)
        | {x for x in ref.KTY if type(x) is str}
        | {x for x in ref.ALG if type(x) is str} |
        {x
         for t in ref.CRV.values() for x in t if type(x) is str} |
        {'P_256', 'P_384', 'P_521', 'ED25519', 'ED448', 'SYMMETRIC',
         'Symmetric', 'EDDSA', 'RS256', 'PS256', 'ES256K', 'P-192',
         'secp256k1', 'X25519', 'X448'})
    words = sorted(
        set(words) | {x.lower()
                      for x in words} | {x.upper()
                                         for x in words} |
        {x + ' '
         for x in words} | {x[:-1]
                            for x in words})
    for b in range(len(BASES)):
        for l in (1, 3, -1, 4):
            for v in ints + words:
                yield (b, l, v), [b, l, v]


def run_ident(ctx, case):
    b, l, v = case
    curve, form = BASES[b]
    m = w.cose_map(curve, 'a', form=form)
    m[l] = [v] if l == 4 else v
    check_map(ctx, m)
    if l == 4:
        m[l] = [1, v]
        check_map(ctx, m)


def length_cases():
    for b in range(len(BASES)):
        for n in range(0, 141):
            for k in range(141 if THOROUGH else 4):
                yield (b, n, k), [b, n, k]


def run_length(ctx, case):
    b, n, k = case
    curve, form = BASES[b]
    m = w.cose_map(curve, 'a', form=form)
    right = w.CURVES[curve][3]
    m[-2] = b'\x01' * n
    if -3 in m:
        m[-3] = b'\x02' * (k if THOROUGH else (n, right, 2 * right - n,
                                               right + 1)[k])
    check_map(ctx, m)
    if -3 in m:
        m[-2], m[-3] = m[-3], m[-2]
        check_map(ctx, m)


# byte strings that are not a key map


def bytes_cases():
    for a in range(256):
        yield (a, ), [a]


def run_bytes(ctx, case):
    a, = case
    for t in [bytes([a])] + [bytes([a, x]) for x in range(256)]:
        ok, m = ref.load(__import__('io').BytesIO(t))
        status, want = ref.cose(m) if ok else ref.BAD
        ref.compare(ctx, parse_cose_key, t, status, want,
                    lambda: 'the bytes {}'.format(t.hex()))


BOUNDS = (
    'round trips of keys with every byte and length in key id and base IV, '
    'every list of three operations, every value of every byte of the '
    'coordinates; round trips of the full product of {} curves, {} algorithms, text or '
    'numeric form of each of type, algorithm and curve, {} key ids, {} key '
    'operation lists, {} base IVs, {} coordinate choices (including leading '
    'zeros); maps with any one or two of {} fields replaced by each of {} '
    'values; every integer in -300..300 and {} spellings as type, algorithm, '
    'curve or operation; every coordinate length 0..140; all byte strings of '
    '1 or 2 bytes').format(len(CURVES), len(ALGS), len(KIDS), len(OPS),
                           len(IVS), len(COORDS),
                           len(LABELS), len(JUNK), 'all known and many near')
ASSUMPTIONS = [
    'cbor2 decodes CBOR correctly; maps with additional labels may be '
    'accepted or refused',
]


def spaces():
    return [
        FnSpace('round-trip', BOUNDS, round_cases, run_round),
        FnSpace('scales', BOUNDS, scale_cases, run_scale),
        FnSpace('two-fields', BOUNDS, junk_cases, run_junk),
        FnSpace('identifiers', BOUNDS, ident_cases, run_ident),
        FnSpace('lengths', BOUNDS, length_cases, run_length),
        FnSpace('bytes', BOUNDS, bytes_cases, run_bytes),
    ]
