"""C09: authenticator data."""
import functools
import itertools
import struct

import cbor2

from mc import ladder
from mc import ref
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import errors as E
from webauthn_rp.parsers import (parse_attestation_object,
                                 parse_authenticator_data)

HASH = bytes(range(100, 132))
AAGUID = bytes(range(200, 216))
KEYS = [('P256', 'a', None, 'value'), ('P256', 'a', None, 'name'),
        ('P384', 'a', None, 'value'), ('P521', 'a', None, 'value'),
        ('ED25519', 'a', None, 'value'), ('ED448', 'a', None, 'name'),
        ('P256', 'a', 'ES512', 'value'), ('P521', 'a', 'ES256', 'name')]
EXTRA_FIELDS = [{}, {'kid': b''}, {'kid': b'kid', 'base_iv': b''},
                {'key_ops': [2, 'sign'], 'base_iv': b'iv'}]
EXTS = [
    {}, {'appid': False}, {'appid': True},
    {'txAuthSimple': ''}, {'uvm': [[2, 4, 2]]},
    {'exts': ['appid'], 'uvi': b'\x00', 'authnSel': False},
    {'loc': {'latitude': -1.5, 'longitude': 0, 'accuracy': 2}},
    {'txAuthGeneric': b'', 'biometricPerfBounds': True, 'uvm': []},
    {'appid': None},
]
IDS = [b'', b'\x00', b'id', bytes(range(16)), b'\xa0' * 5, b'x' * 64]


def id_of(n):
    return bytes((i * 7 + (i >> 8)) & 255 for i in range(n))


def check(ctx, b, what, wrapped=True):
    status, want = ref.auth_data(b)
    ref.compare(ctx, parse_authenticator_data, b, status, want, what,
                (E.ValidationError, ))
    if wrapped:
        ao = w.attestation_object('none', {}, b)
        ref.compare(ctx, parse_attestation_object, ao, status, want, what,
                    (E.ValidationError, ), pick=lambda r: r[0].auth_data)


# 1. flags against contents

TAILS = [b'', b'\x00', b'\xa0', b'\xf6', b'\xff', b'\x00' * 20]


def flag_cases():
    for fl in range(256):
        for a in range(4):
            for e in range(5):
                for t in range(len(TAILS)):
                    yield (fl, a, e, t), [fl, a, e, t]


def run_flags(ctx, case):
    fl, a, e, t = case
    att = b''
    if a:
        key = (None, KEYS[0], KEYS[4], KEYS[6])[a]
        att = w.attested_data(AAGUID, b'id', w.cose_map(*key))
    ext = cbor2.dumps(EXTS[(0, 0, 2, 4, 5)[e]]) if e else b''
    b = w.auth_data(HASH, fl, 0x01020304, att, ext + TAILS[t])
    st = ref.auth_data(b)[0]
    # the structure built above must be what the reference sees
    if not TAILS[t]:
        fits = bool(fl & w.AT) == bool(a) and bool(fl & w.ED) == bool(e)
        if fits != (st == 'ok'):
            raise Violation('reference confused about {}'.format(b.hex()))
    check(ctx, b, lambda: 'flags {:#04x} with {}'.format(fl, b[37:].hex()))


# 2. counters and RP ID hash, byte by byte

FIXED = w.attested_data(AAGUID, b'id', w.cose_map('P256', 'a'))


def header_cases():
    for p in range(32):
        for v in range(256):
            yield ('hash', p, v), ['hash', p, v]
    for p in range(4):
        for v in range(256):
            for other in (0, 255):
                yield ('count', p, v, other), ['count', p, v + 256 * other]
    for p in range(16):
        for v in range(256):
            yield ('aaguid', p, v), ['aaguid', p, v]


def run_header(ctx, case):
    kind, p, v = case
    h, n, g = bytearray(HASH), bytearray(b'\x00' * 4), bytearray(AAGUID)
    if kind == 'hash':
        h[p] = v
    elif kind == 'count':
        n = bytearray([v >> 8] * 4)
        n[p] = v & 255
    else:
        g[p] = v
    count = int.from_bytes(n, 'big')
    att = bytes(g) + FIXED[16:]
    for b in (w.auth_data(bytes(h), w.UP, count),
              w.auth_data(bytes(h), w.UP | w.AT, count, att)):
        check(ctx, b, lambda: 'header {}'.format(b[:60].hex()))


# 3. credential id lengths

LENGTHS = sorted(
    set(range(0, 65536 if THOROUGH else 1500))
    | {x + d for x in (2**11, 2**12, 2**13, 2**14, 2**15, 2**16)
       for d in (-2, -1, 0, 1) if x + d < 65536})


def length_cases():
    for n in LENGTHS:
        yield (n, ), [n]


def run_length(ctx, case):
    n, = case
    cid = id_of(n)
    cose = w.cose_map('P256', 'a')
    good = w.attested_data(AAGUID, cid, cose)
    what = lambda: 'credential id of {} bytes'.format(n)
    check(ctx, w.auth_data(HASH, w.AT | w.UP, 7, good), what)
    check(ctx, w.auth_data(HASH, w.AT | w.UP | w.ED, 7, good,
                           cbor2.dumps({'appid': True})), what)
    # a wrong length field
    for d in (-256, -1, 1, 256, 0x8000):
        m = (n + d) & 0xffff
        b = AAGUID + struct.pack('>H', m) + good[18:]
        check(ctx, w.auth_data(HASH, w.AT | w.UP, 7, b),
              lambda: 'credential id of {} bytes, length {}'.format(n, m))
    # the bytes end inside the id
    for k in {0, n // 2, n - 1} if n else ():
        check(ctx, w.auth_data(HASH, w.AT, 7, good[:18 + k]), what)
    check(ctx, w.auth_data(HASH, w.AT, 7, good[:18 + n]), what)


# 4. structures: product of keys, extension maps, ids, and every cut, every
# appended byte, every changed byte


def structures():
    for k in range(len(KEYS)):
        for f in range(len(EXTRA_FIELDS)):
            for e in [None] + list(range(len(EXTS))):
                for i in range(len(IDS)):
                    yield [k, f, e, i]


def build(case):
    k, f, e, i = case
    fl = w.UP | w.AT
    ext = b''
    if e is not None:
        fl |= w.ED
        ext = cbor2.dumps(EXTS[e])
    m = w.cose_map(*KEYS[k], **EXTRA_FIELDS[f])
    return w.auth_data(HASH, fl, 2**32 - 2, w.attested_data(
        AAGUID, IDS[i], m), ext)


def structure_cases():
    for s in structures():
        yield tuple(s), s


def run_structure(ctx, case):
    b = build(case)
    st = ref.auth_data(b)[0]
    if st != 'ok':
        raise Violation('reference refuses {}'.format(b.hex()))
    check(ctx, b, lambda: 'data {}'.format(b.hex()))
    for n in range(len(b)):
        cut = b[:n]
        check(ctx, cut, lambda: 'data {} cut at {}'.format(b.hex(), n), False)
    for x in range(256):
        longer = b + bytes([x])
        check(ctx, longer, lambda: 'data {} with {} appended'.format(
            b.hex(), x), False)
    for t in (cbor2.dumps({}), cbor2.dumps({'appid': True}), b[37:], b):
        check(ctx, b + t, lambda: 'data {} followed by {}'.format(
            b.hex(), t.hex()))


def byte_cases():
    picks = [[0, 0, None, 2], [0, 3, 4, 2], [4, 0, 1, 2], [1, 2, 6, 0],
             [5, 1, 5, 3], [3, 0, None, 1]]
    if THOROUGH:
        picks = [s for s in structures() if s[3] == 2 or s[1:] == [0, None, 4]]
    for s in picks:
        for p in range(len(build(s))):
            yield tuple(s) + (p, ), [s, p]


def run_byte(ctx, case):
    s, p = case
    b = bytearray(build(s))
    old = b[p]
    for x in range(256):
        b[p] = x
        m = bytes(b)
        check(ctx, m, lambda: 'data {} byte {} set to {}'.format(
            m.hex(), p, x), False)
    b[p] = old
    m = bytes(b[:p] + b[p + 1:])
    check(ctx, m, lambda: 'data {}'.format(m.hex()), False)
    for x in range(256) if THOROUGH else (0, 1, 0x40, 0x60, 0x80, 0xa0, 0xff):
        m = bytes(b[:p]) + bytes([x]) + bytes(b[p:])
        check(ctx, m, lambda: 'data {}'.format(m.hex()), False)


# 5. every short tail behind a header with each flag combination


def tail_cases():
    for fl in (0, w.AT, w.ED, w.AT | w.ED):
        for a in range(256):
            yield (fl, a), [fl, a]


def run_tail(ctx, case):
    fl, a = case
    for t in [bytes([a])] + [bytes([a, x]) for x in range(256)]:
        for pre in (b'', FIXED if fl & w.AT else None):
            if pre is None:
                continue
            b = w.auth_data(HASH, fl | w.UP, 1, pre, t)
            check(ctx, b, lambda: 'data {}'.format(b.hex()), False)


# 6. every byte, code point and length in ids and extension values


def scale_cases():
    return ladder.cases(300)


def run_scale(ctx, case):
    what, i = case
    blobs = texts = ()
    if what == 'text':
        texts = ladder.texts(i)
    elif what == 'byte':
        blobs = ladder.blobs(i)
    else:
        blobs, texts = [ladder.sized_blob(i)], [ladder.sized_text(i)]
    ext = {'appid': False, 'loc': {'heading': 0}}
    for b in blobs:
        for e in (None, dict(ext, txAuthGeneric=b), dict(ext, uvi=b)):
            d = w.auth_data(HASH, w.UP | w.AT | (w.ED if e else 0), 9,
                            w.attested_data((b + AAGUID)[:16], b,
                                            w.cose_map('ED25519', 'a')),
                            cbor2.dumps(e) if e else b'')
            check(ctx, d, lambda: 'data {}'.format(d.hex()))
    for t in texts:
        for e in (dict(ext, txAuthSimple=t), {'exts': [t]},
                  {'exts': ['appid', t, '']}, {t: True}, {t: t, 'uvm': []},
                  {'appid' + t: False}, {'loc': {t: 1}}):
            d = w.auth_data(HASH, w.UP | w.ED, 9, b'', cbor2.dumps(e))
            check(ctx, d, lambda: 'data {}'.format(d.hex()))


BOUNDS = (
    'every byte, code point and length up to 300 in ids and extension names '
    'and values; '
    'all 256 flag bytes x 4 attested parts x 5 extension parts x {} tails; '
    'every value of every byte of the RP ID hash, counter and AAGUID; {} '
    'credential id lengths, each with 5 wrong length fields and cuts; {} '
    'structures (keys x optional key fields x extension maps x ids), each cut '
    'at every byte and with every byte appended; every value of every byte of '
    '{} structures; every tail of 1 or 2 bytes behind every flag combination'
).format(len(TAILS), len(LENGTHS),
         len(KEYS) * len(EXTRA_FIELDS) * (len(EXTS) + 1) * len(IDS),
         'most' if THOROUGH else 6)
ASSUMPTIONS = [
    'cbor2 decodes CBOR correctly; maps with unknown or non-integer key '
    'labels may be accepted or refused',
]


def spaces():
    return [
        FnSpace('flags', BOUNDS, flag_cases, run_flags),
        FnSpace('header', BOUNDS, header_cases, run_header),
        FnSpace('lengths', BOUNDS, length_cases, run_length),
        FnSpace('structures', BOUNDS, structure_cases, run_structure),
        FnSpace('bytes', BOUNDS, byte_cases, run_byte),
        FnSpace('tails', BOUNDS, tail_cases, run_tail),
        FnSpace('scales', BOUNDS, scale_cases, run_scale),
    ]
