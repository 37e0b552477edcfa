"""C14: extension outputs."""
import itertools

import cbor2

from mc import ceremony as c
from mc import ladder
from mc import ref
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.parsers import parse_authenticator_data, parse_extensions

NAMES = list(c.EXT_ATTR)
COORD = ['latitude', 'longitude', 'altitude', 'accuracy', 'altitudeAccuracy',
         'heading', 'speed']


def has_tuple(v):
    if isinstance(v, tuple):
        return True
    if isinstance(v, list):
        return any(map(has_tuple, v))
    if isinstance(v, dict):
        return any(map(has_tuple, v.values()))
    return False


def check(ctx, m, encoded=True):
    """Both ways in: the decoded map and the authenticator data."""
    status, want = ref.ext(m)
    if has_tuple(m):
        status, want = 'open', None
    before = w.view(m)
    got = ref.compare(ctx, parse_extensions, m, status, want,
                      lambda: 'extensions {!r}'.format(m))
    if w.view(m) != before:
        raise Violation('parsing changed the extension map {!r}'.format(m))
    if got is not None and not isinstance(
            got, T.AuthenticationExtensionsClientOutputs):
        raise Violation('the result is a {!r}'.format(type(got)))
    if not encoded or has_tuple(m):
        return
    try:
        raw = cbor2.dumps(m)
    except Exception:
        return
    ad = w.auth_data(b'h' * 32, w.ED | w.UP, 7, b'', raw)
    st, v = ref.auth_data(ad)
    ref.compare(ctx, parse_authenticator_data, ad, st, v,
                lambda: 'authenticator data with extensions {!r}'.format(m),
                (E.ValidationError, ))


# --------------------------------------------------------------------------
# 1. one extension, every value

SCALARS = [
    None, True, False, 0, 1, -1, 2**31, 2**64, -2**64, 0.0, 1.5, -0.0,
    float('inf'), float('-inf'), float('nan'), '', 'a', 'true', '0',
    'x' * 300, '\u00e9', '\U0001f600', b'', b'a', b'\x00', b'\xff' * 300
]
NESTED = [
    [], [[]], [[], []], {}, {'latitude': 1.0}, {'a': 1}, {1: 1}, (), ('a', ),
    [()], ['a', 'b'], ['a', 1], [1, 'a'], [1], [[1]], [[1, 2, 3]],
    [[1, 2, 3], [4, 5, 6]], [[1, 'a']], [['a']], [[True]], [[1.0]], [[None]],
    [[[1]]], [{}], [None], [True], [b'a'], ['a', b'a'], ['a', None], [['a']],
    [[1], 1], [1, [1]], [[1], 'a'], [[-1, 2**40]], [[0]], [b'', b''], [''],
    ['', ''], ['a'] * 100, [[1, 2, 3]] * 100
]
VALUES = SCALARS + NESTED


def alone_cases():
    for n in range(len(NAMES)):
        for i in range(len(VALUES)):
            yield (n, i), [n, i]


def run_alone(ctx, case):
    n, i = case
    check(ctx, {NAMES[n]: VALUES[i]})


# 2. two extensions, every value

def pair_cases():
    for n, m in itertools.permutations(range(len(NAMES)), 2):
        for i in range(len(VALUES)):
            yield (n, m, i), [n, m, i]


def run_pair(ctx, case):
    n, m, i = case
    for j in range(len(VALUES)):
        check(ctx, {NAMES[n]: VALUES[i], NAMES[m]: VALUES[j]},
              encoded=THOROUGH)


# 3. every subset, each extension absent, null, falsy or truthy

FALSY = {'appid': False, 'txAuthSimple': '', 'txAuthGeneric': b'',
         'authnSel': False, 'exts': [], 'uvi': b'', 'loc': {}, 'uvm': [],
         'biometricPerfBounds': False}
TRUTHY = {'appid': True, 'txAuthSimple': 'prompt', 'txAuthGeneric': b'\x01',
          'authnSel': True, 'exts': ['appid', 'uvm'], 'uvi': b'\x02',
          'loc': {'latitude': 0, 'longitude': -0.0, 'accuracy': 1.5,
                  'altitudeAccuracy': 0.0},
          'uvm': [[0, 0, 0], [1, 2, 3]], 'biometricPerfBounds': True}
WRONG = {'appid': 0, 'txAuthSimple': b'', 'txAuthGeneric': '', 'authnSel': 1,
         'exts': '', 'uvi': [], 'loc': [], 'uvm': {}, 'biometricPerfBounds': 0.0}


def build(levels):
    m = {}
    for n, l in zip(NAMES, levels):
        if l == 1:
            m[n] = FALSY[n]
        elif l == 2:
            m[n] = TRUTHY[n]
        elif l == 3:
            m[n] = None
        elif l == 4:
            m[n] = WRONG[n]
    return m


def subset_cases():
    k = 4 if THOROUGH else 3
    for t in itertools.product(range(k), repeat=len(NAMES)):
        yield t, list(t)


def run_subset(ctx, case):
    check(ctx, build(case))
    m = build(case)  # the same members in the other order
    check(ctx, dict(reversed(list(m.items()))), encoded=False)
    for i in range(len(case)):
        if case[i] == 0:
            check(ctx, build(case[:i] + [4] + case[i + 1:]), encoded=False)


# 4. unknown names

UNKNOWN = ['', 'Appid', 'APPID', 'appId', 'appid ', ' appid', 'app_id',
           'tx_auth_simple', 'TxAuthSimple', 'txAuthsimple', 'txauthsimple',
           'tx_auth_generic', 'authn_sel', 'ext', 'extss', 'location', 'UVM',
           'biometric_perf_bounds', 'biometricPerfBound', 'hmac-secret',
           'credProtect', 'prf', 'credProps', 'key', '\u0430ppid', 0, 1, -1,
           1.5, True, None, b'appid', b'', 'latitude', '__class__', 'self']


def unknown_cases():
    for u in range(len(UNKNOWN)):
        for i in range(len(VALUES)):
            yield (u, i), [u, i]


def run_unknown(ctx, case):
    u, i = case
    check(ctx, {UNKNOWN[u]: VALUES[i]})
    for n in NAMES:
        check(ctx, {n: TRUTHY[n], UNKNOWN[u]: VALUES[i]}, encoded=False)
        check(ctx, {UNKNOWN[u]: VALUES[i], n: FALSY[n]}, encoded=False)
    full = dict(TRUTHY)
    full[UNKNOWN[u]] = VALUES[i]
    check(ctx, full)
    for v in UNKNOWN:
        check(ctx, {UNKNOWN[u]: VALUES[i], v: VALUES[i]}, encoded=False)


# 5. nested entries

ENTRY = ['', 'a', 'appid', '\u00e9', 0, True, None, b'a', 1.5, [], ['a'], {}]
UENTRY = [0, 1, -1, 2**32, 2**70, True, None, 1.5, '1', b'1', [], [1]]


def nested_cases():
    k = 4 if THOROUGH else 3
    for n in range(k + 1):
        for t in itertools.product(range(len(ENTRY)), repeat=n):
            yield ('exts', t), ['exts', list(t), None]
    for n in range(k + 1):
        for t in itertools.product(range(len(UENTRY)), repeat=n):
            yield ('uvm', t), ['uvm', list(t), None]
    for n, m in itertools.product(range(k), repeat=2):
        for t in itertools.product(range(len(UENTRY)), repeat=n):
            for s in itertools.product(range(0, len(UENTRY), 2), repeat=m):
                yield ('uvm2', t, s), ['uvm2', list(t), list(s)]


def run_nested(ctx, case):
    kind, t, s = case
    if kind == 'exts':
        check(ctx, {'exts': [ENTRY[i] for i in t]})
    elif kind == 'uvm':
        check(ctx, {'uvm': [[UENTRY[i] for i in t]]})
        check(ctx, {'uvm': [UENTRY[i] for i in t]})
    else:
        check(ctx, {'uvm': [[UENTRY[i] for i in t], [UENTRY[i] for i in s]]})


# 6. coordinates

CVAL = [0, 1, -1, 0.0, -0.0, 1.5, float('inf'), float('nan'), 2**70, None,
        True, False, '1', b'1', [], [1.0], {}, '']
CNAME = COORD + ['', 'Latitude', 'LATITUDE', 'lat', 'altitude_accuracy',
                 'altitudeaccuracy', 'timestamp', 'coords', 0, None, True,
                 b'latitude']
CLEVEL = [None, 0, 1.5]


def coord_cases():
    for n in range(len(CNAME)):
        for i in range(len(CVAL)):
            yield ('one', n, i), ['one', n, i, None, None]
    for n, m in itertools.combinations(range(len(CNAME)), 2):
        for i in range(len(CVAL)):
            for j in range(len(CVAL)):
                yield ('two', n, i, m, j), ['two', n, i, m, j]
    for t in itertools.product(range(3), repeat=7):
        yield ('mask', ) + t, ['mask', list(t), None, None, None]


def run_coord(ctx, case):
    kind, n, i, m, j = case
    if kind == 'mask':
        loc = {COORD[k]: CLEVEL[l] + k for k, l in enumerate(n) if l}
    else:
        loc = {CNAME[n]: CVAL[i]}
        if m is not None:
            loc[CNAME[m]] = CVAL[j]
    check(ctx, {'loc': loc}, encoded=kind != 'two')
    if kind != 'two':
        check(ctx, dict(TRUTHY, loc=loc))


# 7. required extensions

def required_cases():
    for cer in ('reg', 'auth'):
        for kind in ('falsy', 'truthy') if THOROUGH else ('falsy', ):
            for sent in range(512):
                yield (cer, kind, sent), [cer, kind, sent]
        for kind in () if THOROUGH else ('truthy', ):
            for sent in [0, 511] + [1 << i for i in range(9)
                                    ] + [511 ^ (1 << i) for i in range(9)]:
                yield (cer, kind, sent), [cer, kind, sent]
        for sent in ('absent', 'nulls'):
            yield (cer, sent), [cer, sent, 0]


def run_required(ctx, case):
    cer, kind, sent = case
    if kind == 'absent':
        ext = None
    elif kind == 'nulls':
        ext = dict.fromkeys(NAMES)
    else:
        src = FALSY if kind == 'falsy' else TRUTHY
        ext = {n: src[n] for i, n in enumerate(NAMES) if sent >> i & 1}
    for want in range(-1, 512):
        exp = None if want < 0 else tuple(
            n for i, n in enumerate(NAMES) if want >> i & 1)
        d = {'ext': ext, 'exp_ext': exp}
        if cer == 'reg':
            c.check_reg(ctx, c.full(c.BASE_REG, d), True)
        else:
            c.check_auth(ctx, c.full(c.BASE_AUTH, d), True)


# 8. wrongly typed or unknown outputs stop both ceremonies

def stop_cases():
    for cer in ('reg', 'auth'):
        for n in range(len(NAMES)):
            for i in range(len(VALUES)):
                yield (cer, n, i), [cer, n, i]


def run_stop(ctx, case):
    cer, n, i = case
    if has_tuple(VALUES[i]):
        return
    for exp in (None, (), (NAMES[n], )):
        d = {'ext': {NAMES[n]: VALUES[i]}, 'exp_ext': exp}
        if cer == 'reg':
            c.check_reg(ctx, c.full(c.BASE_REG, d), True)
        else:
            c.check_auth(ctx, c.full(c.BASE_AUTH, d), True)


# 9. scales: every value of a long ladder is carried through as it is

LENGTHS = 1100 if THOROUGH else 300


def scale_cases():
    yield from ladder.cases(LENGTHS)
    for i in range(len(ladder.NUMBERS)):
        yield ('number', i), ['number', i]
    for i in range(len(ladder.FRACTIONS)):
        yield ('fraction', i), ['fraction', i]


def run_scale(ctx, case):
    kind, i = case
    if kind == 'text':
        for t in ladder.texts(i):
            check(ctx, {'txAuthSimple': t})
            check(ctx, {'exts': [t]})
            check(ctx, {'exts': ['appid', t, t]}, encoded=False)
    elif kind == 'byte':
        for t in ladder.blobs(i):
            check(ctx, {'txAuthGeneric': t})
            check(ctx, {'uvi': t})
    elif kind == 'length':
        check(ctx, {'txAuthSimple': ladder.sized_text(i)})
        check(ctx, {'txAuthGeneric': ladder.sized_blob(i),
                    'uvi': ladder.sized_blob(i, 3)})
        check(ctx, {'exts': ['e{}'.format(k % 7) for k in range(i)]})
        check(ctx, {'uvm': [[k, 4, 2] for k in range(i)]})
        check(ctx, {'uvm': [[1] * i, [2, 4, 2]]})
    elif kind == 'number':
        n = ladder.NUMBERS[i]
        for name in COORD:
            check(ctx, {'loc': {name: n}}, encoded=name == COORD[0])
        check(ctx, {'loc': dict.fromkeys(COORD, n)})
        check(ctx, {'uvm': [[n, n + 1], [1, n]]})
    else:
        x = ladder.FRACTIONS[i]
        for name in COORD:
            check(ctx, {'loc': {name: x}}, encoded=False)
        check(ctx, {'loc': dict.fromkeys(COORD, x)})


BOUNDS = (
    '{} extensions: each alone with each of {} values and every ordered pair '
    'with all values of both; every subset with each member absent, falsy{} or '
    'truthy, and one more wrongly typed; {} unknown names x {} values, alone, '
    'beside every known one and in pairs; every list of at most {} extension '
    'names / verification method entries over {} kinds; {} coordinate names x '
    '{} values singly and in pairs and all 3^7 subsets; through the decoded '
    'map and through authenticator data. Required extensions: all 512 sent x '
    '513 required subsets in both ceremonies. Every code point below U+0300 '
    'and {} more, every byte, every length to {}, {} whole and {} other numbers '
    'in each place such a value can take').format(
        len(NAMES), len(VALUES), ', null' if THOROUGH else '', len(UNKNOWN),
        len(VALUES), 4 if THOROUGH else 3, len(ENTRY), len(CNAME), len(CVAL),
        len(ladder.POINTS) - 0x300, LENGTHS - 1, len(ladder.NUMBERS),
        len(ladder.FRACTIONS))
ASSUMPTIONS = [
    'a null member counts as not sent',
    'Python tuples, which no JSON or CBOR decoder returns here, may be '
    'accepted or refused',
]


def spaces():
    return [
        FnSpace('alone', BOUNDS, alone_cases, run_alone),
        FnSpace('pairs', BOUNDS, pair_cases, run_pair),
        FnSpace('subsets', BOUNDS, subset_cases, run_subset),
        FnSpace('unknown', BOUNDS, unknown_cases, run_unknown),
        FnSpace('nested', BOUNDS, nested_cases, run_nested),
        FnSpace('coordinates', BOUNDS, coord_cases, run_coord),
        FnSpace('scales', BOUNDS, scale_cases, run_scale),
        FnSpace('ceremonies', BOUNDS, stop_cases, run_stop),
        FnSpace('required', BOUNDS, required_cases, run_required),
    ]
