"""C12: client data."""
import itertools
import json

from mc import ladder
from mc import ref
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import errors as E
from webauthn_rp.parsers import parse_client_data

DROP = '<drop>'


def check(ctx, b, what=None):
    status, want, decodes = ref.client_data(b)
    if what is None:
        what = lambda: 'the client data {!r}'.format(b)
    ctx.step()
    try:
        got = parse_client_data(b)
    except E.DecodingError as e:
        ctx.outcome('undecodable')
        if status == 'ok':
            raise Violation('{} was refused with {!r}'.format(what(), e))
        if decodes and status == 'bad':
            # a structure error reported as its subclass is still a parser
            # error
            ctx.outcome('undecodable-structure')
        return
    except E.ParserError as e:
        ctx.outcome('refused')
        if status == 'ok':
            raise Violation('{} was refused with {!r}'.format(what(), e))
        if not decodes:
            raise Violation('{} cannot be decoded but {!r} was raised instead '
                            'of the decoding error'.format(what(), e))
        return
    ctx.outcome('parsed')
    if status == 'bad':
        raise Violation('{} was accepted as {!r}'.format(what(), w.view(got)))
    if w.view(got) != want:
        raise Violation('{} was parsed as {!r}, expected {!r}'.format(
            what(), w.view(got), want))


# 1. members

TYPES = [
    'webauthn.get', 'webauthn.create', '', ' webauthn.get', 'x' * 3000,
    '\u00e9\u4e2d\U0001f600', '\ud800', '\x00', '"\\/\b\n', DROP, None, True,
    0, -1.5, [], ['webauthn.get'], {}, {'a': 'b'}
]
CHALLENGES = TYPES[2:9] + ['AAAA', 'A-_=', '++//', '   '] + TYPES[9:]
ORIGINS = TYPES[2:9] + ['https://example.org', 'android:apk-key-hash:x'
                        ] + TYPES[9:]
BINDINGS = [DROP, None] + [{
    'status': s,
    'id': i
} for s in ('supported', 'present', DROP, None, '', 'Present', 'SUPPORTED',
            'not-supported', 'present ', 0, True, [], {}, ['present'])
                           for i in (DROP, None, '', 'id', '\u00e9', 'x' *
                                     500, '\ud83d', 5, [], {}, False)] + [
                                         True, False, 0, 1, '', 'present', [],
                                         ['present'], [{
                                             'status': 'supported'
                                         }], {}, {
                                             'id': 'x'
                                         }, {
                                             'status': 'supported',
                                             'zz': 1
                                         }, {
                                             'status': 'present',
                                             'id': 'a',
                                             'status2': 'x'
                                         }
                                     ]
EXTRAS = [{}, {'crossOrigin': False}, {'hashAlgorithm': 'SHA-256'},
          {'clientExtensions': {'type': 1}}, {'': [None, {'': {}}]},
          {'Type': 5, 'tokenbinding': 7, 'token_binding': 'x'}]


def clean(x):
    if type(x) is dict:
        return {
            k: v
            for k, v in x.items() if not (type(v) is str and v == DROP)
        }
    return x


def member_cases():
    for i in range(len(TYPES)):
        for j in range(len(CHALLENGES)):
            for k in range(len(ORIGINS)):
                for b in (0, 3, 1):
                    yield (i, j, k, b, 0), [i, j, k, b, 0]
    for i in (0, 1, 6, 9, 12):
        for j in (7, 0, 11, 12):
            for k in (7, 0, 9):
                for b in range(len(BINDINGS)):
                    for e in range(len(EXTRAS)):
                        yield (i, j, k, b, e), [i, j, k, b, e]
    if THOROUGH:
        for i in range(len(TYPES)):
            for j in range(len(CHALLENGES)):
                for k in range(len(ORIGINS)):
                    for b in range(len(BINDINGS)):
                        yield (i, j, k, b, 'T'), [i, j, k, b, 0]


def run_member(ctx, case):
    i, j, k, b, e = case
    d = clean({
        'type': TYPES[i],
        'challenge': CHALLENGES[j],
        'origin': ORIGINS[k],
        'tokenBinding': clean(BINDINGS[b])
    })
    d.update(EXTRAS[e])
    outs = [json.dumps(d).encode()]
    if not any('\ud800' <= ch <= '\udfff' for ch in repr(d)) and \
            '\\ud8' not in repr(d):
        outs.append(json.dumps(d, ensure_ascii=False, indent=2).encode('utf-8'))
    outs.append(json.dumps(dict(reversed(list(d.items())))).encode())
    for b_ in outs:
        check(ctx, b_)


# 2. JSON texts and encodings

GOOD = ('{"type":"webauthn.get","challenge":"AAAA","origin":"https://a.org",'
        '"tokenBinding":{"status":"present","id":"b"}}')
TEXTS = [
    GOOD, ' ' + GOOD + '\n\t ', GOOD + ',', GOOD + GOOD, GOOD[:-1], GOOD[1:],
    '[' + GOOD + ']', '"' + GOOD.replace('"', '\\"') + '"', '', ' ', 'null',
    'true', '0', '""', '[]', '{}', '{', '}', GOOD.replace('"', "'"),
    GOOD.replace(',', ', '), GOOD.replace('}}', '},}'), GOOD + '//',
    '/**/' + GOOD, '\ufeff' + GOOD, GOOD + '\x00', GOOD.replace('A', '\x01'),
    GOOD.replace('A', '\\u0041'), GOOD.replace('A', '\\ud83d\\ude00'),
    GOOD.replace('A', '\\ud83d'), GOOD.replace('A', '\\x41'),
    GOOD.replace('A', '\u00e9'), GOOD.replace('A', '\u2028'),
    GOOD.replace('A', '\U0001f600'), GOOD.replace('A', '\t'),
    GOOD[:-1] + ',"type":"x"}', GOOD[:-1] + ',"zz":NaN}',
    GOOD[:-1] + ',"zz":1e999}', GOOD[:-1] + ',"zz":' + '9' * 4000 + '}',
    GOOD[:-1] + ',"zz":' + '[' * 500 + ']' * 500 + '}',
    GOOD[:-1] + ',"zz":' + '[' * 100000 + '}',
    GOOD[:-1] + ',"zz":' + '[' * 100000 + ']' * 100000 + '}',
    '[' * 100000, 'undefined', 'NaN', GOOD.upper()
]
ENC = [
    'utf-8', 'utf-8-sig', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32',
    'utf-32-le', 'latin-1', 'cp1252', 'utf-7', 'cp037'
]
BYTES_IN = [
    b'', b'\xff', b'\xc3', b'\xc3\x28', b'\xed\xa0\x80', b'\xf4\x90\x80\x80',
    b'\xc0\x80', b'\xc0\xaf', b'\xe0\x80\x80', b'\x80', b'\xfe\xff',
    b'\xef\xbb\xbf', b'\x00', b'\xf0\x9f\x98\x80', b'\xc3\xa9',
    b'\xef\xbf\xbd'
]


def text_cases():
    for i in range(len(TEXTS)):
        for j in range(len(ENC)):
            yield ('t', i, j), ['t', i, j]
    g = GOOD.encode()
    for i in range(len(g) + 1):
        for j in range(len(BYTES_IN)):
            yield ('b', i, j), ['b', i, j]


def run_text(ctx, case):
    kind, i, j = case
    if kind == 't':
        try:
            check(ctx, TEXTS[i].encode(ENC[j], 'replace'),
                  lambda: 'text {} in {}'.format(i, ENC[j]))
        except UnicodeEncodeError:
            pass
        return
    g = GOOD.encode()
    check(ctx, g[:i] + BYTES_IN[j] + g[i:])
    check(ctx, g[:i] + BYTES_IN[j] + g[i + 1:])


# 3. every value of every byte, cuts and short strings


def byte_cases():
    for p in range(len(GOOD) + 1):
        yield ('g', p), ['g', p]
    for a in range(256):
        yield ('s', a), ['s', a]


def run_byte(ctx, case):
    kind, p = case
    if kind == 's':
        for t in [bytes([p])] + [bytes([p, x]) for x in range(256)]:
            check(ctx, t)
            check(ctx, b'{"type":"' + t + b'","challenge":"","origin":""}')
            check(ctx, b'{"type":"","challenge":' + t + b',"origin":""}')
        return
    g = GOOD.encode()
    for x in range(256):
        check(ctx, g[:p] + bytes([x]) + g[p + 1:])
        check(ctx, g[:p] + bytes([x]) + g[p:])
        if p + 1 < len(g):
            for y in range(256):
                check(ctx, g[:p] + bytes([x, y]) + g[p + 2:])
    check(ctx, g[:p])
    check(ctx, g[p:])
    check(ctx, g[:p] + g[p + 1:])


# 4. all small JSON trees as the whole text, as members

LEAVES = ['null', 'true', '0', '""', '"type"', '"present"', '"supported"']


def trees(depth):
    yield from LEAVES
    if depth == 0:
        yield '[]'
        yield '{}'
        return
    subs = list(trees(depth - 1))
    yield '[]'
    yield '{}'
    for a in subs:
        yield '[' + a + ']'
        for k in ('status', 'id', 'type'):
            yield '{"' + k + '":' + a + '}'
    for a in subs:
        for b in subs:
            yield '{"status":' + a + ',"id":' + b + '}'


def tree_cases():
    for i, t in enumerate(trees(2)):
        yield (i, ), [t]


def run_tree(ctx, case):
    t, = case
    for form in ('%s', '{"type":%s,"challenge":"","origin":""}',
                 '{"type":"","challenge":%s,"origin":""}',
                 '{"type":"","challenge":"","origin":%s}',
                 '{"type":"","challenge":"","origin":"","tokenBinding":%s}',
                 '{"type":"","challenge":"","origin":"","x":%s}'):
        check(ctx, (form % t).encode())


# 5. every code point and length in every text

def scale_cases():
    yield from ladder.cases(2200 if THOROUGH else 700, blobs=False)


def run_scale(ctx, case):
    kind, i = case
    vals = list(ladder.texts(i)) if kind == 'text' else [
        ladder.sized_text(i), 'A' * i, '\u4e2d' * i]
    for v in vals:
        for n in range(5):
            t = ['webauthn.get', 'AAAA', 'https://a.org', 'id', 'x']
            t[n] = v
            d = {'type': t[0], 'challenge': t[1], 'origin': t[2],
                 'tokenBinding': {'status': 'present', 'id': t[3]}}
            if n == 4:
                d[v] = v
            check(ctx, json.dumps(d).encode())
            check(ctx, json.dumps(d, ensure_ascii=False).encode())


BOUNDS = (
    'all combinations of {} types, {} challenges, {} origins and {} of {} '
    'token bindings with {} sets of additional members, in {} spellings; {} '
    'JSON texts in {} encodings; {} byte sequences put in at and over every '
    'position; every value of every byte and every pair of adjacent bytes, cuts, deletions and insertions; '
    'every JSON tree up to depth {} over {} leaves at 6 positions; every code '
    'point below U+0300 and {} more, and every length below {}, in each text').format(
        len(TYPES), len(CHALLENGES), len(ORIGINS),
        'all' if THOROUGH else '3 (and all with fewer of the others)',
        len(BINDINGS), len(EXTRAS), 3, len(TEXTS), len(ENC), len(BYTES_IN),
        2, len(LEAVES), len(ladder.POINTS) - 0x300,
        2200 if THOROUGH else 700)
ASSUMPTIONS = [
    'Python\'s UTF-8 and JSON decoders are correct; duplicate members and '
    'NaN/Infinity may be accepted or refused, and so may a token binding id '
    'that is not a string',
]


def spaces():
    return [
        FnSpace('members', BOUNDS, member_cases, run_member),
        FnSpace('texts', BOUNDS, text_cases, run_text),
        FnSpace('bytes', BOUNDS, byte_cases, run_byte),
        FnSpace('scales', BOUNDS, scale_cases, run_scale),
        FnSpace('trees', BOUNDS, tree_cases, run_tree),
    ]
