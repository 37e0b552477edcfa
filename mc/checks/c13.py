"""C13: JSON public key credentials."""
import base64
import itertools
import json
import re

from mc import ladder
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.converters import jsonify
from webauthn_rp.parsers import parse_public_key_credential as parse

# --------------------------------------------------------------------------
# Reference

_B64 = re.compile(r'\A(?:[A-Za-z0-9+/]{4})*'
                  r'(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?\Z')
REG = {'clientDataJSON': 'client_data_JSON',
       'attestationObject': 'attestation_object'}
AUTH = {'clientDataJSON': 'client_data_JSON',
        'authenticatorData': 'authenticator_data', 'signature': 'signature'}


def ref_bytes(s):
    """-> (status, bytes)"""
    if type(s) is not str:
        return 'bad', None
    if not _B64.match(s):
        # complete text followed by padding it does not need
        t = s.rstrip('=')
        t += '=' * (-len(t) % 4)
        if s.startswith(t) and _B64.match(t):
            return 'open', base64.b64decode(t)
        return 'bad', None
    b = base64.b64decode(s)
    # unused low bits that are not zero: the same bytes in another spelling
    return ('ok' if w.b64(b) == s else 'open'), b


def ref(d):
    if type(d) is not dict or set(d) != {'id', 'rawId', 'response', 'type'}:
        return 'bad', None
    r = d['response']
    if type(d['id']) is not str or type(d['type']) is not str or type(
            r) is not dict:
        return 'bad', None
    sts = []
    st, raw = ref_bytes(d['rawId'])
    sts.append(st)
    kw = {}
    if set(r) == set(REG):
        names, cls = REG, T.AuthenticatorAttestationResponse
    elif set(r) - {'userHandle'} == set(AUTH):
        names, cls = AUTH, T.AuthenticatorAssertionResponse
        h = r.get('userHandle')
        if h is not None:
            st, h = ref_bytes(h)
            sts.append(st)
        kw['user_handle'] = h
    else:
        return 'bad', None
    for n, a in names.items():
        st, kw[a] = ref_bytes(r[n])
        sts.append(st)
    if 'bad' in sts:
        return 'bad', None
    return 'open' if 'open' in sts else 'ok', w.view(
        T.PublicKeyCredential(id=d['id'], type=d['type'], raw_id=raw,
                              response=cls(**kw)))


def check(ctx, d):
    status, want = ref(d)
    before = w.view(d)
    ctx.step()
    try:
        got = parse(d)
    except E.ParserError as e:
        ctx.outcome('refused:' + type(e).__name__)
        if status == 'ok':
            raise Violation('{!r} was refused with {!r}'.format(d, e))
        got = None
    else:
        ctx.outcome('parsed')
        if status == 'bad':
            raise Violation('{!r} was accepted as {!r}'.format(d, w.view(got)))
        if w.view(got) != want:
            raise Violation('{!r} was parsed as {!r}'.format(d, w.view(got)))
    if w.view(d) != before:
        raise Violation('parsing changed the JSON value')
    return got, status


def roundtrip(ctx, cred_json):
    got, status = check(ctx, cred_json)
    if status != 'ok':
        raise Violation('reference refuses {!r}'.format(cred_json))
    ctx.step()
    out = jsonify(got)
    want = json.loads(json.dumps(cred_json))
    if want['response'].get('userHandle', '') is None:
        del want['response']['userHandle']
    if out != want:
        raise Violation('{!r} came back as {!r}'.format(cred_json, out))
    ctx.step()
    again = parse(json.loads(json.dumps(out)))
    if w.view(again) != w.view(got):
        raise Violation('{!r} changed in its JSON form'.format(w.view(got)))


def make(kind, parts, id_='id', type_='public-key'):
    raw, cd, a, s, h = parts
    if kind == 'reg':
        r = {'clientDataJSON': w.b64(cd), 'attestationObject': w.b64(a)}
    else:
        r = {'clientDataJSON': w.b64(cd), 'authenticatorData': w.b64(a),
             'signature': w.b64(s)}
        if h == 'null':
            r['userHandle'] = None
        elif h is not None:
            r['userHandle'] = w.b64(h)
    return {'id': id_, 'rawId': w.b64(raw), 'response': r, 'type': type_}


SLOTS = {'reg': 3, 'auth': 5}
DEFAULT = [b'raw-id', b'{"a":1}', b'\xa0auth', b'signature', b'handle']


# 1. values: lengths of every member, jointly; every content of two bytes

SMALL = [b'', b'\x00', b'\xff\xfe', b'\xfb\xef\xbe', b'abcd']


def value_cases():
    handles = SMALL + [None, 'null']
    for t in itertools.product(range(5), repeat=3):
        yield ('reg', ) + t, ['reg', [SMALL[i] for i in t] + [b'', None]]
    for t in itertools.product(range(5), repeat=4):
        for h in range(len(handles)):
            yield ('auth', ) + t + (h, ), [
                'auth', [SMALL[i] for i in t] + [handles[h]]
            ]


def run_value(ctx, case):
    kind, parts = case
    roundtrip(ctx, make(kind, parts))


LEN = sorted(set(range(0, 1100)) | {4095, 4096, 4097, 65535, 65536, 100001})


def length_cases():
    for kind in SLOTS:
        for s in range(SLOTS[kind]):
            for n in LEN:
                yield (kind, s, n), [kind, s, n]


def run_length(ctx, case):
    kind, s, n = case
    parts = list(DEFAULT)
    for mul in (1, 7, 255):
        parts[s] = bytes((i * mul + (i >> 8)) & 255 for i in range(n))
        roundtrip(ctx, make(kind, parts))


def byte_cases():
    for kind in SLOTS:
        for s in range(SLOTS[kind]):
            for a in range(256):
                yield (kind, s, a), [kind, s, a]


def run_byte(ctx, case):
    kind, s, a = case
    parts = list(DEFAULT)
    for t in [bytes([a])] + [bytes([a, x]) for x in range(256)] + [
            bytes([a, a, a]), b'\x00' + bytes([a]), bytes([a] * 7)
    ]:
        parts[s] = t
        roundtrip(ctx, make(kind, parts))


WORDS = ['', 'id', 'public-key', ' ', '\u00e9', '\U0001f600', '\ud800', '\x00',
         'x' * 5000, 'AAAA', 'a_b', 'rawId', '"', '\n', 'password', '0']


def word_cases():
    for kind in SLOTS:
        for i in range(len(WORDS)):
            for j in range(len(WORDS)):
                yield (kind, i, j), [kind, i, j]
        for a, i in ladder.cases(1100 if THOROUGH else 500, blobs=False):
            yield (kind, ) + a, [kind, 's'] + i


def run_word(ctx, case):
    if case[1] == 's':
        kind, _, how, i = case
        for t in ladder.texts(i) if how == 'text' else [
                ladder.sized_text(i), 'A' * i]:
            roundtrip(ctx, make(kind, DEFAULT, t))
            roundtrip(ctx, make(kind, DEFAULT, 'id', t))
        return
    kind, i, j = case
    roundtrip(ctx, make(kind, DEFAULT, WORDS[i], WORDS[j]))


# 2. malformed

DROP = '<drop>'
JUNK = [
    DROP, None, True, False, 0, 1, 1.5, '', 'AAAA', 'AA==', 'AAA=', 'A',
    'AA', 'AAA', 'AAAAA', 'A=', 'A===', 'AA=', '=', '==', '====', 'AA==AA==',
    'AAAA=', 'AAAA==', 'AAAA====', '=AAA', 'A=AA', '-_-_', 'AA--', '++//',
    'AA\nAA', ' AAAA', 'AAAA ', 'AAAA\n', 'AA!A', 'AAAA!', '\u00e9AAA',
    '\uff21AAA', '\ud800', '\x00AAA', 'AB==', 'AAB=', b'', b'AAAA', [], ['AAAA'],
    {}, {'a': 'AAAA'}, {'clientDataJSON': 'AAAA'}, 'data:AAAA', '%41AAA',
    'AAAA,', "AAAA'"
]
TOPS = ['id', 'rawId', 'response', 'type', 'Id', 'rawid', 'raw_id', '',
        'clientExtensionResults', 'authenticatorAttachment']
INNERS = ['clientDataJSON', 'attestationObject', 'authenticatorData',
          'signature', 'userHandle', 'clientDataJson', 'client_data_JSON',
          'user_handle', 'transports', '']


def junk_cases():
    fields = TOPS + ['.' + x for x in INNERS]
    for kind in SLOTS:
        for f in range(len(fields)):
            for i in range(len(JUNK)):
                yield (kind, f, i), [kind, f, i, None, None]
        for f, g in itertools.combinations(range(len(fields)), 2):
            for i in range(len(JUNK)):
                for j in range(len(JUNK)):
                    yield (kind, f, i, g, j), [kind, f, i, g, j]


def run_junk(ctx, case):
    fields = TOPS + ['.' + x for x in INNERS]
    kind, f, i, g, j = case
    d = make(kind, DEFAULT)
    inner = d['response']
    for k, x in ((f, i), (g, j)):
        if k is None:
            continue
        name = fields[k]
        m = d
        if name.startswith('.'):
            m, name = inner, name[1:]
        if type(JUNK[x]) is str and JUNK[x] == DROP:
            m.pop(name, None)
        else:
            m[name] = JUNK[x]
    check(ctx, d)


def subset_cases():
    names = ['clientDataJSON', 'attestationObject', 'authenticatorData',
             'signature', 'userHandle', 'x']
    for n in range(len(names) + 1):
        for s in itertools.combinations(names, n):
            for m in range(5):
                for t in itertools.combinations(
                    ['id', 'rawId', 'response', 'type'], m):
                    for v in ('QUJD', None):
                        yield (s, t, v), [list(s), list(t), v]


def run_subset(ctx, case):
    s, t, v = case
    d = {'id': 'i', 'rawId': 'QUJD', 'type': 'public-key',
         'response': {n: ('QUJD' if i < len(s) - 1 else v)
                      for i, n in enumerate(s)}}
    check(ctx, {k: d[k] for k in t})


def top_cases():
    for i in range(len(JUNK)):
        yield ('top', i), [i]


def run_top(ctx, case):
    i, = case
    check(ctx, JUNK[i])
    check(ctx, [JUNK[i]])
    check(ctx, {'id': JUNK[i]})
    check(ctx, [make('reg', DEFAULT)])
    check(ctx, {'publicKey': make('reg', DEFAULT)})


# 3. every short base64 text

ALPHA = 'AQgw9+/-_=. \u00e9'


def text_cases():
    n = 5 if THOROUGH else 4
    for k in range(n + 1):
        for t in itertools.product(range(len(ALPHA)), repeat=max(0, k - 1)):
            if k == 0:
                yield ('', ), ['', False]
            else:
                p = ''.join(ALPHA[i] for i in t)
                yield (p, ), [p, True]


def run_text(ctx, case):
    p, more = case
    for s in [p + x for x in ALPHA] if more else ['']:
        for kind in SLOTS:
            d = make(kind, DEFAULT)
            for where in ('rawId', ) + tuple(d['response']):
                e = dict(d, response=dict(d['response']))
                if where == 'rawId':
                    e['rawId'] = s
                else:
                    e['response'][where] = s
                check(ctx, e)


BOUNDS = (
    'round trips of both kinds: every combination of {} byte strings over all '
    'members (and an absent or null handle); {} lengths and every 1- and '
    '2-byte content of each member; {} x {} ids and types, and every code point below U+0300, {} more and '
    'every length below {} in either. Malformed: each '
    'one or two of {} members (own, of the other kind, misspelt, unknown) '
    'replaced by each of {} values or dropped; every set of members; every '
    'text of at most {} of {} characters as each base64 member').format(
        len(SMALL), len(LEN), len(WORDS), len(WORDS),
        len(ladder.POINTS) - 0x300, 1100 if THOROUGH else 500,
        len(TOPS) + len(INNERS), len(JUNK), 5 if THOROUGH else 4, len(ALPHA))
ASSUMPTIONS = [
    'base64 whose unused bits are not zero, or with more padding than needed, '
    'may be accepted (as the bytes it spells) or refused',
]


def spaces():
    return [
        FnSpace('values', BOUNDS, value_cases, run_value),
        FnSpace('lengths', BOUNDS, length_cases, run_length),
        FnSpace('bytes', BOUNDS, byte_cases, run_byte),
        FnSpace('names', BOUNDS, word_cases, run_word),
        FnSpace('members', BOUNDS, junk_cases, run_junk),
        FnSpace('member-sets', BOUNDS, subset_cases, run_subset),
        FnSpace('top', BOUNDS, top_cases, run_top),
        FnSpace('texts', BOUNDS, text_cases, run_text),
    ]
