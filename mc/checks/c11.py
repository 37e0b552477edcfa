"""C11: attestation objects and statements."""
import itertools

import cbor2

from mc import ladder
from mc import ref
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import errors as E
from webauthn_rp import parsers as P

DROP = '<drop>'
AD = w.auth_data(w.sha256(b'example.org'), w.UP | w.AT, 9,
                 w.attested_data(bytes(range(16)), b'id',
                                 w.cose_map('P256', 'a')))

GOOD = {
    'alg': [-7, -35, -36, -8, 'ES256', 'ES384', 'ES512', 'EdDSA'],
    'sig': [b'', b'\x00', b'signature'],
    'x5c': [[], [b''], [b'cert'], [b'a', b'', b'c']],
    'ecdaaKeyId': [b'', b'key'],
    'ver': ['', '2.0'],
    'certInfo': [b'', b'info'],
    'pubArea': [b'', b'area'],
    'response': [b'', b'resp'],
}
FIELDS = sorted(GOOD)
#: values put in place of a field
JUNK = [
    DROP, None, True, False, 0, 1, -7, -8, -257, -9, 7, 2**64, 1.5, '', 'ES256',
    'es256', 'RS256', 'EdDSA', '2.0', b'', b'x', [], [b''], [b'x', None],
    [b'x', 'y'], [[b'x']], ['x'], [0], {}, {'x': b'y'}, [b'x', 1]
]
EXTRA = ['zz', '', 'Alg', 'sig ', 'X5C', 'ecdaaKeyID', 0, 1, -7, b'sig']
FMTS = list(ref.FORMATS)
VARIANTS = [(f, i) for f in FMTS for i in range(len(ref.FORMATS[f]))]


def good_map(fmt, i):
    return {f: GOOD[f][-1] if f != 'alg' else -7
            for f in ref.FORMATS[fmt][i][1]}


DIRECT = {
    'packed': P.parse_packed_attestation_statement,
    'tpm': P.parse_tpm_attestation_statement,
    'android-key': P.parse_android_key_attestation_statement,
    'android-safetynet': P.parse_android_safetynet_attestation_statement,
    'fido-u2f': P.parse_fido_u2f_attestation_statement,
    'none': P.parse_none_attestation_statement,
}


def check(ctx, fmt, stmt, ad=AD, direct=False, top=None):
    top = {'fmt': fmt, 'attStmt': stmt, 'authData': ad} if top is None else top
    b = cbor2.dumps(top)
    status, want, m = ref.att_obj(b)
    what = lambda: 'the attestation object {!r}'.format(top)
    got = ref.compare(ctx, P.parse_attestation_object, b, status, want, what,
                      (E.ValidationError, ), pick=lambda r: r[0])
    if got is not None:
        if len(got) != 2:
            raise Violation('result of {} elements'.format(len(got)))
        if w.view(got[1]) != w.view(m):
            raise Violation('raw object {!r}, expected {!r}'.format(
                got[1], m))
    if direct:
        s2, v2 = ref.statement(fmt, stmt)
        before = w.view(stmt)
        ref.compare(ctx, DIRECT[fmt], stmt, s2, v2,
                    lambda: '{} statement {!r}'.format(fmt, stmt))
        if w.view(stmt) != before:
            raise Violation('parsing changed the statement map')
    return status


# 1. well-formed statements: full product of field values


def good_cases():
    for fmt, i in VARIANTS:
        fields = ref.FORMATS[fmt][i][1]
        for t in itertools.product(*[range(len(GOOD[f])) for f in fields]):
            yield (fmt, i) + t, [fmt, i, list(t)]


def run_good(ctx, case):
    fmt, i, t = case
    cls, fields = ref.FORMATS[fmt][i]
    stmt = {f: GOOD[f][k] for f, k in zip(fields, t)}
    if check(ctx, fmt, stmt, direct=True) != 'ok':
        raise Violation('reference refuses {!r}'.format(stmt))
    # the order of the members does not matter
    check(ctx, fmt, dict(reversed(list(stmt.items()))), direct=True)
    check(ctx, fmt, None, top=dict([('authData', AD), ('attStmt', stmt),
                                    ('fmt', fmt)]))


# 2. every set of fields under every format


def subset_cases():
    for fmt in FMTS:
        for n in range(len(FIELDS) + 1):
            for s in itertools.combinations(FIELDS, n):
                yield (fmt, s), [fmt, list(s)]


def run_subset(ctx, case):
    fmt, s = case
    for alg in (-7, 'ES256'):
        check(ctx, fmt, {f: alg if f == 'alg' else GOOD[f][-1] for f in s},
              direct=True)


# 3. one or two fields replaced, and additional fields


def junk_cases():
    for v in range(len(VARIANTS)):
        fmt, i = VARIANTS[v]
        own = list(ref.FORMATS[fmt][i][1])
        keys = own + [f for f in FIELDS if f not in own] + EXTRA
        for k in range(len(keys)):
            for j in range(len(JUNK)):
                yield (v, k, j), [v, k, j, None, None]
        lim = range(len(keys)) if THOROUGH else range(len(own))
        for k1 in lim:
            for k2 in range(k1 + 1, len(keys)):
                for j1 in range(len(JUNK)):
                    for j2 in range(len(JUNK)):
                        yield (v, k1, j1, k2, j2), [v, k1, j1, k2, j2]


def run_junk(ctx, case):
    v, k1, j1, k2, j2 = case
    fmt, i = VARIANTS[v]
    own = list(ref.FORMATS[fmt][i][1])
    keys = own + [f for f in FIELDS if f not in own] + EXTRA
    m = good_map(fmt, i)
    for k, j in ((k1, j1), (k2, j2)):
        if k is None:
            continue
        if type(JUNK[j]) is str and JUNK[j] == DROP:
            m.pop(keys[k], None)
        else:
            m[keys[k]] = JUNK[j]
    check(ctx, fmt, m, direct=True)


# 4. the object around the statement

FMT_TEXTS = FMTS + [
    '', ' ', 'None', 'NONE', 'Packed', 'packed ', ' packed', 'packed\x00',
    'apple', 'fido_u2f', 'fido-u2F', 'android_key', 'android-keys',
    'android', 'android-safetyne', 'tp', 'tpm2', 'PACKED', 'TPM',
    'FIDO_U2F', 'ANDROID_KEY', 'mro', '__class__', 'name'
]
TOP = {
    'fmt': [DROP, None, 0, True, b'none', ['none'], {}, 1.0],
    'attStmt': [DROP, None, 0, False, '', b'', [], [{}], 'none', {'a': 1},
                {1: 2}],
    'authData': [DROP, None, 0, '', b'', [], {}, AD[:-1], AD[:37],
                 AD + b'\x00', AD.hex(), [AD],
                 w.auth_data(AD[:32], w.UP, 9),
                 w.auth_data(AD[:32], w.UP | w.ED, 9, b'',
                             cbor2.dumps({'appid': True}))],
}


def fmt_cases():
    for i in range(len(FMT_TEXTS)):
        for v in range(len(VARIANTS)):
            yield (i, v), [i, v]


def run_fmt(ctx, case):
    i, v = case
    m = good_map(*VARIANTS[v])
    check(ctx, FMT_TEXTS[i], m)


def top_cases():
    for v in range(len(VARIANTS)):
        for a in [None] + list(range(len(TOP['fmt']))):
            for b in [None] + list(range(len(TOP['attStmt']))):
                for c in [None] + list(range(len(TOP['authData']))):
                    for extra in range(4):
                        yield (v, a, b, c, extra), [v, a, b, c, extra]


def run_top(ctx, case):
    v, a, b, c, extra = case
    fmt, i = VARIANTS[v]
    top = {'fmt': fmt, 'attStmt': good_map(fmt, i), 'authData': AD}
    for k, x in (('fmt', a), ('attStmt', b), ('authData', c)):
        if x is None:
            continue
        val = TOP[k][x]
        if type(val) is str and val == DROP:
            del top[k]
        else:
            top[k] = val
    if extra == 1:
        top['epAtt'] = True
    elif extra == 2:
        top[''] = None
    elif extra == 3:
        top[1] = 2
    check(ctx, None, None, top=top)


def other_cases():
    for a in range(256):
        yield (a, ), [a]


def run_other(ctx, case):
    a, = case
    for t in [bytes([a])] + [bytes([a, x]) for x in range(256)]:
        status, want, m = ref.att_obj(t)
        ref.compare(ctx, P.parse_attestation_object, t, status, want,
                    lambda: 'the bytes {}'.format(t.hex()),
                    pick=lambda r: r[0])


# 5. every byte of the encoded objects


def byte_cases():
    for v in range(len(VARIANTS)):
        n = len(encoded(v))
        for p in range(n):
            yield (v, p), [v, p]


def encoded(v):
    fmt, i = VARIANTS[v]
    return cbor2.dumps({'fmt': fmt, 'attStmt': good_map(fmt, i),
                        'authData': AD})


def run_byte(ctx, case):
    v, p = case
    b = encoded(v)
    tries = [b[:p] + bytes([x]) + b[p + 1:] for x in range(256)]
    tries += [b[:p], b[:p] + b[p + 1:], b[:p] + b[p:p + 1] * 2 + b[p + 1:]]
    for t in tries:
        status, want, m = ref.att_obj(t)
        if p == 0 or len(t) != len(b):
            # what follows a complete first item is not the object's business
            status = 'open' if status == 'ok' else status
        ref.compare(ctx, P.parse_attestation_object, t, status, want,
                    lambda: 'the bytes {}'.format(t.hex()),
                    (E.ValidationError, ), pick=lambda r: r[0])


# 6. scales

COUNTS = list(range(34)) + [63, 64, 65, 127, 128, 129, 255, 256, 257]


def scale_cases():
    for a, i in ladder.cases(520 if THOROUGH else 280):
        yield a, i
    for n in COUNTS:
        yield ('count', n), ['count', n]
    for n in (1023, 1024, 1025, 4095, 4096, 65535, 65536):
        yield ('length', n), ['length', n]


def run_scale(ctx, case):
    what, i = case
    if what == 'text':
        tries = list(ladder.texts(i))
        for t in tries:
            # a format name is not to be cleaned up either
            for x in (t, t + 'none', 'none' + t, 'no' + t + 'ne',
                      'packed' + t, t + 'tpm'):
                check(ctx, x, {})
                check(ctx, x, good_map('packed', 0))
    elif what == 'byte':
        tries = list(ladder.blobs(i))
    elif what == 'length':
        tries = [ladder.sized_blob(i), ladder.sized_text(i)]
    else:
        tries = []
    for v in range(len(VARIANTS)):
        fmt, j = VARIANTS[v]
        for f in ref.FORMATS[fmt][j][1]:
            m = good_map(fmt, j)
            if f == 'x5c':
                if what == 'count':
                    lists = [[ladder.sized_blob(9, k) for k in range(i)],
                             [b'same'] * i, [b''] * i]
                else:
                    lists = [[t] for t in tries] + [tries, tries[::-1]]
                for x in lists:
                    check(ctx, fmt, dict(m, x5c=x), direct=True)
                continue
            for t in tries:
                # also where the other kind of value belongs
                check(ctx, fmt, dict(m, **{f: t}), direct=True)
        for t in tries:
            if type(t) is str:
                check(ctx, fmt, dict(good_map(fmt, j), **{t: b'x'}),
                      direct=True)


BOUNDS = (
    'every combination of {} well-formed values of the fields of the {} '
    'statement variants; every one of the 2^{} sets of known fields under '
    'each of {} formats; any one field (own, foreign or unknown) or two '
    'fields ({}) replaced by each of {} values; {} format texts with every '
    'variant; format, statement and authenticator data each missing or '
    'replaced, in every combination, with additional members; every value of '
    'every byte of an object of every variant; all byte strings of 1 or 2 '
    'bytes').format(sum(len(v) for v in GOOD.values()), len(VARIANTS),
                    len(FIELDS), len(FMTS),
                    'any two' if THOROUGH else 'one of them its own',
                    len(JUNK), len(FMT_TEXTS))
ASSUMPTIONS = [
    'cbor2 decodes CBOR correctly; additional members of the attestation '
    'object itself (beside the statement) and bytes after it may be accepted '
    'or refused',
]


def spaces():
    return [
        FnSpace('well-formed', BOUNDS, good_cases, run_good),
        FnSpace('field-sets', BOUNDS, subset_cases, run_subset),
        FnSpace('fields', BOUNDS, junk_cases, run_junk),
        FnSpace('formats', BOUNDS, fmt_cases, run_fmt),
        FnSpace('objects', BOUNDS, top_cases, run_top),
        FnSpace('bytes', BOUNDS, byte_cases, run_byte),
        FnSpace('short', BOUNDS, other_cases, run_other),
        FnSpace('scales', 'every byte and code point in {} surroundings and '
                'every length in every field, up to {} certificates'.format(
                    len(ladder.AROUND), max(COUNTS)), scale_cases, run_scale),
    ]
