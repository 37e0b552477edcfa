"""C15: options as JSON."""
import base64
import itertools
import json

from mc import ladder
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.builders import (CredentialCreationOptionsBuilder,
                                  CredentialRequestOptionsBuilder)
from webauthn_rp.converters import jsonify

# --------------------------------------------------------------------------
# A configuration is a tree of plain values.  Two independent readings: the
# library's option objects, and the JSON the WebAuthn dictionaries prescribe.

#: dictionary -> (constructor, {member: (argument, kind)})
TABLE = {
    'rp': (T.PublicKeyCredentialRpEntity, {
        'name': ('name', 'plain'),
        'icon': ('icon', 'plain'),
        'id': ('id', 'plain'),
    }),
    'user': (T.PublicKeyCredentialUserEntity, {
        'name': ('name', 'plain'),
        'icon': ('icon', 'plain'),
        'id': ('id', 'bytes'),
        'displayName': ('display_name', 'plain'),
    }),
    'param': (T.PublicKeyCredentialParameters, {
        'type': ('type', 'enum'),
        'alg': ('alg', 'enum'),
    }),
    'descriptor': (T.PublicKeyCredentialDescriptor, {
        'type': ('type', 'enum'),
        'id': ('id', 'bytes'),
        'transports': ('transports', 'enums'),
    }),
    'selection': (T.AuthenticatorSelectionCriteria, {
        'authenticatorAttachment': ('authenticator_attachment', 'enum'),
        'requireResidentKey': ('require_resident_key', 'plain'),
        'userVerification': ('user_verification', 'enum'),
    }),
    'generic': (T.TxAuthGenericArg, {
        'contentType': ('content_type', 'plain'),
        'content': ('content', 'bytes'),
    }),
    'bounds': (T.AuthenticatorBiometricPerfBounds, {
        'FAR': ('FAR', 'plain'),
        'FRR': ('FRR', 'plain'),
    }),
    'extensions': (T.AuthenticationExtensionsClientInputs, {
        'appid': ('appid', 'plain'),
        'txAuthSimple': ('tx_auth_simple', 'plain'),
        'txAuthGeneric': ('tx_auth_generic', 'generic'),
        'authnSel': ('authn_sel', 'list-bytes'),
        'exts': ('exts', 'plain'),
        'uvi': ('uvi', 'plain'),
        'loc': ('loc', 'plain'),
        'uvm': ('uvm', 'plain'),
        'biometricPerfBounds': ('biometric_perf_bounds', 'bounds'),
    }),
    'create-pk': (T.PublicKeyCredentialCreationOptions, {
        'rp': ('rp', 'rp'),
        'user': ('user', 'user'),
        'challenge': ('challenge', 'bytes'),
        'pubKeyCredParams': ('pub_key_cred_params', 'list-param'),
        'timeout': ('timeout', 'plain'),
        'excludeCredentials': ('exclude_credentials', 'list-descriptor'),
        'authenticatorSelection': ('authenticator_selection', 'selection'),
        'attestation': ('attestation', 'enum'),
        'extensions': ('extensions', 'extensions'),
    }),
    'create': (T.CredentialCreationOptions, {
        'publicKey': ('public_key', 'create-pk'),
    }),
    'request-pk': (T.PublicKeyCredentialRequestOptions, {
        'challenge': ('challenge', 'bytes'),
        'timeout': ('timeout', 'plain'),
        'rpId': ('rp_id', 'plain'),
        'allowCredentials': ('allow_credentials', 'list-descriptor'),
        'userVerification': ('user_verification', 'enum'),
        'extensions': ('extensions', 'extensions'),
    }),
    'request': (T.CredentialRequestOptions, {
        'mediation': ('mediation', 'enum'),
        'publicKey': ('public_key', 'request-pk'),
    }),
}

#: standard value -> member, per enumeration
V = T.COSEAlgorithmIdentifier.Value
ENUMS = {
    'public-key': T.PublicKeyCredentialType.PUBLIC_KEY,
    -7: V.ES256,
    -35: V.ES384,
    -36: V.ES512,
    -8: V.EDDSA,
    'usb': T.AuthenticatorTransport.USB,
    'nfc': T.AuthenticatorTransport.NFC,
    'ble': T.AuthenticatorTransport.BLE,
    'internal': T.AuthenticatorTransport.INTERNAL,
    'platform': T.AuthenticatorAttachment.PLATFORM,
    'cross-platform': T.AuthenticatorAttachment.CROSS_PLATFORM,
    'required': T.UserVerificationRequirement.REQUIRED,
    'preferred': T.UserVerificationRequirement.PREFERRED,
    'discouraged': T.UserVerificationRequirement.DISCOURAGED,
    'none': T.AttestationConveyancePreference.NONE,
    'indirect': T.AttestationConveyancePreference.INDIRECT,
    'direct': T.AttestationConveyancePreference.DIRECT,
    'silent': T.CredentialMediationRequirement.SILENT,
    'optional': T.CredentialMediationRequirement.OPTIONAL,
}
MEDIATION = dict(
    ENUMS, required=T.CredentialMediationRequirement.REQUIRED)

UNSET = None  # a member that is not in the tree is not passed at all


def obj(kind, v, member=None, seq=list):
    if v is None:
        return None
    if kind in ('plain', 'bytes'):
        return v
    if kind == 'enum':
        return (MEDIATION if member == 'mediation' else ENUMS)[v]
    if kind == 'enums':
        return seq(ENUMS[x] for x in v)
    if kind.startswith('list-'):
        return seq(obj(kind[5:], x, seq=seq) for x in v)
    cls, fields = TABLE[kind]
    return cls(**{fields[n][0]: obj(fields[n][1], x, n, seq)
                  for n, x in v.items()})


#: what is configured when a member is left to its default
DEFAULTS = {
    'selection': {'requireResidentKey': False, 'userVerification': 'preferred'},
    'create-pk': {'attestation': 'none'},
    'request-pk': {'userVerification': 'preferred'},
}


def expect(kind, v, convert=True):
    if kind in ('plain', 'enum'):
        return v
    if kind == 'bytes':
        return base64.b64encode(v).decode()
    if kind == 'enums':
        return list(v)
    if kind.startswith('list-'):
        return [expect(kind[5:], x, convert) for x in v]
    fields = TABLE[kind][1]
    full = dict(DEFAULTS.get(kind, {}))
    full.update(v)
    return {n if convert else fields[n][0]: expect(fields[n][1], x, convert)
            for n, x in full.items() if x is not None}


def decode_back(kind, v, j):
    """The byte strings, decoded from the JSON."""
    if v is None:
        return
    if kind == 'bytes':
        if base64.b64decode(j, validate=True) != v:
            raise Violation('{!r} does not decode to {!r}'.format(j, v))
    elif kind.startswith('list-'):
        for x, y in zip(v, j):
            decode_back(kind[5:], x, y)
    elif kind in TABLE:
        for n, x in v.items():
            if x is not None:
                decode_back(TABLE[kind][1][n][1], x, j[n])


def poison(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            poison(v)
        x['poison'] = 1
    elif isinstance(x, list):
        for v in x:
            poison(v)
        x.append('poison')


def check(ctx, kind, tree, seq=list, o=None):
    if o is None:
        o = obj(kind, tree, seq=seq)
    before = w.view(o)
    ctx.step()
    out = jsonify(o)
    want = expect(kind, tree)
    if w.view(out) != w.view(want) or type(out) is not dict:
        raise Violation('{!r} became {!r}, expected {!r}'.format(
            tree, out, want))
    plain = jsonify(o, False)
    want_plain = expect(kind, tree, False)
    if w.view(plain) != w.view(want_plain) or type(plain) is not dict:
        raise Violation('{!r} became {!r} without converting the names, '
                        'expected {!r}'.format(tree, plain, want_plain))
    if w.view(o) != before:
        raise Violation('the options were changed: {!r}'.format(tree))
    text = json.dumps(out)
    if w.view(json.loads(text)) != w.view(want):
        raise Violation('{!r} became {}'.format(tree, text))
    decode_back(kind, tree, out)
    poison(out)
    if w.view(o) != before:
        raise Violation('the JSON shares values with the options')
    ctx.step()
    if w.view(jsonify(o)) != w.view(want):
        raise Violation('the second conversion of {!r} differs'.format(tree))
    ctx.outcome('equal')


# --------------------------------------------------------------------------
# Alphabets

PK = 'public-key'
DROP = '<drop>'
TEXT = ['', 'a', '\u00e9', '\U0001f600', '"', 'a_b', 'null']
BYTES = [b'', b'\x00', b'\xfb\xff\xfe', bytes(range(256))]
DESC = [
    {'type': PK, 'id': b'\x00'},
    {'type': PK, 'id': b'', 'transports': []},
    {'type': PK, 'id': b'\xff' * 40, 'transports': ['usb', 'internal']},
    {'type': PK, 'id': b'x', 'transports': None},
]
SELECTIONS = [
    dict(x for x in zip(('authenticatorAttachment', 'requireResidentKey',
                         'userVerification'), t) if x[1] != DROP)
    for t in itertools.product((DROP, None, 'platform', 'cross-platform'),
                               (DROP, True, False),
                               (DROP, 'required', 'preferred', 'discouraged'))
]
EXT = {
    'appid': ['', 'https://example.org'],
    'txAuthSimple': ['', 'prompt'],
    'txAuthGeneric': [{'contentType': '', 'content': b''},
                      {'contentType': 'image/png', 'content': b'\xff\xfe'}],
    'authnSel': [[], [b'', b'\x00' * 16, b'\xff' * 16]],
    'exts': [False, True],
    'uvi': [False, True],
    'loc': [False, True],
    'uvm': [False, True],
    'biometricPerfBounds': [{'FAR': 0.0, 'FRR': 0}, {'FAR': 0.01, 'FRR': 1}],
}
TIMEOUTS = [None, 0, 1, 60000, 2**32 - 1, 2**53]
BASE_CREATE = {
    'rp': {'name': 'Example', 'id': 'example.org'},
    'user': {'name': 'alice', 'id': b'u', 'displayName': 'Alice'},
    'challenge': b'challenge',
    'pubKeyCredParams': [{'type': PK, 'alg': -7}],
}
FULL_CREATE = {
    'rp': {'name': 'Example', 'icon': 'https://example.org/i',
           'id': 'example.org'},
    'user': {'name': 'alice', 'icon': 'data:', 'id': b'\x00u',
             'displayName': 'Alice A'},
    'challenge': b'\xfb\xff\xfe',
    'pubKeyCredParams': [{'type': PK, 'alg': -8}, {'type': PK, 'alg': -7}],
    'timeout': 60000,
    'excludeCredentials': DESC[:3],
    'authenticatorSelection': {'authenticatorAttachment': 'platform',
                               'requireResidentKey': True,
                               'userVerification': 'required'},
    'attestation': 'direct',
    'extensions': {n: v[1] for n, v in EXT.items()},
}
BASE_REQUEST = {'challenge': b'challenge'}
FULL_REQUEST = {
    'challenge': b'\xfb\xff\xfe',
    'timeout': 60000,
    'rpId': 'example.org',
    'allowCredentials': DESC[:3],
    'userVerification': 'required',
    'extensions': {n: v[1] for n, v in EXT.items()},
}
ENTITY = [DROP, None, '', 'text']
RPS = [dict(x for x in zip(('name', 'icon', 'id'), t) if x[1] != DROP)
       for t in itertools.product(TEXT, ENTITY, TEXT)]
USERS = [dict(x for x in zip(('name', 'icon', 'id', 'displayName'), t)
              if x[1] != DROP)
         for t in itertools.product(TEXT[:3], ENTITY, BYTES, TEXT[:3])]
PARAMS = [{'type': PK, 'alg': a} for a in (-7, -35, -36, -8)]
EXTS = [None, {}, {n: None for n in EXT}, {n: v[0] for n, v in EXT.items()},
        {n: v[1] for n, v in EXT.items()}] + [
            {n: x} for n, v in EXT.items() for x in v]
LISTS = [None, [], DESC, DESC[::-1], DESC[:1] * 3]
CREATE_DIMS = {
    'rp': RPS[::29] + RPS[:1],
    'user': USERS[::11],
    'challenge': BYTES,
    'pubKeyCredParams': [[], PARAMS, PARAMS[::-1], PARAMS[1:2] * 2],
    'timeout': [DROP] + TIMEOUTS,
    'excludeCredentials': [DROP] + LISTS,
    'authenticatorSelection': [DROP, None] + SELECTIONS[::5],
    'attestation': [DROP, 'none', 'indirect', 'direct'],
    'extensions': [DROP] + EXTS,
}
REQUEST_DIMS = {
    'challenge': BYTES,
    'timeout': [DROP] + TIMEOUTS,
    'rpId': [DROP, None, '', 'example.org', '\u00e9'],
    'allowCredentials': [DROP] + LISTS,
    'userVerification': [DROP, None, 'required', 'preferred', 'discouraged'],
    'extensions': [DROP] + EXTS,
}
SIDES = {
    'create': (CREATE_DIMS, BASE_CREATE, FULL_CREATE),
    'request': (REQUEST_DIMS, BASE_REQUEST, FULL_REQUEST),
}
MEDIATIONS = ['silent', 'optional', 'required']


def tree_of(side, base, devs, med=0):
    t = dict(SIDES[side][1 + base])
    for n, v in devs.items():
        if v == DROP:
            t.pop(n, None)
        else:
            t[n] = v
    if side == 'create':
        return {'publicKey': t}
    return {'mediation': MEDIATIONS[med], 'publicKey': t}


# 1. combinations of members

def combo_cases():
    for side in SIDES:
        dims = SIDES[side][0]
        for base in (0, 1):
            kmax = 3 if base or THOROUGH or side == 'request' else 2
            if THOROUGH and side == 'request':
                kmax = 4
            for k in range(kmax + 1):
                for combo in itertools.combinations(sorted(dims), k):
                    if not combo:
                        yield (side, base), [side, base, [], []]
                        continue
                    sizes = [range(len(dims[d])) for d in combo[:-1]]
                    for idx in itertools.product(*sizes):
                        yield (side, base, combo, idx), [
                            side, base, list(combo), list(idx)]


def run_combo(ctx, case):
    side, base, combo, idx = case
    dims = SIDES[side][0]
    devs = {d: dims[d][i] for d, i in zip(combo, idx)}
    if not combo:
        check(ctx, side, tree_of(side, base, devs))
        return
    for v in dims[combo[-1]]:
        devs[combo[-1]] = v
        check(ctx, side, tree_of(side, base, devs))


# 2. every subset of all optional members

def nested_optional(side):
    top = {'create': ['timeout', 'excludeCredentials',
                      'authenticatorSelection', 'attestation', 'extensions'],
           'request': ['timeout', 'rpId', 'allowCredentials',
                       'userVerification', 'extensions']}[side]
    nested = {'create': [('rp', 'icon'), ('user', 'icon')],
              'request': []}[side]
    return top, nested


def subset_cases():
    for side in SIDES:
        top, nested = nested_optional(side)
        n = len(top) + len(nested)
        for t in itertools.product(range(3), repeat=n):
            yield (side, ) + t, [side, list(t)]


def run_subset(ctx, case):
    side, t = case
    top, nested = nested_optional(side)
    for med in range(3 if side == 'request' else 1):
        for seq in (list, tuple):
            tree = tree_of(side, 1, {}, med)
            pk = {k: dict(v) if isinstance(v, dict) else v
                  for k, v in tree['publicKey'].items()}
            for l, n in zip(t, top):
                if l == 0 or (l == 1 and n == 'attestation'):
                    del pk[n]
                elif l == 1:
                    pk[n] = None
            for l, (a, b) in zip(t[len(top):], nested):
                if l == 0:
                    del pk[a][b]
                elif l == 1:
                    pk[a][b] = None
            tree['publicKey'] = pk
            check(ctx, side, tree, seq)


# 3. dictionaries on their own

def dict_cases():
    for i in range(len(RPS)):
        yield ('rp', i), ['rp', i]
    for i in range(len(USERS)):
        yield ('user', i), ['user', i]
    for i in range(len(SELECTIONS)):
        yield ('selection', i), ['selection', i]


def run_dict(ctx, case):
    kind, i = case
    v = {'rp': RPS, 'user': USERS, 'selection': SELECTIONS}[kind][i]
    name = 'authenticatorSelection' if kind == 'selection' else kind
    check(ctx, kind, v)
    for base in (0, 1):
        check(ctx, 'create', tree_of('create', base, {name: v}))


# 4. extension inputs

def ext_cases():
    for t in itertools.product(range(3), repeat=len(EXT)):
        yield t, list(t)


def run_ext(ctx, case):
    ext = {n: v[l - 1] for (n, v), l in zip(EXT.items(), case) if l}
    for side in SIDES:
        check(ctx, side, tree_of(side, 0, {'extensions': ext}))


# 5. lists keep their order and length

def list_cases():
    k = 5 if THOROUGH else 4
    for n in range(k + 1):
        for t in itertools.product(range(4), repeat=n):
            yield ('params', t), ['params', list(t)]
            yield ('transports', t), ['transports', list(t)]
            yield ('descriptors', t), ['descriptors', list(t)]
            yield ('aaguids', t), ['aaguids', list(t)]


def run_list(ctx, case):
    kind, t = case
    tr = ['usb', 'nfc', 'ble', 'internal']
    for seq in (list, tuple):
        if kind == 'params':
            check(ctx, 'create', tree_of('create', 0, {
                'pubKeyCredParams': [PARAMS[i] for i in t]}), seq)
            continue
        if kind == 'aaguids':
            d = {'extensions': {'authnSel': [BYTES[i] for i in t]}}
            for side in SIDES:
                check(ctx, side, tree_of(side, 0, d), seq)
            continue
        if kind == 'transports':
            l = [{'type': PK, 'id': b'i', 'transports': [tr[i] for i in t]}]
        else:
            l = [DESC[i] for i in t]
        check(ctx, 'create', tree_of('create', 0, {'excludeCredentials': l}),
              seq)
        check(ctx, 'request', tree_of('request', 0, {'allowCredentials': l}),
              seq)


# 6. byte strings and texts everywhere

PLACES = {
    'create': [('challenge', ), ('user', 'id'), ('excludeCredentials', 1, 'id'),
               ('extensions', 'authnSel', 1),
               ('extensions', 'txAuthGeneric', 'content')],
    'request': [('challenge', ), ('allowCredentials', 1, 'id'),
                ('extensions', 'authnSel', 1),
                ('extensions', 'txAuthGeneric', 'content')],
}
TEXTS = {
    'create': [('rp', 'name'), ('rp', 'icon'), ('rp', 'id'), ('user', 'name'),
               ('user', 'icon'), ('user', 'displayName'),
               ('extensions', 'appid'), ('extensions', 'txAuthSimple'),
               ('extensions', 'txAuthGeneric', 'contentType')],
    'request': [('rpId', ), ('extensions', 'appid'),
                ('extensions', 'txAuthSimple'),
                ('extensions', 'txAuthGeneric', 'contentType')],
}
NUMBERS = {
    'create': [('timeout', ), ('extensions', 'biometricPerfBounds', 'FAR'),
               ('extensions', 'biometricPerfBounds', 'FRR')],
    'request': [('timeout', ), ('extensions', 'biometricPerfBounds', 'FAR'),
                ('extensions', 'biometricPerfBounds', 'FRR')],
}


def put(x, path, v):
    if not path:
        return v
    if isinstance(x, list):
        return [put(y, path[1:], v) if i == path[0] else y
                for i, y in enumerate(x)]
    return {k: put(y, path[1:], v) if k == path[0] else y
            for k, y in x.items()}


TEXT_WIDE = ['', ' ', 'a', 'A', '_', '__', 'a_b', 'aB', '\n', '\t', '\x00',
             '"', '\\', '/', '\u00e9', '\u2028', '\U0001f600', 'true', 'null',
             '0', 'AAAA', 'x' * 5000, 'https://example.org/?a=b&c_d=e#f',
             "'", '<script>', '\x7f', 'public-key', 'None']
NUM_WIDE = [0, 1, -1, 255, 65536, 2**31, 2**32, 2**53, 2**64, 0.0, -0.0, 0.5,
            1e-9, 1e300, 0.1]


def value_cases():
    for side in SIDES:
        for p in range(len(PLACES[side])):
            for a in range(256):
                yield (side, 'b', p, a), [side, 'b', p, a]
            for n in range(0, 1100 if THOROUGH else 300):
                yield (side, 'len', p, n), [side, 'len', p, n]
        for p in range(len(TEXTS[side])):
            for i in range(len(TEXT_WIDE)):
                yield (side, 't', p, i), [side, 't', p, i]
        for a, i in ladder.cases(700 if THOROUGH else 200, blobs=False):
            yield (side, ) + a, [side, i[0], None, i[1]]
        for p in range(len(NUMBERS[side])):
            for i in range(len(NUM_WIDE)):
                yield (side, 'n', p, i), [side, 'n', p, i]


def run_value(ctx, case):
    side, kind, p, i = case
    full = SIDES[side][2]
    if kind in ('b', 'len'):
        path = PLACES[side][p]
        if kind == 'b':
            vals = [bytes([i]), bytes([i, 255 - i]), bytes([0, i, i, i])]
        else:
            vals = [bytes((j * 7 + n) & 255 for j in range(i))
                    for n in (0, 251)]
    elif kind in ('text', 'length'):
        for v in ladder.texts(i) if kind == 'text' else [ladder.sized_text(i)]:
            pk = full
            for path in TEXTS[side]:
                pk = put(pk, path, v)
            check(ctx, side, tree_of(side, 0, pk))
        return
    elif kind == 't':
        path, vals = TEXTS[side][p], [TEXT_WIDE[i]]
    else:
        path, vals = NUMBERS[side][p], [NUM_WIDE[i]]
    for v in vals:
        pk = put(full, path, v)
        check(ctx, side, tree_of(side, 0, pk))


# 7. configured through the builders

BUILDERS = {'create': CredentialCreationOptionsBuilder,
            'request': CredentialRequestOptionsBuilder}
AT_BUILD = {'create': ('user', 'challenge'),
            'request': ('challenge', 'allowCredentials')}


def built_cases():
    for side in SIDES:
        dims = SIDES[side][0]
        for base in (0, 1):
            for k in range(4 if THOROUGH else 3):
                for combo in itertools.combinations(sorted(dims), k):
                    sizes = [range(len(dims[d])) for d in combo]
                    for idx in itertools.product(*sizes):
                        yield (side, base, combo, idx), [
                            side, base, list(combo), list(idx)]


def run_built(ctx, case):
    side, base, combo, idx = case
    dims = SIDES[side][0]
    tree = tree_of(side, base, {d: dims[d][i] for d, i in zip(combo, idx)},
                   len(idx))
    pk = tree['publicKey']
    fields = TABLE[side + '-pk'][1]
    given, last = {}, {}
    for n, v in list(pk.items()) + [(n, v) for n, v in tree.items()
                                    if n != 'publicKey']:
        arg, kind = fields.get(n, (n, 'enum'))
        (last if n in AT_BUILD[side] else given)[arg] = obj(kind, v, n)
    names = sorted(given)
    # a setting of None is passed where it is allowed
    for cut in sorted({0, len(names) // 2, len(names)}):
        for order in (1, -1):
            b = BUILDERS[side](**{n: given[n] for n in names[cut:]})
            for n in names[:cut][::order]:
                b = getattr(b, n)(given[n])
            ctx.step()
            check(ctx, side, tree, o=b.build(**last))


# 8. plain values

NAMES = ['a', 'a_b', 'ab_cd_ef', 'x5c', 'rp_id', 'already', 'aB']
CAMEL = ['a', 'aB', 'abCdEf', 'x5c', 'rpId', 'already', 'aB']
PLAIN = [(None, None), (True, True), (False, False), (0, 0), (-7, -7),
         (1.5, 1.5), ('', ''), ('a_b', 'a_b'), (b'', ''), (b'\xfb\xff', '+/8='),
         (T.AuthenticatorTransport.USB, 'usb'), (V.ES256, -7)]
#: no JSON value
NEITHER = [{1, 2}, frozenset(), 1j, bytearray(b'a'), memoryview(b'a'), range(2),
           object(), Ellipsis]
BADKEY = [{1: 'a'}, {b'a': 'a'}, {None: 'a'}, {True: 'a'}, {('a', ): 'a'},
          {'a': 1, 2: 'b'}]


def plain_values(depth):
    """(value, its JSON with the names converted, its JSON without)"""
    for v, j in PLAIN:
        yield v, j, j
    yield [], [], []
    yield (), [], []
    yield {}, {}, {}
    if depth == 0:
        return
    subs = list(plain_values(depth - 1))
    for k, (v, j, p) in enumerate(subs):
        for seq in (list, tuple):
            yield seq([v]), [j], [p]
        n = k % len(NAMES)
        yield ({NAMES[n]: v}, {} if v is None else {CAMEL[n]: j},
               {} if v is None else {NAMES[n]: p})
    for (v, j, p), (u, i, q) in itertools.product(subs, repeat=2):
        yield [v, u], [j, i], [p, q]
        full = [('rp_id', 'rpId', v, j, p), ('x5c', 'x5c', u, i, q)]
        yield ({n: x for n, _, x, _, _ in full},
               {m: y for _, m, x, y, _ in full if x is not None},
               {n: z for n, _, x, _, z in full if x is not None})


def plain_cases():
    for i, _ in enumerate(plain_values(1)):
        yield ('deep', i), [i]
    yield ('wrong', ), [-1]


TREES = []


def run_plain(ctx, case):
    i, = case
    if not TREES:
        TREES.extend(plain_values(1))
    if i >= 0:
        v, j, p = TREES[i]
        forms = [(v, j, p)] + [([u, v], [k, j], [q, p])
                               for u, k, q in TREES[:40]]
        for n in range(len(NAMES)):
            if v is not None:
                forms.append(({NAMES[n]: v}, {CAMEL[n]: j}, {NAMES[n]: p}))
                forms.append(({NAMES[n]: [None, v]}, {CAMEL[n]: [None, j]},
                              {NAMES[n]: [None, p]}))
        for v, j, p in forms:
            before = w.view(v)
            ctx.step(3)
            for got, want in ((jsonify(v), j), (jsonify(v, True), j),
                              (jsonify(v, False), p)):
                if w.view(got) != w.view(want):
                    raise Violation('{!r} became {!r}, expected {!r}'.format(
                        v, got, want))
            if w.view(v) != before:
                raise Violation('{!r} was changed'.format(v))
        return
    for bad, error in [(x, E.UnimplementedError) for x in NEITHER] + [
            (x, E.JSONConversionError) for x in BADKEY]:
        for x in (bad, [bad], (1, bad), {'a': bad}, [[bad]],
                  {'a': [{'b': bad}]}):
            for args in ((), (True, ), (False, )):
                ctx.step()
                try:
                    got = jsonify(x, *args)
                except error:
                    continue
                raise Violation('{!r} became {!r}'.format(x, got))


BOUNDS = (
    'creation and request options from the smallest and the fullest '
    'configuration with at most {} of their members changed to any value of their '
    'alphabet; every subset (absent, None, set) of all optional members with '
    'lists and tuples and each mediation; all {} rp, {} user and {} selection '
    'dictionaries; all 3^9 extension inputs (unset, falsy, truthy); every '
    'list of at most {} parameters, transports, descriptors and AAGUIDs over '
    '4 values; every byte value and length < {} of every byte string, {} '
    'texts, {} numbers; the same configured through the '
    'builders (constructor, setters in both orders, or half each) with at most '
    '{} changed members; every code point below U+0300, {} more and every '
    'length below {} in all texts; every tree of lists, tuples and dictionaries '
    'to depth 2 over {} plain values; each with and without converting the '
    'names').format(
        '3 (request: 4)' if THOROUGH else
        '3 (smallest creation: 2)', len(RPS), len(USERS),
        len(SELECTIONS), 5 if THOROUGH else 4, 1100 if THOROUGH else 300,
        len(TEXT_WIDE), len(NUM_WIDE), 3 if THOROUGH else 2,
        len(ladder.POINTS) - 0x300, 700 if THOROUGH else 200, len(PLAIN))
ASSUMPTIONS = [
    'algorithms are configured by number (COSEAlgorithmIdentifier.Value), as '
    'WebAuthn prescribes; what the textual form becomes is not claimed',
    'a member explicitly given as None counts as not set',
]


def spaces():
    return [
        FnSpace('plain', BOUNDS, plain_cases, run_plain),
        FnSpace('dictionaries', BOUNDS, dict_cases, run_dict),
        FnSpace('lists', BOUNDS, list_cases, run_list),
        FnSpace('values', BOUNDS, value_cases, run_value),
        FnSpace('subsets', BOUNDS, subset_cases, run_subset),
        FnSpace('extensions', BOUNDS, ext_cases, run_ext),
        FnSpace('combinations', BOUNDS, combo_cases, run_combo),
        FnSpace('built', BOUNDS, built_cases, run_built),
    ]
