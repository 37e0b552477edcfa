"""C21: results depend on the arguments only; nothing is modified.

Every call sequence runs in a process forked before the library was called
for the first time; each outcome is compared with that of the same call alone
in such a process, and pictures of all arguments and earlier results are
compared before and after every call."""
import copy
import enum
import functools
import itertools

import cbor2
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from mc import ceremony as c
from mc import sched
from mc import world as w
from mc.core import FnSpace, HarnessError, THOROUGH, Violation
from webauthn_rp import parsers as P
from webauthn_rp import types as T
from webauthn_rp import utils as U
from webauthn_rp.attesters import attest
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.builders import (CredentialCreationOptionsBuilder,
                                  CredentialRequestOptionsBuilder)
from webauthn_rp.converters import (cose_key, cryptography_public_key,
                                    jsonify)
from webauthn_rp.registrars import CredentialData
from webauthn_rp.validators import validate
from webauthn_rp.verifiers import verify

# --------------------------------------------------------------------------
# Operations: name -> (function, maker of a fresh argument list).  Making
# arguments only builds the library's data types.

OPS = {}
GROUP = {}


def op(group, name, fn, make):
    assert name not in OPS, name
    OPS[name] = (fn, make)
    GROUP.setdefault(group, []).append(name)


def const(*args):
    """Fresh copies of plain data."""
    return lambda: [copy.deepcopy(a) for a in args]


def picture(x):
    if isinstance(x, (list, tuple)):
        return ('seq', ) + tuple(picture(v) for v in x)
    if hasattr(x, 'public_bytes') and not hasattr(x, 'issuer'):
        try:
            return ('key', x.public_bytes(Encoding.DER,
                                          PublicFormat.SubjectPublicKeyInfo))
        except Exception:
            pass
    if isinstance(x, w.Recorder):
        return None
    if isinstance(x, (CredentialCreationOptionsBuilder,
                      CredentialRequestOptionsBuilder)):
        # what a builder builds is compared; its attributes are its own
        return ('builder', type(x).__name__)
    return w.view(x)


for i, o in enumerate(['https://a.org', 'https://a.org:443', 'HTTPS://A.org',
                       'https://a.org:444', 'http://a.org',
                       'https://a.org:444/x', 'a.org', 'https://A.org:x']):
    op('origin', 'origin%d' % i, P.parse_origin, const(o))

CD = w.client_data('webauthn.get', b'c21', 'https://example.org')
for i, b in enumerate([
        CD, w.client_data('webauthn.create', b'c21', 'https://example.org'),
        w.client_data('webauthn.get', b'c22', 'https://example.org'),
        w.client_data('webauthn.get', b'c21', 'https://example.net'),
        w.client_data('webauthn.get', b'c21', 'https://example.org',
                      c.TB_A),
        w.client_data('webauthn.get', b'c21', 'https://example.org',
                      {'status': 'supported'}),
        w.client_data('webauthn.get', b'c21', 'https://example.org',
                      {'status': 'present'}), CD[:-1], b'[]', b'\xff']):
    op('client-data', 'cd%d' % i, P.parse_client_data, const(b))

HASH = w.sha256(b'example.org')
ATT = w.attested_data(bytes(16), b'id', w.cose_map('P256', 'a'))
for i, b in enumerate([
        w.auth_data(HASH, 1, 5), w.auth_data(HASH, 5, 5),
        w.auth_data(HASH, 1, 6), w.auth_data(HASH, 65, 5, ATT),
        w.auth_data(HASH, 65, 5, w.attested_data(
            bytes(16), b'id', w.cose_map('P256', 'b'))),
        w.auth_data(HASH, 193, 5, ATT, cbor2.dumps({'appid': True})),
        w.auth_data(HASH, 129, 5, b'', cbor2.dumps({'appid': False})),
        w.auth_data(HASH, 129, 5, b'', cbor2.dumps({})),
        w.auth_data(HASH, 1, 5) + b'x', w.auth_data(HASH, 65, 5, ATT[:-1]),
        b'']):
    op('auth-data', 'ad%d' % i, P.parse_authenticator_data, const(b))


@functools.lru_cache(None)
def built(fmt, key, challenge=b'c21'):
    """(client data hash, auth data, attestation object, statement)"""
    cd, ad, ao, st = c.build_reg(dict(c.BASE_REG, fmt=fmt, key=key,
                                      exp_challenge=challenge))
    return w.sha256(cd), ad, ao, st


KA, KB = ('P256', 'a', None, 'value'), ('P256', 'b', None, 'value')
ED = ('ED25519', 'a', None, 'name')
OBJECTS = [('none', KA), ('none', KB), ('none', ED), ('u2f', KA), ('u2f', KB),
           ('u2f-sig', KA), ('u2f-two', KA), ('android', KA), ('android', ED),
           ('android-sig', KA), ('android-chain', KA), ('packed', KA),
           ('packed-x5c', KA), ('packed-ecdaa', KA), ('tpm', KA),
           ('tpm-x5c', KA), ('safetynet', KA), ('none-extra', KA),
           ('unknown', KA), ('stmt-list', KA)]
for i, (f, k) in enumerate(OBJECTS):
    op('object', 'ao%d' % i, P.parse_attestation_object,
       const(built(f, k)[2]))
op('object', 'ao-cut', P.parse_attestation_object,
   const(built('none', KA)[2][:-1]))

STATEMENT = {'packed': P.parse_packed_attestation_statement,
             'tpm': P.parse_tpm_attestation_statement,
             'android-key': P.parse_android_key_attestation_statement,
             'android-safetynet':
             P.parse_android_safetynet_attestation_statement,
             'fido-u2f': P.parse_fido_u2f_attestation_statement,
             'none': P.parse_none_attestation_statement}
for i, (f, k) in enumerate(OBJECTS):
    fmt, stmt = built(f, k)[3][:2]
    if fmt in STATEMENT and type(stmt) is dict:
        op('statement', 'st%d' % i, STATEMENT[fmt], const(stmt))
        if stmt:
            op('statement', 'st%d-less' % i, STATEMENT[fmt],
               const(dict(list(stmt.items())[1:])))

MAPS = [w.cose_map('P256', 'a'), w.cose_map('P256', 'b'),
        w.cose_map('P256', 'a', 'ES384'), w.cose_map('P256', 'a', None,
                                                     'name'),
        w.cose_map('P256', 'a', kid=b'k', key_ops=[2, 'sign'], base_iv=b'iv'),
        w.cose_map('P384', 'a'), w.cose_map('ED25519', 'a'),
        w.cose_map('ED448', 'a'), {1: 2}, {},
        dict(w.cose_map('P256', 'a'), **{}), ]
MAPS[-1][-1] = 9
for i, m in enumerate(MAPS):
    op('cose', 'map%d' % i, P.parse_cose_key, const(m))
    op('cose', 'bytes%d' % i, P.parse_cose_key, const(cbor2.dumps(m)))
op('cose', 'ec-map', P.parse_ec2_public_key, const(MAPS[0]))
op('cose', 'okp-map', P.parse_okp_public_key, const(MAPS[6]))

for i, m in enumerate([
    {}, {'appid': False}, {'appid': True}, {'txAuthGeneric': b''},
    {'appid': None}, {'appid': None, 'exts': None, 'uvm': [[]]},
    {'loc': {'latitude': None}}, {'loc': None},
    {'exts': ['a', 'b']}, {'exts': []}, {'uvm': [[1, 2, 3]]}, {'uvm': []},
    {'loc': {'latitude': 1.5}}, {'loc': {'longitude': 1.5, 'speed': 0}},
    {'loc': {}}, {'loc': {'x': 1}}, {'appid': 1}, {'nope': True},
        {'txAuthSimple': 'x', 'authnSel': True, 'uvi': b'u',
         'biometricPerfBounds': False}]):
    op('extensions', 'ext%d' % i, P.parse_extensions, const(m))

REG_JSON = {'id': 'aWQ', 'rawId': 'aWQ=', 'type': 'public-key', 'response': {
    'clientDataJSON': w.b64(CD),
    'attestationObject': w.b64(built('none', KA)[2])}}
AUTH_JSON = {'id': 'aWQ', 'rawId': 'aWQ=', 'type': 'public-key', 'response': {
    'clientDataJSON': w.b64(CD), 'authenticatorData': 'AAAA',
    'signature': 'BBBB', 'userHandle': 'CCCC'}}


def edit(d, *path, **kw):
    d = copy.deepcopy(d)
    x = d
    for p in path[:-1]:
        x = x[p]
    if 'to' in kw:
        x[path[-1]] = kw['to']
    else:
        del x[path[-1]]
    return d


for i, m in enumerate([
        REG_JSON, AUTH_JSON, edit(AUTH_JSON, 'response', 'userHandle'),
        edit(AUTH_JSON, 'response', 'userHandle', to=''),
        edit(AUTH_JSON, 'response', 'signature', to='CCCC'),
        edit(AUTH_JSON, 'rawId', to='aWR4'), edit(AUTH_JSON, 'id', to='x'),
        edit(AUTH_JSON, 'rawId'), edit(AUTH_JSON, 'rawId', to='!'),
        edit(REG_JSON, 'response', 'extra', to='AAAA'),
        edit(AUTH_JSON, 'response', 'userHandle', to=None),
        edit(REG_JSON, 'response', 'extra', to=None),
        edit(AUTH_JSON, 'authenticatorAttachment', to=None),
        edit(REG_JSON, 'clientExtensionResults', to={}),
        edit(AUTH_JSON, 'id', to=None)]):
    op('credential', 'json%d' % i, P.parse_public_key_credential, const(m))

KEYS = [('P256', 'a'), ('P256', 'b'), ('P256', 'a', 'ES384'),
        ('P256', 'a', None, 'name'), ('P256', 'a', None, 'value', b'k'),
        ('P384', 'a'), ('P521', 'a'), ('ED25519', 'a'), ('ED25519', 'b'),
        ('ED448', 'a'), ('ED25519', 'a', 'ES256'), ('P256', 'a', 'EDDSA')]
for i, k in enumerate(KEYS):
    mk = functools.partial(lambda k: [w.lib_key(*k)], k)
    op('key', 'cose%d' % i, cose_key, mk)
    op('key', 'pk%d' % i, cryptography_public_key, mk)
    op('key', 'validate%d' % i, validate, mk)


def off_curve():
    k = w.lib_key('P256', 'a')
    k.y = bytes(32)
    return [k]


op('key', 'pk-off', cryptography_public_key, off_curve)

SIG = w.sign('P256', 'a', 'ES256', b'data')
for i, (k, s, d) in enumerate([
    (KEYS[0], SIG, b'data'), (KEYS[0], SIG, b'datb'),
    (KEYS[0], SIG[:-1], b'data'), (KEYS[1], SIG, b'data'),
    (KEYS[2], SIG, b'data'), (KEYS[3], SIG, b'data'), (KEYS[4], SIG, b'data'),
    (KEYS[0], w.sign('P256', 'a', 'ES256', b'datb'), b'datb'),
    (KEYS[1], w.sign('P256', 'b', 'ES256', b'data'), b'data'),
    (KEYS[2], w.sign('P256', 'a', 'ES384', b'data'), b'data'),
    (KEYS[6], w.sign('P521', 'a', 'ES512', b'data'), b'data'),
    (KEYS[7], w.sign('ED25519', 'a', 'EDDSA', b'data'), b'data'),
    (KEYS[8], w.sign('ED25519', 'a', 'EDDSA', b'data'), b'data'),
    (KEYS[7], w.sign('ED25519', 'a', 'EDDSA', b'data'), b''),
        (KEYS[7], b'', b'data'), (KEYS[0], b'', b'data')]):
    op('verify', 'verify%d' % i, verify,
       functools.partial(lambda k, s, d: [w.lib_key(*k), s, d], k, s, d))
op('verify', 'verify-off', verify, lambda: off_curve() + [SIG, b'data'])


def exts(k):
    return T.AuthenticationExtensionsClientInputs(
        appid=k, tx_auth_generic=T.TxAuthGenericArg(
            content_type=k, content=k.encode()), authn_sel=[k.encode() * 2],
        biometric_perf_bounds=T.AuthenticatorBiometricPerfBounds(FAR=.5,
                                                                 FRR=0.))


PK = T.PublicKeyCredentialType.PUBLIC_KEY


def params(*names):
    return [T.PublicKeyCredentialParameters(
        type=PK, alg=getattr(T.COSEAlgorithmIdentifier.Value, n))
        for n in names]


def descriptors(*ids):
    return [T.PublicKeyCredentialDescriptor(
        type=PK, id=i, transports=[T.AuthenticatorTransport.USB])
        for i in ids]


def creation_options(challenge=b'c', rp='a.org', ext=None, exclude=None):
    return T.CredentialCreationOptions(
        public_key=T.PublicKeyCredentialCreationOptions(
            rp=w.rp(rp), user=w.user(), challenge=challenge,
            pub_key_cred_params=params('ES256', 'EDDSA'), timeout=0,
            extensions=ext, exclude_credentials=exclude))


def request_options(challenge=b'c', allow=None):
    return T.CredentialRequestOptions(
        mediation=T.CredentialMediationRequirement.OPTIONAL,
        public_key=T.PublicKeyCredentialRequestOptions(
            challenge=challenge, allow_credentials=allow))


for i, mk in enumerate([
        lambda: [creation_options()], lambda: [creation_options(b'd')],
        lambda: [creation_options(rp='b.org')],
        lambda: [creation_options(ext=exts('x'))],
        lambda: [creation_options(exclude=descriptors(b'i'))],
        lambda: [creation_options(exclude=[])],
        lambda: [request_options()],
        lambda: [request_options(allow=descriptors(b'i', b'j'))],
        lambda: [creation_options(), False],
        lambda: [{'a_b': [b'x', None, {'c_d': 1}], 'n': None}],
        lambda: [{'a_b': [b'x', None, {'c_d': 1}], 'n': None}, False],
        lambda: [{'a_b': [b'y', None, {'c_d': 1}], 'n': None}],
        lambda: [b'x'], lambda: [[]], lambda: [{1: 2}], lambda: [{1, 2}],
        lambda: [w.user(b'\x00')], lambda: [None]]):
    op('jsonify', 'jsonify%d' % i, jsonify, mk)

for i, (f, a) in enumerate([
    (U.url_base64_encode, b'\xff\xfe'), (U.url_base64_encode, b'\xff'),
    (U.url_base64_decode, '__4'), (U.url_base64_decode, '__4='),
    (U.url_base64_decode, 'A'), (U.snake_to_camel_case, 'a_bc_d'),
    (U.snake_to_camel_case, 'a_bC_d'), (U.camel_to_snake_case, 'aBcD'),
    (U.curve_coordinate_byte_length, T.EC2Curve.Value.P_256),
    (U.curve_coordinate_byte_length, T.EC2Curve.Value.P_521),
    (U.ec2_hash_algorithm, T.COSEAlgorithmIdentifier.Value.ES256),
        (U.ec2_hash_algorithm, T.COSEAlgorithmIdentifier.Value.ES512)]):
    g = f if f is not U.ec2_hash_algorithm else (lambda a: f_name(a))
    op('utils', 'util%d' % i, g, functools.partial(lambda a: [a], a))


def f_name(a):
    return U.ec2_hash_algorithm(a).name



def creation_builder(**kw):
    return CredentialCreationOptionsBuilder(**dict(dict(
        rp=w.rp('base.org'), pub_key_cred_params=params('ES256'),
        extensions=exts('base'),
        exclude_credentials=descriptors(b'base')), **kw))


def request_builder(**kw):
    return CredentialRequestOptionsBuilder(**dict(dict(
        rp_id='base.org', extensions=exts('base')), **kw))


def create(b, user, challenge, **setting):
    for k, v in setting.items():
        b = getattr(b, k)(v)
    return b.build(user=user, challenge=challenge)


def request(b, challenge, allow, **setting):
    for k, v in setting.items():
        b = getattr(b, k)(v)
    return b.build(challenge=challenge, allow_credentials=allow)


for i, (kw, st) in enumerate([
    ({}, {}), ({}, dict(timeout=3)), (dict(timeout=4), {}),
    (dict(extensions=None), {}), ({}, dict(exclude_credentials=None)),
    ({}, dict(rp=('x.org', ))), (dict(rp=None), {}),
    (dict(pub_key_cred_params=None), {}),
        ({}, dict(attestation=T.AttestationConveyancePreference.DIRECT))]):
    def mk(kw=kw, st=st):
        s = dict(st)
        if 'rp' in s:
            s['rp'] = w.rp(*s['rp'])
        return [creation_builder(**kw), w.user(b'u'), b'ch', s]

    op('builder', 'create%d' % i, lambda b, u, ch, s: create(b, u, ch, **s),
       mk)
for i, (kw, st, al) in enumerate([
    ({}, {}, None), ({}, {}, []), ({}, {}, [b'x']),
    ({}, dict(timeout=3), None), (dict(timeout=4), {}, None),
    ({}, dict(user_verification=None), None), ({}, dict(rp_id=None), None),
        (dict(mediation=None), {}, None)]):
    def mk(kw=kw, st=st, al=al):
        return [request_builder(**kw), b'ch',
                None if al is None else descriptors(*al), dict(st)]

    op('builder', 'request%d' % i, lambda b, ch, al, s: request(b, ch, al,
                                                                **s), mk)
op('builder', 'create-defaults', lambda rp, p, u: CredentialCreationOptionsBuilder(
    rp=rp, pub_key_cred_params=p).build(user=u, challenge=b'c'),
   lambda: [w.rp(), params('ES512'), w.user()])
op('builder', 'request-defaults',
   lambda: CredentialRequestOptionsBuilder().build(challenge=b'c'),
   lambda: [])


def attest_args(i, other_hash=False, other_data=False):
    f, k = OBJECTS[i]
    cdh, ad, ao, (fmt, stmt, bad, _, _) = built(f, k)
    kv = w.lib_key(*k)
    S = {'none': lambda: T.NoneAttestationStatement(),
         'fido-u2f': lambda: T.FIDOU2FAttestationStatement(
             sig=stmt['sig'], x5c=list(stmt['x5c'])),
         'android-key': lambda: T.AndroidKeyAttestationStatement(
             alg=_alg(stmt['alg']), sig=stmt['sig'], x5c=list(stmt['x5c'])),
         'packed': lambda: T.PackedAttestationStatement(
             alg=_alg(stmt['alg']), sig=stmt['sig']),
         }[fmt]()
    data = T.AuthenticatorData(
        rp_id_hash=ad[:32], flags=ad[32], sign_count=0,
        attested_credential_data=T.AttestedCredentialData(
            aaguid=bytes(16), credential_id_length=16,
            credential_id=c.BASE_REG['cred_id'], credential_public_key=kv),
        extensions=None)
    obj = T.AttestationObject(
        auth_data=data, att_stmt=S,
        fmt=T.AttestationStatementFormatIdentifier(fmt))
    return [S, obj, ad + (b'x' if other_data else b''),
            w.sha256(cdh) if other_hash else cdh]


def _alg(v):
    return [a for a in T.COSEAlgorithmIdentifier.Value if a.value == v][0]


for i in (0, 3, 4, 5, 6, 7, 8, 9, 10, 11):
    op('attest', 'attest%d' % i, attest, functools.partial(attest_args, i))
for i in (3, 7):
    op('attest', 'attest%d-hash' % i, attest,
       functools.partial(attest_args, i, True))
    op('attest', 'attest%d-data' % i, attest,
       functools.partial(attest_args, i, False, True))


# --- the handlers -------------------------------------------------------------

BACKEND = {}


def handler(kind, rec, kw):
    """A call on the backend of this process (one registrar for all)."""
    if not BACKEND:
        box = w.Recorder(on_get=lambda cid: BACKEND['data'])
        BACKEND['rec'] = box
        BACKEND['be'] = CredentialsBackend(box)
    BACKEND['data'] = rec
    BACKEND['rec'].calls.clear()
    be = BACKEND['be']
    fn = (be.handle_credential_attestation if kind == 'reg' else
          be.handle_credential_assertion)
    try:
        out = ('returned', fn(**kw))
    except Exception as e:
        out = ('raised', type(e).__name__)
    calls = [(k, {n: picture(v) for n, v in a.items()})
             for k, a in BACKEND['rec'].calls]
    return out, repr(calls)


@functools.lru_cache(None)
def ceremony_messages(kind, items):
    cfg = dict(c.BASE_REG if kind == 'reg' else c.BASE_AUTH,
               **{k: v for k, v in eval_items(items)})
    if kind == 'reg':
        return cfg, c.build_reg(cfg)
    cd = c.client_data_bytes(cfg)
    ad = c.auth_data_bytes(cfg)
    return cfg, (cd, ad, c.signature_bytes(cfg, ad, w.sha256(cd))[0])


ITEMS = {}


def eval_items(items):
    return ITEMS[items].items()


def handler_args(kind, items):
    cfg, m = ceremony_messages(kind, items)
    kw = dict(expected_challenge=cfg['exp_challenge'],
              expected_origin=c._origin_arg(cfg['exp_origin']),
              token_binding=c._tb_arg(cfg['tb_exp']),
              require_user_verification=cfg['require_uv'],
              expected_extensions=c._ext_arg(cfg['exp_ext']))
    if kind == 'reg':
        kw.update(credential=w.attestation_credential(
            cfg['cred_id'], m[0], m[2]), user=w.user(cfg['user']),
            rp=w.rp(cfg['rp']))
        return [kind, None, kw]
    data = None
    if cfg['lookup'] == 'found':
        data = CredentialData(
            credential_public_key=w.lib_key(*cfg['key'][:4]),
            signature_count=cfg['stored'],
            user_entity=w.user(cfg['reg_user'], 'registered'),
            rp_entity=None if cfg['reg_rp'] is None else w.rp(cfg['reg_rp']))
    kw.update(credential=w.assertion_credential(cfg['cred_id'], m[0], m[1],
                                                m[2], cfg['handle']),
              user=None if cfg['user'] is None else w.user(cfg['user']),
              rp=None if cfg['rp'] is None else w.rp(cfg['rp']),
              allow_credentials=c.allow_arg(cfg),
              ignore_clone_error=cfg['ignore_clone'])
    return [kind, data, kw]


def add_handlers():
    for kind, base, core, wide, gen in (
        ('reg', c.BASE_REG, c.REG_CORE, c.REG_WIDE, c.reg_cases),
            ('auth', c.BASE_AUTH, c.AUTH_CORE, c.AUTH_WIDE, c.auth_cases)):
        i = 0
        names = [{}] + [{d: v} for d in core for v in core[d]]
        wides = [{d: v} for d in wide for v in wide[d]]
        for which, ds in (('', names), ('-wide', wides)):
            for d in ds:
                if d.get('lookup') == 'raises':
                    continue
                name = '%s%d' % (kind, i)
                i += 1
                ITEMS[name] = d
                op(kind + which, name, handler,
                   functools.partial(handler_args, kind, name))


add_handlers()

# --------------------------------------------------------------------------
# Sequences.  A step is (operation, how): 'fresh' arguments, 'again' the very
# arguments of the step before, 'become': the arguments of the step before
# changed in place into this operation's, 'poison': first the result of the
# step before is changed in place, then fresh arguments.


_LIB = tuple(x for x in w._BY_CLASS if x is not T.NoneAttestationStatement
             and not issubclass(x, tuple))


def become(a, b):
    """Changes a in place into b as far as possible; returns the value to use
    (a itself, or b when they cannot be the same object)."""
    if type(a) is not type(b) or isinstance(a, enum.Enum):
        return b
    if isinstance(a, list):
        a[:] = [become(x, y) for x, y in zip(a, b)] + b[len(a):]
        return a
    if isinstance(a, dict):
        new = {k: become(a[k], v) if k in a else v for k, v in b.items()}
        a.clear()
        a.update(new)
        return a
    if isinstance(a, set):
        a.clear()
        a.update(b)
        return a
    if isinstance(a, _LIB):
        new = {k: become(vars(a)[k], v) if k in vars(a) else v
               for k, v in vars(b).items()}
        vars(a).clear()
        vars(a).update(new)
        return a
    return b


def poison(x, seen=None):
    seen = set() if seen is None else seen
    if id(x) in seen or isinstance(x, enum.Enum):
        return
    seen.add(id(x))
    if isinstance(x, (list, tuple)):
        for v in x:
            poison(v, seen)
        if isinstance(x, list):
            x[:] = ['poison']
    elif type(x) is dict:
        for v in x.values():
            poison(v, seen)
        x['poison'] = 'poison'
    elif isinstance(x, _LIB):
        for v in list(vars(x).values()):
            poison(v, seen)
        for k in vars(x):
            setattr(x, k, 'poison')


def outcome(fn, args):
    try:
        r = fn(*args)
    except Exception as e:
        return ('raised', type(e).__name__), None
    return ('returned', picture(r)), r


def play(steps):
    """Runs in the child: list of outcomes, or the complaint."""
    outs = []
    results = []
    kept = []
    for name, how in steps:
        fn, make = OPS[name]
        if how == 'again':
            args = kept[-1]
        elif how == 'become':
            # results may legitimately hold parts of the arguments
            results = []
            args = become(kept[-1], make())
        else:
            if how == 'poison':
                poison(results[-1][0])
                results = []
            args = make()
        before = picture(args)
        out, r = outcome(fn, args)
        if picture(args) != before:
            return outs, '{} changed its arguments from {!r} to {!r}'.format(
                name, before, picture(args))
        for old, pic in results:
            if picture(old) != pic:
                return outs, '{} changed the result of an earlier call from ' \
                    '{!r} to {!r}'.format(name, pic, picture(old))
        outs.append(out)
        results.append((r, picture(r)))
        kept.append(args)
        if len(results) > WINDOW:
            # long histories: the first results and the latest ones
            del results[WINDOW // 2]
            del kept[:-1]
    return outs, None


WINDOW = 24


@functools.lru_cache(None)
def alone(name):
    return child([(name, 'fresh')])[0][0]


def warm(steps):
    for n, _ in steps:
        if n in ITEMS:
            ceremony_messages('reg' if n.startswith('reg') else 'auth', n)


def child(steps):
    warm(steps)
    st, res = sched.in_child(lambda: play(steps))
    if st == 'harness':
        raise HarnessError(res)
    if st != 'ok':
        raise Violation('{}: {} {}'.format(steps, st, res))
    outs, complaint = res
    if complaint:
        raise Violation('{}: {}'.format(steps, complaint))
    return res


def check(ctx, steps):
    outs, _ = child(steps)
    ctx.step(len(steps))
    for i, ((name, how), out) in enumerate(zip(steps, outs)):
        if out != alone(name):
            raise Violation('{} as step {} of {} gives {!r}, alone {!r}'.
                            format(name, i, steps, out, alone(name)))


def run_steps(ctx, case):
    for rest in case[1]:
        steps = [tuple(s) for s in case[0]] + [tuple(s) for s in rest]
        check(ctx, steps)
        ctx.state(tuple(steps))
    ctx.outcome('same')


def case(head, tails):
    return [[list(s) for s in head], [[list(s) for s in t] for t in tails]]


FUNCTIONS = [g for g in GROUP if not g.startswith(('reg', 'auth'))
             or g == 'auth-data']


def repeat_cases():
    """Every operation: repeated with fresh arguments, with the same ones,
    after its result was changed, three times."""
    for name in OPS:
        yield (name, ), case([(name, 'fresh')], [
            [(name, 'fresh')], [(name, 'again')], [(name, 'poison')],
            [(name, 'again'), (name, 'again')],
            [(name, 'poison'), (name, 'fresh')]])


def related_cases():
    """All ordered pairs within a group, fresh and by changing the arguments
    in place; the handlers with the core deviations."""
    for g, names in GROUP.items():
        if g.endswith('-wide'):
            continue
        for a, b in itertools.product(names, repeat=2):
            if a != b:
                yield (a, b), case([(a, 'fresh')], [
                    [(b, 'fresh'), (a, 'fresh')], [(b, 'become')],
                    [(b, 'poison')]])


def wide_cases():
    """Each wide deviation of a ceremony before and after the base."""
    for kind in ('reg', 'auth'):
        base = kind + '0'
        for name in GROUP[kind + '-wide']:
            yield (name, 'first'), case([(name, 'fresh')], [
                [(base, 'fresh')], [(base, 'become')]])
            yield (name, 'second'), case([(base, 'fresh')], [
                [(name, 'fresh')], [(name, 'become')]])


# Every member of every argument, replaced: the arguments stay as they are, and
# the same call with the same arguments gives the same outcome.  (A change of
# the arguments shows in this process as well, so nothing is forked here.)

FILL = [None, '', b'', 0, -1, True, 1.5, [], {}, [None], {'x': None}, 'AAAA',
        b'\x00', '<drop>', '<dup>']


def sites(x, path=()):
    """Paths of every member of nested plain data."""
    if path:
        yield path
    if isinstance(x, dict):
        for k in x:
            yield from sites(x[k], path + (k, ))
        yield path + ('<new>', )
    elif isinstance(x, list):
        for i in range(len(x)):
            yield from sites(x[i], path + (i, ))
        yield path + (len(x), )


def put(x, path, v):
    *head, last = path
    for p in head:
        x = x[p]
    if isinstance(x, list) and last == len(x):
        x.append(copy.deepcopy(v))
    elif v == '<drop>':
        if isinstance(x, list):
            del x[last]
        else:
            x.pop(last, None)
    elif v == '<dup>':
        if isinstance(x, list):
            x.append(copy.deepcopy(x[last]))
        elif last in x:
            x['<dup>'] = copy.deepcopy(x[last])
    else:
        x[last] = copy.deepcopy(v)


EDITED = [n for g in ('statement', 'cose', 'extensions', 'credential',
                      'jsonify') for n in GROUP[g]
          if isinstance(OPS[n][1]()[0], (dict, list))]


def edit_cases():
    for name in EDITED:
        for p in range(len(list(sites(OPS[name][1]()[0])))):
            yield (name, p), [name, p]


def run_edits(ctx, case):
    name, p = case
    fn, make = OPS[name]
    for i, v in enumerate(FILL):
        one = make()
        where = list(sites(one[0]))
        put(one[0], where[p], v)
        again = list(sites(one[0]))
        for q in [None] + list(range(len(again))):
            for v2 in ([None] if q is None else FILL if THOROUGH else
                       (None, '', [], '<drop>')):
                args = make()
                put(args[0], where[p], v)
                if q is not None:
                    put(args[0], again[q], v2)
                before = picture(args)
                out, r = outcome(fn, args)
                ctx.step(2)
                if picture(args) != before:
                    raise Violation('{} changed its arguments from {!r} to '
                                    '{!r}'.format(name, before,
                                                  picture(args)))
                second, r2 = outcome(fn, args)
                if second != out:
                    raise Violation('{} of {!r} gives {!r}, then {!r}'.format(
                        name, before, out, second))
                if r is not None and picture(r) != out[1]:
                    raise Violation('{} changed its earlier result'.format(
                        name))
        ctx.outcome('unchanged')


def cross_names():
    out = []
    for g in FUNCTIONS:
        out += GROUP[g]
    core = GROUP['reg'] + GROUP['auth']
    return out + (core if THOROUGH else core[::6])


def cross_cases():
    """All ordered pairs of operations of different groups."""
    names = cross_names()
    for a in names:
        for b in names:
            yield (a, b), case([(a, 'fresh')], [[(b, 'fresh')]])


TRIPLES = ['origin0', 'origin1', 'cd0', 'cd4', 'cd9', 'ad0', 'ad5', 'ad10',
           'ao0', 'ao3', 'ao7', 'ao18', 'st7', 'map0', 'bytes4', 'map9', 'ext1',
           'ext9', 'ext13', 'json0', 'json2', 'json8', 'cose0', 'pk7',
           'pk-off', 'validate10', 'verify0', 'verify2', 'verify10',
           'jsonify0', 'jsonify8', 'jsonify9', 'util2', 'create0', 'create1',
           'request0', 'request7', 'attest3', 'attest7', 'reg0', 'reg3',
           'auth0', 'auth3', 'auth5']


def triple_cases():
    names = TRIPLES if THOROUGH else TRIPLES[::2]
    for a, b in itertools.product(names, repeat=2):
        for d in names:
            yield (a, b, d), case([(a, 'fresh')], [
                [(b, 'fresh'), (d, 'fresh')]])


INSIDE = ['verify', 'attest', 'utils', 'origin', 'client-data', 'auth-data']


def inside_cases():
    """All ordered triples within the groups where state is likeliest."""
    for g in INSIDE:
        for a, b in itertools.product(GROUP[g], repeat=2):
            yield (g, a, b), case([(a, 'fresh')], [
                [(b, 'fresh'), (d, 'fresh')] for d in GROUP[g]])


def fresh(names):
    return case([], [[(n, 'fresh') for n in names]])


MANY = 4000 if THOROUGH else 300


def long_cases():
    """Rounds through each group from every starting point and in both
    directions, twice; every operation many times, then its group; one round
    through everything in several orders, then through everything again."""
    for g, names in GROUP.items():
        if not g.endswith('-wide'):
            for i in range(len(names)):
                turned = names[i:] + names[:i]
                yield (g, i), fresh(turned * 2)
                yield (g, i, 'back'), fresh(turned[::-1] * 2)
                n = MANY if names[i] in TRIPLES or THOROUGH else 20
                yield (g, i, 'many'), fresh([names[i]] * n + turned)
    # everything, in strides: any two calls meet in either order
    every = [n for g in GROUP.values() for n in g]
    for stride in (1, 7, 101, 389, 577):
        order = sorted(range(len(every)), key=lambda k: k * stride % 1153)
        names = [every[k] for k in order]
        yield ('all', stride), fresh(names + names[::-1])
    plain = [n for g in FUNCTIONS for n in GROUP[g]]
    for i in range(0, len(plain), 1 if THOROUGH else 8):
        names = plain[i:] + plain[:i]
        yield ('functions', i), fresh(names * 4)


BOUNDS = ('{} calls of every parser, converter, verifier, attester, builder '
          'and both handlers: each repeated; all ordered pairs within each of '
          '{} groups of related calls (also with the arguments, or the first '
          'result, changed in place); every wide ceremony deviation around '
          'the base; every argument map with one or two members replaced, '
          'called twice; all ordered pairs of {} calls of all groups; all triples '
          'of {} calls and within {} groups; long histories: two rounds through '
          'each group from every start in both directions, {} repetitions '
          'of a call, and rounds through all of them').format(len(OPS), len(GROUP), len(cross_names()),
                                len(TRIPLES if THOROUGH else TRIPLES[::2]),
                                len(INSIDE), MANY)
ASSUMPTIONS = ['outcomes are compared as values; of an error, its class']


def spaces():
    def space(name, cases):
        return FnSpace(name, BOUNDS, cases, run_steps, case_seconds=120)

    return [
        space('repeats', repeat_cases),
        space('related', related_cases),
        FnSpace('edits', BOUNDS, edit_cases, run_edits),
        space('wide', wide_cases),
        space('cross', cross_cases),
        space('triples', triple_cases),
        space('inside', inside_cases),
        space('long', long_cases),
    ]
