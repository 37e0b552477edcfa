"""C20: concurrent ceremonies and builders, under a controlled scheduler."""
import functools
import itertools
import threading

from mc import ceremony as c
from mc import sched
from mc import world as w
from mc.core import FnSpace, HarnessError, THOROUGH, Violation
from webauthn_rp import parsers as P
from webauthn_rp import types as T
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.builders import (CredentialCreationOptionsBuilder,
                                  CredentialRequestOptionsBuilder)
from webauthn_rp.converters import (cose_key, cryptography_public_key,
                                    jsonify)
from webauthn_rp.registrars import CredentialData
from webauthn_rp.verifiers import verify


class Registrar(w._R.CredentialsRegistrar):
    """Shared by all threads; notes who called."""
    def __init__(self, store, point):
        self.store = store
        self.point = point
        self.calls = []

    def note(self, kind, *args):
        self.point()
        self.calls.append((threading.get_ident(), kind, w.view(list(args))))
        self.point()

    def register_credential_attestation(self, credential, att, att_type, user,
                                        rp, trusted_path=None):
        self.note('att', credential, att, att_type, user, rp,
                  list(trusted_path or ()))

    def register_credential_assertion(self, credential, authenticator_data,
                                      user, rp):
        self.note('ass', credential, authenticator_data, user, rp)

    def get_credential_data(self, credential_id):
        self.note('get', credential_id)
        return self.store.get(credential_id)


# --------------------------------------------------------------------------
# Ceremonies running at the same time: every argument differs

def reg(**kw):
    return 'reg', c.full(c.BASE_REG, kw)


def auth(**kw):
    return 'auth', c.full(c.BASE_AUTH, kw)


CEREMONIES = {
    'reg-none': reg(cred_id=b'reg-none', user=b'user-r',
                    exp_challenge=b'challenge reg none'),
    'reg-u2f': reg(cred_id=b'reg-u2f', user=b'user-u', fmt='u2f',
                   key=('P256', 'u', None, 'value'),
                   exp_challenge=b'challenge reg u2f',
                   origin='https://two.org', exp_origin=(
                       'list', ['https://one.org', 'https://two.org']),
                   rp='two.org', hash_of='two.org'),
    'reg-android': reg(cred_id=b'reg-android', user=b'user-k', fmt='android',
                       key=('ED25519', 'k', None, 'name'), count=9,
                       exp_challenge=b'challenge reg android',
                       flags=w.UP | w.UV, require_uv=True),
    'reg-bad-sig': reg(cred_id=b'reg-bad', user=b'user-b', fmt='u2f-sig',
                       exp_challenge=b'challenge reg bad'),
    'reg-bad-origin': reg(cred_id=b'reg-bad-origin', user=b'user-o',
                          exp_challenge=b'challenge reg origin',
                          exp_origin=('str', 'https://else.org')),
    'auth-a': auth(cred_id=b'auth-a', user=b'user-a', reg_user=b'user-a',
                   exp_challenge=b'challenge auth a'),
    'auth-b': auth(cred_id=b'auth-b', user=None, reg_user=b'user-b',
                   handle=b'user-b', key=('ED448', 'b', None, 'value'),
                   stored=None, count=77, rp=None, reg_rp='b.org',
                   hash_of='b.org', exp_challenge=b'challenge auth b',
                   origin='https://b.org:444', exp_origin=(
                       'set', ['https://b.org:444', 'https://b.org']),
                   flags=w.UP | w.UV, require_uv=True,
                   ext={'appid': True, 'uvm': [[1, 2, 3]]},
                   exp_ext=('appid', 'uvm'), allow=[b'x', b'auth-b'],
                   tb_cli={'status': 'present', 'id': 'B'},
                   tb_exp=('present', 'B')),
    'auth-bad-sig': auth(cred_id=b'auth-c', user=b'user-c', reg_user=b'user-c',
                         sig='other-cd', exp_challenge=b'challenge auth c'),
    'auth-bad-count': auth(cred_id=b'auth-d', user=b'user-d', stored=9,
                           count=9, reg_user=b'user-d',
                           exp_challenge=b'challenge auth d'),
    'auth-bad-user': auth(cred_id=b'auth-e', user=b'user-a', reg_user=b'user-e',
                          exp_challenge=b'challenge auth e'),
    'auth-unknown': auth(cred_id=b'auth-f', user=b'user-a', lookup='none',
                         exp_challenge=b'challenge auth f'),
}


@functools.lru_cache(None)
def prepare(name):
    """(kind, keyword arguments, stored credential): made without calling
    the library's functions."""
    kind, cfg = CEREMONIES[name]
    common = dict(expected_challenge=cfg['exp_challenge'],
                  expected_origin=c._origin_arg(cfg['exp_origin']),
                  token_binding=c._tb_arg(cfg['tb_exp']),
                  require_user_verification=cfg['require_uv'],
                  expected_extensions=c._ext_arg(cfg['exp_ext']))
    if kind == 'reg':
        cd, ad, ao, st = c.build_reg(cfg)
        return kind, dict(common, credential=w.attestation_credential(
            cfg['cred_id'], cd, ao), user=w.user(cfg['user'], name + ' user'),
            rp=w.rp(cfg['rp'], name + ' rp')), None
    cd = c.client_data_bytes(cfg)
    ad = c.auth_data_bytes(cfg)
    sig, genuine = c.signature_bytes(cfg, ad, w.sha256(cd))
    data = None
    if cfg['lookup'] == 'found':
        data = CredentialData(
            credential_public_key=w.lib_key(*cfg['key'][:4]),
            signature_count=cfg['stored'],
            user_entity=w.user(cfg['reg_user'], name + ' owner'),
            rp_entity=w.rp(cfg['reg_rp'], name + ' registered'))
    return kind, dict(
        common,
        credential=w.assertion_credential(cfg['cred_id'], cd, ad, sig,
                                          cfg['handle']),
        user=None if cfg['user'] is None else w.user(cfg['user'],
                                                     name + ' given'),
        rp=None if cfg['rp'] is None else w.rp(cfg['rp'], name + ' rp'),
        allow_credentials=c.allow_arg(cfg),
        ignore_clone_error=cfg['ignore_clone']), (cfg['cred_id'], data)


def ceremony_fns(names, scheduler):
    """Thunks running the ceremonies on one backend."""
    store = {}
    for n in names:
        d = prepare(n)[2]
        if d is not None and d[1] is not None:
            store[d[0]] = d[1]
    reg = Registrar(store, lambda: scheduler() and scheduler().point())
    backend = CredentialsBackend(reg)

    def thunk(n):
        def fn():
            kind, kw, _ = prepare(n)
            h = (backend.handle_credential_attestation if kind == 'reg' else
                 backend.handle_credential_assertion)
            try:
                out = ('returned', w.view(h(**kw)))
            except Exception as e:
                out = ('raised', type(e).__name__)
            me = threading.get_ident()
            return out, [x[1:] for x in reg.calls if x[0] == me]

        return fn

    return [thunk(n) for n in names], lambda: len(reg.calls)


# --------------------------------------------------------------------------
# Builders and pure functions

PK = T.PublicKeyCredentialType.PUBLIC_KEY


def exts(k):
    return T.AuthenticationExtensionsClientInputs(
        appid=k, tx_auth_generic=T.TxAuthGenericArg(
            content_type=k, content=k.encode()), authn_sel=[k.encode() * 2])


def creation():
    return CredentialCreationOptionsBuilder(
        rp=w.rp('base.org', 'Base'),
        pub_key_cred_params=[T.PublicKeyCredentialParameters(
            type=PK, alg=T.COSEAlgorithmIdentifier.Value.ES256)],
        timeout=1, extensions=exts('base'),
        exclude_credentials=[T.PublicKeyCredentialDescriptor(
            type=PK, id=b'base', transports=[T.AuthenticatorTransport.USB])])


def request():
    return CredentialRequestOptionsBuilder(rp_id='base.org', timeout=1,
                                           extensions=exts('base'))


def _set(side, attribute, value):
    """Sets one attribute of the shared builder, then builds."""
    def op(b):
        d = getattr(b, attribute)(value)
        if side == 'create':
            return d.build(user=w.user(b'u-' + attribute.encode()),
                           challenge=attribute.encode())
        return d.build(challenge=attribute.encode())

    return side, op


BUILDER_OPS = {
    'create-plain': ('create', lambda b: b.build(user=w.user(b'u4'),
                                                 challenge=b'c4')),
    'create-many': ('create', lambda b: b.timeout(7).extensions(exts('x')).
                    attestation(T.AttestationConveyancePreference.DIRECT).build(
                        user=w.user(b'u2'), challenge=b'c2')),
    'create-json': ('create', lambda b: jsonify(b.timeout(9).build(
        user=w.user(b'u5'), challenge=b'c5'))),
    'create-rp': _set('create', 'rp', w.rp('a.org', 'A')),
    'create-params': _set('create', 'pub_key_cred_params', [
        T.PublicKeyCredentialParameters(
            type=PK, alg=T.COSEAlgorithmIdentifier.Value.ES512)]),
    'create-timeout': _set('create', 'timeout', None),
    'create-selection': _set(
        'create', 'authenticator_selection', T.AuthenticatorSelectionCriteria(
            require_resident_key=True)),
    'create-extensions': _set('create', 'extensions', exts('z')),
    'create-attestation': _set('create', 'attestation',
                               T.AttestationConveyancePreference.INDIRECT),
    'create-exclude': _set('create', 'exclude_credentials', None),
    'request-plain': ('request', lambda b: b.build(challenge=b'd3')),
    'request-many': ('request', lambda b: b.mediation(
        T.CredentialMediationRequirement.SILENT).extensions(exts('y')).
                     user_verification(None).build(
                         challenge=b'd2', allow_credentials=[])),
    'request-rp-id': _set('request', 'rp_id', 'a.org'),
    'request-timeout': _set('request', 'timeout', 3),
    'request-mediation': _set('request', 'mediation',
                              T.CredentialMediationRequirement.REQUIRED),
    'request-extensions': _set('request', 'extensions', exts('w')),
    'request-verification': _set('request', 'user_verification', None),
}
# The second thread of the finer spaces.
BUILDER_OPS2 = ['create-plain', 'create-many', 'request-plain', 'request-many']


def builder_fns(names, scheduler):
    side = BUILDER_OPS[names[0]][0]
    base = creation() if side == 'create' else request()

    def thunk(n):
        def fn():
            try:
                return 'returned', w.view(BUILDER_OPS[n][1](base))
            except Exception as e:
                return 'raised', type(e).__name__

        return fn

    return [thunk(n) for n in names], lambda: 0


def _reg_bytes(name):
    cd, ad, ao, st = c.build_reg(CEREMONIES[name][1])
    return cd, ad, ao


@functools.lru_cache(None)
def inputs():
    k1, k2 = w.lib_key('P256', 'a', kid=b'k'), w.lib_key('ED448', 'b')
    out = {
        'obj-none': (P.parse_attestation_object, _reg_bytes('reg-none')[2]),
        'obj-u2f': (P.parse_attestation_object, _reg_bytes('reg-u2f')[2]),
        'obj-android': (P.parse_attestation_object,
                        _reg_bytes('reg-android')[2]),
        'obj-bad': (P.parse_attestation_object, _reg_bytes('reg-u2f')[2][:-1]),
        'cd-a': (P.parse_client_data, _reg_bytes('reg-none')[0]),
        'cd-b': (P.parse_client_data, _reg_bytes('reg-u2f')[0]),
        'cd-bad': (P.parse_client_data, b'{"type":1}'),
        'key-ec': (P.parse_cose_key, w.cose_map('P384', 'a')),
        'key-okp': (P.parse_cose_key, w.cose_map('ED25519', 'a', form='name')),
        'key-bad': (P.parse_cose_key, {1: 2}),
        'ext-a': (P.parse_extensions, {'appid': False, 'loc': {
            'latitude': 1.0}}),
        'ext-b': (P.parse_extensions, {'uvm': [[1, 2, 3]], 'exts': ['a']}),
        'cose-ec': (cose_key, k1),
        'cose-okp': (cose_key, k2),
        'json-a': (jsonify, w.user(b'\x00\xff')),
        'json-b': (jsonify, {'a_b': [b'x', None, {'c_d': 1}], 'n': None}),
    }
    return out


VERIFY = {
    'verify-ec': ('P256', 'ES256', True),
    'verify-ec-bad': ('P256', 'ES256', False),
    'verify-okp': ('ED25519', 'EDDSA', True),
    'verify-512': ('P521', 'ES512', True),
    'verify-384-bad': ('P384', 'ES384', False),
}


@functools.lru_cache(None)
def verify_args(n):
    curve, alg, ok = VERIFY[n]
    return (w.lib_key(curve, n, alg),
            w.sign(curve, n if ok else 'other', alg, n.encode()), n.encode())


def function_fns(names, scheduler):
    def thunk(n):
        def fn():
            try:
                if n in VERIFY:
                    return 'returned', w.view(verify(*verify_args(n)))
                f, arg = inputs()[n]
                r = f(arg)
                return 'returned', repr(w.view(r))
            except Exception as e:
                return 'raised', type(e).__name__

        return fn

    return [thunk(n) for n in names], lambda: 0


MAKERS = {'ceremony': ceremony_fns, 'builder': builder_fns,
          'function': function_fns}


# --------------------------------------------------------------------------
# Running one schedule, in a fresh copy of the process

def warm(kind, names):
    """Everything the harness computes itself, before forking."""
    for n in names:
        if kind == 'ceremony':
            prepare(n)
        elif kind == 'function':
            verify_args(n) if n in VERIFY else inputs()


@functools.lru_cache(None)
def alone(kind, name):
    def job():
        fns, calls = MAKERS[kind]([name], lambda: None)
        return fns[0]()

    st, res = sched.in_child(job)
    if st != 'ok':
        raise Violation('{} alone: {}'.format(name, res or st))
    return res


def run_schedule(kind, names, first, plan, mode):
    def job():
        box = []
        fns, calls = MAKERS[kind](names, lambda: box[0] if box else None)
        s = sched.Scheduler(fns, first, plan, mode.split('+')[0],
                            mode.endswith('+copy'))
        box.append(s)
        stuck = s.run()
        return s.results, stuck, s.points, len(s.plan), calls(), s.switches

    return sched.in_child(job)


def explore_one(ctx, kind, names, first, plan, mode):
    """Returns the number of preemptions that were not reached."""
    st, res = run_schedule(kind, names, first, plan, mode)
    ctx.step()
    what = '{} together with {} (first {}, preempted {}, {})'.format(
        names[0], names[1:], first, plan, mode)
    if st == 'harness':
        raise HarnessError(res)
    if st != 'ok':
        raise Violation('{}: {} {}'.format(what, st, res))
    results, stuck, points, unreached, calls, switches = res
    if stuck:
        raise Violation('{}: {}'.format(what, stuck))
    for n, r in zip(names, results):
        if r and r[0] == 'harness':
            raise HarnessError(r[1])
        if r != alone(kind, n):
            raise Violation('{}: {} gave {!r}, alone it gives {!r}'.format(
                what, n, r, alone(kind, n)))
    if kind == 'ceremony' and calls != sum(len(r[1]) for r in results):
        raise Violation('{}: the registrar was called from elsewhere'.format(
            what))
    if not unreached:
        ctx.state((kind, tuple(names), first, tuple(plan), mode))
    ctx.outcome('unreached' if unreached else 'switches:{}'.format(
        min(switches, 9)))
    return unreached


STRIPES = 4


def one_cases(kind, names, mode, others=None):
    def gen():
        for a, b in itertools.product(names, others or names):
            if kind == 'builder' and BUILDER_OPS[a][0] != BUILDER_OPS[b][0]:
                continue
            for s in range(STRIPES):
                yield (a, b, s), [kind, a, b, s, mode]

    return gen


def run_one(ctx, case):
    """One preemption of a by b, at every stop of a (both orders of every
    pair are separate cases)."""
    kind, a, b, s, mode = case
    warm(kind, (a, b))
    k = s
    while True:
        if explore_one(ctx, kind, [a, b], 0, [(k, 1)], mode):
            break
        k += STRIPES


def two_cases(kind, pairs, mode, stripes=16):
    def gen():
        for a, b in pairs:
            for s in range(stripes):
                yield (a, b, s), [kind, a, b, s, stripes, mode]

    return gen


def run_two(ctx, case):
    """a up to k1, b up to k2, a to its end, b to its end."""
    kind, a, b, s, stripes, mode = case
    warm(kind, (a, b))
    k1 = s
    while True:
        k2 = 0
        while True:
            left = explore_one(ctx, kind, [a, b], 0, [(k1, 1), (k2, 0)], mode)
            if left:
                break
            k2 += 1
        if left == 2:
            break
        k1 += stripes


def three_cases(kind, triples, mode):
    def gen():
        for t in triples:
            for s in range(8):
                yield t + (s, ), [kind, list(t), s, mode]

    return gen


def run_three(ctx, case):
    """a up to k1, b up to k2, c to its end, then b or a."""
    kind, names, s, mode = case
    warm(kind, names)
    k1 = s
    while True:
        k2 = 0
        while True:
            left = explore_one(ctx, kind, names, 0, [(k1, 1), (k2, 2)], mode)
            if left:
                break
            k2 += 1
        if left == 2:
            break
        k1 += 8


QUICK_C = ['reg-none', 'reg-u2f', 'reg-android', 'reg-bad-origin', 'auth-a',
           'auth-b', 'auth-bad-sig', 'auth-bad-count']
CER = list(CEREMONIES) if THOROUGH else QUICK_C
CER2 = list(itertools.product(CER, repeat=2)) if THOROUGH else [
    ('auth-a', 'auth-b'), ('reg-none', 'reg-u2f')]
CER3 = list(itertools.permutations(['reg-none', 'auth-a', 'auth-b'], 3)) + [
    ('reg-u2f', 'auth-b', 'auth-bad-sig')] if THOROUGH else [
        ('reg-none', 'auth-a', 'auth-b')]
FUN = list(inputs()) + list(VERIFY)

# One input per function for the second thread of the quick tier.
FUN2 = FUN if THOROUGH else [
    'obj-u2f', 'cd-b', 'key-okp', 'ext-b', 'cose-okp', 'json-b', 'verify-okp',
    'verify-ec-bad']

BOUNDS = (
    'real threads on one backend (builder, function), each schedule from a '
    'freshly imported library: all ordered pairs of {} ceremonies, {} times {} builder '
    'uses and {} times {} function calls with one preemption at every line '
    '(builders also at every {} of the copy module); {} pairs of ceremonies '
    'with two preemptions at every two calls or returns; {} triples with two '
    'preemptions{}').format(
        len(CER), len(BUILDER_OPS),
        len(BUILDER_OPS if THOROUGH else BUILDER_OPS2), len(FUN), len(FUN2),
        'line' if THOROUGH else 'call and return', len(CER2), len(CER3),
        '; ceremonies and functions with one preemption at every opcode, '
        'builder pairs with two preemptions at calls and returns'
        if THOROUGH else '')
ASSUMPTIONS = [
    'threads switch at lines{}, calls and returns of the library (and of the '
    'copy module where stated) and inside the registrar; code of other '
    'packages runs without interruption'.format(
        ', opcodes' if THOROUGH else ''),
]


def spaces():
    def space(name, cases, run):
        return FnSpace(name, BOUNDS, cases, run, case_seconds=600)

    B = list(BUILDER_OPS)
    out = [
        space('ceremonies', one_cases('ceremony', CER, 'line'), run_one),
        space('builders', one_cases('builder', B, 'line',
                                    None if THOROUGH else BUILDER_OPS2),
              run_one),
        space('builders-copy',
              one_cases('builder', B, 'line+copy' if THOROUGH else
                        'call+copy', BUILDER_OPS2), run_one),
        space('functions', one_cases('function', FUN, 'line', FUN2), run_one),
        space('ceremonies-2', two_cases('ceremony', CER2, 'call'), run_two),
        space('ceremonies-3', three_cases('ceremony', CER3, 'call'),
              run_three),
    ]
    if THOROUGH:
        out += [
            space('ceremonies-opcode',
                  one_cases('ceremony', QUICK_C, 'opcode'), run_one),
            space('functions-opcode',
                  one_cases('function', FUN, 'opcode', [
                      'obj-u2f', 'cd-b', 'key-okp', 'ext-b', 'cose-okp',
                      'json-b', 'verify-okp', 'verify-ec-bad']), run_one),
            space('builders-2', two_cases('builder', [
                (a, b) for a, b in itertools.product(B, BUILDER_OPS2)
                if BUILDER_OPS[a][0] == BUILDER_OPS[b][0]
            ], 'call'), run_two),
        ]
    return out
