"""C05: every registrar answer, over sequences of ceremonies."""
import itertools

from mc import ceremony as c
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import errors as E
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.registrars import CredentialData, CredentialsRegistrar


class EqualsAnything:
    def __eq__(self, other):
        return True

    __hash__ = None


class Falsy:
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Odd(Exception):
    def __bool__(self):
        return False


RETURNS = {
    'None': None,
    'True': True,
    'False': False,
    '0': 0,
    '1': 1,
    '-1': -1,
    '0.0': 0.0,
    'nan': float('nan'),
    'str': '',
    'str-None': 'None',
    'ok': 'ok',
    'bytes': b'',
    'list': [],
    'list1': [None],
    'tuple': (),
    'tuple1': (None, ),
    'dict': {},
    'set': set(),
    'object': object(),
    'equals-anything': EqualsAnything(),
    'falsy': Falsy(),
    'Ellipsis': Ellipsis,
    'NotImplemented': NotImplemented,
    'exception': ValueError('returned'),
    'class': ValueError,
    'error-returned': E.RegistrationError('returned'),
}
LIB = sorted(n for n in E.__dict__
             if isinstance(getattr(E, n), type)
             and issubclass(getattr(E, n), E.WebAuthnRPError))
RAISES = {
    'Exception': Exception,
    'ValueError': ValueError,
    'KeyError': KeyError,
    'TypeError': TypeError,
    'AttributeError': AttributeError,
    'LookupError': LookupError,
    'AssertionError': AssertionError,
    'StopIteration': StopIteration,
    'RuntimeError': RuntimeError,
    'RecursionError': RecursionError,
    'OSError': OSError,
    'TimeoutError': TimeoutError,
    'EOFError': EOFError,
    'MemoryError': MemoryError,
    'NotImplementedError': NotImplementedError,
    'ZeroDivisionError': ZeroDivisionError,
    'UnicodeError': UnicodeError,
    'Odd': Odd,
}
for _n in LIB:
    RAISES['lib:' + _n] = getattr(E, _n)

BASE = 'unimplemented'  # the documented interface's own answer


def answer(spec):
    if spec == BASE:
        raise E.UnimplementedError('not implemented')
    kind, name = spec.split(':', 1)
    if kind == 'raise':
        raise RAISES[name]('from the registrar')
    return RETURNS[name]


STORE = ['return:' + n for n in RETURNS] + ['raise:' + n for n in RAISES]
GET = ['return:found', 'return:None'] + ['raise:' + n for n in RAISES]

#: one event: [ceremony, get answer or None, store answer, valid ceremony?]
EVENTS = ([['reg', None, s, True] for s in STORE] +
          [['auth', 'return:found', s, True] for s in STORE] +
          [['auth', g, 'return:None', True] for g in GET[1:]] +
          [['reg', None, 'return:None', False],
           ['auth', 'return:found', 'return:None', False]])
SMALL = [
    e for e in EVENTS
    if e[2] in ('return:None', 'return:False', 'return:list', 'return:True',
                'raise:KeyError', 'raise:lib:CredentialDataError',
                'raise:lib:WebAuthnRPError')
    and e[1] in (None, 'return:found', 'return:None', 'raise:KeyError',
                 'raise:lib:CredentialDataError')
]

REG_VARIANTS = [{}, {
    'fmt': 'u2f'
}, {
    'fmt': 'android'
}, {
    'key': ('ED25519', 'a', None, 'value')
}, {
    'ext': {
        'appid': False
    },
    'exp_ext': ('appid', )
}]
AUTH_VARIANTS = [{}, {
    'user': None,
    'handle': b'user-a'
}, {
    'stored': None
}, {
    'ignore_clone': True,
    'stored': 9
}, {
    'reg_rp': None
}, {
    'rp': None
}, {
    'key': ('P384', 'a', None, 'value')
}]


class Scripted(w.Recorder):
    def script(self, get, store, data):
        self.calls = []
        self.get_spec = get
        self.found = data
        self.on_att = self.on_ass = lambda: answer(store)

    def get_credential_data(self, credential_id):
        self.calls.append(('get', dict(credential_id=credential_id)))
        if self.get_spec == 'return:found':
            return self.found
        return answer(self.get_spec)

    def _store(self):
        return answer(self.store_spec)


def one(ctx, be, reg, ev, variant=None, tag=''):
    kind, get, store, valid = ev
    variant = dict(variant or {})
    if not valid:
        variant['challenge'] = 'AAAA'
    if kind == 'reg':
        cfg = dict(c.BASE_REG, **variant)
        reg.script(None, store, None)
        err, _, args, facts = c.run_reg(ctx, cfg, registrar=reg, backend=be)
    else:
        cfg = dict(c.BASE_AUTH, **variant)
        data = c.stored_data(cfg)
        reg.script(get, store, data)
        err, _, args, facts = c.run_auth(ctx, cfg, registrar=reg, backend=be)
    what = '{} {}'.format(tag, ev)
    storing = 'att' if kind == 'reg' else 'ass'
    calls = [k for k, _ in reg.calls]
    if not valid:
        if err is None:
            raise Violation('invalid ceremony accepted: ' + what)
        if storing in calls:
            raise Violation('invalid ceremony stored: ' + what)
        ctx.outcome('invalid')
        return
    if kind == 'auth' and get != 'return:found':
        want = (E.CredentialDataError
                if get == 'return:None' else E.RegistrationError)
        if not isinstance(err, want):
            raise Violation('lookup failed, the call answered {!r}: {}'.format(
                err, what))
        if storing in calls:
            raise Violation('stored after a failed lookup: ' + what)
        ctx.outcome(type(err).__name__)
        return
    if calls.count(storing) != 1 or calls[-1] != storing:
        raise Violation('registrar calls {}: {}'.format(calls, what))
    if 'ass' in calls and 'att' in calls:
        raise Violation('both kinds of registrar calls: ' + what)
    if store == 'return:None':
        if err is not None:
            raise Violation('refused with {!r}: {}'.format(err, what))
        ctx.outcome('accepted')
    else:
        if err is None:
            raise Violation('completed although the registrar failed: ' + what)
        if not isinstance(err, E.RegistrationError):
            raise Violation('raised {!r} instead of a registration error: {}'.
                            format(err, what))
        ctx.outcome('RegistrationError')
    if kind == 'reg':
        c.check_reg_handover(cfg, reg, args, facts)
    else:
        c.check_auth_handover(cfg, reg, args)


HONEST = [['reg', None, 'return:None', True],
          ['auth', 'return:found', 'return:None', True]]


def single_cases():
    for i, ev in enumerate(EVENTS):
        for v in range(
                len(REG_VARIANTS if ev[0] == 'reg' else AUTH_VARIANTS)):
            yield (i, v), [i, v]


def run_single(ctx, case):
    i, v = case
    ev = EVENTS[i]
    reg = Scripted()
    be = CredentialsBackend(reg)
    one(ctx, be, reg, ev,
        (REG_VARIANTS if ev[0] == 'reg' else AUTH_VARIANTS)[v])
    for h in HONEST:  # the backend is still fully usable
        one(ctx, be, reg, h, tag='after {}: '.format(ev))


def pair_cases():
    for p in itertools.product(range(len(EVENTS)), repeat=2):
        yield p, list(p)


DEPTH = 5 if THOROUGH else 4


def seq_cases():
    idx = [EVENTS.index(e) for e in SMALL]
    for p in itertools.product(idx, repeat=3):
        yield p, list(p)
    if THOROUGH:
        tiny = idx[::2]
        for p in itertools.product(tiny, repeat=5):
            yield p, list(p)


def run_seq(ctx, case):
    reg = Scripted()
    be = CredentialsBackend(reg)
    for k, i in enumerate(case):
        one(ctx, be, reg, EVENTS[i],
            tag='after {}: '.format([EVENTS[j] for j in case[:k]]))
    for h in HONEST:
        one(ctx, be, reg, h, tag='after {}: '.format(
            [EVENTS[j] for j in case]))


# Every flow of both ceremonies with the telling answers

MOST = None if THOROUGH else 3


def flow_cases():
    for kind, dims, most in (('reg', c.REG_FLOWS, None),
                             ('auth', c.AUTH_FLOWS, MOST)):
        for key, f in c.flows(dims, most):
            for i, ev in enumerate(SMALL):
                if ev[0] == kind and ev[3]:
                    yield (kind, key, i), [f, i]


def run_flow(ctx, case):
    f, i = case
    reg = Scripted()
    be = CredentialsBackend(reg)
    one(ctx, be, reg, SMALL[i], f, tag='{}: '.format(f))
    one(ctx, be, reg, HONEST[SMALL[i][0] == 'auth'], f,
        tag='{} after {}: '.format(f, SMALL[i]))


# The unimplemented interface itself


def base_cases():
    for k in ('reg', 'auth'):
        yield (k, ), k


def run_base(ctx, case):
    reg = CredentialsRegistrar()
    be = CredentialsBackend(reg)
    rec = w.Recorder()
    if case == 'reg':
        err = c.run_reg(ctx, c.BASE_REG, registrar=rec, backend=be)[0]
    else:
        err = c.run_auth(ctx, c.BASE_AUTH, registrar=rec, backend=be)[0]
    ctx.outcome(type(err).__name__)
    if not isinstance(err, E.RegistrationError):
        raise Violation('the unimplemented registrar gave {!r}'.format(err))


BOUNDS = ('{} registrar answers ({} values, {} exceptions) x ceremony kinds '
          'and variants, each followed by an honest registration and '
          'authentication; all pairs of {} events; all triples{} of {} events '
          'on one backend').format(
              len(STORE), len(RETURNS), len(RAISES), len(EVENTS),
              ' (and quintuples of every other one)' if THOROUGH else '',
              len(SMALL))
ASSUMPTIONS = [
    'answers whose repr() or str() itself fails and exceptions outside '
    'Exception (KeyboardInterrupt and the like) are not in the alphabet'
]


# A lookup that answers with something that is no credential data, or with
# credential data in which something is missing
FIELDS = ('credential_public_key', 'user_entity', 'rp_entity',
          'signature_count')
COUNTS = ('str', 'str-None', 'ok', 'bytes', 'list', 'list1', 'tuple', 'dict',
          'object', 'exception', 'class')


def garbage_cases():
    for n in RETURNS:
        for field in (None, ) + FIELDS:
            if n == 'None' and field in (None, 'rp_entity',
                                         'signature_count'):
                continue
            if field == 'signature_count' and n not in COUNTS:
                continue
            for v in range(len(AUTH_VARIANTS)):
                yield (n, field, v), [n, field, v]


def run_garbage(ctx, case):
    n, field, v = case
    reg = Scripted()
    be = CredentialsBackend(reg)
    cfg = dict(c.BASE_AUTH, **AUTH_VARIANTS[v])
    data = RETURNS[n]
    if field is not None:
        data = c.stored_data(cfg)._replace(**{field: data})
    reg.script('return:found', 'return:None', data)
    err = c.run_auth(ctx, cfg, registrar=reg, backend=be)[0]
    what = '{} as {} of an authentication with {}'.format(
        n, field or 'credential data', AUTH_VARIANTS[v])
    if err is None:
        raise Violation('completed with ' + what)
    if not isinstance(err, E.WebAuthnRPError):
        raise Violation('{!r} escaped with {}'.format(err, what))
    if reg.named('ass') or reg.named('att'):
        raise Violation('stored with ' + what)
    ctx.outcome(type(err).__name__)
    for h in HONEST:
        one(ctx, be, reg, h, tag='after ' + what)


def spaces():
    return [
        FnSpace('garbage', 'every answer that is no credential data, as the '
                'whole or as one part of it', garbage_cases, run_garbage),
        FnSpace('single', BOUNDS, single_cases, run_single),
        FnSpace('flows', '{} events in every flow of a ceremony{}'.format(
            len(SMALL), '' if THOROUGH else ' (at most 3 unusual choices in '
            'an authentication)'), flow_cases, run_flow),
        FnSpace('pairs', BOUNDS, pair_cases, run_seq),
        FnSpace('sequences', BOUNDS, seq_cases, run_seq),
        FnSpace('interface', 'the documented base class', base_cases,
                run_base),
    ]
