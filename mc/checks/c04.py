"""C04: signature counter.  Explicit-state search over the stores of a registrar
that keeps what it is given; every transition is one call of the real handler."""
import itertools

from mc import ceremony as c
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.errors import SignatureCountError, WebAuthnRPError
from webauthn_rp.registrars import CredentialData

VALUES = [
    0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**24 - 1, 2**24,
    2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1
]
BASE = dict(c.BASE_AUTH)


def want_ok(stored, count, ignore):
    return (stored is None or count > stored or (count == 0 and stored == 0)
            or ignore)


# --- one step: the full product -------------------------------------------

KEYS = [('P256', 'a', None, 'value'), ('P384', 'a', None, 'value'),
        ('P521', 'a', None, 'value'), ('ED25519', 'a', None, 'value'),
        ('ED448', 'a', None, 'name')]


def step_cases():
    for k in range(len(KEYS)):
        for st in [None] + VALUES:
            for n in VALUES:
                for ign in (False, True):
                    for fl in (w.UP, w.UP | w.UV):
                        for ext in (None, {'uvm': [[1, 2, 3]]}):
                            key = (k, st, n, ign, fl, ext is None)
                            yield key, [k, st, n, ign, fl, ext]


def run_step(ctx, case):
    k, st, n, ign, fl, ext = case
    cfg = dict(BASE, key=KEYS[k], stored=st, count=n, ignore_clone=ign,
               flags=fl, ext=ext)
    err, reg, args, genuine = c.run_auth(ctx, cfg)
    want = want_ok(st, n, ign)
    ctx.outcome('accepted' if err is None else type(err).__name__)
    if (err is None) != want:
        raise Violation('stored {} reported {} ignore={}: {}'.format(
            st, n, ign, 'accepted' if err is None else repr(err)))
    if err is not None:
        if not isinstance(err, SignatureCountError):
            raise Violation('refused with {!r}'.format(err))
        if reg.named('ass'):
            raise Violation('refused but reported')
    else:
        a, = reg.named('ass')
        if a['authenticator_data'].sign_count != n:
            raise Violation('the registrar was given count {} for {}'.format(
                a['authenticator_data'].sign_count, n))


BITS = sorted({
    v
    for k in range(33) for v in (2**k - 1, 2**k, 2**k + 1) if v < 2**32
})


def bit_cases():
    for i, st in enumerate([None] + BITS):
        for j, n in enumerate(BITS):
            for ign in (False, True):
                yield (i, j, ign), [0, st, n, ign, w.UP, None]


# --- histories --------------------------------------------------------------

IDS = [b'cred-one', b'cred-two']
HKEYS = [('P256', 'one', None, 'value'), ('ED25519', 'two', None, 'value')]


class Store(w.Recorder):
    """A registrar that stores the counter it is given."""
    def __init__(self, counters):
        super().__init__()
        self.counters = dict(zip(IDS, counters))

    def get_credential_data(self, credential_id):
        i = IDS.index(credential_id)
        return CredentialData(credential_public_key=w.lib_key(*HKEYS[i]),
                              signature_count=self.counters[credential_id],
                              user_entity=w.user(b'user-%d' % i),
                              rp_entity=w.rp())

    def register_credential_assertion(self, credential, authenticator_data,
                                      user, rp):
        self.calls.append(('ass', {}))
        self.counters[credential.raw_id] = authenticator_data.sign_count


def assertion(i, n):
    cd = w.client_data('webauthn.get', b'chal', 'https://example.org')
    ad = w.auth_data(w.sha256(b'example.org'), w.UP, n)
    sig = w.sign(HKEYS[i][0], HKEYS[i][1], w.DEFAULT_ALG[HKEYS[i][0]],
                 ad + w.sha256(cd))
    return w.assertion_credential(IDS[i], cd, ad, sig)


def play(ctx, be, store, ev, model):
    """One event on the real handler and on the model (a list of counters)."""
    i, n, ign = ev
    want = want_ok(model[i], n, ign)
    ctx.step()
    try:
        be.handle_credential_assertion(credential=assertion(i, n),
                                       expected_challenge=b'chal',
                                       expected_origin='https://example.org',
                                       rp=w.rp(),
                                       user=w.user(b'user-%d' % i),
                                       ignore_clone_error=ign)
        got = True
    except WebAuthnRPError as e:
        got = False
        if not isinstance(e, SignatureCountError):
            raise Violation('refused with {!r}'.format(e))
    if got != want:
        raise Violation('credential {} stored {} reported {} ignore={}: {}'.
                        format(i, model[i], n, ign,
                               'accepted' if got else 'refused'))
    if want:
        model[i] = n
    if [store.counters[x] for x in IDS] != model:
        raise Violation('stored counters {} instead of {}'.format(
            store.counters, model))


HV = [0, 1, 2, 2**31 - 1, 2**31, 2**32 - 1]
EVENTS = [(i, n, g) for i in range(2) for n in HV for g in (False, True)]


def closure_cases():
    """Every state the store can be in, each with every event: the whole
    reachable transition system (the store is the state)."""
    vals = [None] + HV
    for s in itertools.product(range(len(vals)), repeat=2):
        yield s, [vals[s[0]], vals[s[1]]]


def run_closure(ctx, case):
    start = list(case)
    ctx.state(('store', tuple(start)))
    for ev in EVENTS:
        store = Store(start)
        model = list(start)
        play(ctx, CredentialsBackend(store), store, ev, model)
        ctx.state(('store', tuple(model)))
        ctx.outcome('{}'.format('moved' if model != start else 'same'))


DEPTH = 5 if THOROUGH else 4
PV = [0, 1, 2**31, 2**32 - 1]
# two credentials on one backend; ignoring clones only for the first one
PEVENTS = [(0, n, False) for n in PV] + [(1, n, False) for n in PV] + [
    (0, 1, True), (1, 0, True)
]


def path_cases():
    for start in ((None, None), (0, 5), (2**31, None)):
        for path in itertools.product(range(len(PEVENTS)), repeat=DEPTH):
            yield (start, ) + path, [list(start), list(path)]


def run_path(ctx, case):
    start, path = case
    store = Store(start)
    be = CredentialsBackend(store)  # one backend for the whole history
    model = list(start)
    for k, p in enumerate(path):
        play(ctx, be, store, PEVENTS[p], model)
        ctx.state((tuple(start), tuple(path[:k + 1]), tuple(model)))
    ctx.outcome(str(sum(x is not None for x in model)))


BOUNDS = ('one step: all pairs of {} boundary counters (and no stored one) x '
          'ignore x flags x extensions x 5 key types; all {} store states of '
          'two credentials with all {} events; all histories of {} events over '
          '{} events on one backend').format(len(VALUES), 7 * 7, len(EVENTS),
                                             DEPTH, len(PEVENTS))
ASSUMPTIONS = ['the registrar stores the counter it is given']


# Every flow of an authentication with every relation of the two counters.
PAIRS = [{'stored': s, 'count': n} for s, n in (
    (None, 0), (None, 7), (0, 0), (0, 1), (1, 0), (5, 5), (5, 4), (5, 6),
    (2**31, 2**31 - 1), (2**31 - 1, 2**31), (2**32 - 1, 0), (2**32 - 1, 1),
    (0, 2**32 - 1), (2**32 - 1, 2**32 - 1), (256, 1), (1, 256))]
MOST = None if THOROUGH else 5


def spaces():
    return [
        FnSpace('flows', c.flow_text('auth', PAIRS) +
                (' (at most {} unusual choices)'.format(MOST) if MOST else ''),
                lambda: c.flow_cases('auth', PAIRS, MOST), c.run_flow),
        FnSpace('one-step', BOUNDS, step_cases, run_step),
        FnSpace('bit-boundaries', 'all pairs of the {} values next to a power '
                'of two'.format(len(BITS)), bit_cases, run_step),
        FnSpace('store-closure', BOUNDS, closure_cases, run_closure),
        FnSpace('histories', BOUNDS, path_cases, run_path),
    ]
