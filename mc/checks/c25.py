"""C25: who is authenticated, and to which relying party."""
import itertools

from mc import ceremony as c
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import types as T
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.errors import WebAuthnRPError
from webauthn_rp.registrars import CredentialData

OWNERS = [b'user-a', b'', b'\x00', bytes(range(64))]


def relatives(b):
    """Ids that are easily confused with b."""
    out = [None, b, b'user-b', b'', b + b'\x00', b[:-1], b[1:], b + b,
           b'\x00' + b, b.swapcase(), w.b64(b).encode(), b.hex().encode()]
    return [x for i, x in enumerate(out) if x not in out[:i]]


RPS = ['example.org', 'sub.example.org', 'EXAMPLE.org', 'xample.org', '']
#: the dimensions that say who is authenticated to whom
AIMS = {'user', 'reg_user', 'rp', 'reg_rp', 'allow'}
CRED = b'credential-id-01'
ALLOW = [None, [], [CRED], [b'other'], [b'other', CRED], [CRED, b'other'],
         [CRED[:-1]], [CRED + b'\x00'], [b'\x00' + CRED], [CRED[1:]],
         [CRED.upper()], [w.b64url(CRED).encode()], [b''], [CRED + CRED],
         [CRED[:8], CRED[8:]], [b'%d' % i for i in range(40)] + [CRED]]
BASE = dict(c.BASE_AUTH, exp_challenge=b'c25', key=('ED25519', 'a', None,
                                                    'value'))


def user_cases():
    """Owner x given user x handle x allow list."""
    for i, owner in enumerate(OWNERS):
        rel = relatives(owner)
        for j, given in enumerate(rel):
            for k, handle in enumerate(rel):
                for a, allow in enumerate(ALLOW):
                    yield (i, j, k, a), dict(reg_user=owner, user=given,
                                             handle=handle, allow=allow)


def rp_cases():
    """Registered x given x signed relying party x user and handle."""
    for rr, r, h in itertools.product([None] + RPS, [None] + RPS, RPS):
        for given, handle in (('u', None), ('u', 'u'), (None, 'u'),
                              ('x', None), (None, None), (None, 'x')):
            for allow in (None, [], [CRED]):
                for owner in OWNERS:
                    pick = {'u': owner, 'x': b'user-x', None: None}
                    yield (rr, r, h, given, handle, allow is None,
                           bool(allow), owner), dict(
                               reg_rp=rr, rp=r, hash_of=h,
                               user=pick[given], handle=pick[handle],
                               reg_user=owner, allow=allow)


def lookup_cases():
    """No data for the credential: nothing else may stand in for it."""
    for lookup in ('none', 'raises'):
        for given, handle, allow, rp in itertools.product(
                (None, b'user-a'), (None, b'user-a', b'user-b'),
                (None, [], [CRED], [b'other']), (None, 'example.org')):
            yield (lookup, given, handle, repr(allow), rp), dict(
                lookup=lookup, user=given, handle=handle, allow=allow, rp=rp)


def run_one(ctx, d):
    c.check_auth(ctx, dict(BASE, **d), True)


# --------------------------------------------------------------------------
# Several credentials with confusable ids in one registrar

IDS = [b'cred', b'cred\x00', b'Cred', b'']
WHO = [b'ann', b'bob', b'ann', b'ann\x00']
RPID = ['example.org', 'example.org', 'other.org', None]
UNKNOWN = b'nobody'


def store_get(cid):
    if cid not in IDS:
        return None
    i = IDS.index(cid)
    return CredentialData(
        credential_public_key=w.lib_key('ED25519', 'k%d' % i),
        signature_count=3,
        user_entity=w.user(WHO[i], 'registered %d' % i),
        rp_entity=None if RPID[i] is None else w.rp(RPID[i], 'reg %d' % i))


LISTS = [None] + [
    list(p) for n in range(5 if THOROUGH else 4)
    for p in itertools.product(range(5), repeat=n)
]
GIVEN = [None, b'ann', b'bob', b'ann\x00']
TEXTS = ['own', 0, 1, 2, 3]  # whose id the text form names


def store_cases():
    for i, s in itertools.product(range(5), range(4)):
        for la, g, h in itertools.product(range(len(LISTS)), range(4),
                                          range(4)):
            yield (i, s, la, g, h), [i, s, la, g, h]


def run_store(ctx, case):
    i, s, la, g, h = case
    ids = IDS + [UNKNOWN]
    for text in TEXTS:
        for rp in (None, 'example.org', 'other.org'):
            one_store(ctx, ids[i], i, s, LISTS[la], GIVEN[g], GIVEN[h], text,
                      rp)


_messages = {}


def message(s, rp_id):
    """Signed once per signer and relying party."""
    if (s, rp_id) not in _messages:
        cd = w.client_data('webauthn.get', b'c25', 'https://example.org')
        ad = w.auth_data(w.sha256(rp_id.encode()), w.UP, 9)
        _messages[s, rp_id] = cd, ad, w.sign('ED25519', 'k%d' % s, 'EDDSA',
                                             ad + w.sha256(cd))
    return _messages[s, rp_id]


def one_store(ctx, cid, i, s, lst, given, handle, text, rp):
    """The authenticator of credential s signs, presented under id cid."""
    ids = IDS + [UNKNOWN]
    allow = None if lst is None else [ids[x] for x in lst]
    rp_id = rp or (RPID[i] if i < 4 else None) or 'example.org'
    cd, ad, sig = message(s, rp_id)
    cred = w.assertion_credential(cid, cd, ad, sig, handle)
    if text != 'own':
        cred.id = w.b64url(IDS[text])
    rec = w.Recorder(on_get=store_get)
    args = dict(
        credential=cred, expected_challenge=b'c25',
        expected_origin='https://example.org',
        user=None if given is None else w.user(
            given, 'given', '', 'data:,'),
        rp=None if rp is None else w.rp(rp, 'given'),
        allow_credentials=None if allow is None else [
            T.PublicKeyCredentialDescriptor(
                type=T.PublicKeyCredentialType.PUBLIC_KEY, id=x)
            for x in allow])
    ok = (i < 4 and i == s and (allow is None or cid in allow) and
          (given is not None or handle is not None) and
          given in (None, WHO[i]) and handle in (None, WHO[i]) and
          (rp is not None if RPID[i] is None else rp in (None, RPID[i])))
    what = ('id {!r} signed by {} text {} allowed {} given {} handle {} rp {} '
            'is'.format(cid, s, text, allow, given, handle, rp))
    ctx.step()
    try:
        CredentialsBackend(rec).handle_credential_assertion(**args)
    except WebAuthnRPError as e:
        ctx.outcome(type(e).__name__)
        # a text form that names another credential may be refused
        if ok and text in ('own', i):
            raise Violation('{} refused with {!r}'.format(what, e))
        if rec.named('ass'):
            raise Violation('{} refused but reported'.format(what))
        return
    ctx.outcome('accepted')
    if not ok:
        raise Violation('{} accepted'.format(what))
    a = rec.named('ass')
    if len(a) != 1 or a[0]['user'].id != WHO[i] or a[0]['rp'].id != (
            RPID[i] or rp) or a[0]['credential'].raw_id != cid:
        raise Violation('{} reported as {!r}'.format(what, [
            (x['user'].id, x['rp'].id, x['credential'].raw_id) for x in a]))


BOUNDS = ('every owner ({}) x given user x handle over its confusable ids x '
          '{} allow lists; every registered x given x signed relying party '
          '({}) x 6 user and handle situations x 3 allow lists; a registrar '
          'with {} confusable credentials of 3 users: every presented id x '
          'signer x allow list of up to {} ids x given user x handle x text '
          'form of the id x given relying party').format(
              len(OWNERS), len(ALLOW), len(RPS), len(IDS),
              4 if THOROUGH else 3)
ASSUMPTIONS = [
    'a credential whose text id and raw id disagree may be refused',
]


def spaces():
    return [
        FnSpace('users', BOUNDS, user_cases, run_one),
        FnSpace('relying-parties', BOUNDS, rp_cases, run_one),
        FnSpace('lookups', BOUNDS, lookup_cases, run_one),
        FnSpace('store', BOUNDS, store_cases, run_store),
        FnSpace('scales', c.SCALES + ' (ids only)',
                lambda: c.scale_cases('auth'),
                lambda ctx, x: c.run_scale(ctx, 'auth', x, AIMS)),
    ]
