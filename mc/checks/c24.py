"""C24: the whole life of credentials, against a registrar that stores what it
is given.  Explicit-state search: the store is the state, every transition is
one call of the real handlers."""
import functools
import itertools
import json

import cbor2

from mc import ceremony as c
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import types as T
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.builders import (CredentialCreationOptionsBuilder,
                                  CredentialRequestOptionsBuilder)
from webauthn_rp.converters import cose_key, jsonify
from webauthn_rp.errors import WebAuthnRPError
from webauthn_rp.parsers import parse_cose_key, parse_public_key_credential
from webauthn_rp.registrars import CredentialData

#: name: two authenticators (curve, alg, form, attestation format), how the
#: registrar keeps keys, whether it keeps the relying party, the count it
#: stores at registration
CONFIGS = {
    'u2f+none': (('P256', 'ES256', 'value', 'u2f'),
                 ('ED25519', 'EDDSA', 'value', 'none'), 'object', True, None),
    'android': (('P384', 'ES384', 'value', 'android'),
                ('ED448', 'EDDSA', 'name', 'android'), 'cose', True, None),
    'none': (('P521', 'ES512', 'name', 'none'),
             ('P256', 'ES512', 'value', 'none'), 'cose', False, None),
    'none-object': (('ED448', 'EDDSA', 'value', 'none'),
                    ('P384', 'ES256', 'name', 'none'), 'object', False, 'att'),
    'mixed': (('P256', 'ES256', 'name', 'android'),
              ('P521', 'ES256', 'value', 'none'), 'cose', True, 'att'),
    'twins': (('ED25519', 'EDDSA', 'value', 'android'),
              ('ED25519', 'EDDSA', 'name', 'none'), 'object', True, 'att'),
}
IDS = [b'credential-1', b'credential-1\x00', b'nobody']
USERS = [b'ann', b'bob']
RPS = ['example.org', 'login.example.org']
COUNTS = [0, 1, 2**31, 2**32 - 1] if THOROUGH else [0, 2**31]
ORIGIN = 'https://login.example.org'
DEFECTS = [None, 'challenge', 'origin', 'up', 'hash', 'type', 'statement',
           'registrar']


class Store(w._R.CredentialsRegistrar):
    """What the documentation describes: keeps what it is given."""
    def __init__(self, keys, keep_rp, initial):
        self.keys = keys
        self.keep_rp = keep_rp
        self.initial = initial
        self.rows = {}
        self.fail = False

    def copy(self):
        s = Store(self.keys, self.keep_rp, self.initial)
        s.rows = dict(self.rows)
        return s

    def register_credential_attestation(self, credential, att, att_type, user,
                                        rp, trusted_path=None):
        if self.fail:
            return 'no'
        acd = att.auth_data.attested_credential_data
        key = acd.credential_public_key
        if self.keys == 'cose':
            key = cose_key(key)
        self.rows[acd.credential_id] = (
            key, None if self.initial is None else att.auth_data.sign_count,
            user, rp)

    def register_credential_assertion(self, credential, authenticator_data,
                                      user, rp):
        if self.fail:
            return 'no'
        key, _, u, r = self.rows[credential.raw_id]
        self.rows[credential.raw_id] = (key, authenticator_data.sign_count, u,
                                        r)

    def get_credential_data(self, credential_id):
        row = self.rows.get(credential_id)
        if row is None:
            return None
        key, n, u, r = row
        return CredentialData(
            parse_cose_key(key) if self.keys == 'cose' else key, n, u,
            r if self.keep_rp else None)

    def state(self):
        """Per id: (key, count, user id, relying party id) or None."""
        out = []
        for i in IDS[:2]:
            row = self.rows.get(i)
            out.append(None if row is None else (
                w.view(parse_cose_key(row[0]) if self.keys == 'cose'
                       else row[0]), row[1], row[2].id, row[3].id))
        if set(self.rows) - set(IDS[:2]):
            raise Violation('stored under an id that never registered')
        return out


# --------------------------------------------------------------------------
# Messages


#: the optional fields of the two keys
EXTRAS = (3, 5)


def keyspec(cfg, k):
    curve, alg, form, _ = CONFIGS[cfg][k]
    return curve, 'key%d' % k, alg, form


@functools.lru_cache(None)
def registration(cfg, slot, k, rp, defect, challenge):
    spec = keyspec(cfg, k)
    fmt = CONFIGS[cfg][k][3]
    if defect == 'statement':
        fmt = {'u2f': 'u2f-sig', 'android': 'android-sig',
               'none': 'none-extra'}[fmt]
    full = dict(c.BASE_REG, key=spec, cred_id=IDS[slot], fmt=fmt,
                looks=EXTRAS[k],
                hash_of=RPS[rp] if defect != 'hash' else 'evil.org',
                origin=ORIGIN if defect != 'origin' else 'https://evil.org',
                flags=0 if defect == 'up' else w.UP,
                cdtype='webauthn.get' if defect == 'type' else
                'webauthn.create',
                exp_challenge=challenge if defect != 'challenge' else
                b'another')
    cd, ad, ao, st = c.build_reg(full)
    return cd, ao


#: authenticator data of an assertion: flags, attested credential data (which
#: key of the set-up, which form, which id), extension outputs
SHAPES = {
    'plain': (w.UP, None, None),
    'verified': (w.UP | w.UV, None, {}),
    'own': (w.UP, (0, None, None), None),
    'own-other-form': (w.UP | w.UV, (0, 'flip', None), {'appid': True}),
    'other-key': (w.UP, (1, None, None), None),
    'other-id': (w.UP, (0, None, b'somebody'), {'uvm': [[2, 4, 2]]}),
    'both-other': (w.UP | w.UV, (1, 'flip', IDS[1]), None),
}


@functools.lru_cache(None)
def assertion(cfg, k, rp, count, challenge, kind='webauthn.get',
              shape='plain', cid=None):
    curve, label, alg, form = keyspec(cfg, k)
    cd = w.client_data(kind, challenge, ORIGIN)
    flags, att, ext = SHAPES[shape]
    body = b''
    if att is not None:
        other, flip, aid = att
        acurve, alabel, aalg, aform = keyspec(cfg, k ^ other)
        if flip:
            aform = {'value': 'name', 'name': 'value'}[aform]
        body = w.attested_data(bytes(16), cid if aid is None else aid,
                               w.cose_map(acurve, alabel, aalg, aform))
        flags |= w.AT
    if ext is not None:
        flags |= w.ED
    ad = w.auth_data(w.sha256(RPS[rp].encode()), flags, count, body,
                     b'' if ext is None else cbor2.dumps(ext))
    return cd, ad, w.sign(curve, label, alg, ad + w.sha256(cd))


def to_json(cid, response):
    """What the browser sends."""
    return json.loads(json.dumps({
        'id': w.b64url(cid), 'rawId': w.b64(cid), 'type': 'public-key',
        'response': {k: None if v is None else w.b64(v)
                     for k, v in response.items()}}))


# --------------------------------------------------------------------------
# One event on the real code and on the model


def model_step(cfg, m, ev):
    """-> (accepted, new model); m: per id None or (key, count, user, rp)."""
    _, _, _, keep, initial = CONFIGS[cfg]
    if ev[0] == 'reg':
        _, slot, k, u, r, defect = ev
        if defect is not None:
            return False, m
        new = list(m)
        new[slot] = (k, 0 if initial else None, u, r)
        return True, tuple(new)
    _, slot, k, given, handle, rp, signed, n, fail = ev[:9]
    row = m[slot] if slot < 2 else None
    if row is None or fail:
        return False, m
    key, stored, owner, reg_rp = row
    if given is None and handle is None:
        return False, m
    if given not in (None, owner) or handle not in (None, owner):
        return False, m
    if keep:
        if rp not in (None, reg_rp):
            return False, m
        eff = reg_rp
    else:
        if rp is None:
            return False, m
        eff = rp
    if signed != eff or k != key:
        return False, m
    if stored is not None and not (n > stored or n == stored == 0):
        return False, m
    new = list(m)
    new[slot] = (key, n, owner, reg_rp)
    return True, tuple(new)


@functools.lru_cache(None)
def user(u, who):
    return w.user(USERS[u], who, '' if who == 'given' else 'Who is ' + who,
                  None if who == 'given' else 'https://i.org/' + who)


def real_step(ctx, cfg, store, be, ev, challenge=b'c24', piped=False):
    """-> accepted"""
    ctx.step()
    try:
        if ev[0] == 'reg':
            _, slot, k, u, r, defect = ev
            store.fail = defect == 'registrar'
            if piped:
                challenge = sent(CredentialCreationOptionsBuilder(
                    rp=w.rp(RPS[r]), pub_key_cred_params=PARAMS).build(
                        user=user(u, 'u'), challenge=challenge))
            cd, ao = registration(cfg, slot, k, r, defect, challenge)
            if piped:
                cred = parse_public_key_credential(to_json(
                    IDS[slot],
                    {'clientDataJSON': cd, 'attestationObject': ao}))
            else:
                cred = w.attestation_credential(IDS[slot], cd, ao)
            be.handle_credential_attestation(
                credential=cred, user=user(u, 'registered'),
                rp=w.rp(RPS[r], '' if u else 'First'),
                expected_challenge=challenge, expected_origin=ORIGIN)
        else:
            _, slot, k, given, handle, rp, signed, n, fail = ev[:9]
            shape = ev[9] if len(ev) > 9 else 'plain'
            store.fail = fail
            if piped:
                challenge = sent(CredentialRequestOptionsBuilder().build(
                    challenge=challenge))
            cd, ad, sig = assertion(cfg, k, signed, n, challenge, shape=shape,
                                    cid=IDS[slot])
            h = None if handle is None else USERS[handle]
            if piped:
                cred = parse_public_key_credential(to_json(
                    IDS[slot], {'clientDataJSON': cd, 'authenticatorData': ad,
                                'signature': sig, 'userHandle': h}))
            else:
                cred = w.assertion_credential(IDS[slot], cd, ad, sig, h)
            authenticate(be, cred, given, rp, challenge)
        return True
    except WebAuthnRPError as e:
        ctx.last_error = repr(e)
        return False
    finally:
        store.fail = False


def authenticate(be, cred, given, rp, challenge):
    be.handle_credential_assertion(
        credential=cred,
        user=None if given is None else user(given, 'given'),
        rp=None if rp is None else w.rp(RPS[rp], 'Later', 'data:,'),
        # a user who gave a name is offered credentials
        allow_credentials=None if given is None else [
            T.PublicKeyCredentialDescriptor(
                type=T.PublicKeyCredentialType.PUBLIC_KEY, id=i,
                transports=list(T.AuthenticatorTransport)) for i in IDS],
        expected_challenge=challenge, expected_origin=ORIGIN)


PARAMS = [T.PublicKeyCredentialParameters(
    type=T.PublicKeyCredentialType.PUBLIC_KEY, alg=a)
    for a in T.COSEAlgorithmIdentifier.Value]


def sent(options):
    """The challenge as it arrives at the client."""
    import base64
    j = json.loads(json.dumps(jsonify(options)))
    return base64.b64decode(j['publicKey']['challenge'])


@functools.lru_cache(None)
def key_view(cfg, k):
    return w.view(w.lib_key(*keyspec(cfg, k),
                            **c.look_key({'looks': EXTRAS[k]}, True)))


def picture(cfg, m):
    return [None if row is None else
            (key_view(cfg, row[0]), row[1], USERS[row[2]], RPS[row[3]])
            for row in m]


def compare(ctx, cfg, store, m, ev, got, want):
    if got != want:
        raise Violation('{}: in state {}, {} was {}'.format(
            cfg, m, ev, 'accepted' if got else
            'refused ({})'.format(ctx.last_error)))
    if store.state() != picture(cfg, m):
        raise Violation('{}: after {} the store is {}, expected {}'.format(
            cfg, ev, store.state(), picture(cfg, m)))


# --------------------------------------------------------------------------
# Closure: every reachable store, every event


@functools.lru_cache(None)
def events():
    out = []
    for slot, k, u, r in itertools.product(range(2), repeat=4):
        for d in DEFECTS if (slot, u, r) == (0, 0, 0) else [None]:
            out.append(('reg', slot, k, u, r, d))
    for slot, k in itertools.product(range(3), range(2)):
        for given, handle in itertools.product((None, 0, 1), repeat=2):
            for rp, signed, n in itertools.product((None, 0, 1), (0, 1),
                                                   COUNTS):
                out.append(('auth', slot, k, given, handle, rp, signed, n,
                            False))
    out += [('auth', s, k, 0, 0, 0, 0, n, True) for s in range(2)
            for k in range(2) for n in COUNTS]
    out += [('auth', s, k, u, h, 0, signed, n, False, shape)
            for s in range(3) for k in range(2)
            for u, h in ((None, None), (None, 0), (0, None), (0, 1), (1, 1))
            for signed in range(2) for n in COUNTS
            for shape in SHAPES if shape != 'plain']
    return out


@functools.lru_cache(None)
def reachable(cfg):
    """Every model state with a shortest path to it."""
    paths = {(None, None): ()}
    todo = [(None, None)]
    while todo:
        nxt = []
        for m in todo:
            for i, ev in enumerate(events()):
                ok, n = model_step(cfg, m, ev)
                if n not in paths:
                    paths[n] = paths[m] + (i, )
                    nxt.append(n)
        todo = nxt
    return paths


def closure_cases():
    for cfg in CONFIGS:
        for m, path in sorted(reachable(cfg).items(), key=lambda x: x[1]):
            yield (cfg, ) + path, [cfg, list(path)]


def new_store(cfg):
    _, _, keys, keep, initial = CONFIGS[cfg]
    return Store(keys, keep, initial)


def run_closure(ctx, case):
    cfg, path = case
    store = new_store(cfg)
    m = (None, None)
    for i in path:
        ev = events()[i]
        want, m = model_step(cfg, m, ev)
        got = real_step(ctx, cfg, store, CredentialsBackend(store), ev)
        compare(ctx, cfg, store, m, ev, got, want)
    ctx.state((cfg, m))
    acc = 0
    for ev in events():
        s = store.copy()
        want, n = model_step(cfg, m, ev)
        got = real_step(ctx, cfg, s, CredentialsBackend(s), ev)
        compare(ctx, cfg, s, n, ev, got, want)
        acc += got
    ctx.outcome('accepted:%d' % acc)


# --------------------------------------------------------------------------
# Histories through the JSON form on one backend

H = 5 if THOROUGH else 4
#: event at step t; counts grow, challenges differ
HEVENTS = [
    ('reg', 0, 0, 0, 0, None),
    ('reg', 1, 1, 1, 1, None),
    ('reg', 0, 1, 1, 0, None),  # another user registers under the first id
    ('reg', 0, 0, 0, 0, 'challenge'),
    ('reg', 1, 1, 1, 1, 'registrar'),
    ('auth', 0, 0, 0, None, 0, 0, 'n', False),
    ('auth', 0, 0, None, 0, 0, 0, 'n', False),
    ('auth', 1, 1, 1, 1, 1, 1, 'n', False),
    ('auth', 1, 1, 0, None, 1, 1, 'n', False),  # other user
    ('auth', 0, 1, None, 1, 0, 0, 'n', False),
    ('auth', 1, 1, 1, None, 0, 0, 'n', False),  # other relying party
    ('auth', 0, 0, 0, None, 0, 0, 'n', True),  # registrar fails
    ('auth', 0, 0, 0, None, 0, 0, 'n', False, 'own-other-form'),
    ('replay', 0),
    ('replay', 1),
]
HCONFIGS = list(CONFIGS) if THOROUGH else ['u2f+none', 'android', 'none']


def history_cases():
    for cfg in HCONFIGS:
        for p in itertools.product(range(len(HEVENTS)), repeat=H):
            # without a registration before it, every step is a refusal
            if p[0] > 2:
                continue
            yield (cfg, ) + p, [cfg, list(p)]


def run_history(ctx, case):
    cfg, path = case
    store = new_store(cfg)
    be = CredentialsBackend(store)
    m = (None, None)
    sent_before = {}
    for t, i in enumerate(path):
        ev = HEVENTS[i]
        challenge = b'challenge %d' % t
        if ev[0] == 'replay':
            if ev[1] not in sent_before:
                continue
            js, given, rp = sent_before[ev[1]]
            ctx.step()
            try:
                authenticate(be, parse_public_key_credential(js), given, rp,
                             challenge)
                got = True
            except WebAuthnRPError:
                got = False
            want = False
        else:
            if ev[0] == 'auth':
                ev = ev[:7] + (t + 1, ) + ev[8:]
                cd, ad, sig = assertion(cfg, ev[2], ev[6], ev[7], challenge,
                                        shape=(ev + ('plain', ))[9],
                                        cid=IDS[ev[1]])
                sent_before[ev[1]] = to_json(
                    IDS[ev[1]],
                    {'clientDataJSON': cd, 'authenticatorData': ad,
                     'signature': sig,
                     'userHandle': None if ev[4] is None else USERS[ev[4]]
                     }), ev[3], ev[5]
            want, m = model_step(cfg, m, ev)
            got = real_step(ctx, cfg, store, be, ev, challenge, True)
        compare(ctx, cfg, store, m, ev, got, want)
        ctx.state((cfg, tuple(path[:t + 1]), m))
    ctx.outcome(str(m.count(None)))


BOUNDS = ('{} registrar and authenticator set-ups (all five curves, three '
          'attestation formats, keys kept as objects or COSE, relying party '
          'kept or not): every reachable store of 2 credential ids x 2 keys x '
          '2 users x 2 relying parties x counters {}, and every one of {} '
          'events in each; all histories of {} events (of {}) through the '
          'JSON form on one backend').format(
              len(CONFIGS), COUNTS, len(events()), H, len(HEVENTS))
ASSUMPTIONS = ['the registrar stores exactly what it is given']


def spaces():
    return [
        FnSpace('closure', BOUNDS, closure_cases, run_closure,
                case_seconds=60),
        FnSpace('histories', BOUNDS, history_cases, run_history),
    ]
