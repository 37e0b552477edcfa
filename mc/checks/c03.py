"""C03: recombination, tampering and replay (Dolev-Yao style)."""
import functools
import itertools

from mc import ceremony as c
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import types as T
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.errors import WebAuthnRPError
from webauthn_rp.registrars import CredentialData

# The attacker's knowledge: the pieces of honest ceremonies.
# credential -> (owner, relying party, key)
CREDS = {
    b'cred-alice-1': (b'alice', 'example.org', ('P256', 'al1', 'ES256')),
    b'cred-alice-2': (b'alice', 'example.org', ('ED25519', 'al2', 'EDDSA')),
    b'cred-alice-3': (b'alice', 'other.org', ('P256', 'al3', 'ES256')),
    b'cred-mallory': (b'mallory', 'example.org', ('P256', 'mal', 'ES256')),
    b'cred-bob': (b'bob', 'example.org', ('P384', 'bob', 'ES384')),
}
CH = {1: b'challenge-one', 2: b'challenge-two', 3: b'challenge-new'}

# honest ceremonies: credential, type, challenge, origin, rp, counter
HONEST = [
    (b'cred-alice-1', 'webauthn.get', 1, 'https://example.org', 'example.org',
     10),
    (b'cred-alice-1', 'webauthn.get', 2, 'https://example.org', 'example.org',
     11),
    (b'cred-alice-1', 'webauthn.get', 1, 'https://evil.org', 'example.org',
     12),
    (b'cred-alice-1', 'webauthn.get', 1, 'https://example.org', 'other.org',
     13),
    (b'cred-alice-1', 'webauthn.create', 1, 'https://example.org',
     'example.org', 14),
    (b'cred-alice-2', 'webauthn.get', 1, 'https://example.org', 'example.org',
     10),
    (b'cred-alice-3', 'webauthn.get', 1, 'https://other.org', 'other.org', 10),
    (b'cred-bob', 'webauthn.get', 1, 'https://example.org', 'example.org', 10),
    (b'cred-mallory', 'webauthn.get', 1, 'https://example.org', 'example.org',
     10),
]


@functools.lru_cache(None)
def pieces():
    cds, ads, sigs = [], [], []
    made = {}
    for cred, typ, ch, origin, rp, count in HONEST:
        cd = w.client_data(typ, CH[ch], origin)
        ad = w.auth_data(w.sha256(rp.encode()), w.UP | w.UV, count)
        curve, label, alg = CREDS[cred][2]
        sig = w.sign(curve, label, alg, ad + w.sha256(cd))
        for lst, x in ((cds, cd), (ads, ad), (sigs, sig)):
            if x not in lst:
                lst.append(x)
        made[sig] = (CREDS[cred][2], ad, cd)
    # forged client data and authenticator data, which nobody signed yet
    cds.append(w.client_data('webauthn.get', CH[3], 'https://example.org'))
    ads.append(w.auth_data(w.sha256(b'example.org'), w.UP | w.UV, 99))
    return cds, ads, sigs, made


# Signatures the attacker can make: with its own keys (mallory's and a second
# authenticator registered nowhere), over anything it likes.
OWN = [('P256', 'mal', 'ES256'), ('P256', 'rogue', 'ES256')]

SESSIONS = [
    # expected challenge, origin, rp, user
    (1, 'https://example.org', 'example.org', b'alice'),
    (2, 'https://example.org', 'example.org', b'alice'),
    (3, 'https://example.org', 'example.org', b'alice'),
    (1, 'https://example.org', 'example.org', b'mallory'),
    (1, 'https://example.org', 'example.org', b'bob'),
    (1, 'https://example.org', None, None),
    (1, 'https://other.org', 'other.org', b'alice'),
]


def recombine_cases():
    cds, ads, sigs, _ = pieces()
    n_sig = len(sigs) + len(OWN) + 2
    for key in itertools.product(range(len(SESSIONS)), range(len(CREDS)),
                                 range(4), range(len(cds)), range(len(ads)),
                                 range(n_sig)):
        yield key, list(key)


def run_recombine(ctx, case):
    s, ci, h, i, j, k = case
    cds, ads, sigs, made = pieces()
    cred_id = list(CREDS)[ci]
    owner, reg_rp, key = CREDS[cred_id]
    cd, ad = cds[i], ads[j]
    data = ad + w.sha256(cd)
    if k < len(sigs):
        sig = sigs[k]
        genuine = made[sig] == (key, ad, cd)
    elif k < len(sigs) + len(OWN):
        signer = OWN[k - len(sigs)]
        sig = w.sign(*signer, data)
        genuine = signer == key
    else:
        sig = (b'', b'\x30\x06\x02\x01\x00\x02\x01\x00')[k - len(sigs) -
                                                        len(OWN)]
        genuine = False
    handle = (None, b'alice', b'mallory', b'bob')[h]
    ch, origin, rp, user = SESSIONS[s]

    store = {
        cid: CredentialData(credential_public_key=w.lib_key(*kk),
                            signature_count=9,
                            user_entity=w.user(o),
                            rp_entity=w.rp(r))
        for cid, (o, r, kk) in CREDS.items()
    }
    reg = w.Recorder(store=store)
    cfg_t, cfg_c, cfg_o = _facts(cd)
    want = (genuine and cfg_t == 'webauthn.get' and cfg_c == CH[ch]
            and cfg_o == origin and (rp is None or rp == reg_rp)
            and ad[:32] == w.sha256(reg_rp.encode())
            and (user == owner if user is not None else handle is not None)
            and (handle is None or handle == owner))
    ctx.step()
    try:
        CredentialsBackend(reg).handle_credential_assertion(
            credential=w.assertion_credential(cred_id, cd, ad, sig, handle),
            expected_challenge=CH[ch],
            expected_origin=origin,
            rp=None if rp is None else w.rp(rp),
            user=None if user is None else w.user(user))
        got = True
    except WebAuthnRPError as e:
        got = False
        ctx.outcome('refused:' + type(e).__name__)
    what = dict(session=SESSIONS[s], credential=cred_id, handle=handle,
                client_data=cd, auth_data=ad, signature=sig)
    if got:
        ctx.outcome('accepted')
        if not want:
            raise Violation('recombined evidence accepted: {}'.format(what))
        if [a['user'].id for a in reg.named('ass')] != [owner]:
            raise Violation('authenticated somebody else: {}'.format(what))
    else:
        if want:
            raise Violation('genuine evidence refused: {}'.format(what))
        if reg.named('ass'):
            raise Violation('refused but reported: {}'.format(what))


@functools.lru_cache(None)
def _facts(cd):
    import json
    d = json.loads(cd)
    return d['type'], c.ref_b64url(d['challenge']), d['origin']


# --------------------------------------------------------------------------
# Tampering with an honest response

TKEYS = [('P256', 't', 'ES256'), ('ED25519', 't', 'EDDSA'),
         ('P384', 't', 'ES384'), ('P521', 't', 'ES512'),
         ('ED448', 't', 'EDDSA')]


@functools.lru_cache(None)
def honest(ki):
    curve, label, alg = TKEYS[ki]
    cd = w.client_data('webauthn.get', CH[1], 'https://example.org',
                       extra={'crossOrigin': False})
    import cbor2
    ad = w.auth_data(w.sha256(b'example.org'), w.UP | w.UV | w.ED, 10, b'',
                     cbor2.dumps({'appid': False}))
    return {
        'cd': cd,
        'ad': ad,
        'sig': w.sign(curve, label, alg, ad + w.sha256(cd))
    }


def tamper_cases():
    for ki in range(len(TKEYS)):
        full_values = THOROUGH or ki < 2
        h = honest(ki)
        for part in ('ad', 'cd', 'sig'):
            n = len(h[part])
            for i in range(n):
                vals = range(1, 256) if full_values else [
                    1, 2, 4, 8, 16, 32, 64, 128, 255
                ]
                for x in vals:
                    yield (ki, part, 'xor', i, x), [ki, part, 'xor', i, x]
                yield (ki, part, 'cut', i), [ki, part, 'cut', i, 0]
                yield (ki, part, 'tail', i), [ki, part, 'tail', i, 0]
                yield (ki, part, 'del', i), [ki, part, 'del', i, 0]
                yield (ki, part, 'swap', i), [ki, part, 'swap', i, 0]
            for i in range(n + 1):
                vals = range(256) if (THOROUGH or i in (0, n)) else [
                    0, 1, 32, 48, 127, 128, 255
                ]
                for x in vals:
                    yield (ki, part, 'ins', i, x), [ki, part, 'ins', i, x]
            for x in range(n):
                yield (ki, part, 'dup', x), [ki, part, 'dup', x, 0]
        yield (ki, 'none'), [ki, 'cd', 'none', 0, 0]


def tamper(b, op, i, x):
    if op == 'none':
        return b
    if op == 'xor':
        return b[:i] + bytes([b[i] ^ x]) + b[i + 1:]
    if op == 'cut':
        return b[:i]
    if op == 'tail':
        return b[i + 1:]
    if op == 'del':
        return b[:i] + b[i + 1:]
    if op == 'swap':
        return b[:i] + b[i:i + 2][::-1] + b[i + 2:]
    if op == 'ins':
        return b[:i] + bytes([x]) + b[i:]
    if op == 'dup':
        return b + b[:i + 1]
    raise AssertionError(op)


def run_tamper(ctx, case):
    ki, part, op, i, x = case
    h = dict(honest(ki))
    orig = h[part]
    h[part] = tamper(orig, op, i, x)
    changed = h[part] != orig
    data = CredentialData(credential_public_key=w.lib_key(*TKEYS[ki]),
                          signature_count=9,
                          user_entity=w.user(),
                          rp_entity=w.rp())
    reg = w.Recorder(data=data)
    ctx.step()
    try:
        CredentialsBackend(reg).handle_credential_assertion(
            credential=w.assertion_credential(b'cred', h['cd'], h['ad'],
                                              h['sig']),
            expected_challenge=CH[1],
            expected_origin='https://example.org',
            rp=w.rp(),
            user=w.user())
        ctx.outcome('accepted')
        ok = True
    except WebAuthnRPError as e:
        ctx.outcome('refused:' + type(e).__name__)
        ok = False
    if ok and changed:
        raise Violation('accepted although the {} was changed ({} at {}): '
                        '{!r}'.format(part, op, i, h[part]))
    if not ok and not changed:
        raise Violation('the unchanged response was refused')
    if not ok and reg.named('ass'):
        raise Violation('refused but reported')


# --------------------------------------------------------------------------
# Same meaning, other bytes: what was signed are the bytes.


@functools.lru_cache(None)
def equivalents(ki):
    import json
    h = honest(ki)
    d = json.loads(h['cd'])
    cds = [
        json.dumps(d, separators=(',', ':')).encode(),
        json.dumps(d, indent=1).encode(),
        json.dumps(d, sort_keys=True).encode(),
        json.dumps(dict(reversed(list(d.items())))).encode(),
        h['cd'].replace(b'"type"', b'"\\u0074ype"'),
        h['cd'].replace(b'webauthn.get', b'webauthn\\u002eget'),
        h['cd'].replace(b'https://', b'https:\\/\\/'),
        b' ' + h['cd'], h['cd'] + b'\n',
        h['cd'][:-1] + b', "type": "webauthn.get"}',
        b'{"type": "webauthn.create", ' + h['cd'][1:],
        h['cd'][:-1] + b', "extra": null}',
        json.dumps({k: v for k, v in d.items() if k != 'crossOrigin'
                    }).encode(),
        json.dumps(dict(d, challenge=d['challenge'] + '=')).encode(),
        json.dumps(dict(d, origin='https://EXAMPLE.org')).encode(),
        json.dumps(dict(d, origin='https://example.org:443')).encode(),
        json.dumps(dict(d, tokenBinding=None)).encode(),
    ]
    base = h['ad'][:37]
    ads = [base + x for x in (
        b'\xbf\x65appid\xf4\xff', b'\xa1\x78\x05appid\xf4',
        b'\xb8\x01\x65appid\xf4', b'\xa1\x7f\x65appid\xff\xf4',
        b'\xa1\x65appid\xf5', b'\xa0', b'\xa2\x65appid\xf5\x65appid\xf4')]
    ads.append(base[:32] + bytes([base[32] & ~w.ED]) + base[33:37])
    ads += [
        base[:32] + bytes([base[32] ^ b]) + h['ad'][33:]
        for b in (2, 4, 8, 16, 32)
    ]
    return cds, ads


def equivalent_cases():
    for ki in range(len(TKEYS)):
        cds, ads = equivalents(ki)
        for i in range(-1, len(cds)):
            for j in range(-1, len(ads)):
                for s in range(4):
                    yield (ki, i, j, s), [ki, i, j, s]


def run_equivalent(ctx, case):
    """s: 0 the signature of the original, 1 one of exactly these bytes, 2 one
    of these authenticator data with the original client data, 3 the other
    way round."""
    ki, i, j, s = case
    h = honest(ki)
    cds, ads = equivalents(ki)
    cd = h['cd'] if i < 0 else cds[i]
    ad = h['ad'] if j < 0 else ads[j]
    signed = {
        0: (h['ad'], h['cd']),
        1: (ad, cd),
        2: (ad, h['cd']),
        3: (h['ad'], cd)
    }[s]
    sig = w.sign(*TKEYS[ki], signed[0] + w.sha256(signed[1]))
    genuine = signed == (ad, cd)
    data = CredentialData(credential_public_key=w.lib_key(*TKEYS[ki]),
                          signature_count=9,
                          user_entity=w.user(),
                          rp_entity=w.rp())
    reg = w.Recorder(data=data)
    ctx.step()
    try:
        CredentialsBackend(reg).handle_credential_assertion(
            credential=w.assertion_credential(b'cred', cd, ad, sig),
            expected_challenge=CH[1],
            expected_origin='https://example.org',
            rp=w.rp(),
            user=w.user())
        ok = True
        ctx.outcome('accepted')
    except WebAuthnRPError as e:
        ok = False
        ctx.outcome('refused:' + type(e).__name__)
    if (ok and not genuine) or (genuine and not ok and i < 0 and j < 0):
        raise Violation(
            '{} although the signature is {} the presented bytes: {!r} {!r}'.
            format('accepted' if ok else 'refused',
                   'of' if genuine else 'not of', cd, ad))
    if not ok and reg.named('ass'):
        raise Violation('refused but reported')


BOUNDS = (
    'all recombinations of the {} honest ceremonies of 5 credentials (client '
    'data, authenticator data, signature, user handle, credential id), two '
    'forged messages, attacker-made signatures with two own keys, in {} '
    'sessions; every single-byte change ({}), truncation at both ends, '
    'deletion, adjacent swap, insertion and appended prefix of one honest '
    'response per key type').format(
        len(HONEST), len(SESSIONS),
        'all values' if THOROUGH else
        'all values for P-256 and Ed25519, single bits for the others')
ASSUMPTIONS = [
    'perfect cryptography: the attacker signs only with keys it owns; '
    'ECDSA malleability (r, n-s) is outside the alphabet',
]


def run_near(ctx, case):
    kind, d = case
    if kind == 'reg':
        c.check_reg(ctx, c.full(c.BASE_REG, d))
    else:
        c.check_auth(ctx, c.full(c.BASE_AUTH, d))


# Every piece of evidence wrong, in every flow of an authentication.
EVIDENCE = [{'sig': s} for s in (
    'empty', 'short', 'long', 'flip', 'no-hash', 'swapped', 'other-cd',
    'other-ad', 'other-hash', 'zero')] + [
        {'signer': s} for s in (('P256', 'b', 'ES256'), ('P384', 'b', 'ES384'),
                                ('ED25519', 'b', 'EDDSA'))] + [
        {'cdtype': 'webauthn.create'}, {'challenge': 'AAAA'},
        {'challenge': w.b64url(c._EC[:-1])},
        {'challenge': w.b64url(c._EC + b'x')},
        {'origin': 'https://evil.org'}, {'hash_of': 'evil.org'},
        {'hash_flip': 31}, {'handle': b'user-b'}]
MOST = None if THOROUGH else 5


def spaces():
    return [
        FnSpace('flows', c.flow_text('auth', EVIDENCE) +
                (' (at most {} unusual choices)'.format(MOST) if MOST else ''),
                lambda: c.flow_cases('auth', EVIDENCE, MOST),
                lambda ctx, x: c.run_flow(ctx, x, False)),
        FnSpace('recombination', BOUNDS, recombine_cases, run_recombine),
        FnSpace('tampering', BOUNDS, tamper_cases, run_tamper),
        FnSpace('other-encodings', '17 re-encodings of the client data x 13 of '
                'the authenticator data x 4 signed contents x 5 keys',
                equivalent_cases, run_equivalent),
        FnSpace('near-sessions', c.NEAR,
                lambda: ((('reg', ) + k, ['reg', d])
                         for k, d in c.near_cases('reg')), run_near),
        FnSpace('near-sessions-2', c.NEAR,
                lambda: ((('auth', ) + k, ['auth', d])
                         for k, d in c.near_cases('auth')), run_near),
    ]
