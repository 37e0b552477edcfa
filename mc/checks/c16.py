"""C16: persistent builders."""
import copy
import itertools

from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.builders import (CredentialCreationOptionsBuilder,
                                  CredentialRequestOptionsBuilder)

# --------------------------------------------------------------------------
# Values: built afresh for each use

PK = T.PublicKeyCredentialType.PUBLIC_KEY
ALG = T.COSEAlgorithmIdentifier.Value
UVR = T.UserVerificationRequirement


def param(a):
    return T.PublicKeyCredentialParameters(type=PK, alg=a)


def desc(i, tr=None):
    return T.PublicKeyCredentialDescriptor(type=PK, id=i, transports=tr)


def selection(k):
    return T.AuthenticatorSelectionCriteria(
        authenticator_attachment=None
        if k else T.AuthenticatorAttachment.PLATFORM,
        require_resident_key=not k,
        user_verification=UVR.REQUIRED if k else UVR.DISCOURAGED)


def extensions(k):
    if k == 0:
        return T.AuthenticationExtensionsClientInputs()
    return T.AuthenticationExtensionsClientInputs(
        appid='a' * k,
        tx_auth_generic=T.TxAuthGenericArg(content_type='t', content=b'c'),
        authn_sel=[b'\x00' * 16, b'\x01' * 16],
        uvm=False,
        biometric_perf_bounds=T.AuthenticatorBiometricPerfBounds(FAR=0.5,
                                                                 FRR=0.0))


AT = T.AttestationConveyancePreference
MED = T.CredentialMediationRequirement
TR = T.AuthenticatorTransport

VALUES = {
    'create': {
        'rp': [lambda: w.rp('a.org', 'A', 'icon'), lambda: w.rp('b.org', '')],
        'pub_key_cred_params': [lambda: [param(ALG.ES256), param(ALG.EDDSA)],
                                lambda: []],
        'timeout': [lambda: 1000, lambda: 0, lambda: None],
        'authenticator_selection': [lambda: selection(0), lambda: selection(1),
                                    lambda: None],
        'extensions': [lambda: extensions(1), lambda: extensions(0),
                       lambda: None],
        'attestation': [lambda: AT.DIRECT, lambda: AT.NONE],
        'exclude_credentials': [
            lambda: [desc(b'x', [TR.USB]), desc(b'')], lambda: [],
            lambda: None],
    },
    'request': {
        'mediation': [lambda: MED.REQUIRED, lambda: MED.OPTIONAL],
        'timeout': [lambda: 1000, lambda: 0, lambda: None],
        'rp_id': [lambda: 'a.org', lambda: '', lambda: None],
        'extensions': [lambda: extensions(1), lambda: extensions(0),
                       lambda: None],
        'user_verification': [lambda: UVR.REQUIRED, lambda: UVR.PREFERRED,
                              lambda: None],
    },
}
CLASS = {'create': CredentialCreationOptionsBuilder,
         'request': CredentialRequestOptionsBuilder}
DEFAULT = {
    'create': dict.fromkeys(VALUES['create'], None),
    'request': dict.fromkeys(VALUES['request'], None),
}
DEFAULT['create']['attestation'] = w.view(AT.NONE)
DEFAULT['request']['mediation'] = w.view(MED.OPTIONAL)
DEFAULT['request']['user_verification'] = w.view(UVR.PREFERRED)
REQUIRED = {'create': ('rp', 'pub_key_cred_params', 'attestation'),
            'request': ('mediation', )}
OMIT = -1
NONE = -2

USERS = [('user-a', lambda: w.user()), ('user-b', lambda: w.user(b'', 'b'))]
ALLOW = [lambda: None, lambda: [], lambda: [desc(b'y'), desc(b'z', [])]]


def build(side, b, variant=0):
    """-> (options or None, the build arguments' view)"""
    challenge = [b'challenge', b'', b'\x00' * 64][variant]
    if side == 'create':
        kw = {'user': USERS[variant % 2][1](), 'challenge': challenge}
    else:
        kw = {'challenge': challenge}
        a = ALLOW[variant]()
        if a is not None or variant == 2:
            kw['allow_credentials'] = a
    before = {k: w.view(v) for k, v in kw.items()}
    try:
        out = b.build(**kw)
    except E.BuilderError:
        out = None
    if {k: w.view(v) for k, v in kw.items()} != before:
        raise Violation('building changed its arguments')
    return out, before


def picture(side, out):
    """{attribute: view} shown by built options."""
    pk = out.public_key
    d = {}
    for a in VALUES[side]:
        d[a] = w.view(out.mediation if a == 'mediation' else getattr(pk, a))
    return d


class Node:
    """A builder and what the model says it holds."""
    def __init__(self, side, builder, cells, given=None):
        self.side = side
        self.builder = builder
        self.cells = cells  # {attribute: view}
        self.given = given or {}  # objects the caller handed to it directly

    def check(self, ctx, variant=0):
        ctx.step()
        out, args = build(self.side, self.builder, variant)
        missing = [a for a in REQUIRED[self.side] if self.cells[a] is None]
        if out is None:
            ctx.outcome('refused')
            if not missing:
                raise Violation('{!r} could not be built'.format(self.cells))
            return None
        ctx.outcome('built')
        if missing:
            raise Violation('built although {} is missing'.format(missing))
        got = picture(self.side, out)
        if got != self.cells:
            raise Violation('built {!r}, expected {!r}'.format(
                {a: v for a, v in got.items() if v != self.cells[a]},
                {a: v for a, v in self.cells.items() if v != got[a]}))
        pk = out.public_key
        if w.view(pk.challenge) != args['challenge']:
            raise Violation('the challenge changed')
        if self.side == 'create':
            if w.view(pk.user) != args['user']:
                raise Violation('the user changed')
        elif w.view(pk.allow_credentials) != args.get('allow_credentials'):
            raise Violation('the allowed credentials changed')
        return out

    def set(self, ctx, attr, i):
        v = VALUES[self.side][attr][i]()
        want = w.view(v)
        ctx.step()
        b = getattr(self.builder, attr)(v)
        if b is self.builder or type(b) is not type(self.builder):
            raise Violation('setting {} did not return a new builder'.format(
                attr))
        cells = dict(self.cells)
        cells[attr] = want
        return Node(self.side, b, cells, {attr: v})


def start(ctx, side, args):
    """A builder made with constructor arguments {attr: value index}."""
    kw = {}
    cells = dict(DEFAULT[side])
    for a, i in args.items():
        if i == OMIT:
            continue
        kw[a] = None if i == NONE else VALUES[side][a][i]()
        cells[a] = w.view(kw[a])
    ctx.step()
    return Node(side, CLASS[side](**kw), cells, kw)


def fresh(ctx, side):
    """A new default builder is not influenced by others."""
    n = start(ctx, side, {})
    if side == 'create':
        n = n.set(ctx, 'rp', 0).set(ctx, 'pub_key_cred_params', 0)
    n.check(ctx)


# --------------------------------------------------------------------------
# 1. every constructor call, then every setting

def ctor_values(side, a):
    n = len(VALUES[side][a])
    out = [OMIT, NONE] + list(range(n))
    if any(f() is None for f in VALUES[side][a]):
        out.remove(n - 1)
    return out


def ctor_cases():
    for side in VALUES:
        attrs = sorted(VALUES[side])
        for t in itertools.product(*[ctor_values(side, a) for a in attrs]):
            yield (side, ) + t, [side, list(t)]


def run_ctor(ctx, case):
    side, t = case
    n = start(ctx, side, dict(zip(sorted(VALUES[side]), t)))
    for v in range(3):
        n.check(ctx, v)
    if not THOROUGH and side == 'create' and sum(t) % 8:
        return
    for a in VALUES[side]:
        for i in range(len(VALUES[side][a])):
            n.set(ctx, a, i).check(ctx)
    n.check(ctx)


# 2. every sequence of settings on any of the builders so far

STARTS = {
    'create': [{}, {'rp': 0, 'pub_key_cred_params': 0},
               {a: 0 for a in VALUES['create']}],
    'request': [{}, {a: 0 for a in VALUES['request']},
                {a: 1 for a in VALUES['request']}],
}


def settings(side):
    return [(a, i) for a in VALUES[side] for i in range(len(VALUES[side][a]))]


def sequence_cases():
    for side in VALUES:
        ops = settings(side)
        depth = 3
        if THOROUGH and side == 'request':
            depth = 4
        for s in range(len(STARTS[side])):
            for d in range(1, depth):
                for idx in itertools.product(
                        *[range((k + 1) * len(ops)) for k in range(d)]):
                    yield (side, s) + idx, [side, s, list(idx)]


def run_sequence(ctx, case):
    """The last operation ranges over all settings of all builders here."""
    side, s, idx = case
    ops = settings(side)
    for mode in ('every', 'end') if THOROUGH else ('every', ):
        nodes = [start(ctx, side, STARTS[side][s])]
        for x in idx:
            i, op = divmod(x, len(ops))
            nodes.append(nodes[i].set(ctx, *ops[op]))
            if mode == 'every':
                for n in nodes:
                    n.check(ctx)
        for n in list(nodes):
            for op in ops:
                m = n.set(ctx, *op)
                m.check(ctx, 1)
        for n in nodes:
            n.check(ctx, 2)
    fresh(ctx, side)


# 3. in-place changes

def mutations(v):
    """Names of the in-place changes possible on a value."""
    if isinstance(v, T.PublicKeyCredentialRpEntity):
        return ['name', 'icon', 'id']
    if isinstance(v, T.AuthenticatorSelectionCriteria):
        return ['require_resident_key', 'user_verification',
                'authenticator_attachment']
    if isinstance(v, T.AuthenticationExtensionsClientInputs):
        out = ['appid', 'uvi', 'tx_auth_generic']
        if v.tx_auth_generic is not None:
            out += ['generic.content', 'sel.append', 'sel.del', 'bounds.FAR']
        return out
    if isinstance(v, list):
        out = ['append']
        if v:
            out += ['del', 'clear', 'reverse', 'member']
            if getattr(v[0], 'transports', None):
                out += ['transports.append']
        return out
    return []


def mutate(v, how):
    if how == 'append':
        v.append(desc(b'new'))
    elif how == 'del':
        del v[0]
    elif how == 'clear':
        v.clear()
    elif how == 'reverse':
        v.reverse()
    elif how == 'member':
        if isinstance(v[0], T.PublicKeyCredentialParameters):
            v[0].alg = ALG.ES512
        else:
            v[0].id = b'changed'
    elif how == 'transports.append':
        v[0].transports.append(TR.NFC)
    elif how == 'generic.content':
        v.tx_auth_generic.content = b'changed'
    elif how == 'sel.append':
        v.authn_sel.append(b'changed')
    elif how == 'sel.del':
        del v.authn_sel[0]
    elif how == 'bounds.FAR':
        v.biometric_perf_bounds.FAR = 0.25
    else:
        setattr(v, how, 'changed')


def mutable(side):
    return [a for a in VALUES[side]
            if mutations(VALUES[side][a][0]())]


def handle(ctx, node, attr, via):
    if via == 'given':
        return node.given.get(attr)
    out = node.check(ctx)
    if out is None:
        return None
    return getattr(out.public_key, attr, None)


def change_cases():
    for side in VALUES:
        base = 1 if side == 'request' else 2
        ops = settings(side)
        muts = [(a, i) for a in mutable(side) for i in (0, 1)]
        for a, i in muts:
            for how in mutations(VALUES[side][a][i]()):
                for via in ('given', 'built'):
                    for x in range(len(ops)):
                        yield (side, a, i, how, via, x), [
                            side, base, a, i, how, via, x]


def run_change(ctx, case):
    """n0 holds the value; n1, n2 derive from it (and n3 from n1); then the
    value is changed in place through any one of the builders."""
    side, base, a, i, how, via, x = case
    ops = settings(side)
    how2 = None
    for how_set in ('constructor', 'setter'):
        for y in range(len(ops)) if THOROUGH else (x, (x + 3) % len(ops)):
            for target in range(5):
                args = dict(STARTS[side][base])
                if how_set == 'constructor':
                    args[a] = i
                    n0 = start(ctx, side, args)
                    root = start(ctx, side, args)
                else:
                    root = start(ctx, side, args)
                    n0 = root.set(ctx, a, i)
                n1 = n0.set(ctx, *ops[x])
                n2 = n0.set(ctx, *ops[y])
                n3 = n1.set(ctx, *ops[y])
                nodes = [root, n0, n1, n2, n3]
                t = nodes[target]
                v = handle(ctx, t, a, via)
                if how not in mutations(v):
                    continue
                mutate(v, how)
                after = w.view(v)
                for n in nodes:
                    if n is not t:
                        n.check(ctx)
                # the builder itself shows the old or the new value
                out = build(side, t.builder)[0]
                if out is None:
                    raise Violation('cannot be built any more')
                got = picture(side, out)
                if got[a] not in (t.cells[a], after):
                    raise Violation('shows neither the old nor the new value')
                t.cells[a] = got[a]
                t.check(ctx)
                # and passes on what it shows, on its own
                for op in (ops[x], ops[y]):
                    d = t.set(ctx, *op)
                    d.check(ctx)
                    h = handle(ctx, d, a, 'built')
                    if how in mutations(h):
                        mutate(h, how)
                        t.check(ctx)
    fresh(ctx, side)


# 4. failed builds and repeated builds leave no trace

def repeat_cases():
    for side in VALUES:
        for s in range(len(STARTS[side])):
            for t in itertools.product(range(3), repeat=4):
                yield (side, s) + t, [side, s, list(t)]


def run_repeat(ctx, case):
    side, s, t = case
    n = start(ctx, side, STARTS[side][s])
    req = REQUIRED[side]
    bare = start(ctx, side, {a: NONE for a in req})
    for v in t:
        n.check(ctx, v)
        bare.check(ctx, v)
        outs = [build(side, n.builder, v)[0] for _ in range(2)]
        if w.view(outs[0]) != w.view(outs[1]):
            raise Violation('two builds differ')
    for order in itertools.permutations(req):
        m = bare
        for a in order:
            m.check(ctx)
            m = m.set(ctx, a, 0)
        m.check(ctx)
    bare.check(ctx)
    # builders are copyable values themselves
    n.check(ctx, 1)


BOUNDS = (
    'both builders: every constructor call over (omitted, None, 1-2 values) '
    'per attribute, with every single setting after it{}; every sequence of '
    'at most 3{} settings (all values, any builder made so far) from {} '
    'constructors, rebuilding all builders after each; every in-place change '
    '({} kinds of values) of each changeable attribute through the given or '
    'the built object of any of 5 related builders, for every derivation; all '
    'orders of completing a builder; repeated and failing builds').format(
        '' if THOROUGH else ' (creation: an eighth of the constructors)',
        ' (request: 4)' if THOROUGH else '', 3, 5)
ASSUMPTIONS = [
    'whether a builder shares the object its caller handed to it, or the '
    'options it built, is not prescribed; other builders must not',
]


def spaces():
    return [
        FnSpace('constructors', BOUNDS, ctor_cases, run_ctor),
        FnSpace('sequences', BOUNDS, sequence_cases, run_sequence),
        FnSpace('in-place', BOUNDS, change_cases, run_change),
        FnSpace('builds', BOUNDS, repeat_cases, run_repeat),
    ]
