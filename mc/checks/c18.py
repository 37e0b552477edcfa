"""C18: Android key attestation."""
import functools
import itertools

from cryptography import x509

from mc import ceremony as c
from mc import ref
from mc import world as w
from mc.attest import attempt
from mc.core import FnSpace, HarnessError, THOROUGH, Violation

BASE = dict(c.BASE_REG, fmt='android')
TEE = dict(c.GOOD_TEE)
P256 = ('P256', 'a', None, 'value')


@functools.lru_cache(None)
def world(key):
    cfg = dict(BASE, key=key)
    cd = c.client_data_bytes(cfg)
    return cfg, cd, w.sha256(cd), c.auth_data_bytes(cfg)


@functools.lru_cache(4096)
def cert_of(curve, label, ext, oid=None, serial=1):
    return w.certificate.__wrapped__(
        curve, label, ext, serial,
        None if oid is None else x509.ObjectIdentifier(oid))


def kd(challenge, sw=None, tee=TEE, **kw):
    return w.key_description(challenge, sw or {}, tee, **kw)


def go(ctx, key, status, what, ext=None, x5c=None, alg=None, sig=None,
       cd=None, ad=None, exact=True):
    cfg, cd0, h, ad0 = world(key)
    stated = alg or key[2] or w.DEFAULT_ALG[key[0]]
    if x5c is None:
        x5c = [cert_of(key[0], key[1], ext)]
    if sig is None:
        sig = w.sign(key[0], key[1], stated, ad0 + h)
    st = {'alg': w.ALGS[stated][1 if key[3] == 'name' else 0], 'sig': sig,
          'x5c': x5c}
    return attempt(ctx, cfg, cd or cd0, ad or ad0, 'android-key', st, status,
                   x5c[0] if x5c else None, what, exact and status != 'open')


# --------------------------------------------------------------------------
# 1. keys, algorithms, signers

CURVES = list(w.CURVES)
EC = ('P256', 'P384', 'P521')


def key_cases():
    for curve in CURVES:
        for form in ('value', 'name'):
            for kalg in w.ALGS:
                for alg in w.ALGS:
                    yield (curve, form, kalg, alg), [curve, form, kalg, alg]


def run_key(ctx, case):
    curve, form, kalg, alg = case
    labels = ['a']
    if curve in EC:
        labels += [w.short_label(curve, 0), w.short_label(curve, 1)]
    for label in labels:
        key = (curve, label, kalg, form)
        cfg, cd, h, ad = world(key)
        ext = kd(h)
        # who signed, with what
        for scurve, slabel in [(curve, label), (curve, 'other')
                               ] + [(x, 'a') for x in CURVES if x != curve]:
            salgs = ['ES256', 'ES384', 'ES512'] if scurve in EC else ['EDDSA']
            for salg in salgs:
                sig = w.sign(scurve, slabel, salg, ad + h)
                status = 'bad'
                if (scurve, slabel) == (curve, label) and salg == alg:
                    status = 'ok'
                elif (scurve, slabel) == (curve, label) and curve not in EC:
                    # an Edwards signature under another stated algorithm
                    status = 'open'
                if c.ref_key_usable(key):
                    status = 'bad'
                go(ctx, key, status, lambda: 'android key {} stating {} signed'
                   ' by {}'.format(key, alg, (scurve, slabel, salg)), ext,
                   alg=alg, sig=sig)


def cert_key_cases():
    for k in range(len(CURVES)):
        for i in range(len(CURVES) + 4):
            yield (k, i), [k, i]


def run_cert_key(ctx, case):
    """The certificate is for another key; signed by either."""
    k, i = case
    key = (CURVES[k], 'a', None, 'value')
    cfg, cd, h, ad = world(key)
    kinds = [(x, 'a') for x in CURVES] + [(CURVES[k], 'other'),
                                          ('K256', 'a'), ('RSA', ''),
                                          ('P256', 'z')]
    curve, label = kinds[i]
    cert = cert_of(curve, label, kd(h))
    for scurve, slabel in ((CURVES[k], 'a'), (curve, label)):
        if scurve == 'RSA':
            continue
        for salg in w.ALGS:
            if scurve == 'K256':
                from cryptography.hazmat.primitives import hashes
                from cryptography.hazmat.primitives.asymmetric.ec import ECDSA
                if salg != 'ES256':
                    continue
                sig = w.private_key('K256', 'a').sign(ad + h,
                                                      ECDSA(hashes.SHA256()))
            elif (scurve in EC) == (salg == 'EDDSA'):
                continue
            else:
                sig = w.sign(scurve, slabel, salg, ad + h)
            status = 'ok' if (curve, label) == (scurve, slabel) == key[:2] \
                else 'bad'
            go(ctx, key, status, lambda: 'android key {} with a certificate '
               'of {} signed by {}'.format(key, (curve, label), scurve),
               x5c=[cert], alg=salg, sig=sig)


# 2. certificate lists

def chains():
    h = world(P256)[2]
    good = cert_of('P256', 'a', kd(h))
    return [
        ('good', good),
        ('noext', cert_of('P256', 'a', None)),
        ('other-oid', cert_of('P256', 'a', kd(h), '1.3.6.1.4.1.11129.2.1.18')),
        ('longer-oid', cert_of('P256', 'a', kd(h),
                               '1.3.6.1.4.1.11129.2.1.17.1')),
        ('issuer', cert_of('P256', 'issuer', None)),
        ('other', cert_of('P256', 'other', kd(h))),
        ('chal', cert_of('P256', 'a', kd(w.sha256(h)))),
        ('empty', b''),
        ('garbage', b'\x30\x00'),
        ('cut', good[:-1]),
        ('rsa', cert_of('RSA', '', kd(h))),
    ]


def chain_cases():
    n = len(chains())
    for k in range(4):
        for t in itertools.product(range(n), repeat=k):
            yield t, list(t)


def run_chain(ctx, case):
    cs = chains()
    x5c = [cs[i][1] for i in case]
    for label in ('a', 'other', 'issuer'):
        h = world(P256)[2]
        sig = w.sign('P256', label, 'ES256', world(P256)[3] + h)
        status = 'bad'
        if case and case[0] == 0 and label == 'a':
            # what the rest of the chain has to look like is not checked
            status = 'ok' if all(i in (0, 1, 4, 5) for i in case[1:]) \
                else 'open'
        go(ctx, P256, status, lambda: 'android chain {} signed by {}'.format(
            [cs[i][0] for i in case], label), x5c=x5c, sig=sig)


# 3. the key description

ABSENT = '<absent>'
VALUES = {
    'int': [0, 1, 2, 127, 128, 255, 256, -1, 2**31, 2**32, 2**63, 2**64],
    'setint': [[], [0], [1], [2], [3], [0, 1, 2, 3, 4, 5, 6], [256], [2, 3]],
    'null': [None],
    'octets': [b'', b'\x00', b'\xff' * 200],
    'rot': [(b'k' * 32, True, 0, b'h' * 32), (b'', False, 3, b''),
            (b'k', True, 1, None), (b'', False, 2, None)],
}
OTHERS = [n for n in w.AUTH_TAGS if n not in ('purpose', 'origin',
                                              'allApplications')]


def ok_lists(sw, tee):
    return ('allApplications' not in sw and 'allApplications' not in tee
            and tee.get('origin') == 0 and 2 in tee.get('purpose', ()))


def lists(ctx, sw, tee, key=P256, **kw):
    h = world(key)[2]
    go(ctx, key, 'ok' if ok_lists(sw, tee) else 'bad',
       lambda: 'android with software list {} and hardware list {}'.format(
           sw, tee), w.key_description(h, sw, tee, **kw))


PURPOSES = [ABSENT] + [list(t) for n in range(4 if not THOROUGH else 8)
                       for t in itertools.combinations(range(7), n)] + [
                           [2, 2], [258], [-2], [2**32 + 2], [2, 2**40],
                           [-1, 2], [512], [2, 0, 256]]
ORIGINS = [ABSENT, 0, 1, 2, 3, 4, -1, 127, 128, 255, 256, 65536, 2**31, 2**32,
           2**64, -256]


def purpose_cases():
    for i in range(len(PURPOSES)):
        for j in range(len(ORIGINS)):
            yield (i, j), [i, j]


def run_purpose(ctx, case):
    i, j = case
    d = {}
    if PURPOSES[i] != ABSENT:
        d['purpose'] = PURPOSES[i]
    if ORIGINS[j] != ABSENT:
        d['origin'] = ORIGINS[j]
    rest = {'algorithm': 3}
    lists(ctx, {}, dict(rest, **d))
    lists(ctx, {'purpose': [2], 'origin': 0}, dict(rest, **d))
    lists(ctx, d, dict(TEE))
    if i % 8 == 0:
        lists(ctx, d, rest)


def allapp_cases():
    for t in itertools.product((0, 1), repeat=8):
        yield t, list(t)


def run_allapp(ctx, case):
    names = ['allApplications', 'purpose', 'origin', 'applicationId']
    vals = {'allApplications': None, 'purpose': [2], 'origin': 0,
            'applicationId': b'x'}
    sw = {n: vals[n] for n, b in zip(names, case) if b}
    tee = {n: vals[n] for n, b in zip(names, case[4:]) if b}
    for key in (P256, ('ED25519', 'a', None, 'value')):
        lists(ctx, sw, tee, key)


def other_cases():
    for n in OTHERS:
        for i in range(len(VALUES[w.AUTH_TAGS[n][1]])):
            yield (n, i), [n, i]


def run_other(ctx, case):
    """An entry the ceremony does not constrain changes nothing."""
    n, i = case
    v = VALUES[w.AUTH_TAGS[n][1]][i]
    for sw, tee in (({n: v}, {}), ({}, {n: v}), ({n: v}, {n: v})):
        good = dict(TEE, **tee)
        lists(ctx, sw, good)
        lists(ctx, dict(sw, allApplications=None), good)
        lists(ctx, sw, dict(good, allApplications=None))
        lists(ctx, sw, dict(good, origin=1))
        lists(ctx, sw, {k: x for k, x in good.items() if k != 'purpose'})
        lists(ctx, sw, {k: x for k, x in good.items() if k != 'origin'})


def pair_cases():
    for a, b in itertools.combinations(OTHERS, 2):
        yield (a, b), [a, b]
    yield ('all', ), [None, None]


def run_pair(ctx, case):
    a, b = case
    if a is None:
        full = {n: VALUES[w.AUTH_TAGS[n][1]][0] for n in OTHERS}
        for sw, tee in itertools.product(({}, full), repeat=2):
            for x in ({}, {'allApplications': None}):
                lists(ctx, dict(sw, **x), dict(tee, **TEE))
                lists(ctx, sw, dict(tee, **dict(TEE, **x)))
        return
    va = VALUES[w.AUTH_TAGS[a][1]]
    vb = VALUES[w.AUTH_TAGS[b][1]]
    lists(ctx, {a: va[-1]}, dict(TEE, **{b: vb[-1]}))
    lists(ctx, {}, dict(TEE, **{a: va[0], b: vb[-1]}))
    lists(ctx, {a: va[-1], b: vb[0]}, TEE)
    lists(ctx, {}, {a: va[0], b: vb[-1], 'allApplications': None,
                    'purpose': [2], 'origin': 0})


# 4. challenge and header fields

def header_cases():
    h = world(P256)[2]
    for i in range(len(challenges())):
        yield ('challenge', i), ['challenge', i]
    for t in itertools.product((0, 1, 2, 3, 4, 100, 255), (0, 1, 2)):
        yield ('head', ) + t, ['head', list(t)]


def challenges():
    cfg, cd, h, ad = world(P256)
    out = [h, b'', h[:-1], h[1:], h + b'\x00', b'\x00' + h, h[::-1],
           w.sha256(h), cd, cfg['exp_challenge'], w.sha256(cd + b' '),
           w.sha256(ad), h + h, h.hex().encode(), w.b64(h).encode(),
           w.sha256(cfg['exp_challenge'])]
    for i in range(32):
        for x in (1, 2, 4, 8, 16, 32, 64, 128):
            out.append(h[:i] + bytes([h[i] ^ x]) + h[i + 1:])
    return out


def run_header(ctx, case):
    kind, t = case
    cfg, cd, h, ad = world(P256)
    if kind == 'challenge':
        chal = challenges()[t]
        go(ctx, P256, 'ok' if chal == h else 'bad',
           lambda: 'android with challenge {!r}'.format(chal), kd(chal))
        if chal != h:
            # in the unique id instead
            go(ctx, P256, 'bad', lambda: 'android with the hash as unique id',
               kd(chal, unique=h))
            go(ctx, P256, 'ok', lambda: 'android with unique id {!r}'.format(
                chal), kd(h, unique=chal))
        return
    v, s = t
    for v2, s2 in itertools.product((0, 1, 41, 300), (0, 1, 2)):
        go(ctx, P256, 'ok', lambda: 'android with versions {}'.format(
            (v, s, v2, s2)), kd(h, version=v, sec=s, kmver=v2, kmsec=s2))


# 4b. the schema: every element of the description, of a root of trust and of
# each list entry replaced, dropped, doubled, exchanged, or joined by another

BODIES = {
    'int': w.der_int(2), 'set': w.der_set([w.der_int(2)]),
    'null': w.der_null(), 'octets': w.der_octets(b'x'),
    'bool': w.der_bool(True), 'enum': w.der_enum(0),
    'seq': w.der_seq([w.der_int(2)]), 'utf8': w.der(b'\x0c', b'x'),
    'nothing': b'', 'two': w.der_int(2) + w.der_int(2),
    'set-two': w.der_set([w.der_int(2), w.der_int(1)]),
    'set-empty': w.der_set([]), 'set-octets': w.der_set([w.der_octets(b'a')]),
    'set-mixed': w.der_set([w.der_int(2), w.der_enum(2)]),
    'seq-empty': w.der_seq([]), 'short': b'\x02\x02\x01',
    'null-full': b'\x05\x01\x00', 'bits': w.der(b'\x03', b'\0a'),
    'oid': w.der(b'\x06', b'\x2a'), 'tagged': w.der_ctx(1, w.der_int(2)),
}
#: what may stand where
FITS = {'int': ('int', ), 'null': ('null', ), 'octets': ('octets', ),
        'setint': ('set', 'set-two', 'set-empty'), 'rot': ()}


def raw_list(entries):
    return w.der_seq([w.der_ctx(t, b) for t, b in sorted(entries.items())])


def good_entries():
    return {1: BODIES['set'], 2: w.der_int(3), 3: w.der_int(256),
            702: w.der_int(0)}


def raw_description(sw, tee, h=None):
    return w.der_seq(description_parts(sw, tee, h))


def description_parts(sw, tee, h=None):
    return [w.der_int(3), w.der_enum(1), w.der_int(4), w.der_enum(1),
            w.der_octets(world(P256)[2] if h is None else h),
            w.der_octets(b'uid'), raw_list(sw), raw_list(tee)]


ROT = [w.der_octets(b'key'), w.der_bool(True), w.der_enum(0),
       w.der_octets(b'hash')]


def kinds(elements_):
    return [(cls, num) for e in elements_ for cls, num, _ in elements(e)]


def reshaped(parts):
    """Every list of elements one edit away."""
    n = len(parts)
    for i in range(n):
        yield parts[:i] + parts[i + 1:]
        yield parts[:i + 1] + parts[i:]
        for b in BODIES.values():
            yield parts[:i] + [b] + parts[i + 1:]
            yield parts[:i] + [b] + parts[i:]
        for j in range(i):
            x = list(parts)
            x[i], x[j] = x[j], x[i]
            yield x
    for b in BODIES.values():
        yield parts + [b]


def shapes_of(where):
    if where == 'rot':
        parts = ROT
    else:
        parts = description_parts({}, good_entries())
    return list(reshaped(parts))


def schema_cases():
    for n in w.AUTH_TAGS:
        for b in BODIES:
            yield ('entry', n, b), ['entry', n, b]
    for i in range(len(shapes_of('rot'))):
        yield ('rot', i), ['rot', i, None]
    for i in range(len(shapes_of('kd'))):
        yield ('kd', i), ['kd', i, None]


def run_schema(ctx, case):
    kind, n, b = case
    what = lambda: 'android with {}'.format(case)
    h = world(P256)[2]
    if kind == 'entry':
        tag, form = w.AUTH_TAGS[n]
        body = BODIES[b]
        if b in FITS[form]:
            return  # the other spaces decide by its value
        status = 'open' if (form, b) == ('int', 'two') else 'bad'
        for sw, tee in (({tag: body}, good_entries()),
                        ({}, dict(good_entries(), **{}))):
            if not sw:
                tee[tag] = body
            go(ctx, P256, status, what, ext=raw_description(sw, tee))
        return
    x = shapes_of(kind)[n]
    fine = (kinds(ROT), kinds(ROT)[:3]) if kind == 'rot' else (
        kinds(description_parts({}, good_entries())), )
    try:
        ok = kinds(x) in fine
    except Bad:
        ok = False
    if kind == 'rot':
        for sw, tee in (({704: w.der_seq(x)}, good_entries()),
                        ({}, dict(good_entries(), **{}))):
            if not sw:
                tee[704] = w.der_seq(x)
            go(ctx, P256, 'ok' if ok else 'bad', what,
               ext=raw_description(sw, tee))
        return
    # a well-formed description may still violate a constraint
    status = 'bad'
    if ok:
        try:
            status = 'ok' if ref_kd(w.der_seq(x), h) else 'bad'
        except Bad:
            status = 'bad'
    go(ctx, P256, status, what, ext=w.der_seq(x))


# 5. the encoding of the key description: cut and changed bytes

class Bad(Exception):
    pass


def tlv(b, pos):
    """One DER element: (class and form, number, content, next)."""
    if pos >= len(b):
        raise Bad
    t = b[pos]
    pos += 1
    num = t & 31
    if num == 31:
        num = 0
        while True:
            if pos >= len(b):
                raise Bad
            num = num << 7 | b[pos] & 127
            pos += 1
            if not b[pos - 1] & 128:
                break
    if pos >= len(b):
        raise Bad
    n = b[pos]
    pos += 1
    if n & 128:
        k = n & 127
        if k == 0 or pos + k > len(b):
            raise Bad
        n = int.from_bytes(b[pos:pos + k], 'big')
        pos += k
    if pos + n > len(b):
        raise Bad
    return t & 0xe0, num, b[pos:pos + n], pos + n


def elements(b):
    out = []
    pos = 0
    while pos < len(b):
        cls, num, body, pos = tlv(b, pos)
        out.append((cls, num, body))
    return out


def one(b, cls, num):
    e = elements(b)
    if len(e) != 1 or e[0][:2] != (cls, num):
        raise Bad
    return e[0][2]


def ref_kd(b, h):
    """True/False: a well-formed key description that satisfies / violates
    the constraints; Bad when it is not plain DER of the schema."""
    e = elements(one(b, 0x20, 16))
    if [x[:2] for x in e] != [(0, 2), (0, 10), (0, 2), (0, 10), (0, 4), (0, 4),
                              (0x20, 16), (0x20, 16)]:
        raise Bad
    ls = []
    by_tag = {t: (n, k) for n, (t, k) in w.AUTH_TAGS.items()}
    for x in e[6:]:
        d = {}
        last = -1
        for cls, num, body in elements(x[2]):
            if cls != 0xa0 or num not in by_tag or num <= last:
                raise Bad
            last = num
            n, k = by_tag[num]
            if k == 'int':
                v = one(body, 0, 2)
                if not v:
                    raise Bad
                d[n] = int.from_bytes(v, 'big', signed=True)
            elif k == 'setint':
                d[n] = []
                for cls2, num2, v in elements(one(body, 0x20, 17)):
                    if (cls2, num2) != (0, 2) or not v:
                        raise Bad
                    d[n].append(int.from_bytes(v, 'big', signed=True))
            elif k == 'null':
                if one(body, 0, 5):
                    raise Bad
                d[n] = None
            elif k == 'octets':
                d[n] = one(body, 0, 4)
            else:
                raise Bad
        ls.append(d)
    return e[4][2] == h and ok_lists(*ls)


def good_kd():
    h = world(P256)[2]
    return kd(h, {'creationDateTime': 1, 'attestationApplicationId': b'id'},
              dict(TEE, digest=[4], noAuthRequired=None, osVersion=9))


def der_cases():
    n = len(good_kd())
    for i in range(n):
        yield ('cut', i), ['cut', i]
        yield ('flip', i), ['flip', i]
        yield ('insert', i), ['insert', i]
        yield ('drop', i), ['drop', i]
    yield ('rest', ), ['rest', 0]


def run_der(ctx, case):
    kind, i = case
    g = good_kd()
    h = world(P256)[2]
    if ref_kd(g, h) is not True:
        raise HarnessError('reference')
    if kind == 'flip':
        step = 1 if THOROUGH else 5
        vs = [g[:i] + bytes([g[i] ^ x]) + g[i + 1:]
              for x in sorted(set(range(1, 256, step)) |
                              {1 << k for k in range(8)})]
    elif kind == 'cut':
        vs = [g[:i]]
    elif kind == 'drop':
        vs = [g[:i] + g[i + 1:]]
    elif kind == 'insert':
        vs = [g[:i] + bytes([x]) + g[i:] for x in (0, 1, 2, 5, 0x30, 0xa1,
                                                   0xbf, 255)]
    else:
        vs = [b'', b'\x30\x00', b'\x05\x00', b'\x04' + g[1:], b'\x31' + g[1:],
              h, b'\x00' * 40, g[g.index(h):], w.der(b'\x04', g)]
    for v in vs:
        try:
            r = ref_kd(v, h)
            status = 'ok' if r else 'bad'
        except Bad:
            status = 'bad' if kind in ('cut', 'rest') else 'open'
        go(ctx, P256, status, lambda: 'android with key description {}'.format(
            v.hex()), v)


# 6. signature and signed bytes

def sig_cases():
    for k in (0, 3):
        n = len(w.sign(CURVES[k], 'a', w.DEFAULT_ALG[CURVES[k]], b''))
        for i in range(n + 2):
            yield ('sig', k, i), ['sig', k, i]
        for where in ('ad', 'cd'):
            for i in range(200):
                yield (where, k, i), [where, k, i]


def run_sig(ctx, case):
    where, k, i = case
    key = (CURVES[k], 'a', None, 'value')
    cfg, cd, h, ad = world(key)
    ext = kd(h)
    sig = w.sign(key[0], 'a', w.DEFAULT_ALG[key[0]], ad + h)
    xs = range(1, 256) if THOROUGH else (1, 2, 4, 8, 16, 32, 64, 128)
    if where == 'sig':
        muts = [sig[:i], sig[:i] + b'\x00' + sig[i:], sig + sig[:i],
                sig[:i] + sig[i + 1:]]
        if i < len(sig):
            muts += [sig[:i] + bytes([sig[i] ^ x]) + sig[i + 1:] for x in xs]
        for s in muts:
            go(ctx, key, 'ok' if s == sig else 'bad',
               lambda: 'android with signature {}'.format(s.hex()), ext, sig=s)
        return
    src = ad if where == 'ad' else cd
    if i >= len(src):
        return
    for x in xs:
        m = src[:i] + bytes([src[i] ^ x]) + src[i + 1:]
        # the change is either signed, or not
        if where == 'ad':
            go(ctx, key, 'bad', lambda: 'android with authenticator data byte '
               '{} changed'.format(i), ext, sig=sig, ad=m)
        else:
            go(ctx, key, 'bad', lambda: 'android with client data byte {} '
               'changed'.format(i), ext, sig=sig, cd=m)
            # signed anew, but the certificate still has the old hash
            go(ctx, key, 'bad', lambda: 'android with client data byte {} '
               'changed and signed'.format(i), ext, sig=w.sign(
                   key[0], 'a', w.DEFAULT_ALG[key[0]], ad + w.sha256(m))
               if x == 1 else sig, cd=m)


def content_cases():
    n = len(contents())
    for i in range(n):
        yield (i, ), [i]


def contents():
    cfg, cd, h, ad = world(P256)
    return [ad + h, ad, h, h + ad, ad + cd, ad + w.sha256(h), w.sha256(ad) + h,
            ad + h[:-1], ad + h + b'\x00', ad[:-1] + h, b'\x00' + ad + h, b'',
            w.sha256(ad + h), ad[32:] + h, ad[:37] + h, ad + h + h,
            b'\x00' + ad[:32] + h]


def run_content(ctx, case):
    i, = case
    cfg, cd, h, ad = world(P256)
    data = contents()[i]
    for alg in ('ES256', 'ES384', 'ES512'):
        for stated in ('ES256', 'ES384', 'ES512'):
            go(ctx, P256, 'ok' if i == 0 and alg == stated else 'bad',
               lambda: 'android signed over content {} with {} stating {}'.
               format(i, alg, stated), kd(h), alg=stated,
               sig=w.sign('P256', 'a', alg, data))


# 7. several conditions at once

DIMS = {
    'sig': [0, 1], 'cert': [0, 1], 'chal': [0, 1], 'sw': [0, 1], 'tee': [0, 1],
    'origin': [0, 1, 2], 'purpose': [0, 1, 2], 'ext': [0, 1], 'key': [0, 1, 2],
}


def product_cases():
    for t in itertools.product(*DIMS.values()):
        yield t, list(t)


def run_product(ctx, case):
    d = dict(zip(DIMS, case))
    key = [P256, ('P521', 'a', None, 'name'),
           ('ED448', 'a', None, 'value')][d['key']]
    cfg, cd, h, ad = world(key)
    tee = {}
    if d['purpose'] < 2:
        tee['purpose'] = [[1, 2], [3]][d['purpose']]
    if d['origin'] < 2:
        tee['origin'] = d['origin']
    if d['tee']:
        tee['allApplications'] = None
    sw = {'allApplications': None} if d['sw'] else {}
    ext = w.key_description(w.sha256(h) if d['chal'] else h, sw, tee)
    cert = cert_of(key[0], 'other' if d['cert'] else 'a',
                   None if d['ext'] else ext)
    alg = w.DEFAULT_ALG[key[0]]
    for signer in ('a', 'other'):
        ok = not any(v for k, v in d.items() if k != 'key') and signer == 'a'
        go(ctx, key, 'ok' if ok else 'bad',
           lambda: 'android {} signed by {}'.format(d, signer), x5c=[cert],
           sig=w.sign(key[0], signer, alg,
                      ad + h + (b'\x00' if d['sig'] else b'')))


# 8. what else a certificate may contain

def shape_cases():
    for n in w.SHAPES:
        for k in range(len(CURVES)):
            yield (n, k), [n, k]


def run_shape(ctx, case):
    n, k = case
    key = (CURVES[k], 'a', None, 'value')
    cfg, cd, h, ad = world(key)
    for label in ('a', 'other'):
        for ext in (kd(h), kd(w.sha256(h)), None):
            cert = w.shaped_certificate(key[0], label, n, ext)
            for signer in ('a', 'other'):
                ok = ext == kd(h) and label == signer == 'a'
                go(ctx, key, w.SHAPES[n][0] if ok else 'bad',
                   lambda: 'android {} with a certificate ({}) of {} signed by '
                   '{}'.format(key, n, label, signer), x5c=[cert],
                   sig=w.sign(key[0], signer, w.DEFAULT_ALG[key[0]], ad + h))


# 9. a credential key that differs from the certificate's in one bit

def near_cases():
    for k in range(len(CURVES)):
        for i, c_ in enumerate(w.coordinates(CURVES[k], 'a')):
            for n in range(len(c_ or b'')):
                yield (k, i, n), [k, i, n]
        yield (k, 'neg'), [k, None, 0]


PRIME = {'P256': 2**256 - 2**224 + 2**192 + 2**96 - 1,
         'P384': 2**384 - 2**128 - 2**96 + 2**32 - 1, 'P521': 2**521 - 1}


def run_near(ctx, case):
    k, i, n = case
    curve = CURVES[k]
    xy = w.coordinates(curve, 'a')
    forms = []
    if i is None:
        if curve in PRIME:
            x, y = xy
            forms.append([x, (PRIME[curve] - int.from_bytes(y, 'big')).to_bytes(
                len(y), 'big')])
            forms.append([y, x])
    else:
        for bit in range(8):
            new = list(xy)
            new[i] = xy[i][:n] + bytes([xy[i][n] ^ 1 << bit]) + xy[i][n + 1:]
            forms.append(new)
    for new in forms:
        over = {-2: new[0]}
        if new[1] is not None:
            over[-3] = new[1]
        key = (curve, 'a', None, 'value')
        cfg, cd, h, ad = world(key)
        ad = c.auth_data_bytes(dict(cfg, key=key + (over, )))
        go(ctx, key, 'bad', lambda: 'android with a certificate of {} for the '
           'credential key {}'.format(key, [x and x.hex() for x in new]),
           kd(h), ad=ad,
           sig=w.sign(curve, 'a', w.DEFAULT_ALG[curve], ad + h))


BOUNDS = (
    'every credential key, stated and used algorithm and signer; every '
    'certificate key; every chain of at most 3 of {} certificates; {} purpose '
    'sets x {} origins in both lists; all subsets of the constrained entries; '
    'each of {} other entries with every value alone and all pairs; {} '
    'challenges; {} header values; every element of the key description, of '
    'a root of trust and of every kind of entry dropped, doubled, exchanged '
    'or replaced by each of {} others; the key description cut, changed, extended '
    'and shortened at every byte; every one-{} change of signature, '
    'authenticator data and client data; {} signed contents; the full product '
    'of {} conditions; {} certificate shapes; a credential key that differs '
    'from that of the certificate in any one bit').format(len(chains()), len(PURPOSES), len(ORIGINS),
                               len(OTHERS), len(challenges()), 252, len(BODIES),
                               'byte' if THOROUGH else 'bit', len(contents()),
                               len(DIMS) - 1, len(w.SHAPES))
ASSUMPTIONS = [
    'certificates after the first are not constrained; undecodable ones may '
    'be refused',
    'a key description whose elements have the documented types but are not '
    'plain DER (order of entries, unknown tags, non-minimal numbers) may be '
    'read or refused',
    'for Edwards keys the stated algorithm may be ignored',
    'X.509 decoding and signature primitives (cryptography/OpenSSL) and the '
    'DER codec (pyasn1) are trusted',
]


# Every flow of a registration with every broken statement
FMTS = [x for x in ['android'] + c.REG_WIDE['fmt'] + c.REG_CORE['fmt']
        if x.startswith('android')]
FKEYS = [('P256', 'a', None, 'value'), ('P521', 'a', None, 'value'),
         ('ED25519', 'a', None, 'value'), ('ED448', 'a', None, 'name')]
FLOWS = [dict(fmt=f, key=k) for f in FMTS for k in FKEYS]


def flow_cases():
    for key, d in c.flow_cases('reg', FLOWS, without='fmt'):
        yield key, d


def run_flow(ctx, case):
    c.run_flow(ctx, case, False)


VARIED = (['android', 'android-sig', 'android-chal', 'android-signer'],
          ['P256', 'P384', 'P521', 'ED25519', 'ED448'],
          4096 if THOROUGH else 1024, 4096 if THOROUGH else 512)


def spaces():
    return [
        FnSpace('varied', c.varied_text(VARIED[0], *VARIED[2:]),
                lambda: c.varied_cases(*VARIED), c.run_varied),
        FnSpace('flows', c.flow_text('reg', FLOWS), flow_cases, run_flow),
        FnSpace('keys', BOUNDS, key_cases, run_key),
        FnSpace('certificate-keys', BOUNDS, cert_key_cases, run_cert_key),
        FnSpace('chains', BOUNDS, chain_cases, run_chain),
        FnSpace('purpose-origin', BOUNDS, purpose_cases, run_purpose),
        FnSpace('constrained', BOUNDS, allapp_cases, run_allapp),
        FnSpace('other-entries', BOUNDS, other_cases, run_other),
        FnSpace('entry-pairs', BOUNDS, pair_cases, run_pair),
        FnSpace('header', BOUNDS, header_cases, run_header),
        FnSpace('schema', BOUNDS, schema_cases, run_schema),
        FnSpace('encoding', BOUNDS, der_cases, run_der),
        FnSpace('signature', BOUNDS, sig_cases, run_sig),
        FnSpace('content', BOUNDS, content_cases, run_content),
        FnSpace('shapes', BOUNDS, shape_cases, run_shape),
        FnSpace('near-keys', BOUNDS, near_cases, run_near),
        FnSpace('product', BOUNDS, product_cases, run_product),
    ]
