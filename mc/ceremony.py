"""Both ceremonies as closed systems: a configuration (dimension -> value)
determines the message, the relying party's expectations and the registrar;
`ref_*` is the reference model (the WebAuthn steps over the same facts, written
without looking at how the library does it); `run_*` drives the real handler.
"""
import base64
import functools
import itertools
import json
import re
import unicodedata
import urllib.parse

import cbor2

from mc import ladder, ref
from mc import world as w
from mc.core import Violation
from webauthn_rp import errors as E
from webauthn_rp import types as T
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.registrars import CredentialData

DROP = '<drop>'

# --------------------------------------------------------------------------
# Reference: small independent decoders


_URL_ALPHABET = re.compile(r'\A[A-Za-z0-9_-]*\Z')


def ref_b64url(s):
    """Bytes of a base64url string with or without padding, else None."""
    body = s.rstrip('=')
    if not _URL_ALPHABET.match(body) or len(body) % 4 == 1:
        return None
    return base64.urlsafe_b64decode(body + '=' * (-len(body) % 4))


_DEFAULT_PORT = {'http': 80, 'https': 443}
_ORIGIN = re.compile(
    r'\A(?P<s>[A-Za-z][A-Za-z0-9+.-]*)://(?P<h>\[[0-9A-Fa-f:.]+\]|[^/?#@:\[\]\s]+)'
    r'(?::(?P<p>[0-9]*))?\Z')


def ref_origin(s):
    """(scheme, host, port) or None; restated from the property, not the
    code. Only used on strings of the check alphabets."""
    m = _ORIGIN.match(s)
    if not m:
        return None
    scheme = m.group('s').lower()
    if scheme not in _DEFAULT_PORT:
        return None
    port = m.group('p')
    if port:
        if int(port) > 65535:
            return None
        port = int(port)
    else:
        port = _DEFAULT_PORT[scheme]
    host = m.group('h')
    if host.startswith('['):
        host = host[1:-1]
    return scheme, host.lower(), port


#: extension member names of the authenticator output -> attribute
EXT_ATTR = {
    'appid': 'appid',
    'txAuthSimple': 'tx_auth_simple',
    'txAuthGeneric': 'tx_auth_generic',
    'authnSel': 'authn_sel',
    'exts': 'exts',
    'uvi': 'uvi',
    'loc': 'loc',
    'uvm': 'uvm',
    'biometricPerfBounds': 'biometric_perf_bounds',
}


def ref_ext_ok(m):
    """Is this a well-typed extension output map?"""
    for k, v in m.items():
        if k not in EXT_ATTR:
            return False
        if v is None:
            continue
        if k in ('appid', 'authnSel', 'biometricPerfBounds'):
            ok = type(v) is bool
        elif k == 'txAuthSimple':
            ok = type(v) is str
        elif k in ('txAuthGeneric', 'uvi'):
            ok = type(v) is bytes
        elif k == 'exts':
            ok = type(v) in (list, tuple) and all(type(e) is str for e in v)
        elif k == 'uvm':
            ok = type(v) is list and all(
                type(e) is list and all(type(x) is int for x in e) for e in v)
        else:
            ok = type(v) is dict and all(
                type(x) in (int, float) for x in v.values()) and set(v) <= {
                    'latitude', 'longitude', 'altitude', 'accuracy',
                    'altitudeAccuracy', 'heading', 'speed'
                }
        if not ok:
            return False
    return True


def ref_client_data(cfg):
    """-> ('bad', None) or ('ok', facts)."""
    t, c, o = cfg['cdtype'], cli_challenge(cfg), cfg['origin']
    if not all(type(x) is str and x != DROP for x in (t, c, o)):
        return None
    tb = cfg['tb_cli']
    if tb is not None:
        if type(tb) is not dict:
            return None
        if tb.get('status') not in ('supported', 'present'):
            return None
        if tb['status'] == 'present' and tb.get('id') is None:
            return None
        tb = (tb['status'], tb.get('id'))
    return t, c, o, tb


def cli_challenge(cfg):
    c = cfg['challenge']
    return w.b64url(cfg['exp_challenge']) if c == '<right>' else c


# --------------------------------------------------------------------------
# Configurations

BASE_COMMON = {
    'challenge': '<right>',
    'exp_challenge': b'\xfb\xef\xbe\x00challenge-0123456789',
    'origin': 'https://example.org',
    'exp_origin': ('str', 'https://example.org'),
    'tb_cli': None,
    'tb_exp': None,
    'hash_of': 'example.org',
    'hash_flip': None,
    'flags': w.UP,
    'require_uv': False,
    'ext': None,
    'exp_ext': None,
    'cd_extra': None,
    'looks': 0,
}
BASE_REG = dict(BASE_COMMON,
                cdtype='webauthn.create',
                rp='example.org',
                count=0,
                cred_id=b'credential-id-01',
                aaguid=b'\x00' * 16,
                key=('P256', 'a', None, 'value'),
                attested=True,
                fmt='none',
                user=b'user-a')
BASE_AUTH = dict(BASE_COMMON,
                 cdtype='webauthn.get',
                 rp='example.org',
                 reg_rp='example.org',
                 user=b'user-a',
                 reg_user=b'user-a',
                 handle=None,
                 lookup='found',
                 allow=None,
                 cred_id=b'credential-id-01',
                 key=('P256', 'a', None, 'value'),
                 signer=None,
                 sig='good',
                 stored=5,
                 count=6,
                 ignore_clone=False,
                 attested=False)


#: What decides nothing: names and pictures of the user and relying party (as
#: given and as registered), the optional fields of the key, the transports of
#: the allowed credentials.
_PLAIN = ('registered', 'Registered user', 'https://a.org/r.png')
LOOKS = [
    dict(given=('given', 'Given user', None), stored=_PLAIN),
    dict(given=('', '', ''), stored=_PLAIN, kid=b'', key_ops=[1, 2],
         transports=['usb', 'nfc', 'ble', 'internal']),
    dict(given=('registered', 'Al\u00ed\u20ac', None), stored=('', '', None),
         kid=b'kid', key_ops=['sign'], transports=[]),
    dict(given=_PLAIN, stored=_PLAIN, key_ops=list(range(1, 11)),
         base_iv=b'iv' * 8, transports=['internal']),
    dict(given=('REGISTERED', 'registered user', 'data:,x'), stored=_PLAIN,
         base_iv=b'', key_ops=[2, 2], transports=['ble', 'ble']),
    dict(given=('x' * 300, 'y' * 300, 'z' * 300), stored=('None', 'None', ''),
         kid=b'k' * 300, key_ops=[10, 'encrypt']),
]


def look_user(cfg, id_, which='given'):
    name, display, icon = LOOKS[cfg['looks']][which]
    return w.user(id_, name, display, icon)


def look_rp(cfg, id_, which='given'):
    name, _, icon = LOOKS[cfg['looks']][which]
    return w.rp(id_, name, icon)


def look_key(cfg, lib=False):
    look = LOOKS[cfg['looks']]
    out = {k: look[k] for k in ('kid', 'key_ops', 'base_iv') if k in look}
    if lib and 'key_ops' in out:
        out['key_ops'] = [ref.enum(T.COSEKeyOperation, ref.OP[v], v)
                          for v in out['key_ops']]
    return out


def look_transports(cfg):
    ts = LOOKS[cfg['looks']].get('transports')
    return None if ts is None else [T.AuthenticatorTransport(x) for x in ts]


def _origin_arg(spec):
    kind, v = spec
    if kind == 'str':
        return v
    return {
        'list': list,
        'tuple': tuple,
        'set': set,
        'frozenset': frozenset,
        'dict': lambda x: dict.fromkeys(x),
    }[kind](v)


def _tb_arg(spec):
    if spec is None:
        return None
    return T.TokenBinding(status=T.TokenBindingStatus(spec[0]), id=spec[1])


def _ext_arg(spec):
    if spec is None:
        return None
    return {T.ExtensionIdentifier(n) for n in spec}


def client_data_bytes(cfg):
    tb = cfg['tb_cli']
    d = {}
    for k, v in (('type', cfg['cdtype']), ('challenge', cli_challenge(cfg)),
                 ('origin', cfg['origin'])):
        if v != DROP:
            d[k] = v
    if tb is not None:
        d['tokenBinding'] = tb
    if cfg['cd_extra']:
        d.update(cfg['cd_extra'])
    return json.dumps(d).encode('utf-8')


def rp_hash_bytes(cfg):
    h = bytearray(w.sha256(cfg['hash_of'].encode('utf-8')))
    flip = cfg['hash_flip']
    if flip is not None:
        i, x = (flip, 1) if type(flip) is int else flip
        h[i] ^= x
    return bytes(h)


def attested_of(cfg):
    """(key spec, credential id) inside the attested credential data."""
    a = cfg['attested']
    key, cid = a if type(a) is tuple else (None, None)
    return (cfg['key'] if key is None else key,
            cfg['cred_id'] if cid is None else cid)


def auth_data_bytes(cfg):
    flags = cfg['flags']
    att = b''
    ext = b''
    if cfg['attested']:
        flags |= w.AT
        key, cid = attested_of(cfg)
        att = w.attested_data(cfg.get('aaguid', b'\x00' * 16), cid,
                              key_map(key, look_key(cfg)))
    if cfg['ext'] is not None:
        flags |= w.ED
        ext = cbor2.dumps(cfg['ext'])
    return w.auth_data(rp_hash_bytes(cfg), flags, cfg['count'], att, ext)


def key_map(spec, more=None):
    """spec: (curve, label, alg or None, form[, override map])."""
    m = w.cose_map(spec[0], spec[1], spec[2], spec[3], **(more or {}))
    if len(spec) > 4:
        for k, v in spec[4].items():
            if v == DROP:
                m.pop(k, None)
            else:
                m[k] = v
    return m


def ref_key_usable(spec):
    """'ok' or the error classes for an unusable credential key."""
    if len(spec) > 4:
        return ('ParserError', 'ValidationError')
    kty = w.CURVES[spec[0]][0]
    alg = spec[2] or w.DEFAULT_ALG[spec[0]]
    if kty == 'EC2' and alg in ('ES256', 'ES384', 'ES512'):
        return None
    if kty == 'OKP' and alg == 'EDDSA':
        return None
    return ('ValidationError', 'ParserError')


# --------------------------------------------------------------------------
# Reference model of the shared steps


def ref_common(cfg, type_, rp_id):
    """The failing conditions: list of tuples of acceptable error classes."""
    bad = []
    kind, v = cfg['exp_origin']
    exp = [v] if kind == 'str' else list(v)
    exp = [ref_origin(x) for x in exp]
    if not exp or None in exp:
        bad.append(('OriginError', ))
    cd = ref_client_data(cfg)
    if cd is None:
        bad.append(('ParserError', ))
    else:
        t, c, o, tb = cd
        if t != type_:
            bad.append(('ClientDataTypeError', ))
        raw = ref_b64url(c)
        if raw is None:
            bad.append(('DecodingError', ))
        elif raw != cfg['exp_challenge']:
            bad.append(('ChallengeError', ))
        po = ref_origin(o)
        if po is None or po not in exp:
            bad.append(('OriginError', ))
        te = cfg['tb_exp']
        if (te is None) != (tb is None) or (te is not None
                                            and tuple(te) != tb):
            bad.append(('TokenBindingError', ))
    # authenticator data
    ext = cfg['ext']
    parses = True
    if ext is not None and not (type(ext) is dict and ref_ext_ok(ext)):
        bad.append(('ParserError', ))
        parses = False
    if cfg['attested']:
        ku = ref_key_usable(attested_of(cfg)[0])
        if ku:
            bad.append(ku)
    if rp_id is not None and rp_hash_bytes(cfg) != w.sha256(
            rp_id.encode('utf-8')):
        bad.append(('RPIDHashError', 'RPIDError'))
    if not cfg['flags'] & w.UP:
        bad.append(('UserPresenceError', ))
    if cfg['require_uv'] and not cfg['flags'] & w.UV:
        bad.append(('UserVerificationError', ))
    if parses:
        for n in cfg['exp_ext'] or ():
            if ext is None or ext.get(n) is None:
                bad.append(('ExtensionError', ))
                break
    return bad


# --------------------------------------------------------------------------
# Registration


GOOD_TEE = {'purpose': [2], 'algorithm': 3, 'keySize': 256, 'origin': 0}


def statement(cfg, adata, cdhash):
    """(fmt text, statement map, failing classes or None, type, cert)."""
    fmt = cfg['fmt']
    curve, label, alg = cfg['key'][:3]
    if alg is None or ref_key_usable(cfg['key'][:4]):
        alg = w.DEFAULT_ALG[curve]  # an unusable key still needs a signature
    none = None
    if fmt == 'none':
        return 'none', {}, none, 'NONE', None
    if fmt == 'none-extra':
        return 'none', {'sig': b''}, ('ParserError', ), None, None
    if fmt == 'unknown':
        return 'None', {}, ('ParserError', ), None, None
    if fmt == 'stmt-list':
        return 'none', [], ('ParserError', ), None, None
    if fmt == 'empty-fmt':
        return '', {}, ('ParserError', ), None, None
    if fmt == 'packed':
        return 'packed', {
            'alg': w.ALGS[alg][0],
            'sig': w.sign(curve, label, alg, adata + cdhash)
        }, ('UnimplementedError', ), None, None
    if fmt == 'packed-x5c':
        return 'packed', {
            'alg': -7,
            'sig': w.sign('P256', 'batch', 'ES256', adata + cdhash),
            'x5c': [w.certificate('P256', 'batch')]
        }, ('UnimplementedError', ), None, None
    if fmt == 'packed-ecdaa':
        return 'packed', {
            'alg': -7,
            'sig': b'x',
            'ecdaaKeyId': b'k'
        }, ('UnimplementedError', ), None, None
    if fmt == 'tpm':
        return 'tpm', {
            'alg': -7,
            'sig': b'x',
            'ver': '2.0',
            'certInfo': b'c',
            'pubArea': b'p'
        }, ('UnimplementedError', ), None, None
    if fmt == 'tpm-x5c':
        return 'tpm', {
            'alg': -7,
            'sig': b'x',
            'ver': '2.0',
            'certInfo': b'c',
            'pubArea': b'p',
            'x5c': [w.certificate('P256', 'batch')]
        }, ('UnimplementedError', ), None, None
    if fmt == 'safetynet':
        return 'android-safetynet', {
            'ver': '1',
            'response': b'r'
        }, ('UnimplementedError', ), None, None
    if fmt.startswith('u2f'):
        x, y = w.coordinates(curve, label)
        key = b'\x04' + x + (y or b'')
        data = (b'\x00' + rp_hash_bytes(cfg) + cdhash + cfg['cred_id'] + key)
        cert = w.certificate('P256', 'batch')
        bad = None
        sigkey = 'batch'
        x5c = [cert]
        if y is None:  # U2F keys are EC keys
            bad = ('AttestationError', )
        if fmt == 'u2f-sig':
            sigkey, bad = 'other', ('AttestationError', )
        elif fmt == 'u2f-content':
            data, bad = b'\x01' + data[1:], ('AttestationError', )
        elif fmt == 'u2f-nocert':
            x5c, bad = [], ('AttestationError', )
        elif fmt == 'u2f-two':
            x5c, bad = [cert, cert], ('AttestationError', )
        elif fmt == 'u2f-garbage':
            x5c, bad = [b'not a certificate'], ('AttestationError', )
        elif fmt == 'u2f-cut':
            x5c, bad = [cert[:-1]], ('AttestationError', )
        elif fmt in ('u2f-P384', 'u2f-ED25519', 'u2f-RSA'):
            # properly signed, but not with a P-256 key
            c2 = fmt[4:]
            x5c, bad = [w.certificate(c2, 'batch')], ('AttestationError', )
        elif fmt == 'u2f-selfcert':
            # a certificate of the credential key itself, signed by it
            if curve != 'P256':
                bad = ('AttestationError', )
                sigkey = 'other'
            else:
                sigkey = label
                x5c = [w.certificate('P256', label)]
        if fmt in ('u2f-P384', 'u2f-ED25519'):
            sig = w.sign(fmt[4:], sigkey,
                         'ES256' if fmt == 'u2f-P384' else 'EDDSA', data)
        else:
            sig = w.sign('P256', sigkey, 'ES256', data)
        if y is None:
            bad = ('AttestationError', )
        return 'fido-u2f', {
            'sig': sig,
            'x5c': x5c
        }, bad, 'BASIC', x5c[0] if x5c else None
    if fmt.startswith('android'):
        tee = dict(GOOD_TEE)
        sw = {}
        chal = cdhash
        bad = None
        signed = adata + cdhash
        slabel = label
        clabel = label
        any_ = ('AttestationError', )
        if fmt == 'android-chal':
            chal, bad = w.sha256(cdhash), any_
        elif fmt == 'android-origin':
            tee['origin'], bad = 2, any_
        elif fmt == 'android-purpose':
            tee['purpose'], bad = [3], any_
        elif fmt == 'android-purposes':
            tee['purpose'] = [3, 2]
        elif fmt == 'android-all-sw':
            sw['allApplications'], bad = None, any_
        elif fmt == 'android-all-tee':
            tee['allApplications'], bad = None, any_
        elif fmt == 'android-sw-only':
            sw, tee, bad = tee, {}, any_
        elif fmt == 'android-sig':
            signed, bad = adata + w.sha256(cdhash), any_
        elif fmt == 'android-signer':
            slabel, bad = 'other', any_
        elif fmt == 'android-cert':
            slabel, clabel, bad = 'other', 'other', any_
        elif fmt == 'android-no-purpose':
            del tee['purpose']
            bad = any_
        elif fmt == 'android-no-origin':
            del tee['origin']
            bad = any_
        ext = w.key_description(chal, sw, tee)
        if fmt == 'android-noext':
            ext, bad = None, any_
        cert = w.certificate(curve, clabel, ext)
        x5c = [cert]
        if fmt == 'android-empty':
            x5c, bad = [], any_
        if fmt == 'android-garbage':
            x5c, bad = [b'not a certificate'], any_
        if fmt == 'android-cut':
            x5c, bad = [cert[:-1]], any_
        if fmt == 'android-rsa':
            x5c, bad = [w.certificate('RSA', clabel, ext)], any_
        if fmt == 'android-chain':
            x5c = [cert, w.certificate('P256', 'issuer')]
        return 'android-key', {
            'alg': w.ALGS[alg][0],
            'sig': w.sign(curve, slabel, alg, signed),
            'x5c': x5c
        }, bad, 'BASIC', cert
    raise AssertionError(fmt)


def build_reg(cfg):
    cd = client_data_bytes(cfg)
    ad = auth_data_bytes(cfg)
    fmt, stmt, bad, att_type, cert = statement(cfg, ad, w.sha256(cd))
    ao = w.attestation_object(fmt, stmt, ad)
    return cd, ad, ao, (fmt, stmt, bad, att_type, cert)


def ref_reg(cfg, st):
    bad = ref_common(cfg, 'webauthn.create', cfg['rp'])
    if not cfg['attested']:
        bad.append(('AttestationError', 'ParserError'))
    if st[2]:
        bad.append(st[2])
    return bad


def run_reg(ctx, cfg, registrar=None, backend=None):
    """-> (error or None, registrar, args, facts)"""
    cd, ad, ao, st = build_reg(cfg)
    reg = registrar or w.Recorder()
    be = backend or CredentialsBackend(reg)
    cred = w.attestation_credential(cfg['cred_id'], cd, ao)
    u = look_user(cfg, cfg['user'])
    r = look_rp(cfg, cfg['rp'])
    ctx.step()
    err = None
    try:
        res = be.handle_credential_attestation(
            credential=cred,
            user=u,
            rp=r,
            expected_challenge=cfg['exp_challenge'],
            expected_origin=_origin_arg(cfg['exp_origin']),
            token_binding=_tb_arg(cfg['tb_exp']),
            require_user_verification=cfg['require_uv'],
            expected_extensions=_ext_arg(cfg['exp_ext']))
        if res is not None:
            raise Violation('the handler returned {!r}'.format(res))
    except Violation:
        raise
    except Exception as e:
        err = e
    return err, reg, (cred, u, r), (cd, ad, ao, st)


def ext_view(m):
    """Expected view of the parsed extension outputs."""
    if m is None:
        return None
    vals = {}
    for k, a in EXT_ATTR.items():
        v = m.get(k)
        if k == 'loc' and v is not None:
            v = T.Coordinates(
                latitude=v.get('latitude'),
                longitude=v.get('longitude'),
                altitude=v.get('altitude'),
                accuracy=v.get('accuracy'),
                altitude_accuracy=v.get('altitudeAccuracy'),
                heading=v.get('heading'),
                speed=v.get('speed'))
        vals[a] = v
    return w.view(T.AuthenticationExtensionsClientOutputs(**vals))


def auth_data_view(cfg):
    flags = cfg['flags']
    att = None
    if cfg['attested']:
        flags |= w.AT
        spec, cid = attested_of(cfg)
        att = ('AttestedCredentialData',
               ('aaguid', w.view(cfg.get('aaguid', b'\x00' * 16))),
               ('credential_id_length', w.view(len(cid))),
               ('credential_id', w.view(cid)),
               ('credential_public_key',
                w.view(w.lib_key(spec[0], spec[1], spec[2], spec[3],
                                **look_key(cfg, True)))))
    if cfg['ext'] is not None:
        flags |= w.ED
    return ('AuthenticatorData', ('rp_id_hash', w.view(rp_hash_bytes(cfg))),
            ('flags', w.view(flags)), ('sign_count', w.view(cfg['count'])),
            ('attested_credential_data', att), ('extensions',
                                                ext_view(cfg['ext'])))


def names(bad):
    return sorted(set(itertools.chain.from_iterable(bad)))


#: the documented error classes and what each is documented to be a kind of
KINDS = {
    'BackendError': ('WebAuthnRPError', ),
    'ClientDataTypeError': ('BackendError', ),
    'ChallengeError': ('BackendError', ),
    'TokenBindingError': ('BackendError', ),
    'RPIDHashError': ('BackendError', ),
    'UserPresenceError': ('BackendError', ),
    'UserVerificationError': ('BackendError', ),
    'ExtensionError': ('BackendError', ),
    'CredentialNotAllowedError': ('BackendError', ),
    'UserIDError': ('BackendError', ),
    'UserHandleError': ('BackendError', ),
    'RPNotFoundError': ('BackendError', ),
    'RPIDError': ('BackendError', ),
    'RegistrationError': ('BackendError', ),
    'CredentialDataError': ('BackendError', ),
    'SignatureCountError': ('BackendError', ),
    'ConverterError': ('WebAuthnRPError', ),
    'JSONConversionError': ('ConverterError', ),
    'PublicKeyConversionError': ('ConverterError', ),
    'ParserError': ('WebAuthnRPError', ),
    'DecodingError': ('ParserError', ),
    'OriginError': ('WebAuthnRPError', ),
    'VerificationError': ('WebAuthnRPError', ),
    'UnimplementedError': ('WebAuthnRPError', ),
    'ValidationError': ('WebAuthnRPError', ),
    'BuilderError': ('WebAuthnRPError', ),
    'AttestationError': ('WebAuthnRPError', ),
    'InternalError': ('WebAuthnRPError', ),
}


def kinds(name):
    """A documented class and everything it is a kind of."""
    out = {name}
    for n in KINDS.get(name, ()):
        out |= kinds(n)
    return out


CHAINS = {n: kinds(n) for n in KINDS}


def raised_ok(err, bad):
    """One of the documented classes of the failing conditions, and not at
    the same time of the class of another condition: a caller that catches
    the latter must not get it."""
    caught = {n for n in CHAINS if isinstance(err, getattr(E, n))}
    caught.add('WebAuthnRPError')
    return any(CHAINS[n] <= caught and any(
        caught == CHAINS[m] for m in CHAINS if n in CHAINS[m])
        for n in names(bad))


def describe(cfg, base):
    return {k: v for k, v in cfg.items() if v != base[k]}


def check_reg_handover(cfg, reg, args, facts):
    """The registrar was given exactly this registration."""
    atts = reg.named('att')
    if len(atts) != 1:
        raise Violation('accepted, but the registrar was asked to store {} '
                        'times'.format(len(atts)))
    if reg.calls[-1][0] != 'att':
        raise Violation('storing was not the last registrar call')
    a = atts[0]
    cred, u, r = args
    for what, got, want in (
        ('credential', w.view(a['credential']), w.view(cred)),
        ('user', w.view(a['user']), w.view(u)),
        ('rp', w.view(a['rp']), w.view(r)),
        ('auth_data', w.view(a['att'].auth_data), auth_data_view(cfg)),
        ('fmt', a['att'].fmt.value, facts[3][0]),
        ('att_type', a['att_type'].name, facts[3][3]),
    ):
        if got != want:
            raise Violation('registrar was given {} {!r}, expected {!r}'.
                            format(what, got, want))
    tp = a['trusted_path']
    cert = facts[3][4]
    if cert is None:
        if tp:
            raise Violation('unexpected trusted path')
    else:
        from cryptography.hazmat.primitives.serialization import Encoding
        if tp is None or [c.public_bytes(Encoding.DER)
                          for c in tp] != [cert]:
            raise Violation('wrong trusted path')
    st = a['att'].att_stmt
    for k, attr in (('sig', 'sig'), ('x5c', 'x5c')):
        if k in facts[3][1] and w.view(getattr(st, attr)) != w.view(
                facts[3][1][k]):
            raise Violation('statement {} changed'.format(k))


def check_reg(ctx, cfg, classes=False):
    err, reg, args, facts = run_reg(ctx, cfg)
    bad = ref_reg(cfg, facts[3])
    dev = describe(cfg, BASE_REG)
    if err is None:
        ctx.outcome('accepted')
        if bad:
            raise Violation(
                'registration accepted although {} must fail: {}'.format(
                    names(bad), dev))
        check_reg_handover(cfg, reg, args, facts)
    else:
        ctx.outcome('refused:' + type(err).__name__)
        if not bad:
            raise Violation(
                'registration refused with {!r} although every condition '
                'holds: {}'.format(err, dev))
        if reg.named('att'):
            raise Violation('registration refused with {!r} but the registrar '
                            'was asked to store it: {}'.format(err, dev))
        if classes and not raised_ok(err, bad):
            raise Violation(
                'registration refused with {!r}, expected one of {}: {}'.
                format(err, names(bad), dev))
    if reg.named('ass'):
        raise Violation('a registration was reported as an authentication')


# --------------------------------------------------------------------------
# Authentication


def signature_bytes(cfg, ad, cdhash):
    """(signature, genuine?)"""
    curve, label, alg = cfg['key'][:3]
    alg = alg or w.DEFAULT_ALG[curve]
    s = cfg['sig']
    signer = cfg['signer']
    data = ad + cdhash
    genuine = True
    if signer is not None:
        genuine = tuple(signer) == (curve, label, alg)
        curve, label, alg = signer
    if s == 'good':
        return w.sign(curve, label, alg, data), genuine
    if s == 'empty':
        return b'', False
    if s == 'short':
        return w.sign(curve, label, alg, data)[:-1], False
    if s == 'long':
        return w.sign(curve, label, alg, data) + b'\x00', False
    if s == 'flip':
        b = bytearray(w.sign(curve, label, alg, data))
        b[-1] ^= 1
        return bytes(b), False
    if s == 'no-hash':
        return w.sign(curve, label, alg, ad), False
    if s == 'swapped':
        return w.sign(curve, label, alg, cdhash + ad), False
    if s == 'other-cd':
        return w.sign(curve, label, alg, ad + w.sha256(cdhash)), False
    if s == 'other-ad':
        d = bytearray(data)
        d[36] ^= 1
        return w.sign(curve, label, alg, bytes(d)), False
    if s == 'other-hash':
        other = {'ES256': 'ES384', 'ES384': 'ES512', 'ES512': 'ES256'}
        if alg == 'EDDSA':
            return w.sign(curve, label, alg, w.sha256(data)), False
        return w.sign(curve, label, other[alg], data), False
    if s == 'zero':
        return b'\x00' * 64, False
    raise AssertionError(s)


def allow_arg(cfg):
    a = cfg['allow']
    if a is None:
        return None
    return [
        T.PublicKeyCredentialDescriptor(
            type=T.PublicKeyCredentialType.PUBLIC_KEY, id=i,
            transports=look_transports(cfg)) for i in a
    ]


def ref_auth(cfg, genuine, handle_absent_ok=True):
    bad = []
    if cfg['allow'] is not None and cfg['cred_id'] not in cfg['allow']:
        bad.append(('CredentialNotAllowedError', ))
    rp_id = cfg['reg_rp'] if cfg['reg_rp'] is not None else cfg['rp']
    if cfg['lookup'] == 'raises':
        bad.append(('RegistrationError', ))
        rp_id = None
    elif cfg['lookup'] == 'none':
        bad.append(('CredentialDataError', ))
        rp_id = None
    else:
        if cfg['user'] is not None:
            if cfg['user'] != cfg['reg_user']:
                bad.append(('UserIDError', ))
        elif cfg['handle'] is None:
            bad.append(('UserHandleError', ))
        if cfg['handle'] is not None and cfg['handle'] != cfg['reg_user']:
            bad.append(('UserHandleError', ))
        # with a wrong given user the handle may also be held against it
        if (cfg['handle'] is not None and cfg['user'] is not None
                and cfg['handle'] != cfg['user']):
            bad.append(('UserHandleError', ))
        if cfg['reg_rp'] is None and cfg['rp'] is None:
            bad.append(('RPNotFoundError', ))
        elif (cfg['reg_rp'] is not None and cfg['rp'] is not None
              and cfg['reg_rp'] != cfg['rp']):
            bad.append(('RPIDError', ))
    bad += ref_common(cfg, 'webauthn.get', rp_id)
    if not bad or cfg['lookup'] == 'found':
        if not genuine:
            bad.append(('VerificationError', ))
        st, c = cfg['stored'], cfg['count']
        if (st is not None and not cfg['ignore_clone']
                and not (c > st or (c == 0 and st == 0))):
            bad.append(('SignatureCountError', ))
    return bad


def stored_data(cfg):
    return CredentialData(
        credential_public_key=w.lib_key(*cfg['key'][:4],
                                        **look_key(cfg, True)),
        signature_count=cfg['stored'],
        user_entity=look_user(cfg, cfg['reg_user'], 'stored'),
        rp_entity=None
        if cfg['reg_rp'] is None else look_rp(cfg, cfg['reg_rp'], 'stored'))


def run_auth(ctx, cfg, registrar=None, backend=None):
    cd = client_data_bytes(cfg)
    ad = auth_data_bytes(cfg)
    sig, genuine = signature_bytes(cfg, ad, w.sha256(cd))
    data = stored_data(cfg)

    def get(cid):
        if cfg['lookup'] == 'raises':
            raise KeyError(cid)
        if cfg['lookup'] == 'none' or cid != cfg['cred_id']:
            return None
        return data

    reg = registrar or w.Recorder(on_get=get)
    be = backend or CredentialsBackend(reg)
    cred = w.assertion_credential(cfg['cred_id'], cd, ad, sig, cfg['handle'])
    u = None if cfg['user'] is None else look_user(cfg, cfg['user'])
    r = None if cfg['rp'] is None else look_rp(cfg, cfg['rp'])
    ctx.step()
    err = None
    try:
        res = be.handle_credential_assertion(
            credential=cred,
            expected_challenge=cfg['exp_challenge'],
            expected_origin=_origin_arg(cfg['exp_origin']),
            rp=r,
            user=u,
            allow_credentials=allow_arg(cfg),
            token_binding=_tb_arg(cfg['tb_exp']),
            require_user_verification=cfg['require_uv'],
            expected_extensions=_ext_arg(cfg['exp_ext']),
            ignore_clone_error=cfg['ignore_clone'])
        if res is not None:
            raise Violation('the handler returned {!r}'.format(res))
    except Violation:
        raise
    except Exception as e:
        err = e
    return err, reg, (cred, u, r, data), genuine


def check_auth_handover(cfg, reg, args):
    asss = reg.named('ass')
    if len(asss) != 1:
        raise Violation('accepted, but the registrar was told {} times'.format(
            len(asss)))
    if reg.calls[-1][0] != 'ass':
        raise Violation('reporting was not the last registrar call')
    for g in reg.named('get'):
        if bytes(g['credential_id']) != cfg['cred_id']:
            raise Violation('another credential was looked up')
    a = asss[0]
    cred, u, r, data = args
    if w.view(a['credential']) != w.view(cred):
        raise Violation('registrar was given another credential')
    if w.view(a['authenticator_data']) != auth_data_view(cfg):
        raise Violation('registrar was given {!r}, expected {!r}'.format(
            w.view(a['authenticator_data']), auth_data_view(cfg)))
    if a['user'].id != cfg['reg_user']:
        raise Violation('registrar was told of user {!r} instead of {!r}'.
                        format(a['user'].id, cfg['reg_user']))
    if w.view(a['user']) not in [
            w.view(x) for x in (u, data.user_entity) if x is not None
    ]:
        raise Violation('registrar was told of a made-up user')
    want = cfg['reg_rp'] if cfg['reg_rp'] is not None else cfg['rp']
    if a['rp'].id != want:
        raise Violation('registrar was told of relying party {!r} instead of '
                        '{!r}'.format(a['rp'].id, want))
    if w.view(a['rp']) not in [
            w.view(x) for x in (r, data.rp_entity) if x is not None
    ]:
        raise Violation('registrar was told of a made-up relying party')


def check_auth(ctx, cfg, classes=False):
    err, reg, args, genuine = run_auth(ctx, cfg)
    bad = ref_auth(cfg, genuine)
    dev = describe(cfg, BASE_AUTH)
    if err is None:
        ctx.outcome('accepted')
        if bad:
            raise Violation(
                'authentication accepted although {} must fail: {}'.format(
                    names(bad), dev))
        check_auth_handover(cfg, reg, args)
    else:
        ctx.outcome('refused:' + type(err).__name__)
        if not bad:
            raise Violation(
                'authentication refused with {!r} although every condition '
                'holds: {}'.format(err, dev))
        if reg.named('ass'):
            raise Violation('authentication refused with {!r} but the '
                            'registrar was told of it: {}'.format(err, dev))
        if classes and not raised_ok(err, bad):
            raise Violation(
                'authentication refused with {!r}, expected one of {}: {}'.
                format(err, names(bad), dev))
    if reg.named('att'):
        raise Violation('an authentication was stored as a registration')


# --------------------------------------------------------------------------
# Alphabets.  core: combined with each other; wide: combined with core ones.

TB_A = {'status': 'present', 'id': 'A'}
TB_B = {'status': 'present', 'id': 'B'}

COMMON_CORE = {
    'challenge': [DROP, 'AAAA', w.b64url(b'')],
    'exp_challenge': [b'', b'\x00'],
    'origin': [
        'https://example.org:443', 'http://example.org', 'https://evil.org',
        'https://example.org:444'
    ],
    'exp_origin': [('list', ['https://a.org', 'https://example.org']),
                   ('str', 'https://example.org:443'),
                   ('set', ['https://a.org']), ('list', [])],
    'tb_cli': [{
        'status': 'supported'
    }, TB_A, TB_B, {
        'status': 'present'
    }],
    'tb_exp': [('supported', None), ('present', 'A')],
    'hash_of': ['evil.org'],
    'flags': [0, w.UP | w.UV, w.UV],
    'require_uv': [True],
    'ext': [{
        'appid': False
    }, {
        'appid': True,
        'uvm': [[1, 2, 3]]
    }, {}],
    'exp_ext': [('appid', ), ('appid', 'uvm'), ()],
}


def _flip(b, i):
    b = bytearray(b)
    b[i] ^= 1
    return bytes(b)


_EC = BASE_COMMON['exp_challenge']

COMMON_WIDE = {
    'challenge': [
        w.b64url(_EC, True),
        w.b64url(_EC[:-1]),
        w.b64url(_EC[1:]),
        w.b64url(_EC + b'\x00'),
        w.b64url(b'\x00' + _EC),
        w.b64url(_EC + _EC),
        w.b64url(_EC)[:-1] + '\u00e9', 'A', 'AAAAA', 5, None, [], {}, True,
        w.b64url(_EC).swapcase(),
        w.b64url(_EC[::-1]),
        w.b64url(_EC.upper()),
    ] + [w.b64url(_flip(_EC, i)) for i in range(len(_EC))],
    'exp_challenge': [
        b'\xff', b'\x00\x00', b'a' * 64,
        bytes(range(256)), _EC[:-1], _EC + b'\x00', b'=' * 5, b'\n', b' ' * 16
    ],
    'origin': [
        'HTTPS://EXAMPLE.ORG', 'https://Example.org', 'http://example.org:443',
        'http://example.org:80', 'https://example.org:80',
        'https://sub.example.org', 'https://xexample.org',
        'https://example.org.evil.org', 'https://example.orgx',
        'https://example.or', 'https://example', 'https://example.org/',
        'https://example.org/a', 'https://user@example.org',
        'https://example.org@evil.org', 'https://evil.org#example.org',
        'https://evil.org/?https://example.org', 'example.org',
        '//example.org', 'ftp://example.org', 'https://', 'https:///',
        'https://:443', 'https://example.org:65536', 'https://example.org:x',
        'https://example.org:-1', 'https://example.org:4430',
        'https://example.org:44', 'null', '', 5, None, [], DROP,
        'https://example.org.', 'https://exampleXorg',
        'wss://example.org', 'https://a.org'
    ],
    'exp_origin': [('str', 'https://EXAMPLE.org'),
                   ('str', 'http://example.org'), ('str', 'https://evil.org'),
                   ('str', ''), ('str', 'example.org'),
                   ('str', 'https://example.org/'),
                   ('tuple', ['https://example.org']),
                   ('set', ['https://example.org']),
                   ('frozenset', ['https://example.org', 'https://a.org']),
                   ('dict', ['https://example.org']),
                   ('tuple', []), ('set', []), ('frozenset', []),
                   ('list', ['https://example.org', 'nonsense']),
                   ('list', ['nonsense', 'https://example.org']),
                   ('list', ['https://a.org', 'https://b.org']),
                   ('list', ['https://b.org', 'https://a.org',
                             'https://example.org:443']),
                   ('list', ['https://example.org', 'https://a.org']),
                   ('list', ['https://example.org'] * 2)],
    'tb_cli': [{
        'status': 'present',
        'id': ''
    }, {
        'status': 'supported',
        'id': 'A'
    }, {
        'status': 'supported',
        'id': 'B'
    }, {
        'status': 'supported',
        'id': None
    }, {
        'status': 'present',
        'id': 'a'
    }, {
        'status': 'present',
        'id': 'AA'
    }, {
        'status': 'present',
        'id': None
    }, {
        'status': 'not-supported'
    }, {
        'status': 'Present',
        'id': 'A'
    }, {}, {
        'id': 'A'
    }, [], 'present', 0, False, ['present', 'A'], {
        'status': 'supported',
        'id': ''
    }],
    'tb_exp': [('present', 'B'), ('present', ''), ('present', 'AA'),
               ('supported', 'A'), ('supported', ''), ('present', None)],
    'hash_of': [
        'EXAMPLE.ORG', 'example.org.', 'sub.example.org', 'org', '',
        'https://example.org', 'example.or'
    ],
    'hash_flip': list(range(32)),
    'flags': [
        f for f in range(64) if f not in (w.UP, 0, w.UP | w.UV, w.UV)
    ],
    'ext': [{
        n: v
    } for n, v in (('txAuthSimple', ''), ('txAuthSimple', 'x'),
                   ('txAuthGeneric', b''), ('txAuthGeneric', b'x'),
                   ('authnSel', False), ('authnSel', True), ('exts', []),
                   ('exts', ['appid', 'uvm']), ('uvi', b''), ('uvi', b'x'),
                   ('loc', {}), ('loc', {
                       'latitude': 0.0,
                       'longitude': 0,
                       'accuracy': 1.5
                   }), ('uvm', []), ('uvm', [[]]), ('uvm', [[0]]),
                   ('biometricPerfBounds', False),
                   ('biometricPerfBounds', True), ('appid', None),
                   ('appid', 0), ('appid', 'x'), ('zzz', True), ('uvm', 0),
                   ('loc', {
                       'x': 1.0
                   }), ('exts', [1]), ('txAuthSimple', b'x'))],
    'exp_ext': [(n, ) for n in EXT_ATTR if n != 'appid'] +
    [tuple(EXT_ATTR), ('uvm', 'uvi'), ('loc', 'exts')],
    'cd_extra': [{
        'extra': 1
    }, {
        'hashAlgorithm': 'SHA-256'
    }, {
        'clientExtensions': {
            'appid': True
        }
    }, {
        'crossOrigin': False
    }, {
        'tokenBinding': None
    }, {
        'x' * 300: [None, {}, []]
    }, {
        '': 0
    }],
}

REG_CORE = dict(
    COMMON_CORE,
    cdtype=['webauthn.get', ''],
    rp=['evil.org'],
    key=[('P384', 'a', None, 'value'), ('ED25519', 'a', None, 'name'),
         ('P256', 'a', 'EDDSA', 'value')],
    attested=[False],
    fmt=['none-extra', 'packed', 'u2f', 'u2f-sig', 'android', 'android-sig'],
    cred_id=[b'', b'x' * 256],
    count=[2**32 - 1],
)
_KEYS = [(c, 'a', a, f) for c in w.CURVES for a in w.ALGS
         for f in ('value', 'name')
         if (c, a, f) != ('P256', 'ES256', 'value')]
def _hashes_to(make, i):
    """The first n for which the hash of make(n) has a zero byte at i."""
    for n in range(100000):
        if w.sha256(make(n))[i] == 0:
            return n


def _hashed_challenges(base):
    """Challenges whose client data hashes begin or end with a zero byte."""
    def of(n):
        return client_data_bytes(dict(base, exp_challenge=b'c%d' % n))
    return [b'c%d' % _hashes_to(of, i) for i in (0, -1)]


#: relying parties whose hashes begin or end with a zero byte
HASHED_RPS = ['r%d.org' % _hashes_to(lambda n: b'r%d.org' % n, i)
              for i in (0, -1)]
REG_WIDE = dict(
    COMMON_WIDE,
    looks=list(range(1, len(LOOKS))),
    cdtype=[
        DROP, None, 5, 'webauthn.create ', ' webauthn.create',
        'Webauthn.Create', 'WEBAUTHN.CREATE', 'webauthn.createx', 'webauthn',
        'webauthn.', 'create', 'payment.get', ['webauthn.create']
    ],
    rp=['EXAMPLE.ORG', 'example.org.', 'sub.example.org', 'org', '', 'xn--e',
        '\u00e9xample.org'] + HASHED_RPS,
    exp_challenge=COMMON_WIDE['exp_challenge'] + _hashed_challenges(BASE_REG),
    key=_KEYS + [('P256', 'a', None, 'value', {
        k: v
    }) for k, v in ((1, DROP), (1, 4), (1, 1), (1, 3), (3, DROP), (3, -257),
                    (3, None), (-1, DROP), (-1, 4), (-1, 6), (-2, DROP),
                    (-2, b''), (-2, b'x' * 31), (-2, b'x' * 33), (-3, DROP),
                    (-3, True), (-3, b'y' * 31), (4, []), (4, [99]),
                    (2, 'kid'), (5, 'iv'))],
    fmt=[
        'unknown', 'empty-fmt', 'stmt-list', 'packed-x5c', 'packed-ecdaa',
        'tpm', 'tpm-x5c', 'safetynet', 'u2f-content', 'u2f-nocert', 'u2f-two',
        'u2f-selfcert', 'android-chal', 'android-origin', 'android-purpose',
        'android-purposes', 'android-all-sw', 'android-all-tee',
        'android-sw-only', 'android-signer', 'android-cert', 'android-noext',
        'android-empty', 'android-chain', 'u2f-garbage', 'u2f-cut',
        'u2f-P384', 'u2f-ED25519', 'u2f-RSA', 'android-no-purpose',
        'android-no-origin', 'android-garbage', 'android-cut', 'android-rsa'
    ],
    cred_id=[
        b'\x00', b'\x00' * 16, b'\xff' * 16, b'x' * 255, b'x' * 257,
        b'x' * 1023, b'x' * 1024, b'x' * 32768, b'x' * 65535
    ],
    count=[1, 255, 256, 65535, 65536, 2**24, 2**31 - 1, 2**31, 2**32 - 2],
    aaguid=[b'\xff' * 16, bytes(range(16)), b'\x00' * 15 + b'\x01'],
    user=[b'', b'\x00', b'u' * 64],
)
AUTH_CORE = dict(
    COMMON_CORE,
    cdtype=['webauthn.create', ''],
    rp=[None, 'evil.org'],
    reg_rp=[None, 'evil.org'],
    user=[None, b'user-b'],
    reg_user=[b'user-b', b''],
    handle=[b'user-a', b'user-b', b''],
    lookup=['none', 'raises'],
    allow=[[], [b'credential-id-01'], [b'other']],
    key=[('P384', 'a', None, 'value'), ('ED25519', 'a', None, 'name')],
    signer=[('P256', 'b', 'ES256')],
    sig=['empty', 'other-cd'],
    stored=[None, 0, 6, 7],
    count=[0, 4, 5],
    ignore_clone=[True],
    attested=[(('P256', 'b', 'ES256', 'value'), None)],
)
AUTH_WIDE = dict(
    COMMON_WIDE,
    looks=list(range(1, len(LOOKS))),
    cdtype=[
        DROP, None, 5, 'webauthn.get ', ' webauthn.get', 'Webauthn.Get',
        'WEBAUTHN.GET', 'webauthn.getx', 'webauthn', 'webauthn.', 'get',
        'payment.get', ['webauthn.get'], 'webauthn.ge'
    ],
    rp=['EXAMPLE.ORG', 'example.org.', 'sub.example.org', 'org', ''] +
    HASHED_RPS,
    reg_rp=['EXAMPLE.ORG', 'example.org.', 'sub.example.org', 'org', ''] +
    HASHED_RPS,
    exp_challenge=COMMON_WIDE['exp_challenge'] + _hashed_challenges(BASE_AUTH),
    user=[b'', b'user-', b'user-aa', b'USER-A', b'user-a\x00'],
    reg_user=[b'user-', b'user-aa', b'USER-A', b'\x00'],
    handle=[b'user-', b'user-aa', b'USER-A', b'user-a\x00', b'\x00'],
    allow=[[b'other', b'credential-id-01'], [b'credential-id-01', b'other'],
           [b'credential-id-0'], [b'credential-id-01x'], [b''],
           [b'CREDENTIAL-ID-01'],
           [bytes([i]) for i in range(40)] + [b'credential-id-01'],
           [b'credential-id-01\x00', b'credential-id-0']],
    cred_id=[b'', b'\x00', b'x' * 1024],
    key=[(c, 'a', a, f) for c in w.CURVES for a in
         (['ES256', 'ES384', 'ES512'] if c.startswith('P') else ['EDDSA'])
         for f in ('value', 'name')
         if (c, a, f) not in (('P256', 'ES256', 'value'), )],
    signer=[('P384', 'a', 'ES384'), ('ED25519', 'a', 'EDDSA')],
    sig=['short', 'long', 'flip', 'no-hash', 'swapped', 'other-ad',
         'other-hash', 'zero'],
    stored=[1, 4, 5, 2**31 - 1, 2**31, 2**32 - 1],
    count=[1, 7, 255, 256, 2**31 - 1, 2**31, 2**32 - 1],
    # assertions may carry attested credential data: it decides nothing
    attested=[True] + [(k, i) for k in (
        None, ('P256', 'a', 'ES256', 'name'), ('P256', 'b', None, 'name'),
        ('P256', 'a', 'ES512', 'value'), ('P384', 'a', None, 'value'),
        ('ED25519', 'a', None, 'value'), ('P256', 'a', 'EDDSA', 'value'))
        for i in (None, b'other', b'') if (k, i) != (None, None)],
)


def deviations(base, core, wide, k_core, k_pair=True):
    """All configurations with at most k_core core deviations, every wide
    deviation alone, and every wide one with one core one."""
    dims = sorted(set(core) | set(wide))
    yield (), {}
    for d in dims:
        for i, v in enumerate(core.get(d, [])):
            yield ((d, 'c', i), ), {d: v}
    for d in dims:
        for i, v in enumerate(wide.get(d, [])):
            yield ((d, 'w', i), ), {d: v}
    for k in range(2, k_core + 1):
        for combo in itertools.combinations([d for d in dims if d in core],
                                            k):
            for idx in itertools.product(*[range(len(core[d]))
                                           for d in combo]):
                yield (tuple((d, 'c', i) for d, i in zip(combo, idx)), {
                    d: core[d][i]
                    for d, i in zip(combo, idx)
                })
    if k_pair:
        for d in dims:
            for i, v in enumerate(wide.get(d, [])):
                for d2 in dims:
                    if d2 == d:
                        continue
                    for j, v2 in enumerate(core.get(d2, [])):
                        yield ((d, 'w', i), (d2, 'c', j)), {d: v, d2: v2}


def wide_pairs(wide):
    """All wide x wide pairs of different dimensions."""
    dims = sorted(wide)
    for d1, d2 in itertools.combinations(dims, 2):
        for i, a in enumerate(wide[d1]):
            for j, b in enumerate(wide[d2]):
                yield ((d1, 'w', i), (d2, 'w', j)), {d1: a, d2: b}


def wide_core_core(core, wide):
    """Every wide value with every pair of core values."""
    dims = sorted(core)
    for d in sorted(wide):
        for d1, d2 in itertools.combinations([x for x in dims if x != d], 2):
            for i, v in enumerate(wide[d]):
                for j, a in enumerate(core[d1]):
                    for k, b in enumerate(core[d2]):
                        yield ((d, 'w', i), (d1, 'c', j), (d2, 'c', k)), {
                            d: v,
                            d1: a,
                            d2: b
                        }


def _compatible(d):
    """cd_extra may overwrite tokenBinding: leave such combinations out."""
    return not (d.get('cd_extra') and 'tokenBinding' in d['cd_extra']
                and d.get('tb_cli') is not None)


def _cases(base, core, wide, k, wcc, pairs=True):
    seqs = [deviations(base, core, wide, k)]
    if pairs:
        seqs.append(wide_pairs(wide))
    if wcc:
        seqs.append(wide_core_core(core, wide))
    for key, d in itertools.chain(*seqs):
        if _compatible(d):
            yield key, d


def reg_cases(k, wcc=False, pairs=True):
    return _cases(BASE_REG, REG_CORE, REG_WIDE, k, wcc, pairs)


def auth_cases(k, wcc=False, pairs=True):
    return _cases(BASE_AUTH, AUTH_CORE, AUTH_WIDE, k, wcc, pairs)


def full(base, d):
    c = dict(base)
    c.update(d)
    return c


# --------------------------------------------------------------------------
# Near misses: two long values that agree except at one place.

LENGTHS = (1, 2, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257)


def near_bytes(n):
    """(value, all values one edit away)"""
    v = bytes((i * 7 + 3) % 251 for i in range(n))
    out = {v: None}
    for i in range(n):
        for x in (1, 0x20, 0x80, 0xff):
            out[v[:i] + bytes([v[i] ^ x]) + v[i + 1:]] = None
        out[v[:i] + v[i + 1:]] = None
        out[v[:i]] = None
        out[v[i:]] = None
        out[v[:i + 1] + v[i:]] = None
    for x in (0, 10, 32, 61):
        out[v + bytes([x])] = None
        out[bytes([x]) + v] = None
    return v, list(out)


def near_text(n):
    v = ''.join('.' if i % 40 == 39 and i < n - 1 else
                'abcdefghijkm'[i * 5 % 12] for i in range(n))
    out = {v: None}
    for i in range(n):
        for x in 'zZ-':
            out[v[:i] + x + v[i + 1:]] = None
        out[v[:i] + v[i].upper() + v[i + 1:]] = None
        out[v[:i] + v[i + 1:]] = None
        out[v[:i]] = None
        out[v[i:]] = None
        out[v[:i + 1] + v[i:]] = None
    return v, list(out)


def _near_dims(kind):
    for n in LENGTHS:
        v, others = near_bytes(n)
        for o in others:
            yield 'challenge', dict(exp_challenge=v, challenge=w.b64url(o))
            if kind == 'auth':
                yield 'allow', dict(cred_id=v, allow=[b'other', o])
                yield 'handle', dict(reg_user=v, user=None, handle=o)
                yield 'handle-user', dict(reg_user=v, user=v, handle=o)
                yield 'user', dict(reg_user=v, user=o)
        v, others = near_text(n)
        for o in others:
            yield 'token-binding', dict(tb_exp=('present', v),
                                        tb_cli={'status': 'present', 'id': o})
            yield 'token-binding-supported', dict(
                tb_exp=('supported', v), tb_cli={'status': 'supported',
                                                 'id': o})
            yield 'rp-hash', dict(rp=v, hash_of=o,
                                  **({} if kind == 'reg' else {'reg_rp': v}))
            if kind == 'auth':
                yield 'rp', dict(reg_rp=v, hash_of=v, rp=o)
            if o and '..' not in o and o[0] not in '.-' and o[-1] not in '.-':
                yield 'origin', dict(exp_origin=('str', 'https://' + v),
                                     origin='https://' + o)
                yield 'origins', dict(
                    exp_origin=('tuple', ['https://x.org', 'https://' + v]),
                    origin='https://' + o)
    for i in range(32):
        for x in range(1, 256):
            yield 'hash', dict(hash_flip=(i, x))
    if kind == 'auth':
        for n in (1, 2, 3, 8, 33, 65, 130):
            ids = [b'c%d' % i for i in range(n)]
            for i in range(n):
                yield 'allow-at', dict(cred_id=b'c%d' % i, allow=ids)
            for o in (b'c', b'c%d' % n, b'', b'c0' * 2):
                yield 'allow-no', dict(cred_id=o, allow=ids)
    for n in (1, 2, 3, 8, 33, 65):
        os_ = ['https://o%d.org' % i for i in range(n)]
        for form in ('list', 'tuple', 'set', 'dict', 'frozenset'):
            for i in range(n + 1):
                yield 'origin-at', dict(exp_origin=(form, os_),
                                        origin='https://o%d.org' % i)
    falsy = {'appid': False, 'txAuthSimple': '', 'txAuthGeneric': b'',
             'authnSel': False, 'exts': [], 'uvi': b'', 'loc': {}, 'uvm': [],
             'biometricPerfBounds': False}
    for have in range(512):
        ext = {k: v for i, (k, v) in enumerate(falsy.items())
               if have >> i & 1}
        # every expected set of at most two, or all but at most one
        for want in [m for m in range(512)
                     if bin(m).count('1') in (0, 1, 2, 8, 9)]:
            yield 'extensions', dict(ext=ext, exp_ext=tuple(
                k for i, k in enumerate(falsy) if want >> i & 1))


def near_cases(kind):
    for i, (name, d) in enumerate(_near_dims(kind)):
        yield (name, i), d


NEAR = ('challenges, user ids and handles, credential ids, relying party ids, '
        'token binding ids and origins of {} lengths up to {} against every '
        'single edit of them (substitution, deletion, doubling, truncation at '
        'each position); every byte of the RP id hash; lists of up to 130 '
        'allowed credentials and 65 origins; every subset of extension '
        'outputs against the small and large expected sets'.format(
            len(LENGTHS), max(LENGTHS)))


# --------------------------------------------------------------------------
# Flows: every legitimate way to call the handlers.  What a property decides
# must not depend on which one is used, so the checks of single conditions
# repeat their deviations in every flow.

_FLOW_COMMON = [
    [{}, {'require_uv': True, 'flags': w.UP | w.UV}, {'flags': w.UP | w.UV}],
    [{}, {'tb_exp': ('present', 'A'), 'tb_cli': TB_A},
     {'tb_exp': ('supported', None), 'tb_cli': {'status': 'supported'}}],
    [{}, {'ext': {'appid': False, 'uvm': [[1, 2, 3]]}, 'exp_ext': ('uvm', )},
     {'ext': {}}],
    [{}, {'exp_origin': ('list', ['https://a.org', 'https://example.org'])}],
]
REG_FLOWS = _FLOW_COMMON + [
    [{}, {'fmt': 'u2f'}, {'fmt': 'android'}],
    [{}, {'looks': 1}, {'looks': 4}],
    [{}, {'key': ('P384', 'a', None, 'name')}],
]
AUTH_FLOWS = _FLOW_COMMON + [
    [{}, {'user': None, 'handle': b'user-a'}, {'handle': b'user-a'}],
    [{}, {'rp': None}, {'reg_rp': None}],
    [{}, {'allow': [b'other', b'credential-id-01']}],
    [{}, {'stored': None}, {'stored': 0, 'count': 0}],
    [{}, {'ignore_clone': True}],
    [{}, {'looks': 1}, {'looks': 2}],
    [{}, {'key': ('ED25519', 'a', None, 'name')}],
]


def flows(dims, most=None):
    """-> (key, configuration) for every combination of the flow choices (of
    at most `most` choices that differ from the plain call)."""
    for idx in itertools.product(*[range(len(d)) for d in dims]):
        if most is not None and sum(i > 0 for i in idx) > most:
            continue
        cfg = {}
        for d, i in zip(dims, idx):
            cfg.update(d[i])
        yield idx, cfg


def flow_cases(kind, devs, most=None, without=None):
    """Every flow with every one of the deviations (list of dicts; a value
    may be a function of the flow's configuration)."""
    dims = REG_FLOWS if kind == 'reg' else AUTH_FLOWS
    if without:
        dims = [d for d in dims if not any(without in x for x in d)]
    for key, f in flows(dims, most):
        for i, d in enumerate([{}] + list(devs)):
            if _compatible(dict(f, **d)):
                yield (kind, key, i), [kind, dict(f, **d)]


def run_flow(ctx, case, classes=True):
    kind, d = case
    if kind == 'reg':
        check_reg(ctx, full(BASE_REG, d), classes)
    else:
        check_auth(ctx, full(BASE_AUTH, d), classes)


def one_each(alphabet, names_=None):
    """Each value of (some dimensions of) an alphabet alone."""
    return [{k: v} for k in sorted(alphabet) if names_ is None or k in names_
            for v in alphabet[k]]


def flow_text(kind, devs):
    dims = REG_FLOWS if kind == 'reg' else AUTH_FLOWS
    n = 1
    for d in dims:
        n *= len(d)
    return '{} flows of a valid {} x {} deviations'.format(
        n, 'registration' if kind == 'reg' else 'authentication',
        len(devs) + 1)


# --------------------------------------------------------------------------
# Scales: every byte, every code point and every length, as the whole or a
# part of each free value, against itself and against what a careless
# comparison would take for the same.


def like_blobs(b):
    out = [b, b + b'\x00', b + b' ', b'\x00' + b, b[:-1], b[1:], b.strip(),
           b.rstrip(b'\x00'), b.lower(), b.upper(), base64.b64encode(b),
           base64.urlsafe_b64encode(b).rstrip(b'='), b.hex().encode(),
           b[::-1], b.translate(None, b'-_=%')]
    return list(dict.fromkeys(out))


def like_texts(t):
    out = [t, t + '\x00', t + ' ', t + '.', t[:-1], t[1:], t.strip(),
           t.rstrip('.'), t.lower(), t.upper(), t.casefold(), t.title(),
           t.swapcase(), t[::-1], 'www.' + t, urllib.parse.quote(t),
           urllib.parse.unquote(t), t.encode('ascii', 'ignore').decode(),
           t.encode('ascii', 'replace').decode()]
    for form in ('NFC', 'NFKC', 'NFD', 'NFKD'):
        out.append(unicodedata.normalize(form, t))
    return list(dict.fromkeys(out))


def _scale_dims(kind, b=None, t=None):
    if b is not None:
        for o in like_blobs(b):
            yield dict(exp_challenge=b, challenge=w.b64url(o))
            if kind == 'auth':
                yield dict(cred_id=b, allow=[b'other', o])
                yield dict(reg_user=b, user=None, handle=o)
                yield dict(reg_user=b, user=b, handle=o)
                yield dict(reg_user=b, user=o)
            elif b:
                yield dict(cred_id=b, user=o)
    if t is not None:
        for o in like_texts(t):
            for s in ('present', 'supported'):
                yield dict(tb_exp=(s, t), tb_cli={'status': s, 'id': o})
            if kind == 'reg':
                yield dict(rp=t, hash_of=o)
            else:
                yield dict(rp=t, reg_rp=t, hash_of=o)
                yield dict(rp=None, reg_rp=t, hash_of=o)
                yield dict(rp=t, reg_rp=None, hash_of=o)
                yield dict(reg_rp=t, hash_of=t, rp=o)
        right = (BASE_REG if kind == 'reg' else BASE_AUTH)['cdtype']
        for x in (t, t + right, right + t, right[:8] + t + right[8:],
                  right.replace('e', t), right[:-1] + t):
            yield dict(cdtype=x)


def scale_cases(kind, sizes=300):
    return ladder.cases(sizes)


def run_scale(ctx, kind, case, only=None):
    what, i = case
    if what == 'text':
        dims = [d for t in ladder.texts(i)
                for d in _scale_dims(kind, t=t)]
    elif what == 'byte':
        dims = [d for b in ladder.blobs(i)
                for d in _scale_dims(kind, b=b)]
    else:
        dims = list(_scale_dims(kind, ladder.sized_blob(i),
                                ladder.sized_text(i)))
    for d in dims:
        if only and not only & set(d):
            continue
        if kind == 'reg':
            check_reg(ctx, full(BASE_REG, d))
        else:
            check_auth(ctx, full(BASE_AUTH, d))


SCALES = ('every byte, every code point below U+0300 and a list above, in {} '
          'surroundings, and every length up to 300, as challenge, credential '
          'id, user id and handle, relying party id, token binding id and '
          'client data type, against itself and against {} values a careless '
          'comparison could confuse it with'.format(
              len(ladder.AROUND), len(like_texts('aB-%')) - 1))


# --------------------------------------------------------------------------
# The same for registrations with a signed attestation

VARIED = ('each value of every length, byte and code point as challenge, '
          'credential id, user id and relying party id, {0} challenges and '
          '{0} relying parties (so that the hashes take every value of each '
          'byte) and {1} keys per curve x {2} genuine and broken statements')


def varied_text(fmts, hashes_, keys):
    return VARIED.format(hashes_, keys, len(fmts))


def varied_cases(fmts, curves, hashes_, keys):
    for f in fmts:
        for key, (what, i) in ladder.cases(300):
            yield (f, what, i), [f, what, i]
        for lo in range(0, hashes_, 64):
            for what in ('challenges', 'rps'):
                yield (f, what, lo), [f, what, lo]
        for curve in curves:
            for lo in range(0, keys, 16):
                yield (f, curve, lo), [f, curve, lo]


def run_varied(ctx, case):
    f, what, i = case
    if what == 'text':
        dims = [dict(rp=t) for t in ladder.texts(i)]
    elif what in ('byte', 'length'):
        dims = []
        for b in (ladder.blobs(i) if what == 'byte' else
                  [ladder.sized_blob(i)]):
            dims += [dict(exp_challenge=b), dict(cred_id=b), dict(user=b)]
        if what == 'length':
            dims.append(dict(rp=ladder.sized_text(i)))
    elif what == 'challenges':
        dims = [dict(exp_challenge=b'c%d' % n) for n in range(i, i + 64)]
    elif what == 'rps':
        dims = [dict(rp='r%d.org' % n) for n in range(i, i + 64)]
    else:
        dims = [dict(key=(what, 'k%d' % n, None, 'value'))
                for n in range(i, i + 16)]
    for d in dims:
        check_reg(ctx, full(BASE_REG, dict(d, fmt=f)))
