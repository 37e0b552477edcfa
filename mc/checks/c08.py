"""C08: origins.  The grammar of origin strings is enumerated component by
component and, in the token space, as all token strings up to a length; the
reference reads them with its own grammar."""
import ipaddress
import itertools
import re

from mc import ceremony as c
from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp.errors import OriginError, WebAuthnRPError
from webauthn_rp.parsers import parse_origin

# --------------------------------------------------------------------------
# Reference

_RE = re.compile(
    r'\A([A-Za-z][A-Za-z0-9+.-]*)://(\[[^\[\]]*\]|[^/?#@:\[\]]+)'
    r'(?::([0-9]*))?(\??#?)\Z')
DEFAULT = {'http': 80, 'https': 443}


def read(s):
    """-> (triple or None, strict?): the origin the string denotes. strict is
    False for the two spellings the property leaves open (an empty port after
    a colon, an empty query or fragment, leading zeros): refusing those is
    accepted as well."""
    m = _RE.match(s)
    if not m:
        return None, True
    scheme, host, port, tail = m.groups()
    scheme = scheme.lower()
    if scheme not in DEFAULT:
        return None, True
    strict = not tail and port != ''
    if port and len(port) > 1 and port[0] == '0':
        strict = False
    if host.startswith('['):
        host = host[1:-1]
        try:
            ipaddress.IPv6Address(host)
        except ValueError:
            return None, True
    p = int(port) if port else DEFAULT[scheme]
    if p > 65535:
        return None, True
    return (scheme, host.lower(), p), strict


def check_parse(ctx, s):
    want, strict = read(s)
    ctx.step()
    try:
        got = parse_origin(s)
    except OriginError:
        ctx.outcome('refused')
        if want is not None and strict:
            raise Violation('{!r} is a valid origin but was refused'.format(s))
        return
    got = (got.scheme, got.hostname, got.port)
    ctx.outcome('{}:{}'.format(got[0], got[2]))
    if want is None:
        raise Violation('{!r} is not an http(s) origin but was parsed as {!r}'.
                        format(s, got))
    if got != want:
        raise Violation('{!r} was parsed as {!r}, expected {!r}'.format(
            s, got, want))


# --------------------------------------------------------------------------
# Component product

SCHEMES = [
    'http', 'https', 'HTTP', 'hTTps', 'ftp', 'wss', 'ws', 'httpsx', 'xhttps',
    'file', 'android', ''
]
SEPS = ['://', ':', '//', ':/', '', ':///']
USERS = ['', 'u@', 'u:p@', '@', ':@', 'example.org@', 'example.org:443@']
HOSTS = [
    'example.org', 'EXAMPLE.org', 'sub.example.org', 'example.or',
    'example.orgx', 'example.org.', 'example', 'localhost', '127.0.0.1',
    '[::1]', '[::FFFF:1]', '[::g]', '[]', '[::1', '::1', '', 'a', '9', '-',
    'www.example.org', 'xn--strae-oqa.org', 'stra\u00dfe.org', 'a_b.org'
]
PORTS = [
    '', ':', ':80', ':443', ':444', ':8080', ':0', ':1', ':65535', ':65536',
    ':99999', ':00443', ':-1', ':+443', ':x', ':4x', ':443:443', ':0x1bb',
    ':1_0', ':\uff14'
]
TAILS = [
    '', '/', '/a', '//', '?', '?q', '#', '#f', '/;p', '/?q', '/#f', '/.',
    '@evil.org', '?@evil.org', '#@evil.org'
]


def component_cases():
    for t in itertools.product(*[
            range(len(x)) for x in (SCHEMES, SEPS, USERS, HOSTS, PORTS, TAILS)
    ]):
        yield t, ''.join(
            x[i] for x, i in zip((SCHEMES, SEPS, USERS, HOSTS, PORTS,
                                  TAILS), t))


# --------------------------------------------------------------------------
# Token strings

TOKENS = [
    'http', 'https', '://', ':', '/', '@', '?', '#', '[', ']', 'a', 'B', '.',
    '80', '443', '0'
]
LEN = 5 if THOROUGH else 4


def token_cases():
    for n in range(LEN + 1):
        for t in itertools.product(range(len(TOKENS)), repeat=n):
            yield t, ''.join(TOKENS[i] for i in t)
    # the same behind a complete scheme, where it gets interesting
    for p in ('https://', 'http://'):
        for n in range(1, LEN + 1):
            for t in itertools.product(range(len(TOKENS)), repeat=n):
                yield (p, ) + t, p + ''.join(TOKENS[i] for i in t)


# --------------------------------------------------------------------------
# Matching, through both handlers

POOL = [
    'https://example.org', 'https://example.org:443', 'https://EXAMPLE.ORG',
    'HTTPS://example.org', 'http://example.org', 'http://example.org:80',
    'http://example.org:443', 'https://example.org:80',
    'https://example.org:444', 'https://example.org:4430',
    'https://example.org:44', 'https://example.org:43', 'https://example.org:0',
    'https://sub.example.org', 'https://xexample.org', 'https://example.orgx',
    'https://example.or', 'https://example.org.', 'https://example.org.evil.org',
    'https://evil.org', 'https://example', 'https://org', 'https://e',
    'https://exampleXorg', 'https://example-org', 'https://[::1]',
    'https://[::1]:443', 'https://[::2]', 'http://localhost',
    'http://localhost:80', 'http://localhost:8080', 'http://LOCALHOST:8080',
    'http://127.0.0.1', 'http://127.0.0.1:443', 'http://127.0.0.10',
    'https://443', 'https://80', 'https://www.example.org',
    'https://WWW.example.org', 'https://login.example.org',
    'https://m.example.org', 'https://www.org', 'https://www',
    'https://xn--strae-oqa.org', 'https://stra\u00dfe.org',
    'https://strasse.org', 'https://STRASSE.org', 'https://127.0.0.1',
    'https://127.1', 'https://0x7f.0.0.1', 'https://2130706433',
    'https://[0:0:0:0:0:0:0:1]', 'https://[::ffff:127.0.0.1]',
    'https://example_org', 'https://exampl\u00e9.org', 'https://example.0rg',
]
INVALID = [
    '', 'example.org', '//example.org', 'https:example.org', 'https://',
    'https://:443', 'ftp://example.org', 'ftp://example.org:443',
    'wss://example.org', 'https://example.org/', 'https://example.org/a',
    'https://example.org?q', 'https://example.org#f',
    'https://u@example.org', 'https://example.org@evil.org',
    'https://evil.org@example.org', 'https://:p@example.org',
    'https://example.org:x', 'https://example.org:65536',
    'https://example.org:-1', 'https://evil.org#https://example.org',
    'https://evil.org/https://example.org', 'https://[example.org]', 'null',
    'https://[::1', 'https://example.org:443:443', 'httpss://example.org'
]


def match_cases():
    for cer in ('reg', 'auth'):
        for i, cl in enumerate(POOL + INVALID):
            for j, ex in enumerate(POOL + INVALID):
                yield (cer, i, 'str', j), [cer, cl, ['str', ex]]
                yield (cer, i, 'list', j), [cer, cl, ['list', [ex]]]


CPOOL = [
    'https://example.org', 'https://example.org:443', 'http://example.org',
    'https://example.org:444', 'https://evil.org', 'https://sub.example.org',
    'https://EXAMPLE.org', 'nonsense', 'https://example.org/', ''
]
KINDS = ('list', 'tuple', 'set', 'frozenset', 'dict')


def collection_cases():
    clients = CPOOL + ['https://a.org', 'https://example.org:80']
    n = 3 if THOROUGH else 2
    for cer in ('reg', 'auth'):
        for k in KINDS:
            yield (cer, k), [cer, 'https://example.org', [k, []]]
            yield (cer, k, 'x'), [cer, '', [k, []]]
        for i, cl in enumerate(clients):
            for size in range(1, n + 1):
                for t in itertools.product(range(len(CPOOL)), repeat=size):
                    for k in KINDS if size < 3 else ('list', 'set'):
                        yield (cer, i, k) + t, [
                            cer, cl, [k, [CPOOL[x] for x in t]]
                        ]


def check_match(ctx, case):
    cer, client, (kind, exp) = case
    base = c.BASE_REG if cer == 'reg' else c.BASE_AUTH
    cfg = dict(base, origin=client, exp_origin=(kind, exp))
    if cer == 'reg':
        err, reg, args, facts = c.run_reg(ctx, cfg)
        stored = reg.named('att')
    else:
        err, reg, args, gen = c.run_auth(ctx, cfg)
        stored = reg.named('ass')
    exps = [read(x)[0] for x in ([exp] if kind == 'str' else exp)]
    cl = read(client)[0]
    ok = bool(exps) and None not in exps and cl is not None and cl in exps
    ctx.outcome('accepted' if err is None else type(err).__name__)
    if ok:
        if err is not None:
            raise Violation('origin {!r} is one of {!r} but was refused with '
                            '{!r}'.format(client, exp, err))
        if len(stored) != 1:
            raise Violation('accepted without telling the registrar')
        return
    if err is None:
        raise Violation('origin {!r} was accepted, expected {!r}'.format(
            client, exp))
    if not isinstance(err, OriginError):
        raise Violation('origin {!r}, expected {!r}: {!r} instead of an '
                        'origin error'.format(client, exp, err))
    if stored:
        raise Violation('refused, but the registrar was told')


BOUNDS = (
    'parse_origin on the full product of {} schemes, {} separators, {} user '
    'informations, {} hosts, {} ports and {} tails, and on every string of at '
    'most {} tokens over {} tokens (also behind http:// and https://); '
    'matching through both handlers for every pair of {} client and expected '
    'origins and every collection of at most {} of {} origins in every kind '
    'of collection').format(len(SCHEMES), len(SEPS), len(USERS), len(HOSTS),
                            len(PORTS), len(TAILS), LEN, len(TOKENS),
                            len(POOL + INVALID), 3 if THOROUGH else 2,
                            len(CPOOL))
ASSUMPTIONS = [
    'white space, control and percent-encoded characters in hosts are outside '
    'the enumerated grammar (the property does not say how a host is spelt)',
    'an empty port after the colon, a port with leading zeros and an empty '
    'query or fragment may either be refused or read as if not written',
]


# Every flow of both ceremonies with every relation of the two origins.
ORIGINS = [{'origin': x} for x in (
    'https://example.org:443', 'HTTPS://EXAMPLE.org', 'http://example.org',
    'https://example.org:444', 'https://sub.example.org',
    'https://www.example.org', 'https://example.org.evil.org',
    'https://example.org/', 'https://example.or', 'null', '',
    'https://u@example.org')] + [{'exp_origin': x} for x in (
        ('str', 'http://example.org'), ('str', 'https://example.org:443'),
        ('str', 'https://example.org/'), ('list', []), ('str', ''),
        ('set', ['https://a.org', 'https://www.example.org']))]
MOST = None if THOROUGH else 3


def spaces():
    return [
        FnSpace('registration-flows', c.flow_text('reg', ORIGINS),
                lambda: c.flow_cases('reg', ORIGINS), c.run_flow),
        FnSpace('authentication-flows', c.flow_text('auth', ORIGINS) +
                (' (at most {} unusual choices)'.format(MOST) if MOST else ''),
                lambda: c.flow_cases('auth', ORIGINS, MOST), c.run_flow),
        FnSpace('components', BOUNDS, component_cases, check_parse),
        FnSpace('tokens', BOUNDS, token_cases, check_parse),
        FnSpace('matching', BOUNDS, match_cases, check_match),
        FnSpace('collections', BOUNDS, collection_cases, check_match),
    ]
