"""C22: the trip of a challenge to the client and back."""
import base64
import itertools
import json

from mc import world as w
from mc.core import FnSpace, THOROUGH, Violation
from webauthn_rp import types as T
from webauthn_rp.backends import CredentialsBackend
from webauthn_rp.builders import (CredentialCreationOptionsBuilder,
                                  CredentialRequestOptionsBuilder)
from webauthn_rp.converters import jsonify
from webauthn_rp.errors import ChallengeError, WebAuthnRPError
from webauthn_rp.registrars import CredentialData
from webauthn_rp.utils import url_base64_decode, url_base64_encode

STD = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
URL = STD[:-2] + '-_'


def ref_encode(b, alphabet):
    """RFC 4648, written out."""
    out = []
    for i in range(0, len(b), 3):
        g = b[i:i + 3]
        n = int.from_bytes(g + b'\x00' * (3 - len(g)), 'big')
        s = [alphabet[n >> 18 & 63], alphabet[n >> 12 & 63],
             alphabet[n >> 6 & 63], alphabet[n & 63]]
        out += s[:len(g) + 1] + ['='] * (3 - len(g))
    return ''.join(out)


# --------------------------------------------------------------------------
# The codec


def check_codec(b):
    e = url_base64_encode(b)
    e = e.decode('ascii') if isinstance(e, bytes) else e
    want = ref_encode(b, URL)
    if e.rstrip('=') != want.rstrip('='):
        raise Violation('{!r} is encoded as {!r}, not {!r}'.format(b, e, want))
    for s in {e, want, want.rstrip('=')}:
        d = url_base64_decode(s)
        if d != b or not isinstance(d, bytes):
            raise Violation('{!r} is decoded as {!r}, not {!r}'.format(
                s, d, b))


def codec_cases():
    yield ('empty', ), ['all', b'', 0]
    for n in (1, 2):
        for p in ([b''] if n == 1 else [bytes([x]) for x in range(256)]):
            yield (n, p), ['all', p, 1]
    for p in itertools.product(range(256), repeat=2):
        yield (3, bytes(p)), ['all', bytes(p), 1]
    for n in range(4, 41 if THOROUGH else 21):
        for fill in (0, 0x55, 0xaa, 0xff, 0xfb, 0xef, 0xbe):
            for at in range(n):
                yield (n, fill, at), ['at', n, fill, at]
    for n in range(0, 4097 if THOROUGH else 1025):
        yield ('long', n), ['long', n]
    for n in BIG:
        yield ('big', n), ['long', n]


#: lengths around every power of two and of ten (and the texts' lengths)
BIG = sorted({m + d for k in range(10, 21 if THOROUGH else 18)
              for m in (2**k, 3 * 2**k // 4, 10**(k // 3)) for d in (-1, 0, 1, 2)})


def run_codec(ctx, case):
    if case[0] == 'all':
        tails = itertools.product(range(256), repeat=case[2])
        for t in tails:
            check_codec(case[1] + bytes(t))
            ctx.step(2)
    elif case[0] == 'at':
        n, fill, at = case[1:]
        for v in range(256):
            b = bytearray([fill]) * n
            b[at] = v
            check_codec(bytes(b))
            ctx.step(2)
    else:
        for b in patterns(case[1]):
            check_codec(b)
            ctx.step(2)
    ctx.outcome(case[0])


def patterns(n):
    yield bytes(n)
    yield b'\xff' * n
    yield bytes((i * 7 + n) & 255 for i in range(n))
    yield (b'\xfb\xef\xbe' * (n // 3 + 1))[:n]


# --------------------------------------------------------------------------
# End to end

USER = w.user(b'user-a')
CRED = b'credential-id-01'
ORIGIN = 'https://example.org'
PARAMS = [T.PublicKeyCredentialParameters(
    type=T.PublicKeyCredentialType.PUBLIC_KEY,
    alg=T.COSEAlgorithmIdentifier.Value.ES256)]




def stored(_):
    return CredentialData(credential_public_key=w.lib_key('ED25519', 'a'),
                          signature_count=None, user_entity=USER,
                          rp_entity=w.rp())


def sent(kind, challenge):
    """The options as the browser gets them."""
    if kind == 'reg':
        o = CredentialCreationOptionsBuilder(
            rp=w.rp(), pub_key_cred_params=PARAMS).build(user=USER,
                                                         challenge=challenge)
    else:
        o = CredentialRequestOptionsBuilder(rp_id='example.org').build(
            challenge=challenge)
    j = json.loads(json.dumps(jsonify(o)))
    return j['publicKey']['challenge']


def answer(ctx, kind, text, expected):
    """The client answers with the challenge `text`: accepted?"""
    rec = w.Recorder(on_get=stored)
    be = CredentialsBackend(rec)
    common = dict(expected_challenge=expected, expected_origin=ORIGIN,
                  user=USER, rp=w.rp())
    ctx.step()
    try:
        if kind == 'reg':
            cd = w.client_data('webauthn.create', text, ORIGIN)
            ad = w.auth_data(w.sha256(b'example.org'), w.UP | w.AT, 0,
                             w.attested_data(bytes(16), CRED,
                                             w.cose_map('ED25519', 'a')))
            be.handle_credential_attestation(
                credential=w.attestation_credential(
                    CRED, cd, w.attestation_object('none', {}, ad)), **common)
        else:
            cd = w.client_data('webauthn.get', text, ORIGIN)
            ad = w.auth_data(w.sha256(b'example.org'), w.UP, 7)
            be.handle_credential_assertion(
                credential=w.assertion_credential(
                    CRED, cd, ad,
                    w.private_key('ED25519', 'a').sign(ad + w.sha256(cd))),
                **common)
    except WebAuthnRPError as e:
        if rec.named('att') or rec.named('ass'):
            raise Violation('refused, but the registrar was told')
        return e
    if len(rec.named('att') + rec.named('ass')) != 1:
        raise Violation('accepted, but not reported once')
    return None


def check_trip(ctx, kind, b):
    text = sent(kind, b)
    if text != ref_encode(b, STD):
        raise Violation('challenge {!r} is sent as {!r}'.format(b, text))
    back = base64.b64decode(text)
    full = ref_encode(back, URL)
    for t in {full, full.rstrip('=')}:
        e = answer(ctx, kind, t, b)
        if e is not None:
            raise Violation('{}: challenge {!r} came back as {!r} and was '
                            'refused with {!r}'.format(kind, b, t, e))


def trip_cases():
    for kind in ('reg', 'auth'):
        yield (kind, 0), [kind, 'all', b'', 0]
        yield (kind, 1), [kind, 'all', b'', 1]
        for p in range(256):
            yield (kind, 2, p), [kind, 'all', bytes([p]), 1]
        for n in range(3, 65 if THOROUGH else 13):
            for at in range(n):
                yield (kind, n, at), [kind, 'at', n, at]
        for n in range(0, 1025 if THOROUGH else 257):
            yield (kind, 'long', n), [kind, 'long', n]
        for n in BIG:
            yield (kind, 'big', n), [kind, 'long', n]


def run_trip(ctx, case):
    kind, how = case[:2]
    if how == 'all':
        for t in itertools.product(range(256), repeat=case[3]):
            check_trip(ctx, kind, case[2] + bytes(t))
    elif how == 'at':
        n, at = case[2:]
        for v in range(256):
            b = bytearray(b'\xfb') * n
            b[at] = v
            check_trip(ctx, kind, bytes(b))
    else:
        for b in patterns(case[2]):
            check_trip(ctx, kind, b)
    ctx.outcome(how)


# --------------------------------------------------------------------------
# Other challenges


def neighbours(b):
    """Every single-bit change, deletion, truncation, insertion of a few
    values, swap, repetition and re-encoding of b."""
    out = []
    for i in range(len(b)):
        for k in range(8):
            x = bytearray(b)
            x[i] ^= 1 << k
            out.append(bytes(x))
        out.append(b[:i] + b[i + 1:])
        out.append(b[:i])
        out.append(b[i:])
    for i in range(len(b) + 1):
        for v in (0, 1, 0x3d, 0x41, 0xff):
            out.append(b[:i] + bytes([v]) + b[i:])
    for i in range(len(b) - 1):
        out.append(b[:i] + b[i + 1:i + 2] + b[i:i + 1] + b[i + 2:])
    out += [b'', b + b, b[::-1], b.upper(), b.lower(), b.swapcase(),
            b.strip(), b + b'=', b.hex().encode(),
            ref_encode(b, STD).encode(), ref_encode(b, URL).encode(),
            ref_encode(b, URL).rstrip('=').encode()]
    return sorted(set(out) - {b})


WORDS = [b'a', b'ab', b'abc', b'\x00', b'\x00\x00', b'\xff\xfe\xfd',
         b'Challenge', b'\xfb\xef\xbe\xff', b' x ', b'=', b'AAAA',
         bytes(16), bytes(range(32)), b'\xff' * 33]


def other_cases():
    for kind in ('reg', 'auth'):
        for i, b in enumerate(WORDS):
            for c in neighbours(b):
                yield (kind, i, c), [kind, b, c]
        one = [b''] + [bytes([x]) for x in range(256)]
        for i, b in enumerate(one):
            yield (kind, 'one', i), [kind, b, None]


def run_other(ctx, case):
    kind, b, c = case
    cs = [c] if c is not None else [
        x for x in [b''] + [bytes([v]) for v in range(256)] if x != b]
    for c in cs:
        full = ref_encode(c, URL)
        for t in {full, full.rstrip('=')}:
            e = answer(ctx, kind, t, b)
            if e is None:
                raise Violation('{}: {!r}, the encoding of {!r}, was accepted '
                                'for the challenge {!r}'.format(kind, t, c, b))
            if not isinstance(e, ChallengeError):
                raise Violation('{}: {!r} for the challenge {!r} was refused '
                                'with {!r}'.format(kind, t, b, e))
    ctx.outcome('refused')


BOUNDS = ('codec: all byte strings of up to 3 bytes, every byte value at '
          'every place of strings of up to {} bytes on 7 backgrounds, 4 '
          'patterns of every length up to {}; both ceremonies end to end '
          '(builder, JSON, client, handler; padded and unpadded): all '
          'challenges of up to 2 bytes, every byte value at every place up to '
          '{} bytes, 4 patterns of every length up to {} and around every power '
          'of two up to {}; all ordered pairs of '
          'different challenges of up to one byte, all single-bit, deletion, '
          'insertion, truncation and re-encoding neighbours of {} words'
          ).format(40 if THOROUGH else 20, 4096 if THOROUGH else 1024,
                   64 if THOROUGH else 12, 1024 if THOROUGH else 256, BIG[-1],
                   len(WORDS))
ASSUMPTIONS = ['the client decodes the base64 of the options correctly']


def spaces():
    return [
        FnSpace('codec', BOUNDS, codec_cases, run_codec),
        FnSpace('round-trip', BOUNDS, trip_cases, run_trip),
        FnSpace('other-challenges', BOUNDS, other_cases, run_other),
    ]
