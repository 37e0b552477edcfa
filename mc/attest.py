"""Registrations with hand-made attestation statements."""
from mc import ceremony as c
from mc import world as w
from mc.core import FnSpace, Violation
from webauthn_rp.backends import CredentialsBackend

#: the classes that a statement which must be refused may be refused with, or
#: None if any will do (see errors_of)
CLASSES = None

REFUSALS = ('AttestationError', 'ValidationError', 'ParserError',
            'DecodingError', 'UnimplementedError',
            'PublicKeyConversionError')


def errors_of(spaces):
    """The same spaces, where every statement that must be refused has to be
    refused with a documented class."""
    def judged(run):
        def run_(ctx, case):
            global CLASSES
            before, CLASSES = CLASSES, REFUSALS
            try:
                run(ctx, case)
            finally:
                CLASSES = before
        return run_
    return [FnSpace('{} of {}'.format(s.name, name), s.bound, s.cases,
                    judged(s.run)) for name, s in spaces]


def attempt(ctx, cfg, cd, ad, fmt, stmt, status, cert, what, exact=True):
    """Hand one registration to the backend. status: 'ok' (must be accepted
    and stored as given), 'bad' (must be refused, nothing stored) or 'open'.
    cert: the expected trusted path."""
    ao = w.attestation_object(fmt, stmt, ad)
    reg = w.Recorder()
    cred = w.attestation_credential(cfg['cred_id'], cd, ao)
    u, r = w.user(cfg['user']), w.rp(cfg['rp'])
    ctx.step()
    err = None
    try:
        CredentialsBackend(reg).handle_credential_attestation(
            credential=cred,
            user=u,
            rp=r,
            expected_challenge=cfg['exp_challenge'],
            expected_origin=c._origin_arg(cfg['exp_origin']))
    except Exception as e:
        err = e
    if err is not None:
        ctx.outcome('refused:' + type(err).__name__)
        if status == 'ok':
            raise Violation('{} was refused with {!r}'.format(what(), err))
        if CLASSES and status == 'bad' and type(err).__name__ not in CLASSES:
            raise Violation(
                '{} has an unusable attestation, but was refused with {!r}, '
                'not as such (any of {})'.format(what(), err,
                                                 ', '.join(CLASSES)))
        if reg.named('att') or reg.named('ass'):
            raise Violation('{} was refused with {!r}, but stored'.format(
                what(), err))
        return False
    ctx.outcome('accepted')
    if status == 'bad':
        raise Violation('{} was accepted'.format(what()))
    if not exact:
        if len(reg.named('att')) != 1:
            raise Violation('{} was accepted, but not stored once'.format(
                what()))
        a = reg.named('att')[0]
        if a['att_type'].name != 'BASIC' or len(a['trusted_path'] or ()) != 1:
            raise Violation('{} was stored as {!r}'.format(
                what(), a['att_type']))
        return True
    c.check_reg_handover(cfg, reg, (cred, u, r),
                         (cd, ad, ao, (fmt, stmt, None, 'BASIC', cert)))
    return True
