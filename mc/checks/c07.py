"""C07: every failed check has its own documented error class."""
from mc import attest
from mc import ceremony as c
from mc.checks import c17, c18
from mc.core import FnSpace, THOROUGH

K = 4 if THOROUGH else 3
BOUNDS = ('every configuration of both ceremonies with at most {} deviations '
          'over the core alphabet, every wide-alphabet value alone and with '
          'every wide or core value of every other dimension: the class that '
          'is raised must be one of those of the conditions that fail'
          ).format(K)
ASSUMPTIONS = [
    'where the documentation leaves the class open (malformed certificates, '
    'unusable keys) any of the classes listed in mc/ceremony.py is accepted',
    'with several failing conditions any order of the checks is accepted',
]


RDEVS = c.one_each(c.REG_CORE) + (c.one_each(c.REG_WIDE) if THOROUGH else [])
ADEVS = c.one_each(c.AUTH_CORE) + c.one_each(c.AUTH_WIDE)
MOST = 4 if THOROUGH else 2


def statements():
    """Unusable attestation statements: those of C17 and C18 in which nothing
    else is broken."""
    for name, m, skip in (('C17', c17, ('flows', 'tampering')),
                          ('C18', c18, ('flows', 'signature'))):
        for s in m.spaces():
            if s.name not in skip:
                yield name, s


def spaces():
    return attest.errors_of(statements()) + [
        FnSpace('registration-flows', c.flow_text('reg', RDEVS),
                lambda: c.flow_cases('reg', RDEVS), c.run_flow),
        FnSpace('authentication-flows', c.flow_text('auth', ADEVS) +
                ' (at most {} unusual choices)'.format(MOST),
                lambda: c.flow_cases('auth', ADEVS, MOST), c.run_flow),
        FnSpace('registration-errors', BOUNDS, lambda: c.reg_cases(K),
                lambda ctx, d: c.check_reg(ctx, c.full(c.BASE_REG, d), True)),
        FnSpace('authentication-errors', BOUNDS, lambda: c.auth_cases(K),
                lambda ctx, d: c.check_auth(ctx, c.full(c.BASE_AUTH, d), True))
    ]
