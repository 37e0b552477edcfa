"""C02: authentication gate (bounded-deviation exploration)."""
from mc import ceremony as c
from mc.core import FnSpace, THOROUGH

K = 5 if THOROUGH else 4
BOUNDS = ('every authentication configuration with at most {} deviations over the core '
          'alphabet of {} dimensions; every wide-alphabet value alone, with '
          'every wide or core value of every other dimension{}').format(
              K, len(set(c.AUTH_CORE) | set(c.AUTH_WIDE)),
              ', and with every pair of core values' if THOROUGH else '')
ASSUMPTIONS = [
    'signatures are deterministic (RFC 6979 style nonces); the adversary does '
    'not forge signatures',
]


DEVS = c.one_each(c.AUTH_CORE) + (c.one_each(c.AUTH_WIDE) if THOROUGH else [])
MOST = None if THOROUGH else 4


def spaces():
    return [
        FnSpace('flows', c.flow_text('auth', DEVS) +
                (' (at most {} unusual choices)'.format(MOST) if MOST else ''),
                lambda: c.flow_cases('auth', DEVS, MOST),
                lambda ctx, x: c.run_flow(ctx, x, False)),
        FnSpace('authentication', BOUNDS, lambda: c.auth_cases(K, wcc=THOROUGH),
                lambda ctx, d: c.check_auth(ctx, c.full(c.BASE_AUTH, d))),
        FnSpace('near-misses', c.NEAR, lambda: c.near_cases('auth'),
                lambda ctx, d: c.check_auth(ctx, c.full(c.BASE_AUTH, d))),
        FnSpace('scales', c.SCALES, lambda: c.scale_cases('auth'),
                lambda ctx, x: c.run_scale(ctx, 'auth', x)),
    ]
