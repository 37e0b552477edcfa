"""C01: registration gate (bounded-deviation exploration)."""
from mc import ceremony as c
from mc.core import FnSpace, THOROUGH

K = 5 if THOROUGH else 4
BOUNDS = ('every registration configuration with at most {} deviations over the core '
          'alphabet of {} dimensions; every wide-alphabet value alone, with '
          'every wide or core value of every other dimension{}').format(
              K, len(set(c.REG_CORE) | set(c.REG_WIDE)),
              ', and with every pair of core values' if THOROUGH else '')
ASSUMPTIONS = [
    'SHA-256 is collision free on the enumerated messages',
    'the conditions that are enumerated jointly are at most as many as the '
    'bound says',
]


DEVS = c.one_each(c.REG_CORE) + (c.one_each(c.REG_WIDE) if THOROUGH else [])


def spaces():
    return [
        FnSpace('flows', c.flow_text('reg', DEVS),
                lambda: c.flow_cases('reg', DEVS),
                lambda ctx, x: c.run_flow(ctx, x, False)),
        FnSpace('registration', BOUNDS, lambda: c.reg_cases(K, wcc=THOROUGH),
                lambda ctx, d: c.check_reg(ctx, c.full(c.BASE_REG, d))),
        FnSpace('near-misses', c.NEAR, lambda: c.near_cases('reg'),
                lambda ctx, d: c.check_reg(ctx, c.full(c.BASE_REG, d))),
        FnSpace('scales', c.SCALES, lambda: c.scale_cases('reg'),
                lambda ctx, x: c.run_scale(ctx, 'reg', x)),
    ]
