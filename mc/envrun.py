"""The child of C26: runs a block of items in an interpreter that was started
in some way, and writes what came out.

  python FLAGS -c 'import sys; sys.path[:0] = [...]; ...' SPEC OUT

SPEC is JSON: {"set": [names of settings made at run time], "block": [...]}.
"""
import gc
import importlib
import json
import pickle
import sys


class Lost(Exception):
    pass


TEXTS = ('b\u00fccher.example', '\u00df', '\u0130', '\u0131', 'I', '\u212a',
         'k', '\u20ac', '\u65e5\u672c', '\U0001f511', 'e\u0301', '\xa0',
         '\u2028', '\x85', '\u0660')


def text_cases(kind, looks):
    """Relying parties with ids outside ASCII; the hash is of one of them."""
    for a in TEXTS:
        for b in TEXTS:
            for look in range(len(looks)) if a == b else (0, ):
                d = dict(rp=a, hash_of=b, looks=look)
                if kind == 'auth':
                    d['reg_rp'] = a
                yield (a, b, look), d
                if kind == 'auth':
                    yield (a, b, look, 1), dict(d, rp=None)
                    yield (a, b, look, 2), dict(d, reg_rp=None)


def items(block):
    """(name, thunk) of a block; thunks return something comparable."""
    kind = block[0]
    if kind == 'ops':
        from mc.checks import c21
        for name in list(c21.OPS)[block[1]::block[2]]:
            fn, make = c21.OPS[name]
            yield name, (lambda fn=fn, make=make: c21.outcome(fn, make())[0])
        return
    from mc import core
    if kind == 'space':
        mod = importlib.import_module('mc.checks.' + block[1].lower())
        space, = [s for s in mod.spaces() if s.name == block[2]]
    elif kind == 'texts':
        from mc import ceremony as c
        check = c.check_reg if block[1] == 'reg' else c.check_auth
        base = c.BASE_REG if block[1] == 'reg' else c.BASE_AUTH
        space = core.FnSpace(
            kind, '', lambda: text_cases(block[1], c.LOOKS),
            lambda ctx, d: check(ctx, c.full(base, d)))
    else:
        from mc import ceremony as c
        core_, wide = ((c.REG_CORE, c.REG_WIDE) if kind == 'reg' else
                       (c.AUTH_CORE, c.AUTH_WIDE))
        base = c.BASE_REG if kind == 'reg' else c.BASE_AUTH
        check = c.check_reg if kind == 'reg' else c.check_auth
        k = block[2]
        space = core.FnSpace(
            kind, '', lambda: c._cases(base, core_, wide, k, False, False),
            lambda ctx, d: check(ctx, c.full(base, d)))

    def run(case):
        ctx = core.Ctx()
        try:
            space.run(ctx, case)
        except core.Violation as v:
            return ('violated', str(v))
        except Exception as e:
            return ('unexpected', '{}: {}'.format(type(e).__name__, e))
        return ('as specified', ctx.last)

    i, n = block[-2:]
    for idx, (key, case) in enumerate(space.cases()):
        if idx % n == i:
            yield idx, (lambda case=case: run(case))


def work(block):
    out = []
    for name, thunk in items(block):
        try:
            r = thunk()
        except Exception as e:
            r = ('harness', '{}: {}'.format(type(e).__name__, e))
        out.append((name, r))
    return out


def in_thread(fn):
    import threading
    box = []
    t = threading.Thread(target=lambda: box.append(fn()))
    t.start()
    t.join()
    if not box:
        raise Lost('the thread died')
    return box[0]


def in_coroutine(fn):
    import asyncio

    async def main():
        return fn()

    return asyncio.run(main())


def traced(fn):
    def tracer(frame, event, arg):
        return tracer

    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(None)


def main():
    spec = json.loads(sys.argv[1])
    path = sys.argv[2]
    settings = spec['set']
    block = spec['block']
    if block[0] == 'imports':
        r = imports(block[1])
    else:
        # everything of the harness is loaded before the settings are made
        from mc.checks import c21  # noqa
        if 'gc-off' in settings:
            gc.disable()
        if 'gc-often' in settings:
            gc.set_threshold(7, 1, 1)
        if 'no-streams' in settings:
            sys.stdin = sys.stdout = sys.stderr = None
        if 'no-argv' in settings:
            sys.argv[:] = []
        if 'warnings' in settings:
            import warnings
            warnings.simplefilter('error')
        if 'bytes-warnings' in settings:
            # -bb for the library's own code (the harness compares freely)
            import warnings
            warnings.filterwarnings('error', category=BytesWarning,
                                    module=r'webauthn_rp(\.|$)')
        if 'decimal' in settings:
            import decimal
            decimal.getcontext().prec = 3
        if 'logging' in settings:
            import logging
            logging.basicConfig(level=0, filename='/dev/null')
        how = lambda fn: fn()  # noqa
        for name, wrap in (('thread', in_thread), ('coroutine', in_coroutine),
                           ('traced', traced)):
            if name in settings:
                how = (lambda fn, how=how, wrap=wrap:
                       wrap(lambda: how(fn)))
        r = how(lambda: work(block))
    import webauthn_rp
    with open(path, 'wb') as f:
        pickle.dump((webauthn_rp.__file__, sys.flags.optimize, r), f)


# --------------------------------------------------------------------------
# Import orders


def imports(order):
    for m in order:
        importlib.import_module('webauthn_rp' + (m and '.' + m))
    from mc import ceremony as c
    from mc import core
    out = []
    for kind, base, check in (('reg', c.BASE_REG, c.check_reg),
                              ('auth', c.BASE_AUTH, c.check_auth)):
        for d in ({}, {'origin': 'https://other.org'}, {'flags': 0},
                  {'hash_of': 'example.net'}, {'ext': {'appid': 1}}):
            ctx = core.Ctx()
            try:
                check(ctx, c.full(base, d))
                r = ('as specified', ctx.last)
            except core.Violation as v:
                r = ('violated', str(v))
            except Exception as e:
                r = ('unexpected', '{}: {}'.format(type(e).__name__, e))
            out.append(('{}:{}'.format(kind, sorted(d)), r))
    # one class per name, wherever it is imported from
    seen = {}
    for m in sorted(sys.modules):
        if m == 'webauthn_rp' or m.startswith('webauthn_rp.'):
            for n, v in vars(sys.modules[m]).items():
                if isinstance(v, type) and v.__module__.startswith(
                        'webauthn_rp'):
                    k = (v.__module__, v.__qualname__)
                    if seen.setdefault(k, v) is not v:
                        out.append((repr(k), ('violated', 'two classes')))
    return out


if __name__ == '__main__':
    main()
