"""python -m mc.run <PROPERTY> [--replay FILE]"""
import importlib
import os
import sys


def main():
    args = sys.argv[1:]
    if not args:
        print('usage: check <PROPERTY> [--replay FILE]')
        return 2
    pid = args[0]
    replay = None
    if '--replay' in args:
        replay = args[args.index('--replay') + 1]
    from mc import core
    try:
        import webauthn_rp
    except Exception:
        return core.unusable(pid, replay)
    where = os.path.realpath(webauthn_rp.__file__)
    root = os.path.realpath(core.REPO)
    if not where.startswith(root + os.sep):
        print('HARNESS-ERROR webauthn_rp imported from {}'.format(where))
        return 3
    try:
        mod = importlib.import_module('mc.checks.' + pid.lower())
        spaces = mod.spaces()
    except Exception:
        return core.unusable(pid, replay)
    return core.run_check(pid,
                          spaces,
                          mod.BOUNDS,
                          getattr(mod, 'ASSUMPTIONS', []),
                          replay=replay)


if __name__ == '__main__':
    sys.exit(main())
