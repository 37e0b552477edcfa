"""C26: the same answers however the interpreter is run.

Every block of calls (the catalogue of C21, ceremonies of C01/C02, complete
small spaces of the other checks) is run in a fresh interpreter started in
every one of a list of ways, and each outcome is compared with that of a plain
interpreter.  Blocks x ways is enumerated completely.
"""
import functools
import itertools
import json
import os
import pickle
import pkgutil
import shutil
import subprocess
import sys
import tempfile

import webauthn_rp

from mc.core import FnSpace, HarnessError, REPO, THOROUGH, VERIF, Violation

SECONDS = 240

#: name -> (flags, environment, settings, how the package is provided)
WAYS = {
    'plain': ([], {}, [], None),
    'O': (['-O'], {}, [], None),
    'OO': (['-OO'], {}, [], None),
    'bytes-warnings': (['-b'], {}, ['bytes-warnings'], None),
    'dev': (['-X', 'dev', '-W', 'ignore'], {}, [], None),
    'warnings-are-errors': ([], {}, ['warnings'], None),
    'C-locale': ([], {'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0',
                      'PYTHONCOERCECLOCALE': '0'}, [], None),
    'UTF-8-mode': (['-X', 'utf8'], {}, [], None),
    'bare-environment': ([], {'<clear>': ''}, [], None),
    'time-zone': ([], {'TZ': 'XXX+23:59:59'}, [], None),
    'time-zone-east': ([], {'TZ': 'XXX-14'}, [], None),
    'isolated': (['-I'], {}, [], None),
    'no-digit-limit': (['-X', 'int_max_str_digits=0'], {}, [], None),
    'gc-off': ([], {}, ['gc-off'], None),
    'gc-often': ([], {}, ['gc-often'], None),
    'no-streams': ([], {}, ['no-streams', 'no-argv'], None),
    'thread': ([], {}, ['thread'], None),
    'coroutine': ([], {}, ['coroutine'], None),
    'traced': ([], {}, ['traced'], None),
    'decimal-context': ([], {}, ['decimal'], None),
    'logging-everything': ([], {}, ['logging'], None),
    'zipped': ([], {}, [], 'zip'),
    'compiled': ([], {}, [], 'pyc'),
    'compiled-O': (['-O'], {}, [], 'pyc'),
    'thread-O': (['-O'], {}, ['thread', 'no-streams'], None),
    'directory-gone': ([], {}, [], 'nowhere'),
}
SEEDS = range(1, 33 if THOROUGH else 7)
for _s in SEEDS:
    WAYS['hash-seed-%d' % _s] = ([], {'PYTHONHASHSEED': str(_s)}, [], None)


def _zip(d):
    import zipfile
    p = os.path.join(d, 'package.zip')
    with zipfile.ZipFile(p, 'w') as z:
        for root, _, names in os.walk(os.path.join(REPO, 'webauthn_rp')):
            for n in names:
                if not n.endswith('.pyc'):
                    f = os.path.join(root, n)
                    z.write(f, os.path.relpath(f, REPO))
    return p


def _pyc(d, optimize):
    """Only compiled files, no sources (a sourceless distribution)."""
    import py_compile
    top = os.path.join(d, 'package')
    for root, _, names in os.walk(os.path.join(REPO, 'webauthn_rp')):
        for n in names:
            f = os.path.join(root, n)
            to = os.path.join(top, os.path.relpath(f, REPO))
            if n.endswith('.py'):
                os.makedirs(os.path.dirname(to), exist_ok=True)
                py_compile.compile(f, to + 'c', doraise=True,
                                   optimize=optimize)
            elif not n.endswith('.pyc'):
                os.makedirs(os.path.dirname(to), exist_ok=True)
                shutil.copyfile(f, to)
    return top


def start(way, block):
    """Runs the block in an interpreter started that way."""
    flags, env_more, settings, provided = WAYS[way]
    d = tempfile.mkdtemp(prefix='c26-')
    try:
        env = {k: v for k, v in os.environ.items()
               if not k.startswith(('PYTHON', 'LC_', 'LANG', 'TZ'))}
        if '<clear>' in env_more:
            env = {k: v for k, v in env.items()
                   if k.startswith('VERIF_') or k == 'PATH'}
        env.update(LC_ALL='C.UTF-8', PYTHONHASHSEED='0', TZ='UTC')
        if '<clear>' in env_more:
            del env['LC_ALL'], env['TZ']
        env.update((k, v) for k, v in env_more.items() if k != '<clear>')
        where = REPO
        if provided == 'zip':
            where = _zip(d)
        elif provided == 'pyc':
            where = _pyc(d, 1 if '-O' in flags else 0)
        cwd = d
        boot = ('import sys; sys.dont_write_bytecode = True; '
                'sys.path[:0] = [{!r}, {!r}]; '.format(where, VERIF))
        if provided == 'nowhere':
            boot += 'import os; os.mkdir("x"); os.chdir("x"); ' \
                    'os.rmdir("../x"); '
        boot += 'from mc import envrun; envrun.main()'
        out = os.path.join(d, 'out')
        spec = json.dumps({'set': settings, 'block': block})
        # an empty cache: the sources of the working tree are what runs
        cache = ['-X', 'pycache_prefix=' + os.path.join(d, 'cache')]
        quiet = [] if '-W' in flags else ['-W', 'ignore']
        try:
            p = subprocess.run(
                [sys.executable] + quiet + flags + cache +
                ['-c', boot, spec, out], env=env, cwd=cwd,
                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, timeout=SECONDS)
        except subprocess.TimeoutExpired:
            return None, 'it did not end within {} s'.format(SECONDS)
        if p.returncode != 0 or not os.path.exists(out):
            return None, 'it ended with {}: {}'.format(
                p.returncode, p.stdout.decode('utf-8', 'replace')[-1500:])
        with open(out, 'rb') as f:
            file, optimize, r = pickle.load(f)
        if not os.path.realpath(file).startswith(
                os.path.realpath(where) + os.sep):
            raise HarnessError('the package came from ' + file)
        if optimize != (2 if '-OO' in flags else '-O' in flags):
            raise HarnessError('-O was not in force')
        return dict(r), None
    finally:
        shutil.rmtree(d, ignore_errors=True)


@functools.lru_cache(None)
def plain(block):
    r, why = start('plain', json.loads(block))
    if r is None:
        raise HarnessError('plain interpreter, {}: {}'.format(block, why))
    return r


#: These two say that a precondition was not met: the caller's fault, which
#: another interpreter need not notice in the same way.
LOOSE = ('AssertionError', )


def same(a, b):
    if a == b:
        return True
    if a[0] in ('raised', 'harness') and any(n in str(a[1]) for n in LOOSE):
        return True
    if a[0] in ('violated', 'unexpected'):
        # broken in a plain interpreter too: for the other checks to say
        return True
    ra, rb = str(a[1]), str(b[1])
    # refused because a precondition of an inner step was not met
    return (a[0] == b[0] == 'as specified' and ra == 'refused:InternalError'
            and rb.startswith('refused:'))


def run(ctx, case):
    way, block = case
    want = plain(json.dumps(block))
    got, why = start(way, block)
    if got is None:
        raise Violation('run as {!r}, {}: {}'.format(way, block, why))
    if got.keys() != want.keys():
        raise HarnessError('other items in {} as {}'.format(block, way))
    for k in want:
        ctx.step()
        ctx.state((block, way, k))
        if not same(want[k], got[k]):
            raise Violation(
                '{} of {}: {!r} when run as {!r}, otherwise {!r}'.format(
                    k, block, got[k], way, want[k]))
    ctx.outcome(way)


def blocks():
    """(block, ways it is run in)"""
    every = [n for n in WAYS if n != 'plain']
    some = ['O', 'warnings-are-errors', 'C-locale', 'no-streams', 'thread',
            'zipped', 'hash-seed-1', 'hash-seed-2']
    for i in range(4):
        yield ['ops', i, 4], every
    for kind in 'reg', 'auth':
        yield ['texts', kind, 0, 1], every
        yield [kind, None, 1, 0, 1], every if THOROUGH else some
        for i in range(4):
            yield [kind, None, 3 if THOROUGH else 2, i, 4], ['O']
    for check, space, n in (
        ('C05', 'single', 4), ('C08', 'collections', 1), ('C08', 'matching', 1),
        ('C11', 'well-formed', 1), ('C11', 'formats', 1),
        ('C14', 'alone', 1), ('C14', 'nested', 1), ('C16', 'builds', 1),
        ('C17', 'certificates', 1), ('C17', 'crossed', 1), ('C17', 'keys', 1),
        ('C17', 'signature', 2), ('C18', 'keys', 2), ('C18', 'chains', 1),
        ('C18', 'purpose-origin', 1), ('C18', 'schema', 1),
        ('C18', 'header', 1), ('C18', 'product', 1), ('C19', 'keys', 1),
        ('C19', 'curves', 1), ('C19', 'optional', 1), ('C23', 'lengths', 2),
        ('C25', 'users', 2),
    ):
        for i in range(n):
            yield ['space', check, space, i, n], (
                some if THOROUGH else ['O'])


def cases():
    # the ways of one block are dealt out to different workers
    for block, ways in blocks():
        for way in ways:
            yield (tuple(map(str, block)), way), [way, block]


# --------------------------------------------------------------------------
# Import orders


def modules():
    return [''] + sorted(m.name for m in pkgutil.iter_modules(
        webauthn_rp.__path__) if not m.ispkg)


def order_cases():
    names = modules()
    for way in ('plain', 'O'):
        for n in (1, 2) if way == 'plain' or THOROUGH else (1, ):
            for o in itertools.permutations(names, n):
                yield (way, ) + o, [way, ['imports', list(o)]]
    if THOROUGH:
        for o in itertools.permutations(names, 3):
            yield ('plain', ) + o, ['plain', ['imports', list(o)]]


def run_order(ctx, case):
    way, block = case
    want = plain(json.dumps(['imports', ['']]))
    got, why = start(way, block)
    ctx.step()
    if got is None:
        raise Violation('after importing {}: {}'.format(block[1], why))
    for k in want:
        if not same(want[k], got.get(k)):
            raise Violation('{} after importing {}: {!r}, otherwise {!r}'.
                            format(k, block[1], got.get(k), want[k]))
    if got.keys() - want.keys():
        raise Violation('after importing {}: {}'.format(
            block[1], sorted(map(str, got.keys() - want.keys()))))
    ctx.state((way, tuple(block[1])))
    ctx.outcome('same')


BOUNDS = ('{} ways to run the interpreter (optimisation, {} hash seeds, byte '
          'warnings, development mode, warnings as errors, locale, '
          'environment, time zone, garbage collection, streams, threads, '
          'tracing, decimal context, packaging) x the catalogue of C21; '
          'ceremonies and complete small spaces of other checks with and '
          'without -O; every order of importing up to {} modules'.format(
              len(WAYS), len(SEEDS), 3 if THOROUGH else 2))
ASSUMPTIONS = [
    'a plain interpreter is judged by the other properties',
    'what a function does when an assertion of it fails in a plain '
    'interpreter is open',
]


def spaces():
    return [
        FnSpace('ways', BOUNDS, cases, run, case_seconds=2.2 * SECONDS),
        FnSpace('imports', 'every ordered selection of at most {} modules'.
                format(3 if THOROUGH else 2), order_cases, run_order,
                case_seconds=2.2 * SECONDS),
    ]
