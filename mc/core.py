"""The exploration engine.

A check is a list of `Space`s.  A space enumerates *all* behaviours of a closed
system within stated bounds: every behaviour is a JSON-able choice vector
("case").  Running a case drives the real code of webauthn_rp along that vector
and compares every step with a reference model; it raises `Violation` when they
disagree.

Nothing here samples: a space's cases are enumerated completely, split over
worker processes by index, and a run only says `exhaustive` when every worker
reached the end of its share.
"""
import collections
import hashlib
import json
import mmap
import os
import pickle
import resource
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
THOROUGH = TIER == 'thorough'
WORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or max(
    1, min(8, os.cpu_count() or 1))

CASE_SECONDS = 20.0  # one case normally takes well under a millisecond
STALL_SECONDS = 90.0  # no progress at all, not even the alarm: stuck in C code


class Violation(Exception):
    """The implementation disagrees with the reference model."""


class HarnessError(BaseException):
    """The harness itself is broken; never to be mistaken for a violation."""


class CaseTimeout(BaseException):
    pass


class Ctx:
    """Collects what one worker covered."""
    def __init__(self):
        self.impl_calls = 0
        self.outcomes = collections.Counter()
        self.last = None
        self.new_states = []

    def state(self, x):
        """A state of the explored system reached by this case."""
        self.new_states.append(x)

    def step(self, n=1):
        """One transition: one call into the implementation."""
        self.impl_calls += n

    def outcome(self, name):
        self.outcomes[name] += 1
        self.last = name


class Space:
    """A bounded, completely enumerated set of behaviours.

    `cases()` yields (key, case): key is the tuple of choices, case is JSON-able
    and enough to replay.  The states counted are the ones the case reports
    with ctx.state(); without any they are the nodes of the choice tree (the
    prefixes of key) and the end states (key, observed outcome).
    `run(ctx, case)` drives the implementation and raises Violation.
    """
    name = 'space'
    bound = ''
    workers = None
    case_seconds = CASE_SECONDS
    stall_seconds = STALL_SECONDS

    def cases(self):
        raise NotImplementedError

    def run(self, ctx, case):
        raise NotImplementedError


class FnSpace(Space):
    def __init__(self, name, bound, cases, run, workers=None,
                 case_seconds=None):
        if case_seconds:
            self.case_seconds = case_seconds
            self.stall_seconds = case_seconds + STALL_SECONDS
        self.name = name
        self.bound = bound
        self._cases = cases
        self._run = run
        self.workers = workers

    def cases(self):
        return self._cases()

    def run(self, ctx, case):
        return self._run(ctx, case)


# --------------------------------------------------------------------------
# JSON-able cases: bytes are written as {"hex": ...}


def to_json(x):
    if isinstance(x, bytes):
        return {'hex': x.hex()}
    if isinstance(x, dict):
        return {'map': [[to_json(k), to_json(v)] for k, v in x.items()]}
    if isinstance(x, tuple):
        return {'tup': [to_json(v) for v in x]}
    if isinstance(x, list):
        return [to_json(v) for v in x]
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return {'float': repr(x)}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    raise HarnessError('case not serialisable: {!r}'.format(x))


def from_json(x):
    if isinstance(x, dict):
        if 'hex' in x:
            return bytes.fromhex(x['hex'])
        if 'map' in x:
            return {from_json(k): from_json(v) for k, v in x['map']}
        if 'tup' in x:
            return tuple(from_json(v) for v in x['tup'])
        if 'float' in x:
            return float(x['float'])
        raise HarnessError('bad case json')
    if isinstance(x, list):
        return [from_json(v) for v in x]
    return x


def _h(parts):
    return hashlib.blake2b(repr(parts).encode('utf-8', 'backslashreplace'),
                           digest_size=8).digest()


# --------------------------------------------------------------------------


class Result:
    def __init__(self):
        self.states = set()
        self.cases = 0
        self.impl_calls = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []  # (idx, case, message)
        self.complete = True
        self.harness_error = None


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_case(space, ctx, case):
    """Returns None or a violation message."""
    signal.setitimer(signal.ITIMER_REAL, space.case_seconds)
    try:
        space.run(ctx, case)
        return None
    except Violation as v:
        return str(v)
    except CaseTimeout:
        return 'the call did not terminate within {}s'.format(space.case_seconds)
    except Exception:
        # The real code answered with something the reference model has no
        # place for (a foreign exception, a result of another shape).
        return 'unexpected: ' + traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(space, w, n, progress, max_violations):
    res = Result()
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    try:
        idx = -1
        for idx, (key, case) in enumerate(space.cases()):
            if idx % n != w:
                continue
            struct.pack_into('<q', progress, w * 8, idx)
            key = tuple(key)
            ctx.last = None
            ctx.new_states.clear()
            msg = _run_case(space, ctx, case)
            if ctx.new_states:
                for x in ctx.new_states:
                    res.states.add(_h((space.name, x)))
            else:
                for i in range(len(key) + 1):
                    res.states.add(_h((space.name, key[:i])))
                res.states.add(_h((space.name, key, 'end', ctx.last)))
            res.cases += 1
            if len(res.samples) < 2 or (res.cases & (res.cases - 1)) == 0:
                if len(res.samples) < 12:
                    res.samples.append((idx, to_json(case)))
            if msg is not None:
                res.violations.append((idx, to_json(case), msg))
                if len(res.violations) >= max_violations:
                    res.complete = False
                    break
    except HarnessError:
        res.harness_error = traceback.format_exc()
        res.complete = False
    except Exception:
        # The library no longer provides what every case is built from (this
        # enumeration is deterministic and completes on a sound library).
        res.violations.append((idx + 1, None, 'unexpected while building the '
                               'cases: ' + traceback.format_exc()))
        res.complete = False
    res.impl_calls = ctx.impl_calls
    res.outcomes = ctx.outcomes
    return res


def explore(space, max_violations=1):
    """Run every case of the space; returns a merged Result."""
    n = space.workers or WORKERS
    progress = mmap.mmap(-1, 8 * n)
    for w in range(n):
        struct.pack_into('<q', progress, w * 8, -1)
    sys.stdout.flush()
    sys.stderr.flush()
    procs = {}
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                res = _worker(space, w, n, progress, max_violations)
                res.states = b''.join(sorted(res.states))
                data = pickle.dumps(res)
                with os.fdopen(wr, 'wb') as f:
                    f.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        procs[w] = (pid, r)

    import select
    out = Result()
    bufs = {w: bytearray() for w in procs}
    last = {w: (-2, time.monotonic()) for w in procs}
    open_w = dict(procs)
    stuck = {}
    while open_w:
        fds = {r: w for w, (pid, r) in open_w.items()}
        ready, _, _ = select.select(list(fds), [], [], 1.0)
        for r in ready:
            w = fds[r]
            chunk = os.read(r, 1 << 20)
            if chunk:
                bufs[w] += chunk
            else:
                os.close(r)
                os.waitpid(open_w[w][0], 0)
                del open_w[w]
        now = time.monotonic()
        for w, (pid, r) in open_w.items():
            idx, = struct.unpack_from('<q', progress, w * 8)
            if bufs[w]:
                continue
            if idx != last[w][0]:
                last[w] = (idx, now)
            elif idx >= 0 and now - last[w][1] > space.stall_seconds:
                stuck[w] = idx
                os.kill(pid, signal.SIGKILL)
    for w in procs:
        if not bufs[w]:
            idx, = struct.unpack_from('<q', progress, w * 8)
            out.complete = False
            why = ('the call did not terminate' if w in stuck else
                   'the process died during the call')
            if idx < 0:
                out.harness_error = 'worker died before its first case'
                continue
            case = None
            for i, (key, c) in enumerate(space.cases()):
                if i == idx:
                    case = c
                    break
            out.violations.append((idx, to_json(case), why))
            continue
        res = pickle.loads(bytes(bufs[w]))
        out.states.update(res.states[i:i + 8]
                          for i in range(0, len(res.states), 8))
        out.cases += res.cases
        out.impl_calls += res.impl_calls
        out.outcomes += res.outcomes
        out.samples += res.samples
        out.violations += res.violations
        out.complete = out.complete and res.complete
        out.harness_error = out.harness_error or res.harness_error
    out.violations.sort(key=lambda v: v[0])
    out.samples.sort(key=lambda s: s[0])
    progress.close()
    return out


# --------------------------------------------------------------------------
# Known findings


def known_findings(pid):
    """Entries `known: property=<id> key=<substring> <what fails>` (see
    KNOWN_FINDINGS.md); `fixed:` lines suppress nothing."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property={} '.format(pid)):
                rest = line.split(' ', 2)[2]
                if rest.startswith('key='):
                    key, _, what = rest[4:].partition(' ')
                    out.append((key, what))
    return out


# --------------------------------------------------------------------------


def unusable(pid, replay):
    """The library cannot even be imported, or its data types not be built,
    the way every check does on a sound one."""
    message = traceback.format_exc()
    space = FnSpace('import', '', None, None)
    path = replay or write_replay(pid, space, None, message)
    print(message)
    print('VIOLATION property={} replay={}'.format(pid, path))
    return 1


def write_replay(pid, space, case, message):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {
        'property': pid,
        'space': space.name,
        'case': case,
        'message': message,
        'replay': './check {} --replay <this file>'.format(pid),
    }
    tag = hashlib.sha256(
        json.dumps([space.name, case], sort_keys=True).encode()).hexdigest()
    path = os.path.join(d, '{}-{}.json'.format(pid, tag[:12]))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, sort_keys=True)
        f.write('\n')
    return path


def run_check(pid, spaces, bounds, assumptions, replay=None):
    start = time.monotonic()
    if replay:
        body = json.load(open(replay))
        for space in spaces:
            if space.name == body['space']:
                signal.signal(signal.SIGALRM, _alarm)
                ctx = Ctx()
                if body['case'] is None:
                    for _ in space.cases():
                        pass
                    msg = None
                else:
                    msg = _run_case(space, ctx, from_json(body['case']))
                if msg is None:
                    print('replay: property={} holds on this case'.format(pid))
                    return 0
                print(msg)
                print('VIOLATION property={} replay={}'.format(pid, replay))
                return 1
        print('replay: no space named {!r}'.format(body['space']))
        return 2

    known = known_findings(pid)
    states = 0
    transitions = 0
    traces = 0
    samples = []
    per_space = []
    exhaustive = True
    bad = []
    seen_known = set()
    for space in spaces:
        t0 = time.monotonic()
        res = explore(space, max_violations=1 if not known else 50)
        if res.harness_error:
            print(res.harness_error, file=sys.stderr)
            print('HARNESS-ERROR property={} space={}'.format(
                pid, space.name))
            return 3
        states += len(res.states)
        transitions += res.impl_calls
        traces += res.cases
        exhaustive = exhaustive and res.complete
        for idx, case in res.samples[:1] + res.samples[-1:]:
            samples.append({'space': space.name, 'index': idx, 'case': case})
        per_space.append({
            'space': space.name,
            'bound': space.bound,
            'states': len(res.states),
            'behaviours': res.cases,
            'implementation_steps': res.impl_calls,
            'distinct_outcomes': len(res.outcomes),
            'outcomes': dict(res.outcomes.most_common(25)),
            'complete': res.complete,
            'wall_s': round(time.monotonic() - t0, 2),
        })
        print('{}: {} behaviours, {} states, {} implementation steps, '
              '{} distinct outcomes, {:.1f}s{}'.format(
                  space.name, res.cases, len(res.states), res.impl_calls,
                  len(res.outcomes),
                  time.monotonic() - t0,
                  '' if res.complete else ' (stopped)'))
        if res.cases == 0 and not res.violations:
            print('HARNESS-ERROR property={} empty space {}'.format(
                pid, space.name))
            return 3
        for idx, case, msg in res.violations:
            for key, what in known:
                if key in json.dumps(case, sort_keys=True) + ' ' + msg:
                    seen_known.add((key, what))
                    break
            else:
                bad.append((space, case, msg))
        if bad:
            exhaustive = False
            break
    for key, what in sorted(seen_known):
        print('KNOWN-FINDING: property={} {}'.format(pid, what))

    evidence = {
        'property': pid,
        'tier': TIER,
        'seed': SEED,
        'level': 'model_checking',
        'coverage': {
            'states': states,
            'transitions': transitions,
            'traces_validated_against_impl': traces,
            'exhaustive': exhaustive,
            'bounds': bounds,
            'spaces': per_space,
            'samples': samples,
        },
        'assumptions': assumptions,
        'violations': len(bad),
        'wall_s': round(time.monotonic() - start, 2),
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.{}.{}.tmp'.format(pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(d, pid + '.json'))

    if bad:
        space, case, msg = bad[0]
        path = write_replay(pid, space, case, msg)
        print(msg)
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    return 0
