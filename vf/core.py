"""Case runner, monitors, verdicts, shrinking, evidence."""
import ast
import collections
import hashlib
import json
import os
import pickle
import pprint
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VF_NPROC', '8'))


class Violation(Exception):
    """The oracle refuted the property.  `key` names the mechanism when the
    oracle can tell (used for the known-findings file)."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key


class Skip(Exception):
    """The case cannot be judged (e.g. state an old release cannot have)."""


class CaseTimeout(BaseException):
    pass


class Monitor:
    """Collects what was observed; one per case."""

    def __init__(self):
        self.features = collections.Counter()
        self.observations = 0
        self.nontrivial = False
        self.states = collections.defaultdict(set)

    def state(self, name, value):
        """One of the states, schedules, ... met; evidence counts the
        distinct ones."""
        self.states[name].add(hash(value) if isinstance(value, int) else
                              hashlib.sha1(repr(value).encode(
                                  'utf-8', 'surrogatepass')).digest()[:8])

    def count(self, name, n=1):
        self.features[name] += n

    def seen(self, n=1):
        self.observations += n

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        self.observations += 1
        if not cond:
            raise Violation(msg if isinstance(msg, str) else msg(), key)

    def eq(self, actual, expected, what, key=None):
        self.observations += 1
        if not same(actual, expected):
            raise Violation(f'{what}: observed {short(actual)}, '
                            f'expected {short(expected)}', key)

    def raises(self, exc, fn, what):
        """fn must raise exactly one of the exceptions of exc."""
        self.observations += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Violation(f'{what}: raised {e!r}, expected {exc}')
        raise Violation(f'{what}: returned {short(r)}, expected {exc}')


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + f'...({len(s)} chars)'


def near(a, b, rel=2e-5, abs_=1e-6):
    if a == b:
        return True
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def same(a, b):
    """Equality with single-precision tolerance for floats."""
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return near(a, b)
        return False
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return (type(a) is type(b) and len(a) == len(b)
                and all(same(x, y) for x, y in zip(a, b)))
    return a == b


def digest(case):
    return hashlib.sha1(repr(case).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


def case_rng(prop, seed, i):
    return random.Random(f'{prop}/{seed}/{i}')


# ---------------------------------------------------------------- coverage

class Coverage:
    """Which source lines of the package ran (cheap: each line reports once)."""

    def __init__(self, pkg):
        self.pkg = pkg
        self.lines = set()

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(m.COVERAGE_ID, 'vf')
        except ValueError:
            return
        pkg, lines, disable = self.pkg, self.lines, m.DISABLE

        def line(code, no):
            fn = code.co_filename
            if fn.startswith(pkg):
                lines.add((fn[len(pkg) + 1:], no))
            return disable
        m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
        m.set_events(m.COVERAGE_ID, m.events.LINE)


STEP_LIMIT = 30_000_000


def run_stepped(fn, pkg, limit=STEP_LIMIT):
    """Run fn; raise CaseTimeout after `limit` Python lines of the code under
    test (a logical, not a wall-clock, bound), and Skip when everything else
    took very long."""
    m = sys.monitoring
    tid = m.DEBUGGER_ID
    m.use_tool_id(tid, 'vf-steps')
    n, end, other = 0, limit, 0

    def line(code, no):
        nonlocal n, end, other
        if not code.co_filename.startswith(pkg):
            other += 1
            if other > 10 * limit:
                other = 9 * limit
                raise Skip('too long')
            return
        n += 1
        if n > end:
            end = n + limit // 10  # once more if something swallowed this one
            raise CaseTimeout(f'no termination within {limit} lines')
    m.register_callback(tid, m.events.LINE, line)
    m.set_events(tid, m.events.LINE)
    try:
        r = fn()
    finally:
        m.set_events(tid, 0)
        m.register_callback(tid, m.events.LINE, None)
        m.free_tool_id(tid)
    if n > limit:
        raise CaseTimeout(f'no termination within {limit} lines')
    return r


# ------------------------------------------------------------- case judging

def from_repo(tb, pkg):
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(pkg):
            return True
    return False


def judge(prop, case, mon, pkg):
    """-> None (held), ('violation', msg, key), ('skip', msg) or
    ('error', msg)."""
    try:
        prop.execute(case, mon)
    except Violation as v:
        return ('violation', v.msg, v.key)
    except Skip as s:
        return ('skip', str(s), None)
    except CaseTimeout as t:
        return ('timeout', str(t), None)
    except MemoryError:
        return ('error', 'MemoryError', None)
    except Exception as e:
        text = ''.join(traceback.format_exception(e)[-8:])
        if from_repo(e.__traceback__, pkg) or getattr(e, 'vf_observed', False):
            return ('violation', 'unexpected exception from the code under '
                    'test: ' + text, None)
        if isinstance(e, (TypeError, AttributeError, LookupError, ValueError,
                          ArithmeticError)):
            # Generated cases never do this on results of the promised types.
            return ('violation', 'a result could not be interpreted: ' + text,
                    None)
        return ('error', text, None)
    return None


def judge_timed(prop, case, mon, pkg, seconds):
    fired = []

    def alarm(signum, frame):
        fired.append(1)
        raise CaseTimeout('case watchdog')

    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds, 5)
    try:
        try:
            r = judge(prop, case, mon, pkg)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseTimeout:
        r = None
    if fired:  # (even when something has swallowed it)
        r = ('timeout', 'case watchdog', None)
    return r


def generate(prop, seed, i, tier):
    return prop.generate(case_rng(prop.ID, seed, i), i, tier)


def worker(prop, seed, tier, indices, deadline, out, marker, stop, pkg):
    cov = Coverage(pkg)
    cov.start()
    res = dict(cases=0, observations=0, features=collections.Counter(),
               distinct=set(), skipped=0, problems=[], known=collections.Counter(),
               samples=[], truncated=False,
               states=collections.defaultdict(set))
    known = known_keys(prop.ID)
    for i in indices:
        if time.time() > deadline or stop.is_set():
            res['truncated'] = True
            break
        with open(marker, 'w') as f:
            f.write(str(i))
        case = generate(prop, seed, i, tier)
        mon = Monitor()
        r = judge_timed(prop, case, mon, pkg, prop.CASE_SECONDS)
        if r is not None and r[0] == 'timeout':
            # decide on logical steps, not on the clock
            mon = Monitor()
            try:
                r = run_stepped(lambda: judge(prop, case, mon, pkg), pkg)
            except CaseTimeout as t:
                r = ('timeout', str(t), None)
            if r is not None and r[0] == 'timeout':
                r = ('violation', 'the code under test does not terminate: '
                     + r[1], None)
        res['cases'] += 1
        res['observations'] += mon.observations
        res['features'].update(mon.features)
        for k, v in mon.states.items():
            res['states'][k] |= v
        if mon.nontrivial:
            res['distinct'].add(digest(case))
            if len(res['samples']) < 2:
                res['samples'].append(short(case, 700))
        if r is None:
            continue
        if r[0] == 'skip':
            res['skipped'] += 1
        elif r[0] == 'violation' and r[2] in known:
            res['known'][r[2]] += 1
        else:
            res['problems'].append((i, r))
            if r[0] == 'violation':
                stop.set()
            if len(res['problems']) > 5:
                break
    res['lines'] = cov.lines
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(out + '.tmp', out)


def run_cases(prop, seed, tier, ncases, budget, scratch, pkg):
    import multiprocessing
    ctx = multiprocessing.get_context('fork')
    stop = ctx.Event()
    deadline = time.time() + budget
    procs = []
    n = min(NPROC, ncases)
    for w in range(n):
        out = os.path.join(scratch, f'w{w}.res')
        marker = os.path.join(scratch, f'w{w}.cur')
        p = ctx.Process(target=worker, args=(
            prop, seed, tier, range(w, ncases, n), deadline, out, marker, stop,
            pkg))
        p.start()
        procs.append((p, out, marker))
    total = dict(cases=0, observations=0, features=collections.Counter(),
                 distinct=set(), skipped=0, problems=[],
                 known=collections.Counter(), samples=[], truncated=False,
                 lines=set(), states=collections.defaultdict(set))
    for p, out, marker in procs:
        p.join(max(1.0, deadline + 240 - time.time()))
        if p.is_alive():
            p.kill()
            p.join()
        if os.path.exists(out):
            with open(out, 'rb') as f:
                r = pickle.load(f)
            for k in ('cases', 'observations', 'skipped'):
                total[k] += r[k]
            for k in ('features', 'known'):
                total[k].update(r[k])
            for k in ('distinct', 'lines'):
                total[k] |= r[k]
            for k, v in r['states'].items():
                total['states'][k] |= v
            total['problems'] += r['problems']
            total['samples'] += r['samples']
            total['truncated'] |= r['truncated']
        else:
            i = None
            if os.path.exists(marker):
                i = int(open(marker).read() or -1)
            code = p.exitcode
            if code == 77 and os.environ.get('VF_SAN_LOG'):
                total['problems'].append((i, (
                    'violation', 'a sanitizer stopped the process:\n'
                    + sanitizer_log(), 'crash')))
            elif code is not None and -code in (signal.SIGSEGV, signal.SIGABRT,
                                              signal.SIGBUS, signal.SIGFPE,
                                              signal.SIGILL):
                total['problems'].append((i, (
                    'violation', f'the process died with signal {-code}',
                    'crash')))
            else:
                total['problems'].append((i, (
                    'error', f'worker ended with {code}', None)))
    total['problems'].sort(key=lambda x: (x[1][0] != 'violation',
                                          x[0] if x[0] is not None else -1))
    return total


def sanitizer_log():
    import glob
    for f in sorted(glob.glob(os.environ['VF_SAN_LOG'] + '/san*')):
        return open(f, errors='replace').read()[:4000]
    return '(no report)'


# ------------------------------------------------------------------ shrinking

def shrink(prop, case, pkg, seconds=40):
    """Greedy ddmin on the list-valued entries prop.SHRINK of the case."""
    end = time.time() + seconds
    known = known_keys(prop.ID)

    def bad(c):
        try:
            r = judge_timed(prop, c, Monitor(), pkg, prop.CASE_SECONDS)
        except Exception:
            return None
        if r is not None and r[0] == 'violation' and r[2] not in known:
            return r
        return None
    best, verdict = case, None
    progress = True
    while progress and time.time() < end:
        progress = False
        for key in prop.SHRINK:
            ops = best.get(key)
            if not isinstance(ops, list):
                continue
            size = max(1, len(ops) // 2)
            while size >= 1 and time.time() < end:
                j = 0
                while j < len(best[key]) and time.time() < end:
                    cand = dict(best)
                    cand[key] = best[key][:j] + best[key][j + size:]
                    v = bad(cand)
                    if v:
                        best, verdict, progress = cand, v, True
                    else:
                        j += size
                size //= 2
    return best, verdict


# -------------------------------------------------------------- known findings

def findings():
    """-> list of (kind, property, key, text)."""
    res = []
    try:
        lines = open(os.path.join(VERIF, 'known_findings.txt')).read().splitlines()
    except OSError:
        return res
    for line in lines:
        line = line.strip()
        if line.startswith('known:'):
            parts = line[6:].split(None, 2)
            res.append(('known', parts[0].split('=')[1], parts[1].split('=')[1],
                        parts[2]))
    return res


def known_keys(pid):
    return {k for kind, p, k, t in findings() if p == pid}


# ------------------------------------------------------------------- evidence

def write_evidence(pid, data):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(data, f, indent=1, default=str)
    os.replace(path + '.tmp', path)


def save_replay(pid, seed, tier, index, case, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{digest(case)}.txt')
    with open(path, 'w', errors='backslashreplace') as f:
        f.write(f'# property {pid}, VERIF_SEED={seed}, tier={tier}, case '
                f'{index}\n# rerun: bin/check {pid} --replay {path}\n')
        for line in msg.splitlines():
            f.write('# ' + line + '\n')
        f.write(pprint.pformat(case, width=110, sort_dicts=False) + '\n')
    return path


def load_replay(path):
    with open(path) as f:
        text = f.read()
    from vf.kinds import NAMES
    return eval(''.join(  # our own file
        line for line in text.splitlines(True) if not line.startswith('# ')),
        {'__builtins__': {}}, NAMES)


class Prop:
    """Base of a property check."""
    ID = None
    RULE = ''
    LEVEL = 'exploration'
    QUICK = 2000          # cases
    THOROUGH = 40000
    QUICK_S = 100         # budget, normally not reached
    THOROUGH_S = 600
    CASE_SECONDS = 20
    SHRINK = ('ops',)
    REQUIRE = {}          # feature -> minimum over the run, else inconclusive
    FILES = ()            # anchored files, for the line coverage evidence
    NATIVE = True
    SANITIZE = None       # compiler flags: run under sanitizers
    ASSUMPTIONS = ()

    def generate(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, case, mon):
        raise NotImplementedError

    def probe_known(self, key):
        """Does the listed finding still occur?"""
        return False

    def extra(self, seed, tier, scratch):
        """Additional non-case work.  -> dict(problems=[msg..], coverage={})"""
        return None
