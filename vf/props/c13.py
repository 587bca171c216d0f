import gc
import math
import os
import sys

from vf import core
from vf.models import B, K1

BIG = 10 ** 9 + 7       # ids that are not cached objects


class Boom(Exception):
    pass


class Key:
    def __init__(self, n):
        self.n = n
        self.on_hash = None

    def __hash__(self):
        if self.on_hash:
            f, self.on_hash = self.on_hash, None
            f()
        return hash(self.n)

    def __eq__(self, other):
        return self.n == getattr(other, 'n', None)

    def __lt__(self, other):
        return self.n < other.n


class Num:
    """A number computed by arbitrary code."""

    def __init__(self, v, act=None):
        self.v = v
        self.act = act

    def __float__(self):
        if self.act:
            self.act()
        return float(self.v)


class Seq:
    def __init__(self, items, n=None, length=None, act=None):
        self.items, self.length, self.act = items, length, act

    def __len__(self):
        if self.length is None:
            return len(self.items)
        if isinstance(self.length, type):
            raise self.length('length')
        return self.length

    def __getitem__(self, i):
        if self.act:
            self.act(i)
        return self.items[i]


class Map:
    def __init__(self, d, act=None):
        self.d, self.act = d, act

    def __getitem__(self, k):
        if self.act:
            self.act(k)
        return self.d[k]


class Res:
    def __init__(self, act=None):
        self.got, self.act = [], act

    def __setitem__(self, k, v):
        self.got.append((k, v))
        if self.act:
            self.act(k)

    def items(self):
        return list(self.got)

    def clear(self):
        del self.got[:]


FAULTS = {
    # name -> exceptions, one of which must come out
    'len raises': (Boom,), 'len negative': (ValueError,),
    'len not int': (TypeError,), 'no len': (TypeError,),
    'items a dict': (TypeError, KeyError), 'items a set': (TypeError,),
    'items None': (TypeError,), 'items int': (TypeError,),
    'getitem raises': (Boom,), 'sequence shrinks': (IndexError,),
    'length lies': (IndexError,), 'length lies by 2**31': (IndexError,),
    'length lies by 2**32': (IndexError,),
    'item a list': (TypeError,), 'item 3-tuple': (TypeError,),
    'item 1-tuple': (TypeError,), 'item 0-tuple': (TypeError,),
    'item None': (TypeError,), 'item str': (TypeError,),
    'freq str': (TypeError,), 'freq None': (TypeError,),
    'freq raises': (Boom,), 'freq huge': (OverflowError,),
    'freq float() not float': (TypeError,),
    'len missing': (KeyError,), 'd2len raises': (Boom,),
    'd2len None': (TypeError,), 'd2len int': (TypeError,),
    'doclen str': (TypeError,), 'doclen None': (TypeError,),
    'doclen raises': (Boom,), 'doclen huge': (OverflowError,),
    'result None': (TypeError,), 'result tuple': (TypeError,),
    'result str': (TypeError,), 'result raises': (Boom,),
    'key unhashable': (TypeError,),
    'args 0': (TypeError,), 'args 4': (TypeError,), 'args 6': (TypeError,),
    'idf str': (TypeError,), 'idf None': (TypeError,), 'mean str': (TypeError,),
    'idf raises': (Boom,), 'mean raises': (Boom,), 'idf huge': (OverflowError,),
    'keyword argument': (TypeError,),
}
HOSTILE = ['freq clears items', 'doclen clears items', 'getitem clears items',
           'd2len clears items', 'd2len clears itself', 'result clears items',
           'result clears d2len', 'hash clears items', 'doclen clears d2len',
           'freq grows items', 'result grows items', 'freq drops result',
           'items fresh tuples', 'gc everywhere']


class C13(core.Prop):
    ID = 'C13'
    RULE = ('calls of the compiled score() under ASan+UBSan: well-formed ones, '
            'one fault at any step, objects that change the arguments '
            'during the call, and index histories; non-trivial when at least '
            'one item was processed or a fault was hit')
    FILES = ()
    QUICK, THOROUGH = 6000, 200000
    QUICK_S = 150
    SANITIZE = ('-O1', '-fsanitize=address,undefined',
                '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
                '-fno-wrapv', '-UNDEBUG')
    REQUIRE = {'faults raised': 500, 'hostile calls': 200, 'values checked': 1000,
               'references balanced': 2000, 'histories': 50}
    ASSUMPTIONS = ('the interpreter itself is not instrumented; its '
                   'allocations are (PYTHONMALLOC=malloc)',)

    def generate(self, rng, i, tier):
        x = rng.random()
        n = rng.choice([0, 1, 2, 3, 8, 30])
        case = {'n': n, 'at': rng.randrange(n) if n else 0,
                'items': rng.choice(['list', 'tuple', 'seq']),
                'd2len': rng.choice(['dict', 'map', 'tree']),
                'result': rng.choice(['dict', 'res', 'bucket']),
                'keys': rng.choice(['int', 'int', 'key']),
                'num': rng.choice(['int', 'float', 'obj']),
                'idf': rng.choice([0.0, .5, 1.7, 13.5, 2]),
                'mean': rng.choice([.25, 1.0, 7, 120.5]),
                'seed': rng.randrange(1000)}
        if case['keys'] == 'key':
            if case['d2len'] == 'tree':
                case['d2len'] = 'dict'
            if case['result'] == 'bucket':
                case['result'] = 'res'
        if case['d2len'] == 'tree' and case['num'] == 'obj':
            case['num'] = 'float'
        if x < .3:
            case['mode'] = 'ok'
        elif x < .7:
            case['mode'] = 'fault'
            case['fault'] = rng.choice(sorted(FAULTS))
            case['n'] = max(n, 1)
        elif x < .95:
            case['mode'] = 'hostile'
            case['fault'] = rng.choice(HOSTILE)
            case['n'] = max(n, 2)
        else:
            from vf.props.c09 import PROP
            return {'mode': 'history', 'hist': PROP.generate(rng, i, 'quick')}
        return case

    def execute(self, case, mon):
        if case['mode'] == 'history':
            from vf.props.c09 import PROP
            h = dict(case['hist'], cfg=dict(case['hist']['cfg'], variant=None))
            PROP.execute(h, core.Monitor())
            mon.count('histories')
            mon.seen()
            mon.nontrivial = True
            return
        self.call(case, mon)

    def call(self, case, mon):
        import random

        from zope.index.text.okascore import score
        r = random.Random(case['seed'])
        n, at = case['n'], case['at']
        keys = [BIG + 3 * k if case['keys'] == 'int' else Key(k)
                for k in range(n)]

        def num(v):
            return {'int': v, 'float': float(v),
                    'obj': Num(v)}[case['num']]
        freqs = [num(r.choice([1, 2, 5, 300, 70000])) for _ in keys]
        lens = [num(r.choice([1, 3, 40, 100000, 0])) for _ in keys]
        tuples = list(zip(keys, freqs))
        lend = dict(zip(keys, lens))
        fault = case.get('fault')
        args_extra = []
        act_seq = act_map = act_res = None
        length = None
        state = {'k': 0}

        def boom(*_):
            raise Boom('injected')

        if fault == 'getitem raises':
            def act_seq(i):
                if i == at:
                    raise Boom('injected')
        elif fault == 'sequence shrinks':
            def act_seq(i):
                if i == at:
                    del items[at:]
        elif fault == 'len raises':
            length = Boom
        elif fault == 'len negative':
            length = -5
        elif fault == 'len not int':
            length = 'x'
        elif fault == 'length lies':
            length = n + 3
        elif fault == 'length lies by 2**31':
            length = 2 ** 31 + r.choice([0, 1, n])
        elif fault == 'length lies by 2**32':
            length = 2 ** 32 + r.choice([0, 1, n])
        elif fault in ('item a list', 'item 3-tuple', 'item 1-tuple',
                       'item 0-tuple', 'item None', 'item str'):
            t = tuples[at]
            tuples[at] = {'a list': list(t), '3-tuple': t + (1,),
                          '1-tuple': t[:1], '0-tuple': (), 'None': None,
                          'str': 'ab'}[fault[5:]]
        elif fault and fault.startswith('freq ') and case['mode'] == 'fault':
            class NotFloat:
                def __float__(self):
                    return 'no'
            tuples[at] = (keys[at], {'str': 'x', 'None': None,
                                     'raises': Num(1, boom), 'huge': 10 ** 400,
                                     'float() not float': NotFloat()}[fault[5:]])
        elif fault == 'len missing':
            del lend[keys[at]]
        elif fault in ('doclen str', 'doclen None', 'doclen raises',
                       'doclen huge'):
            lend[keys[at]] = {'str': 'x', 'None': None, 'raises': Num(1, boom),
                              'huge': 10 ** 400}[fault[7:]]
        elif fault == 'd2len raises':
            act_map = boom
        elif fault == 'result raises':
            act_res = boom
        elif fault == 'key unhashable':
            tuples[at] = ([1, 2], freqs[at])

        items = list(tuples)
        hostile = case['mode'] == 'hostile'
        if hostile:
            def when(f):
                # let some items pass first
                def act(*_):
                    state['k'] += 1
                    if state['k'] > at:
                        f()
                return act
            clear_items = when(lambda: items.clear())
            clear_lens = when(lambda: lend.clear())

            def grow():
                if len(items) < 200:
                    items.append((keys[0], 1))
            if fault == 'freq clears items':
                items[:] = [(k, Num(2, clear_items)) for k in keys]
            elif fault == 'freq grows items':
                items[:] = [(k, Num(2, grow)) for k in keys]
            elif fault == 'freq drops result':
                items[:] = [(k, Num(2, gc.collect)) for k in keys]
            elif fault == 'doclen clears items':
                lend = {k: Num(3, clear_items) for k in keys}
            elif fault == 'doclen clears d2len':
                lend = {k: Num(3, clear_lens) for k in keys}
            elif fault == 'getitem clears items':
                act_seq = clear_items
            elif fault == 'd2len clears items':
                act_map = clear_items
            elif fault == 'd2len clears itself':
                act_map = clear_lens
            elif fault == 'result clears items':
                act_res = clear_items
            elif fault == 'result clears d2len':
                act_res = clear_lens
            elif fault == 'result grows items':
                act_res = (lambda *_: grow())
            elif fault == 'hash clears items':
                keys = [Key(k) for k in range(n)]
                lend = dict(zip(keys, lens))
                items[:] = list(zip(keys, freqs))
                keys[at].on_hash = items.clear
            elif fault == 'gc everywhere':
                act_map = act_res = lambda *_: gc.collect()
            elif fault == 'items fresh tuples':
                # the sequence keeps no reference to what it hands out
                class Fresh:
                    def __len__(self):
                        return n

                    def __getitem__(self, i):
                        return (BIG * 7 + i, float(i + 1))
                items = Fresh()
                lend = {BIG * 7 + i: float(i + 2) for i in range(n)}

        plain = items
        if case['items'] == 'tuple' and not hostile and fault is None:
            d2f = tuple(items)
        elif act_seq or length is not None or (
                case['items'] == 'seq' and fault != 'items fresh tuples'):
            d2f = Seq(items, length=length, act=act_seq)
        else:
            d2f = items
        if act_map or case['d2len'] == 'map':
            d2len = Map(lend, act_map)
        elif case['d2len'] == 'tree' and not fault:
            import BTrees
            d2len = BTrees.family64.IF.BTree(lend)
        else:
            d2len = lend
        if act_res or case['result'] == 'res':
            result = Res(act_res)
        elif case['result'] == 'bucket' and not fault:
            import BTrees
            result = BTrees.family64.IF.Bucket()
        else:
            result = {}
        idf, mean = case['idf'], case['mean']
        if fault == 'items a dict':
            d2f = dict(zip(keys, freqs))
        elif fault == 'items a set':
            d2f = set(keys)
        elif fault == 'items None':
            d2f = None
        elif fault == 'items int':
            d2f = 7
        elif fault == 'no len':
            d2f = iter(items)
        elif fault == 'd2len None':
            d2len = None
        elif fault == 'd2len int':
            d2len = 5
        elif fault == 'result None':
            result = None
        elif fault == 'result tuple':
            result = (1, 2)
        elif fault == 'result str':
            result = 'abc'
        elif fault == 'idf str':
            idf = '1'
        elif fault == 'idf None':
            idf = None
        elif fault == 'mean str':
            mean = '2'
        elif fault == 'idf raises':
            idf = Num(1, boom)
        elif fault == 'mean raises':
            mean = Num(1, boom)
        elif fault == 'idf huge':
            idf = 10 ** 400
        args = [result, d2f, d2len, idf, mean]
        kw = {}
        if fault == 'args 0':
            args = []
        elif fault == 'args 4':
            args = args[:4]
        elif fault == 'args 6':
            args.append(1)
        elif fault == 'keyword argument':
            kw = {'x': 1}

        watched = [*keys, *freqs, *lens, *tuples, plain, d2f, lend, d2len,
                   result, *args_extra]
        if case['d2len'] == 'tree':
            watched = watched[:len(keys) * 2]
        watched = [o for o in watched if not isinstance(o, (str, type(None)))
                   and o is not Boom
                   and (not isinstance(o, int) or o > 10 ** 6)]
        held = list(watched)
        kept = []            # values the result received
        before = [sys.getrefcount(o) for o in held]
        err = None
        try:
            out = score(*args, **kw)
        except SystemError as e:
            mon.fail(f'SystemError: {e} (cause {e.__cause__!r}) for {case!r}')
        except Exception as e:
            err = type(e), str(e)
            e = None
        else:
            mon.check(out is None, f'score returned {out!r}')
        mon.seen()

        # references
        n_result = None
        if hasattr(result, 'items') and hasattr(result, 'clear'):
            n_result = list(result.items())
            kept = [v for k, v in n_result]
            pairs = n_result
            k = v = None
            if isinstance(result, (dict, Res)):
                n_result = None
                pairs = None
                result.clear()
                for x in range(len(kept)):
                    # kept + the argument
                    c = sys.getrefcount(kept[x])
                    mon.check(c == 2, lambda: f'{c - 2} references to a score '
                              f'leaked, case {case!r}')
            n_result = pairs = None
        if not hostile and fault != 'sequence shrinks':
            gc_needed = [sys.getrefcount(o) for o in held] != before
            if gc_needed:
                gc.collect()
            after = [sys.getrefcount(o) for o in held]
            for o, b, a in zip(held, before, after):
                mon.check(a == b, lambda: f'reference count of {o!r:.80} went '
                          f'from {b} to {a}, case {case!r}')
            mon.count('references balanced', len(held))

        if case['mode'] == 'fault':
            mon.check(err is not None, f'fault {fault!r} went unnoticed')
            mon.check(issubclass(err[0], FAULTS[fault]),
                      f'fault {fault!r} raised {err}')
            mon.count('faults raised')
            mon.count('fault ' + fault)
            mon.nontrivial = True
            return
        if hostile:
            mon.count('hostile calls')
            mon.count('hostile ' + fault)
            if err is not None:
                mon.check(issubclass(err[0], (IndexError, KeyError, TypeError,
                                              RuntimeError)),
                          f'{fault!r} raised {err}')
            mon.nontrivial = True
            return
        mon.check(err is None, f'a well-formed call raised {err}')
        mon.eq(len(kept), n, 'number of scores')
        if case['result'] != 'bucket':
            for f, dl, v in zip(freqs, lens, kept):
                f, dl = float(f), float(dl)
                exp = f * (K1 + 1) / (f + K1 * ((1 - B) + B * dl / mean)) \
                    * case['idf']
                mon.check(math.isclose(v, exp, rel_tol=1e-9),
                          f'score {v} instead of {exp}')
                mon.count('values checked')
        mon.nontrivial = n > 0

    def extra(self, seed, tier, scratch):
        """Module life cycle, subinterpreters; then leaks by block counts in
        an interpreter with the normal allocator."""
        import subprocess

        from vf import boot
        so = boot.compile_okascore(scratch)
        env = {k: v for k, v in os.environ.items()
               if k not in ('LD_PRELOAD', 'PYTHONMALLOC')}
        prog = os.path.join(core.VERIF, 'vf', 'c13_blocks.py')
        r = subprocess.run([sys.executable, '-B', prog, so], env=env,
                           capture_output=True, text=True)
        problems = []
        if r.returncode == 1:
            problems.append(r.stdout[-3000:])
        elif r.returncode:
            problems.append(f'block count run ended with {r.returncode}: '
                            + r.stderr[-1500:]) if r.returncode < 0 else None
        cov = {'block_count_loops': r.stdout.count('loop ok'),
               'module_loads': r.stdout.count('load ok'),
               'sanitizers': ' '.join(self.SANITIZE)}
        return {'problems': problems, 'coverage': cov,
                'inconclusive': None if r.returncode in (0, 1) or problems
                else r.stderr[-800:]}


PROP = C13()
