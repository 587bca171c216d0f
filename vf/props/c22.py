from vf import core
from vf.kinds import ALL
from vf.kinds import EXC
from vf.kinds import KINDS

EXCS = ['ValueError', 'KeyError', 'AttributeError', 'RuntimeError',
        'ZeroDivisionError', 'TypeError', 'IndexError', 'OverflowError']
ERR = dict(EXC, TypeError=TypeError, IndexError=IndexError,
           OverflowError=OverflowError)
BAD_IDS = {32: [2 ** 31, -2 ** 31 - 1, 2 ** 40, 2 ** 70, 'x', '1', None, 1.5,
                (1,), b'1', -2 ** 63],
           64: [2 ** 63, -2 ** 63 - 1, 2 ** 70, 'x', '1', None, 1.5, (1,), b'1']}


class Incomparable:
    """Refuses every comparison."""

    def __init__(self, exc):
        self.exc = exc

    def _refuse(self, other):
        raise ERR[self.exc]('refused')
    __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = _refuse
    __hash__ = object.__hash__


class Unlowerable(str):
    """A string that cannot be normalized."""
    exc = 'ValueError'

    def lower(self):
        raise ERR[self.exc]('refused')


def failing_iter(words, exc):
    yield from words
    raise ERR[exc]('refused')


class Failer:
    """A pipeline element that refuses some words."""

    def process(self, lst):
        for w in lst:
            if w.lower().startswith('boom'):
                names = {e.lower(): e for e in EXCS}
                raise ERR[names[w.lower()[4:]]]('refused')
        return lst


class C22(core.Prop):
    ID = 'C22'
    RULE = ('a random history with rejected calls in between: inadmissible '
            'ids, values and keywords that cannot be compared or normalized, '
            'wrong content types, text on which the pipeline fails with various '
            'exceptions; after each, the counts and probes must be those '
            'without the call; non-trivial when a call was rejected on a '
            'non-empty index')
    FILES = ('field/index.py', 'keyword/index.py', 'topic/index.py',
             'topic/filter.py', 'text/baseindex.py', 'text/okapiindex.py',
             'text/lexicon.py')
    QUICK, THOROUGH = 8000, 200000
    SHRINK = ('steps', 'probes')
    REQUIRE = {'rejected bad id': 500, 'rejected bad content': 500,
               'rejected reindexing': 300, 'rejected unindexing': 50}

    def generate(self, rng, i, tier):
        kind = KINDS[rng.choice(ALL)]
        cfg = kind.config(rng, tier)
        if kind.name in ('okapi', 'cosine'):
            cfg['failer'] = rng.choice([0, 1, 2])
        m = kind.model(cfg)
        steps = []
        for _ in range(rng.choice([3, 8, 20, 40])):
            if rng.random() < .35:
                steps.append(self.bad(rng, kind, cfg, m))
            else:
                steps += kind.gen_ops(rng, cfg, 1, m)
        return {'cfg': cfg, 'steps': steps,
                'probes': kind.gen_probes(rng, cfg, m, 10)}

    def bad(self, rng, kind, cfg, m):
        docs = sorted(getattr(m, 'docs', ()))
        d = rng.choice(docs) if docs and rng.random() < .6 \
            else rng.choice(cfg['pool'])
        good = {'field': lambda: kind.value(rng, cfg),
                'topic': lambda: kind.obj(rng)}.get(kind.name) or (
            (lambda: kind.text(rng, cfg)) if kind.name in ('okapi', 'cosine')
            else (lambda: kind.words(rng, cfg, 0)))
        r = rng.random()
        if r < .35 or kind.name == 'topic':
            bad = rng.choice(BAD_IDS[cfg['family']])
            if rng.random() < .25:
                return ('bad', 'unindex', bad, None)
            return ('bad', 'id', bad, good())
        exc = rng.choice(EXCS)
        if kind.name == 'field':
            if rng.random() < .5:
                return ('bad', 'incomparable', d, exc)
            return ('bad', 'type', d, None)
        if kind.name in ('keyword', 'keyword_ci'):
            ws = good()
            how = rng.choice(['incomparable', 'type', 'str', 'noniter', 'iter',
                              'mixed', 'unlowerable'])
            if cfg['regime'] == 'tuple' and rng.random() < .6:
                how = 'tail'
            return ('bad', how, d, [ws, rng.randint(0, len(ws)), exc])
        how = rng.choice(['boom', 'boom', 'boom', 'content'])
        if how == 'boom':
            ws = good().split(' ')
            ws.insert(rng.randint(0, len(ws)), 'Boom' + exc.lower())
            t = ' '.join(ws)
            return ('bad', 'boom', d, t if rng.random() < .8 else
                    [good(), t])
        return ('bad', 'content', d, rng.choice([5, 1.5, [5], ['foo', 5],
                                                 ['foo', None], [b'foo'],
                                                 b'foo', [['foo']]]))

    def make(self, kind, cfg):
        if 'failer' not in cfg:
            return kind.make(cfg)
        from vf.kinds import make_lexicon
        lex = make_lexicon(cfg['pipeline'])
        p = list(lex._pipeline)
        pos = min(1 + cfg['failer'], len(p))
        lex = type(lex)(*p[:pos], Failer(), *p[pos:])
        return kind.make(cfg, lexicon=lex)

    def call(self, kind, cfg, real, m, op):
        """-> a function that has to raise, or None if the call would be
        accepted here"""
        _, how, d, arg = op
        ix = real.ix
        k = KINDS
        if how == 'unindex':
            return lambda: ix.unindex_doc(d)
        if how == 'id':
            good = {'field': ('i', d, arg), 'topic': ('i', d, arg),
                    'keyword': ('i', d, arg, 'list'),
                    'keyword_ci': ('i', d, arg, 'list')}.get(
                kind.name, ('i', d, arg))
            return lambda: k[kind.name].apply(real, good, cfg)
        if kind.name == 'field':
            if not any(v is not None for v in m.docs.values()):
                return None
            if how == 'incomparable':
                v = Incomparable(arg)
            else:
                some = next(v for v in m.docs.values() if v is not None)
                v = 5 if isinstance(some, str) else 'x'
            return lambda: ix.index_doc(d, v)
        if kind.name in ('keyword', 'keyword_ci'):
            ws, pos, exc = arg
            ws = list(ws)
            if how in ('incomparable', 'type'):
                if not m.docs:
                    return None
                if how == 'incomparable':
                    x = Incomparable(exc)
                else:
                    x = 5 if isinstance(ws[0], str) else 'x'
                return lambda: ix.index_doc(d, [x])
            if how == 'tail':
                # only the last of the words cannot be compared
                if not any(len(w) == 2 for s in m.docs.values() for w in s):
                    return None
                return lambda: ix.index_doc(
                    d, [w for w in ws if len(w) != 2] + [(1, 'z')])
            if how == 'str':
                return lambda: ix.index_doc(d, 'word')
            if how == 'noniter':
                return lambda: ix.index_doc(d, 5)
            if how == 'iter':
                return lambda: ix.index_doc(d, failing_iter(ws[:pos], exc))
            if how == 'mixed':
                ws.insert(pos, Incomparable(exc))
                return lambda: ix.index_doc(d, ws)
            if not kind.ci:
                return None
            x = Unlowerable('word')
            x.exc = exc
            ws.insert(pos, x)
            return lambda: ix.index_doc(d, ws)
        if how == 'boom':
            names = {'boom' + e.lower() for e in EXCS}
            if not any(w.lower() in names for w in m.pipe(arg)):
                return None
        return lambda: ix.index_doc(d, list(arg) if isinstance(arg, list)
                                    else arg)

    def execute(self, case, mon):
        cfg = case['cfg']
        kind = KINDS[cfg['kind']]
        real, m = self.make(kind, cfg), kind.model(cfg)
        for n, step in enumerate(case['steps']):
            if step[0] != 'bad':
                kind.apply(real, step, cfg)
                kind.apply_model(m, step, cfg)
                continue
            what = f'step {n} {step!r:.200}: '
            fn = self.call(kind, cfg, real, m, step)
            if fn is None:
                continue
            how, d = step[1], step[2]
            lenient = how == 'unindex' or (
                how == 'id' and (kind.name == 'topic' or not step[3]
                                 and kind.name.startswith('keyword')))
            try:
                fn()
            except Exception:
                raised = True
            else:
                raised = False
            if not raised and how in ('incomparable', 'mixed') \
                    and 'KeyError' in (step[3], step[3][-1]):
                # BTrees take a KeyError of a comparison for "not there"
                return
            mon.check(raised or lenient, what + 'was accepted')
            if not raised and not lenient:
                continue
            old = hasattr(m, 'docs') and how not in ('id', 'unindex') \
                and d in m.docs
            if old:
                # as before, or absent
                n_docs = real.ix.documentCount()
                if n_docs == len(m.docs) - 1:
                    m.unindex(d)
                    mon.count('dropped the document')
                mon.count('rejected reindexing')
            mon.count('rejected unindexing' if how == 'unindex' else
                      'rejected bad id' if how == 'id' else
                      'rejected bad content')
            mon.count(f'rejected {kind.name} {how}')
            kind.judge_counts(real, m, mon, what)
            if states_nonempty(m):
                mon.nontrivial = True
            for p in case['probes'][:4] + self.own(kind, cfg, m, step):
                kind.judge(real, m, p, mon, what)
        for p in case['probes']:
            kind.judge(real, m, p, mon, 'at the end: ')
        kind.judge_counts(real, m, mon, 'at the end: ')
        if hasattr(m, 'docs'):
            for d in sorted(m.docs)[:40]:
                real.ix.unindex_doc(d)
                m.unindex(d)
            kind.judge_counts(real, m, mon, 'after removing: ')
            for p in case['probes'][:5]:
                kind.judge(real, m, p, mon, 'after removing: ')

    def own(self, kind, cfg, m, step):
        """probes about the document and its neighbours"""
        d = step[2]
        if kind.name == 'field':
            res = [('range', None, None)]
            if isinstance(d, int) and d in m.docs:
                res.append(('range', m.docs[d], m.docs[d]))
            return res
        if kind.name in ('keyword', 'keyword_ci'):
            if step[1] in ('id', 'unindex'):
                return [('kw', [w], 'and', 'search', 'list')
                        for w in (step[3] or ())[:6]]
            ws = sorted(m.docs.get(d, ()), key=repr) + list(step[3][0])
            return [('has', d)] + [('kw', [w], 'and', 'search', 'list')
                                   for w in ws[:10]]
        if kind.name == 'topic':
            return [('top', [f], 'and', 'search', 'list') for f in m.filters]
        res = [('weight', ['foo', 'apple'])]
        t = step[3]
        if isinstance(t, str):
            res += [('search', w) for w in m.pipe(t)[:5]
                    if not w.lower().startswith('boom')]
        if step[1] not in ('id', 'unindex'):
            res.append(('has', d))
        return res


def states_nonempty(m):
    return bool(m.docs if hasattr(m, 'docs') else
                any(f[1] for f in m.filters.values()))


PROP = C22()
