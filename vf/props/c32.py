
from vf import core
from vf import zdb
from vf.kinds import ALL
from vf.kinds import KINDS

# The BTrees library merges concurrent changes of a bucket unless it is split, is
# emptied or loses its first key.  Hence the documents that stay have the lowest
# ids, and large trees only see documents reindexed.  Nor does it merge a bucket
# with persistent values that were replaced (the keywords of a document); and an
# assignment that changes nothing conflicts with changes of the same node.
GROUP = 900       # each transaction has the ids from n * GROUP on


class C32(core.Prop):
    ID = 'C32'
    RULE = ('two or three connections index, reindex and remove documents of '
            'their own in overlapping transactions on one stored index, while '
            'another one queries it; non-trivial when all of them changed '
            'something and were committed')
    FILES = ('field/index.py', 'keyword/index.py', 'topic/index.py',
             'topic/filter.py', 'text/baseindex.py', 'text/okapiindex.py',
             'text/lexicon.py')
    QUICK, THOROUGH = 3500, 90000
    SHRINK = ('schedule', 'base', 'probes')
    REQUIRE = {'overlapping commits': 2000, 'same value or word': 300,
               'queries in between': 1000, 'large': 300}

    # Content: ('own', c, k) is of transaction c only, ('all', k) of everybody.
    def content(self, kind, x):
        name = kind.name
        own = x[0] == 'own'
        if name == 'field':
            return x[1] * 100 + x[2] if own else 10000 + x[1]
        if name in ('keyword', 'keyword_ci'):
            return [f'own{x[1]}x{x[2]}' if own else f'all{x[1]}']
        if name == 'topic':
            return {'a': [4, 0, 1, 3][x[-1] % 4], 'tag': 'xy'[x[-1] % 2],
                    'tags': ['y']}
        return f'own{x[1]}x{x[2]}' if own else f'all{x[1]}'

    def op(self, kind, d, xs, n=1):
        if kind.name in ('field', 'topic'):
            return ('i', d, self.content(kind, xs[0]))
        if kind.name in ('keyword', 'keyword_ci'):
            return ('i', d, [w for x in xs for w in self.content(kind, x)],
                    'list')
        # (n: the words are repeated, so that the document's weight changes)
        return ('i', d, ' '.join([self.content(kind, x) for x in xs][:1] * n))

    def generate(self, rng, i, tier):
        kind = KINDS[rng.choice(ALL)]
        cfg = kind.config(rng, tier)
        cfg['regime'] = 'int' if kind.name == 'field' else 'str'
        cfg['threshold'] = rng.choice([None, 64, 300])
        cfg['pipeline'], cfg['vocab'] = 'default', 'small'
        cfg['bulk'] = cfg['many'] = False
        n = rng.choice([2, 2, 2, 3])
        large = rng.random() < .3 and kind.name != 'field'
        kw = kind.name in ('keyword', 'keyword_ci')
        per = (150 if kw else 40) if large else rng.choice([1, 2, 4])
        words = rng.choice([1, 2, 4]) if not large else 4
        shared = rng.random() < .5 and kind.name not in ('okapi', 'cosine') \
            and not (kw and large)
        base, docs = [], {}
        if kind.name == 'topic':
            base += [('addf', f, rng.choice([0, 1, 2, 4, 8]))
                     for f in rng.sample(kind.FIDS, rng.randint(1, 4))]
        def some(c):
            return [('own', c, rng.randrange(words))
                    if not shared or rng.random() < .5
                    else ('all', rng.randrange(2))
                    for _ in range(rng.choice([1, 1, 2]))]
        for c in range(n):
            docs[c] = [c * GROUP + 3 * j for j in range(per)]
            base += [self.op(kind, d, some(c)) for d in docs[c]]
        # what everybody uses stays in use
        k = 0
        for _ in range(2):
            for c in range(n):
                for w in range(words):
                    base.append(self.op(kind, -5000 + k, [('own', c, w)]))
                    k += 1
        for w in range(2):
            for _ in range(2):
                base.append(self.op(kind, -5000 + k, [('all', w)]))
                k += 1
        base += [self.op(kind, -5000 + k + j, [('own', j % n, 0)])
                 for j in range(rng.choice([0, 3]))]
        if kind.name == 'topic':
            base += [self.op(kind, -8000 + j, [('own', 0, 0)])
                     for j in range(130)]
        head = [o for o in base if o[0] == 'addf']
        base = base[len(head):]
        if kind.name == 'topic':
            base.sort(key=lambda o: o[1])
        else:
            rng.shuffle(base)
        if kind.name in ('okapi', 'cosine'):
            # A word's documents are part of the bucket of the word: the words
            # of the transactions have to be far apart.
            for c in range(n):
                head.append(('i', -9000 + c, ' '.join(
                    [f'pad{c}x{j}' for j in range(70)]
                    + [f'own{c}x{j}' for j in range(words)]
                    + [f'pad{c}y{j}' for j in range(70)])))
        base = head + base
        steps = {}
        for c in range(n):
            steps[c] = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                r = rng.random()
                if r < .4 and not large:
                    d = c * GROUP + 3 * rng.randrange(per) + 1
                else:
                    d = rng.choice(docs[c][60:90] if per > 100 else docs[c])
                steps[c].append(('u', d) if (
                    r > .8 or kw and d % 3 == 0) and not large
                    else self.op(kind, d, some(c), 2 + len(steps[c])))
        schedule = [c for c in steps for _ in range(len(steps[c]) + 1)]
        rng.shuffle(schedule)
        sched = []
        for c in schedule:
            sched.append((c, steps[c].pop(0) if steps[c] else None))
            if rng.random() < .3:
                sched.append((-1, None))
        m = kind.model(cfg)
        for o in base:
            kind.apply_model(m, o, cfg)
        return {'cfg': cfg, 'n': n, 'base': base, 'schedule': sched,
                'large': large, 'shared': shared,
                'probes': kind.gen_probes(rng, cfg, m, 4)}

    def execute(self, case, mon):
        d = zdb.Database('demo')
        try:
            self.run(case, mon, d)
        finally:
            d.close()

    def run(self, case, mon, d):
        cfg = case['cfg']
        kind = KINDS[cfg['kind']]
        m = kind.model(cfg)
        conn, tm = d.open()
        real = kind.make(cfg)
        for op in case['base']:
            kind.apply(real, op, cfg)
            kind.apply_model(m, op, cfg)
        zdb.store(conn, 'k', real)
        tm.commit()
        tm.begin()
        real = zdb.load(conn, 'k', kind, cfg)
        conns = [d.open() for _ in range(case['n'])]
        reals = []
        for c, t in conns:
            t.begin()
            reals.append(zdb.load(c, 'k', kind, cfg))
        first = m.copy()
        changed = set()
        for c, op in case['schedule']:
            if c == -1:
                for p in case['probes']:
                    kind.judge(real, first, p, mon, 'reader: ')
                mon.count('queries in between')
            elif op:
                kind.apply(reals[c], op, cfg)
                kind.apply_model(m, op, cfg)
                if any(o._p_changed for o in conns[c][0]._registered_objects):
                    changed.add(c)
            else:
                try:
                    conns[c][1].commit()
                except zdb.ConflictError as e:
                    mon.fail(f'{kind.name}: transactions on different '
                             f'documents do not both commit: {e}')
        try:
            tm.commit()
        except zdb.ConflictError as e:
            mon.fail(f'{kind.name}: a transaction with queries only does not '
                     f'commit: {e}')
        for c, t in conns:
            t.abort()
        tm.begin()
        real = zdb.load(conn, 'k', kind, cfg)
        kind.judge_counts(real, m, mon, 'afterwards: ')
        for p in case['probes']:
            kind.judge(real, m, p, mon, 'afterwards: ')
        for p in self.everything(kind, m):
            kind.judge(real, m, p, mon, 'afterwards: ')
        tm.abort()
        if len(changed) == case['n']:
            mon.count('overlapping commits')
            mon.count('kind ' + kind.name)
            mon.count('large', case['large'])
            mon.count('same value or word', case['shared'])
            mon.nontrivial = True

    def everything(self, kind, m):
        if kind.name == 'field':
            return [('range', v, v) for v in sorted(set(m.docs.values()))]
        if kind.name == 'topic':
            return [('top', [f], 'and', 'search', 'list') for f in m.filters]
        words = sorted(set().union(*m.docs.values()))
        if kind.name in ('keyword', 'keyword_ci'):
            return [('kw', [w], 'and', 'search', 'list') for w in words]
        return [('search', w) for w in words]


PROP = C32()
