import itertools
import random
import sys
import threading

from vf import core
from vf import zdb
from vf.kinds import ALL
from vf.kinds import KINDS
from vf.kinds import KW_VOCAB


SHARED = 'topic-index-same-document'


def states(m):
    """document -> its state"""
    if hasattr(m, 'docs'):
        return dict(m.docs)
    res = {}
    for fid, (expr, ids) in m.filters.items():
        for d in ids:
            res[d] = res.get(d, frozenset()) | {fid}
    return res


def effect_of(kind, cfg, start, ops):
    """-> (emptied the index?, filters or None, document -> new state)"""
    mm = start.copy()
    emptied = any(op[0] in ('c', 'clearf') for op in ops)
    for op in ops:
        kind.apply_model(mm, op, cfg)
    old, new = states(start), states(mm)
    if emptied:
        changed = new
    else:
        changed = {d: new.get(d, NOTHING) for d in old.keys() | new.keys()
                   if old.get(d, NOTHING) != new.get(d, NOTHING)}
    keep = None
    if any(op[0] == 'c' for op in ops) and hasattr(mm, 'filters'):
        keep = set(mm.filters)
    return emptied, keep, changed


NOTHING = object()


def apply_effect(m, effect):
    emptied, keep, changed = effect
    if hasattr(m, 'filters'):
        if keep is not None:
            m.filters = {k: v for k, v in m.filters.items() if k in keep}
        for fid, f in m.filters.items():
            if emptied:
                f[1] = set()
            for d, s in changed.items():
                if s is not NOTHING and fid in s:
                    f[1].add(d)
                else:
                    f[1].discard(d)
        return
    if emptied:
        m.clear()
    for d, s in changed.items():
        if s is NOTHING:
            m.unindex(d)
        else:
            m.docs[d] = s
        m._stats = None


class C21(core.Prop):
    ID = 'C21'
    RULE = ('two to four connections run two to five transactions on one index '
            'in a random interleaving (or in free-running threads) on top of a '
            'random committed history; refused transactions are retried at the '
            'end; non-trivial when two overlapping transactions both committed')
    FILES = ('field/index.py', 'keyword/index.py', 'topic/index.py',
             'topic/filter.py', 'text/baseindex.py', 'text/okapiindex.py',
             'text/lexicon.py')
    QUICK, THOROUGH = 3000, 80000
    SHRINK = ('schedule', 'base', 'probes')
    REQUIRE = {'overlapping commits merged': 150, 'conflicts': 300,
               'retried': 300, 'threaded': 60, 'thread switches': 500, 'another order': 0}

    def config(self, rng, kind, tier):
        cfg = kind.config(rng, tier)
        if rng.random() < .6:      # many documents: merges become possible
            cfg['pool'] = list(range(rng.choice([30, 80, 200])))
        if 'threshold' in cfg:
            cfg['threshold'] = rng.choice([None, 2, 3, 5, 8])
        return cfg

    def base_ops(self, rng, kind, cfg, m):
        ops = []
        if kind.name == 'topic':
            for fid in rng.sample(kind.FIDS, rng.randint(1, 4)):
                ops += [('addf', fid, rng.choice([0, 1, 3, 4, 6, 7, 8]))]
                kind.apply_model(m, ops[-1], cfg)
        ops += kind.gen_ops(rng, cfg, rng.choice([0, 5, 20, 60, 120]), m)
        if kind.name == 'topic' and not m.filters:
            ops.append(('addf', 'f1', 0))
            kind.apply_model(m, ops[-1], cfg)
        if rng.random() < .3 and kind.name in ('keyword', 'keyword_ci'):
            # put a word around the Set -> TreeSet threshold
            w = rng.choice(KW_VOCAB[cfg['regime']][:2])
            th = cfg['threshold'] or 64
            for j in range(th - rng.choice([0, 1, 1, 2])):
                op = ('i', 300 + j, [w], 'list')
                kind.apply_model(m, op, cfg)
                ops.append(op)
        if rng.random() < .3 and kind.name in ('okapi', 'cosine'):
            w = kind.word(rng, cfg)
            for j in range(rng.choice([8, 9, 10, 11, 30])):
                op = ('i', 300 + j, f'{w} filler{j % 3}')
                kind.apply_model(m, op, cfg)
                ops.append(op)
        return ops

    def generate(self, rng, i, tier):
        kind = KINDS[rng.choice(ALL)]
        cfg = self.config(rng, kind, tier)
        m = kind.model(cfg)
        base = self.base_ops(rng, kind, cfg, m)
        wide = kind.name in ('okapi', 'cosine') and rng.random() < .6
        if wide:
            # a large lexicon; transactions use words far apart
            cfg['pool'] = list(range(rng.choice([200, 400])))
            extra = [('i', 1000 + j, ' '.join(
                f'wide{j}x{k}' for k in range(130))) for j in range(4)]
            extra += [('i', 2000 + 2 * j, f'wide{j % 4}x{j % 3} apple')
                      for j in range(rng.choice([5, 60]))]
            for op in extra:
                kind.apply_model(m, op, cfg)
            base += extra
        nconn = rng.choice([2, 2, 2, 3, 4])
        ntxn = rng.choice([2, 2, 3, 3, 4, 5])
        small = rng.random() < .7
        schedule, running = [], {}
        started = 0
        quiet = rng.random() < .85
        clearing = not quiet and kind.name != 'topic' and rng.random() < .4
        touched = set()
        same = .98 if kind.name == 'topic' else .8
        while started < ntxn or running:
            c = rng.randrange(nconn)
            if c not in running:
                if started >= ntxn:
                    continue
                running[c] = m.copy()
                started += 1
                schedule.append(('begin', c))
                continue
            r = rng.random()
            if r < .65:
                for _ in range(20):
                    mm = running[c].copy()
                    if wide and rng.random() < .9:
                        j, k = (c + rng.choice([0, 0, 0, 0, 1])) % 4, \
                            rng.randrange(120)
                        d = 100 * j + rng.randrange(100)
                        op = ('u', d) if d in mm.docs else ('i', d, ' '.join(
                            f'wide{j}x{k + rng.randrange(8)}'
                            for _ in range(rng.randint(1, 6))))
                        break
                    op = ('c',) if clearing and rng.random() < .25 \
                        else kind.gen_ops(rng, cfg, 1, mm)[0]
                    if op[0] in ('addf', 'delf'):
                        op = ('u', rng.choice(cfg['pool']))
                        continue      # configuration, not indexing
                    if quiet and op[0] in ('c', 'clearf', 'delf', 'fill',
                                           'drain', 'lex', 'vocab'):
                        continue
                    if small and op[0] in 'iu':
                        # mostly different documents
                        if (op[1] in touched) and rng.random() < same:
                            continue
                        touched.add(op[1])
                    break
                kind.apply_model(running[c], op, cfg)
                schedule.append(('op', c, op))
            else:
                schedule.append(('commit', c))
                del running[c]
        m2 = m.copy()
        for s in schedule:
            if s[0] == 'op':
                kind.apply_model(m2, s[2], cfg)
        return {'cfg': cfg, 'base': base, 'schedule': schedule, 'nconn': nconn,
                'probes': kind.gen_probes(rng, cfg, m2, 12)
                + kind.gen_probes(rng, cfg, m, 4),
                'threads': rng.random() < .3, 'seed': rng.randrange(10 ** 6)}

    def execute(self, case, mon):
        d = zdb.Database('demo')
        switch = sys.getswitchinterval()
        try:
            self.run(case, mon, d)
        finally:
            sys.setswitchinterval(switch)
            d.close()

    def run(self, case, mon, d):
        cfg = case['cfg']
        kind = KINDS[cfg['kind']]
        m = kind.model(cfg)
        conn, tm = d.open()
        real = kind.make(cfg)
        for op in case['base']:
            kind.apply(real, op, cfg)
            kind.apply_model(m, op, cfg)
        zdb.store(conn, 'k', real)
        tm.commit()
        conn.close()
        committed = []           # [ops, begin, end] by commit time
        refused = []
        if case['threads']:
            self.threaded(case, d, kind, cfg, committed, refused, mon)
            mon.count('threaded')
        else:
            self.interleaved(case, d, kind, cfg, committed, refused)
            mon.state('schedules of transactions', [
                s[:2] for s in case['schedule']])
        mon.count('conflicts', len(refused))
        merged = any(a[1] < b[2] and b[1] < a[2] and a[0] and b[0]
                     for a, b in itertools.combinations(committed, 2))
        if merged:
            mon.count('overlapping commits merged')
            mon.count('merged ' + kind.name)
            mon.nontrivial = True
        for n, ops in enumerate(refused):
            # alone, it has to succeed
            conn, tm = d.open()
            real = zdb.load(conn, 'k', kind, cfg)
            for op in ops:
                kind.apply(real, op, cfg)
            tm.commit()
            conn.close()
            committed.append([ops, 10 ** 9 + n, 10 ** 9 + n])
            mon.count('retried')

        conn, tm = d.open()
        conn.cacheMinimize()
        real = zdb.load(conn, 'k', kind, cfg)
        self.lexicon(real, mon)
        self.explain(kind, cfg, m, real, committed, case, mon)
        # and it goes on working
        rng = random.Random(case['seed'])
        for op in kind.gen_ops(rng, cfg, 8, self.final.copy()):
            kind.apply(real, op, cfg)
            kind.apply_model(self.final, op, cfg)
        self.lexicon(real, mon)
        kind.judge_counts(real, self.final, mon, 'afterwards: ')
        for p in case['probes'][:6]:
            kind.judge(real, self.final, p, mon, 'afterwards: ')
        # documents can be removed for good
        if hasattr(self.final, 'docs'):
            for doc in sorted(self.final.docs)[:60]:
                real.ix.unindex_doc(doc)
                self.final.unindex(doc)
            kind.judge_counts(real, self.final, mon, 'after removing: ')
            for p in case['probes'][:6]:
                kind.judge(real, self.final, p, mon, 'after removing: ')
        tm.abort()
        conn.close()

    def interleaved(self, case, d, kind, cfg, committed, refused):
        conns = [d.open() for _ in range(case['nconn'])]
        state = {}
        for t, step in enumerate(case['schedule']):
            c = step[1]
            conn, tm = conns[c]
            if step[0] == 'begin':
                if c in state:
                    continue
                tm.begin()
                state[c] = [[], t, None,
                            zdb.load(conn, 'k', kind, cfg)]
            elif c not in state:
                continue
            elif step[0] == 'op':
                s = state[c]
                if s[2] != 'refused':
                    try:
                        kind.apply(s[3], step[2], cfg)
                    except zdb.ConflictError:
                        tm.abort()
                        s[2] = 'refused'
                s[0].append(step[2])
            else:
                self.finish(tm, state.pop(c), t, committed, refused)
        for c, s in sorted(state.items()):
            self.finish(conns[c][1], s, 10 ** 6 + c, committed, refused)
        for conn, tm in conns:
            tm.abort()
            conn.close()

    def finish(self, tm, s, t, committed, refused):
        if s[2] != 'refused':
            try:
                tm.commit()
            except zdb.ConflictError:
                tm.abort()
                s[2] = 'refused'
        if s[2] == 'refused':
            refused.append(s[0])
        else:
            committed.append([s[0], s[1], t])

    def threaded(self, case, d, kind, cfg, committed, refused, mon):
        txns = {}                 # connection -> its transactions
        for step in case['schedule']:
            mine = txns.setdefault(step[1], [])
            if step[0] == 'begin' or not mine:
                mine.append([])
            if step[0] == 'op':
                mine[-1].append(step[2])
        clock = itertools.count()
        if case['seed'] % 3 and len(txns) > 1:
            return self.scheduled(case, d, kind, cfg, committed, refused, txns,
                                  clock, mon)
        mon.count('free-running threads')
        sys.setswitchinterval(1e-5)
        lock = threading.Lock()
        errors = []
        start = threading.Barrier(len(txns)) if txns else None

        def work(mine):
            conn, tm = d.open()
            try:
                start.wait()
                for ops in mine:
                    s = [list(ops), next(clock), None]
                    tm.begin()
                    try:
                        real = zdb.load(conn, 'k', kind, cfg)
                        for op in ops:
                            kind.apply(real, op, cfg)
                    except zdb.ConflictError:
                        tm.abort()
                        s[2] = 'refused'
                    with lock:
                        # commits are ordered by the storage anyway
                        self.finish(tm, s, next(clock), committed, refused)
            except BaseException as e:
                errors.append(e)
                start.abort()
            finally:
                tm.abort()
                conn.close()
        threads = [threading.Thread(target=work, args=(mine,))
                   for mine in txns.values()]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for e in errors:
            e.vf_observed = True
            raise e

    def scheduled(self, case, d, kind, cfg, committed, refused, txns, clock,
                  mon):
        """Threads that are switched at lines of the package."""
        from vf import boot
        from vf import sched

        def work(conn, tm, mine):
            for ops in mine:
                s = [list(ops), next(clock), None]
                tm.begin()
                try:
                    real = zdb.load(conn, 'k', kind, cfg)
                    for op in ops:
                        kind.apply(real, op, cfg)
                        sc.pause()
                except zdb.ConflictError:
                    tm.abort()
                    s[2] = 'refused'
                sc.hold += 1
                self.finish(tm, s, next(clock), committed, refused)
                sc.hold -= 1
        conns = [d.open() for _ in txns]
        sc = sched.Scheduler(
            [lambda c=c, mine=mine: work(*c, mine)
             for c, mine in zip(conns, txns.values())],
            case['seed'], [.02, .1, .4][case['seed'] // 3 % 3], boot.PKG)
        try:
            sc.run()
        except Exception as e:
            e.vf_observed = True
            raise
        finally:
            for conn, tm in conns:
                tm.abort()
                conn.close()
        mon.count('scheduled threads')
        mon.count('thread switches', sc.switches)
        mon.state('thread interleavings', tuple(sc.trail))

    def lexicon(self, real, mon):
        if 'lex' not in real.roots:
            return
        lex = real.lex
        words = list(lex.words())
        wids = [lex.get_wid(w) for w in words]
        mon.check(len(set(wids)) == len(wids), 'two words share an id: '
                  f'{sorted(zip(wids, words))!r:.500}')
        mon.check(0 not in wids, 'a word has the id 0')
        mon.eq([lex.get_word(w) for w in wids], words, 'words of the ids')
        mon.eq(sorted(lex.wids()), sorted(wids), 'ids of the lexicon')
        mon.eq(dict(lex.items()), dict(zip(words, wids)), 'lexicon items')
        mon.eq(lex.wordCount(), len(words), 'lexicon word count')

    def explain(self, kind, cfg, m, real, committed, case, mon):
        probes = list(kind.count_probes) + case['probes']
        probes += self.all_docs(kind, cfg, m, committed)
        first = None
        for how, order, mm in self.outcomes(kind, cfg, m, committed):
            silent = core.Monitor()
            try:
                for p in probes:
                    kind.judge(real, mm, p, silent)
            except core.Violation as v:
                first = first or v
                continue
            mon.seen(silent.observations)
            self.final = mm
            if how == 'effects':
                mon.count('an operation without effect was overtaken')
            elif order != tuple(range(len(committed))):
                mon.count('another order')
            return
        if kind.name == 'topic' and self.only_shared_documents(
                kind, cfg, m, real, committed, probes):
            mon.fail('a document indexed by two overlapping transactions has '
                     'its memberships mixed from both', SHARED)
        mon.fail('no order of the committed transactions explains the result; '
                 f'in commit order: {first.msg}')

    def outcomes(self, kind, cfg, m, committed):
        """The results that serial orders allow: first those of repeating all
        operations; then those where a transaction only counts with what it
        changed in the state it started from (removing a document that was
        not there does not forbid that another transaction adds it)."""
        n = len(committed)
        for order in itertools.islice(itertools.permutations(range(n)), 720):
            mm = m.copy()
            for j in order:
                for op in committed[j][0]:
                    kind.apply_model(mm, op, cfg)
            yield 'operations', order, mm
        for order in itertools.islice(itertools.permutations(range(n)), 720):
            mm, done = m.copy(), []
            for j in order:
                ops, begin, end = committed[j]
                start = m.copy()
                for k, effect in done:
                    if committed[k][2] < begin:
                        apply_effect(start, effect)
                effect = effect_of(kind, cfg, start, ops)
                done.append((j, effect))
                apply_effect(mm, effect)
            yield 'effects', order, mm

    def only_shared_documents(self, kind, cfg, m, real, committed, probes):
        """Are the documents which overlapping transactions both (re)indexed
        or removed the only ones in a wrong state?"""
        shared = set()
        for a, b in itertools.combinations(committed, 2):
            if a[1] < b[2] and b[1] < a[2]:
                shared |= self.documents(a[0]) & self.documents(b[0])
        if not shared:
            return False
        got = [set(kind.observe(real, p, m)) - shared for p in probes]
        for how, order, mm in self.outcomes(kind, cfg, m, committed):
            if got == [set(kind.expect(mm, p)) - shared for p in probes]:
                return True
        return False

    @staticmethod
    def documents(ops):
        res = set()
        for op in ops:
            if op[0] in 'iu':
                res.add(op[1])
            elif op[0] == 'fill':
                res |= set(range(op[1], op[1] + op[2]))
        return res

    def probe_known(self, key):
        mon = core.Monitor()
        case = {'cfg': {'kind': 'topic', 'family': 32, 'pool': [27],
                        'bulk': False},
                'base': [('addf', 'f3', 0), ('addf', 'f4', 3)],
                'schedule': [('begin', 0), ('begin', 1),
                             ('op', 0, ('i', 27, {'a': 3, 'tags': ['x']})),
                             ('op', 1, ('i', 27, {'a': 0, 'tags': ['y']})),
                             ('commit', 0), ('commit', 1)],
                'nconn': 2, 'probes': [], 'threads': False, 'seed': 1}
        try:
            self.execute(case, mon)
        except core.Violation as v:
            return v.key == key
        return False

    def all_docs(self, kind, cfg, m, committed):
        """probes that together reveal every document"""
        mm = m.copy()
        res = []
        values = []
        for t in committed:
            for op in t[0]:
                kind.apply_model(mm, op, cfg)
        if kind.name == 'field':
            vals = sorted({v for v in list(m.docs.values())
                           + list(mm.docs.values()) if v is not None}, key=repr)
            res = [('range', None, None)] + [('range', v, v) for v in vals[:40]]
        elif kind.name in ('keyword', 'keyword_ci'):
            for dd in (m.docs, mm.docs):
                for ws in dd.values():
                    values += ws
            res = [('kw', [w], 'and', 'search', 'list')
                   for w in sorted(set(values), key=repr)[:60]]
        elif kind.name == 'topic':
            res = [('top', [f], 'and', 'search', 'list')
                   for f in sorted(set(m.filters) | set(mm.filters))]
        else:
            for dd in (m.docs, mm.docs):
                for ws in dd.values():
                    values += ws
            res = [('search', w) for w in sorted(set(values))[:40]]
            res += [('has', d) for d in sorted(set(m.docs) | set(mm.docs))[:60]]
        return res


PROP = C21()
