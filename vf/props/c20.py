import random
import shutil

from vf import core
from vf import zdb
from vf.kinds import ALL
from vf.kinds import KINDS


class FailsVote:
    """A second resource of the transaction which refuses to commit."""
    transaction_manager = None

    def sortKey(self):
        return '~~~~ last'

    def abort(self, txn):
        pass

    tpc_begin = commit = tpc_finish = tpc_abort = abort

    def tpc_vote(self, txn):
        raise RuntimeError('refused')


class C20(core.Prop):
    ID = 'C20'
    RULE = ('a random script of operations on one to three indexes in a ZODB '
            'with a reader in another connection, commits, refused commits, aborts, savepoints, rollbacks, '
            'object unloading, reopening, restarts, and (file storage) cuts '
            'of the file at arbitrary bytes; non-trivial when an answer read '
            'back from the database was not empty')
    FILES = ('field/index.py', 'keyword/index.py', 'topic/index.py',
             'topic/filter.py', 'text/baseindex.py', 'text/okapiindex.py',
             'text/lexicon.py')
    QUICK, THOROUGH = 4000, 100000
    SHRINK = ('script',)
    REQUIRE = {'commit': 300, 'abort': 100, 'rollback': 100, 'minimize': 100,
               'cut file': 100, 'restart': 50, 'refused commit': 30,
               'snapshot read': 500, 'asked again': 1000,
               'reader asked': 1000}

    def generate(self, rng, i, tier):
        cfgs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            kind = KINDS[rng.choice(ALL)]
            cfgs.append(kind.config(rng, tier))
        kinds = [KINDS[c['kind']] for c in cfgs]
        models = [k.model(c) for k, c in zip(kinds, cfgs)]
        storage = rng.choice(['map', 'map', 'demo', 'file', 'file'])
        script, saved, base = [], [], [m.copy() for m in models]
        asked = []
        style = rng.choice(['single', 'few', 'many'])
        length = rng.choice([8, 20, 40]) * (2 if tier == 'thorough' else 1)
        while len(script) < length:
            if rng.random() < .06:
                k = rng.randrange(len(cfgs))
                script.append(('commit',))
                base = [m.copy() for m in models]
                saved = []
                script += self.rivals(rng, k, kinds[k], cfgs[k], models[k])
            n = {'single': 1, 'few': rng.randint(1, 3),
                 'many': rng.randint(2, 12)}[style]
            for _ in range(n):
                k = rng.randrange(len(cfgs))
                ops = kinds[k].swap(rng, cfgs[k], models[k]) \
                    if rng.random() < .08 else []
                for op in ops or kinds[k].gen_ops(rng, cfgs[k], 1, models[k]):
                    script.append(('op', k, op))
                if rng.random() < .12:
                    script.append(rng.choice([
                        ('min',), ('gc',), ('unload', rng.randrange(10 ** 6))]))
                if rng.random() < .35:
                    script.append(('q', *self.question(
                        rng, kinds, cfgs, models)))
                if rng.random() < .15:
                    script.append(('sp',))
                    saved.append([m.copy() for m in models])
                if saved and rng.random() < .15:
                    j = rng.randrange(len(saved))
                    script.append(('rb', j))
                    models = [m.copy() for m in saved[j]]
                    del saved[j + 1:]
            r = rng.random()
            if r < .62:
                script.append(('commit',))
                base = [m.copy() for m in models]
                saved = []
            elif r < .78:
                script.append(('abort',))
                models = [m.copy() for m in base]
                saved = []
            elif r < .83:
                script.append(('refuse',))
                models = [m.copy() for m in base]
                saved = []
            elif r < .9:
                script.append(('reopen',))
                models = [m.copy() for m in base]
                saved = []
            elif storage == 'file' and r < .95:
                script.append(('restart',))
                models = [m.copy() for m in base]
                saved = []
            if rng.random() < .5:
                # a reader with a transaction of its own
                if rng.random() < .6:
                    script.append(('rsync',))
                for q in rng.sample(asked[-5:], min(len(asked), 3)):
                    script.append(('rq', *q))
                if len(asked) < 4 or rng.random() < .3:
                    q = self.question(rng, kinds, cfgs, base)
                    asked.append(q)
                    script.append(('rq', *q))
            if rng.random() < .4:
                k = rng.randrange(len(cfgs))
                script.append(('fresh', k, kinds[k].gen_probe(
                    rng, cfgs[k], base[k])))
        script.append(('commit',))
        final = []
        for k, (kd, c) in enumerate(zip(kinds, cfgs)):
            final += [(k, kd.gen_probe(rng, c, models[k])) for _ in range(4)]
        return {'cfgs': cfgs, 'storage': storage,
                'cache': rng.choice([0, 3, 20, 400]), 'script': script,
                'final': final, 'cuts': [rng.random() for _ in range(3)],
                'seed': rng.randrange(10 ** 6)}

    @staticmethod
    def rivals(rng, k, kind, cfg, m):
        """A change and a question, given up, and another change and the same
        question: what was seen in between must not be remembered."""
        if kind.name in ('okapi', 'cosine'):
            d = rng.choice(cfg['pool'])
            text = kind.text(rng, cfg)
            ws = rng.sample(['rivalone', 'rivaltwo', 'rival', 'rivalzz'], 2)
            a, b = [('i', d, (text + ' ' + w).split()
                     if cfg['pipeline'] == 'none' else text + ' ' + w)
                    for w in ws]
            q = rng.choice([('glob', 'rival*'), ('glob', 'riv*'),
                            ('search', ws[0]), ('search', ws[1]),
                            ('phrase', ws[1])])
            kind.apply_model(m, b, cfg)
        else:
            a = kind.gen_ops(rng, cfg, 1, m.copy())[0]
            b = kind.gen_ops(rng, cfg, 1, m)[0]
            if rng.random() < .5 and a[0] == b[0] == 'i':
                a = (*a[:1], b[1], *a[2:])
            q = kind.gen_probe(rng, cfg, m)
        return [('op', k, a), ('q', k, q),
                rng.choice([('abort',), ('abort',), ('refuse',)]),
                ('op', k, b), ('q', k, q)]

    @staticmethod
    def question(rng, kinds, cfgs, models):
        k = rng.randrange(len(cfgs))
        m = models[k]
        if hasattr(m, 'docs') and m.docs and kinds[k].name != 'field' \
                and rng.random() < .25:
            return k, ('has', rng.choice(list(m.docs)))
        return k, kinds[k].gen_probe(rng, cfgs[k], m)

    def execute(self, case, mon):
        database = zdb.Database(case['storage'], case['cache'])
        try:
            Run(case, mon, database).run()
        finally:
            database.close()


class Run:
    def __init__(self, case, mon, database):
        self.case, self.mon, self.d = case, mon, database
        self.cfgs = case['cfgs']
        self.kinds = [KINDS[c['kind']] for c in self.cfgs]

    def copy(self, models):
        return [m.copy() for m in models]

    def connect(self):
        self.conn, self.tm = self.d.open()
        self.load()

    def load(self):
        self.reals = [zdb.load(self.conn, f'k{k}', kd, c)
                      for k, (kd, c) in enumerate(zip(self.kinds, self.cfgs))]

    def everything(self, db_conn, models, what, probes=()):
        for k, (kd, c) in enumerate(zip(self.kinds, self.cfgs)):
            real = zdb.load(db_conn, f'k{k}', kd, c)
            kd.judge_counts(real, models[k], self.mon, what)
            rng = random.Random(self.case['seed'])
            for p in ([p for j, p in probes if j == k]
                      or kd.gen_probes(rng, c, models[k], 3)):
                exp = kd.judge(real, models[k], p, self.mon, what)
                if exp:
                    self.mon.nontrivial = True
        self.mon.count('snapshot read')

    def run(self):
        mon, case = self.mon, self.case
        self.asked, self.turn = [], True
        self.models = [kd.model(c) for kd, c in zip(self.kinds, self.cfgs)]
        self.conn, self.tm = self.d.open()
        for k, (kd, c) in enumerate(zip(self.kinds, self.cfgs)):
            zdb.store(self.conn, f'k{k}', kd.make(c))
        self.tm.commit()
        self.load()
        base, saved = self.copy(self.models), []
        reader, views, seen = None, {}, None
        commits = []
        if self.d.path:
            commits.append((self.d.size(), base))
        for n, step in enumerate(case['script']):
            what = f'step {n} {step!r:.80}: '
            kind = step[0]
            if kind == 'op':
                k = step[1]
                self.kinds[k].apply(self.reals[k], step[2], self.cfgs[k])
                self.kinds[k].apply_model(self.models[k], step[2], self.cfgs[k])
                mon.count('operation')
            elif kind == 'q':
                k = step[1]
                self.kinds[k].judge(self.reals[k], self.models[k], step[2], mon,
                                    what)
                self.asked.append((k, step[2]))
                del self.asked[:-6]
            elif kind == 'min':
                self.conn.cacheMinimize()
                mon.count('minimize')
            elif kind == 'gc':
                self.conn.cacheGC()
            elif kind == 'unload':
                rng = random.Random(step[1])
                for oid, o in list(self.conn._cache.lru_items()):
                    if rng.random() < .5:
                        o._p_deactivate()
                mon.count('unload')
            elif kind == 'sp':
                saved.append((self.tm.savepoint(), self.copy(self.models)))
            elif kind == 'rb':
                if step[1] < len(saved):
                    sp, ms = saved[step[1]]
                    sp.rollback()
                    self.models = self.copy(ms)
                    del saved[step[1] + 1:]
                    mon.count('rollback')
                    self.counts(what)
            elif kind == 'commit':
                self.tm.commit()
                base, saved = self.copy(self.models), []
                mon.count('commit')
                if self.d.path:
                    commits.append((self.d.size(), base))
                self.counts(what)
            elif kind in ('abort', 'refuse'):
                if kind == 'refuse':
                    self.tm.get().join(FailsVote())
                    try:
                        self.tm.commit()
                    except RuntimeError:
                        mon.count('refused commit')
                    else:
                        raise core.Skip('commit was not refused')
                self.tm.abort()
                self.models, saved = self.copy(base), []
                mon.count('abort')
                self.counts(what)
            elif kind in ('reopen', 'restart'):
                if kind == 'restart' and reader:
                    reader[1].abort()
                    reader[0].close()
                    reader, views = None, {}
                self.tm.abort()
                self.conn.close()
                if kind == 'restart':
                    self.d.restart()
                self.models, saved = self.copy(base), []
                self.connect()
                mon.count(kind)
                self.counts(what)
            elif kind == 'rsync':
                if reader is None:
                    continue
                reader[1].begin()
                seen = self.copy(base)
                mon.count('reader synchronized')
            elif kind == 'rq':
                k = step[1]
                if reader is None:
                    reader = self.d.open()
                    seen = self.copy(base)
                if k not in views:
                    views[k] = zdb.load(reader[0], f'k{k}', self.kinds[k],
                                        self.cfgs[k])
                self.kinds[k].judge(views[k], seen[k], step[2], mon,
                                    what + 'reader: ')
                self.kinds[k].judge_counts(views[k], seen[k], mon,
                                           what + 'reader: ')
                mon.count('reader asked')
            elif kind == 'fresh':
                conn, tm = self.d.open()
                try:
                    k = step[1]
                    real = zdb.load(conn, f'k{k}', self.kinds[k], self.cfgs[k])
                    self.kinds[k].judge(real, base[k], step[2], mon,
                                        what + 'another connection: ')
                    self.kinds[k].judge_counts(real, base[k], mon,
                                               what + 'another connection: ')
                finally:
                    tm.abort()
                    conn.close()
                mon.count('snapshot read')
            else:
                raise AssertionError(step)
        # what is in memory, then what a new connection reads
        self.everything(self.conn, self.models, 'at the end: ', case['final'])
        self.tm.abort()
        self.conn.cacheMinimize()
        self.everything(self.conn, base, 'all unloaded: ', case['final'])
        self.conn.close()
        if reader:
            reader[1].abort()
            reader[0].close()
        if self.d.path:
            self.d.restart()
        conn, tm = self.d.open()
        conn.cacheMinimize()
        self.everything(conn, base, 'new connection: ', case['final'])
        tm.abort()
        conn.close()
        if self.d.path:
            self.cuts(commits)

    def counts(self, what):
        # the counts, and what was asked lately once more
        for k, p in self.asked[::2] if self.turn else self.asked[1::2]:
            self.kinds[k].judge(self.reals[k], self.models[k], p, self.mon,
                                what + 'asked again: ')
            self.mon.count('asked again')
        self.turn = not self.turn
        for k, kd in enumerate(self.kinds):
            kd.judge_counts(self.reals[k], self.models[k], self.mon, what)

    def cuts(self, commits):
        first, last = commits[0][0], commits[-1][0]
        for x in self.case['cuts']:
            n = first + int(x * (last - first + 1))
            ms = [m for size, m in commits if size <= n][-1]
            db, d = self.d.truncated(n)
            try:
                conn = db.open()
                self.everything(conn, ms, f'file cut at {n} of {last} bytes: ')
                conn.close()
            finally:
                db.close()
                shutil.rmtree(d, ignore_errors=True)
            self.mon.count('cut file')


PROP = C20()
