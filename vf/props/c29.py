import sys

from ZODB.serialize import referencesf
from ZODB.utils import get_pickle_metadata

from vf import core
from vf import zdb
from vf.kinds import ALL
from vf.kinds import KINDS


UNDER_TEST = '/zope/index/'


def make_faults():
    from ZODB.POSException import ReadConflictError
    from ZODB.POSException import StorageError

    class Gone(StorageError):
        """The storage server cannot be reached."""

    class Stale(ReadConflictError):
        """The object cannot be read in this transaction."""

        def __init__(self):
            ReadConflictError.__init__(self, 'injected', oid=b'\0' * 8)
    return {'gone': Gone, 'stale': Stale}


class Faulty:
    """Counts the loads (stores) of a connection and makes the n-th fail.

    The set operations of BTrees swallow an error met while they load a leaf
    of a tree (a defect of that library, not of this package), so the leaves
    of trees of document ids are always loaded."""

    def __init__(self, conn):
        self.conn = conn
        self.st = conn._storage
        self.real = {'load': self.st.load, 'store': self.st.store}
        self.what = None
        for name in self.real:
            setattr(self.st, name, self.wrapped(name))
        self.calls = {'load': 0, 'store': 0}
        self.left, self.fired = None, False
        self.leaves = set()

    def follow(self, data):
        """Remember the leaves which this record refers to."""
        mod, cls = get_pickle_metadata(data)
        if mod not in ('BTrees.IFBTree', 'BTrees.LFBTree'):
            return
        leaf = mod[7:9] + ('Set' if cls.endswith('Set') else 'Bucket')
        for oid in referencesf(data):
            if oid not in self.leaves and get_pickle_metadata(
                    self.real['load'](oid)[0]) == (mod, leaf):
                self.leaves.add(oid)

    def wrapped(self, name):
        fn = self.real[name]

        def call(*args, **kw):
            self.calls[name] += 1
            if name == 'load':
                if args[0] not in self.leaves and self.what == name \
                        and self.left is not None:
                    if self.left == 0:
                        raise self.fail()
                    self.left -= 1
                r = fn(*args, **kw)
                self.follow(r[0])
                return r
            if self.what == name and self.left is not None:
                if self.left == 0:
                    raise self.fail()
                self.left -= 1
            return fn(*args, **kw)
        return call

    def fail(self):
        self.fired = True
        if self.once:
            self.left = None
        return self.exc()

    def arm(self, what, n, exc, once, evict=False):
        if evict:
            sys.setprofile(self.minimize)
        self.what, self.left, self.exc, self.fired = what, n, exc, False
        self.once = once

    def disarm(self):
        self.left = None
        sys.setprofile(None)

    def minimize(self, frame, event, arg):
        """After each call in the code under test, everything it has used
        so far is dropped and has to be loaded again."""
        if event == 'c_return' and UNDER_TEST in frame.f_code.co_filename:
            self.conn.cacheMinimize()


class C29(core.Prop):
    ID = 'C29'
    RULE = ('committed indexes in a database whose n-th load during an '
            'operation or a query, or n-th store during a commit, fails (once '
            'or from then on); non-trivial when a failure reached a call that '
            'had to return documents or change the index')
    FILES = ('field/index.py', 'field/sorting.py', 'keyword/index.py',
             'topic/index.py', 'topic/filter.py', 'text/baseindex.py',
             'text/okapiindex.py', 'text/cosineindex.py', 'text/lexicon.py',
             'text/textindex.py')
    QUICK, THOROUGH = 1500, 40000
    SHRINK = ('trials', 'before')
    REQUIRE = {'load failed in a query': 1000,
               'load failed in a query, again': 300,
               'load failed in a weight': 100, 'load failed in an operation':
               1000, 'store failed': 200, 'rolled back': 100}

    def generate(self, rng, i, tier):
        kind = KINDS[rng.choice(ALL)]
        cfg = kind.config(rng, tier)
        m = kind.model(cfg)
        before = kind.gen_ops(rng, cfg, rng.choice([2, 6, 15, 40, 80]), m)
        trials = []
        for _ in range(rng.choice([3, 6, 10])):
            ns = sorted(rng.sample(range(12), 3)) if rng.random() < .5 \
                else [0, 1, 2, 3, 4, 5]
            exc = rng.choice(['gone', 'gone', 'stale']), rng.random() < .4
            if rng.random() < .5:
                p = kind.gen_probe(rng, cfg, m)
                if kind.name in ('okapi', 'cosine') and rng.random() < .2:
                    p = ('weight', [kind.word(rng, cfg)
                                    for _ in range(rng.randint(1, 3))])
                evict = rng.random() < .4
                if evict:
                    ns = sorted(rng.sample(range(40), 6))
                trials.append(('q', p, ns, exc, evict))
            else:
                op = kind.gen_ops(rng, cfg, 1, m)[0]
                trials.append(('op', op, ns, exc, rng.choice(
                    ['load', 'load', 'load', 'store']), rng.random() < .3))
        return {'cfg': cfg, 'before': before, 'trials': trials,
                'probes': kind.gen_probes(rng, cfg, m, 4)}

    def execute(self, case, mon):
        d = zdb.Database('map')
        try:
            self.run(case, mon, d)
        finally:
            d.close()

    def run(self, case, mon, d):
        faults = make_faults()
        cfg = case['cfg']
        kind = KINDS[cfg['kind']]
        m = kind.model(cfg)
        conn, tm = d.open()
        real = kind.make(cfg)
        for op in case['before']:
            kind.apply(real, op, cfg)
            kind.apply_model(m, op, cfg)
        zdb.store(conn, 'k', real)
        tm.commit()
        real = zdb.load(conn, 'k', kind, cfg)
        f = Faulty(conn)

        def judge(models, what):
            kind.judge_counts(real, models, mon, what)
            for p in case['probes']:
                kind.judge(real, models, p, mon, what)

        for n, t in enumerate(case['trials']):
            exc, once = faults[t[3][0]], t[3][1]
            what = f'trial {n} {t!r:.150}: '
            if t[0] == 'q':
                for k in t[2]:
                    conn.cacheMinimize()
                    f.arm('load', k, exc, once, t[4])
                    try:
                        got = kind.observe(real, t[1], m)
                    except Exception:
                        f.disarm()
                        if not f.fired:
                            raise
                    else:
                        f.disarm()
                        # not reached, or the answer is right all the same
                        exp = kind.expect(m, t[1])
                        mon.eq(got, exp, what + f'with load {k} '
                               + ('failing' if f.fired else 'not failing'))
                    if not f.fired:
                        break
                    mon.count('load failed in a query')
                    if t[4]:
                        mon.count('load failed in a query, again')
                    if t[1][0] == 'weight':
                        mon.count('load failed in a weight')
                    mon.check(not conn._registered_objects,
                              what + 'a failed query changed an object')
                    # the same question, in the same transaction
                    exp = kind.judge(real, m, t[1], mon, what + 'asked again: ')
                    if exp:
                        mon.nontrivial = True
                tm.abort()
                continue
            _, op, ns, _, where, sp = t
            after = m.copy()
            kind.apply_model(after, op, cfg)
            for k in ns:
                conn.cacheMinimize()
                save = tm.savepoint() if sp else None
                if where == 'load':
                    f.arm('load', k, exc, once)
                    try:
                        kind.apply(real, op, cfg)
                    except Exception:
                        f.disarm()
                        if not f.fired:
                            raise
                        mon.nontrivial = True
                        mon.count('load failed in an operation')
                    else:
                        f.disarm()
                        judge(after, what + f'with load {k} ' + (
                            'failing: ' if f.fired else 'not failing: '))
                else:
                    kind.apply(real, op, cfg)
                    if sp:
                        save = None
                    f.arm('store', k, exc, once)
                    try:
                        tm.commit()
                    except exc:
                        f.disarm()
                        mon.nontrivial = True
                        mon.count('store failed')
                    else:
                        f.disarm()
                        m = after
                        judge(m, what + 'committed: ')
                        break
                if save is not None:
                    save.rollback()
                    mon.count('rolled back')
                else:
                    tm.abort()
                judge(m, what + 'undone: ')
                if not f.fired:
                    break
            if m is not after:
                kind.apply(real, op, cfg)
                m = after
                tm.commit()
            judge(m, what + 'tried again: ')
        conn.cacheMinimize()
        judge(m, 'at the end: ')
        tm.abort()
        conn.close()


PROP = C29()
