import pickle

from vf.hist import HistProp
from vf.kinds import ALL


class C31(HistProp):
    ID = 'C31'
    RULE = ('a random history with queries, and moves through a pickle, on an '
            'index of any type in an interpreter whose BTrees, persistent and '
            'zope.interface libraries run in pure Python; judged by the same '
            'model as with the compiled ones; non-trivial when an answer was '
            'not empty')
    USE = tuple(ALL)
    NATIVE = False
    COUNTS = True
    FILES = ('field/index.py', 'field/sorting.py', 'keyword/index.py',
             'topic/index.py', 'topic/filter.py', 'text/baseindex.py',
             'text/okapiindex.py', 'text/cosineindex.py', 'text/lexicon.py',
             'text/setops.py', 'text/parsetree.py', 'text/textindex.py')
    QUICK, THOROUGH = 4500, 120000
    REQUIRE = {'kind ' + k: 300 for k in ALL}
    REQUIRE.update({'pickled': 300, 'nonempty range': 500, 'nonempty sort': 500,
                    'nonempty kw': 1000, 'nonempty top': 500,
                    'nonempty q': 2000})

    def generate(self, rng, i, tier):
        case = super().generate(rng, i, tier)
        case['pickle'] = rng.random() < .3
        return case

    def execute(self, case, mon):
        import BTrees.IFBTree
        import BTrees.LOBTree
        import persistent
        from zope.index.text import okapiindex
        pure = (BTrees.IFBTree.IFBTree is BTrees.IFBTree.IFBTreePy
                and BTrees.LOBTree.LOTreeSet is BTrees.LOBTree.LOTreeSetPy
                and persistent.Persistent.__module__ == 'persistent.persistence')
        assert pure, 'set PURE_PYTHON=1 (bin/check does it)'
        mon.eq(okapiindex.score, None, 'the compiled scorer with PURE_PYTHON')
        super().execute(case, mon)

    def finish(self, kind, cfg, real, m, case, mon):
        if not case['pickle']:
            return
        real = kind.wrap(cfg, pickle.loads(pickle.dumps(real.roots)))
        mon.count('pickled')
        for p in case['final']:
            self.judge(kind, real, m, p, mon, 'after pickling: ')
        for step in case['steps'][-6:]:
            if step[0] in 'iu':
                kind.apply(real, step, cfg)
                kind.apply_model(m, step, cfg)
                kind.judge_counts(real, m, mon,
                                  f'after pickling and {step!r:.200}: ')
        for p in case['final']:
            self.judge(kind, real, m, p, mon, 'pickled and changed: ')


PROP = C31()
