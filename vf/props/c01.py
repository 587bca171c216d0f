from vf.hist import HistProp
from vf.kinds import KINDS


class C01(HistProp):
    ID = 'C01'
    RULE = ('a random history of index/reindex/unindex/clear/bulk operations '
            'over one value type and id regime; non-trivial when a range '
            'search had to return at least one document')
    USE = ('field',)
    WHICH = 'range'
    FILES = ('field/index.py',)
    QUICK, THOROUGH = 24000, 600000
    PROBE_P = .3
    REQUIRE = {'nonempty range': 100, 'op u': 100, 'op c': 5}

    def finish(self, kind, cfg, real, m, case, mon):
        vals = list(m.docs.values())
        # every current value finds exactly its documents; half-open ranges
        for v in vals[:6]:
            for p in (('range', v, v), ('range', v, None), ('range', None, v)):
                self.judge(kind, real, m, p, mon, 'at the end: ')
        self.judge(kind, real, m, ('range', None, None), mon, 'all: ')
        if len(case['steps']) % 4 == 0:
            v = KINDS['field'].value
            import random
            x = v(random.Random(1), cfg)
            for bad in ([x, x], (x,), (x, x, x), (), {x: 1, None: 2}, 'ab',
                        None, 5, [None, None]):
                mon.raises(TypeError, lambda: real.ix.apply(bad),
                           f'apply({bad!r})')
            mon.count('malformed queries')


PROP = C01()
