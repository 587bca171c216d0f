from vf import variants
from vf.hist import HistProp

VARIANTS = ('counted', 'pure', 'missing')


class C12(HistProp):
    ID = 'C12'
    RULE = ('the same random history and queries on three Okapi indexes: '
            'compiled scorer, PURE_PYTHON, extension absent; non-trivial when '
            'a query returned two or more scored documents')
    USE = ('okapi',)
    FILES = ('text/okapiindex.py',)
    QUICK, THOROUGH = 4000, 100000
    FINAL = (4, 12)
    REQUIRE = {'comparisons': 2000, 'scores compared': 2000}

    def execute(self, case, mon):
        from vf.kinds import KINDS
        kind = KINDS['okapi']
        before = variants.CALLS[0]
        twins = []
        for v in VARIANTS:
            cfg = dict(case['cfg'], variant=v)
            twins.append(kind.make(cfg))
        m = kind.model(case['cfg'])
        steps = case['steps'] + [('?', p) for p in case['final']]
        for k, step in enumerate(steps):
            if step[0] == '?':
                self.compare(kind, twins, m, step[1], mon, f'step {k}: ')
                continue
            for t in twins:
                kind.apply(t, step, cfg)
            kind.apply_model(m, step, cfg)
            mon.count('op ' + step[0])
        for w in list(m.stats()[0])[:8]:
            self.compare(kind, twins, m, ('search', w), mon, 'every word: ')
        mon.count('calls of the compiled scorer', variants.CALLS[0] - before)

    def compare(self, kind, twins, m, p, mon, what):
        res = [kind.observe(t, p, m) for t in twins]
        for v, r in zip(VARIANTS[1:], res[1:]):
            mon.eq(r, res[0], f'{what}{p!r}: {v} versus compiled')
        mon.count('comparisons')
        if isinstance(res[0], dict):
            n = len(res[0].get('relative', res[0]))
            mon.count('scores compared', n)
            mon.nontrivial = mon.nontrivial or n > 1


PROP = C12()
