from vf import models
from vf.hist import HistProp


class C11(HistProp):
    ID = 'C11'
    RULE = ('a random history on a text index, then queries without globs, '
            'many with repeated terms; non-trivial when a score reached half '
            'of its bound')
    USE = ('okapi', 'cosine')
    FILES = ('text/okapiindex.py', 'text/cosineindex.py', 'text/textindex.py')
    QUICK, THOROUGH = 5500, 137500
    PROBE_P = .1
    FINAL = (6, 16)
    REQUIRE = {'scores bounded': 2000, 'repeated terms': 200,
               'score above half of the bound': 200}

    def cfg(self, rng, kind, tier):
        cfg = kind.config(rng, tier)
        cfg['variant'] = rng.choice([None, None, 'pure'])
        return cfg

    def probe(self, rng, kind, cfg, m):
        r = rng.random()
        if r < .5:
            q = kind.gen_query(rng, cfg, m, globs=False)
            if rng.random() < .4:
                q = f'({q}) {rng.choice(["AND", "OR"])} ({q})'
            return ('q', q)
        ws = [kind.word(rng, cfg) for _ in range(rng.choice([1, 2, 3, 5]))]
        if rng.random() < .5:
            ws = [rng.choice(ws) for _ in range(len(ws) + 2)]
        if rng.random() < .3 and m.docs:
            ws = list(rng.choice(list(m.docs.values())))[:30]
        return ('terms', ws)

    def judge(self, kind, real, m, p, mon, what):
        if p[0] == 'q':
            from zope.index.text.parsetree import ParseError
            try:
                r = dict(real.ix.apply(p[1]).items())
            except ParseError:
                mon.count('ParseError')
                return
            bound = 1.0
            try:
                terms = models.tree_terms(m.parse(p[1]))
                ws = [w for t in terms for w in m.pipe(t)]
            except models.PErr:
                ws = []
        else:
            ws = p[1]
            r = {}
            for w in ws:
                x = real.raw.search(w)
                for d, s in (x.items() if x else ()):
                    r[d] = r.get(d, 0.0) + s
            bound = real.raw.query_weight(ws)
        if len(set(ws)) < len(ws):
            mon.count('repeated terms')
        for d, s in r.items():
            mon.check(s <= bound * (1 + 2e-5) + 1e-6, lambda:
                      f'{what}{kind.name} {p!r}: document {d} scores {s}, above '
                      f'the bound {bound}')
            mon.check(s > 0, lambda: f'{what}{kind.name} {p!r}: document {d} '
                      f'scores {s}')
            mon.count('scores bounded')
            if s > bound / 2:
                mon.count('score above half of the bound')
                mon.nontrivial = True


PROP = C11()
