from vf.hist import HistProp


class Scores(HistProp):
    """Raw scores, query weights and normalized scores after a history."""
    PROBE_P = .15
    FINAL = (6, 14)
    VARIANTS = (None,)

    def cfg(self, rng, kind, tier):
        cfg = kind.config(rng, tier)
        cfg['variant'] = rng.choice(self.VARIANTS)
        return cfg

    def probe(self, rng, kind, cfg, m):
        p = kind.gen_probe(rng, cfg, m,
                           which=rng.choice(['q', 'raw', 'raw', None]))
        return p

    def judge(self, kind, real, m, p, mon, what):
        exp = kind.judge(real, m, p, mon, what)
        mon.count('probe ' + p[0])
        if isinstance(exp, dict) and exp:
            n = len(exp.get('relative', exp))
            mon.count('scores compared', n)
            mon.nontrivial = mon.nontrivial or n > 1

    def finish(self, kind, cfg, real, m, case, mon):
        freq = m.stats()[0]
        for w in list(freq)[:10]:
            self.judge(kind, real, m, ('search', w), mon, 'every word: ')
            self.judge(kind, real, m, ('weight', [w, w]), mon, 'weight: ')
        mon.count('variant ' + str(cfg.get('variant')))


class C09(Scores):
    ID = 'C09'
    RULE = ('a random history on an Okapi text index (compiled and Python '
            'scorer), then term, phrase, glob and boolean queries; '
            'non-trivial when a query had to score two or more documents')
    USE = ('okapi',)
    VARIANTS = (None, None, 'pure', 'missing')
    FILES = ('text/okapiindex.py', 'text/baseindex.py', 'text/textindex.py')
    QUICK, THOROUGH = 4500, 112500
    REQUIRE = {'scores compared': 2000, 'op c': 20, 'op u': 100,
               'variant pure': 100}


PROP = C09()
