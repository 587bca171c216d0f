from vf import core
from vf.kinds import ALL
from vf.kinds import FAM_RANGE
from vf.kinds import KINDS


class C26(core.Prop):
    ID = 'C26'
    RULE = ('one random history over ids that both families have is run on an '
            'index of each family; another over boundary ids of one family; '
            'non-trivial when an answer was not empty')
    FILES = ('field/index.py', 'keyword/index.py', 'topic/index.py',
             'topic/filter.py', 'text/baseindex.py', 'text/okapiindex.py',
             'text/cosineindex.py', 'text/setops.py', 'text/parsetree.py')
    QUICK, THOROUGH = 6000, 150000
    SHRINK = ('steps', 'probes')
    REQUIRE = {'both families': 1000, 'boundary ids': 1000,
               'nonempty': 3000}

    def generate(self, rng, i, tier):
        kind = KINDS[rng.choice(ALL)]
        both = rng.random() < .5
        cfg = kind.config(rng, tier, common=both)
        if not both:
            lo, hi = FAM_RANGE[cfg['family']]
            ids = {lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, 0, 1, -1}
            ids |= {s * 2 ** e + x for e in (15, 16, 30, 31, 32, 33, 52, 53, 62)
                    for s in (1, -1) for x in (0, 1)
                    if lo <= s * 2 ** e + x <= hi}
            cfg['pool'] = rng.sample(sorted(ids), rng.randint(4, min(14, len(ids))))
        m = kind.model(cfg)
        steps = []
        for _ in range(rng.choice([4, 10, 25])):
            steps += kind.gen_ops(rng, cfg, 1, m)
            if rng.random() < .3:
                steps.append(('?', kind.gen_probe(rng, cfg, m)))
        return {'cfg': cfg, 'both': both, 'steps': steps,
                'probes': kind.gen_probes(rng, cfg, m, 6)}

    def execute(self, case, mon):
        cfg = case['cfg']
        kind = KINDS[cfg['kind']]
        fams = [32, 64] if case['both'] else [cfg['family']]
        reals = [(f, kind.make(cfg, fam=f)) for f in fams]
        m = kind.model(cfg)
        for step in case['steps'] + [('?', p) for p in case['probes']]:
            if step[0] != '?':
                kind.apply_model(m, step, cfg)
            seen = []
            for f, real in reals:
                if step[0] != '?':
                    kind.apply(real, step, cfg)
                    kind.judge_counts(real, m, mon, f'family {f}: ')
                    continue
                exp = kind.judge(real, m, step[1], mon, f'family {f}: ')
                if exp and exp != 'ParseError':
                    mon.nontrivial = True
                    mon.count('nonempty')
                seen.append(kind.observe(real, step[1], m))
            if len(seen) == 2:
                mon.eq(seen[0], seen[1], f'32 and 64 bit family: {step!r:.200}')
        # each remaining document on its own
        if hasattr(m, 'docs'):
            for f, real in reals:
                mm = m.copy()
                for d in sorted(m.docs)[:40]:
                    self.find(kind, real, mm, d, mon, f)
                    real.ix.unindex_doc(d)
                    mm.unindex(d)
                    kind.judge_counts(real, mm, mon,
                                      f'family {f}, {d} removed: ')
        mon.count('both families' if case['both'] else 'boundary ids')
        mon.count('kind ' + kind.name)

    def find(self, kind, real, m, d, mon, f):
        v = m.docs[d]
        what = f'family {f}, document {d}: '
        if kind.name == 'field':
            kind.judge(real, m, ('range', v, v), mon, what)
            for rev in (False, True):
                kind.judge(real, m, ('sort', [d], rev, None, 'list'), mon, what)
                kind.judge(real, m, ('sort', sorted(m.docs), rev, 3, 'ifset'),
                           mon, what)
        elif kind.name in ('keyword', 'keyword_ci'):
            kind.judge(real, m, ('kw', sorted(v, key=repr)[:3], 'and', 'search',
                                 'list'), mon, what)
            kind.judge(real, m, ('has', d), mon, what)
        else:
            kind.judge(real, m, ('has', d), mon, what)
            for w in list(v)[:2]:
                kind.judge(real, m, ('search', w), mon, what)
            if len(v) > 1:
                kind.judge(real, m, ('phrase', list(v[:3])), mon, what)


PROP = C26()
