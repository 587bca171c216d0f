from vf.hist import HistProp
from vf.kinds import EXPRS, OWN


class C04(HistProp):
    ID = 'C04'
    RULE = ('a random history of filter and document operations on a topic '
            'index, the documents being objects whose attributes may raise; '
            'non-trivial when a search had to return at least one document')
    USE = ('topic',)
    FILES = ('topic/index.py', 'topic/filter.py')
    QUICK, THOROUGH = 20000, 500000
    REQUIRE = {'op sete': 200, 'nonempty top': 100, 'op clearf': 20, 'op delf': 20, 'op u': 50}

    def cfg(self, rng, kind, tier):
        cfg = kind.config(rng, tier)
        cfg['sete'] = rng.random() < .4
        return cfg

    def finish(self, kind, cfg, real, m, case, mon):
        for fid in m.filters:
            self.judge(kind, real, m, ('top', [fid], 'and', 'search', 'list'),
                       mon, 'every filter: ')
            f = real.filters[fid]
            mon.eq([int(x) for x in f.getIds()], sorted(m.filters[fid][1]),
                   f'getIds of {fid!r}')
            mon.eq(f.getId(), fid, 'getId')
            mon.check(f.getExpression() in [e for e, _ in EXPRS], 'getExpression')
        names = list(m.filters)
        for op in ('and', 'or'):
            self.judge(kind, real, m, ('top', names, op, 'dictop', 'tuple'),
                       mon, 'all filters: ')
            self.judge(kind, real, m, ('top', ['no', 'such'], op, 'search',
                                       'list'), mon, 'unknown: ')
        if len(case['steps']) % 4 == 0:
            ix = real.ix
            for bad in ('xor', 'AND', '', None):
                mon.raises(TypeError, lambda: ix.search(names, bad),
                           f'operator {bad!r}')
            for bad in (5, None, {'f1'}, frozenset(['f1']), iter(['f1'])):
                mon.raises(TypeError, lambda: ix.search(bad), f'query {bad!r}')
                mon.raises(TypeError, lambda: ix.apply({'query': bad}),
                           f'query {bad!r}')
            # one query object, applied again and again
            q = {'query': names, 'operator': 'or'}
            for _ in range(3):
                mon.eq([int(x) for x in ix.apply(q)], m.search(names, 'or'),
                       f'apply of one query object {q!r}')
            mon.count('malformed calls')
        names = [f for f in names if m.filters[f][0] not in OWN]
        if names:
            # a changed expression counts from the next (re)index on
            fid = names[0]
            f = real.filters[fid]
            d, obj = cfg['pool'][0], {'a': 3, 'tag': 'x', 'tags': ['y']}
            for k in (1, 12, 0):
                f.setExpression(EXPRS[k][0])
                m.filters[fid][0] = EXPRS[k][1]
                kind.apply(real, ('i', d, obj))
                kind.apply_model(m, ('i', d, obj))
                self.judge(kind, real, m,
                           ('top', [fid], 'or', 'search', 'list'), mon,
                           f'after setExpression({EXPRS[k][0]!r}): ')
            mon.count('setExpression')


PROP = C04()
