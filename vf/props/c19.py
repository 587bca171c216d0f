from vf import core
from vf.kinds import FAM_RANGE, family


class C19(core.Prop):
    ID = 'C19'
    RULE = ('random weighted mappings (buckets and trees, overlapping, '
            'disjoint, empty) combined in several orders; non-trivial with '
            'three or more mappings and a non-empty result')
    FILES = ('text/setops.py', 'nbest.py')
    QUICK, THOROUGH = 24000, 600000
    SHRINK = ('maps',)
    REQUIRE = {'unions': 2000, 'intersections': 2000,
               'non-empty intersections of 3+': 200, 'None inputs': 100,
               'a mapping given twice': 200}

    def generate(self, rng, i, tier):
        fam = rng.choice([32, 64])
        lo, hi = FAM_RANGE[fam]
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 10])
        if rng.random() < .01:
            n = rng.choice([33, 70, 130, 260])
        ids = rng.choice([list(range(6)), list(range(-20, 40)),
                          [lo, lo + 1, -1, 0, 1, hi - 1, hi],
                          list(range(200))])
        maps = []
        for _ in range(n):
            p = rng.choice([0, .1, .5, .9, 1])
            d = [(k, rng.choice([0.0, 1.0, 0.5, 3.25, 1e-3, 1e6,
                                 rng.random() * 10]))
                 for k in ids if rng.random() < p]
            w = rng.choice([1, 1, 1, 0, 2, 0.5, 1.0, 7.25, 0.001, -1, -2.5])
            if maps and rng.random() < .15:
                # the very same mapping once more
                maps.append((rng.randrange(len(maps)),
                             rng.choice([w, maps[-1][1]]), 'same'))
                continue
            maps.append((d, w, rng.choice(['Bucket', 'BTree'])))
        return {'family': fam, 'maps': maps, 'none': rng.random() < .15,
                'seed': rng.randrange(10 ** 6)}

    def execute(self, case, mon):
        import random

        from zope.index.text.setops import mass_weightedIntersection
        from zope.index.text.setops import mass_weightedUnion
        fam = family(case['family'])
        spec, L = [], []
        for d, w, c in case['maps']:
            if c == 'same':
                d = min(d, len(spec) - 1)
                if d < 0:
                    continue
                spec.append((spec[d][0], w, c))
                L.append((L[d][0], w))
                mon.count('a mapping given twice')
            else:
                spec.append((dict(d), w, c))
                L.append((getattr(fam.IF, c)(dict(d)), w))
        before = [dict(x.items()) for x, w in L]
        keys = [set(d) for d, w, c in spec]
        union = set().union(*keys)
        inter = set(keys[0]).intersection(*keys) if keys else set()
        rng = random.Random(case['seed'])
        for rnd in range(3):
            order = list(range(len(L)))
            if rnd:
                rng.shuffle(order)
            Lo = [L[k] for k in order]
            given = list(Lo)
            self.compare(mon, mass_weightedUnion(given, fam), union, spec,
                         f'union in order {order}')
            self.untouched(mon, given, Lo)
            if case['none']:
                Lo.insert(rng.randint(0, len(Lo)), (None, 1))
                mon.count('None inputs')
            given = list(Lo)
            self.compare(mon, mass_weightedIntersection(given, fam), inter,
                         spec, f'intersection in order {order}')
            self.untouched(mon, given, Lo)
            mon.eq([dict(x.items()) for x, w in L], before, 'inputs changed')
        mon.count('unions')
        mon.count('intersections')
        if case['family'] == 32:
            self.compare(mon, mass_weightedUnion(list(L)), union, spec,
                         'union, default family')
            self.compare(mon, mass_weightedIntersection(list(L)), inter, spec,
                         'intersection, default family')
        if len(L) > 2 and inter:
            mon.count('non-empty intersections of 3+')
        mon.nontrivial = len(L) > 2 and bool(union)

    def untouched(self, mon, given, was):
        mon.check(len(given) == len(was) and all(
            x is y for x, y in zip(given, was)), 'the list passed in changed')

    def compare(self, mon, got, ids, spec, what):
        got = dict(got.items())
        mon.eq(sorted(got), sorted(ids), what + ': documents')
        for d, s in got.items():
            terms = [w * m[d] for m, w, c in spec if d in m]
            tol = 4e-7 * (len(spec) + 1) * sum(map(abs, terms)) + 1e-12
            mon.check(abs(s - sum(terms)) <= tol,
                      f'{what}: document {d} scores {s}, not {sum(terms)}')


PROP = C19()
