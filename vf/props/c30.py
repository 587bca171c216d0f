"""Several indexes over the same documents, queried as a catalog does."""
from vf import core
from vf import models
from vf import zdb
from vf.kinds import KINDS
from vf.kinds import family

CHOICE = ['field', 'field', 'keyword', 'keyword_ci', 'topic', 'okapi',
          'okapi', 'cosine']
SIMPLE = {'field': ('i', 'u', 'c', 'fill', 'drain'),
          'keyword': ('i', 'u', 'o', 't', 'c', 'fill', 'drain'),
          'topic': ('addf', 'i', 'u', 'clearf', 'delf', 'fill'),
          'okapi': ('i', 'u', 'c', 'fill', 'drain'),
          'cosine': ('i', 'u', 'c', 'fill', 'drain')}


def raw_result(kind, real, p):
    """The result object itself of one search of one index."""
    ix = real.ix
    if p[0] == 'range':
        return ix.apply((p[1], p[2]))
    if p[0] in ('kw', 'top'):
        q = list(p[1])
        return ix.search(q, p[2]) if p[2] else ix.apply({'query': q})
    if p[0] == 'q':
        from zope.index.text.parsetree import ParseError
        try:
            return ix.apply(p[1])
        except ParseError:
            return None
    if p[0] == 'search':
        return real.raw.search(list(p[1]) if isinstance(p[1], list) else p[1])
    if p[0] == 'phrase':
        return real.raw.search_phrase(
            list(p[1]) if isinstance(p[1], list) else p[1])
    if p[0] == 'glob':
        return real.raw.search_glob(p[1])
    raise AssertionError(p)


def model_result(kind, m, p):
    """-> None, a set of ids or a dict of scores (None score: not judged)"""
    if p[0] == 'q':
        r = m.apply(p[1])
        if r[0] != 'ok':
            return None
        if models.tree_has_glob(r[2]):
            return dict.fromkeys(r[1])
        return dict(r[1])
    r = kind.expect(m, p)
    if r is None:
        return None
    return dict(r) if isinstance(r, dict) else set(r)


SEARCH = {'field': ('range',), 'keyword': ('kw',), 'keyword_ci': ('kw',),
          'topic': ('top',), 'okapi': ('q', 'search', 'phrase', 'glob'),
          'cosine': ('q', 'search', 'phrase', 'glob')}


class C30(core.Prop):
    ID = 'C30'
    RULE = ('two to five indexes of any types and one id family over the same '
            'documents, a random history (in half of the cases committed and '
            'unloaded), then random expressions of and/or/not over their '
            'searches, ranked and sorted; non-trivial when a combination of '
            'two results was not empty')
    FILES = ('field/index.py', 'field/sorting.py', 'keyword/index.py',
             'topic/index.py', 'text/baseindex.py', 'text/setops.py',
             'text/parsetree.py', 'text/textindex.py')
    QUICK, THOROUGH = 5000, 125000
    SHRINK = ('steps', 'queries')
    REQUIRE = {'combined nonempty': 2000, 'results examined': 15000,
               'combinations sorted': 1500, 'score pages': 1000,
               'weighted combinations': 500, 'unusable result': 100}

    def generate(self, rng, i, tier):
        names = [rng.choice(CHOICE) for _ in range(rng.randint(2, 5))]
        if rng.random() < .7 and 'field' not in names:
            names[0] = 'field'
        cfgs = [KINDS[n].config(rng, tier) for n in names]
        base = cfgs[0]
        for c in cfgs[1:]:
            c['family'], c['pool'] = base['family'], base['pool']
            c['implicit'] = c['implicit'] and base['family'] == 32
        ms = [KINDS[c['kind']].model(c) for c in cfgs]
        steps = []
        for _ in range(rng.choice([6, 20, 40])):
            if rng.random() < .4:
                # the same document in all indexes
                d = rng.choice(base['pool'])
                for k, c in enumerate(cfgs):
                    self.step(rng, steps, k, c, ms[k], d)
            else:
                k = rng.randrange(len(cfgs))
                self.step(rng, steps, k, cfgs[k], ms[k], None)
        queries = []
        for _ in range(rng.randint(3, 8)):
            queries.append([self.expr(rng, cfgs, ms, rng.choice([1, 1, 2, 3])),
                            rng.random() < .5, rng.choice(
                                [None, 1, 2, 5, 20, 10 ** 5]),
                            rng.randint(1, 8)])
        return {'cfgs': cfgs, 'steps': steps, 'queries': queries,
                'db': rng.random() < .5}

    def step(self, rng, steps, k, cfg, m, docid):
        kind = KINDS[cfg['kind']]
        op = kind.gen_op(rng, cfg, m)
        if docid is not None:
            for _ in range(8):
                if op[0] == 'i':
                    op = ('i', docid, *op[2:])
                    break
                if op[0] == 'addf':
                    break
                op = kind.gen_op(rng, cfg, m)
        kind.apply_model(m, op, cfg)
        steps.append((k, op))

    def expr(self, rng, cfgs, ms, depth):
        if depth == 0 or rng.random() < .1:
            k = rng.randrange(len(cfgs))
            kind = KINDS[cfgs[k]['kind']]
            want = SEARCH[kind.name]
            if kind.name in ('okapi', 'cosine') and rng.random() < .12 \
                    and cfgs[k]['pipeline'] != 'none':
                return ('leaf', k, rng.choice(
                    [('search', 'the'), ('q', 'The of'), ('q', '-foo'),
                     ('search', '--'), ('q', '"and" or the')]))
            while True:
                p = kind.gen_probe(rng, cfgs[k], ms[k],
                                   which=rng.choice(['q', 'raw'])
                                   if kind.name in ('okapi', 'cosine')
                                   else 'range' if kind.name == 'field'
                                   else 'search')
                if p[0] in want:
                    return ('leaf', k, p)
        op = rng.choice(['and', 'and', 'or', 'or', 'not', 'many', 'wand',
                         'wor'])
        n = rng.randint(2, 4) if op == 'many' else 2
        return (op, [self.expr(rng, cfgs, ms, depth - 1) for _ in range(n)],
                rng.choice([1, 1, 2, 0.5]))

    def execute(self, case, mon):
        cfgs = case['cfgs']
        kinds = [KINDS[c['kind']] for c in cfgs]
        reals = [k.make(c) for k, c in zip(kinds, cfgs)]
        ms = [k.model(c) for k, c in zip(kinds, cfgs)]
        for j, op in case['steps']:
            kinds[j].apply(reals[j], op, cfgs[j])
            kinds[j].apply_model(ms[j], op, cfgs[j])
        d = None
        try:
            if case['db']:
                d = zdb.Database('map')
                conn, tm = d.open()
                for j, r in enumerate(reals):
                    zdb.store(conn, f'k{j}', r)
                tm.commit()
                conn.cacheMinimize()
                reals = [zdb.load(conn, f'k{j}', kinds[j], cfgs[j])
                         for j in range(len(cfgs))]
            self.judge(case, cfgs, kinds, reals, ms, mon)
        finally:
            if d:
                tm.abort()
                d.close()

    def judge(self, case, cfgs, kinds, reals, ms, mon):
        fam = family(cfgs[0]['family'])
        for expr, reverse, limit, top in case['queries']:
            leaves = []
            got = self.run(expr, fam, kinds, reals, ms, mon, leaves)
            exp = self.denote(expr, kinds, ms)
            if exp is None:
                mon.check(got is None, f'{expr!r:.300} gave {got!r:.200}, '
                          'expected no restriction')
                mon.count('unusable result')
                continue
            ids = list(got)
            mon.eq(ids, sorted(exp), f'documents of {expr!r:.400}')
            if isinstance(exp, dict):
                self.scores(got, exp, top, expr, mon)
            if ids and expr[0] != 'leaf':
                mon.nontrivial = True
                mon.count('combined nonempty')
            for j, kind in enumerate(kinds):
                if kind.name != 'field':
                    continue
                want = ms[j].sorted(ids, reverse)
                if limit is not None:
                    want = want[:limit]
                have = list(reals[j].ix.sort(got, reverse=reverse,
                                             limit=limit))
                if reverse:
                    have = kind.reverse_view(ms[j], have, ids)
                    want = kind.reverse_view(ms[j], want, ids)
                mon.eq(have, want, f'{expr!r:.300} sorted by index {j}, '
                       f'reverse={reverse}, limit={limit}')
                mon.count('combinations sorted')
        # sorting and combining changed nothing
        for j, kind in enumerate(kinds):
            kind.judge_counts(reals[j], ms[j], mon, 'afterwards: ')

    def run(self, expr, fam, kinds, reals, ms, mon, leaves):
        IF = fam.IF
        if expr[0] == 'leaf':
            k, p = expr[1], expr[2]
            r = raw_result(kinds[k], reals[k], p)
            self.examine(r, fam, kinds[k], p, mon)
            return r
        parts = [self.run(e, fam, kinds, reals, ms, mon, leaves)
                 for e in expr[1]]
        op = expr[0]
        if op == 'many':
            parts = [x for x in parts if x is not None]
            return IF.multiunion(parts) if parts else None
        a, b = parts
        if op == 'not':
            if b is None or a is None:
                return a
            return IF.difference(a, b)
        if a is None or b is None:
            return a if b is None else b
        if op in ('wand', 'wor') and all(hasattr(x, 'items') for x in parts):
            mon.count('weighted combinations')
            f = IF.weightedIntersection if op == 'wand' else IF.weightedUnion
            return f(a, b, 1, expr[2])[1]
        if op in ('and', 'wand'):
            return IF.intersection(a, b)
        return IF.union(a, b)

    def denote(self, expr, kinds, ms):
        if expr[0] == 'leaf':
            return model_result(kinds[expr[1]], ms[expr[1]], expr[2])
        parts = [self.denote(e, kinds, ms) for e in expr[1]]
        op = expr[0]
        if op == 'many':
            parts = [x for x in parts if x is not None]
            return set().union(*parts) if parts else None
        a, b = parts
        if op == 'not':
            if b is None or a is None:
                return a
            if isinstance(a, dict):
                return {d: s for d, s in a.items() if d not in b}
            return a - set(b)
        if a is None or b is None:
            return a if b is None else b
        if op in ('wand', 'wor') and isinstance(a, dict) \
                and isinstance(b, dict):
            keys = set(a) & set(b) if op == 'wand' else set(a) | set(b)
            out = {}
            for d in keys:
                x, y = a.get(d, 0), b.get(d, 0)
                out[d] = None if x is None or y is None else x + expr[2] * y
            return out
        if op in ('and', 'wand'):
            return set(a) & set(b)
        return set(a) | set(b)

    def examine(self, r, fam, kind, p, mon):
        """The kinds of results which IIndexSearch promises."""
        what = f'{kind.name} {p!r:.200}'
        if r is None:
            mon.check(p[0] in ('q', 'search'), f'{what} gave None')
            return
        IF = fam.IF
        ok = (IF.Bucket, IF.BTree) if kind.name in ('okapi', 'cosine') \
            else (IF.Set, IF.TreeSet)
        mon.check(isinstance(r, ok), lambda: f'{what} gave a '
                  f'{type(r).__module__}.{type(r).__name__}, '
                  f'promised is one of {[t.__name__ for t in ok]} of its family')
        ids = list(r)
        mon.check(ids == sorted(set(ids)), f'{what}: ids {ids!r:.300}')
        mon.check(len(r) == len(ids) and bool(r) == bool(ids),
                  f'{what}: length {len(r)} of {len(ids)} ids')
        mon.check(list(r) == ids and list(r.keys()) == ids,
                  f'{what}: read twice it gave other ids')
        if ids:
            mon.check(all(d in r for d in (ids[0], ids[-1], ids[len(ids) // 2]))
                      and r.minKey() == ids[0] and r.maxKey() == ids[-1],
                      f'{what}: membership')
        mon.count('results examined')

    def scores(self, got, exp, top, expr, mon):
        if not hasattr(got, 'items'):
            mon.fail(f'{expr!r:.300}: scores were lost')
        have = dict(got.items())
        if None in exp.values():
            return
        mon.eq(have, {d: float(s) for d, s in exp.items()},
               f'scores of {expr!r:.400}')
        # the first page by score, in the two usual ways
        from zope.index.nbest import NBest
        nb = NBest(top)
        nb.addmany(got.items())
        page = nb.getbest()
        best = sorted((float(s) for s in exp.values()), reverse=True)[:top]
        mon.eq([float(s) for d, s in page], best, f'first page of {expr!r:.300}')
        mon.check(len({d for d, s in page}) == len(page) and all(
            core.near(exp[d], s) for d, s in page),
            f'first page {page} of {expr!r:.300}')
        if all(s > 0 for s in have.values()):
            by = got.byValue(0)
            mon.eq(sorted(d for s, d in by), sorted(exp),
                   f'byValue of {expr!r:.300}')
        mon.count('score pages')


PROP = C30()
