from vf.hist import HistProp
from vf.kinds import Real


def mixed(real, m):
    """Another class of index with sorting mixed in, of the same content."""
    from BTrees.Length import Length
    from zope.index.field.sorting import SortingIndexMixin

    class Other(SortingIndexMixin):
        family = real.ix.family
        _sorting_num_docs_attr = 'count'
        _sorting_fwd_index_attr = 'docs_of'
        _sorting_rev_index_attr = 'value_of'

    ix = Other()
    ix.count = Length(len(m.docs))
    ix.docs_of = ix.family.OO.BTree()
    ix.value_of = ix.family.IO.BTree()
    for d, v in m.docs.items():
        if v not in ix.docs_of:
            ix.docs_of[v] = ix.family.IF.TreeSet()
        ix.docs_of[v].insert(d)
        ix.value_of[d] = v
    return Real(ix=ix)


class C02(HistProp):
    ID = 'C02'
    RULE = ('a random field index history and sort requests with indexed, '
            'unindexed and repeated ids, limits and size ratios; non-trivial '
            'when a sort had to yield at least one id')
    USE = ('field',)
    WHICH = 'sort'
    FILES = ('field/sorting.py',)
    QUICK, THOROUGH = 15000, 375000
    PROBE_P = .1
    FINAL = (4, 12)
    REQUIRE = {'nonempty sort': 100, 'lazy ratio': 20, 'nbest ratio': 100,
               'reverse nbest ratio': 50, 'asked unindexed': 100,
               'mixed in': 500}

    def judge(self, kind, real, m, p, mon, what):
        super().judge(kind, real, m, p, mon, what)
        n, lim = len(set(p[1])), p[3]
        if m.docs and n > len(m.docs) * (n / 100 + 1):
            mon.count('lazy ratio')
        if lim and lim * 4 < n:
            mon.count('reverse nbest ratio' if p[2] else 'nbest ratio')
        if not set(p[1]) <= m.docs.keys():
            mon.count('asked unindexed')

    def finish(self, kind, cfg, real, m, case, mon):
        ids = list(m.docs)
        for rev in (False, True):
            for lim in (None, 1, max(1, len(ids) - 1), len(ids) + 1):
                self.judge(kind, real, m, ('sort', ids, rev, lim, 'list'), mon,
                           'all documents: ')
        for lim in (0, -1, -100):
            mon.raises(ValueError, lambda: list(real.ix.sort(ids, limit=lim)),
                       f'limit={lim}')
            mon.raises(ValueError, lambda: list(
                real.ix.sort(ids, reverse=True, limit=lim)), f'limit={lim}')
        # a small result set in a large index, a large one in a small index
        ask = ids[:2] + [10 ** 6 + k for k in range(len(ids) * 3 + 5)]
        for rev in (False, True):
            for lim in (None, 1, 2):
                self.judge(kind, real, m, ('sort', ask, rev, lim, 'treeset'),
                           mon, 'mostly unindexed: ')
        if len(case['steps']) % 3 == 0:
            other = mixed(real, m)
            for rev in (False, True):
                for req in (ids, ask):
                    for lim in (None, 1, 3):
                        self.judge(kind, other, m, ('sort', req, rev, lim, 'list'),
                                   mon, 'sorting mixed into another class: ')
            mon.count('mixed in')


PROP = C02()
