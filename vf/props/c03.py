import random

from vf.hist import HistProp
from vf.kinds import KW_VOCAB
from vf.kinds import Label


class C03(HistProp):
    ID = 'C03'
    RULE = ('a random history on a plain or case-insensitive keyword index '
            'or one with a normalization of its own '
            'with threshold changes and optimize(); non-trivial when a search '
            'had to return at least one document')
    USE = ('keyword', 'keyword', 'keyword', 'keyword_ci', 'keyword_ci',
           'keyword_own')
    FILES = ('keyword/index.py',)
    QUICK, THOROUGH = 20000, 500000
    REQUIRE = {'nonempty kw': 100, 'op o': 50, 'op t': 20, 'op u': 100}

    def finish(self, kind, cfg, real, m, case, mon):
        words = sorted(set().union(*m.docs.values()), key=repr)
        r = random.Random(len(words))
        for w in words[:12]:
            self.judge(kind, real, m, ('kw', [w], 'or', 'search', 'list'), mon,
                       'every keyword: ')
        if len(words) > 1:
            pair = r.sample(words, 2)
            for op in ('and', 'or'):
                self.judge(kind, real, m, ('kw', pair, op, 'dictop', 'tuple'),
                           mon, 'pair: ')
        for op in ('and', 'or'):
            self.judge(kind, real, m, ('kw', [], op, 'search', 'list'), mon, '')
        for d in cfg['pool']:
            self.judge(kind, real, m, ('has', d), mon, '')
        w = [KW_VOCAB[cfg['regime']][0]]
        if len(case['steps']) % 4 == 0:
            for bad in ('xor', 'AND', '', 'not', None, 5):
                mon.raises(TypeError, lambda: real.ix.search(w, bad),
                           f'operator {bad!r}')
                mon.raises(TypeError, lambda: real.ix.apply(
                    {'query': w, 'operator': bad}), f'operator {bad!r}')
            for bad in ('alpha', '', 'a b', Label('alpha')):
                d = cfg['pool'][0]
                mon.raises(TypeError, lambda: real.ix.index_doc(d, bad),
                           f'index_doc({bad!r})')
                self.judge(kind, real, m, ('has', d), mon, 'after TypeError: ')
            mon.count('malformed calls')


PROP = C03()
