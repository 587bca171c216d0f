"""Drivers for the index kinds: configuration and operation generators, the
real object, the reference model, and probes (queries) with canonical,
comparable outcomes.  Everything goes through the public API."""
import collections
import datetime
import functools
import math
import zlib
from decimal import Decimal
from fractions import Fraction

from vf import models
from vf.core import near

FAM_RANGE = {32: (-2 ** 31, 2 ** 31 - 1), 64: (-2 ** 63, 2 ** 63 - 1)}


def family(n):
    import BTrees
    return BTrees.family32 if n == 32 else BTrees.family64


def docid_pool(rng, fam, common=False):
    """A literal list of document ids to draw from."""
    lo, hi = FAM_RANGE[32 if common else fam]
    r = rng.random()
    if r < .45:
        return list(range(rng.choice([0, 0, 1, 100]), rng.choice([105, 108, 116]))
                    )[:rng.choice([5, 8, 14])]
    if r < .6:
        return list(range(-rng.choice([3, 6]), rng.choice([3, 8])))
    if r < .8:
        return sorted({0, 1, -1, lo, lo + 1, hi, hi - 1, 2 ** 16, -2 ** 16,
                       2 ** 31 - 1, 12345, -2 ** 31})
    if r < .9:
        return sorted({rng.randint(lo, hi) for _ in range(10)})
    return sorted({rng.randint(-200, 200) for _ in range(60)})


def size(rng, top):
    """1 .. top, small ones more often"""
    return max(1, int(top ** rng.random()))


def implicit(rng, fam):
    """Leave the arguments away that have the wanted defaults?"""
    return fam == 32 and rng.random() < .4


def bare(cfg, fam=None):
    return cfg.get('implicit') and fam is None and cfg['family'] == 32


class Real:
    """Handle on the real objects of one index."""

    def __init__(self, **roots):
        self.roots = roots

    def __getattr__(self, name):
        try:
            return self.__dict__['roots'][name]
        except KeyError:
            raise AttributeError(name)


def ids_list(rs):
    return [int(x) for x in rs]


def pick_op(rng, ops):
    total = sum(w for w, _ in ops)
    x = rng.random() * total
    for w, o in ops:
        x -= w
        if x < 0:
            return o
    return ops[-1][1]


class Kind:
    name = None
    tags = ()

    def config(self, rng, tier='quick', common=False):
        raise NotImplementedError

    def gen_ops(self, rng, cfg, n, model=None):
        m = model or self.model(cfg)
        ops = []
        for _ in range(n):
            op = self.gen_op(rng, cfg, m)
            self.apply_model(m, op)
            ops.append(op)
        return ops

    def swap(self, rng, cfg, m):
        """Another document takes over what one holds."""
        if not getattr(m, 'docs', None):
            return []
        d = rng.choice(list(m.docs))
        free = [e for e in cfg['pool'] if e not in m.docs]
        if not free:
            return []
        e = rng.choice(free)
        ops = [('u', d), (*self.content_ops(m, [d])[0][:1], e,
                          *self.content_ops(m, [d])[0][2:])]
        if rng.random() < .3:
            ops.reverse()
        for op in ops:
            self.apply_model(m, op, cfg)
        return ops

    def gen_probes(self, rng, cfg, m, n):
        return [self.gen_probe(rng, cfg, m) for _ in range(n)]

    def judge(self, real, model, probe, mon, what=''):
        exp = self.expect(model, probe)
        got = self.observe(real, probe, model)
        mon.eq(got, exp, f'{what}{self.name} {probe!r}')
        return exp

    def judge_counts(self, real, model, mon, what=''):
        for p in self.count_probes:
            self.judge(real, model, p, mon, what)

    count_probes = (('docs',), ('words',))


# ------------------------------------------------------------------- field

def value_of(regime, k):
    if regime == 'int':
        return (k * 7919) % 1013 - 500
    if regime == 'smallint':
        return k % 4
    if regime == 'str':
        return ['', 'a', 'A', 'aa', 'b', 'é', 'z', ' ', '\x00', '日本', 'a b',
                'ab'][k % 12] + ('' if k < 12 else str(k // 12))
    if regime == 'float':
        return [0.0, -0.5, 1.5, 1e300, -1e300, 1e-300, float('inf'),
                -float('inf')][k % 8] if k < 8 else k / 7
    if regime == 'tuple':
        return (k % 3, 'abc'[k % 3], k // 9) if k % 5 else ()
    if regime == 'bytes':
        return bytes([k % 256]) * (k % 3)
    if regime == 'num':
        return [0, 0.0, True, False, 1, 1.0, 2, 2.5, -1][k % 9] if k < 40 else k
    if regime == 'big':
        return (k - 10) * 10 ** 20
    if regime == 'none':
        return None if k % 4 == 0 else k % 11 - 3
    if regime == 'nonestr':
        return None if k % 4 == 0 else ['', 'a', 'b', 'c'][k % 4] + str(k // 16)
    if regime == 'date':
        d = datetime.date(1998, 12, 28) + datetime.timedelta(k % 5 - 2 + k // 9)
        return d
    if regime == 'stamp':
        return datetime.datetime(2000, 2, 28, 23, 59, 59, 999990) + \
            datetime.timedelta(days=k // 7, microseconds=k % 7 * 5)
    if regime == 'decimal':
        return [Decimal('0.1'), Fraction(1, 10), Decimal('-0'), 0, Decimal(1),
                True, Decimal('1E+3'), Decimal('0.10'), 2][k % 9] if k % 9 != 1 \
            else Decimal(k) / 7
    if regime == 'longstr':
        return 'x' * [30, 63, 64, 65, 127, 255, 256, 300, 1000][k % 9] + str(k)
    if regime == 'ext':
        return Rank(k * 5 % 7 - 2)
    if regime == 'sub':
        # subclasses of the plain types
        return Label(['', 'a', 'A', 'b', 'é'][k % 5] + str(k // 10)) if k % 2 \
            else ['', 'a', 'A', 'b', 'é'][k // 2 % 5] + str(k // 10)
    raise AssertionError(regime)


@functools.total_ordering
class Rank:
    """Values of a type of the application's own."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Rank) and self.n == other.n

    def __lt__(self, other):
        if not isinstance(other, Rank):
            return NotImplemented
        return self.n < other.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f'Rank({self.n})'


class Label(str):
    def __repr__(self):
        return f'Label({str(self)!r})'


class Listed(list):
    pass


class Mapped(dict):
    pass


Bounds = collections.namedtuple('Bounds', 'minimum maximum')


def dressed(x, p):
    """Now and then an instance of a subclass of the type of an argument,
    always the same for the same request."""
    if zlib.crc32(repr(p).encode('utf-8', 'replace')) % 6:
        return x
    if type(x) is tuple and len(x) == 2:
        return Bounds(*x)
    return {str: Label, list: Listed, dict: Mapped}.get(type(x), lambda x: x)(x)


NAMES = {'Rank': Rank, 'Label': Label, 'Decimal': Decimal, 'Fraction': Fraction,
         'datetime': datetime, 'inf': math.inf, 'nan': math.nan,
         'set': set, 'frozenset': frozenset}

FIELD_REGIMES = ['int', 'smallint', 'str', 'float', 'tuple', 'bytes', 'num',
                 'big', 'none', 'nonestr', 'date', 'stamp', 'decimal', 'ext',
                 'sub', 'longstr']


class Field(Kind):
    name = 'field'

    def config(self, rng, tier='quick', common=False):
        fam = rng.choice([32, 64])
        return {'kind': self.name, 'family': fam,
                'pool': docid_pool(rng, fam, common),
                'regime': rng.choice(FIELD_REGIMES),
                'spread': rng.choice([3, 8, 12, 40]),
                'bulk': rng.random() < .15,
                'implicit': implicit(rng, fam)}

    def make(self, cfg, fam=None):
        from zope.index.field import FieldIndex
        ix = FieldIndex() if bare(cfg, fam) \
            else FieldIndex(family=family(fam or cfg['family']))
        return Real(ix=ix)

    def wrap(self, cfg, roots):
        return Real(**roots)

    def model(self, cfg):
        return models.FieldModel()

    def value(self, rng, cfg):
        return value_of(cfg['regime'], rng.randrange(cfg['spread']))

    def widen(self, rng, cfg):
        cfg['regime'] = rng.choice(['str', 'float', 'num', 'big', 'stamp',
                                    'longstr', 'sub', 'nonestr', 'int'])
        return [('fill', 1000, rng.choice([4200, 5300, 8300]),
                 rng.choice([3000, 5000, 10 ** 6]))]

    def gen_op(self, rng, cfg, m):
        r = rng.random()
        pool = cfg['pool']
        if cfg['bulk'] and r < .05:
            n = rng.choice([20, 70, 130, 260]) if rng.random() < .93 \
                else rng.choice([1100, 1100, 2100, 2100, 5300])
            return ('fill', rng.choice([1000, 1100, 1200]), n,
                    rng.choice([1, 2, 7, 50, 1000, 3000, 10 ** 6]))
        if cfg['bulk'] and r < .08:
            return ('drain', rng.choice([1000, 1050, 1200]),
                    rng.choice([30, 100, 300, 1000]))
        if r < .70:
            return ('i', rng.choice(pool), self.value(rng, cfg))
        if r < .98:
            d = rng.choice(list(m.docs)) if m.docs and rng.random() < .7 \
                else rng.choice(pool)
            return ('u', d)
        return ('c',)

    def apply(self, real, op, cfg=None):
        ix = real.ix
        if op[0] == 'i':
            ix.index_doc(op[1], op[2])
        elif op[0] == 'u':
            ix.unindex_doc(op[1])
        elif op[0] == 'c':
            ix.clear()
        elif op[0] == 'fill':
            for j in range(op[2]):
                ix.index_doc(op[1] + j, value_of(cfg['regime'], j % op[3]))
        elif op[0] == 'drain':
            for j in range(op[2]):
                ix.unindex_doc(op[1] + j)
        else:
            raise AssertionError(op)

    def apply_model(self, m, op, cfg=None):
        if op[0] == 'i':
            m.index(op[1], op[2])
        elif op[0] == 'u':
            m.unindex(op[1])
        elif op[0] == 'c':
            m.clear()
        elif op[0] == 'fill':
            for j in range(op[2]):
                m.index(op[1] + j, value_of(cfg['regime'], j % op[3]))
        elif op[0] == 'drain':
            for j in range(op[2]):
                m.unindex(op[1] + j)

    def gen_ops(self, rng, cfg, n, model=None):
        m = model or self.model(cfg)
        ops = []
        for _ in range(n):
            op = self.gen_op(rng, cfg, m)
            self.apply_model(m, op, cfg)
            ops.append(op)
        return ops

    def content_ops(self, m, order):
        return [('i', d, m.docs[d]) for d in order]

    def gen_probe(self, rng, cfg, m, which=None):
        r = rng.random()
        if which == 'range' or (which is None and r < .45):
            v = [self.value(rng, cfg) for _ in range(2)]
            if m.docs and rng.random() < .5:
                v[0] = rng.choice(list(m.docs.values()))
            for i in (0, 1):
                if rng.random() < .25:
                    v[i] = None
            if rng.random() < .15:
                v[1] = v[0]
            if None not in v and rng.random() < .9:
                v.sort()
            return ('range', v[0], v[1])
        if which == 'sort' or (which is None and r < .9):
            ids = list(m.docs)
            ask = rng.sample(ids, rng.randint(0, len(ids))) if \
                rng.random() < .7 else list(ids)
            ask += [d for d in cfg['pool'] if rng.random() < .4]
            if rng.random() < .1:
                ask += list(range(3000, 3000 + rng.choice([5, 40, 300])))
            rng.shuffle(ask)
            lim = rng.choice([None, None, 1, 2, 3, 5, len(ask) // 4 or 1,
                              rng.randint(1, len(ask) + 1),
                              len(ask) + 1, 10 ** 6])
            return ('sort', ask, rng.random() < .5, lim,
                    rng.choice(['list', 'list', 'set', 'treeset', 'tuple',
                                'ifset', 'gen', 'bucket', 'btree', 'dict',
                                'frozenset', 'ooset', 'keys']))
        return rng.choice(self.count_probes)

    def expect(self, m, p):
        if p[0] == 'range':
            return m.range(p[1], p[2])
        if p[0] == 'docs':
            return m.document_count()
        if p[0] == 'words':
            return m.word_count()
        if p[0] == 'sort':
            ids = m.sorted(p[1], p[2])
            if p[3] is not None:
                ids = ids[:p[3]]
            if not p[2]:
                return ids
            return self.reverse_view(m, ids, p[1])
        raise AssertionError(p)

    def reverse_view(self, m, ids, asked):
        """ties may come in any order: the values, and validity of the ids"""
        return [[models.field_key(m.docs[d]) if d in m.docs else 'unindexed'
                 for d in ids],
                len(set(ids)) == len(ids), set(ids) <= set(asked)]

    def observe(self, real, p, m):
        ix = real.ix
        if p[0] == 'range':
            return ids_list(ix.apply(dressed((p[1], p[2]), p)))
        if p[0] == 'docs':
            return ix.documentCount()
        if p[0] == 'words':
            return ix.wordCount()
        if p[0] == 'sort':
            asked = p[1]
            how = p[4]
            IF = real.ix.family.IF
            if how == 'set':
                arg = set(asked)
            elif how == 'treeset':
                arg = IF.TreeSet(asked)
            elif how == 'ifset':
                arg = IF.Set(asked)
            elif how == 'tuple':
                arg = tuple(asked)
            elif how == 'gen':
                arg = (x for x in asked)
            elif how in ('bucket', 'btree'):
                # what a text search returns
                arg = (IF.Bucket if how == 'bucket' else IF.BTree)(
                    {x: 1.5 for x in asked})
            elif how == 'dict':
                arg = dict.fromkeys(asked)
            elif how == 'frozenset':
                arg = frozenset(asked)
            elif how == 'ooset':
                arg = real.ix.family.OO.Set(asked)
            elif how == 'keys':
                arg = IF.BTree(dict.fromkeys(asked, 1.0)).keys()
            else:
                arg = list(asked)
            ids = list(ix.sort(arg, reverse=p[2], limit=p[3]))
            return ids if not p[2] else self.reverse_view(m, ids, asked)
        raise AssertionError(p)


# ----------------------------------------------------------------- keyword

KW_VOCAB = {
    'str': ['alpha', 'beta', 'Gamma', 'GAMMA', 'gamma', '', ' ', 'delta', 'é',
            'É', 'ALPHA', 'Straße', 'x y', 'zeta', 'a', 'A', 'b', 'B',
            'STRASSE', 'ΟΔΟΣ', 'οδοσ', 'ﬁ', 'fi'],
    'int': [0, 1, -1, 2, 3, 5, 8, 13, 10 ** 12],
    'tuple': [(), (0,), (1, 2), (1, 3), (2,)],
    'num': [0, 1, 1.0, True, 2.5, Fraction(1, 2), Decimal('0.5'), -0.0, 10 ** 20,
            -3],
    'ext': [Rank(0), Rank(3), Rank(-1), Rank(7), Rank(1)],
    'date': [datetime.date(2000, 2, 29), datetime.date(1970, 1, 1),
             datetime.date(9999, 12, 31), datetime.date(1, 1, 1)],
    'own': ['a', 'b', 'a b', 'b c', 'c d e', 'A', ' ', '', 'd  a', 'f', 'c b'],
    'long': [c * n + d for n in (30, 64, 65, 255, 256, 1000) for c in 'xX'
             for d in ('', 'y', 'Y')],
}


class Keyword(Kind):
    name = 'keyword'
    ci = False

    def config(self, rng, tier='quick', common=False):
        fam = rng.choice([32, 64])
        return {'kind': self.name, 'family': fam,
                'pool': docid_pool(rng, fam, common),
                'regime': 'own' if self.ci == 'own' else
                'str' if self.ci else rng.choice(
                    ['str', 'str', 'str', 'int', 'int', 'tuple', 'tuple', 'num',
                     'ext', 'date', 'long']),
                'threshold': rng.choice([None, None, 1, 2, 3, 5]),
                'many': rng.random() < .15,
                'bulk': rng.random() < .12,
                'implicit': implicit(rng, fam)}

    def make(self, cfg, fam=None):
        from zope.index.keyword.index import CaseInsensitiveKeywordIndex
        from zope.index.keyword.index import KeywordIndex
        cls = CaseInsensitiveKeywordIndex if self.ci else KeywordIndex
        if self.ci == 'own':
            cls = own_keyword_index()
        ix = cls() if bare(cfg, fam) \
            else cls(family=family(fam or cfg['family']))
        if cfg['threshold'] is not None:
            ix.tree_threshold = cfg['threshold']
        return Real(ix=ix)

    def wrap(self, cfg, roots):
        return Real(**roots)

    def model(self, cfg):
        return models.KeywordModel(self.ci)

    def words(self, rng, cfg, empty=.08):
        v = KW_VOCAB[cfg['regime']]
        if cfg['many'] and cfg['regime'] == 'str':
            return [f'k{rng.randrange(400)}' for _ in range(
                rng.choice([1, 5, 90]) if rng.random() < .97 else 350)]
        if rng.random() < empty:
            return []
        return [rng.choice(v) for _ in range(rng.choice([1, 1, 2, 3, 3, 5, 9]))]

    CONTAINERS = ['list', 'list', 'tuple', 'set', 'frozenset', 'iter', 'ooset']

    def widen(self, rng, cfg):
        if self.ci == 'own' or rng.random() < .3:
            return [('fill', 1000, 5300, self.words(rng, cfg, 0)[0])]
        cfg['regime'], cfg['many'] = 'str', 'wide'
        return [('spread', 1000, 2600, rng.randint(1, 90))]

    def gen_op(self, rng, cfg, m):
        r = rng.random()
        pool = cfg['pool']
        if cfg['bulk'] and r < .06:
            return ('fill', rng.choice([1000, 1040, 1100]),
                    rng.choice([10, 63, 64, 65, 70, 140, 260])
                    if rng.random() < .93
                    else rng.choice([1030, 1030, 2100, 2100, 5300]),
                    rng.choice(KW_VOCAB[cfg['regime']]))
        if cfg['many'] and cfg['regime'] == 'str' and r < .08:
            return ('spread', rng.choice([1000, 1100]),
                    rng.choice([40, 130, 400] * 7 + [2600]), rng.randint(1, 90))
        if cfg['bulk'] and r < .09:
            return ('drain', rng.choice([1000, 1010, 1040]),
                    rng.choice([30, 60, 100, 300, 1000]))
        if r < .66:
            return ('i', rng.choice(pool), self.words(rng, cfg),
                    rng.choice(self.CONTAINERS))
        if r < .70:
            # reindex with a small change
            if m.docs:
                d = rng.choice(list(m.docs))
                ws = sorted(m.docs[d], key=repr)
                if rng.random() < .5 and len(ws) > 1:
                    ws.pop(rng.randrange(len(ws)))
                else:
                    ws.append(rng.choice(KW_VOCAB[cfg['regime']]))
                return ('i', d, ws, 'list')
        if r < .90:
            d = rng.choice(list(m.docs)) if m.docs and rng.random() < .7 \
                else rng.choice(pool)
            return ('u', d)
        if r < .94:
            return ('o',)
        if r < .985:
            return ('t', rng.choice([1, 2, 3, 5, 64]))
        return ('c',)

    @staticmethod
    def container(real, how, ws):
        if how == 'list':
            return list(ws)
        if how == 'tuple':
            return tuple(ws)
        if how == 'set':
            return set(ws)
        if how == 'frozenset':
            return frozenset(ws)
        if how == 'iter':
            return iter(list(ws))
        if how == 'ooset':
            return real.ix.family.OO.Set(ws)
        if how == 'none':
            return None
        raise AssertionError(how)

    @staticmethod
    def spread(op, j):
        """a few of many keywords"""
        n = 400 if op[2] <= 400 else 2500
        return [f'k{j % n}', f'k{j * op[3] % n}']

    def apply(self, real, op, cfg=None):
        ix = real.ix
        if op[0] == 'i':
            ix.index_doc(op[1], self.container(real, op[3], op[2]))
        elif op[0] == 'u':
            ix.unindex_doc(op[1])
        elif op[0] == 'c':
            ix.clear()
        elif op[0] == 'o':
            ix.optimize()
        elif op[0] == 't':
            ix.tree_threshold = op[1]
        elif op[0] == 'fill':
            for j in range(op[2]):
                ix.index_doc(op[1] + j, [op[3]])
        elif op[0] == 'spread':
            for j in range(op[2]):
                ix.index_doc(op[1] + j, self.spread(op, j))
        elif op[0] == 'drain':
            for j in range(op[2]):
                ix.unindex_doc(op[1] + j)
        else:
            raise AssertionError(op)

    def apply_model(self, m, op, cfg=None):
        if op[0] == 'i':
            m.index(op[1], op[2])
        elif op[0] == 'u':
            m.unindex(op[1])
        elif op[0] == 'c':
            m.clear()
        elif op[0] == 'fill':
            for j in range(op[2]):
                m.index(op[1] + j, [op[3]])
        elif op[0] == 'spread':
            for j in range(op[2]):
                m.index(op[1] + j, self.spread(op, j))
        elif op[0] == 'drain':
            for j in range(op[2]):
                m.unindex(op[1] + j)

    def content_ops(self, m, order):
        return [('i', d, sorted(m.docs[d], key=repr), 'list') for d in order]

    def gen_probe(self, rng, cfg, m, which=None):
        r = rng.random()
        if r < .8 or which == 'search':
            if m.docs and rng.random() < .6:
                ws = sorted(rng.choice(list(m.docs.values())), key=repr)
                ws = rng.sample(ws, rng.randint(1, min(len(ws), 4)))
                if rng.random() < .4:
                    ws += self.words(rng, cfg)[:2]
            else:
                ws = self.words(rng, cfg)[:4]
            if rng.random() < (.6 if cfg['many'] == 'wide' else
                               .25 if cfg['many'] else .03):
                # a long query
                ws = self.long_query(rng, cfg, m)
            if self.ci is True:
                ws = [rng.choice([w, w.upper(), w.lower()])
                      if len(w.upper()) == len(w) else w for w in ws]
            if cfg['regime'] == 'str' and rng.random() < .1:
                ws.append('nosuchword')
            op = rng.choice(['and', 'or', None])
            form = rng.choice(['search', 'apply', 'dict', 'dictop'])
            if form in ('apply', 'dict'):
                op = None
            return ('kw', ws, op, form, rng.choice(
                ['list', 'list', 'tuple', 'str', 'set', 'iter', 'ooset',
                 'keys']))
        if r < .9:
            return ('has', rng.choice(cfg['pool']))
        return rng.choice(self.count_probes)

    def long_query(self, rng, cfg, m):
        n = size(rng, 1100 if cfg['many'] and rng.random() < .1 else 300)
        if cfg['many'] == 'wide' and rng.random() < .7:
            n = rng.randint(200, 2000)
        if m.docs and rng.random() < .6:
            known = sorted(max(m.docs.values(), key=len) if rng.random() < .4
                           else set().union(*m.docs.values()), key=repr)
        elif cfg['many'] and cfg['regime'] == 'str':
            known = [f'k{j}' for j in range(
                2500 if cfg['many'] == 'wide' else 400)]
        else:
            known = KW_VOCAB[cfg['regime']]
        if rng.random() < .6:
            ws = rng.sample(known, min(n, len(known)))
        else:
            ws = [rng.choice(known) for _ in range(n)]
        if cfg['regime'] == 'str' and rng.random() < .4:
            ws += [f'unknown{j}' for j in range(rng.choice([1, 10, 50]))]
            rng.shuffle(ws)
        return ws

    def expect(self, m, p):
        if p[0] == 'kw':
            return m.search(p[1], p[2] or 'and')
        if p[0] == 'has':
            return p[1] in m.docs
        if p[0] == 'docs':
            return m.document_count()
        if p[0] == 'words':
            return m.word_count()
        raise AssertionError(p)

    def observe(self, real, p, m):
        ix = real.ix
        if p[0] == 'kw':
            ws = tuple(p[1]) if p[4] == 'tuple' else list(p[1])
            if p[4] == 'str' and len(p[1]) == 1 and isinstance(p[1][0], str):
                ws = p[1][0]
            elif p[4] in ('set', 'iter', 'ooset'):
                ws = self.container(real, p[4], p[1])
            elif p[4] == 'keys':
                ws = dict.fromkeys(p[1]).keys()
            if p[4] != 'tuple':
                ws = dressed(ws, p)
            op, form = p[2], p[3]
            if form == 'search':
                r = ix.search(ws, op) if op else ix.search(ws)
            elif form == 'apply':
                r = ix.apply(ws)
            elif form == 'dict':
                r = ix.apply(dressed({'query': ws}, p[1]))
            else:
                r = ix.apply(dressed({'query': ws, 'operator': op or 'and'},
                                  p[1]))
            return ids_list(r)
        if p[0] == 'has':
            return ix.has_doc(p[1])
        if p[0] == 'docs':
            return ix.documentCount()
        if p[0] == 'words':
            return ix.wordCount()
        raise AssertionError(p)


class KeywordCI(Keyword):
    name = 'keyword_ci'
    ci = True


class KeywordOwn(Keyword):
    name = 'keyword_own'
    ci = 'own'


def own_keyword_index():
    """A keyword index class written by a user."""
    from vf import kinds
    if not hasattr(kinds, 'WordsIndex'):
        from zope.index.keyword.index import KeywordIndex

        class WordsIndex(KeywordIndex):
            def normalize(self, seq):
                return models.own_keywords(seq)
        WordsIndex.__module__ = 'vf.kinds'
        WordsIndex.__qualname__ = 'WordsIndex'
        kinds.WordsIndex = WordsIndex
    return kinds.WordsIndex


# ------------------------------------------------------------------- topic

class Ctx:
    """The object given to a topic index: attributes from a literal dict;
    ('raise', name) raises that exception on access, ('badbool',) is an object
    whose truth value cannot be taken."""

    def __init__(self, attrs):
        self.__dict__['_a'] = attrs

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        try:
            v = self.__dict__['_a'][name]
        except KeyError:
            raise AttributeError(name)
        if isinstance(v, tuple) and v and v[0] == 'raise':
            raise EXC[v[1]]('by the object')
        if isinstance(v, tuple) and v and v[0] == 'badbool':
            return BadBool()
        return v


class BadBool:
    def __bool__(self):
        raise ValueError('no truth')

    def __len__(self):
        raise ValueError('no length')


EXC = {'ValueError': ValueError, 'KeyError': KeyError,
       'AttributeError': AttributeError, 'RuntimeError': RuntimeError,
       'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit,
       'ZeroDivisionError': ZeroDivisionError}

# (source, meaning)
EXPRS = [
    ('context.a', ('attr', 'a')),
    ('context.a > 2', ('gt', ('attr', 'a'), 2)),
    ("context.tag == 'x'", ('eq', ('attr', 'tag'), 'x')),
    ("'y' in context.tags", ('in', 'y', ('attr', 'tags'))),
    ('True', ('const', True)),
    ('0', ('const', 0)),
    ('not context.a', ('not', ('attr', 'a'))),
    ("context.a > 1 and context.tag == 'y'",
     ('and', ('gt', ('attr', 'a'), 1), ('eq', ('attr', 'tag'), 'y'))),
    ("context.tag == 'x' or context.a > 3",
     ('or', ('eq', ('attr', 'tag'), 'x'), ('gt', ('attr', 'a'), 3))),
    ('context.missing', ('attr', 'missing')),
    ('1 / 0', ('error',)),
    ('context.a >', ('error',)),
    ('nosuchname', ('error',)),
    ('context.tags', ('attr', 'tags')),
    ('[]', ('const', [])),
    (' context.a', ('attr', 'a')),
    ('context.a > 2\n', ('gt', ('attr', 'a'), 2)),
    ("any(t == 'x' for t in context.tags)", ('in', 'x', ('attr', 'tags'))),
    ("(context.a > 1\n and\n context.tag == 'y')  # both",
     ('and', ('gt', ('attr', 'a'), 1), ('eq', ('attr', 'tag'), 'y'))),
    # filter classes of our own
    ('<custom>', ('and', ('attr', 'a'), ('const', True))),
    ('<duck>', ('and', ('const', True), ('attr', 'a'))),
]
DUCK = len(EXPRS) - 1
CUSTOM = DUCK - 1
OWN = [EXPRS[CUSTOM][1], EXPRS[DUCK][1]]


class DuckFilter:
    """A filter that has nothing but the methods of the interface."""

    def __init__(self, name, expr, family=None):
        import BTrees
        self.make = (family or BTrees.family32).IF.TreeSet
        self.what = name, expr
        self.clear()

    def clear(self):
        self.found = self.make()

    def index_doc(self, docid, context):
        try:
            ok = bool(context.a)
        except BaseException:
            ok = False
        if ok:
            self.found.insert(docid)
        else:
            self.unindex_doc(docid)

    def unindex_doc(self, docid):
        if docid in self.found:
            self.found.remove(docid)

    def getId(self):
        return self.what[0]

    def getExpression(self):
        return self.what[1]

    def setExpression(self, expr):
        self.what = self.what[0], expr

    def getIds(self):
        return self.found


def custom_filter():
    """A filter class written by a user (kept importable for pickles)."""
    from vf import kinds
    if not hasattr(kinds, 'AttributeFilter'):
        from zope.index.topic.filter import FilteredSetBase

        class AttributeFilter(FilteredSetBase):
            def clear(self):
                self._ids = self.family.IF.TreeSet()

            def index_doc(self, docid, context):
                try:
                    ok = bool(context.a)
                except BaseException:
                    ok = False
                if ok:
                    self._ids.insert(docid)
                else:
                    self.unindex_doc(docid)
        AttributeFilter.__module__ = 'vf.kinds'
        AttributeFilter.__qualname__ = 'AttributeFilter'
        kinds.AttributeFilter = AttributeFilter
    return kinds.AttributeFilter


class Topic(Kind):
    name = 'topic'
    FIDS = ['f1', 'f2', 'f3', 'f4', '', 'é']
    MANY = [f'g{j}' for j in range(40)] + ['L' * 100, 'L' * 101]
    count_probes = ()

    def config(self, rng, tier='quick', common=False):
        fam = rng.choice([32, 64])
        return {'kind': self.name, 'family': fam,
                'pool': docid_pool(rng, fam, common),
                'bulk': rng.random() < .1, 'implicit': implicit(rng, fam),
                'many': rng.random() < .08}

    def make(self, cfg, fam=None):
        from zope.index.topic import TopicIndex
        r = Real(ix=TopicIndex() if bare(cfg, fam)
                 else TopicIndex(family=family(fam or cfg['family'])))
        r.implicit = bare(cfg, fam)
        r.filters = {}
        r.fam = fam or cfg['family']
        return r

    def wrap(self, cfg, roots):
        r = Real(**roots)
        r.filters = None
        r.fam = cfg['family']
        r.implicit = bare(cfg)
        return r

    def model(self, cfg):
        return models.TopicModel()

    def obj(self, rng):
        a = {}
        r = rng.random()
        if r < .85:
            a['a'] = rng.choice([0, 1, 2, 3, 4, 5, None, '', ('badbool',)]
                                + [('raise', e) for e in EXC]
                                if rng.random() < .3 else [0, 2, 3, 4])
        if rng.random() < .85:
            a['tag'] = rng.choice(['x', 'y', '', ('raise', 'KeyError')])
        if rng.random() < .85:
            a['tags'] = rng.choice([[], ['x'], ['y'], ['x', 'y'], 5])
        if rng.random() < .1:
            a['missing'] = 1
        return a

    def widen(self, rng, cfg):
        return [('addf', f, rng.randrange(len(EXPRS))) for f in self.FIDS] + [
            ('fill', 1000, 5200, rng.randrange(5))]

    def gen_op(self, rng, cfg, m):
        r = rng.random()
        if cfg.get('many') and r < (.8 if len(m.filters) < 12 else .2):
            return ('addf', rng.choice(self.MANY), rng.randrange(len(EXPRS)))
        if not m.filters or r < .12:
            return ('addf', rng.choice(self.FIDS), rng.randrange(len(EXPRS)))
        if cfg['bulk'] and r < .17:
            return ('fill', rng.choice([1000, 1050]),
                    rng.choice([30, 70, 130, 30, 70, 130, 1050] * 4 + [5200]),
                    rng.randrange(5))
        plain = sorted(f for f in m.filters 
                       if m.filters[f][0] not in OWN)
        if cfg.get('sete') and r < .2 and plain:
            return ('sete', rng.choice(plain),
                    rng.randrange(CUSTOM))
        if r < .75:
            return ('i', rng.choice(cfg['pool']), self.obj(rng))
        if r < .91:
            ids = sorted(set().union(*[f[1] for f in m.filters.values()]))
            d = rng.choice(ids) if ids and rng.random() < .7 \
                else rng.choice(cfg['pool'])
            return ('u', d)
        if r < .95:
            return ('delf', rng.choice(sorted(m.filters)))
        if r < .985:
            return ('clearf',)
        return ('c',)

    def apply(self, real, op, cfg=None):
        ix = real.ix
        if op[0] == 'addf':
            from zope.index.topic.filter import PythonFilteredSet
            cls = custom_filter() if op[2] == CUSTOM else \
                DuckFilter if op[2] == DUCK else PythonFilteredSet
            f = cls(op[1], EXPRS[op[2]][0]) if real.implicit \
                else cls(op[1], EXPRS[op[2]][0], family(real.fam))
            ix.addFilter(f)
            if real.filters is not None:
                real.filters[op[1]] = f
        elif op[0] == 'sete':
            real.filters[op[1]].setExpression(EXPRS[op[2]][0])
        elif op[0] == 'delf':
            ix.delFilter(op[1])
            if real.filters is not None:
                real.filters.pop(op[1], None)
        elif op[0] == 'clearf':
            ix.clearFilters()
        elif op[0] == 'c':
            ix.clear()
            if real.filters is not None:
                real.filters.clear()
        elif op[0] == 'i':
            ix.index_doc(op[1], Ctx(op[2]))
        elif op[0] == 'u':
            ix.unindex_doc(op[1])
        elif op[0] == 'fill':
            for j in range(op[2]):
                ix.index_doc(op[1] + j, Ctx({'a': (j + op[3]) % 5, 'tag': 'x',
                                             'tags': ['y']}))
        else:
            raise AssertionError(op)

    def apply_model(self, m, op, cfg=None):
        if op[0] == 'addf':
            m.add_filter(op[1], EXPRS[op[2]][1])
        elif op[0] == 'sete':
            m.filters[op[1]][0] = EXPRS[op[2]][1]
        elif op[0] == 'delf':
            m.del_filter(op[1])
        elif op[0] == 'clearf':
            m.clear_filters()
        elif op[0] == 'c':
            m.clear()
        elif op[0] == 'i':
            m.index(op[1], op[2])
        elif op[0] == 'u':
            m.unindex(op[1])
        elif op[0] == 'fill':
            for j in range(op[2]):
                m.index(op[1] + j, {'a': (j + op[3]) % 5, 'tag': 'x',
                                    'tags': ['y']})

    def gen_probe(self, rng, cfg, m, which=None):
        names = list(m.filters) + ['nosuch']
        ask = [rng.choice(names) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        if not ask and rng.random() < .7:
            ask = [rng.choice(names)]
        if rng.random() < (.3 if cfg.get('many') else .02):
            # a long query
            ask = [rng.choice(names) if rng.random() < .9 else f'unknown{j}'
                   for j in range(size(rng, 100))] if rng.random() < .5 \
                else rng.sample(names[:-1], rng.randint(0, len(names) - 1))
        form = rng.choice(['search', 'apply', 'dict', 'dictop'])
        op = rng.choice(['and', 'or', None])
        if form in ('apply', 'dict'):
            op = None
        return ('top', ask, op, form, rng.choice(['list', 'tuple', 'str']))

    def expect(self, m, p):
        return m.search(p[1], p[2] or 'and')

    def observe(self, real, p, m):
        ix = real.ix
        ws = tuple(p[1]) if p[4] == 'tuple' else list(p[1])
        if p[4] == 'str' and len(p[1]) == 1:
            ws = p[1][0]
        ws = dressed(ws, p)
        op, form = p[2], p[3]
        if form == 'search':
            r = ix.search(ws, op) if op else ix.search(ws)
        elif form == 'apply':
            r = ix.apply(ws)
        elif form == 'dict':
            r = ix.apply(dressed({'query': ws}, p[1]))
        else:
            r = ix.apply(dressed({'query': ws, 'operator': op or 'and'},
                                  p[1]))
        return ids_list(r)


# -------------------------------------------------------------------- text

VOCABS = {
    'tiny': 'foo bar baz qux'.split(),
    'small': ('apple apples apply banana band bandana cat catalog category dog '
              'dogma egg foo foobar food fool bar barn baz zoo zoom zope index '
              'python ham spam eggs under_score x1 42 007').split(),
    'unicode': ('straße STRASSE café CAFÉ naïve日本 日本語 привет ПРИВЕТ '
                'Ångström ångström ñandú x² ½ ٣٤ ﬁne ﬁ ǆ Ǆ ß ẞ µ μ ſ '
                'foo bar').split(),
    'long': [c * n + d for n in (20, 32, 63, 64, 65, 127, 128, 260)
             for c in ('x', 'y') for d in ('', 'y', 'yz')],
}
SEPARATORS = [' ', ' ', ' ', ' ', ', ', '-', '\n', '/', '. ', ' \t', '; ', "'"]


def vocab_word(cfg, k):
    v = VOCABS.get(cfg['vocab'])
    if v:
        return v[k % len(v)]
    return 'w' + str(k % int(cfg['vocab']))


def make_splitter():
    from zope.interface import implementer
    from zope.index.text.interfaces import ISplitter

    @implementer(ISplitter)
    class SpaceSplitter:
        def process(self, lst):
            return [w for s in lst for w in s.split(' ') if w]
        processGlob = process
    return SpaceSplitter


def make_lexicon(pipeline):
    from zope.index.text import lexicon as L
    if pipeline == 'default':
        els = [L.Splitter(), L.CaseNormalizer(), L.StopWordRemover()]
    elif pipeline == 'nostop':
        els = [L.Splitter(), L.CaseNormalizer()]
    elif pipeline == 'case':
        els = [L.Splitter()]
    elif pipeline == 'single':
        els = [L.Splitter(), L.CaseNormalizer(),
               L.StopWordAndSingleCharRemover()]
    elif pipeline == 'html':
        from zope.index.text.htmlsplitter import HTMLWordSplitter
        els = [HTMLWordSplitter(), L.CaseNormalizer(), L.StopWordRemover()]
    elif pipeline == 'none':
        els = []
    elif pipeline == 'space':
        from vf import kinds
        if not hasattr(kinds, 'SpaceSplitter'):
            kinds.SpaceSplitter = make_splitter()
        els = [kinds.SpaceSplitter()]
    else:
        raise AssertionError(pipeline)
    return L.Lexicon(*els)


class Text(Kind):
    ranking = None

    def config(self, rng, tier='quick', common=False):
        fam = rng.choice([32, 64])
        return {'kind': self.name, 'family': fam,
                'pool': docid_pool(rng, fam, common),
                'pipeline': rng.choice(['default'] * 8 + [
                    'nostop', 'nostop', 'case', 'case', 'single', 'html',
                    'html', 'none']),
                'vocab': rng.choice(['tiny', 'small', 'small', 'unicode', '60', '400'] * 6
                                    + ['long']),
                'long': rng.choice([4, 10, 10, 30, 120]),
                'bulk': rng.random() < .15, 'implicit': implicit(rng, fam)}

    def make(self, cfg, fam=None, lexicon=None):
        from zope.index.text.cosineindex import CosineIndex
        from zope.index.text.okapiindex import OkapiIndex
        from zope.index.text.textindex import TextIndex
        if bare(cfg, fam) and not cfg.get('variant'):
            # what the defaults can give
            if lexicon is None and cfg['pipeline'] == 'default':
                if self.ranking == 'okapi':
                    ti = TextIndex()
                    return Real(ix=ti, raw=ti.index, lex=ti.lexicon)
            elif self.ranking == 'okapi':
                lex = lexicon if lexicon is not None \
                    else make_lexicon(cfg['pipeline'])
                ti = TextIndex(lex)
                return Real(ix=ti, raw=ti.index, lex=lex)
            lex = lexicon if lexicon is not None \
                else make_lexicon(cfg['pipeline'])
            raw = (OkapiIndex if self.ranking == 'okapi' else CosineIndex)(lex)
            ti = TextIndex(index=raw)
            return Real(ix=ti, raw=raw, lex=ti.lexicon)
        lex = lexicon if lexicon is not None else make_lexicon(cfg['pipeline'])
        cls = OkapiIndex if self.ranking == 'okapi' else CosineIndex
        if self.ranking == 'okapi' and cfg.get('variant'):
            from vf.variants import okapi_class
            cls = okapi_class(cfg['variant'])
        raw = cls(lex, family=family(fam or cfg['family']))
        ti = TextIndex(lex, raw)
        return Real(ix=ti, raw=raw, lex=lex)

    def wrap(self, cfg, roots):
        return Real(**roots)

    def model(self, cfg):
        return models.TextModel(self.ranking, cfg['pipeline'])

    def word(self, rng, cfg):
        n = len(VOCABS.get(cfg['vocab'], ())) or int(cfg['vocab'])
        k = min(int(n * rng.random() ** rng.choice([1, 2])), n - 1)
        return vocab_word(cfg, k)

    def text(self, rng, cfg):
        n = rng.choice([0, 1, 2, 3, cfg['long'] // 2, cfg['long']]) \
            if rng.random() < .4 else rng.randint(1, cfg['long'])
        out = []
        for _ in range(n):
            w = self.word(rng, cfg)
            r = rng.random()
            if r < .08:
                w = rng.choice(['the', 'and', 'The', 'NOT', 'or', 'a'])
            elif r < .14 and out:
                w = out[-2]
            if rng.random() < .15:
                c = rng.choice([w.upper(), w.capitalize()])
                w = c if c.lower() == w.lower() else w
            out += [w, rng.choice(SEPARATORS)]
            if cfg['pipeline'] == 'html' and rng.random() < .15:
                out.append(rng.choice(['<b>', '</p>', '&amp;', '<a href="foo">',
                                       '&', '<', ' > ', '&eacute;', '<br/>']))
        return ''.join(out)

    def content(self, rng, cfg):
        t = self.text(rng, cfg)
        r = rng.random()
        if cfg['pipeline'] == 'none' and r > .1:
            return t.split()
        if r < .04:
            return [t, self.text(rng, cfg)]
        if r < .05:
            return None
        return t

    def widen(self, rng, cfg):
        cfg['bulk'] = True
        if rng.random() < .5:
            return [('fill', 1000, 4200, self.word(rng, cfg), rng.randrange(5))]
        return [('vocab', 1000, *rng.choice([(2600, 1), (15, 500), (40, 450)]))]

    def gen_op(self, rng, cfg, m):
        r = rng.random()
        pool = cfg['pool']
        if cfg['bulk'] and r < .08:
            return ('fill', rng.choice([1000, 1005, 1012]),
                    rng.choice([9, 10, 11, 12, 40, 70, 130])
                    if rng.random() < .94
                    else rng.choice([300, 300, 1100, 1100,
                                     1100 if cfg.get('moderate') else 4200]),
                    self.word(rng, cfg), rng.randrange(5))
        if cfg['bulk'] and r < .12:
            return ('drain', rng.choice([1000, 1003, 1010]),
                    rng.choice([5, 20, 100, 280]))
        if cfg['bulk'] and r < .14:
            if rng.random() < .2:
                return ('vocab', rng.choice([1000, 1003]), *rng.choice(
                    [(30, 20), (70, 1), (40, 30), (35, 65), (1100, 1), (12, 300), (12, 300),
                     (12, 300) if cfg.get('moderate') else (15, 500)]))
            return ('lex', rng.choice(pool), rng.choice([130, 300]),
                    rng.randrange(3))
        if cfg['bulk'] and r < .16:
            return ('heavy', rng.choice(pool), self.word(rng, cfg),
                    rng.choice([255, 256, 300, 1000, 1000,
                                rng.choice([40000, 70000])]),
                    rng.choice([0, 1, 30]),
                    [self.word(rng, cfg) for _ in range(rng.choice([0, 2, 6]))])
        if r < .62:
            return ('i', rng.choice(pool), self.content(rng, cfg))
        if r < .72 and m.docs:
            # a small change of a document
            d = rng.choice(list(m.docs))
            if cfg['bulk'] and rng.random() < .3:
                d = max(m.docs, key=lambda d: len(m.docs[d]))
            ws = list(m.docs[d])
            x = rng.random()
            twice = [k for k, w in enumerate(ws) if ws.count(w) > 1] \
                if x < .2 and len(ws) < 400 else []
            if twice:
                # the same words, but one more and one less often
                ws[rng.choice(twice)] = rng.choice(ws)
            elif ws and x < .3:
                ws.pop(rng.randrange(len(ws)))
            elif ws and x < .5:
                ws.append(rng.choice(ws))
            elif ws and x < .6:
                rng.shuffle(ws)
            else:
                ws.insert(rng.randint(0, len(ws)), self.word(rng, cfg))
            return ('i', d, ws if cfg['pipeline'] == 'none'
                    else ' '.join(ws))
        if r < .98:
            d = rng.choice(list(m.docs)) if m.docs and rng.random() < .75 \
                else rng.choice(pool)
            return ('u', d)
        return ('c',)

    @staticmethod
    def expand(op):
        """bulk operation -> simple ones"""
        if op[0] == 'fill':
            return [('i', op[1] + j, (op[3] + ' ') * (1 + (j + op[4]) % 3)
                     + f'filler{j % 7}') for j in range(op[2])]
        if op[0] == 'drain':
            return [('u', op[1] + j) for j in range(op[2])]
        if op[0] == 'lex':
            return [('i', op[1], ' '.join(f'lex{op[3]}x{j}'
                                          for j in range(op[2])))]
        if op[0] == 'vocab':
            # many words
            return [('i', op[1] + j, ' '.join(
                f'many{(j * op[3] + k) * 7 % (9000 if op[3] > 400 else 3000)}'
                for k in range(op[3])))
                for j in range(op[2])]
        if op[0] == 'heavy':
            # one word very often
            lead = op[5]
            n = op[3] // 2 if len(lead) > 2 else op[3]
            return [('i', op[1], ' '.join(lead[:3]) + ' ' + (op[2] + ' ') * n
                     + ' '.join(lead[3:]) + (' ' + op[2]) * (op[3] - n) + ' '
                     + 'other ' * op[4])]
        return [op]

    def apply(self, real, op, cfg=None):
        ix = real.ix
        for o in self.expand(op):
            if o[0] == 'i':
                t = o[2]
                if cfg and cfg.get('pipeline') != 'none':
                    t = dressed(t, o)
                ix.index_doc(o[1], type(t)(t) if isinstance(t, list) else t)
            elif o[0] == 'u':
                ix.unindex_doc(o[1])
            elif o[0] == 'c':
                ix.clear()
            else:
                raise AssertionError(o)

    def apply_model(self, m, op, cfg=None):
        for o in self.expand(op):
            if o[0] == 'i':
                m.index(o[1], o[2])
            elif o[0] == 'u':
                m.unindex(o[1])
            elif o[0] == 'c':
                m.clear()

    def content_ops(self, m, order):
        return [('i', d, list(m.docs[d])) for d in order]

    # queries
    def kw(self, rng, k):
        return rng.choice([k, k.lower(), k.capitalize(), k])

    def gen_phrase(self, rng, cfg, m):
        docs = [w for w in m.docs.values() if len(w) > 1]
        if docs and rng.random() < .7:
            ws = rng.choice(docs)
            n = rng.randint(2, min(4, len(ws)))
            i = rng.randint(0, len(ws) - n)
            ws = list(ws[i:i + n])
            x = rng.random()
            if x < .12:
                ws[rng.randrange(n)] = self.word(rng, cfg)
            elif x < .2:
                ws.reverse()
            elif x < .25:
                ws.append(ws[-1])
            return ws
        return [self.word(rng, cfg) for _ in range(rng.randint(2, 3))]

    def gen_atom(self, rng, cfg, m, globs=True):
        if cfg['pipeline'] == 'none':
            return self.word(rng, cfg)
        r = rng.random()
        if r < .5:
            w = self.word(rng, cfg)
            c = rng.choice([w, w, w.upper(), w.capitalize()])
            return c if c.lower() == w.lower() else w
        if r < .58:
            return rng.choice(['nosuch', 'zzz', 'The', 'of', '"the a"', '--',
                               '"or"', '"AND"', '-"not"', '"or and"', 'and-or',
                               'AND*', '"not'])
        if r < .8:
            ws = self.gen_phrase(rng, cfg, m)
            if rng.random() < .6:
                return '"' + rng.choice([' ', '  ', ', ']).join(ws) + '"'
            return rng.choice(['-', '/', ',', "'"]).join(ws)
        if globs:
            w = self.word(rng, cfg)
            if rng.random() < (.5 if cfg.get('bulk') else .2) and m.docs:
                ws = rng.choice(list(m.docs.values()))
                w = rng.choice(ws) if ws else w
            k = rng.randint(1, len(w))
            if w.startswith(('many', 'filler')) and rng.random() < .6:
                # a prefix of very many words
                return w[:4] + rng.choice(['*', '*' + w[-1]])
            x = rng.random()
            if x < .6:
                return w[:k] + '*'
            if x < .8 and k < len(w):
                return w[:k] + '?' + w[k + 1:]
            return w[:k] + rng.choice(['?', '*?', '**', '?*', '*' + w[-1]])
        return self.word(rng, cfg)

    def gen_term(self, rng, cfg, m, depth, globs):
        if depth and rng.random() < .3:
            return '(' + self.gen_or(rng, cfg, m, depth - 1, globs) + ')'
        n = rng.choice([1, 1, 1, 2, 3])
        atoms = [self.gen_atom(rng, cfg, m, globs)]
        for _ in range(n - 1):
            a = self.gen_atom(rng, cfg, m, globs)
            atoms.append('-' + a if rng.random() < .25
                         and cfg['pipeline'] != 'none' else a)
        if rng.random() < .1:
            rng.shuffle(atoms)
        return ' '.join(atoms)

    def gen_and(self, rng, cfg, m, depth, globs):
        s = self.gen_term(rng, cfg, m, depth, globs)
        while rng.random() < .35:
            s += ' ' + rng.choice([self.kw(rng, 'AND'), self.kw(rng, 'NOT'),
                                   self.kw(rng, 'AND') + ' '
                                   + self.kw(rng, 'NOT')])
            s += ' ' + self.gen_term(rng, cfg, m, depth, globs)
        return s

    def gen_or(self, rng, cfg, m, depth=2, globs=True):
        s = self.gen_and(rng, cfg, m, depth, globs)
        while rng.random() < .3:
            s += ' ' + self.kw(rng, 'OR') + ' ' + self.gen_and(
                rng, cfg, m, depth, globs)
        return s

    def gen_query(self, rng, cfg, m, globs=True):
        if rng.random() < .02:
            # many terms
            op = rng.choice([' OR ', ' OR ', ' AND ', ' NOT ', ' ', None])
            s = self.gen_atom(rng, cfg, m, globs)
            for _ in range(size(rng, 80)):
                o = op or rng.choice([' OR ', ' AND ', ' NOT '])
                s += o + self.gen_atom(rng, cfg, m, globs)
            return s
        return self.gen_or(rng, cfg, m, rng.choice([0, 1, 2, 3]), globs)

    def gen_probe(self, rng, cfg, m, which=None, globs=True):
        r = rng.random()
        if which == 'q' or (which is None and r < .6):
            return ('q', self.gen_query(rng, cfg, m, globs))
        if which == 'raw' or (which is None and r < .85):
            x = rng.random()
            if x < .45:
                ws = [self.word(rng, cfg) for _ in range(rng.choice([1, 1, 2, 3])
                                                      if rng.random() < .96 else
                                                      size(rng, 150))]
                if rng.random() < .1:
                    ws.append('the')
                if cfg.get('pipeline') == 'none':
                    return ('search', ws)
                return ('search', ' '.join(ws))
            if x < .75:
                ws = self.gen_phrase(rng, cfg, m)
                return ('phrase', ws if rng.random() < .5 else ' '.join(ws))
            if globs:
                w = self.word(rng, cfg)
                if m.pipe.name != 'case':
                    w = w.lower()
                return ('glob', w[:rng.randint(1, len(w))]
                        + rng.choice(['*', '?', '*e', '']))
        if r < .9:
            return ('weight', [self.word(rng, cfg)
                               for _ in range(rng.randint(0, 4)
                                              if rng.random() < .95 else
                                              size(rng, 100))])
        if r < .95:
            d = rng.choice(list(m.docs)) if m.docs and rng.random() < .7 else \
                rng.choice(cfg['pool'])
            return ('has', d)
        return rng.choice(self.count_probes)

    def expect(self, m, p):
        if p[0] == 'q':
            r = m.apply(p[1])
            if r[0] != 'ok':
                return 'ParseError'
            if models.tree_has_glob(r[2]):
                return self.relative(r[1])
            return r[1]
        if p[0] == 'search':
            return m.search(p[1])
        if p[0] == 'phrase':
            return m.search_phrase(p[1])
        if p[0] == 'glob':
            return m.search_glob(p[1])
        if p[0] == 'weight':
            return float(m.query_weight(p[1]))
        if p[0] == 'has':
            return [p[1] in m.docs, sorted(set(m.docs.get(p[1], ())))]
        if p[0] == 'docs':
            return m.document_count()
        if p[0] == 'words':
            return m.word_count()
        raise AssertionError(p)

    @staticmethod
    def relative(scores):
        top = max(scores.values(), default=0) or 1.0
        return {'relative': {d: s / top for d, s in scores.items()}}

    def observe(self, real, p, m):
        if p[0] == 'q':
            from zope.index.text.parsetree import ParseError
            try:
                r = real.ix.apply(dressed(p[1], p))
            except ParseError:
                return 'ParseError'
            r = dict(r.items())
            try:
                t = m.parse(p[1])
            except models.PErr:
                return r
            if models.tree_has_glob(t):
                return self.relative(r)
            return r
        if p[0] == 'search':
            r = real.raw.search(list(p[1]) if isinstance(p[1], list)
                                else p[1])
            return None if r is None else dict(r.items())
        if p[0] == 'phrase':
            return dict(real.raw.search_phrase(
                list(p[1]) if isinstance(p[1], list) else p[1]).items())
        if p[0] == 'glob':
            return dict(real.raw.search_glob(p[1]).items())
        if p[0] == 'weight':
            return float(real.raw.query_weight(p[1]))
        if p[0] == 'has':
            has = real.raw.has_doc(p[1])
            ws = real.raw.get_words(p[1]) if has else []
            return [bool(has), sorted({real.lex.get_word(w) for w in ws})]
        if p[0] == 'docs':
            return real.ix.documentCount()
        if p[0] == 'words':
            return real.ix.wordCount()
        raise AssertionError(p)


class Okapi(Text):
    name = 'okapi'
    ranking = 'okapi'


class Cosine(Text):
    name = 'cosine'
    ranking = 'cosine'


KINDS = {k.name: k for k in
         (Field(), Keyword(), KeywordCI(), Topic(), Okapi(), Cosine())}
ALL = list(KINDS)
KINDS['keyword_own'] = KeywordOwn()
COUNTED = [k for k in ALL if k != 'topic']
__all__ = ['KINDS', 'ALL', 'COUNTED', 'near', 'math']
