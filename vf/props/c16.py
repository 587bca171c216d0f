from vf import core, models
from vf.kinds import KINDS, make_lexicon

PIECES = (['foo', 'bar', 'Baz', 'the', 'The', 'of', 'A', 'foo*', 'b?r', 'th*',
           'foo-bar', 'foo.bar', 'x', '42', 'été', '"foo bar"', '"foo"',
           '"the of"', '"the"', '-foo', '-"foo bar"', '-the', '-foo-bar',
           '--foo', '-', '--', '"', '""', '-""', '*', '?', '*foo', "o'neil",
           'and', 'AND', 'And', 'aNd', 'or', 'OR', 'Or', 'not', 'NOT', 'Not',
           '"and"', '-or', '-NOT', 'andy', 'notor', '(', ')', '(', ')', '()',
           '-(', 'foo(bar)', '"foo', 'bar"', '\u00a0', '\u3000', '\t', '\n',
           '\x00', '\x1c', '.', '!!', '_', 'foo_bar', '"(foo)"', '" and "',
           '日本', 'a-b', '"a b c foo"', 'foo"bar"baz', '-"the"', 'ſ', '½'])


class C16(core.Prop):
    ID = 'C16'
    RULE = ('query strings: grammatical ones, mutated ones, token soup, '
            'random characters, deep nesting; each parsed by a long-lived '
            'parser and by a new one; non-trivial when a tree with an '
            'operator resulted')
    FILES = ('text/queryparser.py', 'text/parsetree.py')
    QUICK, THOROUGH = 16000, 400000
    SHRINK = ('queries',)
    REQUIRE = {'trees': 3000, 'parse errors': 3000, 'ignored words': 500,
               'trees with OR': 200, 'trees with NOT': 200,
               'trees with PHRASE': 200, 'trees with GLOB': 200}

    def generate(self, rng, i, tier):
        pipe = rng.choice(['default'] * 4 + ['nostop', 'case', 'html', 'single'])
        kind = KINDS['okapi']
        cfg = {'vocab': 'small', 'pool': [0], 'pipeline': pipe}
        m = models.TextModel('okapi', pipe)
        qs = []
        for _ in range(rng.randint(4, 14)):
            x = rng.random()
            if x < .4:
                q = kind.gen_query(rng, cfg, m)
                if rng.random() < .4:
                    q = self.mutate(rng, q)
            elif x < .8:
                sep = rng.choice([' ', ' ', ' ', '  ', ''])
                q = sep.join(rng.choice(PIECES) for _ in
                             range(rng.choice([0, 1, 2, 3, 4, 6, 9])))
            elif x < .92:
                q = ''.join(rng.choice('ab -"()*?\tANDORNOTandornot\u00e9\x00')
                            for _ in range(rng.randint(0, 25)))
            elif x < .97:
                n = rng.choice([5, 30, 90])
                q = '(' * n + 'foo' + ')' * (n + rng.choice([0, 0, 0, 1, -1]))
            else:
                n = rng.choice([10, 60])
                q = '(foo OR ' * n + 'bar' + ' NOT the)' * n
            qs.append(q)
        return {'pipeline': pipe, 'queries': qs}

    def mutate(self, rng, q):
        for _ in range(rng.choice([1, 1, 2, 4])):
            k = rng.randint(0, len(q))
            if rng.random() < .5:
                q = q[:k] + q[k + rng.choice([1, 1, 3]):]
            else:
                q = q[:k] + rng.choice(['(', ')', '"', '-', ' ', ' AND ', ' or',
                                        ' NOT ', '*', ' the ']) + q[k:]
        return q

    def plain(self, t):
        k = t.nodeType()
        v = t.getValue()
        if k in ('AND', 'OR'):
            return (k, [self.plain(x) for x in v])
        if k == 'NOT':
            return (k, self.plain(v))
        if k == 'PHRASE':
            return (k, [str(x) for x in v])
        return (k, str(v))

    def outcome(self, parser, q, ex, keep=None):
        from zope.index.text.parsetree import ParseError
        try:
            if ex:
                t, ignored = parser.parseQueryEx(q)
            else:
                t = parser.parseQuery(q)
                ignored = parser.getIgnored()
        except ParseError:
            return 'ParseError'
        if keep is not None:
            keep.append((q, t, ignored))
        return [self.plain(t), list(ignored), list(t.terms())]

    def execute(self, case, mon):
        from zope.index.text.queryparser import QueryParser
        lex = make_lexicon(case['pipeline'])
        old = QueryParser(lex)
        ref = models.RefParser(models.Pipeline(case['pipeline']))
        kept, before = [], []
        for n, q in enumerate(case['queries']):
            try:
                t = ref.parse(q)
                exp = [t, ref.ignored, models.tree_terms(t)]
            except models.PErr:
                exp = 'ParseError'
            new = self.outcome(QueryParser(lex), q, n % 2)
            mon.eq(new, exp, f'parse of {q!r}')
            mon.eq(self.outcome(old, q, (n + 1) % 2, kept), exp,
                   f'parse of {q!r} by a parser used before')
            if len(kept) > len(before):
                before.append(exp)
            if exp == 'ParseError':
                mon.count('parse errors')
            else:
                mon.count('trees')
                mon.count('ignored words', len(exp[1]))
                kinds = self.kinds(exp[0])
                for k in kinds:
                    mon.count('trees with ' + k)
                mon.nontrivial = mon.nontrivial or 'AND' in kinds \
                    or 'OR' in kinds
        # what was handed out does not change when the parser goes on
        for (q, t, ignored), exp in zip(kept, before):
            mon.eq([self.plain(t), list(ignored), list(t.terms())], exp,
                   f'later: parse of {q!r}')
            mon.count('judged again later')
        mon.eq(sorted(lex.words()), [], 'parsing added words')

    def kinds(self, t):
        if t[0] in ('AND', 'OR'):
            return {t[0]}.union(*[self.kinds(x) for x in t[1]])
        if t[0] == 'NOT':
            return {'NOT'} | self.kinds(t[1])
        return {t[0]}


PROP = C16()
