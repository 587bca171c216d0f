from vf import models
from vf.hist import HistProp


class C07(HistProp):
    ID = 'C07'
    RULE = ('a random history on a text index and random boolean queries, '
            'executed through TextIndex.apply; non-trivial when a query with '
            'an operator, phrase or glob had to return at least one document')
    USE = ('okapi', 'cosine')
    FILES = ('text/queryparser.py', 'text/parsetree.py', 'text/baseindex.py',
             'text/setops.py', 'text/textindex.py')
    QUICK, THOROUGH = 4000, 100000
    WHICH = 'q'
    FINAL = (6, 20)
    REQUIRE = {'found by NOT': 50, 'found by OR': 50, 'found by AND': 50,
               'found by PHRASE': 50, 'found by GLOB': 50, 'ParseError': 50,
               'only negations or common words': 20}

    def judge(self, kind, real, m, p, mon, what):
        exp = kind.expect(m, p)
        got = kind.observe(real, p, m)
        mon.count('probe q')
        if exp == 'ParseError' or got == 'ParseError':
            mon.eq(got, exp, what + repr(p))
            mon.count('ParseError')
            return
        mon.eq(self.ids(got), self.ids(exp), f'{what}documents of {p[1]!r}')
        t = m.parse(p[1])
        # the documents, by plain membership tests on the word lists
        mon.eq(self.ids(got), sorted(
            d for d in m.docs if self.matches(m, t, d)),
            f'{what}documents of {p[1]!r} by membership')
        if self.ids(exp):
            for k in self.parts(t):
                mon.count('found by ' + k)
                mon.nontrivial = mon.nontrivial or k != 'ATOM'

    @staticmethod
    def ids(r):
        return sorted(r.get('relative', r))

    def parts(self, t):
        res = {t[0]}
        if t[0] in ('AND', 'OR'):
            for s in t[1]:
                res |= self.parts(s)
        elif t[0] == 'NOT':
            res |= self.parts(t[1])
        return res

    def matches(self, m, t, d):
        k, v = t
        words = m.docs[d]
        if k == 'ATOM':
            return v in words
        if k == 'GLOB':
            return any(models.wildcard(v, w) for w in words)
        if k == 'PHRASE':
            ws = m.pipe(v)
            return bool(ws) and models.contains_run(words, ws)
        if k == 'NOT':
            return not self.matches(m, v, d)
        return (all if k == 'AND' else any)(self.matches(m, s, d) for s in v)

    def finish(self, kind, cfg, real, m, case, mon):
        from zope.index.text.parsetree import ParseError
        if m.pipe.name == 'none':
            return
        w = sorted({x for ws in m.docs.values() for x in ws})[:2] or ['foo']
        if m.pipe.name in ('default', 'html', 'single'):
            bad = ['the', 'The AND of', '"to be or"', 'the OR of',
                   '(the) AND NOT (a)', 'of the a', f'the NOT {w[0]}',
                   f'the AND NOT {w[0]}', f'-{w[0]}', f'-{w[0]} -{w[-1]}',
                   f'the -{w[0]}', f'(the) NOT {w[0]}']
        else:
            bad = [f'-{w[0]}', f'-{w[0]} -{w[-1]}', f'-"{w[0]} {w[-1]}"']
        for q in bad:
            mon.raises(ParseError, lambda: real.ix.apply(q), f'query {q!r}')
            mon.count('only negations or common words')


PROP = C07()
