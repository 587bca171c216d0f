from vf import core, models
from vf.kinds import KINDS, SEPARATORS, VOCABS, make_lexicon

PIPES = ['default', 'default', 'nostop', 'case', 'single', 'html', 'space', 'none']


class C14(core.Prop):
    ID = 'C14'
    RULE = ('a random sequence of source texts, query-side lookups and index '
            'operations of two indexes sharing one lexicon; non-trivial when '
            'ten or more words were registered')
    FILES = ('text/lexicon.py',)
    QUICK, THOROUGH = 12000, 300000
    REQUIRE = {'words registered': 2000, 'lookups': 2000, 'listings': 1000}

    def words(self, rng, case):
        v = case['vocab']
        out = []
        for _ in range(rng.choice([0, 1, 3, 8, 20])):
            if v == 'num':
                w = f'w{rng.randrange(500)}'
            else:
                w = rng.choice(VOCABS[v])
            x = rng.random()
            if x < .1:
                w = rng.choice(['the', 'of', 'a', '', '9', '_', 'x'])
            elif x < .2 and w.upper().lower() == w.lower():
                w = w.upper()
            out += [w, rng.choice(SEPARATORS)]
        return ''.join(out)

    def generate(self, rng, i, tier):
        case = {'pipeline': rng.choice(PIPES),
                'vocab': rng.choice(['tiny', 'small', 'unicode', 'num']),
                'ops': []}
        for _ in range(rng.choice([3, 8, 20, 40])):
            t = self.words(rng, case)
            r = rng.random()
            if r < .25:
                op = ('source', [t, self.words(rng, case)]
                      if rng.random() < .2 else t)
            elif r < .28:
                op = ('source', rng.choice([None, '', [], ['']]))
            elif r < .45:
                op = ('index', rng.randrange(2), rng.randrange(4), t)
            elif r < .53:
                op = ('unindex', rng.randrange(2), rng.randrange(4))
            elif r < .55:
                op = ('clear', rng.randrange(2))
            elif r < .68:
                op = ('term', t)
            elif r < .74:
                op = ('parse', t)
            elif r < .82:
                w = (t.split() or ['zz'])[0]
                op = ('glob', w[:2] + '*')
            elif r < .9:
                op = ('wid', (t.split() or ['q'])[0])
            elif r < .93:
                op = ('query', rng.randrange(2), t)
            else:
                op = ('list',)
            case['ops'].append(op)
        if rng.random() < .03:
            case['ops'].insert(0, ('source', ' '.join(
                f'bulk{k}' for k in range(rng.choice([150, 1000, 5000])))))
        return case

    def execute(self, case, mon):
        from vf.kinds import family
        from zope.index.text.okapiindex import OkapiIndex
        from zope.index.text.cosineindex import CosineIndex
        from zope.index.text.parsetree import ParseError, QueryError
        from zope.index.text.textindex import TextIndex
        lex = make_lexicon(case['pipeline'])
        pipe = models.Pipeline(case['pipeline'])
        known = {}
        idx = [OkapiIndex(lex, family(32)), CosineIndex(lex, family(64))]
        docs = [{}, {}]

        def fed(ws, wids):
            mon.eq(len(wids), len(ws), 'one id per word')
            for w, i in zip(ws, wids):
                mon.check(type(i) is int and i > 0,
                          f'id {i!r} of {w!r} is not a positive int')
                if w in known:
                    mon.eq(i, known[w], f'id of {w!r} changed')
                else:
                    mon.check(i not in known.values(),
                              f'id {i} given to {w!r} is already used')
                    known[w] = i
                    mon.count('words registered')

        def learn(ws):
            # fed through an index: read the ids back
            new = [w for w in dict.fromkeys(ws) if w not in known]
            fed(new, [lex.get_wid(w) for w in new])

        def listing():
            words, wids = list(lex.words()), list(lex.wids())
            items = list(lex.items())
            mon.eq(sorted(words), sorted(known), 'words()')
            mon.eq(sorted(wids), sorted(known.values()), 'wids()')
            mon.eq(sorted(items), sorted(known.items()), 'items()')
            mon.eq(lex.wordCount(), len(known), 'wordCount()')
            for w, i in items[:50]:
                mon.eq((lex.get_word(i), lex.get_wid(w)), (w, i), 'lookups')
            mon.count('listings')

        for op in case['ops']:
            k = op[0]
            if k == 'source':
                t = op[1]
                fed(pipe(t), lex.sourceToWordIds(
                    list(t) if isinstance(t, list) else t))
            elif k == 'index':
                ws = pipe(op[3])
                idx[op[1]].index_doc(op[2], op[3])
                learn(ws)
                docs[op[1]][op[2]] = ws
                mon.eq(list(idx[op[1]].get_words(op[2])),
                       [known[w] for w in ws], 'ids stored in the index')
            elif k == 'unindex':
                idx[op[1]].unindex_doc(op[2])
                docs[op[1]].pop(op[2], None)
            elif k == 'clear':
                idx[op[1]].clear()
                docs[op[1]].clear()
            elif k == 'term':
                mon.eq(list(lex.termToWordIds(op[1])),
                       [known.get(w, 0) for w in pipe(op[1])],
                       f'termToWordIds({op[1]!r})')
            elif k == 'parse':
                mon.eq(list(lex.parseTerms(op[1])), pipe(op[1], glob=True),
                       f'parseTerms({op[1]!r})')
            elif k == 'glob':
                try:
                    got = sorted(lex.globToWordIds(op[1]))
                    mon.eq(got, sorted(i for w, i in known.items()
                                       if models.wildcard(op[1], w)),
                           f'globToWordIds({op[1]!r})')
                except QueryError:
                    mon.check(op[1][0] in '*?', f'QueryError for {op[1]!r}')
            elif k == 'wid':
                mon.eq(lex.get_wid(op[1]), known.get(op[1], 0),
                       f'get_wid({op[1]!r})')
            elif k == 'query':
                try:
                    TextIndex(lex, idx[op[1]]).apply(op[2])
                except (ParseError, QueryError):
                    pass
            if k == 'list':
                listing()
            elif k not in ('source', 'index'):
                mon.count('lookups')
                mon.eq(lex.wordCount(), len(known), f'wordCount after {op!r}')
        listing()
        for n in (0, 1):
            for d, ws in docs[n].items():
                mon.eq([lex.get_word(i) for i in idx[n].get_words(d)], ws,
                       f'words of document {d}')
        for i in (0, -1, max(known.values(), default=0) + 1):
            mon.raises(KeyError, lambda: lex.get_word(i), f'get_word({i})')
        mon.nontrivial = len(known) >= 10
        _ = KINDS


PROP = C14()
