from vf import core, models
from vf.kinds import VOCABS, family, make_lexicon

ALPHABETS = ['ab', 'abc.', 'a.b+', 'a$^\\b', '([{a})]|', 'a-b_\n', 'é日aA',
             'a*?b', 'ab\U0010ffff\uffff', 'aA.']


class C15(core.Prop):
    ID = 'C15'
    RULE = ('random words over a hostile alphabet (regular expression '
            'characters, newlines, wildcards, extreme code points) or a '
            'normal vocabulary, and patterns derived from them; non-trivial '
            'when a pattern matched some but not all words')
    FILES = ('text/lexicon.py', 'text/baseindex.py')
    QUICK, THOROUGH = 18000, 450000
    SHRINK = ('words', 'patterns')
    REQUIRE = {'pattern matched': 2000, 'rejected': 200, 'no wildcard': 200}

    def generate(self, rng, i, tier):
        alpha = rng.choice(ALPHABETS) if rng.random() < .7 else None
        if alpha:
            words = [''.join(rng.choice(alpha) for _ in
                             range(rng.choice([1, 2, 2, 3, 4, 6])))
                     for _ in range(rng.choice([3, 10, 40]))]
            pipe = 'space'
        else:
            words = list(VOCABS[rng.choice(['small', 'unicode'])])
            rng.shuffle(words)
            words = words[:rng.randint(3, 30)]
            pipe = rng.choice(['default', 'nostop', 'case', 'html'])
            if pipe != 'case':
                words = [w.lower() for w in words]
            words = [w for w in words if models.Pipeline(pipe)(w) == [w]]
            alpha = 'abcefglst'
        words = words or ['foo']
        long = rng.random() < .1
        if long:
            # long words
            u = rng.choice(['ab', 'a', 'aé', 'a日本', 'xyz'])
            for n in rng.sample((60, 63, 64, 100, 127, 128, 200, 255, 256,
                                 300, 1000), 4):
                w = (u * n)[:n]
                words += [w, w[:-1] + 'b', w + 'a']
            words = sorted(set(words))
        pats = []
        for _ in range(rng.randint(4, 14)):
            w = rng.choice(words)
            x = rng.random()
            if x < .1:
                p = w
            elif x < .15:
                p = rng.choice('*?') + w[1:]
            elif x < .5:
                p = w[:rng.randint(1, len(w))] + rng.choice(['*', '*', '?'])
            elif x < .6 and not long:
                # most of the word replaced
                p = w[0] + ''.join(
                    rng.choice('**??' + c) for c in w[1:12]) + w[12:]
            else:
                cs = list(w)
                for k in range(1, len(cs)):
                    y = rng.random()
                    if y < .3:
                        cs[k] = rng.choice('*?')
                    elif y < .36:
                        cs[k] = rng.choice(alpha)
                p = ''.join(cs)
                if long:
                    # (matching takes time in the power of the stars)
                    p = w[0] + p[1:].replace('*', 'a') + '*'
                    if rng.random() < .4:
                        k = rng.randrange(1, len(p))
                        p = p[:k] + '*' + p[k:]
                elif rng.random() < .3:
                    p += rng.choice(['*', '?', '**', alpha[0]])
            pats.append(p)
        return {'pipeline': pipe, 'words': words, 'patterns': pats,
                'family': rng.choice([32, 64]),
                'ranking': rng.choice(['okapi', 'cosine'])}

    def execute(self, case, mon):
        from zope.index.text.cosineindex import CosineIndex
        from zope.index.text.okapiindex import OkapiIndex
        from zope.index.text.parsetree import QueryError
        lex = make_lexicon(case['pipeline'])
        cls = OkapiIndex if case['ranking'] == 'okapi' else CosineIndex
        ix = cls(lex, family(case['family']))
        m = models.TextModel(case['ranking'], case['pipeline'])
        words = case['words']
        lex.sourceToWordIds(words[:3])    # words no document contains
        for d in range(0, len(words), 2):
            ix.index_doc(d, words[d:d + 3])
            m.index(d, words[d:d + 3])
        known = {w: lex.get_wid(w) for w in words if lex.get_wid(w)}
        for p in case['patterns']:
            if p[:1] in ('*', '?'):
                mon.raises(QueryError, lambda: lex.globToWordIds(p),
                           f'globToWordIds({p!r})')
                mon.raises(QueryError, lambda: ix.search_glob(p),
                           f'search_glob({p!r})')
                mon.count('rejected')
                continue
            if '*' not in p and '?' not in p:
                mon.count('no wildcard')
            exp = sorted(w for w in known if models.wildcard(p, w))
            got = [lex.get_word(i) for i in lex.globToWordIds(p)]
            mon.eq(sorted(got), exp, f'words matching {p!r}')
            docs = dict(ix.search_glob(p).items())
            mon.eq(sorted(docs), sorted(
                d for d, ws in m.docs.items()
                if any(models.wildcard(p, w) for w in ws)),
                f'documents of {p!r}')
            mon.eq(docs, m.search_glob(p), f'scores of {p!r}')
            mon.eq(bool(lex.isGlob(p)), '*' in p or '?' in p, f'isGlob({p!r})')
            if exp:
                mon.count('pattern matched')
                if len(exp) < len(known):
                    mon.nontrivial = True


PROP = C15()
