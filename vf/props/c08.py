from vf import core, models


class HostileLexicon:
    """An ILexicon that hands out arbitrary word ids."""

    def __init__(self, wids):
        self.w2i = dict(wids)
        self.i2w = {i: w for w, i in wids.items()}

    def _split(self, text):
        if isinstance(text, str):
            text = [text]
        return models.Pipeline('case')(text)

    def sourceToWordIds(self, text):
        return [self.w2i[w] for w in self._split(text)]

    def termToWordIds(self, text):
        return [self.w2i.get(w, 0) for w in self._split(text)]

    def parseTerms(self, text):
        if isinstance(text, str):
            text = [text]
        return [w for s in text for w in models.split_globs(s)]

    def isGlob(self, word):
        return '*' in word or '?' in word

    def globToWordIds(self, pattern):
        return sorted(i for w, i in self.w2i.items()
                      if models.wildcard(pattern, w))

    def get_word(self, wid):
        return self.i2w[wid]

    def get_wid(self, word):
        return self.w2i.get(word, 0)


class C08(core.Prop):
    ID = 'C08'
    RULE = ('documents and phrases over a small vocabulary whose word ids are '
            'chosen so that their codes are prefixes, suffixes and '
            'neighbours of each other (or handed out by the real lexicon after '
            'growing past the code length limits); non-trivial when a phrase '
            'of two or more words was found in some but not all documents '
            'that contain all its words')
    FILES = ('text/baseindex.py', 'text/widcode.py')
    QUICK, THOROUGH = 7000, 175000
    SHRINK = ('docs', 'phrases', 'removed')
    REQUIRE = {'phrase found': 300, 'words present but not in sequence': 300,
               'real lexicon': 50}

    def wid(self, rng):
        lead = rng.choice([1, 1, 2, 3, 127])
        w = lead
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            w = w * 128 + rng.choice([0, 1, 1, 2, 5, 127])
        return w

    def generate(self, rng, i, tier):
        n = rng.choice([2, 3, 4, 6])
        real = rng.random() < .15
        wids = set()
        while len(wids) < n:
            wids.add(self.wid(rng) if rng.random() < .9
                     else rng.randint(1, 2 ** 28 - 1))
        wids = sorted(wids)
        rng.shuffle(wids)
        words = [f'v{k}' for k in range(n)]
        docs = []
        for d in range(rng.choice([3, 8, 14])):
            docs.append((d * 3 - 6, [rng.choice(words) for _ in
                                     range(rng.choice([1, 2, 3, 5, 8, 20]))]))
        phrases = []
        if rng.random() < .15:
            # a long one, and documents that nearly contain it
            k = rng.choice([9, 17, 30, 70, 140])
            ws = [rng.choice(words) for _ in range(k)]
            phrases.append(ws)
            for n in range(rng.choice([1, 2, 3])):
                near = list(ws)
                j = rng.choice([0, 1, k // 2, k - 2, k - 1, rng.randrange(k)])
                how = rng.choice(['same', 'swap', 'swap', 'other', 'drop', 'add'])
                if how == 'swap':
                    near[j], near[j - 1] = near[j - 1], near[j]
                elif how == 'other':
                    near[j] = rng.choice(words)
                elif how == 'drop':
                    del near[j]
                elif how == 'add':
                    near.insert(j, rng.choice(words))
                docs.append((100 + n, [rng.choice(words) for _ in range(
                    rng.choice([0, 1, 5]))] + near + [
                        rng.choice(words) for _ in range(rng.choice([0, 1, 5]))]))
        for _ in range(rng.randint(4, 14)):
            ws = rng.choice(docs)[1]
            if rng.random() < .6 and len(ws) > 1:
                k = rng.randint(1, min(5, len(ws)))
                j = rng.randint(0, len(ws) - k)
                ws = ws[j:j + k]
            else:
                ws = [rng.choice(words) for _ in range(rng.choice([1, 2, 2, 3]))]
            phrases.append(ws)
        case = {'ranking': rng.choice(['okapi', 'cosine']),
                'family': rng.choice([32, 64]), 'docs': docs,
                'phrases': phrases,
                'removed': [rng.choice(docs)[0] for _ in
                            range(rng.choice([0, 0, 1, 2]))],
                'reindex': rng.random() < .3}
        if real:
            # the id each word gets depends on how many words come before it
            case['grow'] = [rng.choice([0, 1, 60, 126, 128, 250, 16300])
                            if rng.random() < (.7 if k else 1) else 0
                            for k in range(n)]
            if sum(case['grow']) > 17000:
                case['grow'] = [g if g < 16000 else 16300 * (k == 0)
                                for k, g in enumerate(case['grow'])]
        else:
            case['wids'] = dict(zip(words, wids))
        return case

    def execute(self, case, mon):
        from vf.kinds import KINDS, family, make_lexicon
        from zope.index.text.cosineindex import CosineIndex
        from zope.index.text.okapiindex import OkapiIndex
        from zope.index.text.textindex import TextIndex
        if 'wids' in case:
            lex = HostileLexicon(case['wids'])
        else:
            lex = make_lexicon('nostop')
            k = 0
            for j, n in enumerate(case['grow']):
                lex.sourceToWordIds([f'grow{k + x}' for x in range(n)])
                k += n
                lex.sourceToWordIds(f'v{j}')
            mon.count('real lexicon')
        cls = OkapiIndex if case['ranking'] == 'okapi' else CosineIndex
        raw = cls(lex, family=family(case['family']))
        ti = TextIndex(lex, raw)
        m = models.TextModel(case['ranking'], 'nostop')
        for d, ws in case['docs']:
            if case['reindex']:
                ti.index_doc(d, ' '.join(reversed(ws)))
            ti.index_doc(d, ' '.join(ws))
            m.index(d, ws)
        for d in case['removed']:
            ti.unindex_doc(d)
            m.unindex(d)
        for d in m.docs:
            mon.eq([lex.get_word(w) for w in raw.get_words(d)], m.docs[d],
                   f'words of {d}')
        for ws in case['phrases']:
            exp = m.search_phrase(ws)
            for q in (ws, ' '.join(ws)):
                mon.eq(dict(raw.search_phrase(q).items()), exp,
                       f'search_phrase({q!r})')
            qw = m.query_weight([ws]) or 1.0
            norm = {d: s / qw for d, s in exp.items()}
            for q in ('"' + '  '.join(ws) + '"', '-'.join(ws), ','.join(ws),
                      '("' + ', '.join(ws) + '")'):
                mon.eq(dict(ti.apply(q).items()), norm, f'query {q!r}')
            allw = [d for d, dw in m.docs.items() if set(ws) <= set(dw)]
            if exp:
                mon.count('phrase found')
            if len(exp) < len(allw):
                mon.count('words present but not in sequence')
                mon.nontrivial = mon.nontrivial or bool(exp)
        mon.eq(dict(raw.search_phrase(['v0', 'unknown']).items()), {},
               'unknown word')
        _ = KINDS


PROP = C08()
