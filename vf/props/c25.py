import unicodedata

from vf import core
from vf import models
from vf.kinds import KINDS
from vf.kinds import dressed

DOTTED = 'dotted-capital-i'

RANGES = [(0x20, 0x7f), (0x41, 0x5b), (0x61, 0x7b), (0xa0, 0x180),
          (0x370, 0x400), (0x400, 0x460), (0x5d0, 0x5eb), (0x300, 0x330),
          (0x660, 0x66a), (0x900, 0x940), (0x2000, 0x2070), (0x2150, 0x2190),
          (0x3040, 0x30a0), (0x4e00, 0x4e40), (0xff00, 0xff60), (0x0, 0x20),
          (0x1d400, 0x1d440), (0x10400, 0x10450), (0x1f600, 0x1f610),
          (0xfb00, 0xfb07), (0x1f80, 0x1fb0), (0xe000, 0xe004),
          (0xd800, 0xd803), (0x2460, 0x2480), (0x10d0, 0x10f0), (0x13a0, 0x13c0)]
WORDS = ('The the AND and Foo foo FOO bar_baz x1 1x _ __ a A I it It zope '
         'don\'t e-mail C++ naïve ÉCOLE école straße STRASSE ΟΔΟΣ οδος ǅ ﬁ '
         '日本語 с с́ы 3.14 1,000 hello@example.org under_score if then this '
         'that their there they with will was').split(' ')
TAGS = ['<b>', '</b>', '<br/>', '<a href="foo bar">', '<', '>', '&amp;',
        '&AMP;', '&eacute;', '&', ';', '&#38;', '&foo', '&1;', '<!-- the -->',
        '< >', '<>', '<<b>>', '&;', '<foo\nbar>']


def char(rng):
    a, b = rng.choice(RANGES)
    return chr(rng.randrange(a, b))


def soup(rng, html):
    out = []
    if rng.random() < .06:
        # single characters, or any of the common words
        cs = [chr(rng.randrange(0x30, 0x110)) for _ in range(40)]
        if rng.random() < .5:
            cs = rng.sample(sorted(models.STOPWORDS), 20) + cs[:4]
        return ' '.join(cs)
    for _ in range(rng.choice([0, 1, 3, 8, 20, 40])):
        r = rng.random()
        if r < .35:
            n = rng.randint(1, 6) if rng.random() < .97 else \
                int(600 ** rng.random())
            out.append(''.join(char(rng) for _ in range(n)) if n < 7 else
                       char(rng) * n + char(rng))
        elif r < .75:
            w = rng.choice(WORDS)
            if rng.random() < .12:
                # nearly a common word
                w = rng.choice(sorted(models.STOPWORDS))
                x = rng.choice(['0', '1', '_', 's', 'a', 'é', '̀', '00', 'the', "'"])
                w = rng.choice([w + x, x + w, w[:-1], w + w, w[::-1], w])
            elif rng.random() < .03:
                w = w * int(100 ** rng.random()) + 'end'
            out.append(rng.choice([w, w, w.upper(), w.swapcase(), w.title()]))
        elif html and r < .9:
            out.append(rng.choice(TAGS))
        else:
            out.append(rng.choice([' ', '.', '-', '\n', '\t', '*', '?', '"',
                                   '\u3000', '\xa0', '\u200b', '\x00', ', ']))
        if rng.random() < .6:
            out.append(' ')
    return ''.join(out)


class C25(core.Prop):
    ID = 'C25'
    RULE = ('random text of characters of many scripts and classes, words in '
            'odd casing, markup; split by each pipeline, then indexed and '
            'searched for by all of its words in several casings and by runs; '
            'non-trivial when a document was found by its own words')
    FILES = ('text/lexicon.py', 'text/htmlsplitter.py', 'text/textindex.py',
             'text/queryparser.py', 'text/baseindex.py')
    QUICK, THOROUGH = 14000, 350000
    SHRINK = ('texts',)
    REQUIRE = {'found by word': 5000, 'found by run': 2000,
               'other casing': 3000, 'stop words': 1000, 'list content': 500}

    def generate(self, rng, i, tier):
        pipe = rng.choice(['default', 'default', 'default', 'html', 'html',
                           'nostop', 'single', 'case'])
        dotted = rng.random() < .01
        texts = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            n = rng.choice([None, None, None, 0, 1, 2, 3])
            t = soup(rng, pipe == 'html') if n is None else [
                soup(rng, pipe == 'html') for _ in range(n)]
            if dotted:
                t = (t if isinstance(t, str) else ' '.join(t)) + ' İstanbul'
            texts.append(t)
        return {'pipeline': pipe, 'texts': texts,
                'ranking': rng.choice(['okapi', 'cosine']),
                'casings': rng.randrange(10 ** 6)}

    def execute(self, case, mon):
        from zope.index.text.htmlsplitter import HTMLWordSplitter
        from zope.index.text.lexicon import CaseNormalizer
        from zope.index.text.lexicon import Splitter
        from zope.index.text.lexicon import StopWordRemover
        kind = KINDS[case['ranking']]
        cfg = {'family': 32, 'pipeline': case['pipeline']}
        real = kind.make(cfg)
        pipe = models.Pipeline(case['pipeline'])
        lex = real.lex
        for n, t in enumerate(case['texts']):
            exp = pipe(t)
            t = dressed(t, t)
            mon.eq(list(lex.parseTerms(t)), pipe(t, glob=True),
                   f'parseTerms({t!r})')
            chunks = [t] if isinstance(t, str) else t
            copy = list(chunks)
            mon.eq(Splitter().process(chunks),
                   [w for c in chunks for w in models.split_words(c)],
                   f'Splitter on {t!r}')
            mon.eq(Splitter().processGlob(chunks),
                   [w for c in chunks for w in models.split_globs(c)],
                   f'Splitter, globs, on {t!r}')
            mon.eq(HTMLWordSplitter().process(chunks),
                   [w for c in chunks for w in
                    models.split_words(models.strip_markup(c))],
                   f'HTMLWordSplitter on {t!r}')
            mon.eq(HTMLWordSplitter().processGlob(chunks),
                   [w for c in chunks for w in
                    models.split_globs(models.strip_markup(c))],
                   f'HTMLWordSplitter, globs, on {t!r}')
            words = [w for c in chunks for w in c.split(' ')]
            mon.eq(CaseNormalizer().process(words), [w.lower() for w in words],
                   'CaseNormalizer')
            mon.eq(StopWordRemover().process(words),
                   [w for w in words if w not in models.STOPWORDS],
                   'StopWordRemover')
            mon.eq(list(chunks), copy, 'the list passed to pipeline elements')
            ids = lex.sourceToWordIds(t)
            mon.eq([lex.get_word(w) for w in ids], exp, f'words of {t!r}')
            mon.eq(list(lex.termToWordIds(t)), list(ids),
                   f'ids of {t!r} as a term')
            real.ix.index_doc(n, list(t) if isinstance(t, list) else t)
            mon.eq(sorted({lex.get_word(w) for w in real.raw.get_words(n)}),
                   sorted(set(exp)), f'indexed words of {t!r}')
            if len(exp) < sum(len(models.split_words(c)) for c in chunks):
                mon.count('stop words')
            if isinstance(t, list):
                mon.count('list content')
        mon.count('pipeline ' + case['pipeline'])
        import random
        rng = random.Random(case['casings'])
        for n, t in enumerate(case['texts']):
            self.retrieve(kind, real, pipe, n, t, rng, mon)

    def retrieve(self, kind, real, pipe, n, t, rng, mon):
        chunks = [t] if isinstance(t, str) else t
        if pipe.name == 'html':
            chunks = [models.strip_markup(c) for c in chunks]
        source = [w for c in chunks for w in models.split_words(c)]
        for w in source[:12]:
            for c in {w, w.upper(), w.lower(), w.swapcase(), w.title(),
                      unicodedata.normalize('NFC', w)}:
                if pipe.name == 'case' and c != w:
                    continue
                if pipe(c) != pipe(w) or len(models.split_words(c)) != 1 or \
                        not pipe(w) or c.lower() in ('and', 'or', 'not'):
                    continue
                key = DOTTED if 'İ' in c else None
                got = real.ix.apply(c)
                # (None: all parts of the query are ignored)
                mon.check(got is not None and n in got,
                          lambda: f'{c!r} does not find the text '
                          f'{t!r}', key)
                mon.count('found by word')
                mon.nontrivial = True
                if c != w:
                    mon.count('other casing')
        if 'İ' in ''.join(source) or pipe.name == 'html' and \
                'İ' in ''.join(t):
            return
        for _ in range(4):
            if not source:
                break
            i = rng.randrange(len(source))
            run = source[i:i + rng.randint(1, 6)]
            if not pipe(run) or pipe(' '.join(run)) != pipe(run):
                continue
            if rng.random() < .4 and pipe.name != 'case':
                up = [w.upper() for w in run]
                if pipe(up) == pipe(run):
                    run = up
            q = '"' + rng.choice([' ', '  ', ' - ']).join(run) + '"'
            mon.check(n in (real.ix.apply(q) or ()), lambda: f'the query {q!r} does not '
                      f'find {t!r}')
            mon.check(n in (real.raw.search_phrase(' '.join(run)) or ()),
                      lambda: f'the phrase {run!r} does not find {t!r}')
            mon.count('found by run')

    def probe_known(self, key):
        case = {'pipeline': 'default', 'texts': ['İstanbul'],
                'ranking': 'okapi', 'casings': 1}
        try:
            self.execute(case, core.Monitor())
        except core.Violation as v:
            return v.key == key
        return False


PROP = C25()
