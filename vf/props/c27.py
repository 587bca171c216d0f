from vf import core
from vf import zdb
from vf.kinds import KINDS


def downgrade(real, what):
    """Give the objects the state an old release has stored."""
    raw, lex = real.raw, real.lex
    if 'docs' in what:
        del raw.documentCount
    if 'words' in what:
        del raw.wordCount
    if 'total' in what and hasattr(raw, '_totaldoclen'):
        raw._totaldoclen = int(raw._totaldoclen())
    if 'lexicon' in what:
        del lex.wordCount


def renumber(lex, words, near=False):
    """Old lexicons did not number their words consecutively."""
    for k, w in enumerate(words):
        # (near: ids that new words would get are taken)
        wid = len(words) + 2 + k * 2 if near else 10 ** 6 + 7919 * k + k * k
        lex._wids[w] = wid
        lex._words[wid] = w
    lex.wordCount.set(len(words))


class C27(core.Prop):
    ID = 'C27'
    RULE = ('a random history on an index whose counters are taken away (or '
            'made plain numbers) at a random point, as in state written by '
            'old releases, in memory or through a database; compared with the '
            'model and with a twin that keeps its counters; non-trivial when '
            'counters had to be upgraded and were then judged')
    FILES = ('text/baseindex.py', 'text/okapiindex.py', 'text/lexicon.py')
    QUICK, THOROUGH = 4000, 120000
    SHRINK = ('before', 'after', 'probes')
    REQUIRE = {'upgraded docs': 500, 'upgraded words': 500,
               'queried with a plain total': 300, 'upgraded lexicon': 500,
               'sparse word ids': 50, 'first: index': 200, 'first: reindex': 200,
               'first: unindex': 200,
               'first: clear': 50}

    def generate(self, rng, i, tier):
        kind = KINDS[rng.choice(['okapi', 'okapi', 'cosine'])]
        cfg = kind.config(rng, tier)
        cfg['moderate'] = True      # judged after every single operation
        m = kind.model(cfg)
        before = kind.gen_ops(rng, cfg, rng.choice([0, 2, 6, 15, 30]), m)
        what = sorted(rng.choice([
            {'docs', 'words', 'total', 'lexicon'},
            {'docs', 'words', 'total', 'lexicon'}, {'total'}, {'lexicon'},
            {w for w in ('docs', 'words', 'total', 'lexicon')
             if rng.random() < .5}]))
        sparse = 'lexicon' in what and rng.random() < .2 and \
            rng.choice(['far', 'near'])
        if sparse:
            before, m = [], kind.model(cfg)
        early = kind.gen_probes(rng, cfg, m, 3)
        r, after = rng.random(), []
        docs = sorted(m.docs)
        if docs and r < .3:
            after = [('i', rng.choice(docs), kind.text(rng, cfg))]
        elif docs and r < .6:
            after = [('u', rng.choice(docs))]
        elif r < .9:
            new = [d for d in cfg['pool'] if d not in m.docs]
            if new:
                after = [('i', rng.choice(new), kind.text(rng, cfg))]
        if rng.random() < .08:
            after = [('c',)]
        for op in after:
            kind.apply_model(m, op, cfg)
        after += kind.gen_ops(rng, cfg, rng.choice([1, 3, 8, 20]), m)
        return {'cfg': cfg, 'before': before, 'what': what, 'early': early,
                'after': after, 'probes': kind.gen_probes(rng, cfg, m, 6),
                'sparse': sparse, 'db': rng.random() < .5}

    def execute(self, case, mon):
        cfg = case['cfg']
        kind = KINDS[cfg['kind']]
        real, twin, m = kind.make(cfg), kind.make(cfg), kind.model(cfg)
        for op in case['before']:
            kind.apply(real, op, cfg)
            kind.apply(twin, op, cfg)
            kind.apply_model(m, op, cfg)
        what = case['what']
        if case['sparse']:
            words = kind.make(cfg).lex
            for op in case['after']:
                if op[0] == 'i':
                    words.sourceToWordIds(op[2])
            words = list(words.words())[::2]
            if words:
                mon.count('sparse word ids')
            for r in (real, twin):
                renumber(r.lex, words, case['sparse'] == 'near')
        downgrade(real, what)
        d = tm = None
        try:
            if case['db']:
                d = zdb.Database('map')
                conn, tm = d.open()
                zdb.store(conn, 'k', real)
                tm.commit()
                conn.cacheMinimize()
                real = zdb.load(conn, 'k', kind, cfg)
            self.history(kind, cfg, real, twin, m, case, mon, d, tm)
        finally:
            if d:
                tm.abort()
                d.close()

    def history(self, kind, cfg, real, twin, m, case, mon, d, tm):
        what = case['what']
        docs_ok, words_ok = 'docs' not in what, 'words' not in what
        okapi = kind.ranking == 'okapi'
        if docs_ok or not okapi:
            for p in case['early']:
                if p[0] in ('docs', 'words'):
                    continue
                kind.judge(real, m, p, mon, 'before the upgrade: ')
            if 'total' in what and okapi:
                mon.count('queried with a plain total')
            if d:
                last = d.db.lastTransaction()
                tm.commit()
                mon.eq(d.db.lastTransaction(), last,
                       'last transaction after queries')
        mon.eq(dict(real.lex.items()), dict(twin.lex.items()), 'words')
        first, skipped = True, None
        for n, op in enumerate(case['after']):
            for o in kind.expand(op):
                if first:
                    how = {'i': 'reindex' if o[1] in m.docs else 'index',
                           'u': 'unindex' if o[1] in m.docs else 'nothing',
                           }.get(o[0], 'clear') if len(o) > 1 else 'clear'
                    mon.count('first: ' + how)
                    first = False
                new = o[0] == 'i' and o[1] not in m.docs
                gone = o[0] == 'u' and o[1] in m.docs
                kind.apply(real, o, cfg)
                kind.apply(twin, o, cfg)
                words = words_ok or m.word_count()
                kind.apply_model(m, o, cfg)
                docs_ok = docs_ok or new or gone or o[0] == 'c'
                # (what changes no word count need not upgrade it)
                words_ok = words_ok or o[0] == 'c' or (
                    new and m.word_count() > words)
            label = f'after {n} {op!r:.200}: '
            if docs_ok:
                kind.judge(real, m, ('docs',), mon, label)
                if 'docs' in what:
                    mon.count('upgraded docs')
                    mon.nontrivial = True
            if words_ok:
                kind.judge(real, m, ('words',), mon, label)
                if 'words' in what:
                    mon.count('upgraded words')
            else:
                # not yet upgraded, or upgraded and exact
                try:
                    got = real.ix.wordCount()
                except NotImplementedError:
                    pass
                else:
                    mon.eq(got, m.word_count(), label + 'word count')
            mon.eq(dict(real.lex.items()), dict(twin.lex.items()),
                   label + 'words and their ids')
            mon.eq(sorted(real.lex.wids()), sorted(twin.lex.wids()), 'ids')
            size = real.lex.wordCount(), len(list(real.lex.words()))
            if case['sparse'] == 'near' and size[0] > size[1]:
                # a recorded finding, reported last: skipped ids are counted
                skipped = size
            else:
                mon.eq(*size, label + 'size of the lexicon')
            if 'lexicon' in what:
                mon.count('upgraded lexicon')
        self.finally_(kind, real, twin, m, case, mon, d, tm, docs_ok, words_ok)
        if skipped:
            mon.eq(*skipped, 'size of a lexicon in which next ids were taken',
                   key='lexicon-count-taken-ids')

    def finally_(self, kind, real, twin, m, case, mon, d, tm, docs_ok,
                 words_ok):
        if not docs_ok and kind.ranking == 'okapi':
            return
        for p in case['probes'] + case['early']:
            if p[0] == 'docs' and not docs_ok or p[0] == 'words' \
                    and not words_ok:
                continue
            kind.judge(real, m, p, mon, 'finally: ')
            mon.eq(kind.observe(real, p, m), kind.observe(twin, p, m),
                   f'compared with the twin: {p!r}')
        if d:
            tm.commit()
            conn = real.ix._p_jar
            conn.cacheMinimize()
            for p in case['probes']:
                if p[0] == 'docs' and not docs_ok or p[0] == 'words' \
                        and not words_ok:
                    continue
                kind.judge(real, m, p, mon, 'reloaded: ')

    def probe_known(self, key):
        case = {'cfg': {'kind': 'okapi', 'family': 32, 'pool': [1, 2],
                        'pipeline': 'single', 'vocab': '60', 'long': 4,
                        'bulk': False, 'implicit': False, 'moderate': True},
                'before': [], 'what': ['docs', 'lexicon', 'total', 'words'],
                'early': [], 'probes': [], 'sparse': 'near', 'db': False,
                'after': [('i', 1, 'w27 w2 w24'), ('i', 2, 'w52')]}
        try:
            self.execute(case, core.Monitor())
        except core.Violation as v:
            return v.key == key
        return False



PROP = C27()
