from vf import models
from vf.hist import HistProp
from vf.kinds import COUNTED


class C05(HistProp):
    ID = 'C05'
    RULE = ('a random history on a field, keyword or text index with the '
            'counts read after every operation; non-trivial when something '
            'was indexed')
    USE = COUNTED + ['okapi', 'cosine', 'keyword']
    FILES = ('field/index.py', 'keyword/index.py', 'text/baseindex.py',
             'text/textindex.py')
    QUICK, THOROUGH = 9000, 225000
    PROBE_P = 0
    COUNTS = True
    FINAL = (0, 0)
    REQUIRE = {'op u': 100, 'op c': 20, 'op fill': 20, 'shared lexicon': 20}

    def finish(self, kind, cfg, real, m, case, mon):
        mon.nontrivial = bool(m.docs) or len(case['steps']) > 3
        for d in list(m.docs)[:4]:
            for _ in range(2):           # the second one is a no-op
                kind.apply(real, ('u', d))
                kind.apply_model(m, ('u', d))
                kind.judge_counts(real, m, mon, f'unindex {d}: ')
        if isinstance(m, models.TextModel):
            mon.eq(real.lex.wordCount(), len(m.lex), 'lexicon count')
            # a second index on the same lexicon
            other, om = kind.make(cfg, lexicon=real.lex), kind.model(cfg)
            for k, step in enumerate(case['steps'][:6]):
                if step[0] != 'i':
                    continue
                ti, tm = (real, m) if k % 2 else (other, om)
                kind.apply(ti, step)
                kind.apply_model(tm, step)
                kind.judge_counts(real, m, mon, 'shared lexicon: ')
                kind.judge_counts(other, om, mon, 'shared lexicon: ')
                mon.eq(real.lex.wordCount(), len({**m.lex, **om.lex}),
                       'shared lexicon count')
                mon.count('shared lexicon')
        kind.apply(real, ('c',))
        kind.apply_model(m, ('c',))
        kind.judge_counts(real, m, mon, 'cleared: ')


PROP = C05()
