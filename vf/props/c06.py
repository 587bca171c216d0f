import pickle
import pickletools
import random

from vf import models
from vf.hist import HistProp
from vf.kinds import ALL, KINDS

MARK = 1234567000      # ids that no count, weight or value of a case equals


def ints_of(obj):
    """All integers in the pickled state of an index."""
    res = set()
    for op, arg, pos in pickletools.genops(pickle.dumps(obj, 2)):
        if isinstance(arg, int):
            res.add(arg)
    return res


class C06(HistProp):
    ID = 'C06'
    RULE = ('a random history on any index kind; afterwards its pickled state '
            'is scanned for the ids of removed documents and all probes are '
            'compared with indexes built from the current documents in other '
            'orders; non-trivial when documents were removed')
    USE = ALL
    FILES = ('field/index.py', 'keyword/index.py', 'topic/filter.py',
             'text/baseindex.py', 'text/okapiindex.py', 'text/cosineindex.py')
    QUICK, THOROUGH = 6000, 150000
    PROBE_P = .02
    FINAL = (4, 10)
    REQUIRE = {'removed ids scanned': 500, 'fresh comparisons': 1000,
               'op c': 20, 'cleared scans': 100}

    def cfg(self, rng, kind, tier):
        cfg = kind.config(rng, tier)
        cfg['pool'] = cfg['pool'][:8] + [MARK + k for k in
                                         range(rng.choice([2, 5, 12]))]
        if rng.random() < .3:
            cfg['pool'] = cfg['pool'][-12:]
        cfg['orders'] = rng.randrange(10 ** 6)
        return cfg

    def scan(self, kind, real, present, mon, what):
        roots = [v for k, v in real.roots.items() if k != 'lex']
        gone = set(range(MARK, MARK + 12)) - present
        for obj in roots:
            left = ints_of(obj) & gone
            mon.check(not left, lambda: f'{what}: {kind.name} state still '
                      f'refers to removed ids {sorted(left)}')
            if present & set(range(MARK, MARK + 12)):
                # the scanner does see ids that are there
                mon.count('scanner sees present ids',
                          bool(ints_of(obj) & present))

    def present(self, m):
        if isinstance(m, models.TopicModel):
            return set().union(*[f[1] for f in m.filters.values()])
        return set(m.docs)

    def fresh(self, kind, cfg, real, m, case, order):
        new = kind.make(cfg)
        if isinstance(m, models.TopicModel):
            return None
        for op in kind.content_ops(m, order):
            kind.apply(new, op, cfg)
        return new

    def finish(self, kind, cfg, real, m, case, mon):
        ever = {s[1] for s in case['steps'] if s[0] == 'i'}
        present = self.present(m)
        gone = {d for d in ever if d >= MARK and d < MARK + 12} - present
        mon.nontrivial = bool(gone)
        mon.count('removed ids scanned', len(gone))
        self.scan(kind, real, present, mon, 'after the history')
        # unknown ids change nothing
        before = [kind.observe(real, p, m) for p in case['final']]
        for d in sorted(gone)[:3] + [MARK + 99, 7777777]:
            kind.apply(real, ('u', d), cfg)
        after = [kind.observe(real, p, m) for p in case['final']]
        mon.eq(after, before, 'answers after unindexing unknown ids')
        kind.judge_counts(real, m, mon, 'after unindexing unknown ids: ')
        # same answers as new indexes with the current documents
        if not isinstance(m, models.TopicModel):
            orders = [sorted(m.docs), sorted(m.docs, reverse=True)]
            o = sorted(m.docs)
            random.Random(cfg['orders']).shuffle(o)
            orders.append(o)
            for order in orders[cfg['orders'] % 3:][:2]:
                new = self.fresh(kind, cfg, real, m, case, order)
                for p, old in zip(case['final'], after):
                    mon.eq(old, kind.observe(new, p, m),
                           f'{kind.name} {p!r}: history versus new index '
                           f'(order {order})')
                if kind.name in ('okapi', 'cosine') and m.docs:
                    # the words of the longest document
                    ws = max(m.docs.values(), key=len)
                    ws = set(ws[:40] + ws[-8:])
                    for w in sorted(ws)[:20]:
                        p = ('search', w)
                        mon.eq(kind.observe(real, p, m),
                               kind.observe(new, p, m),
                               f'{kind.name} {p!r}: history versus new index')
                for p in kind.count_probes:
                    mon.eq(kind.observe(real, p, m), kind.observe(new, p, m),
                           f'{kind.name} {p!r} history versus new index')
                mon.count('fresh comparisons')
        # remove everything / clear; then start over
        if cfg['orders'] % 2:
            for d in sorted(present):
                kind.apply(real, ('u', d), cfg)
                kind.apply_model(m, ('u', d), cfg)
            what = 'after removing every document'
        else:
            op = ('clearf',) if kind.name == 'topic' else ('c',)
            kind.apply(real, op, cfg)
            kind.apply_model(m, op, cfg)
            what = 'after clearing'
        self.scan(kind, real, set(), mon, what)
        mon.count('cleared scans')
        kind.judge_counts(real, m, mon, what + ': ')
        redo = [s for s in case['steps'] if s[0] == 'i'][:8]
        for s in redo:
            kind.apply(real, s, cfg)
            kind.apply_model(m, s, cfg)
        for p in case['final']:
            kind.judge(real, m, p, mon, what + ' and indexing again: ')


PROP = C06()
