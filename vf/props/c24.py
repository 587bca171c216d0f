import random

from vf import core
from vf import zdb
from vf.core import near
from vf.kinds import ALL
from vf.kinds import KINDS


def equal_value(v, rng):
    """An equal value which is another object."""
    if isinstance(v, bool) or (isinstance(v, (int, float))
                               and abs(v) < 1000 and v == int(v)):
        return rng.choice([int(v), float(v)] + [bool(v)] * (v in (0, 1)))
    if isinstance(v, float):
        return float(repr(v))
    if isinstance(v, int):
        return int(str(v))
    if isinstance(v, str):
        return ''.join(list(v))
    if isinstance(v, bytes):
        return bytes(bytearray(v))
    if isinstance(v, tuple):
        return tuple(list(v))
    return v


def exactly(a, b):
    """equal, scores to within rounding"""
    if isinstance(a, float) and isinstance(b, float):
        return near(a, b, 1e-6, 1e-12)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(exactly(v, b[k])
                                            for k, v in a.items())
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(exactly, a, b))
    return a == b


class C24(core.Prop):
    ID = 'C24'
    RULE = ('after a random history, documents are indexed again with equal '
            'content (other objects, containers, orders, casing) and all '
            'answers are compared with those before and with the model; '
            'non-trivial when a document was indexed again')
    FILES = ('field/index.py', 'keyword/index.py', 'topic/index.py',
             'topic/filter.py', 'text/baseindex.py', 'text/okapiindex.py',
             'text/cosineindex.py')
    QUICK, THOROUGH = 7000, 175000
    SHRINK = ('base', 'again', 'probes')
    REQUIRE = {'indexed again': 4000, 'field index wrote nothing': 200}

    def generate(self, rng, i, tier):
        kind = KINDS[rng.choice(ALL + ['field'])]
        cfg = kind.config(rng, tier)
        m = kind.model(cfg)
        base, last = [], {}
        for _ in range(rng.choice([3, 8, 20, 40])):
            op = kind.gen_ops(rng, cfg, 1, m)[0]
            base.append(op)
            if op[0] == 'i':
                last[op[1]] = op
            elif op[0] == 'u':
                last.pop(op[1], None)
            elif op[0] in ('c', 'clearf', 'addf', 'delf'):
                # a filter added later has not seen the documents
                last = {}
            elif op[0] not in ('o', 't'):
                for d in [d for d in last if d >= 1000 or d == op[1]]:
                    del last[d]
        again = [rng.choice(sorted(last)) for _ in range(rng.choice([1, 3, 8]))] \
            if last else []
        again = [self.again(rng, kind, last[d]) for d in again]
        return {'cfg': cfg, 'base': base, 'again': again,
                'probes': kind.gen_probes(rng, cfg, m, 8),
                'db': rng.random() < .6, 'seed': rng.randrange(10 ** 6)}

    def again(self, rng, kind, op):
        if kind.name == 'field':
            return op
        if kind.name in ('keyword', 'keyword_ci'):
            ws = list(op[2])
            if rng.random() < .6:
                rng.shuffle(ws)
            if ws and rng.random() < .3:
                ws.append(rng.choice(ws))
            if kind.ci:
                ws = [w.upper() if rng.random() < .3
                      and w.upper().lower() == w.lower() else w for w in ws]
            return ('i', op[1], ws, rng.choice(kind.CONTAINERS))
        if kind.name == 'topic':
            return ('i', op[1], dict(op[2]))
        t = op[2]
        if isinstance(t, list):
            t = list(t)
        return ('i', op[1], t)

    def execute(self, case, mon):
        cfg = case['cfg']
        kind = KINDS[cfg['kind']]
        real, m = kind.make(cfg), kind.model(cfg)
        for op in case['base']:
            kind.apply(real, op, cfg)
            kind.apply_model(m, op, cfg)
        d = tm = None
        if case['db']:
            d = zdb.Database('map')
            conn, tm = d.open()
            zdb.store(conn, 'k', real)
            tm.commit()
            if case['seed'] % 2:
                conn.cacheMinimize()
        try:
            self.reindex(kind, cfg, real, m, case, mon, d, tm)
        finally:
            if d:
                tm.abort()
                d.close()

    def reindex(self, kind, cfg, real, m, case, mon, d, tm):
        rng = random.Random(case['seed'])
        probes = list(kind.count_probes) + case['probes']
        before = [kind.observe(real, p, m) for p in probes]
        words = sorted(real.lex.words()) if 'lex' in real.roots else None
        last = d and d.db.lastTransaction()
        for op in case['again']:
            if kind.name == 'field':
                if op[1] not in m.docs:
                    continue
                v = m.docs[op[1]]
                real.ix.index_doc(op[1], equal_value(v, rng)
                                  if rng.random() < .7 else v)
            else:
                check = m.copy()
                kind.apply_model(check, op, cfg)
                if kind.name != 'topic' and check.docs != m.docs or \
                        kind.name == 'topic' and check.filters != m.filters:
                    continue           # (after shrinking) not equal content
                kind.apply(real, op, cfg)
            mon.count('indexed again')
            mon.count('again ' + kind.name)
            mon.nontrivial = True
            for p, b in zip(probes, before):
                a = kind.observe(real, p, m)
                mon.check(exactly(a, b), lambda: f'{kind.name}: after indexing '
                          f'the equal content again with {op!r:.200}, {p!r:.200}'
                          f' gave {core.short(a)}, before {core.short(b)}')
            kind.judge_counts(real, m, mon)
        if words is not None:
            mon.eq(sorted(real.lex.words()), words, 'words of the lexicon')
        for p in probes:
            kind.judge(real, m, p, mon, 'finally: ')
        if d:
            tm.commit()
            if kind.name == 'field' and case['again']:
                mon.check(d.db.lastTransaction() == last,
                          'indexing an equal value again wrote to the database')
                mon.count('field index wrote nothing')
            for p in probes:
                kind.judge(real, m, p, mon, 'committed: ')
        # and it can still be removed without a trace
        if hasattr(m, 'docs'):
            for op in case['again']:
                real.ix.unindex_doc(op[1])
                m.unindex(op[1])
            for p in probes:
                kind.judge(real, m, p, mon, 'after removing: ')


PROP = C24()
