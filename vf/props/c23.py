import copy
import random

from vf import core
from vf import zdb
from vf.kinds import ALL
from vf.kinds import KINDS


def query_calls(kind, cfg, real, p, rng):
    """-> [(name, function, arguments, is a search result)]"""
    ix = real.ix
    IF = ix.family.IF if hasattr(ix, 'family') else None
    if kind.name == 'field':
        if p[0] == 'range':
            return [('apply', ix.apply, [(p[1], p[2])], True)]
        if p[0] == 'sort':
            arg = list(p[1]) if p[4] != 'gen' else list(p[1])
            arg = {'set': set, 'treeset': IF.TreeSet, 'ifset': IF.Set,
                   'tuple': tuple}.get(p[4], list)(arg)
            return [('sort', lambda a: list(ix.sort(
                a, reverse=p[2], limit=p[3])), [arg], False)]
    elif kind.name in ('keyword', 'keyword_ci', 'topic') and \
            p[0] in ('kw', 'top'):
        op = p[2] or 'and'
        return [('search', lambda q: ix.search(q, op), [list(p[1])], True),
                ('apply', ix.apply, [{'query': list(p[1]), 'operator': op}],
                 True),
                ('apply', ix.apply, [{'query': list(p[1])}], True),
                ('apply', ix.apply, [tuple(p[1])], True)]
    elif kind.name in ('okapi', 'cosine'):
        from zope.index.text.queryparser import QueryParser
        raw, lex = real.raw, real.lex
        if p[0] == 'q':
            def parse(q):
                parser = QueryParser(lex)
                tree = parser.parseQuery(q)
                return [repr(tree.terms()), list(parser.getIgnored())]
            try:
                tree = QueryParser(lex).parseQuery(p[1])
            except Exception:      # judged by 'parse' and by the model
                tree = None
            again = [('tree', lambda t: t.executeQuery(raw), [tree], True),
                     ('terms', lambda t: list(t.terms()), [tree], False)] \
                if tree is not None else []
            return again + [('apply', ix.apply, [p[1]], True),
                    ('parse', parse, [p[1]], False),
                    ('weight', lambda q: raw.query_weight(
                        QueryParser(lex).parseQuery(q).terms()), [p[1]], False)]
        if p[0] in ('search', 'glob'):
            fn = raw.search if p[0] == 'search' else raw.search_glob
            return [(p[0], fn, [p[1]], True),
                    ('search', raw.search, [[p[1], p[1]]], True),
                    ('glob ids', lex.globToWordIds, [p[1]], False),
                    ('ids', lex.termToWordIds, [[p[1], 'unseen7']], False)] \
                if isinstance(p[1], str) else [
                    (p[0], fn, [list(p[1])], True),
                    ('ids', lex.termToWordIds, [list(p[1])], False)]
        if p[0] == 'phrase':
            arg = list(p[1]) if isinstance(p[1], (list, tuple)) else p[1]
            return [('phrase', raw.search_phrase, [arg], True),
                    ('parseTerms', lex.parseTerms, [arg], False)]
        if p[0] == 'weight':
            return [('weight', raw.query_weight, [list(p[1])], False)]
        if p[0] == 'has' and raw.has_doc(p[1]):
            return [('words', lambda d: sorted(raw.get_words(d)), [p[1]],
                     False)]
    return []


def view(r):
    """A plain copy of a result."""
    if r is None or isinstance(r, (str, int, float)):
        return r
    if isinstance(r, set):
        return set(r)
    if hasattr(r, 'items'):
        return dict(r.items())
    return list(r)


def spoil(r, rng):
    """Change a result as far as its type allows."""
    try:
        if hasattr(r, 'items'):
            keys = list(r.keys())
            for k in keys[:2]:
                r[k] = 77.0
            if len(keys) > 2 or rng.random() < .5:
                for k in keys[2:] or keys:
                    del r[k]
            r[4711] = 3.0
        elif hasattr(r, 'remove'):
            for k in list(r)[rng.randrange(2):]:
                r.remove(k)
            (r.insert if not isinstance(r, list) else r.append)(4711)
        return True
    except (TypeError, AttributeError):
        return False


class C23(core.Prop):
    ID = 'C23'
    RULE = ('an index with a random committed history is queried in random '
            'order, twice, with the transaction committed afterwards; results '
            'are kept over further operations and are changed; threads query '
            'an index at once; non-trivial '
            'when a kept or changed result was not empty')
    FILES = ('field/index.py', 'keyword/index.py', 'topic/index.py',
             'text/textindex.py', 'text/baseindex.py', 'text/okapiindex.py',
             'text/cosineindex.py', 'text/parsetree.py', 'text/lexicon.py')
    QUICK, THOROUGH = 4000, 100000
    SHRINK = ('base', 'ops', 'probes')
    REQUIRE = {'trees used again': 500, 'results kept': 2000, 'results changed': 1500,
               'commit after queries': 1000,
               'querying threads': 500, 'thread switches': 2000}

    def generate(self, rng, i, tier):
        kind = KINDS[rng.choice(ALL)]
        cfg = kind.config(rng, tier)
        m = kind.model(cfg)
        base = kind.gen_ops(rng, cfg, rng.choice([2, 6, 20, 40]), m)
        probes = kind.gen_probes(rng, cfg, m, 10)
        if kind.name in ('okapi', 'cosine'):
            # also plain single terms: they come straight from the index
            probes += [('q', kind.word(rng, cfg)) for _ in range(2)]
            probes += [('search', kind.word(rng, cfg)) for _ in range(2)]
        ops = kind.gen_ops(rng, cfg, rng.choice([1, 3, 8]), m.copy())
        return {'cfg': cfg, 'base': base, 'probes': probes, 'ops': ops,
                'db': rng.random() < .7, 'seed': rng.randrange(10 ** 6)}

    def execute(self, case, mon):
        cfg = case['cfg']
        kind = KINDS[cfg['kind']]
        real, m = kind.make(cfg), kind.model(cfg)
        for op in case['base']:
            kind.apply(real, op, cfg)
            kind.apply_model(m, op, cfg)
        d = None
        try:
            if case['db']:
                d = zdb.Database('map')
                conn, tm = d.open()
                zdb.store(conn, 'k', real)
                tm.commit()
                if case['seed'] % 2:
                    conn.cacheMinimize()
                    real = zdb.load(conn, 'k', kind, cfg)
                self.queries(kind, cfg, real, m, case, mon, d, conn, tm)
            else:
                self.queries(kind, cfg, real, m, case, mon, None, None, None)
        finally:
            if d:
                tm.abort()
                d.close()

    def queries(self, kind, cfg, real, m, case, mon, d, conn, tm):
        rng = random.Random(case['seed'])
        lex = dict(real.lex.items()) if 'lex' in real.roots else None
        last = d and d.db.lastTransaction()
        order = list(case['probes'])
        kept = []
        for rnd in range(2):
            rng.shuffle(order)
            for p in order:
                for name, fn, args, result in query_calls(
                        kind, cfg, real, p, rng):
                    tree = name in ('tree', 'terms')
                    before = [repr(a) if tree else
                              copy.copy(a) if not isinstance(a, dict)
                              else copy.deepcopy(a) for a in args]
                    try:
                        r = fn(*args)
                    except Exception as e:
                        if not kind_of_query_error(e):
                            raise
                        r = repr(e)
                    same = repr(args[0]) == before[0] if tree else all(
                        type(a) is type(b) and view(a) == view(b)
                        for a, b in zip(args, before))
                    mon.check(same, lambda: f'{kind.name}.{name} changed its '
                              f'argument {before!r:.300} to {args!r:.300}')
                    if rnd == 0:
                        kept.append((name, fn, args, r, view(r), result, p))
                kind.judge(real, m, p, mon, f'round {rnd}: ')
            kind.judge_counts(real, m, mon, f'round {rnd}: ')
            for name, fn, args, r, was, result, p in kept:
                try:
                    again = view(fn(*args))
                except Exception as e:
                    if not kind_of_query_error(e):
                        raise
                    again = repr(e)
                mon.check(again == was, lambda: f'{kind.name}.{name}{args!r:.200}'
                          f' gave {core.short(was)}, repeated {core.short(again)}')
        if lex is not None:
            mon.eq(dict(real.lex.items()), lex, 'lexicon after queries')
            mon.eq(real.lex.wordCount(), len(lex), 'words of the lexicon')
        if d:
            changed = [o for o in self.loaded(conn) if o._p_changed]
            tm.commit()
            mon.check(d.db.lastTransaction() == last, 'queries wrote to the '
                      f'database: {[type(o).__name__ for o in changed][:5]}')
            mon.count('commit after queries')
        # later changes of the index
        mm = m.copy()
        for op in case['ops']:
            kind.apply(real, op, cfg)
            kind.apply_model(mm, op, cfg)
        for name, fn, args, r, was, result, p in kept:
            if not result:
                continue
            mon.check(view(r) == was, lambda: f'the result of {kind.name}.{name}'
                      f'{args!r:.300} changed with the index: '
                      f'{core.short(view(r))} was {core.short(was)}')
            mon.count('results kept')
            if was:
                mon.nontrivial = True
        self.trees(kind, cfg, real, kept, mon)
        # changing results
        for name, fn, args, r, was, result, p in kept:
            if result and not isinstance(r, str) and spoil(r, rng):
                mon.count('results changed')
        # and results obtained now
        for p in case['probes']:
            for name, fn, args, result in query_calls(kind, cfg, real, p, rng):
                if result:
                    try:
                        spoil(fn(*args), rng)
                    except Exception as e:
                        if not kind_of_query_error(e):
                            raise
        for p in case['probes']:
            kind.judge(real, mm, p, mon, 'after results were changed: ')
        kind.judge_counts(real, mm, mon, 'after results were changed: ')
        if not d and case['seed'] % 2:
            self.threads(kind, cfg, real, mm, case, mon)
        if d:
            tm.commit()
            conn.cacheMinimize()
            for p in case['probes']:
                kind.judge(real, mm, p, mon, 'after unloading: ')

    def threads(self, kind, cfg, real, m, case, mon):
        """Several threads query one index."""
        from vf import boot
        from vf import sched
        rng = random.Random(case['seed'] + 1)

        def work(part):
            for p in part:
                kind.judge(real, m, p, mon, 'threads: ')
                sc.pause()
        parts = [rng.sample(case['probes'], len(case['probes']))
                 for _ in range(rng.choice([2, 2, 3]))]
        sc = sched.Scheduler([lambda part=part: work(part) for part in parts],
                             case['seed'], rng.choice([.01, .05, .3]),
                             boot.PKG)
        try:
            sc.run()
        except core.Violation:
            raise
        except Exception as e:
            e.vf_observed = True
            raise
        mon.count('querying threads', len(parts))
        mon.count('thread switches', sc.switches)
        mon.state('thread interleavings', tuple(sc.trail))

    def trees(self, kind, cfg, real, kept, mon):
        """A parse tree belongs to no index and no state of it."""
        other = None
        for name, fn, args, r, was, result, p in kept:
            if name != 'tree':
                continue
            from zope.index.text.queryparser import QueryParser
            fresh = QueryParser(real.lex).parseQuery(p[1])
            got, exp = view(args[0].executeQuery(real.raw)), view(
                fresh.executeQuery(real.raw))
            mon.check(got == exp, lambda: f'the parse tree of {p[1]!r} executed '
                      f'again after changes gave {core.short(got)}, a new one '
                      f'{core.short(exp)}')
            if other is None:
                other = kind.make(cfg, lexicon=real.lex)
                for n, term in enumerate(args[0].terms()):
                    other.ix.index_doc(n % 3, term)
            got, exp = view(args[0].executeQuery(other.raw)), view(
                fresh.executeQuery(other.raw))
            mon.check(got == exp, lambda: f'the parse tree of {p[1]!r} gave '
                      f'{core.short(got)} on another index, a new one '
                      f'{core.short(exp)}')
            mon.count('trees used again')

    def loaded(self, conn):
        return [o for oid, o in list(conn._cache.lru_items())]


def kind_of_query_error(e):
    return type(e).__name__ in ('ParseError', 'QueryError')


PROP = C23()
