import copy
import pickle
import random

from vf import core
from vf.kinds import ALL
from vf.kinds import KINDS
from vf.kinds import make_lexicon

TEXT = ('okapi', 'cosine')
KW = ('keyword', 'keyword_ci')


class C28(core.Prop):
    ID = 'C28'
    RULE = ('two to five indexes of random types (text indexes partly on one '
            'lexicon), interleaved operations, arguments shared between them '
            'and changed afterwards; after every operation another index is '
            'judged; non-trivial when an index that was not operated on gave a '
            'non-empty answer')
    FILES = ('field/index.py', 'keyword/index.py', 'topic/index.py',
             'topic/filter.py', 'text/baseindex.py', 'text/okapiindex.py',
             'text/cosineindex.py', 'text/lexicon.py', 'text/textindex.py')
    QUICK, THOROUGH = 4500, 112500
    SHRINK = ('steps', 'probes')
    REQUIRE = {'judged another index': 5000, 'shared arguments': 800,
               'shared lexicon': 300, 'new index': 100,
               'nonempty elsewhere': 2000, 'own vocabulary': 500,
               'copies': 300, 'thread switches': 2000}

    def threads(self, rng, tier):
        """Indexes used at the same time, each by a thread of its own."""
        group = rng.choice([ALL, TEXT, TEXT, KW, ['field'], ['topic']])
        res = []
        for _ in range(rng.choice([2, 2, 3])):
            kind = KINDS[rng.choice(group)]
            cfg = kind.config(rng, tier)
            m = kind.model(cfg)
            steps = []
            for _ in range(rng.choice([4, 10, 20])):
                steps += kind.gen_ops(rng, cfg, 1, m)
                if rng.random() < .6:
                    steps.append(('?', kind.gen_probe(rng, cfg, m)))
            res.append({'cfg': cfg, 'steps': steps})
        return {'threads': res, 'seed': rng.randrange(10 ** 6),
                'p': rng.choice([.02, .1, .3])}

    def generate(self, rng, i, tier):
        if rng.random() < .15:
            return self.threads(rng, tier)
        n = rng.choice([2, 2, 3, 4, 5])
        focus = rng.choice([ALL, ALL, TEXT, TEXT, KW, ['field'], ['topic'],
                            KW + ('topic',)])
        kinds = [KINDS[rng.choice(focus)] for _ in range(n)]
        first = None
        cfgs = []
        fam = rng.choice([32, 64, None])
        for k in kinds:
            c = k.config(rng, tier)
            if fam:
                c['family'] = fam
            if first is None or rng.random() < .3:
                first = c
            c['pool'] = [d for d in first['pool']
                         if -2 ** 31 <= d < 2 ** 31] or [1, 2, 3]
            if 'regime' in c and k.name in KW:
                c['regime'] = 'str'
            cfgs.append(c)
        share = rng.random() < .6
        if share:
            texts = [c for c, k in zip(cfgs, kinds) if k.name in TEXT]
            for c in texts[1:]:
                if rng.random() < .8:
                    c['pipeline'] = texts[0]['pipeline']
                    c['vocab'] = texts[0]['vocab']
                    c['lexicon'] = texts[0]['lexicon'] = 1
        models = [k.model(c) for k, c in zip(kinds, cfgs)]
        steps = []
        for _ in range(rng.choice([6, 15, 30])):
            k = rng.randrange(n)
            r = rng.random()
            if r < .06:
                steps.append(('new', k))
                models[k] = kinds[k].model(cfgs[k])
            elif r < .1:
                steps.append(('copy', k, rng.choice(['pickle', 'deepcopy'])))
            elif r < .33 and kinds[k].name in TEXT + KW:
                group = TEXT if kinds[k].name in TEXT else KW
                who = [j for j in range(n) if kinds[j].name in group
                       and rng.random() < .8] or [k]
                d = rng.choice(cfgs[k]['pool'])
                if group is TEXT:
                    arg = [kinds[k].text(rng, cfgs[k])
                           for _ in range(rng.randint(1, 3))]
                    how = 'list'
                else:
                    arg = kinds[k].words(rng, cfgs[k], 0)
                    how = rng.choice(['list', 'set', 'ooset'])
                steps.append(('shared', who, d, arg, how,
                              rng.choice(['clear', 'append', 'replace'])))
                for j in who:
                    models[j].index(d, arg)
            else:
                for op in kinds[k].gen_ops(rng, cfgs[k], 1, models[k]):
                    steps.append(('op', k, op))
            j = rng.randrange(n)
            steps.append(('?', j, kinds[j].gen_probe(rng, cfgs[j], models[j])))
        probes = []
        for j in range(n):
            probes += [(j, kinds[j].gen_probe(rng, cfgs[j], models[j]))
                       for _ in range(3)]
        rng.shuffle(probes)
        return {'cfgs': cfgs, 'steps': steps, 'probes': probes}

    def run_threads(self, case, mon):
        from vf import boot
        from vf import sched

        def work(part):
            cfg = part['cfg']
            kind = KINDS[cfg['kind']]
            real, m = kind.make(cfg), kind.model(cfg)
            for n, step in enumerate(part['steps']):
                if step[0] == '?':
                    kind.judge(real, m, step[1], mon, f'threads, step {n}: ')
                else:
                    kind.apply(real, step, cfg)
                    kind.apply_model(m, step, cfg)
                kind.judge_counts(real, m, mon, f'threads, step {n}: ')
                sc.pause()
        sc = sched.Scheduler([lambda part=part: work(part)
                              for part in case['threads']], case['seed'],
                             case['p'], boot.PKG)
        sc.run()
        mon.count('threads', len(case['threads']))
        mon.count('thread switches', sc.switches)
        mon.state('thread interleavings', tuple(sc.trail))
        mon.nontrivial = sc.switches > 0

    def copies(self, kinds, cfgs, reals, models, step, mon, label):
        """Go on with a copy of an index; the original must stay as it is."""
        k, how = step[1:]
        kd, m = kinds[k], models[k]
        if how == 'pickle':
            roots = pickle.loads(pickle.dumps(reals[k].roots))
        else:
            roots = copy.deepcopy(reals[k].roots)
        other, mm = kd.wrap(cfgs[k], roots), m.copy()
        rng = random.Random(repr(step))
        probes = kd.gen_probes(rng, cfgs[k], m, 3)
        for op in kd.gen_ops(rng, cfgs[k], 4, mm.copy()):
            if op[0] == 'sete':
                continue
            kd.apply(other, op, cfgs[k])
            kd.apply_model(mm, op, cfgs[k])
        for p in probes:
            kd.judge(other, mm, p, mon, label + 'the copy: ')
            kd.judge(reals[k], m, p, mon, label + 'the original: ')
        kd.judge_counts(other, mm, mon, label + 'the copy: ')
        kd.judge_counts(reals[k], m, mon, label + 'the original: ')
        mon.count('copies')

    def execute(self, case, mon):
        if 'threads' in case:
            return self.run_threads(case, mon)
        cfgs = case['cfgs']
        kinds = [KINDS[c['kind']] for c in cfgs]
        lexicon = None
        for c in cfgs:
            if c.get('lexicon'):
                lexicon = lexicon or make_lexicon(c['pipeline'])
                mon.count('shared lexicon')

        def make(k):
            if cfgs[k].get('lexicon'):
                return kinds[k].make(cfgs[k], lexicon=lexicon)
            return kinds[k].make(cfgs[k])
        reals = [make(k) for k in range(len(cfgs))]
        models = [kd.model(c) for kd, c in zip(kinds, cfgs)]
        touched = set()
        for n, step in enumerate(case['steps']):
            label = f'step {n} {step!r:.200}: '
            if step[0] == 'new':
                k = step[1]
                reals[k], models[k] = make(k), kinds[k].model(cfgs[k])
                touched = {k}
                mon.count('new index')
            elif step[0] == 'copy':
                self.copies(kinds, cfgs, reals, models, step, mon, label)
                continue
            elif step[0] == 'op':
                k = step[1]
                kinds[k].apply(reals[k], step[2], cfgs[k])
                kinds[k].apply_model(models[k], step[2], cfgs[k])
                touched = {k}
            elif step[0] == 'shared':
                touched = set(step[1])
                self.shared(kinds, reals, models, step, mon, label)
            else:
                j, p = step[1:]
                exp = kinds[j].judge(reals[j], models[j], p, mon,
                                     label + f'index {j}: ')
                if j not in touched:
                    mon.count('judged another index')
                    if exp and exp != 'ParseError':
                        mon.count('nonempty elsewhere')
                        mon.nontrivial = True
                continue
            for j in range(len(cfgs)):
                kinds[j].judge_counts(reals[j], models[j], mon,
                                      label + f'index {j}: ')
            if n % 3 == 0:
                self.vocabulary(kinds, cfgs, reals, models, mon, label)
        self.vocabulary(kinds, cfgs, reals, models, mon, 'at the end: ')
        for j, p in case['probes']:
            kinds[j].judge(reals[j], models[j], p, mon, f'at the end, index {j}: ')

    def vocabulary(self, kinds, cfgs, reals, models, mon, label):
        """An index that does not share its lexicon has only its own words."""
        for j, c in enumerate(cfgs):
            if kinds[j].name in TEXT and not c.get('lexicon'):
                mon.eq(sorted(reals[j].lex.words()), sorted(models[j].lex),
                       f'{label}words known to index {j}')
                mon.count('own vocabulary')

    def shared(self, kinds, reals, models, step, mon, label):
        _, who, d, arg, how, change = step
        obj = list(arg)
        if how == 'set':
            obj = set(arg)
        elif how == 'ooset':
            obj = reals[who[0]].ix.family.OO.Set(arg)
        for j in who:
            reals[j].ix.index_doc(d, obj)
            models[j].index(d, arg)
            mon.eq(sorted(obj), sorted(set(arg) if how != 'list' else arg),
                   label + 'the argument')
        extra = 'ZETA extra'
        if change == 'clear':
            obj.clear()
        elif how == 'list':
            if change == 'append':
                obj.append(extra)
            else:
                obj[0] = extra
        else:
            (obj.add if how == 'set' else obj.insert)(extra)
        mon.count('shared arguments')
        for j in who:
            kd, m = kinds[j], models[j]
            if kd.name in KW:
                for w in list(m.docs.get(d, ()))[:3] + [extra]:
                    kd.judge(reals[j], m, ('kw', [w], 'and', 'search', 'list'),
                             mon, label)
                    q = [w]
                    r = reals[j].ix.search(q)
                    q.append(extra)
                    mon.eq([int(x) for x in r], m.search([w], 'and'),
                           label + 'result after changing the query')
            else:
                for w in list(m.docs.get(d, ()))[:3] + ['extra']:
                    kd.judge(reals[j], m, ('search', w), mon, label)
                kd.judge(reals[j], m, ('has', d), mon, label)


PROP = C28()
