"""Histories of operations with probes in between, judged by the model."""
from vf import core
from vf.kinds import KINDS


class HistProp(core.Prop):
    """case = {cfg, steps: [op | ('?', probe)], final: [probe]}"""
    USE = ()
    STEPS = (4, 30)
    LONG = .06            # share of long histories
    FINAL = (2, 8)
    PROBE_P = .25
    COUNTS = False        # judge the counts after every operation
    SHRINK = ('steps', 'final')
    WHICH = None
    WIDE = 300            # one case in so many begins with a large collection

    def cfg(self, rng, kind, tier):
        return kind.config(rng, tier)

    def probe(self, rng, kind, cfg, m):
        if self.WHICH:
            return kind.gen_probe(rng, cfg, m, which=self.WHICH)
        return kind.gen_probe(rng, cfg, m)

    def generate(self, rng, i, tier):
        kind = KINDS[rng.choice(self.USE)]
        cfg = self.cfg(rng, kind, tier)
        m = kind.model(cfg)
        n = rng.randint(*self.STEPS)
        if rng.random() < self.LONG or (tier == 'thorough'
                                        and rng.random() < .1):
            n *= rng.choice([3, 8])
        steps, asked = [], []
        if i % self.WIDE == self.WIDE // 2:
            steps = kind.widen(rng, cfg)
            for op in steps:
                kind.apply_model(m, op, cfg)
            n = rng.randint(2, 12)
        for _ in range(n):
            steps += kind.gen_ops(rng, cfg, 1, m)
            if rng.random() < self.PROBE_P:
                # often a question that was asked before
                p = rng.choice(asked) if asked and rng.random() < .35 \
                    else self.probe(rng, kind, cfg, m)
                asked.append(p)
                steps.append(('?', p))
        final = [self.probe(rng, kind, cfg, m)
                 for _ in range(rng.randint(*self.FINAL))]
        final += rng.sample(asked, min(len(asked), 3))
        return {'cfg': cfg, 'steps': steps, 'final': final}

    def execute(self, case, mon):
        cfg = case['cfg']
        kind = KINDS[cfg['kind']]
        real, m = kind.make(cfg), kind.model(cfg)
        for k, step in enumerate(case['steps']):
            if step[0] == '?':
                self.judge(kind, real, m, step[1], mon, f'step {k}: ')
                continue
            kind.apply(real, step, cfg)
            kind.apply_model(m, step, cfg)
            mon.count('op ' + step[0])
            if step[0] in ('fill', 'spread', 'vocab') and step[2] > 2500:
                mon.count('large collections')
            if self.COUNTS:
                kind.judge_counts(real, m, mon, f'after step {k} {step!r:.200}: ')
        for p in case['final']:
            self.judge(kind, real, m, p, mon, 'at the end: ')
        mon.count('kind ' + kind.name)
        self.finish(kind, cfg, real, m, case, mon)

    def judge(self, kind, real, m, p, mon, what):
        exp = kind.judge(real, m, p, mon, what)
        mon.count('probe ' + p[0])
        if exp and exp != 'ParseError':
            mon.count('nonempty ' + p[0])
            mon.nontrivial = True

    def finish(self, kind, cfg, real, m, case, mon):
        pass
