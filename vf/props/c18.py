from vf import core


class C18(core.Prop):
    ID = 'C18'
    RULE = ('a random sequence of add/addmany/pop_smallest on a chooser of '
            'random capacity, scores with many ties; non-trivial when items '
            'were evicted or popped')
    FILES = ('nbest.py',)
    QUICK, THOROUGH = 20000, 400000
    REQUIRE = {'evicted': 2000, 'popped': 2000, 'popped from empty': 200,
               'ties': 2000}

    def score(self, rng, regime):
        if regime == 'few':
            return rng.randrange(4)
        if regime == 'float':
            return rng.choice([0.0, -1.5, 2.25, float('inf'), -float('inf'),
                               rng.random()])
        if regime == 'tuple':
            return (rng.randrange(3), rng.randrange(3))
        if regime == 'up':
            return rng.randrange(10 ** 6)
        return rng.randint(-50, 50)

    def generate(self, rng, i, tier):
        regime = rng.choice(['few', 'few', 'float', 'tuple', 'up', 'int'])
        ops, k = [], 0
        for _ in range(rng.choice([3, 10, 30, 80])):
            r = rng.random()
            if r < .5:
                ops.append(('add', k, self.score(rng, regime)))
                k += 1
            elif r < .75:
                n = rng.choice([0, 1, 3, 8])
                ops.append(('many', [(k + j, self.score(rng, regime))
                                     for j in range(n)], rng.random() < .3))
                k += n
            else:
                ops.append(('pop',))
        if rng.random() < .3:
            # the same items again
            same = rng.choice([1, 2, 5])
            ops = [('many', [(i % same, s) for i, s in o[1]], o[2])
                   if o[0] == 'many' else
                   (o[0], o[1] % same, o[2]) if o[0] == 'add' else o
                   for o in ops]
        if rng.random() < .2:
            ops.sort(key=lambda o: repr(o[-1]))
        if rng.random() < .006:
            # a large one
            N = int(100 * 30 ** rng.random())
            n = N + rng.choice([-1, 0, 50])
            ops = [('many', [(k + j, self.score(rng, regime))
                             for j in range(n)], rng.random() < .3)] + ops[:12]
            return {'N': N, 'ops': ops}
        return {'N': rng.choice([1, 1, 2, 3, 5, 10, 100]), 'ops': ops}

    def execute(self, case, mon):
        from zope.index.nbest import NBest
        nb, N = NBest(case['N']), case['N']
        held = []            # (score, -sequence, item), unordered
        seq = 0
        gone = False
        for op in case['ops']:
            if op[0] == 'pop':
                if held:
                    low = min(s for s, q, i in held)
                    s, q, i = max((x for x in held if x[0] == low),
                                  key=lambda x: x[1])
                    held.remove((s, q, i))
                    mon.eq(list(nb.pop_smallest()), [['item', i], s], 'popped')
                    mon.count('popped')
                    gone = True
                else:
                    mon.raises(IndexError, nb.pop_smallest, 'pop from empty')
                    mon.count('popped from empty')
            else:
                new = [op[1:]] if op[0] == 'add' else op[1]
                if op[0] == 'add':
                    nb.add(['item', op[1]], op[2])
                else:
                    s = [(['item', i], s) for i, s in new]
                    nb.addmany(iter(s) if op[2] else s)
                for i, s in new:
                    held.append((s, seq, i))
                    seq += 1
                    if len(held) > N:
                        low = min(x[0] for x in held)
                        held.remove(max((x for x in held if x[0] == low),
                                        key=lambda x: x[1]))
                        mon.count('evicted')
                        gone = True
            # best first, earlier additions first among equals
            groups = {}
            for s, q, i in sorted(held, key=lambda x: x[1]):
                groups.setdefault(s, []).append((['item', i], s))
            exp = [x for s in sorted(groups, reverse=True) for x in groups[s]]
            mon.count('ties', sum(len(g) > 1 for g in groups.values()))
            mon.eq(list(nb.getbest()), exp, f'getbest after {op!r}')
            mon.eq((len(nb), nb.capacity()), (len(held), N), 'size, capacity')
        for bad in (0, -1):
            mon.raises(ValueError, lambda: NBest(bad), f'NBest({bad})')
        mon.nontrivial = gone


PROP = C18()
