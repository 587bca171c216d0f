import pickle

from vf import core

TOP = 2 ** 28 - 1
EDGES = [0, 1, 2, 126, 127, 128, 129, 255, 256, 2 ** 14 - 1, 2 ** 14,
         2 ** 14 + 1, 2 ** 21 - 1, 2 ** 21, 2 ** 21 + 1, 2 ** 27, TOP - 1, TOP]


class C17(core.Prop):
    ID = 'C17'
    RULE = ('random and boundary integer lists for the word id code, Rice '
            'codes of every parameter and delta codes; non-trivial when the '
            'list had two or more elements')
    FILES = ('text/widcode.py', 'text/ricecode.py')
    QUICK, THOROUGH = 20000, 600000
    SHRINK = ('a', 'b', 'l')
    REQUIRE = {f'rice m={m}': 20 for m in range(17)} | {
        'widcode': 500, 'deltas': 500, 'bits': 100, 'substring occurrences': 500}

    def wid(self, rng):
        x = rng.random()
        if x < .3:
            return rng.choice(EDGES)
        if x < .5:
            return rng.randrange(0, 300)
        if x < .7:
            return rng.randrange(0, 2 ** rng.randint(1, 28))
        w = rng.choice([1, 2])
        for _ in range(rng.randrange(4)):
            w = w * 128 + rng.choice([0, 1, 2])
        return w

    def generate(self, rng, i, tier):
        r = i % 3
        if i % 20 == 7:
            return {'what': 'bits', 'l': [rng.choice([0, 1, True, False, 2, 128])
                                          for _ in range(rng.randrange(70))],
                    'set': [(rng.random(), rng.randrange(2))
                            for _ in range(rng.randrange(6))]}
        n = rng.choice([0, 1, 2, 3, 5, 10, 30])
        if rng.random() < .01:
            n = rng.choice([257, 1000, 5000] if r == 0 else [129, 257, 300])
        if r == 0:
            a = [self.wid(rng) for _ in range(n)]
            if rng.random() < .3:
                pool = [self.wid(rng) for _ in range(3)]
                a = [rng.choice(pool) for _ in range(n)]
            b = [self.wid(rng) for _ in range(rng.randrange(6))]
            if a and rng.random() < .6:
                k = rng.randrange(len(a))
                b = a[k:k + rng.randint(1, 3)]
            return {'what': 'widcode', 'a': a, 'b': b}
        if r == 1:
            m = (i // 3) % 17
            l_ = []
            for _ in range(n):
                x = rng.random()
                q = rng.choice([0, 0, 1, 2, 5, 40]) if x < .95 else 500
                if rng.random() < .02 and m < 8 and len(l_) < 4:
                    q = rng.choice([4095, 65535, 65536, 70000])
                low = rng.choice([0, 1, 2 ** m - 1, rng.randrange(2 ** m)])
                l_.append((q << m) + min(low, 2 ** m - 1) + 1)
            return {'what': 'rice', 'm': m, 'l': l_}
        cur = rng.choice([0, 1, -5, 10 ** 6])
        l_ = [cur]
        for _ in range(n):
            cur += rng.choice([1, 1, 2, 3, 63, 64, 65, 128, 1000, 20000])
            if len(l_) < 5 and rng.random() < .004:
                cur += rng.choice([2 ** 16, 2 ** 22, 2 ** 22 + 1])
            l_.append(cur)
        return {'what': 'deltas', 'l': l_}

    def execute(self, case, mon):
        from zope.index.text import ricecode, widcode
        if case['what'] == 'widcode':
            a, b = case['a'], case['b']
            ca, cb = widcode.encode(a), widcode.encode(b)
            got = widcode.decode(ca)
            mon.eq(list(got), a, 'decode(encode(a))')
            if isinstance(got, list):
                got[len(got) // 2:] = [5]     # must not matter
            mon.eq(list(widcode.decode(ca)), a, 'decoded once more')
            mon.eq(list(widcode.decode(cb)), b, 'decode(encode(b))')
            mon.eq(widcode.encode(a + b), ca + cb, 'concatenation')
            mon.eq(list(widcode.decode(ca + cb)), a + b, 'concatenated code')
            mon.eq(widcode.encode(tuple(a)), ca, 'code of a tuple')
            # every occurrence of b's code in a's starts at an id
            if b:
                starts, p = {}, 0
                for k, w in enumerate(a):
                    starts[p] = k
                    p += len(widcode.encode([w]))
                p = ca.find(cb)
                while p >= 0:
                    mon.check(p in starts, f'the code of {b} is found inside '
                              f'an id of {a} (at {p})')
                    k = starts[p]
                    mon.eq(a[k:k + len(b) - 1], b[:-1], 'found ids')
                    mon.count('substring occurrences')
                    p = ca.find(cb, p + 1)
                for k in range(len(a) - len(b) + 1):
                    if a[k:k + len(b)] == b:
                        mon.check(ca.find(cb) >= 0, f'{b} not found in {a}')
                        break
            mon.count('widcode')
            mon.nontrivial = len(a) > 1
        elif case['what'] == 'rice':
            m, l_ = case['m'], case['l']
            c = ricecode.encode(m, list(l_))
            got = c.tolist()
            mon.eq(got, l_, f'Rice code m={m}')
            got.append(5)                     # must not matter
            mon.eq(c.tolist(), l_, f'Rice code m={m}, decoded once more')
            mon.eq(len(c), len(l_), 'length')
            c = ricecode.RiceCode(m)
            for k, x in enumerate(l_):
                c.append(x)
                if k % 5 == 0:
                    mon.eq(c.tolist(), l_[:k + 1], f'partial list m={m}')
            mon.eq(c.tolist(), l_, f'Rice code m={m}')
            mon.eq(c.tolist(), l_, 'read again')
            for bad in (0, -1):
                mon.raises(ValueError, lambda: c.append(bad), f'append({bad})')
            mon.eq(c.tolist(), l_, 'after a rejected value')
            for bad in (-1, 17):
                mon.raises(ValueError, lambda: ricecode.RiceCode(bad),
                           f'RiceCode({bad})')
            mon.count(f'rice m={m}')
            mon.nontrivial = len(l_) > 1
        elif case['what'] == 'bits':
            b, exp = ricecode.BitArray(), []
            for k, bit in enumerate(case['l']):
                b.append(bit)
                exp.append(1 if bit else 0)
                mon.eq(len(b), k + 1, 'bits held')
            for x, bit in case['set']:
                if exp:
                    b[int(x * len(exp))] = exp[int(x * len(exp))] = bit
            mon.eq([b[k] for k in range(len(b))], exp, 'bits read back')
            c = pickle.loads(pickle.dumps(b))
            mon.eq([c[k] for k in range(len(c))], exp, 'bits unpickled')
            c.append(1)
            mon.eq([c[k] for k in range(len(c))], exp + [1], 'appended')
            mon.eq([b[k] for k in range(len(b))], exp, 'the original')
            mon.eq(len(b.tostring()), (len(exp) + 7) // 8, 'bytes used')
            mon.count('bits')
        else:
            l_ = case['l']
            start, d = ricecode.encode_deltas(list(l_))
            got = ricecode.decode_deltas(start, d)
            mon.eq(list(got), l_, 'delta code')
            got.append(5)                     # must not matter
            mon.eq(list(ricecode.decode_deltas(start, d)), l_,
                   'delta code, decoded once more')
            mon.count('deltas')
            mon.nontrivial = len(l_) > 1

    def extra(self, seed, tier, scratch):
        """The complete two-code-byte range, one id at a time."""
        from zope.index.text import widcode
        bad = []
        top = 2 ** 15 if tier == 'quick' else 2 ** 22
        n = 0
        seen = {}
        for w in list(range(top)) + list(range(0, TOP, 65521)):
            c = widcode.encode([w])
            if list(widcode.decode(c)) != [w]:
                bad.append(f'decode(encode([{w}])) = {widcode.decode(c)!r}')
                break
            if seen.setdefault(c, w) != w:
                bad.append(f'ids {w} and {seen[c]} have the same code')
                break
            n += 1
        return {'problems': bad, 'coverage': {'single_ids_round_tripped': n}}


PROP = C17()
