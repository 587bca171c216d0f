"""Run with the normal allocator: blocks in use after many calls; loading the
module again and again and in subinterpreters."""
import gc
import importlib.util
import sys

so = sys.argv[1]
bad = []


def load():
    spec = importlib.util.spec_from_file_location('zope.index.text.okascore', so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


score = load().score
N = 50
items = [(10 ** 9 + k, float(k + 1)) for k in range(N)]
lens = {d: float(d % 97) for d, f in items}


class Boom(Exception):
    pass


class BadRes(dict):
    def __init__(self, at):
        self.at = at

    def __setitem__(self, k, v):
        if len(self) == self.at:
            raise Boom
        dict.__setitem__(self, k, v)


class BadNum:
    def __float__(self):
        raise Boom


class BadMap(dict):
    def __missing__(self, k):
        raise Boom


class BadLen(list):
    def __len__(self):
        raise Boom


def ok():
    res = {}
    score(res, items, lens, 1.5, 20.0)
    assert len(res) == N


def failing(res, it, ln):
    def f():
        r = res()
        try:
            score(r, it, ln, 1.5, 20.0)
        except (Boom, TypeError, KeyError):
            return
        bad.append('no exception')
    return f


half = items[:25]
loops = {
    'success': ok,
    'result fails': failing(lambda: BadRes(20), items, lens),
    'item is a list': failing(dict, half + [[1, 2]], lens),
    'item is too long': failing(dict, half + [(items[30][0], 2.0, 3)], lens),
    'frequency fails': failing(dict, half + [(items[30][0], BadNum())], lens),
    'length missing': failing(dict, half + [(5, 2.0)], lens),
    'length missing (map)': failing(dict, half + [(5, 2.0)], BadMap(lens)),
    'length no number': failing(dict, half + [(5, 2.0)], {**lens, 5: 'x'}),
    'length fails': failing(dict, half + [(5, 2.0)], {**lens, 5: BadNum()}),
    'no length': failing(dict, BadLen(items), lens),
    'bad arguments': failing(lambda: None, 5, lens),
}
for name, f in loops.items():
    for _ in range(200):
        f()
    gc.collect()
    b0 = sys.getallocatedblocks()
    for _ in range(1000):
        f()
    gc.collect()
    grown = sys.getallocatedblocks() - b0
    if abs(grown) > 200:
        bad.append(f'{name}: {grown} blocks more after 1000 calls')
    else:
        print('loop ok', name, grown)

mods = []
for k in range(20):
    m = load()
    res = {}
    m.score(res, items, lens, 1.5, 20.0)
    if len(res) != N:
        bad.append('wrong result after loading again')
    if k % 2:
        mods.append(m)
    del m
    gc.collect()
    print('load ok')
try:
    import _xxsubinterpreters as sub
except ImportError:
    sub = None
if sub is not None:
    code = f'''
import importlib.util
spec = importlib.util.spec_from_file_location('okascore', {so!r})
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
r = {{}}
m.score(r, [(1, 2.0), (2, 1.0)], {{1: 3.0, 2: 4.0}}, 1.0, 2.0)
assert sorted(r) == [1, 2]
try:
    m.score(r, [(1, 2.0), (7, 1.0)], {{1: 3.0, 2: 4.0}}, 1.0, 2.0)
except KeyError:
    pass
else:
    raise AssertionError
'''
    for k in range(3):
        i = sub.create(isolated=False)
        try:
            e = sub.run_string(i, code)
            if e is not None:
                bad.append(f'subinterpreter: {e}')
            else:
                print('load ok')
        except Exception as e:
            bad.append(f'subinterpreter: {e!r}')
        sub.destroy(i)
if bad:
    print('\n'.join(bad))
    sys.exit(1)
