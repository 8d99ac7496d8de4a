"""Concrete environment: the same contracts run natively on the real,
uninstrumented code, with inputs from a solver model or drawn at random."""
from __future__ import annotations
import datetime as dt
import json
import os
import random
import sys
import traceback
from .reg import Out, Skip, swap_attr, undo_swaps

ALL = ('none', 'bool', 'int', 'float', 'str', 'list', 'dict', 'date', 'datetime', 'opaque')
STRS = ['', 'a', 'b', 'ab', 'abc', 'A', 'Ab', '1', '12', 'a1', ' ', ' a ', '-', '_', 'a_b', 'a.b',
        'é', 'key', 'name', 'id', '0', 'true', 'a\n', 'aB', 'x@y.z', '#fff', '2020-01-01',
        'http://a.b', '５']
INTS = [0, 1, -1, 2, 3, -2, 4, 5, 7, 10, 100, -100, 2 ** 40, -2 ** 40]
FLTS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, -0.5, 1e10, -1e10, 0.1, 3.0]


GAPS = []      # attributes asked of a stand-in that its contract does not give


class Opaque:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'Opaque({self.n})'


class Fail(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class State:
    def __init__(self, rng, given=None):
        self.rng = rng
        self.given = given or {}
        self.drawn = {}
        self.opaques = {}
        self.uf = {}
        self.pool = []
        self.checks = 0
        self.covered = set()
        self.undo = []
        self.standins = False


class ConcE:
    symbolic = False

    def __init__(self, st, prefix='', idx=()):
        self.st, self.prefix, self.idx = st, prefix, tuple(idx)

    def _draw(self, name, gen):
        st = self.st
        key = (self.prefix + name,) + self.idx
        if key in st.drawn:
            return st.drawn[key]
        ks = repr(key)
        if ks in st.given:
            v = self._dec(st.given[ks])
        else:
            v = gen(st.rng)
        st.drawn[key] = v
        return v

    def _dec(self, g):
        k = g[0]
        if k in ('none',):
            return None
        if k in ('bool', 'int', 'str'):
            return g[1]
        if k == 'float':
            return float(g[1])
        if k == 'list':
            return [self._dec(x) for x in g[1]]
        if k == 'dict':
            return {self._dec(a): self._dec(b) for a, b in g[1]}
        if k == 'date':
            return dt.date.fromordinal(max(1, min(g[1], 3652059)))
        if k == 'datetime':
            us = max(0, min(g[1], 3652058 * 86400 * 10 ** 6))
            d = dt.datetime.min + dt.timedelta(microseconds=us)
            return d.replace(tzinfo=dt.timezone.utc) if g[2] else d
        if k == 'opaque':
            return self.st.opaques.setdefault(g[1], Opaque(g[1]))
        raise ValueError(k)

    def bool(self, name):
        return self._draw(name, lambda r: r.random() < 0.5)

    def int(self, name, lo=None, hi=None):
        def g(r):
            a = -6 if lo is None else lo
            b = 6 if hi is None else hi
            if lo is None and hi is None and r.random() < 0.3:
                return r.choice(INTS)
            if hi is None:
                b = max(a + 6, b)
            if lo is None:
                a = min(b - 12, a)
            return r.randint(a, b)
        return self._draw(name, g)

    def float(self, name):
        return self._draw(name, lambda r: r.choice(FLTS))

    def num(self, name):
        return self.any(name, ('int', 'float'))

    def str(self, name):
        return self._draw(name, self._rstr)

    def _rstr(self, r):
        p = [x for x in self.st.pool if isinstance(x, str)]
        if p and r.random() < 0.35:
            return r.choice(p)
        if r.random() < 0.5:
            s = r.choice(STRS)
        else:
            s = ''.join(r.choice('abAB1_ .-') for _ in range(r.randint(0, 5)))
        self.st.pool.append(s)
        return s

    def _rany(self, r, kinds, depth=0):
        pool = [x for x in self.st.pool if kind_of(x) in kinds]
        if pool and r.random() < 0.2:
            return r.choice(pool)
        k = r.choice(kinds)
        v = None
        if k == 'bool':
            v = r.random() < 0.5
        elif k == 'int':
            v = r.choice(INTS) if r.random() < 0.5 else r.randint(-6, 6)
        elif k == 'float':
            v = r.choice(FLTS)
        elif k == 'str':
            v = self._rstr(r)
        elif k == 'list':
            v = [self._rany(r, ALL if depth < 2 else ALL[:5], depth + 1)
                 for _ in range(r.randint(0, 4))]
        elif k == 'dict':
            v = {self._rstr(r): self._rany(r, ALL if depth < 2 else ALL[:5], depth + 1)
                 for _ in range(r.randint(0, 3))}
        elif k == 'date':
            v = dt.date(2000, 1, 1) + dt.timedelta(days=r.randint(-3, 3))
        elif k == 'datetime':
            v = dt.datetime(2000, 1, 1) + dt.timedelta(
                days=r.randint(-2, 2), seconds=r.choice([0, 0, 1, 3600]),
                microseconds=r.choice([0, 1000]))
            if r.random() < 0.3:
                v = v.replace(tzinfo=dt.timezone.utc)
        elif k == 'opaque':
            v = Opaque(r.randint(0, 3))
        if v is not None and not isinstance(v, bool):
            self.st.pool.append(v)
        return v

    def any(self, name, kinds=ALL):
        v = self._draw(name, lambda r: self._rany(r, list(kinds)))
        if kind_of(v) not in kinds:
            raise Skip()
        return v

    def list_any(self, name):
        return list(self.any(name, ('list',)))

    def dict_any(self, name):
        return dict(self.any(name, ('dict',)))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self._draw(name, lambda r: r.randrange(len(options)))
        return options[i % len(options)]

    def lazy(self, fn):
        return _Lazy(fn)

    def list(self, name, mk, distinct=False):
        n = self._draw(name + '.len', lambda r: r.choice([0, 1, 1, 2, 2, 3, 4]))
        return [mk(ConcE(self.st, self.prefix + name + '.', self.idx + (i,))) for i in range(n)]

    recs = list

    def rec(self, tag, attrs=None, cls=None, onset=None, remake=None):
        self.st.standins = True
        return make_obj(cls, attrs or {}, onset)

    def dict(self, name, mkval=None, keykind='str'):
        return dict(self._draw(name + '.oid', lambda r: self._rany(r, ['dict'])))

    def uf(self, name, ret='any', nargs=None):
        st, p, idx = self.st, self.prefix, self.idx

        def f(*args):
            key = (p + name, idx, len(args)) + tuple(freeze(a, st) for a in args)
            if key not in st.uf:
                r = random.Random(repr((st.seed, key)))
                st.uf[key] = {'bool': lambda: r.random() < 0.5,
                              'int': lambda: r.randint(-5, 5),
                              'str': lambda: self._rstr(r),
                              'float': lambda: r.choice(FLTS),
                              'any': lambda: self._rany(r, list(ALL))}[ret]()
            return st.uf[key]
        return f

    def opaque(self, name):
        return self.any(name, ('opaque',))

    def obj(self, cls=None, **attrs):
        self.st.standins = True
        return make_obj(cls, attrs, 'free')

    def own(self, o):
        return o

    def log(self):
        return CLog()

    def call(self, f, *a, **k):
        try:
            return Out('ret', f(*a, **k))
        except Exception as x:       # noqa: BLE001
            return Out('exc', x)

    body = call

    def assume_contract(self, f, sub):
        pass

    def drop_contract(self, f):
        pass

    def swap(self, o, **attrs):
        for n, v in attrs.items():
            swap_attr(self.st.undo, o, n, v)

    def replace(self, f, sub):
        raise Skip()                 # assume-guarantee harnesses are symbolic only

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, label, c, incomplete=False, detail=''):
        self.st.checks += 1
        if not c:
            raise Fail(label, detail)

    def same(self, label, a, b, incomplete=False):
        self.st.checks += 1
        if not same(a, b):
            a, b = getattr(a, 'm', a) if isinstance(a, CLog) else a, b.m if isinstance(b, CLog) else b
            raise Fail(label, f'got {a!r}; specified {b!r}')

    def is_same(self, a, b):
        return same(a, b)

    def iff(self, label, a, b):
        self.st.checks += 1
        if bool(a) != bool(b):
            raise Fail(label, f'got {bool(a)}; specified {bool(b)}')

    def cover(self, label):
        self.st.covered.add(label)

    def truth(self, x):
        return bool(x)

    def fold(self, fn):
        pass

    def trust(self, text):
        pass


class _Lazy:
    def __init__(self, fn):
        self.fn = fn


class CLog:
    def __init__(self):
        self.m = []

    def add(self, *ev):
        self.m.append(tuple(ev))


def make_obj(cls, attrs, onset):
    """A stand-in object with the given attributes (specials from *x* keys)."""
    vals = dict(attrs)
    ns = {}

    def __getattribute__(self, n):
        if n == '__class__' and cls is not None:
            return cls
        if n == '__dict__':
            return vals
        if n in vals:
            v = vals[n]
            if isinstance(v, _Lazy):
                v = vals[n] = v.fn()
            return v
        g = vals.get('*getattr*')
        if n.startswith('__') and n.endswith('__') and (g is None or hasattr(object, n)):
            return object.__getattribute__(self, n)
        if g is not None:
            return g(n)
        if '*missing*' not in vals:
            GAPS.append(n)
        raise AttributeError(n)

    def __setattr__(self, n, v):
        if '*setattr*' in vals:
            vals['*setattr*'](n, v)
        elif onset == 'free':
            vals[n] = v
        elif onset is not None:
            onset(n, v)
        else:
            raise AttributeError(n)
    ns['__getattribute__'] = __getattribute__
    ns['__setattr__'] = __setattr__
    if '__call__' in vals:
        ns['__call__'] = lambda self, *a, **k: vals['__call__'](*a, **k)
    for sp in ('__len__', '__getitem__', '__setitem__', '__contains__', '__iter__', '__str__'):
        if sp in vals:
            ns[sp] = lambda self, *a, sp=sp: vals[sp](*a)
    if '*eq*' in vals:
        ns['__eq__'] = lambda self, o: vals['*eq*'](self, o)
        ns['__hash__'] = lambda self: 1
    return type('Stub', (), ns)()


def freeze(a, st):
    if isinstance(a, (list, tuple)):
        return (type(a).__name__,) + tuple(freeze(x, st) for x in a)
    if isinstance(a, dict):
        return ('d',) + tuple((freeze(k, st), freeze(v, st)) for k, v in a.items())
    if a is None or isinstance(a, (bool, int, float, str, dt.date)):
        return (type(a).__name__, repr(a))
    if not hasattr(st, 'keep'):
        st.keep = {}
    n = st.keep.setdefault(id(a), (len(st.keep), a))[0]
    return ('o', n)


def kind_of(v):
    if v is None:
        return 'none'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, list):
        return 'list'
    if isinstance(v, dict):
        return 'dict'
    if isinstance(v, dt.datetime):
        return 'datetime'
    if isinstance(v, dt.date):
        return 'date'
    return 'opaque'


def same(a, b):
    if a is b:
        return True
    if isinstance(a, CLog):
        a = a.m
    if isinstance(b, CLog):
        b = b.m
    if isinstance(a, (list,)) and isinstance(b, (list,)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (bool, int, str, dt.date)):
        return a == b
    return False


def run_once(c, seed, given=None):
    """None when the contract held (or was skipped), else a failure dict."""
    rng = random.Random(seed)
    st = State(rng, given)
    st.seed = seed
    E = ConcE(st)
    del GAPS[:]
    try:
        c.fn(E)
    except Skip:
        return None, st
    except Fail as f:
        if GAPS:
            raise RuntimeError(f'stand-in has no attribute {GAPS[:3]}; {f.label}: {f.detail[:300]}')
        return {'contract': c.name, 'label': f.label, 'detail': f.detail[:2000],
                'seed': seed, 'given': given,
                'input': {repr(k): repr(v)[:300] for k, v in st.drawn.items()}}, st
    except Exception as x:         # noqa: BLE001
        # an error the contract does not expect breaks it (see unexpected)
        tb = traceback.extract_tb(x.__traceback__)
        if GAPS or not unexpected(c, x, tb, st.standins):
            raise
        return {'contract': c.name, 'label': 'no other error',
                'detail': f'{type(x).__name__}: {x} at {tb[-1].filename}:{tb[-1].lineno}'[:2000],
                'seed': seed, 'given': given,
                'input': {repr(k): repr(v)[:300] for k, v in st.drawn.items()}}, st
    finally:
        undo_swaps(st.undo)
    return None, st


def unexpected(c, x, tb, standins):
    """Does this error show that the code broke the contract? Not if it may come
    from stand-ins or private names that the code uses differently now."""
    repo = os.path.realpath(os.environ.get('PVC_REPO', '/repo')) + '/jsonclasses/'
    while tb and tb[-1].name in ('__getattribute__', '__setattr__', '__getattr__') and isinstance(x, AttributeError):
        tb = tb[:-1]        # a name the contract asks for is not there
    inside = [os.path.realpath(f.filename).startswith(repo) for f in tb]
    if c.opts.get('native'):
        # a driver of the public interface: any error out of the code itself
        if any(inside[-6:]):
            return True
    elif any(inside):
        # raised by the code itself, and not for want of a name or an argument
        # that a stand-in does not have
        if not standins and not c.fn.__globals__.get('STANDINS'):
            return not isinstance(x, (NameError, ImportError, NotImplementedError, RecursionError))
        return inside[-1] and not isinstance(x, (AttributeError, TypeError, NameError, ImportError,
                                                 NotImplementedError, RecursionError))
    # the result is not of the kind, or not as long, as the contract says
    return '/contracts/' in tb[-1].filename and (
        isinstance(x, (KeyError, IndexError))
        or isinstance(x, (TypeError, AttributeError)) and "'NoneType'" in str(x))


def setup(props=None):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    repo = os.environ.get('PVC_REPO', '/repo')
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import contracts
    contracts.load_all(props)


def main():
    job = json.load(sys.stdin)
    out = {'failures': [], 'runs': 0, 'checks': 0, 'errors': []}
    try:
        setup(sorted({j['contract'][1:3] for j in job['jobs']}))
    except (ImportError, NameError, AttributeError, TypeError):
        raise
    except Exception as x:          # noqa: BLE001
        # the code refuses, or fails on, the class declarations the contracts make
        tb = traceback.extract_tb(x.__traceback__)
        repo = os.path.realpath(os.environ.get('PVC_REPO', '/repo')) + '/jsonclasses/'
        if not os.path.realpath(tb[-1].filename).startswith(repo):
            raise
        at = [f for f in tb if '/contracts/c' in f.filename][-1:]
        out['failures'].append({
            'contract': job['jobs'][0]['contract'][:3] + '.load', 'label': 'valid declarations are accepted',
            'detail': f'{type(x).__name__}: {x} at {tb[-1].filename}:{tb[-1].lineno}'[:2000], 'seed': 0,
            'given': None, 'input': {'declaration': at[0].line if at else ''}})
        out['runs'] = out['checks'] = 1
        json.dump(out, sys.stdout)
        return
    from .reg import CONTRACTS
    import time
    t0 = time.time()
    todo = []
    for j in job['jobs']:
        if j['contract'].endswith('.*'):
            todo += [dict(j, contract=n) for n in CONTRACTS if n.startswith(j['contract'][:-1])]
        else:
            todo.append(j)
    done = set()
    for j in todo:
        if j['contract'] in done or j['contract'] not in CONTRACTS:
            continue
        c = CONTRACTS[j['contract']]
        n, nerr = j.get('n', 1), 0
        for i in range(n):
            if time.time() - t0 > job.get('max_s', 60):
                break
            given = j.get('given')
            seed = j.get('seed', 1) * 1000003 + i
            if 'rawseed' in j:
                seed = j['rawseed']
            try:
                f, st = run_once(c, seed, given)
            except Exception:           # noqa: BLE001
                out['errors'].append([c.name, seed, traceback.format_exc()[-1500:]])
                nerr += 1
                if nerr > 20:
                    break
                continue
            out['runs'] += 1
            out['checks'] += st.checks
            if f is not None:
                out['failures'].append(f)
                done.add(c.name)
                break
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
