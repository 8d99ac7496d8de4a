"""From a failed obligation to concrete inputs: the path condition is solved
again with small bounds on the sequence lengths, and the named inputs are read
from the model."""
from __future__ import annotations
import re
import z3
from . import vals
from .vals import Val, FL, KIND, LLEN, LAT, DORD, DTV, DTA
from .core import zand
from .seqs import DKEY, DVAL

DLEN = z3.Function('dlen', z3.IntSort(), z3.IntSort())
BOUND = 3


def unesc(s):
    s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
    return re.sub(r'\\x([0-9a-fA-F]{2})', lambda m: chr(int(m.group(1), 16)), s)


def given(e, f):
    ctx = f.ctx
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(*ctx['pc'])
    s.add(ctx['neg'])
    for b in ctx['bounds']:
        s.add(b <= BOUND)
    doms = {}
    for q in ctx['facts']:
        for i in range(BOUND):
            t = z3.IntVal(i)
            try:
                b = q.body(t)
            except BaseException:       # noqa: BLE001
                continue
            if b is None:
                continue
            if isinstance(b, tuple):
                b = b[0]
            g = zand(q.lo <= t, t < q.hi)
            if q.guard is not None:
                g = zand(q.guard, g)
            s.add(z3.Implies(g, b))
    if s.check() != z3.sat:
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*ctx['pc'])
        s.add(ctx['neg'])
        if s.check() != z3.sat:
            return None
    m = s.model()

    def ev(t):
        return m.eval(t, model_completion=True)

    def fl(t):
        n = t.decl().name()
        if n == 'fin':
            q = t.arg(0)
            return ['float', repr(float(q.as_fraction()))]
        return ['float', {'pinf': 'inf', 'ninf': '-inf', 'nan': 'nan'}[n]]

    def val(t, depth=0):
        t = ev(t)
        n = t.decl().name()
        if n == 'none':
            return ['none']
        if n == 'vbool':
            return ['bool', z3.is_true(t.arg(0))]
        if n == 'vint':
            return ['int', t.arg(0).as_long()]
        if n == 'vstr':
            return ['str', unesc(t.arg(0).as_string())]
        if n == 'vflt':
            return fl(t.arg(0))
        return obj(t.arg(0), depth)

    def obj(o, depth=0):
        k = ev(KIND(o)).as_long()
        if k == vals.K_LIST:
            n = max(0, min(ev(LLEN(o)).as_long(), 6 if depth < 3 else 0))
            return ['list', [val(LAT(o, z3.IntVal(i)), depth + 1) for i in range(n)]]
        if k == vals.K_DICT:
            n = max(0, min(ev(DLEN(o)).as_long(), 6 if depth < 3 else 0))
            out = []
            for i in range(n):
                kt = ev(DKEY(o, z3.IntVal(i)))
                kv = val(kt, depth + 1)
                if kv[0] in ('list', 'dict'):
                    continue
                out.append([kv, val(DVAL(o, kt), depth + 1)])
            return ['dict', out]
        if k == vals.K_DATE:
            return ['date', ev(DORD(o)).as_long()]
        if k == vals.K_DATETIME:
            return ['datetime', ev(DTV(o)).as_long(), z3.is_true(ev(DTA(o)))]
        return ['opaque', ev(o).as_long()]
    out = {}
    for n, (sort, k) in e.inputs.items():
        so = {'Bool': z3.BoolSort(), 'Int': z3.IntSort(), 'FL': FL, 'String': z3.StringSort(),
              'Val': Val}[sort]

        def rd(t):
            t = ev(t)
            if sort == 'Bool':
                return ['bool', z3.is_true(t)]
            if sort == 'Int':
                if n.endswith('.oid'):
                    return obj(t)
                return ['int', t.as_long()]
            if sort == 'FL':
                return fl(t)
            if sort == 'String':
                return ['str', unesc(t.as_string())]
            return val(t)
        if k == 0:
            out[repr((n,))] = rd(z3.Const(n, so))
        elif k == 1:
            fn = z3.Function(n, z3.IntSort(), so)
            for i in range(BOUND + 1):
                out[repr((n, i))] = rd(fn(z3.IntVal(i)))
        elif k == 2:
            fn = z3.Function(n, z3.IntSort(), z3.IntSort(), so)
            for i in range(BOUND + 1):
                for j in range(BOUND + 1):
                    out[repr((n, i, j))] = rd(fn(z3.IntVal(i), z3.IntVal(j)))
    return out
