"""Built-in functions in plain Python; instrumented like the code under proof,
so that each of them is decided by the loop rule."""


def any_(it):
    for x in it:
        if x:
            return True
    return False


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def next_(it, *default):
    for x in it:
        return x
    if default:
        return default[0]
    raise StopIteration()


def first_list(it):
    out = []
    for x in it:
        out.append(x)
        return out
    return out


def reduce_(f, it, *init):
    if init:
        acc = init[0]
        for x in it:
            acc = f(acc, x)
        return acc
    first = True
    acc = None
    for x in it:
        if first:
            acc = x
            first = False
        else:
            acc = f(acc, x)
    if first:
        raise TypeError('reduce() of empty iterable with no initial value')
    return acc


def sum_(it, start):
    acc = start
    for x in it:
        acc = acc + x
    return acc


def min2(a, b):
    return b if b < a else a


def max2(a, b):
    return b if b > a else a


def list_index(lst, x):
    for i, v in enumerate(lst):
        if v is x or v == x:
            return i
    raise ValueError('x not in list')


def list_remove_pos(lst, x):
    for i, v in enumerate(lst):
        if v is x or v == x:
            return i
    raise ValueError('list.remove(x): x not in list')


def list_count(lst, x):
    n = 0
    for v in lst:
        if v is x or v == x:
            n = n + 1
    return n


def seq_contains(it, x):
    for v in it:
        if v is x or v == x:
            return True
    return False


def set_diff(a, b):
    return {x for x in a if x not in b}


def set_and(a, b):
    return {x for x in a if x in b}


def materialize(it):
    out = []
    for x in it:
        out.append(x)
    return out


def listcomp(f, it, cond):
    out = []
    for x in it:
        if cond is None or cond(x):
            out.append(f(x))
    return out


def listcomp_flat(f, it, cond):
    out = []
    for x in it:
        if cond is None or cond(x):
            out.extend(f(x))
    return out


def dictcomp(f, it, cond):
    out = {}
    for x in it:
        if cond is None or cond(x):
            k, v = f(x)
            out[k] = v
    return out


def fromkeys(it, v=None):
    out = {}
    for x in it:
        out[x] = v
    return out


def slice_indices(start, stop, step, n):
    if step is None:
        step = 1
    if step == 0:
        raise ValueError('slice step cannot be zero')
    if step > 0:
        lo, hi = 0, n
    else:
        lo, hi = -1, n - 1
    if start is None:
        start = lo if step > 0 else hi
    elif start < 0:
        start = max(start + n, lo)
    else:
        start = min(start, hi)
    if stop is None:
        stop = hi if step > 0 else lo
    elif stop < 0:
        stop = max(stop + n, lo)
    else:
        stop = min(stop, hi)
    return start, stop, step
