"""Registry of contracts (no solver imports: used natively as well)."""
CONTRACTS = {}


class Contract:
    def __init__(self, prop, name, fn, functions, weight, opts):
        self.prop, self.name, self.fn = prop, name, fn
        self.functions, self.weight, self.opts = functions, weight, opts


class Out:
    """Outcome of a call: ('ret', value) or ('exc', exception)."""
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    @property
    def ret(self):
        return self.kind == 'ret'

    def __repr__(self):
        return f'Out({self.kind}, {self.v!r})'


class Skip(BaseException):
    """Concrete mode: the drawn input violates a precondition."""


def contract(prop, name, functions=(), weight=1, **opts):
    """Register fn(E) as a contract of property prop. functions: the functions
    of the code under proof the contract is about."""
    def d(fn):
        key = f'{prop}.{name}'
        assert key not in CONTRACTS, key
        CONTRACTS[key] = Contract(prop, key, fn, list(functions), weight, opts)
        return fn
    return d


MISSING = object()


def swap_attr(undo, o, n, v):
    """Set an attribute of a class or module until undo_swaps."""
    undo.append((o, n, vars(o).get(n, MISSING)))
    setattr(o, n, v)


def undo_swaps(undo):
    for o, n, old in reversed(undo):
        if old is MISSING:
            delattr(o, n)
        else:
            setattr(o, n, old)
