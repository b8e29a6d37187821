"""All random choices of the code under test, made enumerable.

`install()` replaces the module level functions of `random` and `numpy.random`
(before theboss is imported, because the code binds them with `from ... import`).
Without an active oracle every replacement delegates to the real generator.  With an
active oracle every draw becomes a branching point; `enumerate_law` walks the complete
tree of choices by deterministic replay and returns the exact law of a result.

 * uniform scalars are symbolic (`Sym`): a linear function of an unknown u in an
   interval; comparing it splits the interval, with the lengths as weights;
 * uniform arrays are arrays of such symbols; exp/cos/sin of 2*pi*k*u (a random phase)
   is averaged over the q-th roots of unity, which is exact for every trigonometric
   polynomial of degree below q;
 * choice / randint / shuffle / binomial ... branch over their values.

Anything else raises Opaque, and the caller falls back to a statistical test.
"""
import cmath
import copyreg
import itertools
import math
import random as _random
import sys

import numpy as np

EPS = 1e-11


class Opaque(Exception):
    """The symbolic execution cannot follow this use of randomness."""


class Mismatch(Opaque):
    """Replaying a prefix of choices led to a different choice point."""


class TooMany(Opaque):
    """Too many paths."""


class Oracle:
    """One execution along a prefix of choices."""

    def __init__(self, prefix, q):
        self.prefix = prefix
        self.pos = 0
        self.weight = 1.0
        self.trail = []          # (options, index) of every branching point
        self.q = q
        self.vars = {}           # id -> (lo, hi)
        self.count = 0
        self.draws = 0
        self.seeded = None       # real generator after an explicit seed

    def branch(self, options, tag):
        """options: list of (weight, value), weights sum to 1."""
        options = [(w, v) for (w, v) in options if w > EPS]
        if not options:
            raise Opaque("no option left at " + tag)
        tot = sum(w for w, _ in options)
        if len(options) == 1:
            return options[0][1]
        if self.pos < len(self.prefix):
            tag0, k0, i = self.prefix[self.pos]
            if tag0 != tag or k0 != len(options):
                raise Mismatch("replay met %s/%d instead of %s/%d"
                               % (tag, len(options), tag0, k0))
        else:
            i = 0
        self.trail.append((tag, len(options), i))
        self.pos += 1
        self.weight *= options[i][0] / tot
        return options[i][1]

    def new_var(self):
        self.count += 1
        self.vars[self.count] = [0.0, 1.0, None]
        return self.count


ACTIVE = None           # the active oracle, if any


class Sym:
    """a*u + b with u uniform in an interval that comparisons narrow down."""

    def __init__(self, var, a=1.0, b=0.0):
        self.var, self.a, self.b = var, a, b

    # -- arithmetic ---------------------------------------------------------
    def _lin(self, a, b):
        return Sym(self.var, a, b)

    def _num(self, o):
        if isinstance(o, Sym) or isinstance(o, SymArray):
            raise Opaque("arithmetic between random numbers")
        if isinstance(o, np.ndarray):
            if o.shape == ():
                return o.item()
            raise Opaque("array arithmetic on a random number")
        return o

    def __add__(self, o):
        return self._lin(self.a, self.b + self._num(o))
    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(self.a, self.b - self._num(o))

    def __rsub__(self, o):
        return self._lin(-self.a, self._num(o) - self.b)

    def __mul__(self, o):
        c = self._num(o)
        return self._lin(self.a * c, self.b * c)
    __rmul__ = __mul__

    def __truediv__(self, o):
        c = self._num(o)
        return self._lin(self.a / c, self.b / c)

    def __neg__(self):
        return self._lin(-self.a, -self.b)

    def __pos__(self):
        return self

    # -- decisions ----------------------------------------------------------
    def _below(self, x):
        """Decides whether a*u + b < x."""
        o = ACTIVE
        if o is None:
            raise Opaque("a random number outlived its run")
        x = self._num(x)
        a, b = self.a, self.b
        if isinstance(x, (complex, np.complexfloating)):
            x = x.real
        if isinstance(a, (complex, np.complexfloating)) or isinstance(b, (complex, np.complexfloating)):
            if abs(complex(a).imag) > 0 or abs(complex(b).imag) > 0:
                raise Opaque("comparison of a complex random number")
            a, b = complex(a).real, complex(b).real
        if x != x:
            return False
        if a == 0:
            return b < x
        t = (x - b) / a
        lo, hi, phase = o.vars[self.var]
        if phase is not None:
            return (a * phase + b) < x
        span = hi - lo
        t = min(max(t, lo), hi)
        p = (t - lo) / span           # P(u < t)
        lower = o.branch([(p, True), (1 - p, False)], "cmp")
        if p > EPS and 1 - p > EPS:
            if lower:
                o.vars[self.var][1] = t
            else:
                o.vars[self.var][0] = t
        return lower if a > 0 else not lower

    def __lt__(self, x):
        return self._below(x)
    __le__ = __lt__

    def __gt__(self, x):
        return not self._below(x)
    __ge__ = __gt__

    def __eq__(self, x):
        return False

    def __ne__(self, x):
        return True

    def __hash__(self):
        raise Opaque("hash of a random number")

    def __bool__(self):
        return True

    def _floor(self):
        o = ACTIVE
        lo, hi, phase = o.vars[self.var]
        e = sorted((self.a * lo + self.b, self.a * hi + self.b))
        k = math.floor(e[0] + EPS)
        while k + 1 < e[1] - EPS:
            if self._below(k + 1):
                return k
            k += 1
        return k

    def __int__(self):
        v = self._floor()
        lo, hi, _ = ACTIVE.vars[self.var]
        if self.a * lo + self.b < -EPS or self.a * hi + self.b < -EPS:
            raise Opaque("int of a negative random number")
        return v
    __trunc__ = __int__

    def __floor__(self):
        return self._floor()

    def __floordiv__(self, o):
        return (self / o)._floor()

    def __float__(self):
        raise Opaque("float of a random number")

    def __complex__(self):
        raise Opaque("complex of a random number")

    def __index__(self):
        raise Opaque("index of a random number")

    def __reduce__(self):
        return (Sym, (self.var, self.a, self.b))

    def __deepcopy__(self, memo):
        return self

    def _phase(self, mult):
        """u itself as a grid point, legitimate when only exp(2 pi i mult u) is used."""
        o = ACTIVE
        lo, hi, ph = o.vars[self.var]
        if ph is not None:
            return ph
        if lo != 0.0 or hi != 1.0:
            raise Opaque("phase of a narrowed random number")
        k = round(mult)
        if k == 0 or abs(mult - k) > 1e-9:
            raise Opaque("not a full random phase")
        if math.gcd(abs(k), o.q) != 1:
            raise Opaque("phase multiple")
        ph = o.branch([(1.0 / o.q, (j + 0.3) / o.q) for j in range(o.q)], "phase")
        o.vars[self.var][2] = ph
        return ph

    def _exp(self):
        a, b = complex(self.a), complex(self.b)
        if abs(a.real) > 1e-12:
            raise Opaque("exp of a random number")
        u = self._phase(a.imag / (2 * math.pi))
        return cmath.exp(a * u + b)

    def _trig(self, f):
        a, b = complex(self.a), complex(self.b)
        if abs(a.imag) > 1e-12:
            raise Opaque("trigonometric function of a complex number")
        u = self._phase(a.real / (2 * math.pi))
        return f(a.real * u + b.real)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__" or kw.get("out") is not None:
            raise Opaque("ufunc " + str(ufunc))
        big = [x for x in inputs if isinstance(x, SymArray)
               or (isinstance(x, np.ndarray) and x.shape != ())]
        name = ufunc.__name__
        if big:
            return _ufunc_arrays(name, inputs)
        return _ufunc_scalar(name, inputs)


    def __array_function__(self, func, types, args, kwargs):
        return _array_function(func, args, kwargs)


def _array_function(func, args, kwargs):
    name = func.__name__
    if name in ("searchsorted", "digitize"):
        def f(a, v, side="left", right=False):
            if name == "digitize":
                a, v, side = v, a, "left" if right else "right"
            edges = [float(x) for x in a]

            def one(u):
                for i, e in enumerate(edges):
                    if u < e:
                        return i
                return len(edges)
            if isinstance(v, SymArray):
                return np.array([one(u) for u in v])
            return np.int64(one(v))
        return f(*args, **kwargs)
    raise Opaque("numpy function " + name)


def _ufunc_scalar(name, inputs):
    ins = [x.item() if isinstance(x, (np.ndarray, np.generic)) else x for x in inputs]
    if name == "exp" and isinstance(ins[0], Sym):
        return np.complex128(ins[0]._exp())
    if name == "cos" and isinstance(ins[0], Sym):
        return np.float64(ins[0]._trig(math.cos))
    if name == "sin" and isinstance(ins[0], Sym):
        return np.float64(ins[0]._trig(math.sin))
    if name == "floor":
        return np.float64(ins[0]._floor())
    if name in ("positive",):
        return ins[0]
    if name == "negative":
        return -ins[0]
    x = ins[0]
    y = ins[1] if len(ins) > 1 else None
    ops = {
        "add": lambda: x + y, "subtract": lambda: x - y, "multiply": lambda: x * y,
        "divide": lambda: x / y, "true_divide": lambda: x / y,
        "less": lambda: x < y, "less_equal": lambda: x <= y,
        "greater": lambda: x > y, "greater_equal": lambda: x >= y,
        "equal": lambda: False, "not_equal": lambda: True,
    }
    if name not in ops:
        raise Opaque("ufunc " + name)
    return ops[name]()


def _ufunc_arrays(name, inputs):
    arrs = []
    for x in inputs:
        if isinstance(x, SymArray):
            arrs.append(x.a)
        elif isinstance(x, Sym):
            h = np.empty((), dtype=object)
            h[()] = x
            arrs.append(h)
        else:
            arrs.append(np.asarray(x).astype(object))
    arrs = np.broadcast_arrays(*arrs)
    shape = arrs[0].shape
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        args = [a[idx] for a in arrs]
        if any(isinstance(a, Sym) for a in args):
            out[idx] = _ufunc_scalar(name, args)
        else:
            out[idx] = getattr(np, name)(*args)
    return _wrap(out)


def _wrap(out):
    flat = list(out.flat)
    if any(isinstance(x, Sym) for x in flat):
        return SymArray(out)
    if all(isinstance(x, (bool, np.bool_)) for x in flat) and flat:
        return out.astype(bool)
    if any(isinstance(x, (complex, np.complexfloating)) for x in flat):
        return out.astype(np.complex128)
    return out.astype(float)


class SymArray:
    """A numpy-like array of symbols."""

    def __init__(self, a):
        self.a = a

    shape = property(lambda s: s.a.shape)
    size = property(lambda s: s.a.size)
    ndim = property(lambda s: s.a.ndim)

    def __len__(self):
        return len(self.a)

    def __getitem__(self, k):
        r = self.a[k]
        return SymArray(r) if isinstance(r, np.ndarray) else r

    def __iter__(self):
        for k in range(len(self.a)):
            yield self[k]

    def tolist(self):
        return self.a.tolist()

    def copy(self):
        return SymArray(self.a.copy())

    def reshape(self, *s):
        return SymArray(self.a.reshape(*s))

    def flatten(self):
        return SymArray(self.a.flatten())
    ravel = flatten

    def __setitem__(self, k, v):
        if isinstance(v, SymArray):
            v = v.a
        self.a[k] = v

    def __neg__(self):
        return _ufunc_arrays("multiply", (self, -1))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Opaque("attribute %s of a random array" % name)

    def __array_function__(self, func, types, args, kwargs):
        return _array_function(func, args, kwargs)

    def __array__(self, *a, **k):
        raise Opaque("conversion of random numbers to an array")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__" or kw.get("out") is not None:
            raise Opaque("ufunc " + str(ufunc))
        return _ufunc_arrays(ufunc.__name__, inputs)

    def _op(name, swap=False):
        def f(self, o):
            return _ufunc_arrays(name, (o, self) if swap else (self, o))
        return f
    __add__, __radd__ = _op("add"), _op("add", True)
    __sub__, __rsub__ = _op("subtract"), _op("subtract", True)
    __mul__, __rmul__ = _op("multiply"), _op("multiply", True)
    __truediv__ = _op("divide")
    __lt__, __le__ = _op("less"), _op("less_equal")
    __gt__, __ge__ = _op("greater"), _op("greater_equal")
    __hash__ = None

    def __eq__(self, o):
        raise Opaque("equality of random arrays")

    def __bool__(self):
        raise Opaque("truth of random arrays")


# ---------------------------------------------------------------------------
# draws
def _new():
    ACTIVE.draws += 1
    if ACTIVE.draws > 200000:
        raise TooMany("too many draws in one run")
    return Sym(ACTIVE.new_var())


def _uniform(size=None, low=0.0, high=1.0):
    if size is None or (isinstance(size, tuple) and size == ()):
        s = _new()
        return s if (low == 0.0 and high == 1.0) else s * (high - low) + low
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        s = _new()
        out[idx] = s if (low == 0.0 and high == 1.0) else s * (high - low) + low
    return SymArray(out)


def _pick(weights, tag):
    ACTIVE.draws += 1
    if ACTIVE.draws > 200000:
        raise TooMany("too many draws in one run")
    return ACTIVE.branch([(float(w), i) for i, w in enumerate(weights)], tag)


def _many(size, one):
    if size is None:
        return one()
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    n = int(np.prod(shape)) if shape else 1
    return np.array([one() for _ in range(n)]).reshape(shape)


def _check_p(p, n):
    p = np.asarray(p)
    if np.iscomplexobj(p):
        raise TypeError("Cannot cast array data from complex to float64")
    p = p.astype(float)
    if p.ndim != 1:
        raise ValueError("'p' must be 1-dimensional")
    if len(p) != n:
        raise ValueError("'a' and 'p' must have same size")
    if np.isnan(p).any():
        raise ValueError("probabilities contain NaN")
    if (p < 0).any():
        raise ValueError("probabilities are not non-negative")
    if abs(math.fsum(p) - 1.0) > max(math.sqrt(np.finfo(float).eps), 0):
        raise ValueError("probabilities do not sum to 1")
    return p


def _np_choice(a, size=None, replace=True, p=None, axis=0, shuffle=True):
    if isinstance(a, (int, np.integer)):
        if a <= 0:
            raise ValueError("a must be greater than 0")
        arr, n = None, int(a)
    else:
        arr = np.asarray(a)
        n = len(arr)
        if n == 0:
            raise ValueError("'a' cannot be empty")
    w = list(_check_p(p, n)) if p is not None else [1.0 / n] * n
    if replace or size is None:
        def one():
            i = _pick(w, "choice")
            return np.int64(i) if arr is None else arr[i]
        return _many(size, one)
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    k = int(np.prod(shape))
    if k > n:
        raise ValueError("Cannot take a larger sample than population when replace is False")
    left, out = list(range(n)), []
    for _ in range(k):
        tot = sum(w[i] for i in left)
        j = _pick([w[i] / tot for i in left], "choice")
        i = left.pop(j)
        out.append(np.int64(i) if arr is None else arr[i])
    return np.array(out).reshape(shape + (() if arr is None else arr.shape[1:]))


def _np_randint(low, high=None, size=None, dtype=int, endpoint=False):
    if high is None:
        low, high = 0, low
    if endpoint:
        high = high + 1
    n = int(high) - int(low)
    if n <= 0:
        raise ValueError("low >= high")
    return _many(size, lambda: int(low) + _pick([1.0 / n] * n, "randint"))


def _perm_indices(n):
    left, out = list(range(n)), []
    while left:
        j = _pick([1.0 / len(left)] * len(left), "perm")
        out.append(left.pop(j))
    return out


def _np_shuffle(x, axis=0):
    idx = _perm_indices(len(x))
    if isinstance(x, np.ndarray):
        x[:] = x[idx].copy()
    else:
        x[:] = [x[i] for i in idx]


def _np_permutation(x, axis=0):
    if isinstance(x, (int, np.integer)):
        x = np.arange(x)
    x = np.array(x)
    return x[_perm_indices(len(x))]


def _binomial(n, p, size=None):
    w = [math.comb(int(n), k) * p ** k * (1 - p) ** (int(n) - k) for k in range(int(n) + 1)]
    return _many(size, lambda: _pick(w, "binomial"))


def _multinomial(n, pvals, size=None):
    pvals = [float(x) for x in pvals]

    def one():
        left, rest, out = int(n), 1.0, []
        for p in pvals[:-1]:
            q = min(1.0, p / rest) if rest > EPS else 0.0
            k = int(_binomial(left, q))
            out.append(k)
            left -= k
            rest -= p
        return np.array(out + [left])
    return one() if size is None else np.array([one() for _ in range(size)])


def _py_choices(population, weights=None, *, cum_weights=None, k=1):
    population = list(population)
    if cum_weights is not None:
        weights = [b - a for a, b in zip([0] + list(cum_weights)[:-1], cum_weights)]
    if weights is None:
        weights = [1.0] * len(population)
    tot = float(sum(weights))
    return [population[_pick([w / tot for w in weights], "choices")] for _ in range(k)]


def _py_sample(population, k, *, counts=None):
    population = list(population)
    out = []
    for _ in range(k):
        out.append(population.pop(_pick([1.0 / len(population)] * len(population), "sample")))
    return out


def _randrange(start, stop=None, step=1):
    r = range(start) if stop is None else range(start, stop, step)
    if not len(r):
        raise ValueError("empty range")
    return r[_pick([1.0 / len(r)] * len(r), "randrange")]


# symbolic versions, by (module, name)
SYM = {
    ("np", "rand"): lambda *s: _uniform(s if s else None),
    ("np", "random"): lambda size=None: _uniform(size),
    ("np", "random_sample"): lambda size=None: _uniform(size),
    ("np", "ranf"): lambda size=None: _uniform(size),
    ("np", "sample"): lambda size=None: _uniform(size),
    ("np", "uniform"): lambda low=0.0, high=1.0, size=None: _uniform(size, low, high),
    ("np", "choice"): _np_choice,
    ("np", "randint"): _np_randint,
    ("np", "random_integers"): lambda low, high=None, size=None:
        _np_randint(low, high, size, endpoint=True),
    ("np", "shuffle"): _np_shuffle,
    ("np", "permutation"): _np_permutation,
    ("np", "binomial"): _binomial,
    ("np", "multinomial"): _multinomial,
    ("py", "random"): lambda: _uniform(),
    ("py", "uniform"): lambda a, b: _uniform(None, a, b),
    ("py", "choice"): lambda seq: seq[_pick([1.0 / len(seq)] * len(seq), "choice")],
    ("py", "choices"): _py_choices,
    ("py", "randint"): lambda a, b: _randrange(a, b + 1),
    ("py", "randrange"): _randrange,
    ("py", "shuffle"): lambda x: _np_shuffle(x),
    ("py", "sample"): _py_sample,
}
GEN_NAMES = {
    "random": ("np", "random"), "uniform": ("np", "uniform"), "choice": ("np", "choice"),
    "shuffle": ("np", "shuffle"), "permutation": ("np", "permutation"),
    "binomial": ("np", "binomial"), "multinomial": ("np", "multinomial"),
    "permuted": ("np", "permutation"),
}
OTHERS_NP = ["normal", "standard_normal", "randn", "exponential", "standard_exponential",
             "poisson", "beta", "gamma", "geometric", "dirichlet", "bytes", "hypergeometric"]
OTHERS_PY = ["gauss", "normalvariate", "expovariate", "betavariate", "getrandbits",
             "triangular", "gammavariate"]

REAL = {}


def _seeded(kind):
    return ACTIVE is not None and ACTIVE.seeded is not None and ACTIVE.seeded.get(kind)


def _dispatch(kind, name):
    real = REAL[(kind, name)]
    sym = SYM.get((kind, name))

    def f(*a, **k):
        if ACTIVE is None:
            return real(*a, **k)
        gen = _seeded(kind)
        if gen is not None and gen is not False:
            return getattr(gen, name)(*a, **k)
        if sym is None:
            raise Opaque(name)
        return sym(*a, **k)
    f.__name__ = name
    return f


def _make_seed(kind, real, factory):
    def seed(*a, **k):
        if ACTIVE is None:
            return real(*a, **k)
        arg = a[0] if a else (k.get("seed") if k else None)
        if ACTIVE.seeded is None:
            ACTIVE.seeded = {}
        ACTIVE.seeded[kind] = None if arg is None else factory(arg)
    return seed


class GenProxy:
    """Stands for numpy.random.default_rng() / RandomState() / random.Random()."""

    def __init__(self, kind, real):
        self._kind, self._real = kind, real

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = getattr(self._real, name)
        if not callable(real):
            return real

        def f(*a, **k):
            if ACTIVE is None:
                return real(*a, **k)
            if name == "integers":
                return _np_randint(*a, **k)
            sym = SYM.get((self._kind, name)) or SYM.get(GEN_NAMES.get(name))
            if sym is None:
                raise Opaque("generator." + name)
            return sym(*a, **k)
        return f

    def __reduce__(self):
        return (GenProxy, (self._kind, self._real))

    def __deepcopy__(self, memo):
        import copy
        return GenProxy(self._kind, copy.deepcopy(self._real, memo))


def install():
    if REAL:
        return
    if any(m == "theboss" or m.startswith("theboss.") for m in sys.modules):
        raise RuntimeError("theboss imported before the random generators were replaced")
    for kind, mod, names in (
            ("np", np.random, [n for (k, n) in SYM if k == "np"] + OTHERS_NP),
            ("py", _random, [n for (k, n) in SYM if k == "py"] + OTHERS_PY)):
        for name in names:
            if hasattr(mod, name):
                REAL[(kind, name)] = getattr(mod, name)
    for (kind, name) in list(REAL):
        setattr(np.random if kind == "np" else _random, name, _dispatch(kind, name))
    real_default, real_state, real_pyr = np.random.default_rng, np.random.RandomState, _random.Random
    REAL["default_rng"], REAL["Random"] = real_default, real_pyr
    REAL["np_seed"], REAL["py_seed"] = np.random.seed, _random.seed

    def default_rng(seed=None):
        if isinstance(seed, GenProxy):
            return seed
        if seed is not None:
            return real_default(seed)
        return GenProxy("np", real_default(np.random.SeedSequence().entropy))

    # classes, not functions: other code uses them in isinstance and as base classes
    def stand_in(real, kind, unseeded):
        class Meta(type(real)):
            def __call__(cls, *a, **k):
                if cls is Stand:
                    return unseeded() if empty(a, k) else real(*a, **k)
                return super().__call__(*a, **k)

            def __instancecheck__(cls, x):
                if cls is Stand:
                    return isinstance(x, real) or (type(x) is GenProxy and x._kind == kind
                                                   and isinstance(x._real, real))
                return super().__instancecheck__(x)

        def empty(a, k):
            v = list(a) + list(k.values())
            return not v or v == [None]
        Stand = Meta(real.__name__, (real,), {"__module__": real.__module__, "__qualname__": real.__name__})
        return Stand
    np.random.default_rng = default_rng
    np.random.RandomState = stand_in(real_state, "np", lambda: GenProxy("np", real_state()))
    _random.Random = stand_in(real_pyr, "py", lambda: GenProxy("py", real_pyr()))
    _random.SystemRandom = stand_in(_random.SystemRandom, "py", lambda: GenProxy("py", real_pyr()))
    copyreg.pickle(real_pyr, lambda r: (_restore, (r.getstate(),)))
    np.random.seed = _make_seed("np", REAL["np_seed"], lambda s: real_state(s))
    _random.seed = _make_seed("py", REAL["py_seed"], lambda s: real_pyr(s))


def _restore(state):
    r = REAL.get("Random", _random.Random)()
    r.setstate(state)
    return r


def seed_real(n):
    REAL["np_seed"](n % (2 ** 32))
    REAL["py_seed"](n)


def enumerate_law(fn, q=2, max_paths=20000, deadline=None):
    """Exact law of fn() over all its random choices: {result: probability}.

    fn must build everything it uses afresh and return a hashable result."""
    global ACTIVE
    import time
    law, prefix, paths = {}, [], 0
    again = []
    while True:
        orc = Oracle(prefix, q)
        ACTIVE = orc
        try:
            res = fn()
        finally:
            ACTIVE = None
        paths += 1
        law[res] = law.get(res, 0.0) + orc.weight
        trail = orc.trail
        if paths <= 6:
            again.append((list(trail), res))
        while trail and trail[-1][2] + 1 >= trail[-1][1]:
            trail.pop()
        if not trail:
            break
        tag, k, i = trail[-1]
        prefix = trail[:-1] + [(tag, k, i + 1)]
        if paths >= max_paths:
            raise TooMany("more than %d paths" % max_paths)
        if deadline is not None and time.process_time() > deadline:
            raise TooMany("time")
    # Randomness that does not come from here shows when the same choices are replayed.
    for trail, res in again:
        for _ in range(5):
            ACTIVE = Oracle(trail, q)
            try:
                res2 = fn()
                same = ACTIVE.trail == trail and res2 == res
            finally:
                ACTIVE = None
            if not same:
                raise Opaque("randomness from elsewhere")
    return law, paths
