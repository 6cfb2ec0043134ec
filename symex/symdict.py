"""dict / set that accept symbolic keys next to concrete ones: a lookup that involves a symbolic key compares it with the
stored keys one by one (each comparison is a branch of the exploration).  Symbolic keys are stored boxed (identity hash)."""
import ast
import collections
import types
from .core import Sym, SInt

_dict, _set, _frozenset = dict, set, frozenset


class _Box:
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def has_sym(k):
    if isinstance(k, Sym):
        return True
    if isinstance(k, (tuple, _frozenset)):
        return any(has_sym(x) for x in k)
    return False


_NUM = (int, float, complex)


def _same(a, b):
    """a == b, decided (branches on symbolic parts)"""
    if a is b:
        return True
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, Sym) or isinstance(b, Sym):
        o = b if isinstance(a, Sym) else a
        if not isinstance(o, (Sym, int, float)) and not hasattr(o, 'dtype'):
            return False
    elif isinstance(b, tuple):
        return False
    return bool(a == b)


_MISS = object()


def _find(self, key):
    """the stored (boxed) key equal to key, or _MISS"""
    s = has_sym(key)
    if not s:
        if not self._n or self._raw_in(key):
            return key if self._raw_in(key) else _MISS
        for k in list(self._raw_iter()):
            if type(k) is _Box and _same(k.k, key):
                return k
        return _MISS
    hash(key)
    for k in list(self._raw_iter()):
        if _same(k.k if type(k) is _Box else k, key):
            return k
    return _MISS


class _DMeta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or (cls is SymDict and isinstance(o, _dict))

    def __subclasscheck__(cls, c):
        return type.__subclasscheck__(cls, c) or (cls is SymDict and issubclass(c, _dict))


class SymDict(_dict, metaclass=_DMeta):
    _n = 0

    def __init__(self, *a, **k):
        _dict.__init__(self)
        self.update(*a, **k)

    def _raw_in(self, key):
        return _dict.__contains__(self, key)

    def _raw_iter(self):
        return _dict.__iter__(self)

    def update(self, *a, **k):
        if a:
            o = a[0]
            if hasattr(o, 'keys'):
                for x in o.keys():
                    self[x] = o[x]
            else:
                for x, v in o:
                    self[x] = v
        for x, v in k.items():
            _dict.__setitem__(self, x, v)

    def __contains__(self, key):
        return _find(self, key) is not _MISS

    def __missing__(self, key):
        raise KeyError(key)

    def __getitem__(self, key):
        k = _find(self, key)
        if k is _MISS:
            return self.__missing__(key)
        return _dict.__getitem__(self, k)

    def get(self, key, default=None):
        k = _find(self, key)
        return default if k is _MISS else _dict.__getitem__(self, k)

    def __setitem__(self, key, v):
        k = _find(self, key)
        if k is _MISS:
            k = key
            if has_sym(key):
                k = _Box(key)
                self._n += 1
        _dict.__setitem__(self, k, v)

    def setdefault(self, key, default=None):
        k = _find(self, key)
        if k is _MISS:
            self[key] = default
            return default
        return _dict.__getitem__(self, k)

    def __delitem__(self, key):
        k = _find(self, key)
        if k is _MISS:
            raise KeyError(key)
        _dict.__delitem__(self, k)
        if type(k) is _Box:
            self._n -= 1

    def pop(self, key, *d):
        k = _find(self, key)
        if k is _MISS:
            if d:
                return d[0]
            raise KeyError(key)
        if type(k) is _Box:
            self._n -= 1
        return _dict.pop(self, k)

    def popitem(self):
        k, v = _dict.popitem(self)
        if type(k) is _Box:
            self._n -= 1
            k = k.k
        return k, v

    def clear(self):
        _dict.clear(self)
        self._n = 0

    def __iter__(self):
        if not self._n:
            return _dict.__iter__(self)
        return iter([k.k if type(k) is _Box else k for k in _dict.__iter__(self)])

    def __reversed__(self):
        return reversed(list(self))

    def keys(self):
        return _dict.keys(self) if not self._n else list(self)

    def items(self):
        return _dict.items(self) if not self._n else [(k.k if type(k) is _Box else k, v) for k, v in _dict.items(self)]

    def copy(self):
        r = SymDict.__new__(type(self))
        _dict.update(r, self.__class__._raw_items(self))
        r._n = self._n
        for a, v in self.__dict__.items():
            r.__dict__[a] = v
        return r

    __copy__ = copy

    def _raw_items(self):
        return _dict.items(self)

    def __deepcopy__(self, memo):
        import copy
        r = SymDict.__new__(type(self))
        memo[id(self)] = r
        for a, v in self.__dict__.items():
            r.__dict__[a] = v
        for k, v in _dict.items(self):
            _dict.__setitem__(r, k if type(k) is _Box else copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        return r

    def __eq__(self, o):
        if not isinstance(o, _dict):
            return NotImplemented
        if not self._n and not getattr(o, '_n', 0):
            return _dict.__eq__(self, o)
        if len(self) != len(o):
            return False
        o = o if isinstance(o, SymDict) and type(o) is not _dict else SymDict(o)
        return all(k in o and bool(o[k] == v) for k, v in self.items())

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return repr(_dict(self.items()))

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r

    __hash__ = None


class SymDefaultDict(SymDict):
    def __init__(self, default_factory=None, *a, **k):
        self.default_factory = default_factory
        SymDict.__init__(self, *a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


class SymOrderedDict(SymDict):
    def move_to_end(self, key, last=True):
        it = self.items()
        v = self[key]
        it = [(k, x) for k, x in it if not _same(k, key)]
        it = it + [(key, v)] if last else [(key, v)] + it
        self.clear()
        for k, x in it:
            self[k] = x

    def popitem(self, last=True):
        if last:
            return SymDict.popitem(self)
        k = next(iter(self))
        return k, self.pop(k)


class SymCounter(SymDict):
    def __init__(self, it=None, **k):
        _dict.__init__(self)
        self.update(it, **k)

    def __missing__(self, key):
        return 0

    def update(self, it=None, **k):
        if it is not None:
            if hasattr(it, 'keys'):
                for x in it.keys():
                    self[x] = self[x] + it[x]
            else:
                for x in it:
                    self[x] = self[x] + 1
        for x, v in k.items():
            self[x] = self[x] + v

    def subtract(self, it=None, **k):
        if it is not None:
            if hasattr(it, 'keys'):
                for x in it.keys():
                    self[x] = self[x] - it[x]
            else:
                for x in it:
                    self[x] = self[x] - 1

    def elements(self):
        return [k for k, v in self.items() for _ in range(v)]

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda t: t[1], reverse=True)
        return r if n is None else r[:n]

    def total(self):
        return sum(self.values())


class _SMeta(type):
    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or isinstance(o, _set)

    def __subclasscheck__(cls, c):
        return type.__subclasscheck__(cls, c) or issubclass(c, _set)


class SymSet(_set, metaclass=_SMeta):
    _n = 0

    def __init__(self, it=()):
        _set.__init__(self)
        for x in it:
            self.add(x)

    def _raw_in(self, key):
        return _set.__contains__(self, key)

    def _raw_iter(self):
        return _set.__iter__(self)

    def add(self, x):
        if _find(self, x) is _MISS:
            if has_sym(x):
                x = _Box(x)
                self._n += 1
            _set.add(self, x)

    def __contains__(self, x):
        return _find(self, x) is not _MISS

    def discard(self, x):
        k = _find(self, x)
        if k is not _MISS:
            _set.discard(self, k)
            if type(k) is _Box:
                self._n -= 1

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        k = _set.pop(self)
        if type(k) is _Box:
            self._n -= 1
            k = k.k
        return k

    def clear(self):
        _set.clear(self)
        self._n = 0

    def __iter__(self):
        if not self._n:
            return _set.__iter__(self)
        return iter([k.k if type(k) is _Box else k for k in _set.__iter__(self)])

    def copy(self):
        r = SymSet()
        _set.update(r, _set.__iter__(self))
        r._n = self._n
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def intersection(self, *its):
        its = [SymSet(i) for i in its]
        return SymSet(x for x in self if all(x in i for i in its))

    def difference(self, *its):
        its = [SymSet(i) for i in its]
        return SymSet(x for x in self if not any(x in i for i in its))

    def symmetric_difference(self, it):
        o = SymSet(it)
        return self.difference(o).union(o.difference(self))

    def issubset(self, it):
        o = SymSet(it)
        return all(x in o for x in self)

    def issuperset(self, it):
        return all(x in self for x in it)

    def isdisjoint(self, it):
        return not any(x in self for x in it)

    __or__ = __ror__ = lambda self, o: self.union(o)
    __and__ = __rand__ = lambda self, o: self.intersection(o)
    __sub__ = lambda self, o: self.difference(o)
    __rsub__ = lambda self, o: SymSet(o).difference(self)
    __xor__ = __rxor__ = lambda self, o: self.symmetric_difference(o)
    __le__ = lambda self, o: self.issubset(o)
    __ge__ = lambda self, o: self.issuperset(o)
    __lt__ = lambda self, o: len(self) < len(o) and self.issubset(o)
    __gt__ = lambda self, o: len(self) > len(o) and self.issuperset(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        return isinstance(o, (_set, _frozenset)) and len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return '{%s}' % ', '.join(repr(x) for x in self)


class _Rewrite(ast.NodeTransformer):
    """dict and set displays and comprehensions build symbolic-aware containers"""

    def _wrap(self, name, node):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(name, ast.Load()), node), [node], []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):      # ** inside: names only
            return node
        if all(isinstance(k, ast.Constant) for k in node.keys) and node.keys:
            return self._wrap('__symdict__', node)
        prs = ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())
        for x in ast.walk(prs):
            if not hasattr(x, 'lineno') and isinstance(x, ast.expr):
                ast.copy_location(x, node)
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name('__symdict__', ast.Load()), node), [ast.copy_location(prs, node)], []), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.ListComp(ast.copy_location(ast.Tuple([node.key, node.value], ast.Load()), node), node.generators)
        return self._wrap('__symdict__', ast.copy_location(g, node))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._wrap('__symset__', ast.copy_location(ast.List(node.elts, ast.Load()), node))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._wrap('__symset__', ast.copy_location(ast.ListComp(node.elt, node.generators), node))


def compile_src(src, path):
    t = _Rewrite().visit(ast.parse(src, path))
    ast.fix_missing_locations(t)
    return compile(t, path, 'exec', dont_inherit=True)


class SymDeque(collections.deque):
    """a real deque whose maxlen may be a symbolic integer (the path then fixes it)"""

    def __init__(self, iterable=(), maxlen=None):
        if isinstance(maxlen, SInt) and not maxlen.np:
            maxlen = maxlen.__index__()
        super().__init__(iterable, maxlen)


def collections_mod():
    m = types.ModuleType('collections')
    m.__dict__.update({k: v for k, v in collections.__dict__.items() if not k.startswith('__') or k == '__all__'})
    m.defaultdict, m.OrderedDict, m.Counter = SymDefaultDict, SymOrderedDict, SymCounter
    m.deque = SymDeque
    return m
