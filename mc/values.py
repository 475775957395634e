# coding=utf-8
"""Descriptions of configurations, independent of whatami: how to build them, what their id must be, when they are equal.

A description is a nested tuple (hashable, printable, picklable):

  ('none',) ('bool', b) ('int', n) ('float', repr) ('str', s) ('cls', 'module.name') ('num', 'int')
  ('list', (d...)) ('tuple', (d...)) ('set', (d...)) ('fset', (d...)) ('dict', ((k, v)...))
  ('what', name, out or None, ((key, d)...), (non id keys...))
  ('wobj', <what description>)  an object whose what() gives that configuration
"""
from __future__ import print_function

import itertools
import re
import struct
from importlib import import_module

NONE = ('none',)


def S(s):
    return ('str', s)


def I(n):
    return ('int', n)


def F(x):
    return ('float', repr(float(x)))


def B(b):
    return ('bool', b)


def L(*ds):
    return ('list', ds)


def T(*ds):
    return ('tuple', ds)


def ST(*ds):
    return ('set', ds)


def FS(*ds):
    return ('fset', ds)


def D(*kvs):
    return ('dict', kvs)


def W(name, kvs=(), out=None, non=()):
    return ('what', name, out, tuple(kvs), tuple(non))


def C(fqn):
    return ('cls', fqn)


# --- Building real objects, always fresh

class Holder(object):
    """A plain object with a what() method."""

    def __init__(self, what):
        self._what = what

    def what(self):
        return self._what


def build(d):
    k = d[0]
    if k == 'none':
        return None
    if k in ('bool', 'int', 'str'):
        return d[1]
    if k == 'float':
        return float(d[1])
    if k == 'list':
        return [build(x) for x in d[1]]
    if k == 'tuple':
        return tuple([build(x) for x in d[1]])
    if k == 'set':
        return set([build(x) for x in d[1]])
    if k == 'fset':
        return frozenset([build(x) for x in d[1]])
    if k == 'dict':
        return dict([(build(a), build(b)) for a, b in d[1]])
    if k == 'what':
        from whatami import What
        return What(d[1], dict([(key, build(v)) for key, v in d[3]]), non_id_keys=list(d[4]), out_name=d[2])
    if k == 'wobj':
        return Holder(build(d[1]))
    if k == 'cls':
        parts = d[1].split('.')
        for i in range(len(parts) - 1, -1, -1):
            try:
                o = import_module('.'.join(parts[:i]) or 'builtins')
            except ImportError:
                continue
            for name in parts[i:]:
                o = getattr(o, name)
            return o
    if k == 'sub':  # an instance of one of our classes that extends a collection
        from mc import special
        return special.NT(*build(d[2])) if d[1] == 'NT' else getattr(special, d[1])(build(d[2]))
    if k == 'num':
        return {'int': int, 'float': float, 'complex': complex}[d[1]]
    raise ValueError(d)


# --- The reference serializer

def quote(s):
    """Single quotes; each quote that is not escaped gets a backslash. Backslashes escape what follows them."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            out.append(s[i:i + 2])
            i += 2
            continue
        out.append("\\'" if c == "'" else c)
        i += 1
    return "'" + ''.join(out) + "'"


def ref_float(r):
    return r


def ref(d, nonids_too=False):
    """The id string that the description must have."""
    k = d[0]
    if k == 'none':
        return 'None'
    if k == 'bool':
        return 'True' if d[1] else 'False'
    if k == 'int':
        return '%d' % d[1]
    if k == 'float':
        return d[1]
    if k == 'str':
        return quote(d[1])
    if k == 'cls':
        return "<class '%s'>" % d[1]
    if k == 'num':
        return d[1] + '()'
    if k == 'list':
        return '[' + ','.join([ref(x) for x in d[1]]) + ']'
    if k == 'tuple':
        return '(' + ','.join([ref(x) for x in d[1]]) + ')'
    if k == 'set':
        return '{' + ','.join(sorted([ref(x) for x in d[1]])) + '}' if d[1] else 'set()'
    if k == 'fset':
        return 'frozenset({' + ','.join(sorted([ref(x) for x in d[1]])) + '})' if d[1] else 'frozenset()'
    if k == 'dict':
        return '{' + ','.join(sorted([ref(a) + ':' + ref(b) for a, b in d[1]])) + '}'
    if k == 'what':
        non = () if nonids_too else d[4]
        kvs = ','.join([key + '=' + ref(v) for key, v in sorted(d[3], key=lambda kv: kv[0]) if key not in non])
        return ('' if d[2] is None else d[2] + '=') + d[1] + '(' + kvs + ')'
    if k == 'wobj':
        return ref(d[1])
    raise ValueError(d)


def ref_positional(d, nonids_too=False):
    non = () if nonids_too else d[4]
    kvs = ','.join([ref(v) for key, v in sorted(d[3], key=lambda kv: kv[0]) if key not in non])
    return ('' if d[2] is None else d[2] + '=') + d[1] + '(' + kvs + ')'


# --- Semantic identity

def canon_str(s):
    """Strings that differ just in escaped or not quotes are the same."""
    return quote(s)[1:-1]


def canon(d):
    """A hashable value: equal iff the configurations are the same (types count)."""
    k = d[0]
    if k in ('none', 'bool', 'int', 'cls', 'num'):
        return d
    if k == 'float':
        return d
    if k == 'str':
        return ('str', canon_str(d[1]))
    if k in ('list', 'tuple'):
        return (k, tuple([canon(x) for x in d[1]]))
    if k in ('set', 'fset'):
        return (k, frozenset([canon(x) for x in d[1]]))
    if k == 'dict':
        return (k, frozenset([(canon(a), canon(b)) for a, b in d[1]]))
    if k == 'what':
        if d[1] in ('set', 'frozenset') and d[2] is None and not [1 for key, _ in d[3] if key not in d[4]]:
            return ('set' if d[1] == 'set' else 'fset', frozenset())
        return (k, d[1], d[2], frozenset([(key, canon(v)) for key, v in d[3] if key not in d[4]]))
    if k == 'wobj':
        return canon(d[1])
    raise ValueError(d)


def canon_obj(o):
    """canon of a real object (as returned by the parser)."""
    t = type(o)
    if o is None:
        return NONE
    if t is bool:
        return ('bool', o)
    if t is int:
        return ('int', o)
    if t is float:
        return ('float', repr(o))
    if t is str:
        return ('str', canon_str(o))
    if t is list:
        return ('list', tuple([canon_obj(x) for x in o]))
    if t is tuple:
        return ('tuple', tuple([canon_obj(x) for x in o]))
    if t is set:
        return ('set', frozenset([canon_obj(x) for x in o]))
    if t is frozenset:
        return ('fset', frozenset([canon_obj(x) for x in o]))
    if t is dict:
        return ('dict', frozenset([(canon_obj(a), canon_obj(b)) for a, b in o.items()]))
    if isinstance(o, type):
        m = o.__module__
        return ('cls', o.__qualname__ if m == 'builtins' else m + '.' + o.__qualname__)
    from whatami import What
    if isinstance(o, What):
        return ('what', o.name, o.out_name, frozenset([(k, canon_obj(v)) for k, v in o.conf.items()
                                                       if k not in o.non_id_keys]))
    if isinstance(o, Holder):
        return canon_obj(o._what)
    return ('unknown', t.__name__, repr(o))


def raw_obj(o):
    """Like canon_obj, but exact: order of dictionaries and sets, string contents, non ids, what objects."""
    t = type(o)
    if o is None or t in (bool, int, str):
        return (t.__name__, o)
    if t is float:
        return ('float', repr(o))
    if t in (list, tuple, set, frozenset):
        return (t.__name__, tuple([raw_obj(x) for x in o]))
    if t is dict:
        return ('dict', tuple([(raw_obj(a), raw_obj(b)) for a, b in o.items()]))
    from whatami import What
    if isinstance(o, What):
        return ('what', o.name, o.out_name, raw_obj(o.conf), tuple(sorted(map(repr, o.non_id_keys))))
    if isinstance(o, Holder):
        return ('holder', raw_obj(o._what))
    return ('other', t.__name__, repr(o))


def fixpoint_canon(d):
    """canon of what parsing the id of d must give: whatables become configurations, numeric types become int()..."""
    return canon(d)


def hashable(d):
    k = d[0]
    if k in ('list', 'set', 'dict'):
        return False
    if k in ('tuple', 'fset'):
        return all(hashable(x) for x in d[1])
    return k != 'wobj'


# --- Permutations of insertion orders

def orders(n, full=4):
    """All orders of n elements up to `full`, then rotations and reversals."""
    if n <= full:
        return list(itertools.permutations(range(n)))
    out = []
    base = list(range(n))
    for i in range(n) if n <= 40 else (0, 1, 8, n // 2, n - 1):
        out.append(tuple(base[i:] + base[:i]))
    out += [tuple(reversed(o)) for o in out]
    return out


def permuted(d, limit=None):
    """All descriptions that differ from d only in the insertion order, at any level."""
    k = d[0]
    if k in ('list', 'tuple'):
        for xs in itertools.product(*[list(permuted(x)) for x in d[1]]):
            yield (k, tuple(xs))
    elif k in ('set', 'fset'):
        for xs in itertools.product(*[list(permuted(x)) for x in d[1]]):
            for o in orders(len(xs)):
                yield (k, tuple([xs[i] for i in o]))
    elif k == 'dict':
        for kvs in itertools.product(*[list(itertools.product(permuted(a), permuted(b))) for a, b in d[1]]):
            for o in orders(len(kvs)):
                yield (k, tuple([kvs[i] for i in o]))
    elif k == 'what':
        for vs in itertools.product(*[list(permuted(v)) for _, v in d[3]]):
            for o in orders(len(vs)):
                for no in orders(len(d[4])):
                    yield (k, d[1], d[2], tuple([(d[3][i][0], vs[i]) for i in o]), tuple([d[4][i] for i in no]))
    elif k == 'wobj':
        for x in permuted(d[1]):
            yield (k, x)
    else:
        yield d


# --- The universe

STRINGS = ['', 'a', 'b', ' ', '  ', ' a', 'a ', '  a b  ', "'", "\\'", "\\\\", "\\\\'", "\\\\\\'", "a'b", "a\\'b", "''", "'a'",
           "a,b", 'x=1', '(', ')', '()', '[', ']', '{', '}', ':', 'None', 'True', 'False', '1', '1.0', 'nan', '-inf',
           u'\xe9', u'e\u0301', u'\u65e5\u672c', u'\U0001f600', '"', '\n', '\t', '\na', '\r', 'a\nb', '#', 'f()', 'set()', "<class 'str'>",
           '\\n', '\\\\n', '\\"', '%s', '{0}', u'\xa0a', 'a' * 300, "x" * 254 + "'y", "',y='", "a',b='c", "*-*NoNeNoDe*-*", 'at 0x1f',
           '\\\\\\\\', "a\\\\", "\\ ", "\\)", '>', '_', 'A', 'aa', "\\\n", ' at 0x',
           '\r\n', 'a\r\nb', 'a\rb', 'a\tb', 'a b', 'a  b', 'ab', 'a\x0bb', u'a\u2028b', u'a\u200bb', u'\ufeffab', 'a\x00b', 'a\x7fb', u'a\xadb', u'\uff41', u'\xaa', u'\u2019', '`', 'a;b', 'x' * 5000]
INTS = [0, 1, -1, 2, 9, 10, 11, 100, 2 ** 31, -2 ** 63, 2 ** 64, 10 ** 25, -10 ** 25]
FLOATS = [0.0, -0.0, 1.0, -1.0, 1.5, -1.5, 0.1, 1e22, 1e-7, 1.5e300, 5e-324, float('inf'), float('-inf'), float('nan'), 2.0 ** 64,
          123456789.123, 0.1 + 0.2, 1e16, 10.0, 100.0, 1e25]
CLASSES = ['str', 'dict', 'collections.OrderedDict', 'datetime.datetime', 'bool', 'list', 'ValueError', 'fractions.Fraction',
           'mc.special.ML', 'mc.special._Private', 'mc.special.__Dunder__', 'mc.special.Ends_', 'mc.special.ml', 'mc.special.FloatWhat', 'collections.abc.Mapping']
# Classes that are not found in their modules
NESTED = ['mc.special.Outer.K', 'mc.special.Other.K', 'mc.special.Outer.Inner.K', 'mc.special.Outer._K']
NAMES = ['C', 'c', 'C1', '_c', 'CC', 'None_', 'Nonesuch', 'Truex', 'True1', 'False_', 'infer', 'inf1', 'nanmean', 'nan_', 'set_', 'sets', 'frozensets',
         'classy', 'class', 'lambda', 'e1', 'E', 'None', 'True', 'False', 'inf', 'nan']
KEYS = ['a', 'b', 'B', '_a', 'a_', 'aa', 'a1', 'x10', 'x2', 'x', 'x_', '_x', 'X', '__class__', '__dict__', 'self', 'cls', 'copy', 'non_id_keys', 'None_', 'inf', 'True', 'nan', 'out', 'name', 'set', 'conf', 'None', 'seq']


def leaves():
    out = [NONE, B(True), B(False)]
    out += [I(n) for n in INTS]
    out += [F(x) for x in FLOATS]
    out += [S(s) for s in STRINGS]
    out += [C(c) for c in CLASSES]
    out += [W(n) for n in NAMES] + [W('f', out='o'), W('f', out='None_'), W('o', out='f'), W('f', [('a', I(1))]),
                                    W('f', [('a', I(1))], out='o')]
    return out


# A small set of values that collide as much as possible (equal and hash-equal in python, prefixes of each other...)
SMALL = [NONE, B(True), I(1), F(1.0), F(-0.0), S('1'), S('a'), S(''), S("'"), S(' a'), T(), L(), D(), ST(), FS(), W('f'), S('None'), C('str')]
TINY = [NONE, I(1), S('a'), W('f'), T(), L(), FS()]


def containers(elems, sizes=(0, 1, 2), kinds=('list', 'tuple', 'set', 'fset', 'dict', 'what', 'wout'), dict_values=None):
    """All containers of the given sizes with those elements."""
    hs = [e for e in elems if hashable(e)]
    dict_values = elems if dict_values is None else dict_values
    for n in sizes:
        for k in ('list', 'tuple'):
            if k in kinds:
                for xs in itertools.product(elems, repeat=n):
                    yield (k, xs)
        for k in ('set', 'fset'):
            if k in kinds:
                for xs in itertools.combinations(hs, n):
                    if distinct(xs):
                        yield (k, xs)
        if 'dict' in kinds:
            for ks in itertools.combinations(hs, n):
                if distinct(ks):
                    for vs in itertools.product(dict_values, repeat=n):
                        yield ('dict', tuple(zip(ks, vs)))
        if 'what' in kinds:
            for vs in itertools.product(elems, repeat=n):
                yield W('f', zip(('a', 'b', 'c')[:n], vs))
        if 'wout' in kinds:
            for vs in itertools.product(elems, repeat=n):
                yield W('f', zip(('a', 'b', 'c')[:n], vs), out='o')


def pyeq(d):
    """A key such that python considers equal (as dict keys or set members) exactly values with the same key."""
    k = d[0]
    if k in ('bool', 'int'):
        return ('n', int(d[1]))
    if k == 'float':
        x = float(d[1])
        if x == x and x not in (float('inf'), float('-inf')) and x == int(x):
            return ('n', int(x))
        return d
    if k in ('tuple', 'fset'):
        xs = [pyeq(x) for x in d[1]]
        return (k, frozenset(xs) if k == 'fset' else tuple(xs))
    return d


def distinct(ds):
    keys = [pyeq(x) for x in ds]
    return len(set(keys)) == len(keys)


def chains(depth, leafs=(I(1), S(' a'), W('nanf'))):
    """All nestings of constructors up to depth around each leaf."""
    def wrap(d):
        yield L(d)
        yield T(d)
        yield T(NONE, d)
        yield D((S('k'), d))
        yield W('g', [('x', d)])
        yield W('g', [('x', d), ('y', I(2))], out='o')
        if hashable(d):
            yield ST(d)
            yield FS(d)
            yield D((d, NONE))
    level = list(leafs)
    for _ in range(depth):
        level = [w for d in level for w in wrap(d)]
        for d in level:
            yield d


def long_values():
    n = 12
    ints = [I(i) for i in range(n)]
    strs = [S('k%d' % i) for i in range(n)]
    yield L(*ints)
    yield T(*ints)
    yield L(*ints[:-1])
    yield L(*reversed(ints))
    yield T(*reversed(ints))
    yield ST(*ints)
    yield FS(*strs)
    yield D(*zip(strs, ints))
    yield D(*zip(ints, strs))
    yield D(*zip(strs, reversed(ints)))
    yield L(*[L(x) for x in ints])
    yield L(*([I(1)] * 40))
    yield L(*([I(1)] * 41))
    yield L(*[W('f', [('x', x)]) for x in ints])
    yield W('f', [('p%d' % i, x) for i, x in enumerate(ints)])
    yield W('f', [('p%d' % i, x) for i, x in enumerate(strs)])
    yield L(*[S('z' * 60)] * 6)
    yield L(*[S('z' * 60)] * 7)
    yield T(*[I(i) for i in range(1000, 1100)])
    yield T(*[I(i) for i in range(1000, 1101)])
    # mixed keys
    yield D((NONE, I(1)), (S('a'), I(2)), (I(3), I(4)), (T(I(1)), L()))
    yield ST(NONE, S('a'), I(3), T(I(1)))
    yield ST(FS(I(1)), FS(I(2)))
    yield FS(FS(), FS(FS()))
    yield D((FS(I(1)), I(1)), (T(NONE), I(2)))
    for k in ('__class__', '__dict__', 'class', 'seq', 'what', 'name', 'self', ''):
        yield D((S(k), S('x')), (S('y'), I(1)))
        yield D((S(k), D((S(k), NONE))))
        yield L(D((S(k), I(1))), D((S(k), I(2))))


def large(sizes=(17, 33, 70, 130, 260)):
    """Values over any reasonable threshold, with the members that matter at the end."""
    for n in sizes:
        ints, strs = [I(i) for i in range(n)], [S('k%d' % i) for i in range(n)]
        names = ['p%03d' % i for i in range(n)]
        prefix = 'q' * n
        yield L(*ints)
        yield T(*strs)
        yield ST(*ints)
        yield FS(*[T(x) for x in strs])
        yield D(*zip(strs, ints))
        yield D(*zip(ints, [W('f', [('a', x)]) for x in ints]))
        yield W('f', list(zip(names, ints)))
        yield W('f', list(zip(names, strs)), out='o')
        yield L(*[L(T(x)) for x in ints])
        yield L(*[W('f', [('a', x)], out='o') for x in ints])
        yield S('z' * n)
        yield S("z" * n + "'")
        yield S(' ' * n)
        yield S("'" * n)
        yield I(10 ** n + 1)
        yield W('w' * n, [('k' * n, I(1))], out='o' * n)
        yield W('f', [(prefix + c, S(c)) for c in 'abc'])
        yield D(*[(S(prefix + c), S(c)) for c in 'abc'])
        yield ST(*[S(prefix + c) for c in 'abc'])
    for n in (10, 20):
        for leaf in (I(1), S("it's"), W('f', [('a', NONE)], out='o'), ST(FS(), T())):
            d = e = f = g = leaf
            for i in range(n):
                d, e, f, g = L(d), W('f', [('a', e)]), T(NONE, f), D((I(i), g))
            yield d
            yield e
            yield f
            yield g


def values(big=False):
    """The universe of values (descriptions), without repetitions."""
    seen = set()

    def gen():
        for d in leaves():
            yield d
        # every leaf in every kind of container, alone, first and second
        for d in leaves():
            for c in (L(d), T(d), L(d, I(7)), T(I(7), d), D((S('k'), d)), W('g', [('x', d)])):
                yield c
            if hashable(d):
                for c in (ST(d), FS(d), D((d, I(7)))):
                    yield c
                if distinct([d, I(7)]):
                    yield ST(d, I(7))
        for d in containers(SMALL if big else SMALL, kinds=('list', 'tuple', 'set', 'fset', 'what', 'wout')):
            yield d
        for d in containers(SMALL, kinds=('dict',), dict_values=SMALL if big else [NONE, I(1), S('a'), T(), D()]):
            yield d
        # two levels
        inner = list(containers(TINY[:5] if not big else TINY, sizes=(0, 1)))
        for d in containers(inner, sizes=(1,)):
            yield d
        few = [L(I(1)), T(I(1)), T(I(1), I(1)), ST(I(1)), FS(I(1)), D((I(1), I(1))), W('f', [('a', I(1))]), I(1), L(), T(), S('(1)'), S('[1]')]
        for d in containers(few, sizes=(2,), kinds=('list', 'tuple', 'set', 'dict', 'what')):
            yield d
        if big:
            for d in containers(TINY, sizes=(3,), kinds=('list', 'tuple', 'set', 'what', 'wout')):
                yield d
        for d in chains(4 if big else 3):
            yield d
        for d in long_values():
            yield d
        for d in large((17, 70, 260) if not big else (9, 17, 33, 65, 70, 130, 257, 260)):
            yield d
    for d in gen():
        if d not in seen:
            seen.add(d)
            yield d


def ulps(x, n):
    """The float n representable numbers away from x (x positive)."""
    return struct.unpack('<d', struct.pack('<q', struct.unpack('<q', struct.pack('<d', x))[0] + n))[0]


def numbers():
    """Numbers that are easily confused: neighbours, around powers of two and ten, many digits."""
    ints = set()
    for k in range(0, 71):
        for n in (-1, 0, 1):
            ints.update([2 ** k + n, -(2 ** k + n)])
    for k in range(0, 27):
        for n in (-1, 0, 1):
            ints.update([10 ** k + n, -(10 ** k + n)])
    floats = []
    bases = [10.0 ** e for e in range(-21, 26)] + [k / 10.0 for k in range(1, 10)] + [1 / 3.0, 2 / 3.0, 3.141592653589793, 2.0 ** 31, 2.0 ** 53, 2.0 ** 63]
    for b in bases + [1e-300, 1e300, 123456.789, 99999.99999, 1234567890123456.7]:
        for n in (-2, -1, 0, 1, 2):
            floats.append(ulps(b, n))
    floats += [5e-324, 1e-323, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1 + 0.2, 1.1 * 3]
    out = [I(n) for n in sorted(ints)]
    for x in floats:
        out += [F(x), F(-x)]
    return list(dict.fromkeys(out))


# Keys that some order, comparison or rendering could take for the same one
ALIKE = [S('k'), S('K'), S(' k'), S('k '), S('kk'), S('kK'), S('k1'), S('k10'), S('k2'), I(1), S('1'), F(1.5), S('1.5'), I(10), I(9), S('10'), S('9'), I(-2), I(2), F(-0.5),
         NONE, S('None'), B(True), S('True'), S("'"), S("\\'"), S('"'), S(u'\xe9'), S(u'e\u0301'), S(u'\xdf'), S('ss'), S(u'\u0131'), S('i'), S('I'),
         T(), S('()'), T(I(1)), S('(1)'), FS(), FS(I(1)), S(''), S('0'), I(0), F(1e16), I(10 ** 16), S('_'), S('a_'), S('_a')]
ALIKE_NAMES = ['n', 'N', 'nn', 'nN', 'Nn', '_n', 'n_', '_N', 'n1', 'n01', 'n10', 'n2', 'a', 'B', 'b', 'A', '_', '__', 'z', 'Z1']


def alike(names=True):
    """Collections and configurations with two members that are nearly the same."""
    for a, b in itertools.combinations(ALIKE, 2):
        if not distinct([a, b]):
            continue
        yield D((a, I(1)), (b, I(1)))
        yield D((a, I(2)), (b, I(1)))
        yield D((a, I(1)), (b, I(2)))
        yield ST(a, b)
        yield FS(T(a, I(1)), T(b, I(1)))
        yield L(a, b)
        yield D((T(I(1), a), NONE), (T(I(1), b), NONE))
    if names:
        for a, b in itertools.combinations(ALIKE_NAMES, 2):
            for v1, v2 in ((1, 1), (1, 2), (2, 1)):
                yield W('f', [(a, I(v1)), (b, I(v2))])
            yield W('f', [(a, I(1)), ('m', W('f', [(a, I(1)), (b, I(1))])), (b, I(1))])


def tops(big=False):
    """Top level configurations: names, outputs, keys, several parameters."""
    seen = set()

    def gen():
        for n in NAMES:
            for o in (None, 'o', 'out', 'nan_', 'C'):
                yield W(n, out=o)
                yield W(n, [('a', I(1))], out=o)
                yield W(n, [('a', W(n, out=o))], out=o)
        for o in NAMES:
            yield W('C', out=o)
            yield W('C', [('a', I(1))], out=o)
        for k in KEYS:
            for v in SMALL:
                yield W('C', [(k, v)])
        for k1, k2 in itertools.combinations(KEYS, 2):
            for v1, v2 in itertools.product([I(1), I(2), S('b=1')], repeat=2):
                yield W('C', [(k1, v1), (k2, v2)])
        # values that could leak into the next parameter
        tricky = [S(s) for s in ("", ",b=1", "1,b='", "',b='", "\\',b=1", "\\\\", ")", "),C(", "a)", " ", "=")] + [I(1), T(), T(I(1), S('b')), W('b', [('b', I(1))])]
        for v1, v2 in itertools.product(tricky, repeat=2):
            yield W('C', [('a', v1), ('b', v2)])
            yield W('C', [('a', T(v1, v2))])
            yield W('C', [('a', L(v1, v2))])
            yield W('C', [('a', W('C', [('a', v1), ('b', v2)]))])
            yield W('C', [('a', W('C', [('a', v1)])), ('b', v2)])
        for r in (3, 4):
            for ks in itertools.combinations(KEYS[:8], r):
                yield W('C', [(k, I(i)) for i, k in enumerate(ks)])
                yield W('C', [(k, I(i)) for i, k in enumerate(reversed(ks))])
        yield W('C', [('p%d' % i, I(i)) for i in range(30)])
        yield W('C', [('p%d' % i, S('v%d' % i)) for i in range(30)])
        for n in (17, 33, 70, 260):
            yield W('C', [('p%d' % i, I(i)) for i in range(n)])
            yield W('C', [('q' * n + c, I(i)) for i, c in enumerate('cab')], out='o' * n)
            yield W('C' * n, [('a', I(1))], out='o' * n)
    for d in gen():
        if d not in seen:
            seen.add(d)
            yield d


def universe(big=False):
    """Top level configurations, including all values as a parameter."""
    seen = set()
    for d in tops(big):
        seen.add(d)
        yield d
    for v in values(big):
        d = W('C', [('x', v)])
        if d not in seen:
            seen.add(d)
            yield d


def unpaired_backslash_end(s):
    m = re.search(r'\\+$', s)
    return bool(m) and len(m.group()) % 2 == 1


def strings_of(d):
    k = d[0]
    if k == 'str':
        yield d[1]
    elif k in ('list', 'tuple', 'set', 'fset'):
        for x in d[1]:
            for s in strings_of(x):
                yield s
    elif k == 'dict':
        for a, b in d[1]:
            for s in strings_of(a):
                yield s
            for s in strings_of(b):
                yield s
    elif k == 'what':
        for _, v in d[3]:
            for s in strings_of(v):
                yield s
    elif k == 'wobj':
        for s in strings_of(d[1]):
            yield s


def collapses(d):
    """Are there sets or dictionaries with members that have the same id (as strings that differ just in an escaped quote)?"""
    k = d[0]
    if k in ('list', 'tuple'):
        return any(map(collapses, d[1]))
    if k in ('set', 'fset'):
        return len(set(map(canon, d[1]))) < len(d[1]) or any(map(collapses, d[1]))
    if k == 'dict':
        return len(set(canon(a) for a, _ in d[1])) < len(d[1]) or any(collapses(a) or collapses(b) for a, b in d[1])
    if k == 'what':
        return any(collapses(v) for _, v in d[3])
    if k == 'wobj':
        return collapses(d[1])
    return False
