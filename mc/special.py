# coding=utf-8
"""Values that are not plain: how to make them (always new) and how they must be rendered in ids."""
import collections
import datetime
import decimal
import enum
import fractions
import functools


class ML(list):
    pass


class MT(tuple):
    pass


class MS(set):
    pass


class MF(frozenset):
    pass


class MD(dict):
    pass


class MO(collections.OrderedDict):
    pass


class _Private(object):
    pass


class __Dunder__(object):
    pass


class Ends_(object):
    pass


class ml(list):
    pass


class FloatWhat(float):
    pass


class Outer(object):
    class K(object):
        pass

    class _K(object):
        pass

    class Inner(object):
        class K(object):
            pass


class Other(object):
    class K(object):
        pass


class MStr(str):
    def __str__(self):
        return 'not used'


class MInt(int):
    pass


class MFloat(float):
    pass


class Plain(object):
    """Nothing but an address in its str."""
    def __init__(self, a=1):
        self.a = a


class Texty(object):
    def __str__(self):
        return 'texty(1)'


class Reprty(object):
    def __repr__(self):
        return 'reprty[2]'


class Co(enum.Enum):
    red = 1
    blue = 'b'


NT = collections.namedtuple('NT', ['p', 'q'])


class WithWhat(object):
    """Duck whatable."""
    def __init__(self, a=1, name='WA', non=(), out=None):
        self.a, self.name, self.non, self.out = a, name, non, out

    def what(self):
        from whatami import What
        return What(self.name, {'a': self.a, 'v': 2}, non_id_keys=self.non, out_name=self.out)


class WithWhatList(list):
    """A whatable list: its own identity goes before that of lists."""
    def what(self):
        from whatami import What
        return What('WL', {'n': len(self)})


class WithWhatDict(dict):
    def what(self):
        from whatami import What
        return What('WD', {'n': len(self)})


class WithWhatStr(str):
    def what(self):
        from whatami import What
        return What('WS', {'s': str(self)})


class OldWhat(object):
    """Its what is something else."""
    def what(self):
        return 'whatever'


class BadWhat(object):
    def what(self):
        raise ValueError('no')


class ArgWhat(object):
    def what(self, needed):
        return needed


class AttrWhat(object):
    what = 3


def f(x, y=1, z='a'):
    return x, y, z


def g():
    return None


def h(x):
    return x


def nodefault(a, b=None, *args, **kwargs):
    return a


def g_dict(d={'b': 1, 'a': (1, 2)}):  # noqa
    return d


def g_fun(fun=f, cls=dict):
    return fun


class Methods(object):
    def m(self, a=3):
        return a

    @staticmethod
    def s(a=3):
        return a


class WithProps(object):
    @property
    def ro(self):
        return 1

    @property
    def rw(self):
        return 1

    @rw.setter
    def rw(self, v):
        pass

    wo = property(fset=lambda self, v: None)
    full = property(lambda self: 1, lambda self, v: None, lambda self: None, 'doc')


class SubProperty(property):
    pass


def named(name, sig="x=1"):
    ns = {}
    exec('def %s(%s):\n    return 1' % (name, sig), ns)
    return ns[name]


class Callable_(object):
    def __call__(self, a, b=2):
        return a


def gen():
    yield 1


def specials():
    """(label, factory, expected rendering)."""
    from whatami import whatable, What
    from toolz import curry
    P = functools.partial

    @whatable
    class WA(object):
        def __init__(self, a=1):
            self.a = a
            self._no = 2

    def dd(factory, *kvs):
        d = collections.defaultdict(factory)
        for k, v in kvs:
            d[k] = v
        return d

    def wd(**kwargs):
        d = MD(kwargs)
        return d

    out = [
        # Subclasses of containers
        ('list subclass', lambda: ML([1, 'a']), "ML(seq=[1,'a'])"),
        ('empty list subclass', lambda: ML(), 'ML(seq=[])'),
        ('tuple subclass', lambda: MT((1, 2)), 'MT(seq=(1,2))'),
        ('one-tuple subclass', lambda: MT((1,)), 'MT(seq=(1))'),
        ('empty tuple subclass', lambda: MT(), 'MT(seq=())'),
        ('set subclass', lambda: MS([2, 1]), 'MS(seq={1,2})'),
        ('empty set subclass', lambda: MS(), 'MS(seq=set())'),
        ('frozenset subclass', lambda: MF([2, 1]), 'MF(seq={1,2})'),
        ('empty frozenset subclass', lambda: MF(), 'MF(seq=set())'),
        ('dict subclass', lambda: MD(b=1, a=2), "MD(seq={'a':2,'b':1})"),
        ('empty dict subclass', lambda: MD(), 'MD(seq={})'),
        ('namedtuple', lambda: NT(1, 'a'), "NT(seq=(1,'a'))"),
        ('OrderedDict', lambda: collections.OrderedDict([('b', 1), ('a', [2])]), "OrderedDict(seq=[('b',1),('a',[2])])"),
        ('empty OrderedDict', lambda: collections.OrderedDict(), 'OrderedDict(seq=[])'),
        ('OrderedDict subclass', lambda: MO([('b', 1), ('a', 2)]), "MO(seq=[('b',1),('a',2)])"),
        ('defaultdict', lambda: dd(int, ('a', 1)), "defaultdict(default_factory=int(),seq={'a':1})"),
        ('defaultdict without factory', lambda: dd(None, ('a', 1)), "defaultdict(default_factory=None,seq={'a':1})"),
        ('nested subclasses', lambda: ML([MT((MS([1]), MD(a=ML())))]), "ML(seq=[MT(seq=(MS(seq={1}),MD(seq={'a':ML(seq=[])})))])"),
        # Strings and numbers
        ('str subclass', lambda: MStr("a'b"), "'a\\'b'"),
        ('int subclass', lambda: MInt(3), '3'),
        ('float subclass', lambda: MFloat(1.5), '1.5'),
        ('complex', lambda: 1 + 2j, '(1+2j)'),
        ('bytes', lambda: b'a', "b'a'"),
        ('Decimal', lambda: decimal.Decimal('1.50'), '1.50'),
        ('Fraction', lambda: fractions.Fraction(1, 2), '1/2'),
        ('date', lambda: datetime.date(2020, 1, 2), '2020-01-02'),
        ('Enum', lambda: Co.red, 'Co.red'),
        ('range', lambda: range(3), 'range(0, 3)'),
        ('Ellipsis', lambda: Ellipsis, 'Ellipsis'),
        ('deque', lambda: collections.deque([1]), 'deque([1])'),
        # Types
        ('int', lambda: int, 'int()'),
        ('float', lambda: float, 'float()'),
        ('complex type', lambda: complex, 'complex()'),
        ('bool type', lambda: bool, "<class 'bool'>"),
        ('str type', lambda: str, "<class 'str'>"),
        ('MInt type', lambda: MInt, "<class 'mc.special.MInt'>"),
        ('whatable class', lambda: WithWhat, "<class 'mc.special.WithWhat'>"),
        ('decorated class', lambda: WA, str(WA)),
        ('property type', lambda: property, "<class 'property'>"),
        ('partial type', lambda: P, "<class 'functools.partial'>"),
        # Objects
        ('object', lambda: object(), 'object()'),
        ('plain object', lambda: Plain(3), 'Plain()'),
        ('object with str', lambda: Texty(), 'texty(1)'),
        ('object with repr', lambda: Reprty(), 'reprty[2]'),
        ('callable object', lambda: Callable_(), 'Callable_()'),
        ('bound method', lambda: Methods().m, 'method()'),
        ('static method', lambda: Methods.s, 's(a=3)'),
        ('unbound method', lambda: Methods.m, 'm(a=3)'),
        ('generator', lambda: gen(), 'generator()'),
        # Whatables
        ('whatable', lambda: WA(2), 'WA(a=2)'),
        ('duck whatable', lambda: WithWhat(), 'WA(a=1,v=2)'),
        ('duck whatable out', lambda: WithWhat(out='o'), 'o=WA(a=1,v=2)'),
        ('duck whatable non id', lambda: WithWhat(non=('v',)), 'WA(a=1)'),
        ('nested duck whatable', lambda: WithWhat(WithWhat([WA(())])), 'WA(a=WA(a=[WA(a=())],v=2),v=2)'),
        ('whatable list', lambda: WithWhatList([1, 2]), 'WL(n=2)'),
        ('whatable dict', lambda: WithWhatDict(a=1), 'WD(n=1)'),
        ('whatable str', lambda: WithWhatStr('a'), "WS(s='a')"),
        ('foreign what', lambda: OldWhat(), 'OldWhat()'),
        ('failing what', lambda: BadWhat(), 'BadWhat()'),
        ('what with arguments', lambda: ArgWhat(), 'ArgWhat()'),
        ('what attribute', lambda: AttrWhat(), 'AttrWhat()'),
        ('What', lambda: What('w', {'b': 1, 'a': 2}, ['b'], 'o'), 'o=w(a=2)'),
        # Functions
        ('function', lambda: f, "f(y=1,z='a')"),
        ('function without parameters', lambda: g, 'g()'),
        ('function without defaults', lambda: h, 'h()'),
        ('variadic', lambda: nodefault, 'nodefault(b=None)'),
        ('function with collections', lambda: g_dict, "g_dict(d={'a':(1,2),'b':1})"),
        ('function with functions', lambda: g_fun, "g_fun(cls=<class 'dict'>,fun=f(y=1,z='a'))"),
        ('lambda', lambda: lambda x=1: x, 'lambda(x=1)'),
        ('lambda without parameters', lambda: lambda: None, 'lambda()'),
        ('partial keyword', lambda: P(f, y=2), "f(y=2,z='a')"),
        ('partial positional', lambda: P(f, 5), "f(x=5,y=1,z='a')"),
        ('partial all', lambda: P(f, 5, 6, z=7), 'f(x=5,y=6,z=7)'),
        ('partial of partial', lambda: P(P(f, 5), z=None), 'f(x=5,y=1,z=None)'),
        ('partial of partial override', lambda: P(P(f, y=5, z=1), z=None), 'f(y=5,z=None)'),
        ('partial lambda', lambda: P(lambda x, y=1: x, 'a'), "lambda(x='a',y=1)"),
        ('partial of nothing', lambda: P(h), 'h()'),
        ('partial with function', lambda: P(h, x=P(f, 1)), "h(x=f(x=1,y=1,z='a'))"),
        ('curry', lambda: curry(f, y=2), "f(y=2,z='a')"),
        ('curry positional', lambda: curry(f, 5), "f(x=5,y=1,z='a')"),
        ('curry of nothing', lambda: curry(h), 'h()'),
        ('whatable function', lambda: whatable(f), "f(y=1,z='a')"),
        ('whatable partial', lambda: whatable(P(f, y=3)), "f(y=3,z='a')"),
        ('whatable lambda', lambda: whatable(lambda q=(1, 2): q), 'lambda(q=(1,2))'),
    ]
    # names of functions and of their parameters
    for name in ('f_', '_f', '__f__', 'lambda_', 'F', 'fo_o', 'f1', 'what', 'set', 'None_', 'n' * 300, 'partial', '_'):
        out.append(('function ' + name[:9], lambda name=name: named(name), name + '(x=1)'))
        out.append(('partial of ' + name[:9], lambda name=name: P(named(name, 'y, x=1'), 2), name + '(x=1,y=2)'))
        out.append(('whatable ' + name[:9], lambda name=name: whatable(named(name)), name + '(x=1)'))
        out.append(('parameter ' + name[:9], lambda name=name: named('f', 'b=2, %s=1' % name), 'f(%s)' % ','.join(sorted(['b=2', name + '=1']))))
    params = ['p%03d' % i for i in range(120)]
    out.append(('many parameters', lambda: named('f', ', '.join(p + '=0' for p in reversed(params))), 'f(%s)' % ','.join(p + '=0' for p in params)))
    out.append(('keyword only', lambda: named('f', 'b=2, *, c, a=1, d=None'), 'f(a=1,b=2,d=None)'))
    out.append(('positional only', lambda: named('f', 'b=2, /, a=1'), 'f(a=1,b=2)') if False else ('mutable default', lambda: named('f', 'b={}, a=[]'), 'f(a=[],b={})'))
    return out


def refused():
    """(label, value) of values without an id."""
    return [('len', len), ('sorted', sorted), ('print', print), ('max', max), ('property', property(lambda self: 1)), ('read-write property', WithProps.rw), ('read-only property', WithProps.ro), ('write-only property', WithProps.wo),
            ('full property', WithProps.full), ('own property', SubProperty(lambda self: 1)),
            ('Plain property', Plain.__dict__.get('nope') or property()), ('abs', abs), ('isinstance', isinstance)]


def numpy_specials():
    import numpy as np
    return [
        ('float64', lambda: np.float64(1.5), '1.5'),
        ('int64', lambda: np.int64(3), '3'),
        ('bool_', lambda: np.bool_(True), 'True'),
        ('str_', lambda: np.str_("a'"), "'a\\''"),
        ('float64 type', lambda: np.float64, "<class 'numpy.float64'>"),
    ]
