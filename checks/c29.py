# coding=utf-8
"""C29: metaclass decoration applies to every definition, once, in order."""
import itertools
from collections import OrderedDict

from mc.core import main, outcome


class Tag(object):
    """A decorated member: by whom, what."""
    def __init__(self, by, inner):
        self.by, self.inner = by, inner

    def __get__(self, obj, cls):
        f = self.inner.__get__(obj, cls) if hasattr(self.inner, '__get__') else self.inner
        return lambda *a, **k: [self.by] + f(*a, **k)


def unwrap(member):
    """(decorators from the outermost to the innermost, what is decorated)."""
    out = []
    while isinstance(member, Tag):
        out.append(member.by)
        member = member.inner
    return out, member


class Decorator(object):
    def __init__(self, name, log):
        self.name, self.log = name, log

    def __call__(self, f):
        self.log.append((self.name, f))
        return Tag(self.name, f)


# --- Decorations: {member: form of the decorators}

FORMS = OrderedDict([
    ('single', ('a',)), ('none', ()), ('list1', ('a',)), ('list2', ('a', 'b')), ('tuple3', ('b', 'a', 'c')), ('same twice', ('a', 'a')), ('around', ('a', 'b', 'a')), ('function', ('f',)), ('set', ('c',)), ('dict', ('b', 'a')), ('list6', ('a', 'b', 'c', 'd', 'e', 'g')),
])


def build_form(form, log):
    ds = [Decorator(n, log) for n in FORMS[form]]
    if form in ('single', 'function'):
        if form == 'function':
            def f(x):
                return ds[0](x)
            return f
        return ds[0]
    if form == 'none':
        return []
    if form == 'same twice':
        return (ds[0], ds[0])
    if form == 'around':
        return [ds[0], ds[1], ds[0]]
    if form == 'tuple3':
        return tuple(ds)
    if form == 'set':
        return frozenset(ds)
    if form == 'dict':
        return OrderedDict((d, None) for d in ds)
    return ds


MEMBERS = 'foo', 'bar', 'other'


def function(tag):
    def f(self=None, *args, **kwargs):
        return [tag] + list(args)
    return f


VALUES = {
    'function': function, 'none': lambda tag: None, 'value': lambda tag: (tag,), 'static': lambda tag: staticmethod(function(tag)), 'property': lambda tag: property(function(tag)), 'callable class': lambda tag: type(tag, (), {}),
}


def create(way, meta, name, bases, members):
    """Several ways of creating a class with a metaclass."""
    from future.utils import with_metaclass
    if way == 'call' or bases and way != 'statement':
        return (type(bases[0]) if bases else meta)(name, bases or (object,), members)
    if way == 'with_metaclass':
        env = {'meta': meta, 'with_metaclass': with_metaclass, 'members': members}
        exec('class %s(with_metaclass(meta)):\n    locals().update(members)\n' % name, env)
        return env[name]
    env = {'meta': meta, 'members': members, 'bases': bases}
    src = 'class %s(%s):\n    """A class."""\n' % (name, ', '.join(['bases[%d]' % n for n in range(len(bases))] or ['metaclass=meta']))
    src += ''.join('    %s = members[%r]\n' % (m, m) for m in members)
    exec(src, env)
    return env[name]


# shapes of hierarchies: bases of each class
SHAPES = {'alone': [()], 'chain': [(), (0,)], 'long chain': [(), (0,), (1,)], 'siblings': [(), (0,), (0,)], 'diamond': [(), (0,), (0,), (1, 2)], 'two roots': [(), (), (0, 1)], 'unrelated': [(), ()]}


def items(thorough):
    subsets = [tuple(m for m, k in zip(MEMBERS, ks) if k) for ks in itertools.product((0, 1), repeat=3)]
    decorations = [{}] + [{'foo': f} for f in FORMS] + [{'foo': f, 'bar': g} for f in FORMS for g in FORMS] + [{'foo': 'list2', 'absent': 'single'}, {'__init__': 'single', 'foo': 'list2'}, {'mro_': 'single'}]
    for shape, bases in SHAPES.items():
        n = len(bases)
        for kn, kinds in enumerate(itertools.product(subsets, repeat=n)):
            if n == 4 and not thorough and kn % 16 != 1:
                continue
            if n == 3 and not thorough and kn % 4:
                continue
            for dn, deco in enumerate(decorations):
                if n > 1 and (kn + dn) % (29 if n > 2 else 7) and not (thorough and n == 2):
                    continue
                yield shape, kinds, deco


def check_hierarchy(check, item):
    from whatami import decorate_some
    shape, kinds, deco = item
    for way in ('statement', 'call', 'with_metaclass'):
        for vn, value in enumerate(VALUES):
            if value != 'function' and (way == 'with_metaclass' or len(kinds) > 2):
                continue
            log = []
            given = {m: build_form(f, log) for m, f in deco.items()}
            meta = decorate_some('Meta', **given) if vn % 2 else decorate_some(name='Meta', **given)
            check.expect(isinstance(meta, type) and issubclass(meta, type) and meta.__name__ == 'Meta', 'what decorate_some gives is not a metaclass with the name')
            check.expect(log == [], 'something is decorated before there are classes')
            classes, origs = [], []
            for n, (bases, defined) in enumerate(zip(SHAPES[shape], kinds)):
                members = {m: (VALUES[value](m + str(n)) if m != 'foo' or n or value == 'function' else VALUES[value]('root')) for m in defined}
                if '__init__' in deco and n == 0:
                    def __init__(self):
                        self.made = True
                    if value == 'function':
                        members['__init__'] = __init__
                orig = dict(members)
                cls = create(way, meta, 'C%d' % n, tuple(classes[b] for b in bases), members)
                replay = dict(shape=shape, kinds=[list(k) for k in kinds], decorations=deco, way=way, value=value, cls=n)
                check.count()
                check.expect(members == orig, 'the dictionary of the class is modified', **replay)
                check.expect(type(cls) is meta and cls.__name__ == 'C%d' % n, 'the class is not made by the metaclass', **replay)
                expected_log = []
                for m in orig:
                    ds = list(FORMS[deco[m]]) if m in deco else []
                    got, inner = unwrap(cls.__dict__[m]) if m in cls.__dict__ else (None, None)
                    check.expect(got == ds[::-1], 'the definition is not decorated by each of its decorators once and in order', member=m, got=got, expected=ds[::-1], **replay)
                    check.expect(inner is orig[m], 'the definition is replaced', member=m, **replay)
                    expected_log.append((m, ds))
                calls = [d for d, _ in log]
                check.expect(sorted(calls) == sorted(d for _, ds in expected_log for d in ds), 'decorators are not called once per definition', calls=calls, **replay)
                if not any(m for m in orig if m in deco):
                    check.expect(log == [], 'inherited members are decorated again', calls=calls, **replay)
                del log[:]
                for m in MEMBERS + ('absent', 'mro_'):
                    check.expect((m in cls.__dict__) == (m in orig), 'members that are not defined are there', member=m, **replay)
                classes.append(cls)
                origs.append(orig)
            if value == 'function':   # calls go through everything
                for n, cls in enumerate(classes):
                    for m in MEMBERS:
                        where = next((k for k in cls.__mro__ if m in k.__dict__), None)
                        if where is None:
                            continue
                        w = classes.index(where)
                        ds = list(FORMS[deco[m]])[::-1] if m in deco else []
                        o = cls.__new__(cls)
                        check.count()
                        check.expect(getattr(o, m)(5) == ds + [m + str(w), 5], 'calls do not go through the decorators', member=m, got=repr(outcome(getattr(o, m), 5)), **replay)
            check.seen(repr((item, way, value)))


def check_independent(check, _):
    """Metaclasses, classes and dictionaries that are used several times are independent."""
    from whatami import decorate_some
    log = []
    a, b = Decorator('a', log), Decorator('b', log)
    shared = [a]
    for times in range(1, 4):
        one, two = decorate_some('One', foo=shared), decorate_some('Two', foo=[b, a], bar=shared)
        members = {'foo': function('foo'), 'bar': function('bar')}
        for n in range(times):
            for meta, foo, bar in ((one, ['a'], []), (two, ['a', 'b'], ['a'])):
                cls = meta('X', (object,), members)
                check.count()
                check.expect(unwrap(cls.__dict__['foo'])[0] == foo and unwrap(cls.__dict__['bar'])[0] == bar, 'using a dictionary or metaclass again changes the decoration', times=times,
                             got=repr((unwrap(cls.__dict__['foo'])[0], unwrap(cls.__dict__['bar'])[0])))
                check.expect(shared == [a] and not isinstance(members['foo'], Tag), 'the arguments are modified')
    check.expect(decorate_some().__name__ == 'DecorateSome', 'the default name is not that documented')


# --- Positional requirements

PARAMS = 'ids', 'x', 'y', 'self'


def check_required(check, _):
    from whatami import ensure_has_positional_args
    sources = []
    for n in range(4 if not check.thorough else 5):
        for pos in itertools.permutations(PARAMS, n):
            for nd in range(n + 1):
                for tail in ('', '*args', '**kwargs', '*args, **kwargs', '*, ko', '*args, ko=1'):
                    if tail.endswith(('ko', 'ko=1')):
                        left = [p for p in PARAMS if p not in pos]
                        if not left:
                            continue
                        tail = tail.replace('ko', left[0])
                    sources.append((pos, nd, tail))
    for pos, nd, tail in sources:
        args = [p if i < len(pos) - nd else p + '=None' for i, p in enumerate(pos)]
        src = 'def func(%s): pass' % ', '.join(args + ([tail] if tail else []))
        env = {}
        exec(src, env)
        required = set(pos[:len(pos) - nd])
        for k in range(5 if check.thorough or len(pos) < 2 else 3):
            for wanted in itertools.permutations(PARAMS[:3] + ('absent',), k):
                for make in (tuple, list, set):
                    check.count()
                    missing = sorted(set(wanted) - required)
                    try:
                        got = ensure_has_positional_args(env['func'], args=make(wanted))
                    except Exception as e:
                        check.expect(missing and type(e) is Exception and all(repr(m) in str(e) for m in missing) and "'func'" in str(e), 'a function with the positional arguments is refused', source=src, wanted=list(wanted), error=repr(e))
                    else:
                        check.expect(not missing and got is env['func'], 'a function without the positional arguments is accepted', source=src, wanted=list(wanted))
        check.seen(src)


# --- Recorders

def recorder_classes(thorough):
    """(parameters of add before or after ids, is ids positional)."""
    for pre in ((), ('where',), ('a', 'b')):
        for ids in ('ids', 'ids=None', 'names', None, 'ids, *', '*, ids'):
            for post in ((), ('continent',), ('continent', 'size=3')):
                for tail in ('', '**columns'):
                    yield pre, ids, post, tail


def check_recorders(check, item):
    from whatami.registry import Recorder
    pre, ids, post, tail = item
    parts = ['self'] + list(pre)
    valid = True
    if ids is None:
        valid = False
    elif ids == 'ids':
        parts.append('ids')
    elif ids == 'ids, *':
        if not post:
            return
        parts += ['ids', '*']
    elif ids == '*, ids':
        parts += ['*', 'ids']
        valid = False
    else:
        parts.append(ids)
        valid = False
        if '=' in ids and any('=' not in p for p in post):
            return
    parts += list(post)
    if tail:
        parts.append(tail)
    names = [p.split('=')[0] for p in list(pre) + list(post)]
    for base in ('Recorder', 'Middle', 'Overriding'):
        for grand in (False, True):
            src = 'class Middle(Recorder):\n    extra = 1\n'
            src += 'class Overriding(Recorder):\n    def add(self, ids, *args, **columns):\n        LOG.append("overriding")\n        return super(Overriding, self).add(ids, *args, **columns)\n'
            src += 'class Sub(%s):\n    def add(%s):\n' % (base, ', '.join(parts))
            src += '        LOG.append("sub")\n        return super(Sub, self).add(%s, %s**dict(%s))\n' % ('ids' if 'ids' in ', '.join(parts) else 'names', ''.join('%s=%s, ' % (n, n) for n in names), 'columns' if tail else '')
            if grand:
                src += 'class Last(Sub):\n    def unrelated(self):\n        return 1\n'
            else:
                src += 'Last = Sub\n'
            log = []
            env = {'Recorder': Recorder, 'LOG': log}
            check.count()
            replay = dict(source=src)
            check.seen(src)
            try:
                exec(src, env)
            except Exception as e:
                check.expect(not valid and "'ids'" in str(e) and type(e) is Exception, 'a valid recorder cannot be defined', error=repr(e), **replay)
                continue
            if not check.expect(valid, 'a recorder that lacks the positional ids can be defined', **replay):
                continue
            expected_log = ['sub'] + (['overriding'] if base == 'Overriding' else [])
            given = OrderedDict([(n, [n + '1', n + '2']) for n in names])
            expected = [('i1', dict([(n, n + '1') for n in names], id='i1')), ('i2', dict([(n, n + '2') for n in names], id='i2'))]
            required = [p for p in list(pre) + list(post) if '=' not in p]
            # in one call, and in all the orders of one argument at a time
            plans = [[dict(given, ids=['i1', 'i2'])]]
            for order in itertools.permutations(['ids'] + required):
                steps = [{p: (['i1', 'i2'] if p == 'ids' else given[p])} for p in order]
                steps[0].update({n: given[n] for n in names if n not in required})
                plans.append(steps)
                if len(order) > 2:
                    plans.append([dict(itertools.chain(steps[0].items(), steps[1].items()))] + steps[2:])
            for plan in plans:
                rec = env['Last']()
                got = rec
                f = rec.add
                for n, step in enumerate(plan):
                    check.count()
                    check.expect(len(rec) == 0 and not log, 'a partial add already adds', plan=plan, **replay)
                    got = outcome(f, **step)
                    f = got[1] if got[0] == 'ok' else None
                    if n + 1 < len(plan) and not check.expect(callable(f) and hasattr(f, 'func'), 'an incomplete add is not a curried function', plan=plan, got=repr(got), **replay):
                        break
                else:
                    check.expect(got[0] == 'ok' and isinstance(got[1], dict) and [(k, dict(v)) for k, v in got[1].items()] == expected, 'the curried add does not add the records', plan=plan, got=repr(got), **replay)
                    check.expect(log == expected_log, 'overridden adds are not called once', plan=plan, got=list(log), **replay)
                    check.expect([dict(r) for r in rec.get('i1', 'i2')] == [r for _, r in expected], 'the records are not there', plan=plan, **replay)
                del log[:]


def body(check):
    todo = list(items(check.thorough))
    check.parallel(check_hierarchy, todo)
    check.parallel(check_independent, [0])
    check.parallel(check_required, [0])
    check.parallel(check_recorders, list(recorder_classes(check.thorough)))
    check.extra['hierarchies'] = len(todo)
    check.sample({'hierarchies': repr(todo[len(todo) // 2])})


if __name__ == '__main__':
    main('C29', 'exploration', 'all hierarchies of the shapes over subsets of defined members x forms of decorators (strided when there are over 1 class in the quick tier), in three ways of creating classes; all signatures x required arguments; all recorder subclasses x all orders of '
         'giving arguments; distinct ones are different programs', body)
