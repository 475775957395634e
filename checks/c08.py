# coding=utf-8
"""C08: introspection includes exactly the requested attributes."""
import collections
import itertools

from mc.core import main, outcome

PATTERNS = ('%s', '_%s', '%s_', '_%s_', 'x%s', '%sx')
PRESENCE = ('none', 'own', 'inherited', 'both')
KINDS = ('dict', 'slots', 'props', 'class')


def names(kind, where):
    return [p % (kind[0] + where) for p in PATTERNS]


def prop(value):
    return property(lambda self: value)


def make(presence, levels=2, call=False, base=object):
    """A class with attributes of each kind defined in the class itself, in its base class or in both.
    Returns (class, instance factory, {kind: {name: value}})."""
    attrs = {k: {} for k in KINDS}
    spaces = [{}, {}]  # base, own
    to_set = []

    for kind, pres in zip(KINDS, presence):
        for level, where in ((0, 'b'), (1, 'o')):
            if pres == 'none' or (pres == 'own' and level == 0) or (pres == 'inherited' and level == 1):
                continue
            for i, name in enumerate(names(kind, where)):
                value = {4: None, 5: [] if where == 'o' else ''}.get(i, (kind, where, i))   # nothing that is false is the same as nothing
                if kind == 'dict':
                    to_set.append((name, value))
                    attrs[kind][name] = value
                elif kind == 'slots':
                    spaces[level].setdefault('__slots__', []).append(name)
                    if i != 5:  # one slot is never set
                        to_set.append((name, value))
                        attrs[kind][name] = value
                elif kind == 'props':
                    spaces[level][name] = prop(value)
                    attrs[kind][name] = value
                elif kind == 'class':
                    spaces[level][name] = value
                    attrs[kind][name] = value
        if pres == 'both' and kind in ('props', 'class'):
            # redefined in the subclass
            name = kind[0] + 're'
            spaces[0][name] = prop('old') if kind == 'props' else 'old'
            spaces[1][name] = prop('new') if kind == 'props' else 'new'
            attrs[kind][name] = 'new'
    slots_only = presence[0] == 'none' and presence[1] != 'none'
    if slots_only:  # no instance dictionary at all
        spaces[0].setdefault('__slots__', [])
        spaces[1].setdefault('__slots__', [])
    elif '__slots__' in spaces[0]:
        spaces[0]['__slots__'].append('__dict__')
    if call:
        spaces[0]['__call__'] = lambda self, a, b=3: b
    Base = type('Base', (base,), spaces[0])
    mid = Base
    for i in range(levels - 2):
        mid = type('Mid%d' % i, (mid,), {'__slots__': []} if slots_only else {})
    cls = type('Shape', (mid,), spaces[1])

    def factory(*args):
        o = cls(*args)
        for name, value in to_set:
            setattr(o, name, value)
        return o
    return cls, factory, attrs, slots_only


def dunder(k):
    return k.startswith('__') and k.endswith('__')


def expected(attrs, add_dict, add_slots, add_properties, add_class, prefix, postfix, excludes):
    out = {}
    for kind, add in (('class', add_class), ('dict', add_dict), ('slots', add_slots), ('props', add_properties)):
        if add:
            out.update(attrs[kind])
    return {k: v for k, v in out.items() if not (prefix and k[:len(prefix)] == prefix) and
            not (postfix and k[-len(postfix):] == postfix) and k not in (excludes or ())}


def compare(check, what, name, exp, non, how, info):
    got = {k: v for k, v in what.conf.items() if not dunder(k)}
    check.count()
    if not (got == exp and what.name == name and what.out_name is None and what.non_id_keys == set(non or ())):
        check.fail('the configuration is not made of the requested attributes', how=how, got=repr((what.name, sorted(got.items(), key=repr), what.non_id_keys)),
                   expected=repr((name, sorted(exp.items(), key=repr), non)), **info)


def chunk(check, item):
    from whatami import whatareyou, whatable, obj2what, config_dict_for_object, trim_dict
    presence, levels, call, exclusions = item
    for flags in itertools.product((True, False), repeat=4):
        add_dict, add_slots, add_properties, add_class = flags
        if add_class and (presence[1] != 'none' or presence[2] != 'none'):
            continue  # the descriptors are themselves class attributes
        for prefix, postfix, excludes in exclusions:
            cls, factory, attrs, slots_only = make(presence, levels, call)
            if add_class and call:
                excludes = tuple(excludes or ()) + ('__call__',)
            kw = dict(add_dict=add_dict, add_slots=add_slots, add_properties=add_properties, add_class=add_class,
                      exclude_prefix=prefix, exclude_postfix=postfix, excludes=excludes)
            info = dict(presence=presence, levels=levels, callable=call, options=repr(kw))
            exp = expected(attrs, *flags + (prefix, postfix, excludes))
            check.seen((presence, levels, call, flags, prefix, postfix, repr(excludes)))
            non = ['do', 'zz']
            o = factory()
            compare(check, whatareyou(o, non_id_keys=non, **kw), 'Shape', exp, non, 'whatareyou', info)
            compare(check, whatareyou(o, name_override='other', **kw), 'other', exp, None, 'whatareyou', info)
            if not add_class:
                okw = {k: v for k, v in kw.items() if k != 'add_class'}
                compare(check, obj2what(o, non_id_keys=iter(non), **okw), 'Shape', exp, non, 'obj2what', info)
            cd = trim_dict(config_dict_for_object(o, *flags), prefix, postfix, excludes or ())
            check.expect({k: v for k, v in cd.items() if not dunder(k)} == exp, 'config_dict_for_object and trim_dict are not the requested attributes', got=repr(cd), **info)
            # whatables have a method what() themselves
            kw['excludes'] = tuple(excludes or ()) + ('what',)
            C = whatable(cls, non_id_keys=non, **kw)
            check.expect(C is cls, 'the class is replaced', **info)
            w = factory()
            compare(check, w.what(), 'Shape', exp, non, 'whatable class', info)
            compare(check, obj2what(w), 'Shape', exp, non, 'obj2what of whatable', info)
            cls2, factory2, _, _ = make(presence, levels, call)
            if not slots_only:
                o2 = factory2()
                compare(check, whatable(o2, non_id_keys=non, **kw).what(), 'Shape', exp, non, 'whatable instance', info)
                compare(check, whatable(non_id_keys=iter(non), **kw)(o2).what(), 'Shape', exp, non, 'whatable instance again', info)
                check.expect(not hasattr(factory2(), 'what'), 'whatamising an instance affects others', **info)
            # current values
            changed = {}
            for name in list(attrs['dict']) + list(attrs['slots']):
                changed[name] = ('changed', name) if len(name) % 2 else {2: None, 4: 0}.get(len(name), False)
                setattr(w, name, changed[name])
            exp2 = {k: changed.get(k, v) for k, v in exp.items()}
            compare(check, w.what(), 'Shape', exp2, non, 'whatable class, changed', info)
            for name in list(attrs['dict']) + list(attrs['slots']):
                delattr(w, name)
            exp3 = {k: v for k, v in exp.items() if k not in changed}
            compare(check, w.what(), 'Shape', exp3, non, 'whatable class, deleted', info)


def containers(check):
    from whatami import whatareyou, whatable, obj2what, What
    contents = {list: [[], [1], [2, 1]], tuple: [(), (1,), (2, (1,))], dict: [{}, {'a': 1}, {2: 1, 'b': {}}, {'do': 1, 'po': 2, 'seq': 3, '_do': 4, 'name': 5, 'x_': 6}], set: [set(), {1}, {2, 1}],
                frozenset: [frozenset(), frozenset([1]), frozenset([2, 1])]}
    for base, cs in contents.items():
        for c in cs:
            # the container itself
            for fn in (whatareyou, obj2what):
                w = fn(c)
                check.count()
                check.expect(w.name == base.__name__ and w.conf == {'seq': c} and w.conf['seq'] is c, 'a container is not kept as seq', got=repr(w), value=repr(c))
                w = fn(c, excludes=('seq',), name_override='n')
                check.expect(w.name == 'n' and w.conf == {}, 'seq cannot be excluded', got=repr(w))
            for presence in itertools.product(('none', 'own', 'inherited'), ('none',), ('none', 'own', 'both'), ('none', 'own')):
                for add_class in (False, True):
                    if add_class and presence[2] != 'none':
                        continue
                    cls, factory, attrs, _ = make(presence, 2, False, base)
                    o = factory(c)
                    exp = expected(attrs, True, True, True, add_class, '_', '_', ('what',))
                    exp['seq'] = base(c)
                    w = whatareyou(o, add_class=add_class, non_id_keys=['do'])
                    check.count()
                    check.seen((base, repr(c), presence, add_class))
                    got = {k: v for k, v in w.conf.items() if k not in dir(base)}
                    check.expect(w.name == 'Shape' and got == exp and type(w.conf['seq']) is base and w.non_id_keys == {'do'}, 'a container with attributes is not identified by both',
                                 got=repr(w), expected=repr(exp), base=base.__name__)
                    if not add_class:
                        whatable(cls)
                        w = factory(c).what()
                        check.expect(w.name == 'Shape' and w.conf == exp, 'a whatable container with attributes is not identified by both', got=repr(w), expected=repr(exp))


NT = collections.namedtuple('NT', ['p', 'q_'])


class NT2(NT):
    @property
    def r(self):
        return 3


def more_containers(check):
    from whatami import whatareyou, whatable
    for cls, args, exp in ((NT, (1, 2), {'p': 1, 'seq': (1, 2)}), (NT2, (1, 2), {'p': 1, 'r': 3, 'seq': (1, 2)}), (collections.OrderedDict, ([('a', 1)],), {'seq': {'a': 1}}),
                           (collections.defaultdict, (None, {'a': 1}), {'seq': {'a': 1}}), (collections.Counter, ('aab',), {'seq': {'a': 2, 'b': 1}}), (NT, ([], ()), {'p': [], 'seq': ([], ())})):
        for who in (cls, type('Shape', (cls,), {}), type('Shape', (cls,), {'__slots__': ()})):
            o = who(*args)
            for w in (whatareyou(o),) + ((whatable(who)(*args).what(),) if who is not cls and cls is not collections.OrderedDict else ()):
                check.count()
                check.seen((who.__name__, repr(args), repr(w)))
                got = {k: v for k, v in w.conf.items() if k in exp or k not in dir(cls)}
                check.expect(w.conf.get('seq') == exp['seq'] and type(w.conf['seq']) is type(exp['seq']) and {k: v for k, v in got.items() if k != 'p'} == {k: v for k, v in exp.items() if k != 'p'},
                             'a container is not kept as seq', got=repr(w), expected=repr(exp))


class Shadow(object):
    cv = 'class'

    def __init__(self):
        self.__dict__.update(p='hidden', q='hidden', own=1, cv='own')

    @property
    def p(self):
        return 'current'

    @property
    def q(self):
        return 'base'


class Shadow2(Shadow):
    @property
    def q(self):
        return 'redefined'


def shadows(check):
    """Values that an instance has under a name that means something else."""
    from whatami import whatareyou, whatable
    for cls, exp in ((Shadow, {'p': 'current', 'q': 'base', 'own': 1, 'cv': 'own'}), (Shadow2, {'p': 'current', 'q': 'redefined', 'own': 1, 'cv': 'own'})):
        for make in (lambda: whatareyou(cls()), lambda: whatable(type(cls.__name__, (cls,), {}))().what(), lambda: whatable(cls()).what(), lambda: whatareyou(cls(), add_class=False)):
            w = make()
            check.count()
            check.seen(('shadow', repr(w)))
            check.expect(w.name == cls.__name__ and w.conf == exp, 'the values are not those of the object', got=repr(w), expected=repr(exp))


def callables(check):
    """Callable objects with the same attributes that partials or functions have, in part."""
    from whatami import whatareyou, whatable

    class HasFunc(object):
        def __init__(self):
            self.func = 3
            self.a = 1

        def __call__(self, x, y=2):
            return x

    class HasArgs(HasFunc):
        def __init__(self):
            self.func, self.args, self.keywords, self.a = 'notafunction', (), {}, 2

    class Call(object):
        d = 3

        def __init__(self, a=5):
            self.a = a
            self._b = 3

        def __call__(self):
            return self.a

    class Slotted(object):
        __slots__ = ('a', 'unset')

        def __init__(self):
            self.a = 1

        def __call__(self):
            return 3

    for cls, exp in ((HasFunc, {'func': 3, 'a': 1}), (HasArgs, {'func': 'notafunction', 'args': (), 'keywords': {}, 'a': 2}), (Call, {'a': 5}), (Slotted, {'a': 1})):
        w = whatareyou(cls())
        check.count()
        check.expect(w.name == cls.__name__ and w.conf == exp, 'callable objects are not identified by their attributes', got=repr(w), expected=repr(exp))
        w = whatable(cls)().what()
        check.expect(w.name == cls.__name__ and w.conf == exp, 'whatable callable objects are not identified by their attributes', got=repr(w), expected=repr(exp))


def more_kinds(check):
    """Data descriptors of other kinds, classes that change, and objects that look like functions."""
    from whatami import whatareyou, whatable, obj2what
    from whatami.whatutils import FunctionLike

    class Data(object):
        def __init__(self, value):
            self.value = value

        def __get__(self, obj, objtype=None):
            return self if obj is None else self.value

        def __set__(self, obj, value):
            self.value = value

    class Better(property):
        pass

    class NotData(object):
        def __get__(self, obj, objtype=None):
            return 'notdata'

    for n, ways in enumerate(itertools.product((Data, lambda v: Better(lambda self: v), lambda v: property(lambda self: v), None), repeat=2)):
        spaces = [{name: way(5), '_' + name: way(6), name + '_': way(7)} if way else {} for name, way in zip('de', ways)]
        exp = {name: 5 for name, way in zip('de', ways) if way}
        Base = type('Base', (object,), dict(spaces[0], nd=NotData()))
        Shape = type('Shape', (Base,), spaces[1])
        o = Shape()
        o.a = 1
        info = dict(kinds=n)
        compare(check, whatareyou(o), 'Shape', dict(exp, a=1), None, 'whatareyou, descriptors', info)
        compare(check, obj2what(o, add_dict=False), 'Shape', exp, None, 'obj2what, descriptors', info)
        compare(check, whatareyou(o, add_properties=False), 'Shape', {'a': 1}, None, 'whatareyou, no descriptors', info)
        whatable(Shape)
        compare(check, o.what(), 'Shape', dict(exp, a=1), None, 'whatable class, descriptors', info)
        for name, way in zip('de', ways):
            if way is Data:
                setattr(o, name, 8)
                exp[name] = 8
        compare(check, o.what(), 'Shape', dict(exp, a=1), None, 'whatable class, descriptors changed', info)

    # the class changes
    ops = (('set', 'Base', 'k'), ('set', 'Shape', 'k'), ('set', 'Shape', 'm'), ('del', 'Base', 'k'), ('del', 'Shape', 'k'), ('prop', 'Base', 'k'), ('prop', 'Shape', 'm'), ('attr', None, 'k'))
    for hist in itertools.product(ops, repeat=3):
        Base = type('Base', (object,), {'k': 'base'})
        Shape = type('Shape', (Base,), {})
        o = Shape()
        o.a = 1
        w = whatable(Shape, add_class=True)()
        for step, (kind, where, name) in enumerate(((None, None, None),) + hist):
            C = {'Base': Base, 'Shape': Shape}.get(where)
            if kind == 'set':
                setattr(C, name, step)
            elif kind == 'prop':
                setattr(C, name, property(lambda self, step=step: ('prop', step)))
            elif kind == 'del' and name in vars(C):
                delattr(C, name)
            elif kind == 'attr':
                vars(o)[name] = vars(w)[name] = ('own', step)
            for x, made in ((o, 'whatareyou'), (w, 'whatable class')):
                exp = dict(vars(x))
                for n in 'km':
                    in_class = getattr(Shape, n, None)
                    if isinstance(in_class, property) or in_class is not None and n not in exp:
                        exp[n] = getattr(x, n)
                compare(check, whatareyou(x, add_class=True) if made == 'whatareyou' else x.what(), 'Shape', exp, None, made + ', the class changes', dict(history=hist))
                exp = {n: v for n, v in exp.items() if n in vars(x) or isinstance(getattr(Shape, n, None), property)}
                compare(check, whatareyou(x), 'Shape', exp, None, 'whatareyou without the class, the class changes', dict(history=hist))

    # a function-like object is all its public attributes, and nothing else
    for presence in ((a, 'none', b, 'none') for a in PRESENCE for b in PRESENCE):
        cls, factory, attrs, _ = make(presence, base=FunctionLike)
        o = factory()
        exp = {k: v for kind in ('dict', 'props') for k, v in attrs[kind].items() if k[0] != '_' and k[-1] != '_'}
        compare(check, o.what(), 'Shape', exp, None, 'FunctionLike', dict(presence=presence))
        compare(check, obj2what(o), 'Shape', exp, None, 'obj2what of FunctionLike', dict(presence=presence))
        check.expect(o.__name__ == 'Shape', 'FunctionLike does not have the name of its class', got=o.__name__)


DEFAULTS = collections.OrderedDict([('add_dict', True), ('add_slots', True), ('add_properties', True), ('add_class', False), ('exclude_prefix', '_'), ('exclude_postfix', '_'), ('excludes', ('what',))])
GIVEN = {'add_dict': (True, False), 'add_slots': (True, False), 'add_properties': (True, False), 'add_class': (True, False), 'exclude_prefix': ('_', None, 'x'), 'exclude_postfix': ('_', '', 'x'), 'excludes': (('what',), (), ('do', 'po'))}


def defaults(check, item):
    """The options that are not given have the documented values, everywhere."""
    from whatami import whatareyou, whatable, obj2what, config_dict_for_object, trim_dict
    presence, options = item
    for values in itertools.product(*[GIVEN[k] for k in options]):
        kw = dict(zip(options, values))
        settings = dict(DEFAULTS, **kw)
        if settings['add_class'] and (presence[1] != 'none' or presence[2] != 'none'):
            continue
        cls, factory, attrs, slots_only = make(presence)
        exp = expected(attrs, *settings.values())
        info = dict(presence=presence, options=repr(kw))
        check.seen((presence, 'defaults', repr(sorted(kw.items()))))
        o = factory()
        if not slots_only:   # something that is not a method
            o.what, o.whatever = 3, 4
            exp['whatever'] = 4
            if not settings['add_dict']:
                del exp['whatever']
            elif 'what' not in settings['excludes']:
                exp['what'] = 3
        compare(check, whatareyou(o, **kw), 'Shape', exp, None, 'whatareyou, with defaults', info)
        flags = {k: v for k, v in kw.items() if k.startswith('add')}
        excludes = {k: v for k, v in kw.items() if k.startswith('exclude')}
        cd = trim_dict(config_dict_for_object(o, **flags), **excludes)
        check.expect({k: v for k, v in cd.items() if not dunder(k)} == exp, 'config_dict_for_object and trim_dict have other defaults', got=repr(cd), **info)
        if 'add_class' not in kw:
            compare(check, obj2what(o, **kw), 'Shape', exp, None, 'obj2what, with defaults', info)
            compare(check, obj2what(o, force_inspect=True, **kw), 'Shape', exp, None, 'obj2what forced, with defaults', info)
        if 'what' in settings['excludes']:
            exp = expected(attrs, *settings.values())
            for how, C in (('whatable', whatable(type('Shape', (cls,), {'__slots__': ()} if slots_only else {}), **kw)), ('whatable()', whatable(**kw)(type('Shape', (cls,), {'__slots__': ()} if slots_only else {})))):
                o = C()
                for n, v in list(attrs['dict'].items()) + list(attrs['slots'].items()):
                    setattr(o, n, v)
                compare(check, o.what(), 'Shape', exp, None, how + ' class, with defaults', info)
                compare(check, obj2what(o), 'Shape', exp, None, how + ' class, with defaults', info)
            if not slots_only:
                compare(check, whatable(factory(), **kw).what(), 'Shape', exp, None, 'whatable instance, with defaults', info)


def body(check):
    prefixes, postfixes = ['_', None, '', 'x', '__'], ['_', None, '', 'x']
    excludess = [('what',), (), ['do', '_so', 'nope'], {'po', 'co_'}, None]
    full = list(itertools.product(prefixes, postfixes, excludess))
    few = full[::9] + [('_', '_', ('what',)), (None, None, ())] if not check.thorough else full
    items = []
    for n, presence in enumerate(itertools.product(PRESENCE, repeat=4)):
        if not check.thorough and n % 2 and sum(p != 'none' for p in presence) == 4:
            continue
        for levels, call in ((2, False), (3, True)):
            items.append((presence, levels, call, few))
    check.parallel(chunk, items)
    some = [p for n, p in enumerate(itertools.product(PRESENCE, repeat=4)) if check.thorough or n % 5 == 0 or p.count('none') == 3]
    check.parallel(defaults, [(p, options) for p in some for n in range(4 if check.thorough else 3) for options in itertools.combinations(DEFAULTS, n)])
    containers(check)
    callables(check)
    more_containers(check)
    shadows(check)
    more_kinds(check)
    check.sample({'presence (dict, slots, properties, class)': items[-1][0], 'expected': repr(make(items[-1][0])[2])[:300]})


if __name__ == '__main__':
    main('C08', 'exploration',
         'one evaluation per (class shape, combination of the four flags, exclusion settings, way of asking); shapes: each kind of attribute absent, own, inherited or both, with '
         'six naming patterns; distinct ones differ in shape, flags or exclusions', body, jit=False)
