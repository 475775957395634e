# coding=utf-8
"""C30: identification dispatch honours existing identities."""
import itertools
import sys
import types

from mc.core import bfs, main, outcome


# --- Kinds of objects: all the ways of having a what x all the ways of having an id

def what_kinds():
    """name: (builds a class and an instance, what its what() gives)  'what': a What; None: there is no usable what."""
    from whatami import What, whatable, whatamize_object

    def conf(*_):
        return What('mine', {'p': 1})

    def base(**members):
        def __init__(self):
            self.a = 1
        cls = type('Obj', (object,), dict(members, __init__=__init__))
        return cls

    def plain(**members):
        return lambda ids: base(**dict(members, **ids))()

    def on_instance(**attrs):
        def build(ids):
            o = base(**ids)()
            for k, v in attrs.items():
                setattr(o, k, v)
            return o
        return build

    def error(exception):
        def f(*_):
            raise exception
        return f

    class Dynamic(object):
        def __getattr__(self, name):
            if name == 'what':
                return conf
            raise AttributeError(name)

    class Meth(object):
        def m(self):
            return conf()

    def inherited(ids):
        return type('Obj', (base(what=conf),), ids)()

    def whatable_class(ids):
        return whatable(base(**ids), excludes=('what',))()

    def whatable_parent(ids):
        return type('Obj', (whatable(base()),), ids)()

    def whatable_instance(ids):
        return whatable(base(**ids)())

    def whatable_whatfunc(ids):
        return whatable(base(**ids)(), whatfunc=lambda o: What('mine', {'p': o.a}))

    def whatamized_class(ids):
        cls = base(**ids)
        whatamize_object(cls, conf)
        return cls()

    def whatamized_instance(ids):
        o = base(**ids)()
        whatamize_object(o, conf)
        return o

    def dynamic(ids):
        o = type('Obj', (Dynamic,), ids)()
        o.a = 1
        return o
    class MyWhat(What):
        pass
    mine, auto = 'mine(p=1)', 'Obj(a=1)'
    return {
        'subclass': (plain(what=lambda self: MyWhat('mine', {'p': 1})), mine), 'no what': (plain(), None), 'method': (plain(what=conf), mine), 'inherited': (inherited, mine), 'class method': (plain(what=classmethod(conf)), mine), 'static method': (plain(what=staticmethod(conf)), mine),
        'function attribute': (on_instance(what=conf), mine), 'method attribute': (on_instance(what=Meth().m), mine), 'property': (plain(what=property(lambda self: conf)), mine), 'dynamic': (dynamic, mine),
        'whatable class': (whatable_class, auto), 'whatable parent': (whatable_parent, auto), 'whatable instance': (whatable_instance, auto), 'whatable whatfunc': (whatable_whatfunc, mine),
        'whatamized class': (whatamized_class, mine), 'whatamized instance': (whatamized_instance, mine),
        'returns int': (plain(what=lambda self: 5), None), 'returns string': (plain(what=lambda self: 'mine(p=1)'), None), 'returns none': (plain(what=lambda self: None), None),
        'not callable': (plain(what='mine(p=1)'), None), 'none': (plain(what=None), None), 'not callable attribute': (on_instance(what=5), None),
        'property not callable': (plain(what=property(lambda self: 5)), None),
        # these cannot be asked for ids, but can be asked whether they are whatable
        'needs arguments': (plain(what=lambda self, x: conf()), Exception), 'raises': (plain(what=error(ValueError('what'))), Exception), 'raises attribute error': (plain(what=error(AttributeError('what'))), Exception),
        'raises import error': (plain(what=error(ImportError('what'))), Exception), 'raises stop': (plain(what=error(StopIteration())), Exception), 'property raises': (plain(what=property(error(ValueError('what')))), Exception),
        'property raises attribute error': (plain(what=property(error(AttributeError('what')))), Exception),
    }


ID_KINDS = {
    'no id': ({}, None), 'id': (dict(id=lambda self: 'theid'), 'theid'), 'empty id': (dict(id=lambda self: ''), ''), 'id attribute': (dict(id=7), None), 'id string': (dict(id='theid'), None),
    'class id': (dict(id=classmethod(lambda cls: 'theid')), 'theid'), 'id property': (dict(id=property(lambda self: lambda: 'theid')), 'theid'), 'id not callable property': (dict(id=property(lambda self: 3)), None),
}
# what is seen when inspecting
INSPECTED = {'id property': None, 'id not callable property': 'Obj(a=1,id=3)'}


def check_kinds(check, item):
    from whatami import What, is_whatable, obj2what, what2id, whatareyou
    wk, ik = item
    build, mine = what_kinds()[wk]
    members, theid = ID_KINDS[ik]
    inspected = INSPECTED.get(ik, 'Obj(a=1)')

    def fresh():
        return build(members)
    usable = isinstance(mine, str)
    if mine == 'Obj(a=1)' and ik != 'no id':
        mine = inspected
        if mine is None:
            return
    check.seen(item)
    for times in (1, 2):
        o = fresh()
        for _ in range(times):
            check.count(4)
            got = outcome(is_whatable, o)
            check.expect(got == ('ok', usable), 'is_whatable is not right', kind=wk, id=ik, got=repr(got), expected=usable)
            if mine is Exception:
                continue
            expected = mine if usable else theid if theid is not None else inspected
            if expected is not None:
                got = outcome(what2id, o)
                check.expect(got == ('ok', expected), 'what2id does not give the existing id', kind=wk, id=ik, got=repr(got), expected=expected)
            expected = mine if usable else inspected
            for force in (False, True):
                if force:
                    expected = inspected
                if expected is None:
                    continue
                if wk in ('property', 'property not callable') and not usable or wk == 'property' and force:
                    pass
                got = outcome(lambda: obj2what(o, force_inspect=force))
                check.expect(got[0] == 'ok' and isinstance(got[1], What) and got[1].id() == expected, 'obj2what does not prefer the existing what', kind=wk, id=ik, force=force,
                             got=repr(got[1].id() if got[0] == 'ok' else got), expected=expected)
            if inspected is not None:
                got = outcome(lambda: whatareyou(o).id())
                check.expect(got == ('ok', inspected), 'whatareyou does not inspect', kind=wk, id=ik, got=repr(got), expected=inspected)
            # the same answer when it is a value
            got = outcome(lambda: What('x', {'v': o}).id())
            check.count()
            check.expect(got == ('ok', 'x(v=%s)' % (mine if usable else 'Obj()')), 'values are not identified by their what', kind=wk, id=ik, got=repr(got))


def check_simple(check, _):
    """Things that are not instances of user classes."""
    from functools import partial
    from whatami import What, is_whatable, obj2what, what2id, whatable, whatareyou

    def f(x, y=2):
        return x, y
    w = What('a', {'b': [1, 'x']}, out_name='o')
    wf = whatable(f)
    for o, expected in ((None, None), ('', ''), ('a(b=1)', 'a(b=1)'), (u'ñandú', u'ñandú'), ('not an id', 'not an id'), (w, "o=a(b=[1,'x'])"), (f, 'f(y=2)'), (partial(f, 3), 'f(x=3,y=2)'), (wf, 'f(y=2)'),
                        (whatable(partial(f, y=5)), 'f(y=5)'), ([1, 2], 'list(seq=[1,2])'), ((), 'tuple(seq=())'), ({'a': 1}, "dict(seq={'a':1})"), (frozenset(), 'frozenset(seq=frozenset())')):
        check.count()
        got = outcome(what2id, o)
        check.expect(got == ('ok', expected) and type(got[1]) is type(expected), 'what2id does not give the id', obj=repr(o), got=repr(got), expected=expected)
        if o is not None and not isinstance(o, (str, What)):
            got = outcome(lambda: obj2what(o).id())
            check.expect(got == ('ok', expected), 'obj2what does not give the configuration', obj=repr(o), got=repr(got), expected=expected)
    s = ''.join(['a', '(b=1)'])
    check.expect(what2id(s) is s, 'what2id does not give the string itself')

    class Str(str):
        def what(self):
            return What('bad', {})
    s = Str('str')
    check.expect(what2id(s) is s, 'what2id does not give the string itself')
    # classes
    plain = type('Plain', (object,), {})
    foreign = type('Foreign', (object,), {'what': lambda self: 5})
    legit = type('Legit', (object,), {'what': lambda self: What('l', {})})
    made = whatable(type('Made', (object,), {}))
    sub = type('Sub', (made,), {})
    broken = type('Sub', (made,), {'what': lambda self: 5})
    forced = whatable(type('Forced', (object,), {'what': lambda self: What('l', {})}), force_flag_as_whatami=True)
    meta = type('Meta', (type,), {'what': lambda cls: What('meta', {'name': cls.__name__})})
    metamade = meta('MetaMade', (object,), {})
    classmade = type('ClassMade', (object,), {'what': classmethod(lambda cls: What('c', {}))})
    mod = types.ModuleType('mod')
    for o, expected in ((None, False), ('', False), (5, False), (w, False), (What, False), (f, False), (wf, True), (partial(f, 3), False), (whatable(partial(f, 3)), True), (len, False), (str, False), (object, False), (type, False),
                        (plain, False), (foreign, False), (legit, False), (made, True), (sub, True), (broken, False), (forced, True), (metamade, True), (metamade(), False), (classmade, True), (classmade(), True), (plain(), False), (foreign(), False),
                        (legit(), True), (made(), True), (sub(), True), (broken(), False), (forced(), True), (mod, False), (property(), False), (NotImplemented, False), ([w], False), (w.id, False), (made().what, False)):
        check.count()
        got = outcome(is_whatable, o)
        check.expect(got == ('ok', expected), 'is_whatable is not right', obj=repr(o), got=repr(got), expected=expected)
    for o, expected in ((metamade, "meta(name='MetaMade')"), (classmade, 'c()')):
        check.count(2)
        check.expect(obj2what(o).id() == expected and what2id(o) == expected, 'classes with their own what are not honoured', obj=repr(o))
    # options are for inspection only
    o = legit()
    o.a = 1
    for options in ({}, {'excludes': ('a',)}, {'non_id_keys': ('a',)}, {'name_override': 'n'}, {'add_dict': False}, {'exclude_prefix': 'a'}):
        check.count(2)
        check.expect(obj2what(o, **options).id() == 'l()', 'obj2what does not prefer the existing what', options=repr(options))
        check.expect(obj2what(o, force_inspect=True, **options).id() == whatareyou(o, **options).id(), 'obj2what does not inspect with the options', options=repr(options))
    check.expect([obj2what(o, force_inspect=True, **options).id() for options in ({}, {'excludes': ('a',)}, {'non_id_keys': ('a',)}, {'name_override': 'n'}, {'add_dict': False}, {'exclude_prefix': 'a'})]
                 == ['Legit(a=1)', 'Legit()', 'Legit()', 'n(a=1)', 'Legit()', 'Legit()'], 'obj2what does not respect the options')


# --- whatable and whatamize_object change what they should only: histories

class Model(object):
    """Where each what is: functions by name, flags."""

    def __init__(self, initial):
        self.cls = {'Base': initial[0], 'Sub': initial[1]}   # own what: None, foreign, legit, made, auto
        self.inst = {'base': None, 'base2': None, 'sub': None}
        self.flags = set()
        self.autos = 0

    def lookup(self, who):
        if who in self.inst:
            if self.inst[who]:
                return self.inst[who], True
            return self.lookup({'base': 'Base', 'base2': 'Base', 'sub': 'Sub'}[who])[0], False
        if self.cls[who]:
            return self.cls[who], False
        return (self.cls['Base'] if who == 'Sub' else None), False

    def whatable(self, who):
        """is_whatable."""
        f, _ = self.lookup(who)
        if f is None:
            return False
        if who in self.inst:
            return not f.startswith('foreign')
        return f.startswith('auto') or f in self.flags

    def set(self, who, f):
        if who in self.inst:
            self.inst[who] = f
        else:
            self.cls[who] = f

    def apply(self, op):
        """'ok' or 'error'."""
        what, who, force = op
        f, _ = self.lookup(who)
        if what == 'whatamize':
            if f is None or force:
                self.set(who, 'made')
            return 'ok'
        if f is not None and not self.whatable(who):
            if not force:
                return 'error'
            self.flags.add(f)
            return 'ok'
        self.autos += 1
        self.set(who, 'auto')
        return 'ok'

    def id(self, who):
        """what2id of an instance."""
        f, own = self.lookup(who)
        name = 'Sub' if who == 'sub' else 'Base'
        if f is None or f.startswith('foreign'):
            return '%s(a=1,b=2)' % name
        if f == 'auto':
            return '%s(a=1)' % name
        if f == 'made':
            return 'made(n=%d)' % (0 if own else 1)
        return '%s()' % f

    def key(self):
        return repr((sorted(self.cls.items(), key=str), sorted(self.inst.items(), key=str), sorted(self.flags)))


def history_runner(initial):
    def run(check, history):
        from whatami import What, is_whatable, obj2what, what2id, whatable, whatamize_object

        def __init__(self):
            self.a, self.b = 1, 2
        functions = {'foreign1': lambda self: 5, 'foreign2': lambda self: 'Base(a=1)', 'legit1': lambda self: What('legit1', {}), 'legit2': lambda self: What('legit2', {}), None: None}

        def made(*args):
            return What('made', {'n': len(args)})
        things = {}
        things['Base'] = type('Base', (object,), dict({'__init__': __init__}, **({'what': functions[initial[0]]} if initial[0] else {})))
        things['Sub'] = type('Sub', (things['Base'],), {'what': functions[initial[1]]} if initial[1] else {})
        things['base'], things['base2'], things['sub'] = things['Base'](), things['Base'](), things['Sub']()
        model = Model(initial)
        for n, op in enumerate(history):
            what, who, force = op
            o = things[who]
            expected = model.apply(op)
            try:
                if what == 'whatamize':
                    got = whatamize_object(o, made, force=force)
                elif what == 'decorator':
                    got = whatable(excludes=('b', 'what'), force_flag_as_whatami=force)(o)
                else:
                    got = whatable(o, force_flag_as_whatami=force, excludes=('b', 'what'))
                result = 'ok'
                if what != 'whatamize':
                    check.expect(got is o, 'whatable does not give the same object', initial=list(initial), history=list(history))
            except Exception:
                result = 'error'
            if n == len(history) - 1:
                check.count()
                if not check.expect(result == expected, 'the operation does not %s' % ('fail' if expected == 'error' else 'work'), initial=list(initial), history=list(history)):
                    return None
        good = True
        for who, o in things.items():
            got = outcome(is_whatable, o)
            good &= check.expect(got == ('ok', model.whatable(who)), 'is_whatable is not right after the history', initial=list(initial), history=list(history), who=who, got=repr(got), expected=model.whatable(who))
            check.expect(('what' in vars(o)) == bool((model.inst if who in model.inst else model.cls)[who]), 'a what is where it should not be', initial=list(initial), history=list(history), who=who)
            if who in model.inst:
                got = outcome(what2id, o)
                good &= check.expect(got == ('ok', model.id(who)), 'what2id is not right after the history', initial=list(initial), history=list(history), who=who, got=repr(got), expected=model.id(who))
                got = outcome(lambda: obj2what(o).id())
                good &= check.expect(got == ('ok', model.id(who)), 'obj2what is not right after the history', initial=list(initial), history=list(history), who=who, got=repr(got), expected=model.id(who))
                new = type(o)()
                m2 = Model(initial)
                m2.__dict__.update(cls=dict(model.cls), inst={'base': None, 'base2': None, 'sub': None}, flags=set(model.flags))
                got = outcome(what2id, new)
                good &= check.expect(got == ('ok', m2.id(who)), 'new instances are not right after the history', initial=list(initial), history=list(history), who=who, got=repr(got), expected=m2.id(who))
        check.seen(model.key())
        return model.key() if good else None
    return run


# --- whatamize_object by name

def check_by_name(check, item):
    """All combinations of what can be imported x what is there already x flags."""
    from whatami import What, is_whatable, whatamize_object
    where, existing, fail, force = item
    name = 'whatami_mc_c30'

    def make(parent=object, **members):
        return type('Target', (parent,), members)

    def old(self):
        return What('old', {})

    def new(self=None):
        return What('new', {})
    cls = {'none': lambda: make(), 'own': lambda: make(what=old), 'inherited': lambda: make(make(what=old)), 'attribute': lambda: make(what=None)}[existing]()
    parent = cls.__mro__[1]
    module = types.ModuleType(name)
    module.Target = cls
    sub = types.ModuleType(name + '.sub')
    sub.Target = cls
    sub.broken = 1
    if where != 'missing':
        sys.modules[name] = module
        module.__path__ = []
        if where == 'sub':
            sys.modules[name + '.sub'] = sub
    try:
        fqn = {'module': name + '.Target', 'sub': name + '.sub.Target', 'missing': name + '.Target', 'missing sub': name + '.nope.Target', 'object': None}[where]
        before = cls.__dict__.get('what', 'nothing')
        got = outcome(whatamize_object, fqn or cls, new, **{k: v for k, v in (('fail_on_import_error', fail), ('force', force)) if v is not None})
        check.count()
        check.seen(item)
        replay = dict(where=where, existing=existing, fail=fail, force=force)
        fail = True if fail is None else fail   # these are the documented defaults
        after = cls.__dict__.get('what', 'nothing')
        if where.startswith('missing'):
            check.expect(got == (('error', 'ImportError') if fail else ('ok', None)), 'import failures are not treated as requested', got=repr(got), **replay)
            check.expect(after is before, 'something changes when the import fails', **replay)
            return
        check.expect(got == ('ok', None), 'whatamize_object does not work', got=repr(got), **replay)
        if existing == 'none' or force:
            check.expect(after is new and is_whatable(cls()) and cls().what().id() == 'new()', 'the what is not assigned', **replay)
        else:
            check.expect(after is before, 'the existing what is replaced', **replay)
        check.expect(parent is object or parent.__dict__['what'] is old, 'other classes are modified', **replay)
    finally:
        for m in (name, name + '.sub'):
            sys.modules.pop(m, None)


def check_refused(check, _):
    """What cannot be whatamised is refused with an exception and left as it was."""
    from functools import partial
    from whatami import What, is_whatable, whatable

    def f(x, y=2):
        return x

    class Slots(object):
        __slots__ = ('a',)

    class Foreign(object):
        def what(self):
            return 5
    for o in (len, min, [].append, 'a'.join, 5, 'a', [1], {}, (), None.__class__, str, int, object(), Slots(), Foreign, Foreign(), What('a', {}), f.__get__(1)):
        for make in (whatable, whatable(), lambda x: whatable(x, excludes=())):
            check.count()
            had = hasattr(o, 'what')
            got = outcome(make, o)
            check.expect(got[0] == 'error', 'something that cannot be whatamised is not refused', obj=repr(o), got=repr(got))
            check.expect(hasattr(o, 'what') == had and not is_whatable(o), 'a refused object is modified', obj=repr(o))
    for o in (len, min):
        check.expect(outcome(whatable, o) == ('error', 'TypeError') == outcome(whatable, o, force_flag_as_whatami=True), 'builtins are not refused with a TypeError', obj=repr(o))
    # callables: a new one, or not
    for inplace in (False, True):
        for make in (lambda g: whatable(g, modify_func_inplace=inplace), whatable(modify_func_inplace=inplace)):
            for build, args, expected in ((lambda: (lambda x, y=2: (x, y)), (1,), (1, 2)), (lambda: partial(f, 7), (), 7)):
                for wf in (None, lambda g: What('wf', {'c': callable(g)})):
                    g = build()
                    if wf is None:
                        w = make(g)
                    else:
                        w = whatable(g, modify_func_inplace=inplace, whatfunc=wf)
                    check.count()
                    check.expect((w is g) == inplace and hasattr(g, 'what') == inplace and is_whatable(w) and w(*args) == expected, 'whatable callables are not right', inplace=inplace)
                    check.expect(wf is None or w.what().id() == 'wf(c=True)', 'the what function is not used', inplace=inplace)


def body(check):
    check.parallel(check_kinds, list(itertools.product(what_kinds(), ID_KINDS)))
    check.parallel(check_simple, [0])
    check.parallel(check_refused, [0])
    check.parallel(check_by_name, list(itertools.product(('module', 'sub', 'missing', 'missing sub', 'object'), ('none', 'own', 'inherited', 'attribute'), (True, False, None), (True, False, None))))
    ops = [(what, who, force) for what in ('whatable', 'whatamize') for who in ('Base', 'Sub', 'base', 'sub') for force in (False, True)]
    if check.thorough:
        ops += [('decorator', who, force) for who in ('Base', 'sub') for force in (False, True)]
    for initial in ((None, None), ('foreign1', None), ('legit1', None), (None, 'foreign2'), (None, 'legit2'), ('foreign1', 'legit2'), ('legit1', 'foreign2')):
        bfs(check, ops, history_runner(initial), 12 if check.thorough else 3, memory=1 if check.thorough else 0)
        if check.violations:
            break
    check.sample({'operations': repr(ops[:6])})


if __name__ == '__main__':
    main('C30', 'model_checking', 'all combinations of ways of having a what and an id x functions that identify; breadth first search of all histories of whatable and whatamize_object on a class, a subclass and their instances from 7 initial situations, to the fixpoint (quick: depth 3), every '
         'transition replayed on real classes and compared with a model; whatamize_object by name with all combinations', body, jit=False)
