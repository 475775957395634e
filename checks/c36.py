# coding=utf-8
"""C36: making classes and instances whatable composes with inheritance and is unobtrusive."""
from mc.core import main, bfs

# The world: A <- B <- C(B, M), a mixin M, and S, with slots; an instance of each of A, B, C and S, made before anything happens.
CLASSES = ('A', 'M', 'B', 'C', 'S')
INSTANCES = ('a', 'b', 'c', 's')
CLASS_OF = {'a': 'A', 'b': 'B', 'c': 'C', 's': 'S'}
MRO = {'A': ('A',), 'M': ('M',), 'B': ('B', 'A'), 'C': ('C', 'B', 'A', 'M'), 'S': ('S',), 'D': ('D', 'C', 'B', 'A', 'M')}

OPTIONS = ({}, {'non_id_keys': ('x',)}, {'excludes': ['y', 'what'], 'add_properties': False, 'exclude_prefix': None}, {'add_class': True, 'add_dict': False})

UNUSABLE = ('bad', 'number')


class World(object):

    def __init__(self):
        class A(object):
            """A doc."""
            k = 'ka'

            def __init__(self, x=1):
                self.x = x
                self.y = 2
                self._h = 3

            @property
            def p(self):
                return ('p', self.x)

            def method(self, z):
                return (type(self).__name__, self.x, z)

        class M(object):
            m = 'km'

            @property
            def q(self):
                return 'q'

        class B(A):
            k = 'kb'

            @classmethod
            def make(cls):
                return cls(7)

        class C(B, M):
            def method(self, z):
                return ('C',) + super(C, self).method(z)

        class S(object):
            __slots__ = ('x', '_h')

            def __init__(self, x=1):
                self.x = x

        self.things = {'A': A, 'M': M, 'B': B, 'C': C, 'S': S, 'a': A(), 'b': B(), 'c': C('cx'), 's': S()}
        self.own = {t: None for t in self.things}   # what each thing has: [kind, options, flagged as ours], or None
        self.before = self.snapshot()

    def snapshot(self):
        out = {}
        for t in CLASSES:
            cls = self.things[t]
            out[t] = {k: v for k, v in vars(cls).items() if k not in ('what', '__dict__', '__weakref__')}, cls.__name__, cls.__module__, cls.__doc__, cls.__mro__, cls.__bases__, type(cls)
        for t in INSTANCES:
            o = self.things[t]
            out[t] = {k: v for k, v in getattr(o, '__dict__', {'x': getattr(o, 'x', None)}).items() if k != 'what'}, type(o)
        return out

    # --- The model

    def resolve(self, t):
        if t in INSTANCES:
            return self.own[t] or self.resolve(CLASS_OF[t])
        for c in MRO[t]:
            if self.own.get(c):
                return self.own[c]

    def usable(self, t):
        what = self.resolve(t)
        if what is None:
            return False
        return what[2] if t not in INSTANCES else what[0] not in UNUSABLE

    def expected(self, cls, o, what):
        """(name, conf, non ids) that the instance o of the class named cls must give."""
        kind, option, _ = what
        if kind == 'user':
            return 'user', {'x': o.x, 'n': cls}, set()
        if kind == 'func':
            return 'func', {'n': cls}, set()
        if kind == 'classy':
            return 'classy', {'n': cls}, set()
        if kind == 'static':
            return 'static', {}, set()
        if kind == 'given':
            return 'given', {}, set()
        if cls == 'S':
            conf = {'x': o.x} if option != 3 else {'x': o.x}
            return cls, conf, set(OPTIONS[option].get('non_id_keys', ()))
        conf = {'x': o.x, 'y': 2} if option != 3 else {}
        if option == 2:
            conf = {'x': o.x, '_h': 3}
        else:
            if 'A' in MRO[cls]:
                conf['p'] = ('p', o.x)
            if 'M' in MRO[cls]:
                conf['q'] = 'q'
        if option == 3:
            conf.update(self.class_attributes[cls])
        return cls, conf, set(OPTIONS[option].get('non_id_keys', ()))

    def state(self):
        return repr(sorted((t, w and tuple(w)) for t, w in self.own.items()))


def ops_for(targets, most=True):
    ops = []
    for t in targets:
        ops += [('whatable', t, n) for n in ((0, 1, 2) if most else (0, 1))]
        ops += [('func', t), ('force', t), ('give', t), ('replace', t), ('delete', t)]
        if t not in INSTANCES:
            ops += [('user', t), ('bad', t)] + ([('classy', t), ('static', t), ('number', t)] if most else [])
    return ops


def apply(check, w, op, hist):
    from whatami import What, whatable, whatamize_object
    kind, t = op[:2]
    x = w.things[t]
    had, ours = w.resolve(t) is not None, w.usable(t)
    slots = t == 's'   # nothing can be set in it
    if kind in ('whatable', 'func', 'force'):
        kw = dict(OPTIONS[op[2]]) if kind == 'whatable' else {}
        new = ['auto', op[2] if kind == 'whatable' else 0, True]
        if kind == 'func':
            kw['whatfunc'] = lambda o: What('func', {'n': type(o).__name__})
            new = ['func', 0, True]
        if kind == 'force':
            kw['force_flag_as_whatami'] = True
        if had and not ours and kind == 'force' and w.resolve(t)[0] == 'number':
            exp = 'refused'   # cannot be flagged, whatever the exception
        elif had and not ours and kind == 'force':
            exp = 'same'
            w.resolve(t)[2] = True
        elif had and not ours or slots:
            exp = 'refused'
        else:
            exp = 'same'
            w.own[t] = new
        try:
            r = whatable(**kw)(x) if len(hist) % 2 else whatable(x, **kw)
            got = 'same' if r is x else 'another'
        except Exception as e:
            got = 'refused' if type(e) is Exception or w.resolve(t) and w.resolve(t)[0] == 'number' else 'fails with %s' % type(e).__name__
        check.expect(got == exp, 'whatable does not do what it must', history=hist, got=got, expected=exp)
    elif kind in ('give', 'replace'):
        f = (lambda: What('given', {})) if t in INSTANCES else (lambda o: What('given', {}))
        if kind == 'replace' or not had:
            exp = 'refused' if slots else 'ok'
            if not slots:
                w.own[t] = ['given', 0, False]
        else:
            exp = 'ok'
        try:
            whatamize_object(x, f, force=kind == 'replace')
            got = 'ok'
        except AttributeError:
            got = 'refused'
        check.expect(got == exp, 'whatamize_object does not do what it must', history=hist, got=got, expected=exp)
    elif kind == 'delete':
        if w.own[t]:
            del x.what
            w.own[t] = None
    elif kind == 'user':
        x.what = lambda self: What('user', {'x': self.x, 'n': type(self).__name__})
        w.own[t] = ['user', 0, False]
    elif kind == 'bad':
        x.what = lambda self: 5
        w.own[t] = ['bad', 0, False]
    elif kind == 'classy':   # the only one that can be asked to the class
        x.what = classmethod(lambda cls: What('classy', {'n': cls.__name__}))
        w.own[t] = ['classy', 0, True]
    elif kind == 'static':
        x.what = staticmethod(lambda: What('static', {}))
        w.own[t] = ['static', 0, False]
    elif kind == 'number':
        x.what = 5
        w.own[t] = ['number', 0, False]


def one(check, w, t, o, cls, what, hist, when):
    from whatami import What, is_whatable, what2id, obj2what
    usable = what is not None and what[0] not in UNUSABLE
    check.expect(is_whatable(o) is usable, 'is_whatable does not tell the truth', history=hist, who=t, when=when, got=is_whatable(o), expected=usable)
    if what is None:
        check.expect(not hasattr(o, 'what'), 'something got a what() on its own', history=hist, who=t, when=when)
        return
    if usable:
        exp = w.expected(cls, o, what)
        got = o.what()
        got = (got.name, got.conf, set(got.non_id_keys)) if isinstance(got, What) else repr(got)
        check.expect(got == exp, 'what() does not come from the closest whatamised thing, with its options', history=hist, who=t, when=when, got=repr(got), expected=repr(exp))
        text = What(*exp).id()
        ids = [o.what().id(), what2id(o), obj2what(o).id(), What('w', {'v': o}).id()[4:-1]]
        check.expect(ids == [text] * 4, 'the ids do not come from the closest whatamised thing', history=hist, who=t, when=when, got=repr(ids), expected=text)
    else:
        check.expect((o.what() if what[0] == 'bad' else o.what) == 5, 'a what() of others was replaced', history=hist, who=t, when=when)


def verify(check, w, hist):
    from whatami import is_whatable
    after = w.snapshot()
    for t, before in w.before.items():
        ok = after[t][1:] == before[1:] and set(after[t][0]) == set(before[0]) and all(after[t][0][k] is v for k, v in before[0].items())
        check.expect(ok, 'something else than what() changed', history=hist, who=t, got=repr(after[t])[:500], expected=repr(before)[:500])
    for t in CLASSES:
        own = w.own[t]
        check.expect(('what' in vars(w.things[t])) is (own is not None), 'what() is in other class', history=hist, who=t)
        exp = w.usable(t)
        got = is_whatable(w.things[t])
        check.expect(got is exp, 'is_whatable does not tell the truth', history=hist, who=t, got=got, expected=exp)
    for t in INSTANCES:
        one(check, w, t, w.things[t], CLASS_OF[t], w.resolve(t), hist, 'made before')
        cls = CLASS_OF[t]
        new = w.things[cls](x='new')
        check.expect(type(new) is w.things[cls] and getattr(new, '__dict__', {'x': 'new', 'y': 2, '_h': 3}) == {'x': 'new', 'y': 2, '_h': 3}, 'instances are made differently', history=hist, who=cls)
        one(check, w, cls + '()', new, cls, w.resolve(cls), hist, 'made later')
    D = type('D', (w.things['C'],), {})
    one(check, w, 'D()', D('dx'), 'D', w.resolve('C'), hist, 'class defined later')
    c, b = w.things['c'], w.things['B'].make()
    check.expect(c.method(1) == ('C', 'C', 'cx', 1) and type(b) is w.things['B'] and b.x == 7 and w.things['B'].k == 'kb', 'methods behave differently', history=hist)


def run(check, hist):
    w = World()
    w.class_attributes = {}
    for op in hist[:-1]:
        apply(check, w, op, hist)
    if hist:
        apply(check, w, hist[-1], hist)
    check.count()
    check.seen(hist)
    verify(check, w, hist)
    return w.state()


def body(check):
    everything = ops_for(CLASSES + INSTANCES)
    bfs(check, everything, run, 3 if check.thorough else 2)
    for targets in (('A', 'B', 'b'), ('B', 'M', 'c'), ('A', 'C', 'c'), ('A', 'a', 'b'), ('S', 's')):
        bfs(check, ops_for(targets, check.thorough), run, 4 if check.thorough else 3)
        if check.thorough:   # without merging histories that should be equivalent
            bfs(check, ops_for(targets), run, 3, memory=2)
    check.sample({'history': [['whatable', 'A', 1], ['user', 'B'], ['whatable', 'B', 0], ['force', 'b'], ['whatable', 'B', 2], ['delete', 'A']]})


if __name__ == '__main__':
    main('C36', 'model_checking', 'all histories of making whatable (with options, with a function, forcing, with whatamize_object), defining and deleting what() over a hierarchy of classes with a mixin, slots and instances, up to the bound, '
         'each replayed on new real classes and compared with the model of inheritance after every history; distinct ones are different histories', body, jit=False)
