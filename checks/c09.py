# coding=utf-8
"""C09: asking what() never has side effects."""
import copy

from mc.core import main, bfs

# The world: whatable things, and what was last returned by each of them.
#  a1, a2: instances of a decorated class; b1: whatamised instance, b2: another instance of its class (plain)
#  s1: instance of a decorated class with slots and properties
#  k1: instance of a decorated class with class attributes; h1: FunctionLike
#  f, p: whatable function and partial (from originals that must stay intact)


class World(object):

    def __init__(self):
        from functools import partial
        from whatami import whatable, What
        from whatami.whatutils import FunctionLike

        @whatable(non_id_keys=iter(['n']))
        class A(object):
            def __init__(self, x):
                self.x = x
                self.n = 1
                self._hidden = 0

        class B(object):
            cattr = 3

            def __init__(self, x):
                self.x = x

        @whatable
        class S(object):
            __slots__ = ('x', 'y')

            def __init__(self, x):
                self.x = x

            @property
            def prop(self):
                return (self.x, 'prop')

        @whatable(add_class=True)
        class K(object):
            cattr = 'kc'

            def __init__(self, x):
                self.x = x

        class H(FunctionLike):
            def __init__(self, x):
                self.x = x
                self._hidden = self.hidden_ = 0

        def f(a, x='fx', y=2):
            return (a, x, y)

        def g(a, x=(1, 2), y=2):
            return (a, x, y)

        self.B = B
        self.original_f, self.original_p = f, partial(g, 'ga', y=7)
        self.f_state = self.f_snapshot()
        self.objs = {
            'a1': A('a1x'), 'a2': A(['a2x']),
            'b1': whatable(B('b1x'), add_class=False), 'b2': B('b2x'),
            's1': S('s1x'), 'k1': K('k1x'), 'h1': H(['h1x']),
            'f': whatable(f, non_id_keys=(k for k in 'y')), 'p': whatable(self.original_p),
        }
        self.model = {
            'a1': {'x': 'a1x', 'n': 1}, 'a2': {'x': ['a2x'], 'n': 1},
            'b1': {'x': 'b1x'}, 's1': {'x': 's1x', 'prop': ('s1x', 'prop')},
            'k1': {'x': 'k1x', 'cattr': 'kc'}, 'h1': {'x': ['h1x']},
            'f': {'x': 'fx', 'y': 2}, 'p': {'a': 'ga', 'x': (1, 2), 'y': 7},
        }
        self.names = {'a1': 'A', 'a2': 'A', 'b1': 'B', 's1': 'S', 'k1': 'K', 'h1': 'H', 'f': 'f', 'p': 'g'}
        self.non = {'a1': {'n'}, 'a2': {'n'}, 'b1': set(), 's1': set(), 'k1': set(), 'h1': set(), 'f': {'y'}, 'p': set()}
        # configurations that were returned and what they must still contain
        self.returned = []   # [who, What, model name, model conf, model non ids, model out]

    def f_snapshot(self):
        f, p = self.original_f, self.original_p
        return (sorted(vars(f)), f.__defaults__, f.__name__, p.args, sorted(p.keywords.items()), sorted(vars(p)), hasattr(f, 'what'), hasattr(p, 'what'))

    def last(self, who):
        for r in reversed(self.returned):
            if r[0] == who:
                return r

    def state(self):
        lasts = {r[0]: (r[2], repr(sorted(r[3].items())), tuple(sorted(r[4])), r[5]) for r in self.returned}
        return repr((sorted((k, sorted(v.items())) for k, v in self.model.items()), sorted(lasts.items()), sorted(self.non.items()),
                     'what' in vars(self.objs['b2'])))


WHO = ('a1', 'a2', 'b1', 's1', 'k1', 'h1', 'f', 'p')


def ops_for(thorough):
    ops = []
    for who in WHO:
        ops.append(('ask', who))
        for how in ('set', 'del', 'clear', 'rename', 'non', 'replace') if thorough else ('set', 'clear', 'non', 'rename'):
            ops.append(('config', how, who))
    for who in ('a1', 'a2', 'b1', 's1', 'k1', 'h1'):
        ops.append(('attr', who))
    ops += [('newattr', 'a1'), ('delattr', 'b1'), ('slot', 's1'), ('class', 'k1'), ('mutate', 'a2'), ('again', 'b1'), ('instance', 'a1'), ('sibling', 'b2'), ('call', 'f'), ('copy', 'a1')]
    return ops


def apply(check, w, op, hist):
    """One step on the real world and on the model."""
    from whatami import whatable, What
    kind, who = op[0], op[-1]
    o = w.objs[who]
    if kind == 'ask':
        c = o.what()
        check.expect(isinstance(c, What) and all(c is not r[1] and c.conf is not r[1].conf and c.non_id_keys is not r[1].non_id_keys for r in w.returned),
                     'what() does not give a fresh configuration', history=hist)
        w.returned.append([who, c, w.names[who], dict(w.model[who]), set(w.non[who]), None])
    elif kind == 'config':
        r = w.last(who)
        if r is None:
            return
        _, c, name, conf, non, out = r
        how = op[1]
        if how == 'set':
            c.conf['x'] = 'changed'
            c.conf['new'] = 1
            conf.update(x='changed', new=1)
        elif how == 'del':
            c.conf.pop('x', None)
            conf.pop('x', None)
        elif how == 'clear':
            c.conf.clear()
            conf.clear()
        elif how == 'rename':
            c.name, c.out_name = 'renamed', 'out'
            r[2], r[5] = 'renamed', 'out'
        elif how == 'non':
            c.non_id_keys.add('x')
            non.add('x')
        elif how == 'replace':
            c.conf = {'z': 1}
            r[3] = {'z': 1}
    elif kind == 'attr':
        new = 'v%d' % len([h for h in hist if h == op])
        o.x = new
        w.model[who]['x'] = new
        if who == 's1':
            w.model[who]['prop'] = (new, 'prop')
    elif kind == 'newattr':
        o.z = 'z'
        o._z = 'hidden'
        w.model[who]['z'] = 'z'
    elif kind == 'delattr':
        if hasattr(o, 'x'):
            del o.x
        w.model[who].pop('x', None)
    elif kind == 'class':
        type(o).cattr = w.model[who]['cattr'] = 'kc%d' % len([h for h in hist if h == op])
    elif kind == 'slot':
        o.y = 'sy'
        w.model[who]['y'] = 'sy'
    elif kind == 'mutate':
        if isinstance(o.x, list):
            shared = o.x
            o.x = shared + ['m']
            w.model[who]['x'] = shared + ['m']
    elif kind == 'again':
        whatable(o, non_id_keys=('x',), exclude_prefix='zz')
        w.non[who] = {'x'}
    elif kind == 'instance':  # whatamise an instance of a whatable class, with other options
        whatable(o, non_id_keys=iter(['n', 'x']))
        w.non[who] = {'n', 'x'}
    elif kind == 'sibling':
        o.x = 'b2changed'
        w.B.cattr = 4
    elif kind == 'call':
        check.expect(o('q') == ('q', 'fx', 2) and o('q', y=3) == ('q', 'fx', 3), 'the whatable function does not behave like the original', history=hist)
    elif kind == 'copy':
        c2 = copy.deepcopy(w.objs['a2'])
        c2.x = 'other'
        c2.n = 3
        c2.what().conf.clear()


def verify(check, w, hist):
    for who, c, name, conf, non, out in w.returned:
        if not (c.name == name and c.conf == conf and set(c.non_id_keys) - {'what'} == non and c.out_name == out):
            check.fail('a returned configuration changed by itself', history=hist, who=who, got=repr(c), expected=repr((name, conf, non, out)))
    for who in ('a1', 'a2', 'b1', 's1', 'k1', 'h1'):
        o = w.objs[who]
        got = {k: getattr(o, k) for k in ('x', 'n', 'y', 'z', 'prop') + (('cattr',) if who == 'k1' else ()) if hasattr(o, k)}
        check.expect(set(getattr(o, '__dict__', ())) <= {'x', 'n', 'z', '_z', '_hidden', 'hidden_', 'what'}, 'the object has new attributes', history=hist, who=who, got=repr(sorted(vars(o))) if hasattr(o, '__dict__') else '')
        check.expect(got == w.model[who], 'the object was modified', history=hist, who=who, got=repr(got), expected=repr(w.model[who]))
    check.expect(w.f_snapshot() == w.f_state, 'the original function was modified', history=hist, got=repr(w.f_snapshot()))
    check.expect(not hasattr(w.objs['b2'], 'what') and not hasattr(w.B, 'what'), 'whatamising an instance affects its class', history=hist)


def run(check, hist):
    w = World()
    for op in hist:
        apply(check, w, op, hist)
    check.count()
    check.seen(hist)
    verify(check, w, hist)
    key = w.state()
    # whatever happened, asking now (twice) gives the current state, and only that
    for who in WHO:
        for _ in range(2):
            c = w.objs[who].what()
            got = (c.name, c.conf, set(c.non_id_keys) - {'what'}, c.out_name)
            exp = (w.names[who], w.model[who], w.non[who], None)
            if got != exp:
                check.fail('what() does not reflect the current state of its object', history=hist, who=who, got=repr(got), expected=repr(exp))
            c.conf.clear()
            c.non_id_keys.clear()
            c.name = 'x'
    verify(check, w, hist)
    return key


def body(check):
    ops = ops_for(check.thorough)
    # two ways: all histories up to some depth with a small memory, and per object deeper (objects are independent)
    bfs(check, ops, run, 3 if check.thorough else 2, memory=3)
    for who in WHO:
        mine = [op for op in ops_for(True) if op[-1] == who or op in (('sibling', 'b2'),) and who == 'b1']
        bfs(check, mine, run, 5 if check.thorough else 4, memory=2 if check.thorough else 1)
    pair = [op for op in ops if op[-1] in ('a1', 'a2')]
    bfs(check, pair, run, 4 if check.thorough else 3, memory=1)
    check.sample({'history': [['ask', 'a1'], ['config', 'clear', 'a1'], ['attr', 'a1'], ['ask', 'a1']]})


if __name__ == '__main__':
    main('C09', 'model_checking', 'all histories of operations (what(), changes to what it returned, changes to the objects, whatamising again) up to the bound, each '
         'replayed on new real objects and compared with the model after every history; distinct ones are different histories', body, jit=False)
