# coding=utf-8
"""C34: interruptions and other threads never spoil identification."""
import functools
import itertools
import os
import sys

from mc import sched
sched.install()

from mc.core import REPO, in_fork, main   # noqa: E402


# --- What is identified: always new objects, shared by the threads

def thing_class():
    class Thing(object):
        """Attributes of all kinds."""
        __slots__ = ('s', '__dict__')
        k = 'class'

        def __init__(self):
            self.s, self.d, self._hidden = [1, {'x': 2}], {'y', 'z'}, 3

        @property
        def p(self):
            return (self.s, 'p')

        @property
        def q(self):
            return None
    return Thing


def make_function():
    def function(x, n=5, *, ko='ko'):
        return x, n, ko
    return function


def whatable_class():
    from whatami import whatable

    class Whatable(object):
        def __init__(self, a):
            self.a, self.verbose = a, False
    return whatable(Whatable, non_id_keys=('verbose',))


class Objects(object):
    """Everything the operations use: only what is needed, if told."""
    NAMES = ('inner', 'what', 'other', 'thing', 'whatable', 'like', 'partial', 'curry', 'function', 'array', 'objects', 'rng', 'recorder', 'registry', 'ids')

    def __init__(self, names=None):
        import numpy as np
        import toolz
        from whatami import What, FunctionLike, whatable
        from whatami.registry import Recorder, WhatamiRegistry
        self.names = names = set(self.NAMES if names is None else names)
        self.plain = function = make_function()
        if names & {'inner', 'what'}:
            self.inner = What('inner', {'i': [1], 'verbose': True}, non_id_keys=['verbose'], out_name='o')
        if 'what' in names:
            self.what = What('outer', {'w': self.inner, 'l': [{'k': self.inner}], 's': {3, 'a'}, 'verbose': 1}, non_id_keys={'verbose'}, out_name='out')
        if 'other' in names:
            self.other = What('outer', {'w': 1})
        if 'thing' in names:
            self.thing = thing_class()()
        if 'whatable' in names:
            self.whatable = whatable_class()(1)
        if 'like' in names:
            class Like(FunctionLike):
                def __init__(self):
                    self.a, self.b_ = 1, 2
            self.like = Like()
        if 'partial' in names:
            self.partial = functools.partial(functools.partial(function, n=7), ko=2)
        if 'curry' in names:
            self.curry = toolz.curry(function, n=3)
        if 'function' in names:
            self.function = whatable(function)
        if 'array' in names:
            self.array = np.arange(4).reshape(2, 2)
        if 'objects' in names:
            self.objects = np.array([{'a', 'b'}, {'k': frozenset('xy')}], dtype=object)
        if 'rng' in names:
            self.rng = np.random.RandomState(3)
        if 'recorder' in names:
            self.recorder = Recorder()
            self.recorder.add(['r0'], c=[1])
        if 'registry' in names:
            self.registry = WhatamiRegistry()
            self.registry.register('a(b=1)', 'nick')
        self.ids = ['A(b=2)', "A(b=1,c='x')", 'A(b=3)']


def needs(ops):
    """The names of the objects used by some operations."""
    everything = operations(None)
    return set(n for op in ops for n in everything[op].__code__.co_names) & set(Objects.NAMES)


def operations(o):
    """name: what is done, giving something that can be compared."""
    import copy
    from whatami import What, id2dict, is_whatable, match_whatids, obj2what, sort_whats, what2id, whatadd, whatareyou
    from whatami.misc import callable2call, config_dict_for_object, fqn, required_args
    from whatami.plugins import WhatamiPluginManager as PM
    show = PM.build_string
    ops = {
        'id': lambda: o.what.id(), 'all': lambda: o.what.id(nonids_too=True), 'short': lambda: o.what.id(maxlength=5), 'positional': lambda: o.what.positional_id(), 'str': lambda: str(o.what), 'repr': lambda: repr(o.other),
        'inner': lambda: (o.inner.id(), o.inner.id(nonids_too=True)), 'flatten': lambda: repr(o.what.flatten(collections_too=True)), 'flatten all': lambda: repr(o.what.flatten(non_ids_too=True)), 'keys': lambda: repr(o.what.keys(recursive=False)),
        'get': lambda: repr((o.what['w', 'i', 0], o.what.get(('l', 0, 'k', 'verbose')), o.what.get('nope', 3))), 'equal': lambda: (o.what == o.what.copy(), o.what == o.other, hash(o.what) == hash(o.what.copy())),
        'copy': lambda: o.what.copy().id(), 'deepcopy': lambda: o.what.copy(deep=True).id(nonids_too=True), 'set': lambda: o.what.set('z', [1], copy=True).id(), 'whatadd': lambda: whatadd(o.what, 'z', [1, 'a']),
        'dict': lambda: repr(sorted(o.other.to_dict().items())), 'id2dict': lambda: repr(sorted(id2dict(o.ids[0]).items())),
        'thing': lambda: whatareyou(o.thing, add_class=True, non_id_keys=('k',)).id(), 'thing value': lambda: What('v', {'t': o.thing}).id(), 'config': lambda: repr(sorted(config_dict_for_object(o.thing)))[:200],
        'whatable': lambda: (o.whatable.what().id(), str(o.whatable.what())), 'whatable value': lambda: What('v', {'w': o.whatable, 'c': type(o.whatable)}).id()[:60], 'like': lambda: (o.like.what().id(), show(o.like)), 'obj2what': lambda: obj2what(o.whatable, non_id_keys=('a',)).id(),
        'function': lambda: (o.function.what().id(), o.function(1), show(o.plain), whatareyou(o.plain).id()), 'partial': lambda: (whatareyou(o.partial).id(), show(o.partial)), 'curry': lambda: (show(o.curry), what2id(o.curry)),
        'call': lambda: repr(callable2call(o.partial)), 'helpers': lambda: (required_args(o.plain), fqn(type(o.thing)), is_whatable(o.whatable), is_whatable(o.thing)), 'what2id': lambda: (what2id(o.what), what2id('x'), what2id(o.whatable)),
        'array': lambda: show(o.array), 'objects': lambda: show(o.objects), 'rng': lambda: show(o.rng), 'values': lambda: [show(v) for v in (1, 1.5, True, None, "a'b", int, (1,), [()], {'k': {1}}, set(), frozenset([2]), b'x')],
        'sort': lambda: repr([w.id() for w in sort_whats([What('A', {'b': b}) for b in (3, 1, 2)], 'b')[0]]), 'match': lambda: match_whatids(o.ids, 'A(b=3)'),
        'registry': lambda: (o.registry.nick_or_id('a(b=1)'), o.registry.list(), o.registry.id2nick('zz')), 'recorder': lambda: (repr(o.recorder.get('r0', 'nope')), len(o.recorder), repr(o.recorder.unique('c'))),
        'new recorder': lambda: new_recorder(), 'new class': lambda: whatable_class()(1).what().id(), 'plugins': lambda: [p.__name__ for p in PM.plugins()],
    }
    return ops


def new_recorder():
    from whatami.registry import Recorder
    r = Recorder(record_postprocessors=[lambda i, rec, r: dict(rec, n=len(r))], d=0)
    r.padd(c=[1, 2])(['a', 'b'])
    r.add(c='z')(ids=['c'], e={'c': 4})
    return repr([sorted(x.items()) for x in r.get('a', 'b', 'c')])


def snapshot(o):
    """The contents of the objects, without asking them."""
    from whatami import What
    from whatami.plugins import WhatamiPluginManager as PM

    def show(v):
        if isinstance(v, What):
            return 'What', v.name, v.out_name, tuple(sorted((k, show(x)) for k, x in v.conf.items())), repr(sorted(v.non_id_keys) if v.non_id_keys else None)
        if isinstance(v, dict):
            return 'dict', tuple(sorted([(show(k), show(x)) for k, x in v.items()], key=repr))
        if isinstance(v, (set, frozenset)):
            return type(v).__name__, tuple(sorted([show(x) for x in v], key=repr))
        if isinstance(v, (list, tuple)):
            return type(v).__name__, tuple(show(x) for x in v)
        return repr(v)
    parts = {
        'inner': lambda: show(o.inner), 'what': lambda: show(o.what), 'other': lambda: show(o.other), 'thing': lambda: (show(o.thing.__dict__), show(o.thing.s)), 'like': lambda: show(o.like.__dict__),
        'whatable': lambda: (o.whatable.a, o.whatable.verbose), 'array': lambda: o.array.tolist(), 'objects': lambda: show(o.objects.tolist()), 'rng': lambda: o.rng.get_state()[1].tolist() + list(o.rng.get_state()[2:]),
        'recorder': lambda: (show(o.recorder.get('r0')), len(o.recorder)), 'registry': lambda: o.registry.list(), 'partial': lambda: repr((o.partial.args, o.partial.keywords)), 'ids': lambda: tuple(o.ids),
    }
    return [(n, parts[n]()) for n in sorted(o.names) if n in parts] + [('plugins', repr(PM.plugins())), ('function', repr(sorted(o.plain.__dict__)))]


def dirs():
    return [os.path.join(os.path.abspath(REPO), 'whatami')]


def safe(f):
    def run():
        try:
            return 'ok', repr(f())
        except (KeyboardInterrupt, TimeoutError, sched.Deadlock):
            raise
        except Exception as e:
            return 'error', type(e).__name__
    return run


EXPECTED = {}


# --- Interruptions

class Interruption(KeyboardInterrupt):
    pass


class Failure(Exception):
    """Like those that users and libraries capture."""


def interrupted(f, n, exception):
    """Runs f, raising the exception at the nth line of whatami; (it reached that line, what came out)."""
    where = tuple(d + os.sep for d in dirs())
    count = [0]

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] == n:
                sys.settrace(None)
                raise exception()
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(where) else None
    sys.settrace(trace)
    out = None
    try:
        out = 'ok', f()
    except BaseException as e:
        out = 'raised', type(e).__name__
    finally:
        sys.settrace(None)
    return count[0] >= n, out


def count_lines(name):
    n, step = 0, 1 << 14
    while step:
        n, step = n + step if interrupted(operations(Objects(needs([name])))[name], n + step, Failure)[0] else n, step >> 1
    return n


def check_interruptions(check, item):
    name, exception, start, step = item
    needed = needs([name])
    n = start + 1
    while True:
        o = Objects(needed)
        before = snapshot(o)
        reached, _ = interrupted(operations(o)[name], n, exception)
        if not reached:
            break
        check.count()
        check.seen((name, exception, n))
        where = dict(interrupted=name, line=n, exception=exception.__name__)
        after = snapshot(o)
        if not check.expect(after == before, 'an interruption leaves something modified', before=repr([a for a, b in zip(before, after) if a != b])[:1000], after=repr([b for a, b in zip(before, after) if a != b])[:1000], **where):
            break
        ops = operations(o)
        others = sorted(ops)
        later = [name] + others[n % len(others):][:3 if check.thorough else 1]
        for other in later:
            got = safe(ops[other] if other == name else operations(Objects(needs([other])))[other])()
            if not check.expect(got == EXPECTED[other], 'an interruption spoils what comes later', later=other, got=repr(got), expected=repr(EXPECTED[other]), **where):
                return
        n += step


def check_first_interruptions(check, item):
    """The same, in processes that did nothing before."""
    name, start, step = item
    needed = needs([name])
    n = start + 1
    while check.nviolations < 3:
        def one():
            o = Objects(needed)
            reached, _ = interrupted(operations(o)[name], n, Interruption)
            return reached, [safe(operations(x)[name])() for x in (o, Objects(needed))]
        reached, got = in_fork(one)
        if not reached:
            break
        check.count()
        check.seen((name, n, 'first'))
        check.expect(got == [EXPECTED[name]] * 2, 'an interruption spoils what comes later', interrupted=name, line=n, exception='Interruption', when='first use', got=repr(got), expected=repr(EXPECTED[name]))
        n += step


# --- Interrupted modifications: everything or nothing

def plugin_a(v):
    return 'A' if v == 'a' else None


def plugin_b(v):
    return 'B' if v == 'b' else None


def modifications():
    """name: () -> (modify, observe)."""
    from whatami import What, whatable
    from whatami.plugins import WhatamiPluginManager as PM, string_plugin
    from whatami.registry import Recorder

    def recorder(modify, posts=()):
        def make():
            r = Recorder(record_postprocessors=list(posts), d=1)
            r.add(['x'], c=[1])
            return lambda: modify(r), lambda: (repr(r.to_df().to_dict()), len(r), repr(r.get('x', 'y', 'z')), repr(sorted(r.column_defaults.items())), [p.__name__ for p in r.record_postprocessors()])
        return make

    def plugins(modify):
        def make():
            PM.reset()
            PM.insert(plugin_b, before=string_plugin)
            return lambda: modify(), lambda: ([p.__name__ for p in PM.plugins()], PM.build_string(['a', 'b', 1]))
        return make

    def what(modify):
        def make():
            inner = What('i', {'a': 1})
            w = What('w', {'b': inner, 'c': [1]}, non_id_keys=('c',))
            return lambda: modify(w), lambda: (w.id(), w.id(nonids_too=True), inner.id(), repr(w.keys()))
        return make

    def instance(modify):
        def make():
            class C(object):
                def __init__(self):
                    self.a, self.b = 1, 2
            c, d = C(), C()

            def observe():
                return c.what().id() if hasattr(c, 'what') else None, hasattr(d, 'what') and d.what().id(), sorted(k for k in c.__dict__ if k != 'what')
            return lambda: modify(c), observe
        return make

    def post(an_id, record, r):
        return dict(record, post=len(r))
    return {
        'add one': recorder(lambda r: r.add('y', c=2)), 'add': recorder(lambda r: r.add(['y', 'z'], c=[2, 3], e={'z': 4})), 'add curried': recorder(lambda r: r.add(c=[2, 3])(e=5)(['y', 'z'])), 'padd': recorder(lambda r: r.padd(c='q')(['z', 'y'])),
        'add post': recorder(lambda r: r.add(['y', 'z'], record_postprocessors=[post, post]), posts=[post]), 'default': recorder(lambda r: r.add_column_defaults(e=4, d=5)), 'undefault': recorder(lambda r: r.remove_column_defaults('d')),
        'postprocessors': recorder(lambda r: r.add_record_postprocessors(post, post)), 'override': recorder(lambda r: r.override_record_postprocessors(post), posts=[post, post]),
        'insert': plugins(lambda: PM.insert(plugin_a, before=string_plugin)), 'insert default': plugins(lambda: PM.insert(plugin_a)), 'drop': plugins(lambda: PM.drop(plugin_b)), 'reset': plugins(lambda: PM.reset()),
        'set': what(lambda w: w.set('z', 1)), 'replace': what(lambda w: w.set('b', {'k': 1})), 'whatable': instance(lambda c: whatable(c, excludes=('a',))), 'whatable class': instance(lambda c: whatable(type(c))),
    }


def check_modification(check, item):
    name, exception = item
    make = modifications()[name]
    modify, observe = make()
    before = observe()
    modify()
    after = observe()
    assert before != after, (name, before)
    n = 1
    while True:
        modify, observe = make()
        reached, _ = interrupted(modify, n, exception)
        if not reached:
            break
        check.count()
        check.seen((name, exception, n, 'modification'))
        got = observe()
        where = dict(interrupted=name, line=n, exception=exception.__name__)
        if check.expect(got in (before, after), 'an interrupted modification is half done', before=repr(before), after=repr(after), got=repr(got), **where) and got == before:
            try:
                modify()
            except Exception as e:
                check.fail('an interrupted modification cannot be done later', error=repr(e), **where)
            else:
                check.expect(observe() == after, 'an interrupted modification cannot be done later', expected=repr(after), got=repr(observe()), **where)
        n += 1
    from whatami.plugins import WhatamiPluginManager as PM
    PM.reset()
    check.extra.setdefault('lines', {})['%s' % name] = n - 1


# --- Schedules

def run_schedule(check, names, switches, granularity):
    o = Objects(needs(names))
    before = snapshot(o)
    ops = operations(o)
    s = sched.Schedule([safe(ops[n]) for n in names], switches, dirs(), granularity)
    results = s.run()
    check.count()
    check.traces += 1
    if s.switched >= len(switches):
        check.states += 1
        check.seen((names, tuple(sorted(switches)), granularity))
    check.transitions += s.switched
    where = dict(operations=list(names), switches=repr(switches), granularity=granularity)
    good = check.expect(not s.deadlock, 'threads wait for each other forever', **where)
    for n, name in enumerate(names):
        good &= bool(check.expect(results[n] == EXPECTED[name], 'other threads spoil the result', which=n, got=repr(results[n]), expected=repr(EXPECTED[name]), **where))
    after = snapshot(o)
    good &= bool(check.expect(after == before, 'concurrent identification leaves something modified', before=repr([a for a, b in zip(before, after) if a != b])[:1000], after=repr([b for a, b in zip(before, after) if a != b])[:1000], **where))
    return s, good


def check_one_switch(check, item):
    """All schedules with one preemption."""
    names, granularity, start, step = item
    n, bad = start, 0
    while bad < 3:
        s, good = run_schedule(check, names, {n: 'next'}, granularity)
        bad += not good
        if s.switched < 1:
            break
        n += step


def check_two_switches(check, item):
    """All schedules with two preemptions."""
    names, granularity, start, step = item
    n, bad = start, 0
    while bad < 3:
        m = n + 1
        while bad < 3:
            s, good = run_schedule(check, names, {n: 'next', m: 'next'}, granularity)
            bad += not good
            if s.switched < 2:
                break
            m += 1
        if s.switched < 1:
            break
        n += step


def check_first_use(check, item):
    """The same, in processes that did nothing before."""
    names, start, step = item
    n = start
    while True:
        def one():
            sub = check.fresh()
            s, _ = run_schedule(sub, names, {n: 'next'}, 'line' if check.thorough else 'call')
            return sub.dump(), s.switched
        dump, switched = in_fork(one)
        check.merge(dump)
        if switched < 1 or check.nviolations > 3:
            break
        n += step


def body(check):
    names = sorted(operations(Objects()))
    for name in names:
        EXPECTED[name] = in_fork(lambda: safe(operations(Objects())[name])())
        again = in_fork(lambda: [safe(f)() for f in [operations(Objects())[name]] * 2])
        check.expect(EXPECTED[name][0] == 'ok' and again == [EXPECTED[name]] * 2, 'operations are not deterministic', operation=name, got=repr((EXPECTED[name], again)))
    assert EXPECTED['inner'] == ('ok', "('o=inner(i=[1])', 'o=inner(i=[1],verbose=True)')"), EXPECTED['inner']
    import time
    everything = check.thorough
    pairs = [(n, n) for n in names]
    t = time.time()

    def phase(name):
        if os.environ.get('VERIF_PHASES'):
            print(name, round(time.time() - t, 1), flush=True)
    check.parallel(check_first_use, [(p, k, 2 if everything else 8) for p in pairs for k in range(2)])
    check.parallel(check_first_interruptions, [(n, k, 2 if everything else 40) for n in names for k in ((0, 1) if everything else (0, 20))])
    phase('first use')
    exceptions = (Interruption, Failure)
    check.parallel(check_interruptions, [(n, e, k, 4) for n in names for e in (exceptions if everything else exceptions[:1]) for k in range(4)])
    phase('interruptions')
    check.parallel(check_modification, [(n, e) for n in sorted(modifications()) for e in exceptions])
    phase('modifications')
    lines = {n: in_fork(lambda: count_lines(n)) for n in names}
    check.extra['lines of each operation'] = lines
    shifted = list(zip(names, names[7:] + names[:7]))
    todo = [(p, 'line' if everything or lines[p[0]] < 450 else 'call') for p in pairs] + [(p, 'call') for p in shifted]
    if everything:
        todo += [(p, 'line') for p in shifted + [(b, a) for a, b in shifted]] + [(p, 'call') for p in itertools.product(names, names) if p not in shifted]
    check.parallel(check_one_switch, [(p, g, k, 4) for p, g in todo for k in range(4)])
    phase('one switch')
    few = ['copy', 'equal', 'inner', 'keys'] if everything else ['equal', 'keys']
    check.parallel(check_two_switches, [(p, 'call', k, 4) for p in itertools.product(few, repeat=2) for k in range(4)])
    phase('two switches')
    check.sample({'schedule': ['id preempted at each line by whatable']})


if __name__ == '__main__':
    main('C34', 'model_checking', 'all executions of each operation interrupted at each line of whatami; all interrupted modifications at each line; all schedules of pairs of operations on the same objects with one preemption at any line (quick: '
         'some pairs), and with two for short operations, run under a controlled scheduler on the real code; each result is compared with that of the operation alone in a new process, and the objects with what they were before', body)
