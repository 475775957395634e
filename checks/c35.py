# coding=utf-8
"""C35: copies and pickles keep ids and behaviour, and are independent."""
import collections
import copy
import io
import itertools
import pickle

from mc.core import main
from mc.values import universe, build, ref, ref_positional, raw_obj, large, Holder, W, I, L, D, S, ST, NONE


def unpickle(protocol, times=1, kind=None):
    def transport(o):
        for _ in range(times):
            if kind == 'python':
                f = io.BytesIO()
                pickle._Pickler(f, protocol).dump(o)
                o = pickle._Unpickler(io.BytesIO(f.getvalue())).load()
            else:
                o = pickle.loads(pickle.dumps(o, protocol))
        return o
    return transport


DEEP = [('deepcopy', copy.deepcopy)] + [('pickle %d' % p, unpickle(p)) for p in range(2, pickle.HIGHEST_PROTOCOL + 1)] + [('python pickle 4', unpickle(4, kind='python'))]
SHALLOW = [('copy', copy.copy)]
OWN = [('What.copy', lambda w: w.copy()), ('What.copy deep', lambda w: w.copy(deep=True))]


def change(o, done=None):
    """Modifies everything that can be modified inside."""
    from whatami import What
    done = {} if done is None else done
    if id(o) in done:
        return
    done[id(o)] = o
    if isinstance(o, What):
        change(o.conf, done)
        o.name += '_changed'
        o.out_name = 'changed'
        o.non_id_keys.add('changed')
        o.non_id_keys |= set(list(o.conf)[:1])
    elif isinstance(o, dict):
        for k, v in list(o.items()):
            change(k, done)
            change(v, done)
        o['changed'] = 'changed'
    elif isinstance(o, (list, tuple, set, frozenset)):
        for v in list(o):
            change(v, done)
        if isinstance(o, list):
            o.append('changed')
        elif isinstance(o, set):
            o.add('changed')
    elif isinstance(o, Holder):
        change(o._what, done)


def snapshot(w):
    keys = w.keys(non_ids_too=True, collections_too=True)
    return w.id(), str(w), w.positional_id(non_ids_too=True), repr(keys), raw_obj(w), hash(w), w.id(maxlength=5), type(w).__name__, type(w.conf).__name__, type(w.non_id_keys).__name__


def describe(d):
    return ref(d), ref(d, True)


def same(check, w, expected, d, label):
    """Is this what is described?"""
    check.count()
    try:
        got = snapshot(w)
    except Exception as e:
        check.fail('what comes back cannot be used', how=label, what=ref(d, True), error=repr(e))
        return
    # sets can be iterated in other order
    check.expect(got[:4] == expected[:4] and got[5:] == expected[5:] and unordered(got[4]) == unordered(expected[4]), 'what comes back is not the same', how=label, what=ref(d, True), got=repr(got), expected=repr(expected))


def unordered(r):
    if isinstance(r, tuple) and len(r) == 2 and r[0] in ('set', 'frozenset'):
        return r[0], frozenset([unordered(x) for x in r[1]])
    return tuple([unordered(x) for x in r]) if isinstance(r, tuple) else r


def run_configurations(check, item):
    chunk, pairs = item
    for n, d in chunk:
        if d[0] != 'what':
            continue
        w, twin = build(d), build(d)
        before = snapshot(w)
        check.seen(ref(d, True))
        check.expect(before[:2] == describe(d), 'the id is not right', what=ref(d, True), got=before[0])
        equal = w == twin
        kept = []
        for label, transport in SHALLOW + OWN + DEEP:
            try:
                q = transport(w)
            except Exception as e:
                check.fail('a configuration cannot be copied or pickled', how=label, what=ref(d, True), error=repr(e))
                continue
            same(check, q, before, d, label)
            check.expect(q is not w, 'a copy is the original', how=label, what=ref(d, True))
            if equal:
                check.expect(q == w and w == q and not q != w and hash(q) == hash(w) and q in {w: 1} and len({q, w, twin}) == 1, 'what comes back is not equal to the original', how=label, what=ref(d, True))
            if (label, transport) in DEEP or label == 'What.copy deep':
                kept.append((label, q, transport))
        same(check, w, before, d, 'the original, after being copied')
        if n % pairs == 0:
            for (l1, q, _), (l2, second) in itertools.product(kept, SHALLOW + OWN + DEEP):
                same(check, second(q), before, d, l1 + ', ' + l2)
        # independence
        for i, (label, q, transport) in enumerate(kept):
            change(q)
            same(check, w, before, d, 'the original, after changing what came back from ' + label)
            for l2, other, _ in kept[i + 1:]:
                same(check, other, before, d, '%s, after changing what came back from %s' % (l2, label))
        kept = [(label, transport(w)) for label, _, transport in kept]
        change(w)
        for label, q in kept:
            same(check, q, before, d, label + ', after changing the original')


def check_sharing(check, _):
    """What is shared inside stays shared inside, and only there."""
    from whatami import What
    for label, transport in DEEP + OWN[1:]:
        shared, inner = [1], What('B', {'p': [2]}, ['q'], 'o')
        w = What('C', {'a': shared, 'b': (shared, inner), 'c': {'k': inner}, 'd': What('D', {'s': shared, 'i': inner})}, non_id_keys={'z'})
        q = transport(w)
        check.count()
        check.expect(q['a'] is q['b'][0] is q['d']['s'] and q['b'][1] is q['c']['k'] is q['d']['i'], 'what was shared is not shared', how=label)
        check.expect(q['a'] is not shared and q['c']['k'] is not inner and q.conf is not w.conf and q.non_id_keys is not w.non_id_keys and inner.conf is not q['b'][1].conf, 'the copy shares with the original', how=label)
        q['b'][1].set('p', 3)
        q['a'].append(5)
        check.expect(q.id() == "C(a=[1,5],b=([1,5],o=B(p=3)),c={'k':o=B(p=3)},d=D(i=o=B(p=3),s=[1,5]))" and w.id() == "C(a=[1],b=([1],o=B(p=[2])),c={'k':o=B(p=[2])},d=D(i=o=B(p=[2]),s=[1]))", 'wrong ids after a modification', how=label, got=q.id(), original=w.id())
        # several configurations at once
        a = What('A', {'x': 1}, ['y'])
        b = What('B', {'a': a})
        qs = transport([a, b, a, {a: b}]) if label != 'What.copy deep' else None
        if qs is not None:
            check.expect(qs[0] is qs[2] is qs[1]['a'] is list(qs[3])[0] and qs[3][a] is qs[1] and [x.id() for x in qs[:3]] == ['A(x=1)', 'B(a=A(x=1))', 'A(x=1)'], 'collections of configurations change', how=label)

        class Sub(What):
            pass
        if label.startswith('deep'):
            s = transport(Sub('S', {'a': 1}, ['b'], 'o'))
            check.expect(type(s) is Sub and s.id() == 'o=S(a=1)' and s.non_id_keys == {'b'}, 'instances of subclasses change', how=label)


def check_values(check, _):
    """Values of any other kind inside, as long as they can be transported themselves."""
    from whatami import What
    from mc import portable, special
    import numpy as np
    import pandas as pd
    values = [(label, f) for label, f, _ in special.specials()] + [(label, f) for label, f, _ in special.numpy_specials()]
    values += [(n, lambda n=n: getattr(portable, n)()) for n in ('Thing', 'SubThing', 'NonId', 'Slotted', 'Duck', 'Callable', 'Plain')]
    values += [(n, lambda n=n: getattr(portable, n)) for n in ('function', 'undecorated', 'partial', 'stamp', 'Plain')]
    values += [('array %s' % t, lambda t=t: np.arange(6).reshape(2, 3).astype(t)) for t in ('int32', 'float64', 'bool', 'complex', 'U3', 'O')]
    values += [('fortran array', lambda: np.asfortranarray(np.arange(6.).reshape(2, 3))), ('empty array', lambda: np.zeros((0, 3))), ('scalar array', lambda: np.array(3)),
               ('structured', lambda: np.array([(1, 'a')], dtype=[('x', int), ('y', 'U2')])), ('rng', lambda: np.random.RandomState(3)), ('dataframe', lambda: pd.DataFrame({'a': [1, 2], 'b': ['x', None], 'c': [.5, 1.5]})),
               ('dataframe index', lambda: pd.DataFrame({'a': [1, 2]}, index=['i', 'j'])), ('series', lambda: pd.Series([1., 2.], name='s')), ('array in list', lambda: [np.arange(3), {'k': np.ones(2)}])]
    moved = 0
    for label, f in values:
        for how, transport in SHALLOW + OWN + DEEP:
            check.count()
            w = What('C', {'x': f()}, non_id_keys=('n',))
            try:
                plain = transport(f()) if (how, transport) not in OWN else copy.deepcopy(f())
            except Exception:
                continue   # it cannot be transported
            del plain
            moved += 1
            i = w.id()
            try:
                q = transport(w)
                got = q.id()
            except Exception as e:
                check.fail('a configuration cannot be copied or pickled', how=how, value=label, error=repr(e))
                continue
            check.expect(got == i and q.non_id_keys == {'n'} and w.id() == i, 'the id changes', how=how, value=label, got=got, expected=i)
            check.seen((label, how))
    check.extra['moved_values'] = moved
    check.expect(moved > 600, 'hardly any value could be transported: the harness is wrong', moved=moved)


def check_whatables(check, _):
    """Whatable objects: copies describe themselves."""
    from whatami import whatable, what2id, is_whatable
    from mc import portable
    cases = [('Thing', "Thing(a=%s,b='x')"), ('SubThing', "SubThing(a=%s,b='x',c=2,double=[%s,%s])"), ('NonId', 'NonId(a=%s)'), ('Slotted', 'Slotted(a=%s)'), ('Duck', 'quack=duck(a=%s)'), ('Callable', 'Callable(a=%s)')]
    for (name, expected), nested in itertools.product(cases, (False, True)):
        for chain in [(t,) for t in SHALLOW + DEEP] + list(itertools.product(SHALLOW + DEEP, repeat=2)):
            how = ', '.join([l for l, _ in chain])
            check.count()
            o = getattr(portable, name)([1, getattr(portable, name)(2)] if nested else [1])
            inner = '[1,%s]' % expected.replace('%s', '2') if nested else '[1]'
            first = expected.replace('%s', inner)
            check.expect(o.what().id() == first, 'wrong id', kind=name, got=o.what().id(), expected=first)
            q = o
            for _, transport in chain:
                q = transport(q)
            check.expect(type(q) is type(o) and is_whatable(q) and q.what().id() == first == what2id(q) and str(q.what()) == str(o.what()) and q.what().non_id_keys == o.what().non_id_keys, 'the copy of a whatable has another id', kind=name, how=how, got=q.what().id(),
                         expected=first)
            q.a = 'q'
            check.expect(q.what().id() == expected.replace('%s', "'q'") and o.what().id() == first, 'copies of whatables are mixed up', kind=name, how=how, got=(q.what().id(), o.what().id()))
            o.a = 'o'
            check.expect(q.what().id() == expected.replace('%s', "'q'") and o.what().id() == expected.replace('%s', "'o'"), 'copies of whatables are mixed up', kind=name, how=how, got=(q.what().id(), o.what().id()))
            check.seen((name, how, nested))
            if isinstance(o, portable.Callable):
                check.expect(q(3) == (3, 'q') and q.__name__ == 'Callable', 'the copy of a function-like object does not work', how=how)
    for how, transport in SHALLOW + DEEP:
        for f in (portable.function, portable.undecorated, portable.Thing, portable.Duck):
            check.count()
            check.expect(transport(f) is f, 'functions and classes are pickled by name', how=how, function=repr(f))
        # an instance made whatable
        o = whatable(portable.Plain([1]))
        check.count()
        try:
            q = transport(o)
            got = (o.what().id(), q.what().id())
            q.a = 'q'
            got += (o.what().id(), q.what().id())
        except Exception as e:
            got = type(e).__name__
        key = 'instance-copy' if how == 'copy' else 'instance-pickle' if 'pickle' in how else None
        if got != ('Plain(a=[1])', 'Plain(a=[1])', 'Plain(a=[1])', "Plain(a='q')"):
            known = {'instance-copy': ('Plain(a=[1])', 'Plain(a=[1])', 'Plain(a=[1])', 'Plain(a=[1])'), 'instance-pickle': 'AttributeError'}
            check.fail('copies of an instance made whatable do not describe themselves', known_key=key if key and got == known[key] else None, how=how, got=repr(got))


# --- Registries and recorders: histories with a copy somewhere

RECORDER_OPS = ['add', 'add several', 'add again', 'defaults', 'remove defaults', 'postprocess', 'override', 'curried', 'padd', 'name']
REGISTRY_OPS = ['register', 'register what', 'register conflict', 'remove nick', 'remove what', 'reset', 'register thing']


def recorder_op(r, op, n, shared):
    from mc import portable
    if op == 'add':
        return r.add('id %d' % n, x=n)
    if op == 'add several':
        return r.add(['a%d' % n, 'b%d' % n], x=[[n], {'k': n}], y=None)
    if op == 'add again':
        return r.add(['c%d' % n, 'id 0', 'id 1'])
    if op == 'defaults':
        return r.add_column_defaults(d=[n], e='e')
    if op == 'remove defaults':
        return r.remove_column_defaults('d', 'nope')
    if op == 'postprocess':
        return r.add_record_postprocessors(portable.stamp)
    if op == 'override':
        return r.override_record_postprocessors(portable.tag)
    if op == 'curried':
        return r.add(z=n)(y=(n,))('cu%d' % n)
    if op == 'padd':
        return r.padd(z=n)('pa%d' % n)
    if op == 'name':
        r.name = 'named %d' % n


def registry_op(r, op, n, shared):
    from whatami import What
    from mc import portable
    if op == 'register':
        return r.register('a(x=%d)' % n, 'n%d' % n)
    if op == 'register what':
        return r.register(What('w', {'x': n}), 'w%d' % n).id()
    if op == 'register thing':
        return r.register(portable.Thing(n), 't%d' % n).what().id()
    if op == 'register conflict':
        return r.register('a(x=0)', 'w1')
    if op == 'remove nick':
        return r.remove('n0')
    if op == 'remove what':
        return r.remove(what=What('w', {'x': 1}))
    if op == 'reset':
        return r.reset()


CANDIDATES = [prefix + name + str(n) for prefix in ('', 'the ') for name in ('id ', 'a', 'b', 'c', 'cu', 'pa') for n in range(5)]


def state(r):
    from whatami.registry import Recorder
    if isinstance(r, Recorder):
        defaults = r.column_defaults
        return (type(r).__name__, r.name, len(r), [(an_id, sorted(r[an_id][0].items(), key=repr)) for an_id in CANDIDATES if r[an_id]], sorted(defaults.items(), key=repr),
                [f.__name__ for f in r.record_postprocessors()], sorted(map(repr, r.unique('e'))))
    return type(r).__name__, r.name, r.list(), [r.nick2id(n) for n in ('n0', 'w1', 't2')], [r.id2nick(i) for i in ('a(x=0)', 'w(x=1)')]


def do(r, op, n):
    f = recorder_op if op in RECORDER_OPS else registry_op
    try:
        got = f(r, op, n, None)
        return repr(list(got.items()) if isinstance(got, collections.OrderedDict) else got)
    except Exception as e:
        return 'failed: ' + str(e)


def fresh(kind):
    from whatami.registry import Recorder, WhatamiRegistry
    from mc import portable
    if kind == 'registry':
        return WhatamiRegistry('mine')
    if kind == 'recorder':
        return Recorder('mine', id_extractor=portable.extractor, record_postprocessors=[portable.tag], d=[0])
    return Recorder(id_column_name='key')


def run_histories(check, item):
    kind, hist = item
    base = fresh(kind)
    log = [do(base, op, n) for n, op in enumerate(hist)]
    final = state(base)
    for at in range(len(hist) + 1):
        prefix = fresh(kind)
        for n, op in enumerate(hist[:at]):
            do(prefix, op, n)
        middle = state(prefix)
        for label, transport in DEEP:
            check.count(2)
            q = transport(prefix)
            check.expect(state(q) == middle == state(prefix), 'what comes back is not the same', kind=kind, history=hist[:at], how=label, got=repr(state(q)), expected=repr(middle))
            got = [do(q, op, n) for n, op in list(enumerate(hist))[at:]]
            check.expect(got == log[at:] and state(q) == final, 'what comes back behaves in another way', kind=kind, history=hist, copied_at=at, how=label, got=repr((got, state(q)))[:900], expected=repr((log[at:], final))[:900])
            check.expect(state(prefix) == middle, 'what happens to the copy affects the original', kind=kind, history=hist, copied_at=at, how=label, got=repr(state(prefix)), expected=repr(middle))
        # and the other way round
        copies = [(label, transport(prefix)) for label, transport in DEEP]
        got = [do(prefix, op, n) for n, op in list(enumerate(hist))[at:]]
        check.expect(got == log[at:] and state(prefix) == final, 'the original behaves in another way after being copied', kind=kind, history=hist, copied_at=at)
        for label, q in copies:
            check.expect(state(q) == middle, 'what happens to the original affects the copy', kind=kind, history=hist, copied_at=at, how=label, got=repr(state(q)), expected=repr(middle))
    check.seen((kind, hist))


def check_curried(check, _):
    """Partially applied adds move with their recorder."""
    from whatami.registry import Recorder
    for label, transport in DEEP:
        for make in (lambda r: r.add(z=[3]), lambda r: r.padd(z=[3]), lambda r: r.add(y=1)(z=[3]), lambda r: r.padd(r.add(y=1), z=[3]), lambda r: r.padd(r.padd(y=1), z=[3]), lambda r: r.add):
            check.count()
            r = Recorder('r', d=4)
            r.add('old', z=0)
            q = transport(make(r))
            expected = make(r)(['new', 'newer'], v={'new': 1})
            got = q(['new', 'newer'], v={'new': 1})
            check.expect(got == expected and list(got) == list(expected), 'a partially applied add changes', how=label, got=repr(got), expected=repr(expected))
            check.expect(len(r) == 3, 'a copied add acts on the original recorder', how=label)
            both = transport((r, make(r)))
            both[1](['newest'])
            check.expect(list(both[0].to_df().index) == ['old', 'new', 'newer', 'newest'], 'the order of the records of a copied recorder changes', how=label, got=repr(both[0].to_df().index))
            check.expect(len(both[0]) == 4 and len(r) == 3, 'an add copied along with its recorder does not act on it', how=label)


def body(check):
    ds = list(universe(check.thorough)) + [W('C', [('x', d)]) for d in large()] + [W('C', [('a', I(1)), ('b', I(2))], non=('b',)), W('C', [('a', L(I(1))), ('b', D((S('k'), W('D', [('z', ST(I(1)))], non=('z', 'y'), out='p'))))], non=('b', 'nope'), out='o')]
    # nothing that is false is the same as nothing
    for name, kvs, out, non in itertools.product(('C', ''), ((), (('a', I(1)),), (('', I(0)), ('b', S('')), ('c', NONE), ('d', L())), (('a', D()),)), (None, '', 'o'), ((), ('',), ('a',), ('', 'b', 'c', 'd'))):
        d = W(name, kvs, out=out, non=non)
        ds += [d, W('N', [('x', d), ('y', L(d)), ('z', D((S(''), d)))])]
    ds = list(enumerate(ds))
    check.parallel(run_configurations, [(ds[i::128], 7 if check.thorough else 97) for i in range(128)])
    depth = 4 if check.thorough else 3
    items = [(kind, hist) for kind, ops in (('recorder', RECORDER_OPS), ('plain recorder', RECORDER_OPS), ('registry', REGISTRY_OPS)) for n in range(depth + 1) for hist in itertools.product(ops, repeat=n)]
    check.parallel(run_histories, items)
    check.extra['histories'] = len(items)
    check.parallel(lambda sub, f: f(sub, None), [check_sharing, check_values, check_whatables, check_curried])
    check.sample({'history': ['add', 'defaults', 'add several'], 'copied_at': 2, 'how': 'pickle 5'})


if __name__ == '__main__':
    main('C35', 'exploration', 'all the configurations of the bounded universe x all the ways of copying and pickling (and pairs of ways for a systematic subset), with everything changed afterwards on one side; '
         'all histories of operations on recorders and registries up to the bound, copied at every point in every way, against the same history without the copy; distinct ones are different configurations or histories', body)
