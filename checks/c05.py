# coding=utf-8
"""C05: non-id parameters never influence ids."""
import itertools

from mc.core import main
from mc.flat import flatten
from mc.values import build, ref, ref_positional, canon, canon_obj, W, S, I, T, L, D, ST, NONE

INNER = W('f', [('p', I(1)), ('q', S('v'))], non=['q'])
INNER2 = W('f', [('p', I(1)), ('q', S('w'))], non=['q'])  # the same id
INNER3 = W('f', [('p', I(2)), ('q', S('v'))], non=['q'], out='o')
EMPTY = W('f', [])
VALUES = [I(1), S('x'), NONE, T(INNER, I(3)), INNER, INNER2, INNER3, EMPTY]
KEYS = ('a', 'b', '_c')
SUBSETS = [tuple(s) for r in range(5) for s in itertools.combinations(KEYS + ('zz',), r)]


def assignments(values):
    for vs in itertools.product([None] + values, repeat=len(KEYS)):
        yield tuple([(k, v) for k, v in zip(KEYS, vs) if v is not None])


def projection(d):
    return canon(d)


NESTINGS = [
    ('top', lambda d: d),
    ('parameter', lambda d: W('C', [('x', d), ('a', I(0))])),
    ('parameter, clashing non ids', lambda d: W('C', [('x', d), ('a', I(0))], non=['a', 'q'])),
    ('list', lambda d: W('C', [('x', L(d, d))], out='o')),
    ('dict', lambda d: W('C', [('x', D((S('k'), T(NONE, d))))])),
    ('two levels', lambda d: W('C', [('x', W('D', [('y', d), ('b', I(1))], non=['b']))])),
    ('whatable', lambda d: W('C', [('x', ('wobj', d))])),
    ('whatable in tuple in whatable', lambda d: W('C', [('x', ('wobj', W('D', [('y', T(('wobj', d)))])))])),
]


def chunk(check, item):
    nesting, wrap, non, values = item
    groups = {}
    for conf in assignments(values):
        d = wrap(W('w', conf, non=non))
        w = build(d)
        check.count()
        ids = (w.id(), w.positional_id())
        exp = (ref(d), ref_positional(d))
        check.expect(ids == exp, 'the id is not made of just the id parameters', config=repr(d), got=ids, expected=exp)
        check.expect(str(w) == ref(d, True) and w.id(nonids_too=True) == ref(d, True),
                     'asking for non ids does not show them', config=repr(d), got=str(w), expected=ref(d, True))
        check.expect(w.positional_id(non_ids_too=True) == ref_positional(d, True), 'asking for non ids in the positional id does not show them', config=repr(d),
                     got=w.positional_id(non_ids_too=True), expected=ref_positional(d, True))
        # same id if and only if same id parameters
        p = projection(d)
        first = groups.setdefault(('p', p), (ids[0], d))
        check.expect(first[0] == ids[0], 'a non-id parameter changes the id', config1=repr(first[1]), config2=repr(d), id1=first[0], id2=ids[0])
        first = groups.setdefault(('i', ids[0]), (p, d))
        check.expect(first[0] == p, 'an id parameter does not change the id', config1=repr(first[1]), config2=repr(d), whatid=ids[0])
        check.seen((nesting, non, p))
        for nit, ct in itertools.product((False, True), repeat=2):
            for rec in (True, False):
                keys, vals = w.flatten(non_ids_too=nit, collections_too=ct, recursive=rec)
                if nesting.startswith('whatable'):
                    continue
                fl = flatten(d, nit, ct, rec)
                check.expect(keys == [k for k, _ in fl] and w.keys(nit, ct, rec) == keys,
                             'the keys are not those asked for', config=repr(d), non_ids_too=nit, collections_too=ct, recursive=rec, got=keys)
                check.expect([canon_obj(v) for v in vals] == [canon(v) for _, v in fl] and
                             [canon_obj(v) for v in w.values(nit, ct, rec)] == [canon(v) for _, v in fl],
                             'the values are not those asked for', config=repr(d), non_ids_too=nit, collections_too=ct, recursive=rec, got=vals)


ALIKE = ('x', 'x_', '_x', 'X', 'xx', 'x1', '__x__', 'nx', 'xn')


def alike_keys(check, non):
    """Keys that are nearly those declared as non-id; many keys and many non-id keys."""
    def compare(d):
        w = build(d)
        check.count()
        exp = (ref(d), ref_positional(d), ref(d, True), ref_positional(d, True), [k for k, _ in flatten(d)], [k for k, _ in flatten(d, True)])
        got = (w.id(), w.positional_id(), w.id(nonids_too=True), w.positional_id(non_ids_too=True), w.keys(), w.keys(True))
        check.expect(got == exp, 'parameters are not shown or hidden as declared', config=repr(d), got=repr(got)[:2000], expected=repr(exp)[:2000])
        check.expect(parsed_keys(w) == len(flatten(d)), 'parameters get lost', config=repr(d))
    check.seen(('alike', non))
    compare(W('w', [(k, I(i)) for i, k in enumerate(ALIKE)], non=non))
    compare(W('w', [(k, W('v', [(k, I(i)), ('y', NONE)], non=non)) for i, k in enumerate(ALIKE)], non=non))


def parsed_keys(w):
    from whatami import parse_whatid
    return len(parse_whatid(w.id()).keys())


def many_keys(check, n):
    names = ['k%03d' % i for i in range(n)]
    check.seen(('many', n))
    for non in (names[1:], names[:-1], names[::2], names[1::2], names[:n // 2], names[n // 2:], ['z%03d' % i for i in range(n)], names + ['zz'], names[:1], names[-1:],
                ['a%03d' % i for i in range(n)] + names[-1:]):
        for inner in (False, True):
            d = W('w', [(k, I(i)) for i, k in enumerate(names)], non=tuple(non))
            if inner:
                d = W('w', [(k, W('v', [('k000', I(i)), (names[-1], NONE)] if n > 1 else [], non=tuple(non))) for i, k in enumerate(names)], non=tuple(non))
            w = build(d)
            check.count()
            exp = (ref(d), ref_positional(d), ref(d, True), ref_positional(d, True), [k for k, _ in flatten(d)], [k for k, _ in flatten(d, True)])
            got = (w.id(), w.positional_id(), w.id(nonids_too=True), w.positional_id(non_ids_too=True), w.keys(), w.keys(True))
            check.expect(got == exp, 'parameters are not shown or hidden as declared', keys=n, non_ids=len(non), first=non[:1], inner=inner)


def declared(check):
    """All the ways of declaring non-id keys."""
    from functools import partial
    from toolz import curry
    from whatami import What, whatable, whatareyou, obj2what

    class P(object):
        def __init__(self, kvs):
            for k, v in kvs:
                setattr(self, k, build(v))

    kinds = [list, tuple, set, frozenset, iter, lambda ks: dict.fromkeys(ks), lambda ks: (k for k in ks), lambda ks: dict.fromkeys(ks).keys(),
             lambda ks: ''.join(ks)]
    keys = ('a', 'b', 'c')
    values = [(I(1), I(2)), (S('x'), T()), (INNER, INNER3)]
    for kvs in itertools.product(*values):
        for alt in range(2):
            conf = [(k, vs[alt]) for k, vs in zip(keys, values)]
            for r in range(5):
                for non in itertools.combinations(keys + ('z',), r):
                    for kind in kinds:
                        expected = ref(W('P', conf, non=non))
                        full = ref(W('P', conf))
                        check.count()
                        check.seen(('declared', non, alt))
                        for label, make in makers(conf, kind, non, P, whatable, whatareyou, obj2what, What):
                            w = make()
                            got = (w.id(), str(w), w.id())
                            check.expect(got == (expected, full, expected), 'declared non id keys are not honored', how=label, non=non, conf=repr(conf),
                                         kind=repr(kind), got=got, expected=expected)
        break
    # functions
    for non in [()] + [x for r in (1, 2, 3) for x in itertools.combinations(('x', 'y', 'z'), r)]:
        for d1, d2 in itertools.product([I(1), INNER], repeat=2):
            def f(w, x=build(d1), y=build(d2), z='z'):
                return w
            conf = [('x', d1), ('y', d2), ('z', S('z'))]
            expected, full = ref(W('f', conf, non=non)), ref(W('f', conf))
            pexpected = ref(W('f', conf + [('w', I(5))], non=non))
            for kind in kinds[:-1]:
                for label, w, e in (('whatable function', lambda: whatable(f, non_id_keys=kind(non)).what(), expected),
                                    ('whatable function call', lambda: whatable(non_id_keys=kind(non))(f).what(), expected),
                                    ('whatable partial', lambda: whatable(partial(f, 5), non_id_keys=kind(non)).what(), pexpected),
                                    ('whatareyou', lambda: whatareyou(f, non_id_keys=kind(non)), expected),
                                    ('whatareyou curry', lambda: whatareyou(curry(f, w=5), non_id_keys=kind(non)), pexpected),
                                    ('obj2what', lambda: obj2what(f, non_id_keys=kind(non)), expected)):
                    w = w()
                    check.count()
                    check.expect((w.id(), w.id()) == (e, e), 'declared non id keys are not honored', how=label, non=non, got=w.id(), expected=e)
                # what is excluded from functions is not part of their ids
                for excluded in ((), ('x',), ('y', 'zz'), ('what',)):
                    for label, decorate in (('whatable', lambda g: whatable(g, non_id_keys=kind(non), excludes=kind(excluded))), ('whatable()', whatable(non_id_keys=kind(non), excludes=kind(excluded))),
                                            ('inplace', lambda g: whatable(g, non_id_keys=kind(non), excludes=kind(excluded), modify_func_inplace=True))):
                        for g, name, more in ((f, 'f', []), (partial(f, 5), 'f', [('w', I(5))]), (lambda x=build(d1), y=build(d2), z='z': 3, 'lambda', [])):
                            if g is f and label == 'inplace':
                                continue
                            w = decorate(g)
                            for _ in range(2):
                                got = w.what()
                                e = ref(W(name, conf + more, non=tuple(non) + excluded)), ref(W(name, conf + more))
                                check.count()
                                check.expect((got.id(), str(got)) == e and got.non_id_keys == set(non) | set(excluded), 'what is excluded from functions is not honored', how=label, non=non, excluded=excluded, got=(got.id(), str(got), repr(got.non_id_keys)), expected=e)


def makers(conf, kind, non, P, whatable, whatareyou, obj2what, What):
    yield 'What', lambda: What('P', dict((k, build(v)) for k, v in conf), non_id_keys=kind(non))
    yield 'What copy', lambda: What('P', dict((k, build(v)) for k, v in conf), non_id_keys=kind(non)).copy()
    yield 'What deep copy', lambda: What('P', dict((k, build(v)) for k, v in conf), non_id_keys=kind(non)).copy(deep=True)
    yield 'whatareyou', lambda: whatareyou(P(conf), non_id_keys=kind(non))
    yield 'obj2what', lambda: obj2what(P(conf), non_id_keys=kind(non))
    yield 'instance', lambda: whatable(P(conf), non_id_keys=kind(non)).what()

    def cls():
        @whatable(non_id_keys=kind(non))
        class P(object):
            def __init__(self):
                for k, v in conf:
                    setattr(self, k, build(v))
        return P
    yield 'class', lambda: cls()().what()

    def again(o):
        o.what().id()
        return o.what()

    def two(c):
        c().what().id()
        return c().what()
    yield 'class, again', lambda: again(cls()())
    yield 'class, another instance', lambda: two(cls())
    yield 'instance, again', lambda: again(whatable(P(conf), non_id_keys=kind(non)))
    yield 'decorated without the decorator syntax', lambda: two(whatable(type('P', (object,), dict((k, property(lambda _, v=v: build(v))) for k, v in conf)), non_id_keys=kind(non)))


def body(check):
    from whatami import What
    values = VALUES if check.thorough else VALUES[:2] + VALUES[3:6]
    items = [(label, wrap, non, values) for label, wrap in NESTINGS for non in SUBSETS]
    check.parallel(chunk, items)
    declared(check)
    check.parallel(alike_keys, [x for r in (1, 2, 3) for x in itertools.combinations(ALIKE, r)])
    check.parallel(many_keys, [1, 2, 3, 5, 8, 9, 10, 11, 12, 16, 17, 20, 32, 33, 64, 65, 70, 100, 128, 129, 130, 255, 256, 257, 260] + ([1000] if check.thorough else []))
    # several levels with non ids of their own
    for n1, n2, n3 in itertools.product([(), ('a',), ('b',), ('a', 'b')], repeat=3):
        for v1, v2 in itertools.product([I(1), I(2)], repeat=2):
            d = W('w', [('a', v1), ('b', W('w', [('a', v2), ('b', W('w', [('a', v1), ('b', v2)], non=n3))], non=n2))], non=n1)
            w = build(d)
            check.count()
            check.expect(w.id() == ref(d) and str(w) == ref(d, True), 'non ids of nested levels are mixed', config=repr(d), got=w.id(), expected=ref(d))
    for bad in (3, 1.5, object(), True):
        check.count()
        try:
            What('C', {}, non_id_keys=bad)
            check.fail('a non iterable is accepted as non id keys', value=repr(bad))
        except Exception:
            pass
    d = NESTINGS[5][1](W('w', [('a', I(1)), ('b', I(2))], non=['b']))
    check.sample({'config': repr(d), 'id': ref(d)})


if __name__ == '__main__':
    main('C05', 'exploration',
         'one evaluation per (assignment of values or absence to 3 keys, subset of 4 non-id keys, nesting); ids grouped both ways by the id parameters; distinct '
         'ones differ in the nesting, the non-id keys or the id parameters', body)
