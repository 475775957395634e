# coding=utf-8
"""C01: different configurations never share an id."""
import itertools

from mc.core import main
from mc.values import build, canon, universe, W, S, I, T, L, ST, FS, D, NONE, values, numbers, alike, C, SMALL, NESTED

ALPHABET = ["'", '\\', ',', '=', '(', ')', ' ', 'a']


def injections(n, m):
    """All strings up to length n over delimiters as one parameter, all pairs up to length m as two parameters or elements."""
    def strings(k):
        for r in range(k + 1):
            for cs in itertools.product(ALPHABET, repeat=r):
                yield ''.join(cs)
    for s in strings(n):
        yield W('C', [('a', S(s))])
    short = list(strings(m))
    for s1, s2 in itertools.product(short, repeat=2):
        yield W('C', [('a', S(s1)), ('b', S(s2))])
        yield W('C', [('a', T(S(s1), S(s2)))])
        yield W('C', [('a', L(S(s1 + s2)))])


def long_collections(check, n):
    """Long collections of every class that differ just in one place."""
    from collections import OrderedDict, defaultdict, deque
    from whatami import What
    from mc import special
    kinds = {'list': list, 'tuple': tuple, 'ML': special.ML, 'MT': special.MT, 'deque': deque}
    kinds.update((k, lambda xs, c=c: c((j, x) for j, x in enumerate(xs))) for k, c in (('set', set), ('frozenset', frozenset), ('MS', special.MS), ('MF', special.MF), ('dict', dict), ('MD', special.MD),
                                                                                     ('MO', special.MO), ('OrderedDict', OrderedDict), ('defaultdict', lambda kvs: defaultdict(None, kvs))))
    kinds.update(('values of ' + k, lambda xs, c=c: c(('k%d' % x, j) for j, x in enumerate(xs))) for k, c in (('set', set), ('MS', special.MS), ('MF', special.MF)))
    for kind, make in sorted(kinds.items()):
        seen = {}
        contents = [[0] * i + [1] + [0] * (n - i - 1) for i in sorted({0, 1, n // 2, n - 2, n - 1})] + [[0] * m for m in sorted({n - 1, n, n + 1, 0})]
        for xs in contents:
            for where, conf in (('value', {'x': make(xs)}), ('nested', {'x': [{'k': make(xs)}]})):
                check.count()
                check.seen((kind, n, where, tuple(xs)))
                whatid = What('C', conf).id()
                other = seen.setdefault(whatid, xs)
                check.expect(other is xs, 'different configurations share an id', kind=kind, where=where, one=repr(other)[:300], other=repr(xs)[:300], id=whatid[:300])


def body(check):
    check.parallel(long_collections, [2, 16, 101, 300, 1030] + ([5000, 20000] if check.thorough else []))
    def configs():
        for d in universe(big=True):
            yield d
        for d in injections(6 if check.thorough else 5, 3 if check.thorough else 2):
            yield d
        # numbers that are nearly the same, collections with members that are nearly the same
        for d in numbers():
            for v in (d, L(d), D((d, NONE)), T(d, I(1)), FS(d)):
                yield W('C', [('x', v)])
        for d in alike():
            yield W('C', [('x', d)])
        for name in NESTED:
            for v in (C(name), L(C(name)), D((S('k'), C(name))), D((C(name), NONE)), W('f', [('a', C(name))])):
                yield W('C', [('x', v)])
        # long values that differ just in one place
        for n in (2, 16, 64, 100, 256, 300) + ((1000, 5000) if check.thorough else ()):
            for i in sorted({0, 1, n // 2, n - 2, n - 1} | set(range(0, n, 7 if check.thorough else 31))):
                yield W('C', [('x', S('a' * i + 'b' + 'a' * (n - i - 1)))])
                yield W('C', [('x', L(*([I(0)] * i + [I(1)] + [I(0)] * (n - i - 1))))])
                yield W('C', [('x', W('a' * i + 'b' + 'a' * (n - i - 1)))])
                yield W('C', [('a' * i + 'b' + 'a' * (n - i - 1), I(0))])
                yield W('C', [('p%d' % j, I(int(i == j))) for j in range(n)])
                yield W('C', [('x', I(10 ** n + 10 ** i))])
        # objects with a what() method count as the configurations they give
        for d in itertools.islice(values(), 0, None, 7):
            yield W('C', [('x', ('wobj', W('w', [('y', d)])))])
        if check.thorough:
            for a, b, c in itertools.product(SMALL, repeat=3):
                yield W('C', [('x', L(a, T(b, c)))])
                yield W('C', [('x', T(L(a, b), c))])
                yield W('C', [('a', a), ('b', T(b, c))])
                yield W('C', [('a', W('f', [('a', a), ('b', b)])), ('b', c)])
                yield W('C', [('a', W('f', [('a', a)])), ('b', b), ('c', c)])
            small = list(itertools.islice(values(), 0, None, 11))
            for a, b in itertools.product(small[:900], small[:60]):
                yield W('C', [('a', a), ('b', b)])

    by_id = {}
    for d in configs():
        check.count()
        whatid = build(d).id()
        key = canon(d)
        check.expect(isinstance(whatid, str), 'the id is not a string', config=repr(d))
        other = by_id.setdefault(whatid, (key, d))
        check.seen(key)
        if other[0] != key:
            check.fail('two different configurations share an id', whatid=whatid, config1=repr(other[1]), config2=repr(d))
    # The converse makes the comparison meaningful: the same configuration has always the same id
    check.extra['distinct_ids'] = len(by_id)
    check.sample({'config': repr(d), 'id': whatid})
    for whatid in list(by_id)[:4]:
        check.sample({'id': whatid, 'config': repr(by_id[whatid][1])})
    check.extra['pairs_compared'] = len(by_id) * (len(by_id) - 1) // 2


if __name__ == '__main__':
    main('C01', 'exploration',
         'one evaluation per configuration description of the bounded universe (leaf alphabet in every container, containers up to size 2-3, '
         'nestings up to depth 4, all strings up to length 5 over delimiters); distinct ones are different as configurations (types count)', body)
