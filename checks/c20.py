# coding=utf-8
"""C20: sorting by parameters is a stable, aligned permutation."""
import itertools

from mc.core import main


# Several alphabets of ids with mutually comparable values, ties, and the keys to sort by
def alphabets():
    nums = ["A(k=2,n=B(z='b'))", "A(k=1,n=B(z='c'))", "Z(k=1,n=B(z='a'))", "A(k=1.0,n=B(z='a'))", "A(k=-3,l=1,n=C(z='b'))"]
    yield nums, [('k',), (('n', 'z'),), ('k', ('n', 'z')), (('n', 'z'), 'k'), ()]
    yield ["A(k='b',l=[1,2],t=(2,'x'))", "A(k='a',l=[1],t=(1,'y'))", "B(k='B',l=[],t=(2,'a'))", "A(k='a',l=[0,9],t=(1,'y'))", "o=A(k='',l=[1],t=())"], [('k',), ('l',), ('t',), ('l', 'k'), ('t', 'l'), (('t',),)]
    yield ["A(a=1,b=1,c=1,d=3)", "A(a=1,b=1,c=2,d=1)", "A(a=1,b=1,c=2,d=0)", "A(a=1,b=0,c=2,d=2)", "A(a=0,b=9,c=9,d=9)"], [('a', 'b', 'c'), ('a', 'b', 'c', 'd'), ('c', 'a', 'd', 'b'), ('b', 'a', 'b', 'd')]
    yield ["A(k=True,d={'x':1},n=B(m=C(z=10)))", "A(k=False,d={'x':0},n=B(m=C(z=9)))", "A(k=False,d={'x':1},n=B(m=C(z=9)))", "A(k=inf,d={'x':-1},n=B(m=C(z=-inf)))"], [('k',), (('d', 'x'),), (('n', 'm', 'z'),), (('d', 'x'), 'k', ('n', 'm', 'z'))]


def value_of(what, key):
    """By walking."""
    from whatami import What
    for k in key if isinstance(key, tuple) else (key,):
        what = what.conf[k] if isinstance(what, What) else what[k]
    return what


def insertion_sort(items):
    """Stable."""
    out = []
    for item in items:
        i = len(out)
        while i and item[0] < out[i - 1][0]:
            i -= 1
        out.insert(i, item)
    return out


def run(check, item):
    from whatami import id2what
    from whatami.whatutils import sort_whats, sort_whatids
    ids, keys, prefix, n = item
    whats = [id2what(i) for i in ids]
    values = [tuple([value_of(w, k) for k in keys]) for w in whats]
    for rest in itertools.product(range(len(ids)), repeat=n):
        seq = list(prefix) + list(rest)
        check.count()
        check.seen((ids[0], keys, tuple(seq)))
        # different objects, so that we can tell them apart
        objs = [whats[x].copy() for x in seq]
        expected = insertion_sort([(values[x], pos) for pos, x in enumerate(seq)])
        given = list(objs)
        got = sort_whats(given if len(seq) % 2 else iter(objs), *keys)
        ok = len(got) == 2 and [id(o) for o in got[0]] == [id(objs[pos]) for _, pos in expected] and list(map(repr, got[1])) == [repr(v) for v, _ in expected]
        check.expect(ok and all(a is b for a, b in zip(given, objs)), 'wrong order, or values that are not aligned', ids=[ids[x] for x in seq], keys=repr(keys), got=repr(got))
        texts = [ids[x] for x in seq]
        given = tuple(texts) if len(seq) % 2 else list(texts)
        got = sort_whatids(given if len(seq) != 3 else iter(texts), *keys)
        ok = len(got) == 2 and list(got[0]) == [texts[pos] for _, pos in expected] and list(map(repr, got[1])) == [repr(v) for v, _ in expected]
        check.expect(ok and list(given) == texts, 'wrong order of ids, or values that are not aligned', ids=texts, keys=repr(keys), got=repr(got))


# Keys that only configurations that were not parsed can have, many with the same text
ODD = ["('n', 'z')", 'n', ('n', 'z'), ('n', '1'), ('n', 1), ('n', "'z'"), "n, z", 'n_z', ('l', 0), ('l', -1), ('d', '1'), ('d', 1), ('d', 'l', 0), ('d', None), ('d', ''), '', "['n']", ('e', 0), ('d', 1.5), ('d', True)]


def odd_keys(check):
    from whatami import What
    from whatami.whatutils import sort_whats, whatvalues

    def make(n):
        m = What('N', {'z': 10 - n, '1': n, "'z'": n + 0.5})
        m.conf[1] = -n
        return What('A', {"('n', 'z')": n, 'n': m, 'n, z': n % 2, 'n_z': -n, 'l': [n, 5, n % 2], 'd': {'1': n, 1: -n, 'l': (-n,), None: n % 2, '': n, 1.5: 8 - n}, '': n, "['n']": -n, 'e': What('E', {0: n})})
    keys = [k for k in ODD if k not in ('n', ('d', True))]
    ties = ['n, z', ('d', None), ('l', 2), ('l', 1)]
    for chosen in [()] + [(k,) for k in keys] + list(itertools.permutations(keys, 2)) + [tuple(p) + (k,) for n in (2, 3, 4) for p in itertools.permutations(ties, n) for k in keys]:
        whats = [make(n) for n in (2, 0, 3, 1, 0)]
        values = [tuple([value_of(w, k) for k in chosen]) for w in whats]
        expected = insertion_sort([(v, pos) for pos, v in enumerate(values)])
        check.count(2)
        check.seen(('odd', chosen))
        got = sort_whats(whats, *chosen)
        check.expect([id(w) for w in got[0]] == [id(whats[pos]) for _, pos in expected] and list(map(repr, got[1])) == [repr(v) for v, _ in expected], 'wrong order, or values that are not aligned',
                     keys=repr(chosen), got=repr(got))
        for w, v in zip(whats, values):
            check.expect(repr(whatvalues(w, chosen)) == repr(v), 'wrong values', id=repr(w), keys=repr(chosen), got=repr(whatvalues(w, chosen)))


def many(check):
    """Long sequences and many keys, with many ties."""
    from whatami import id2what
    from whatami.whatutils import sort_whats, sort_whatids
    for n in (10, 33, 64, 130, 300) + ((1000, 2500) if check.thorough else ()):
        for base in (1, 2, 3, 7):
            ids = ['A(%s,z=B(y=%d))' % (','.join(['k%d=%d' % (j, i * (j + 3) % base) for j in range(6)]), (n - i) % 13) for i in range(n)]
            for keys in (('k0',), ('k0', 'k1', 'k2', 'k3', 'k4', 'k5'), ('k5', 'k4', ('z', 'y')), (('z', 'y'),)):
                whats = [id2what(i) for i in ids]
                values = [tuple([value_of(w, k) for k in keys]) for w in whats]
                order = sorted(range(n), key=lambda p: values[p] + (p,))
                check.count()
                check.seen(('many', n, base, keys))
                got = sort_whats(whats, *keys)
                check.expect([id(w) for w in got[0]] == [id(whats[p]) for p in order] and list(got[1]) == [values[p] for p in order], 'wrong order of many', n=n, base=base, keys=repr(keys))
                got = sort_whatids(ids, *keys)
                check.expect(list(got[0]) == [ids[p] for p in order] and list(got[1]) == [values[p] for p in order], 'wrong order of many ids', n=n, base=base, keys=repr(keys))


def body(check):
    most = 6 if check.thorough else 5
    items = []
    for ids, keyss in alphabets():
        for keys in keyss:
            for n in range(0, most + 1):
                if n <= 3:
                    items.append((ids, keys, (), n))
                else:
                    items += [(ids, keys, p, n - 2) for p in itertools.product(range(len(ids)), repeat=2)]
    items.sort(key=lambda it: -it[3])
    check.parallel(run, items)
    from whatami import id2what
    from whatami.whatutils import sort_whats, sort_whatids, whatvalues
    for f in (sort_whats, sort_whatids):
        for nothing in ([], (), iter([])):
            got = f(nothing, 'k')
            check.expect(len(got) == 2 and [list(x) for x in got] == [[], []], 'sorting nothing', got=repr(got))
    for missing in ('nope', ('n', 'nope'), ('k', 'x')):
        for f, arg in ((sort_whats, [id2what("A(k=1,n=B())")]), (sort_whatids, ["A(k=1,n=B())"])):
            try:
                check.fail('sorting by a parameter that is not there', key=repr(missing), got=repr(f(arg, missing)))
            except KeyError:
                check.count()
    for ids, keyss in alphabets():
        for keys in keyss:
            for i in ids:
                w = id2what(i)
                exp = tuple([value_of(w, k) for k in keys])
                check.expect(repr(whatvalues(w, keys)) == repr(exp) and (len(keys) != 1 or isinstance(keys[0], tuple) or repr(whatvalues(w, keys[0])) == repr(exp)), 'wrong values', id=i, keys=repr(keys), got=repr(whatvalues(w, keys)))
    odd_keys(check)
    many(check)
    check.sample({'ids': ["A(k=1,n=B(z='c'))", "Z(k=1,n=B(z='a'))", "A(k=1.0,n=B(z='a'))"], 'keys': ['k']})


if __name__ == '__main__':
    main('C20', 'exploration', 'all sequences of ids up to the bound, with repetitions, over alphabets with ties, for all the choices of keys, compared with a reference stable sort; distinct ones are different sequences and keys', body)
