# coding=utf-8
"""C19: matching selects exactly the ids that agree with the template."""
import itertools

from mc.core import main
from mc.values import I, S, L, T, D, W, NONE, C, ST, ref

Z1 = W('B', [('z', I(1))])
VALUES = [NONE, I(1), I(2), S('a'), L(), L(I(1)), L(I(2)), L(I(1), I(2)), T(I(1)), T(), D(), D((S('k'), I(1))), D((S('k'), I(2))), D((S('j'), I(1))), W('B'), W('B', out='o'), Z1, W('B', [('z', I(2))]), W('B', [('w', I(1))]),
          W('B', [('z', I(1))], out='o'), W('D', [('z', I(1))]), L(Z1), L(W('B', [('z', I(2))])), L(W('D', [('z', I(1))])), T(Z1), T(S('B'), NONE), T(S('B'), S('o')), T(S('B')), C('list'), C('dict'), S('B()'), W('B', [('z', L(I(1)))]),
          W('B', [('z', L(I(2)))]), D((S('k'), Z1)), D((S('k'), W('B', [('z', I(2))]))), W('B', [('z', W('E', [('z', I(1))]))]), W('B', [('z', W('E', [('z', I(2))]))]), W('B', [('z', W('F', [('z', I(1))]))]),
          ST(I(1), I(2)), ST(I(1)), W('B', [('x', I(1)), ('z', I(1))]), W('B', [('x', I(2)), ('z', I(1))])]


def chain(n, z=1, names='EFGH'):
    """n nested configurations."""
    d = I(z)
    for i in range(n):
        d = W(names[n - 1 - i], [('z', d)])
    return d


VALUES += [chain(3), chain(3, 2), chain(4), chain(4, 2), chain(4, names='EFXH'), chain(4, names='EXGH'), W('E', [('z', L(chain(2), I(3)))]), W('E', [('z', L(chain(2, 2), I(3)))]), L(chain(3)), L(chain(3, 2)), D((S('k'), chain(3))), D((S('k'), chain(3, 2))),
           W('b'), W('B_'), W('BB'), W('b', [('z', I(1))]), W('B', [('Z', I(1))]), W('B', [('zz', I(1))]), S('A'), S('a '), I(10), ST(I(1), I(2), I(3)), D((S('k'), I(1)), (S('j'), I(2))), D((S('k'), I(2)), (S('j'), I(1))),
           L(D((S('k'), ST(I(1), I(2))), (S('j'), D((I(1), I(2)), (I(3), I(4)))))), W('B', [('z', D((I(1), I(2)), (I(3), I(4))))])]
# deep and with many parameters
LONG = 'EFGHJKLMNO'
VALUES += [chain(n, z, names=LONG) for n in (5, 6, 8, 10) for z in (1, 2)] + [chain(6, names='EFGHJX'), chain(6, names='XFGHJK'), chain(10, names='EFGHJKLMNX')]
VALUES += [W('B', [('p%d' % i, I(1 if i != odd else 2)) for i in range(n)]) for n, odd in ((12, None), (12, 0), (12, 11), (11, None), (25, None), (25, 24))]
VALUES += [L(*[I(1 if i != odd else 2) for i in range(n)]) for n, odd in ((12, None), (12, 11), (25, None), (25, 13))]
IGNORED = [(), ('x',), ('y',), ('x', 'y'), ('z',), (('x', 'z'),), (('x', 0),), (('x', 'k'),), (('x', 0, 'z'),), (('x', 'k', 'z'),), (('x', 'z', 'z'),), (('x', 'z', 0),), (('y', 'z'),), ('x', ('y', 'z')), (('x', 'z'), ('x', 'x')), (('z', 'x'),),
           (('x', 'x'),), ('nope', ('no', 'pe')), (0,), ('k',), (('x', 'z', 'z', 'z'),), (('x', 'z', 0, 'z'),), (('x', 0, 'z', 'z'),), (('x', 'k', 'z', 'z'), 'X'), (('x', 'z', 'z', 'z', 'z', 'z'),), (('z', 'z'),), (('x',) + ('z',) * 6,), (('x',) + ('z',) * 8, ('x', 'p11')), (('x',) + ('z',) * 10, ('x', 11)), tuple('abcdefghijkl') + (('x', 'p0'), ('x', 'p24'), ('x', 13), 'y')]
FLAGS = list(itertools.product((False, True), repeat=2))   # collections too, recursive


def universe(big):
    out = [W(n, [('x', v)], out=o) for v in VALUES for n, o in (('A', None),)]
    some = VALUES[:41] if big else [NONE, I(1), L(I(1)), Z1, W('B', [('z', I(2))]), T(S('B'), NONE), D((S('k'), Z1))]
    out += [W('A', [('x', v), ('y', w)]) for v, w in itertools.product(some, repeat=2)]
    out += [W(n, [('x', I(1))]) for n in ('a', 'A_', '_A', 'A1', 'aA', 'x_', 'None_')] + [W('A', [(k, I(1))]) for k in ('X', 'x_', '_x', 'xx', 'x1')] + [W('a', [('x', Z1)]), W('A', [('X', I(1)), ('x', I(1))]), W('a')]
    out += [W('A'), W('A', [('y', I(1))]), W('A', [('y', Z1)]), W('A', [('x', I(1))], out='o'), W('Z', [('x', I(1))]), W('A', [('x', Z1)], out='o'), W('Z', [('x', Z1)]), W('A', [('x', I(1)), ('y', I(1)), ('z', I(1))]), W('A', [('z', I(1))]),
            W('x', [('x', I(1))]), W('A', out='o'), W('AA', [('x', I(1))]), W('Z', [('x', I(1)), ('y', Z1)])]
    seen = []
    for d in out:
        if d not in seen:
            seen.append(d)
    return seen


def written(d):
    """Another way of writing the id: everything in the other order, with blanks."""
    k = d[0]
    if k == 'what':
        return '%s%s ( %s )' % ('' if d[2] is None else d[2] + ' = ', d[1], ' , '.join(['%s\n= %s' % (key, written(v)) for key, v in sorted(d[3], reverse=True)]))
    if k in ('list', 'tuple'):
        return '%s %s %s' % ('[(' [k == 'tuple'], ' ,'.join([written(v) for v in d[1]]), '])' [k == 'tuple'])
    if k == 'set' and d[1]:
        return '{%s}' % ' , '.join([written(v) for v in sorted(d[1], key=ref, reverse=True)])
    if k == 'dict':
        return '{ %s}' % ', '.join(['%s :%s' % (written(a), written(b)) for a, b in sorted(d[1], key=lambda kv: ref(kv[0]), reverse=True)])
    return ref(d)


def members(d, collections):
    """[(key, description)] or None if there is nothing to look into."""
    if d[0] == 'what':
        return dict(d[3])
    if collections and d[0] in ('list', 'tuple'):
        return dict(enumerate(d[1]))
    if collections and d[0] == 'dict':
        return {k[1]: v for k, v in d[1]}
    return None


def agree(t, d, ignored, collections, recursive, path=()):
    """Do these two values (that are not ignored themselves) agree?"""
    a, b = members(t, collections), members(d, collections)
    if (a is None) is not (b is None) or t[0] != d[0]:
        return False
    if a is None:
        return t == d
    if t[0] == 'what' and (t[1] != d[1] or path and t[2] != d[2]):
        return False
    if path and not recursive:
        return t[0] == 'what' or t == d
    if set(a) != set(b):
        return False
    for k in a:
        p = path + (k,)
        if p in ignored:
            if not same_keys(a[k], b[k], collections, recursive):
                return False
        elif not agree(a[k], b[k], ignored, collections, recursive, p):
            return False
    return True


def same_keys(t, d, collections, recursive):
    a, b = (members(t, collections) or {}, members(d, collections) or {}) if recursive else ({}, {})
    return set(a) == set(b) and all(same_keys(a[k], b[k], collections, recursive) for k in a)


def run(check, item):
    from whatami.whatutils import match_whatids
    t, descriptions, mirrored = item
    ids = [ref(d) for d in descriptions]
    several = [d for d in descriptions if any(c in ref(d) for c in ',{')]
    ids, descriptions = ids + ids[:3] + [written(d) for d in several], descriptions + descriptions[:3] + several
    template = written(t) if mirrored else ref(t)
    for n, ignored in enumerate(IGNORED):
        normal = set(k if isinstance(k, tuple) else (k,) for k in ignored)
        for collections, recursive in FLAGS:
            given = (ignored, list(ignored), set(ignored), iter(ignored))[n % 4]
            whatids = ids if n % 3 else iter(ids)
            kwargs = dict(ignored_keys=given, collections_too=collections, recursive=recursive)
            if (collections, recursive) == (False, True):
                kwargs = dict(ignored_keys=given) if n % 2 else dict(ignored_keys=given, non_ids_too=True)
            before = list(ids)
            got = match_whatids(whatids, template, **kwargs)
            expected = [i for i, d in zip(ids, descriptions) if agree(t, d, normal, collections, recursive)]
            check.count(len(ids))
            check.seen((template, ignored, collections, recursive))
            check.extra['matches'] = check.extra.get('matches', 0) + len(expected)
            check.expect(ids == before, 'the inputs are modified', template=template)
            if got != expected:
                check.fail('the ids that match are not those that agree with the template', template=template, ignored=repr(ignored), collections_too=collections, recursive=recursive,
                           missing=[i for i in expected if i not in got][:5], wrong=[i for i in got if i not in expected][:5], order=got[:10] if sorted(got) == sorted(expected) else None)


def body(check):
    u = universe(check.thorough)
    ids = u if not check.thorough else u
    templates = u if not check.thorough else u[:120] + u[120::9]
    check.parallel(run, [(t, ids, i % 3 == 2) for i, t in enumerate(templates)])
    from whatami.whatutils import match_whatids
    check.expect(match_whatids([], 'A(x=1)') == [] and match_whatids(iter(()), 'A()', ignored_keys=('x',)) == [], 'matching nothing')
    check.extra['ids'], check.extra['templates'] = len(ids), len(templates)
    check.sample({'template': "A(x=B(z=E(z=1)))", 'ignored': [['x', 'z', 'z']]})


if __name__ == '__main__':
    main('C19', 'exploration', 'all pairs of template and id of the bounded universe, all the ignored keys (nested, absent, given in several forms) and flags; distinct ones are different combinations of template, ignored keys and flags', body)
