# coding=utf-8
"""C06: keys address exactly their values."""
import itertools

from mc.core import main, outcome
from mc.flat import flatten
from mc.values import build, canon, canon_obj, hashable, leaves, universe, values, W, S, I, B, F, T, L, D, ST, FS, C, NONE

FLAGS = list(itertools.product((False, True), repeat=3))
MISSING = object()


def same(o, d):
    """Is the real object o what the description says? (whatables compared by their configuration)"""
    from mc.values import Holder
    if isinstance(o, Holder):
        return d[0] == 'wobj' and canon_obj(o.what()) == canon(d)
    if d[0] == 'sub':
        return type(o).__name__ == d[1] and same({'list': list, 'tuple': tuple, 'dict': dict}[d[2][0]](o), d[2])
    if d[0] in ('list', 'tuple') and type(o).__name__ == d[0]:
        return len(o) == len(d[1]) and all(same(x, y) for x, y in zip(o, d[1]))
    if d[0] == 'dict' and type(o) is dict:
        return len(o) == len(d[1]) and all(same(o[build(a)], b) for a, b in d[1])
    if d[0] == 'what' and hasattr(o, 'conf'):
        return (o.name, o.out_name, set(o.conf)) == (d[1], d[2], set(k for k, _ in d[3])) and all(same(o.conf[k], v) for k, v in d[3])
    return d[0] != 'wobj' and canon_obj(o) == canon(d)


def has_wobj(d):
    return "'wobj'" in repr(d)


def flat(check, ds):
    for d in ds:
        w = build(d)
        for nit, ct, rec in FLAGS:
            check.count()
            if (nit, ct, rec) == (False, False, True) or rec and nit != ct:   # what is not given has the documented value
                kw = {k: True for k, v in (('non_ids_too', nit), ('collections_too', ct)) if v}
                fl = flatten(d, nit, ct, rec)
                for how, ks, vs in (('flatten',) + tuple(w.flatten(**kw)), ('keys, values', w.keys(**kw), w.values(**kw))):
                    check.expect(ks == [k for k, _ in fl] and len(vs) == len(fl) and (has_wobj(d) or all(same(v, x) for v, (_, x) in zip(vs, fl))), 'wrong keys or values with the default options', how=how, config=repr(d),
                                 options=repr(kw), got=repr((ks, vs)))
            keys, vals = w.flatten(non_ids_too=nit, collections_too=ct, recursive=rec)
            fl = flatten(d, nit, ct, rec)
            info = dict(config=repr(d), non_ids_too=nit, collections_too=ct, recursive=rec)
            check.expect(type(keys) is list and type(vals) is list and [(type(k), k) for k in keys] == [(type(k), k) for k, _ in fl], 'wrong keys', got=repr(keys),
                         expected=repr([k for k, _ in fl]), **info)
            check.expect(len(vals) == len(fl) and (has_wobj(d) or all(same(v, x) for v, (_, x) in zip(vals, fl))), 'wrong values', got=repr(vals), **info)
            ks, vs = w.keys(nit, ct, rec), w.values(nit, ct, rec)
            check.expect(ks == keys and len(vs) == len(vals) and all(a is b or a == b for a, b in zip(vs, vals)), 'keys() or values() are not those of flatten()', **info)
            ks2 = w.keys(non_ids_too=nit, collections_too=ct, recursive=rec)
            vs2 = w.values(non_ids_too=nit, collections_too=ct, recursive=rec)
            check.expect(ks2 == keys and len(vs2) == len(vals) and all(a is b or a == b for a, b in zip(vs2, vals)), 'keys() or values() by name are not those of flatten()', **info)
            for k, v in zip(keys, vals):
                got = outcome(lambda: w[k])
                check.expect(got[0] == 'ok' and got[1] is v, 'the key does not address its value', key=repr(k), got=repr(got), value=repr(v), **info)
                got = outcome(lambda: w.get(k))
                check.expect(got[0] == 'ok' and got[1] is v, 'get with a key does not give its value', key=repr(k), got=repr(got), value=repr(v), **info)
            check.seen((d, nit, ct, rec))


def step(d, k):
    """What component k addresses in d; MISSING if nothing, None if not specified."""
    t = d[0]
    if t == 'sub':
        return step(d[2], k)
    if t == 'wobj':
        return step(d[1], k)
    if t == 'what':
        for key, v in d[3]:
            if key == k and type(key) is type(k):
                return v
        return None if isinstance(k, tuple) else MISSING  # tuples inside tuples are not specified
    if t in ('list', 'tuple'):
        if type(k) is int and -len(d[1]) <= k < len(d[1]):
            return d[1][k]
        return MISSING
    if t == 'dict':
        for a, b in d[1]:
            if build(a) == k:
                return b
        return MISSING
    if t == 'str' and type(k) is int:
        return None
    return MISSING


def follow(d, key):
    for k in key:
        d = step(d, k)
        if d is MISSING or d is None:
            return d
    return d


def lookup(d, key):
    return follow(d, key if isinstance(key, tuple) else (key,))


PROBES = ['a', 'b', 'x', 'nope', '', 'name', 'conf', 'what', 'out', 'keys', 0, 1, -1, -3, 7, None, 1.5, 'k', ('a', 'b'), ('k',), 'n', 'o']


def probe(check, item):
    d, probes = item
    w = build(d)
    before = repr(w)
    sentinel = object()
    for r in (1, 2, 3):
        for key in itertools.product(probes, repeat=r):
            for key in ([key[0], key] if r == 1 else [key]):
                expected = lookup(d, key)
                check.count()
                got = outcome(lambda: w[key])
                g1, g2 = outcome(lambda: w.get(key)), outcome(lambda: w.get(key, sentinel))
                info = dict(config=repr(d), key=repr(key), got=repr(got), get=repr((g1, g2)))
                if expected is None:
                    check.expect(g2[0] == 'ok' and (got == ('error', 'KeyError') if g2[1] is sentinel else got[0] == 'ok' and got[1] == g2[1]), 'get and [] do not agree', **info)
                elif expected is MISSING:
                    check.expect(got == ('error', 'KeyError'), 'a key that addresses nothing does not raise KeyError', **info)
                    check.expect(g1 == ('ok', None) and g2 == ('ok', sentinel), 'get does not give the default for a key that addresses nothing', **info)
                    check.seen((d, key))
                else:
                    check.expect(got[0] == 'ok' and same(got[1], expected), 'the key does not give the value it addresses', **info)
                    check.expect(g1[0] == 'ok' and g2[0] == 'ok' and g1[1] is got[1] and g2[1] is got[1], 'get does not give the value the key addresses', **info)
                    check.seen((d, key))
    check.expect(repr(w) == before, 'looking up modifies', config=repr(d))


def rich():
    inner = W('f', [('a', I(1)), ('b', S('s')), ('n', NONE)], out='o', non=['n'])
    vals = [I(5), NONE, B(True), F(1.5), S('abc'), S(''), C('str'), T(), L(), D(), ST(), FS(), ST(I(0), S('a')), FS(I(1)),
            L(I(4), inner), T(inner, T(I(1), inner)), D((S('a'), inner), (S('k'), L(I(1), I(2))), (I(0), S('zero'))),
            D((NONE, I(1)), (S('a'), D((S('b'), L(inner))))), inner, W('g', [('b', inner), ('a', L(inner))], non=['b']),
            ('wobj', inner), ('wobj', W('h', [('a', ('wobj', inner)), ('b', L(('wobj', inner), I(1)))])), L(('wobj', inner)), D((S('a'), ('wobj', inner))),
            D((I(1), T(inner)), (F(1.5), inner)), T(I(1), NONE, L(L(L(I(1)))))]
    subs = [('sub', 'NT', T(I(1), inner)), ('sub', 'NT', L(L(I(1)), D((S('p'), I(2))))), ('sub', 'ML', L(I(4), inner)), ('sub', 'MT', T(inner, T(I(1), inner))), ('sub', 'MT', T()),
            ('sub', 'MD', D((S('a'), inner), (S('k'), L(I(1), I(2))))), ('sub', 'MO', D((S('b'), L(I(1))), (S('a'), inner))), ('sub', 'ML', L(('sub', 'MD', D((S('a'), ('sub', 'NT', T(inner, I(3))))))))]
    vals = vals + subs
    for v in vals:
        yield W('C', [('x', v)])
        yield W('C', [('x', L(v, T(v))), ('k', D((S('a'), v)))])
    for v1, v2 in itertools.product(vals[12:-6], repeat=2):
        yield W('C', [('x', v1), ('a', W('g', [('b', v2), ('a', v1)])), ('n', v2)], non=['n'])


def body(check):
    rs = list(rich())
    ds = list(universe(True)) + rs
    ds += [W('C', [('x', v), ('a', v), ('n', v)], non=['n']) for v in itertools.islice(values(), 0, None, 1 if check.thorough else 4)]
    # long collections: more than ten members, keys sorted by text or by number
    ds += [W('C', [('x', L(*[W('f', [('p%d' % i, I(i)) for i in range(12)])] * 12))]),
           W('C', [('x', D(*[(I(i), L(I(i))) for i in range(12)]))]), W('C', [('x', D(*[(S(str(i)), T(I(i))) for i in range(12)]))]),
           W('C', [('p%d' % i, L(*[I(j) for j in range(i)])) for i in range(12)])]
    # collections under any key
    ds += [W('C', [('x', D((k, v)))]) for k in leaves() if hashable(k) for v in (L(I(1)), D((k, W('f', [('a', k)]))), W('f', [('a', T(k))]))]
    check.parallel(flat, [ds[i:i + 100] for i in range(0, len(ds), 100)])
    many = rs if check.thorough else rs[:26] + rs[26::9]
    check.parallel(probe, [(d, PROBES) for d in many])
    keys, _ = build(rs[-1]).flatten(True, True)
    check.sample({'config': repr(rs[-1]), 'keys': repr(keys)})


if __name__ == '__main__':
    main('C06', 'exploration',
         'one evaluation per (configuration, combination of the three flags) compared with the reference traversal, all keys looked up, and per '
         '(configuration, probe key up to three components); distinct ones differ in the configuration, flags or key', body)
