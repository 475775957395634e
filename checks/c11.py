# coding=utf-8
"""C11: configurations reflect only their own modifications."""
import copy
import itertools
from collections import OrderedDict

from mc.core import main, bfs, outcome

NSLOTS = 3


class M(object):
    """The model of a configuration."""

    def __init__(self, name, conf, non=(), out=None):
        self.name, self.conf, self.non, self.out = name, conf, set(non), out

    def __eq__(self, other):
        return isinstance(other, M) and (self.name, self.conf, self.out) == (other.name, other.conf, other.out)

    def __ne__(self, other):
        return not self == other

    __hash__ = None


def text(m, nonids=False):
    if isinstance(m, M):
        kvs = ','.join(['%s=%s' % (k, text(v)) for k, v in sorted(m.conf.items()) if nonids or k not in m.non])
        return ('' if m.out is None else m.out + '=') + '%s(%s)' % (m.name, kvs)
    if isinstance(m, list):
        return '[%s]' % ','.join([text(x) for x in m])
    if isinstance(m, str):
        return "'%s'" % m
    return str(m)


def structure(ms):
    """The model as a hashable value, with sharing."""
    ids = {}

    def walk(m):
        if isinstance(m, (M, list, dict)):
            if id(m) in ids:
                return ('ref', ids[id(m)])
            ids[id(m)] = len(ids)
        if isinstance(m, M):
            return ('M', m.name, walk(m.conf), tuple(sorted(m.non)), m.out)
        if isinstance(m, dict):
            return tuple(sorted([(k, walk(v)) for k, v in m.items()], key=lambda kv: kv[0]))
        if isinstance(m, list):
            return ('l',) + tuple([walk(x) for x in m])
        return m
    return tuple([walk(m) for m in ms])


def initial():
    from whatami import What
    real = What('C', {'b': 1, 'n': What('D', {'p': 1, 'q': 'v'}, ['q'], 'o'), 'l': [1], 'h': 'hidden'}, ['h'])
    model = M('C', {'b': 1, 'n': M('D', {'p': 1, 'q': 'v'}, ['q'], 'o'), 'l': [1], 'h': 'hidden'}, ['h'])
    return [real] + [None] * (NSLOTS - 1), [model] + [None] * (NSLOTS - 1)


OPS = []
for _i in range(NSLOTS):
    for _kind in ('copy', 'copy kw', 'deepcopy', 'set copy', 'set copy nested', 'set', 'set again', 'set fluent', 'assign', 'del', 'rename', 'non add', 'non replace', 'out', 'nested conf', 'nested set',
                  'nested name', 'nested non', 'nested replace', 'list', 'replace conf', 'whatadd', 'whatadd existing', 'read'):
        OPS.append((_kind, _i))


def apply(check, real, model, op, hist):
    from whatami import What, whatadd
    kind, i = op
    r, m = real[i], model[i]
    if r is None:
        return False
    j = (i + 1) % NSLOTS
    if kind in ('copy', 'copy kw'):
        real[j], model[j] = r.copy() if kind == 'copy' else r.copy(deep=False), M(m.name, m.conf.copy(), m.non, m.out)
    elif kind == 'deepcopy':
        real[j], model[j] = r.copy(deep=True), M(m.name, copy.deepcopy(m.conf), m.non, m.out)
    elif kind == 'set copy':
        real[j], model[j] = r.set('b', 2, copy=True), M(m.name, dict(m.conf, b=2), m.non, m.out)
    elif kind == 'set copy nested':
        real[j], model[j] = r.set('n', r, copy=True), M(m.name, dict(m.conf, n=m), m.non, m.out)
    elif kind == 'set':
        check.expect(r.set('b', 3) is r, 'set does not return the same configuration', history=hist)
        m.conf['b'] = 3
    elif kind == 'set again':
        r.set('z', 'new', copy=False)
        m.conf['z'] = 'new'
    elif kind == 'set fluent':
        check.expect(r.set('b', 3).set('a', 4) is r, 'set does not return the same configuration', history=hist)
        m.conf.update(b=3, a=4)
    elif kind == 'assign':
        r.conf['b'] = 5
        m.conf['b'] = 5
    elif kind == 'del':
        r.conf.pop('b', None)
        m.conf.pop('b', None)
    elif kind == 'rename':
        r.name = m.name = m.name + 'x'
    elif kind == 'non add':
        r.non_id_keys.add('b')
        m.non.add('b')
    elif kind == 'non replace':
        r.non_id_keys = {'l'}
        m.non = {'l'}
    elif kind == 'out':
        r.out_name = m.out = None if m.out else 'out'
    elif kind.startswith('nested'):
        rn, mn = r.conf.get('n'), m.conf.get('n')
        if not isinstance(rn, What):
            return False
        if kind == 'nested conf':
            rn.conf['p'] = mn.conf['p'] = 'changed'
        elif kind == 'nested set':
            rn.set('r', 7)
            mn.conf['r'] = 7
        elif kind == 'nested name':
            rn.name = mn.name = 'E'
        elif kind == 'nested non':
            rn.non_id_keys.discard('q')
            mn.non.discard('q')
        elif kind == 'nested replace':
            r.conf['n'] = rn.copy()
            m.conf['n'] = M(mn.name, mn.conf.copy(), mn.non, mn.out)
    elif kind == 'list':
        if len(m.conf.get('l', [0] * 9)) > 3:
            return False
        r.conf['l'].append(2)
        m.conf['l'].append(2)
    elif kind == 'replace conf':
        r.conf = {'b': 1, 'l': [1]}
        m.conf = {'b': 1, 'l': [1]}
    elif kind == 'whatadd':
        for values in (['v'], [2], (None,), [1, 'v']):
            got = whatadd(r, 'w', values)
            exp = [text(M(m.name, dict(m.conf, w=v), m.non, m.out)) for v in values]
            check.expect(got == exp, 'whatadd does not give the ids with the new values', history=hist, got=got, expected=exp)
        got = whatadd(r, 'w', ['v', 2, None])
        exp = []
        for v in ('v', 2, None):
            exp.append(text(M(m.name, dict(m.conf, w=v), m.non, m.out)))
        check.expect(got == exp, 'whatadd does not give the ids with the new values', history=hist, got=got, expected=exp)
        check.expect(whatadd(r, 'w', []) == [], 'whatadd without values', history=hist)
    elif kind == 'whatadd existing':
        for key in list(m.conf):
            for values in ([1, 2], []):
                check.expect(outcome(whatadd, r, key, values) == ('error', 'ValueError'), 'whatadd accepts an existing key', history=hist, key=key)
    elif kind == 'read':
        r.id(), str(r), hash(r), r == r, r.keys(), r.positional_id()
    return True


def matches(r, m, seen):
    """Same contents and same sharing."""
    from whatami import What
    if isinstance(m, (M, list, dict)):
        if seen.setdefault(id(m), id(r)) != id(r) or seen.setdefault(('r', id(r)), id(m)) != id(m):
            return False
    if isinstance(m, M):
        return isinstance(r, What) and r.name == m.name and r.out_name == m.out and r.non_id_keys == m.non and type(r.non_id_keys) is set and matches(r.conf, m.conf, seen)
    if isinstance(m, dict):
        return type(r) is dict and set(r) == set(m) and all(matches(r[k], m[k], seen) for k in m)
    if isinstance(m, list):
        return type(r) is list and len(r) == len(m) and all(matches(a, b, seen) for a, b in zip(r, m))
    return type(r) is type(m) and r == m


def cyclic(m, path=()):
    if isinstance(m, M):
        return id(m) in path or any(cyclic(v, path + (id(m),)) for v in m.conf.values())
    return False


def run(check, hist):
    real, model = initial()
    for op in hist:
        if not apply(check, real, model, op, hist):
            return None
    if any(cyclic(m) for m in model if m is not None):
        return None
    check.count()
    check.seen(hist)
    seen, conts = {}, set()
    for i, (r, m) in enumerate(zip(real, model)):
        if m is None:
            continue
        if not matches(r, m, seen):
            check.fail('a configuration does not have the contents its own modifications imply', history=hist, which=i, got=repr(r), expected=text(m, True))
            return None
        non = r.non_id_keys
        check.expect(id(non) not in conts, 'non id keys are shared', history=hist, which=i)
        conts.add(id(non))
        check.expect(r.id() == text(m) and str(r) == text(m, True), 'the id does not follow from the contents', history=hist, which=i, got=(r.id(), str(r)), expected=(text(m), text(m, True)))
    for (r1, m1), (r2, m2) in itertools.product([(r, m) for r, m in zip(real, model) if m is not None], repeat=2):
        check.expect((r1 == r2) is (m1 == m2) and (r1 != r2) is (m1 != m2), 'equality does not follow from the contents', history=hist, a=repr(r1), b=repr(r2), got=r1 == r2)
        if m1 == m2:
            check.expect(hash(r1) == hash(r2), 'equal configurations have different hashes', history=hist, a=repr(r1), b=repr(r2))
    return structure(model)


def pairs(check):
    """Equality, hash and contents of every kind of pair."""
    from whatami import What
    confs = [lambda: {}, lambda: {'a': 1}, lambda: {'a': 2}, lambda: {'b': 1}, lambda: {'a': 1, 'b': [1]}, lambda: {'b': [1], 'a': 1}, lambda: {'a': What('D', {})},
             lambda: {'a': What('D', {}, out_name='o')}, lambda: {'a': None}, lambda: {'a': What('D', {'a': 1})}, lambda: {'a': What('E', {'a': 1})}]
    combos = list(itertools.product(('C', 'D'), range(len(confs)), ((), ('a',)), (None, 'o')))
    for (n1, c1, non1, o1), (n2, c2, non2, o2) in itertools.product(combos, repeat=2):
        a, b = What(n1, confs[c1](), non1, o1), What(n2, confs[c2](), non2, o2)
        exp = n1 == n2 and o1 == o2 and (c1 == c2 or {c1, c2} == {4, 5})
        check.count()
        check.seen((n1, c1, non1, o1, n2, c2, non2, o2))
        check.expect((a == b) is exp and (a != b) is (not exp), 'wrong equality', a=repr(a), b=repr(b))
        if exp:
            check.expect(hash(a) == hash(b) and len({a, b}) == 1 and {a: 1}.get(b) == 1, 'wrong hash', a=repr(a), b=repr(b))
        else:
            check.expect(len({a, b}) == 2, 'wrong hash', a=repr(a), b=repr(b))
    # anything else
    class Other(object):
        def __init__(self, **kw):
            vars(self).update(kw)

    class Slots(object):
        __slots__ = 'name', 'conf', 'out_name'

    attrs = [('name', 'C'), ('conf', {'a': 1}), ('out_name', None), ('id', lambda: 'C(a=1)'), ('what', lambda: What('C', {'a': 1})), ('non_id_keys', set())]
    others = [Other(**dict(some)) for n in range(len(attrs)) for some in itertools.combinations(attrs, n) if len([k for k, _ in some if k in ('name', 'conf', 'out_name')]) < 3]
    others += [None, 0, 1, '', 'C(a=1)', b'C(a=1)', ('C', {'a': 1}), {'a': 1}, [], What, Other, object(), 1.5, float('nan'), len, lambda: 3, Slots()]
    for name, conf, out in itertools.product(('C', '', 'Other'), ({'a': 1}, {}), (None, 'o')):
        w = What(name, conf, out_name=out)
        for o in others:
            check.count()
            got = outcome(lambda: (w == o, o == w, w != o, o != w, w in [o], o in [w], [w, o].index(o)))
            check.expect(got == ('ok', (False, False, True, True, False, False, 1)), 'a configuration is equal to something else, or cannot be compared', what=repr(w), other=repr(o), got=repr(got))
    for other in (None, 3, 'C()', {}, object(), type):
        check.expect((a == other) is False and (a != other) is True, 'equal to something else', other=repr(other))


def many(check, n):
    """Configurations with many parameters, and deep."""
    from whatami import What

    def make():
        conf = OrderedDict([('k%d' % i, ([i], {'d': [i]}, What('D', {'l': [i]}), i)[i % 4]) for i in range(n)])
        deep = []
        for i in range(min(n, 40)):
            deep = [deep] if i % 3 else What('E', {'z': deep})
        conf['deep'] = deep
        return What('A', dict(conf), non_id_keys=['k%d' % i for i in range(0, n, 3)], out_name='o' if n % 2 else None)

    def innermost(v):
        while True:
            inner = v.conf['z'] if isinstance(v, What) else v[0] if v else None
            if inner is None:
                return v
            v = inner
    ways = {'copy': (What.copy, False), 'deep': (lambda w: w.copy(deep=True), True), 'module': (copy.deepcopy, True), 'set': (lambda w: w.set('new', 1, copy=True), False)}
    for way, (f, deep) in ways.items():
        w = make()
        before = w.id(), w.id(nonids_too=True), set(w.non_id_keys)
        c = f(w)
        check.count()
        check.seen(('many', n, way))
        check.expect((w.id(), w.id(nonids_too=True), w.non_id_keys) == before, 'copying modifies the original', n=n, way=way)
        check.expect(c is not w and c.non_id_keys == w.non_id_keys and c.out_name == w.out_name and (way == 'set' or c == w and c.id() == w.id()), 'the copy is different', n=n, way=way)
        for k in list(w.conf):
            v = c.conf[k]
            check.expect(deep is (v is not w.conf[k]) or isinstance(v, int), 'wrong sharing of a value', n=n, way=way, key=k)
        # modify everything in the copy
        for i in range(n):
            k = 'k%d' % i
            if deep and i % 4 < 3:
                (c.conf[k] if i % 4 == 0 else c.conf[k]['d'] if i % 4 == 1 else c.conf[k].conf['l']).append('x')
            c.conf[k] = None if i % 2 else c.conf[k]
        if deep:
            innermost(c.conf['deep']).append('x')
        c.conf['other'] = 1
        c.non_id_keys.clear()
        c.non_id_keys.add('k1')
        c.name, c.out_name = 'Z', 'z'
        check.expect((w.id(), w.id(nonids_too=True), w.non_id_keys) == before, 'the original reflects the modifications of the copy', n=n, way=way)


def body(check):
    check.parallel(many, (0, 1, 5, 9, 17, 33, 65, 130))
    small = [op for op in OPS if op[0] not in ('copy kw', 'set again', 'set fluent', 'nested set')]
    bfs(check, OPS, run, 3, memory=0)
    if check.thorough:
        bfs(check, small, run, 5, memory=0)
        bfs(check, [op for op in OPS if op[1] < 2], run, 4, memory=1)
    else:
        bfs(check, [op for op in small if op[1] < 2 and op[0] not in ('whatadd existing', 'read', 'del', 'nested replace')], run, 4, memory=0)
    pairs(check)
    check.sample({'history': [['copy', 0], ['nested conf', 1], ['deepcopy', 0], ['list', 0], ['non add', 2]]})


if __name__ == '__main__':
    main('C11', 'model_checking', 'all histories of operations over three configurations derived from each other up to the bound, extended once per different model state '
         '(contents and sharing), each replayed on real objects and compared with the model; distinct ones are different histories', body)
