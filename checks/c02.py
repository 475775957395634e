# coding=utf-8
"""C02: ids are canonical: order, sharing, process and repetition do not matter; reading has no side effects."""
import collections
import hashlib
import itertools
import json
import os
import subprocess
import sys

from mc.core import main, outcome, de_bruijn, in_fork, VERIF, REPO, NPROC
from mc.special import specials, ML, MD, MS, Plain, WithWhat, f, gen
from mc.values import (build, canon, permuted, universe, values, W, S, I, F, T, L, ST, FS, D, NONE, raw_obj, Holder, hashable, distinct, alike)

LIMIT = 400


def build_shared(d, memo):
    """Like build, but equal parts are the same object."""
    if d in memo:
        return memo[d]
    k = d[0]
    if k == 'list':
        o = [build_shared(x, memo) for x in d[1]]
    elif k == 'tuple':
        o = tuple([build_shared(x, memo) for x in d[1]])
    elif k == 'set':
        o = set([build_shared(x, memo) for x in d[1]])
    elif k == 'fset':
        o = frozenset([build_shared(x, memo) for x in d[1]])
    elif k == 'dict':
        o = dict([(build_shared(a, memo), build_shared(b, memo)) for a, b in d[1]])
    elif k == 'what':
        from whatami import What
        o = What(d[1], dict([(key, build_shared(v, memo)) for key, v in d[3]]), non_id_keys=list(d[4]), out_name=d[2])
    elif k == 'wobj':
        o = Holder(build_shared(d[1], memo))
    else:
        o = build(d)
    memo[d] = o
    return o


def rich():
    """Configurations with sharing and order at many levels."""
    inner = W('f', [('b', I(1)), ('a', S('x')), ('n', NONE)], out='o', non=['n', 'zz'])
    st = ST(I(2), I(1), S('a'))
    fs = FS(S('b'), S('a'), I(10))
    dd = D((S('b'), I(1)), (S('a'), st), (I(3), L(I(2), I(1))))
    pieces = [inner, st, fs, dd, L(inner, inner), T(st, st), D((fs, inner), (NONE, inner)), ST(fs, FS(I(10), I(9))), ('wobj', inner),
              L(('wobj', inner), ('wobj', inner)), T(S('same'), S('same')), D((I(10), I(9)), (I(9), I(10)), (S('10'), S('9'))),
              ST(S('a'), S('B'), S("'"), I(0)), ST(T(I(1), I(2)), T(I(2), I(1))), D((T(), T()), (S(''), L())),
              # keys rendered alike
              D((S("'"), I(1)), (S("\\'"), I(2))), ST(S("'"), S("\\'")), D((S("'"), st), (S("\\'"), dd))]
    for p in pieces:
        yield W('C', [('x', p)])
    for p, q in itertools.product(pieces, repeat=2):
        yield W('C', [('b', p), ('a', q), ('n', p)], non=['n', 'x', 'a_'])
        yield W('C', [('b', L(p, q)), ('a', D((S('p'), q), (S('k'), p)))], out='o')
    for p in pieces:
        yield W('C', [('d', p), ('b', p), ('a', T(p, p)), ('c', D((S('q'), p), (S('p'), p)))], non=['a', 'c'])


def ids_of(w):
    return (outcome(w.id), outcome(w.positional_id), outcome(lambda: str(w)), outcome(lambda: w.id(nonids_too=True, maxlength=5)),
            outcome(lambda: w.positional_id(non_ids_too=True)))


def order(check, ds):
    for d in ds:
        expected = ids_of(build(d))
        n = 0
        for p in itertools.islice(permuted(d), 1, LIMIT):
            n += 1
            got = ids_of(build(p))
            if got != expected:
                check.fail('the insertion order changes an id', config=repr(d), permuted=repr(p), expected=expected, got=got)
                break
        check.seen(('order', d))
        memo = {}
        shared = build_shared(d, memo)
        got = ids_of(shared)
        check.expect(got == expected, 'sharing objects changes an id', config=repr(d), expected=expected, got=got)
        again = ids_of(shared)
        check.expect(again == expected, 'repetition changes an id', config=repr(d), expected=expected, got=again)
        check.count(n + 3)
        check.extra['permutations'] = check.extra.get('permutations', 0) + n


READS = [
    ('id', lambda w: w.id()),
    ('id nonids', lambda w: w.id(nonids_too=True)),
    ('id maxlength', lambda w: w.id(maxlength=3)),
    ('positional_id', lambda w: w.positional_id()),
    ('positional_id nonids', lambda w: w.positional_id(non_ids_too=True)),
    ('str', str),
    ('repr', repr),
    ('hash', hash),
    ('eq', lambda w: (w == w.copy(), w == w, w == 3, w != w.copy(deep=True))),
    ('keys', lambda w: w.keys()),
    ('keys all', lambda w: w.keys(True, True, True)),
    ('values', lambda w: w.values()),
    ('values all', lambda w: w.values(non_ids_too=True, collections_too=True)),
    ('flatten', lambda w: w.flatten()),
    ('flatten flat', lambda w: w.flatten(recursive=False)),
    ('get', lambda w: (w.get('x'), w.get(('x', 'a')), w.get('nope', 3), w.get(('x', 0, 1)), w.get(('nope', 'x')))),
    ('getitem', lambda w: [w[k] for k in w.keys(True, True)]),
    ('to_dict', lambda w: outcome(w.to_dict)),
    ('copy', lambda w: w.copy()),
    ('deep copy', lambda w: w.copy(deep=True)),
    ('set copy', lambda w: w.set('new', 1, copy=True)),
]


def purity(check, ds):
    """No read changes anything, whatever was read before: every read after every other read."""
    for d in ds:
        w = build(d)
        before = raw_obj(w)
        nid = ids_of(w)
        for label, read in READS:
            read(w)
            check.count()
            if raw_obj(w) != before:
                check.fail('reading modifies the configuration', read=label, config=repr(d), got=repr(w))
                break
        check.expect(ids_of(w) == nid, 'reading changes the ids', config=repr(d))
        check.seen(('purity', d))


def deep_state(v, depth=0):
    """State of an arbitrary object, with its mutable parts."""
    if depth > 8:
        return '...'
    if isinstance(v, (str, bytes, int, float, complex, type(None), type)):
        return (type(v).__name__, repr(v))
    out = [type(v).__name__, id(v)]
    if isinstance(v, dict):
        out.append([(deep_state(a, depth + 1), deep_state(b, depth + 1)) for a, b in v.items()])
    elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        out.append([deep_state(x, depth + 1) for x in v])
    if hasattr(v, '__dict__'):
        out.append([(k, deep_state(x, depth + 1)) for k, x in vars(v).items() if not k.startswith('__')])
    return out


def special_purity(check, items):
    from whatami import What, whatareyou, is_whatable
    from whatami.plugins import anyobject0x_plugin
    for label, factory, expected in items:
        v = factory()
        before = deep_state(v)
        w = What('C', {'x': v, 'y': [v], 'z': {'k': (v,)}})
        ids = ids_of(w)
        for rl, read in READS:
            if rl in ('deep copy', 'eq', 'to_dict', 'hash', 'get'):  # looking up missing keys in a defaultdict creates them
                continue
            outcome(read, w)
            check.count()
            if deep_state(v) != before:
                check.fail('reading modifies a value', read=rl, value=label)
                break
        is_whatable(v)
        check.expect(deep_state(v) == before and ids_of(w) == ids, 'reading changes the value or the ids', value=label)
        check.seen(('special', label))
    # things that can be consumed
    g = gen()
    it = iter([1, 2])
    for v in (g, it, map(str, [1]), zip([1], [2]), filter(None, [1])):
        w = What('C', {'x': v})
        for rl, read in READS:
            if 'deep' not in rl and rl not in ('eq', 'to_dict'):
                outcome(read, w)
        check.count()
        check.expect(len(list(v)) in (1, 2), 'reading consumes a value', value=type(v).__name__)


def histories(check):
    """All windows of consecutive id generations; each id must be as if it were the only one."""
    from whatami import What
    inner = What('f', {'b': 1, 'a': [1, 2]}, out_name='o')
    shared_list = [1, {'k': (2,)}]
    ws = [
        What('C', {'x': inner}),
        What('C', {'x': [inner, inner], 'n': inner}, ['n']),
        What('C', {'x': shared_list, 'y': {'a': shared_list}}),
        What('C', {'x': len}),  # fails
        What('C', {'x': [inner, sorted]}),  # fails in the middle
        What('C', {'x': WithWhat(shared_list)}),
        What('C', {'x': Plain(), 'f': f, 'l': ML([inner])}),
        What('C', {'x': "it's", 'y': u'\xe9' * 50, 's': {1, 'a', None}}),
        inner,
    ]
    reads = [lambda w: w.id(), lambda w: w.id(maxlength=10), lambda w: w.positional_id(), lambda w: w.id(nonids_too=True)]
    ops = [(i, j) for i in range(len(ws)) for j in range(len(reads) if i < 3 else 1)]
    alone = [in_fork(lambda op=op: outcome(reads[op[1]], ws[op[0]])) for op in ops]
    n = 4 if check.thorough else 3
    seq = de_bruijn(len(ops), n)
    seq = seq + seq[:n - 1]
    check.extra['windows'] = len(ops) ** n
    last = []
    for i in seq:
        got = outcome(reads[ops[i][1]], ws[ops[i][0]])
        check.count()
        last = (last + [i])[-n:]
        if got != alone[i]:
            check.fail('an id depends on the ids generated before', history=[ops[j] for j in last], expected=alone[i], got=got)
            break


def digest(big):
    """Digest per block of ids, to compare processes."""
    out, h = [], hashlib.sha256()
    n = 0
    for src in (universe(big), rich()):
        for d in src:
            h.update(repr(ids_of(build(d))).encode('utf-8', 'backslashreplace'))
            n += 1
            if n % 200 == 0:
                out.append(h.hexdigest())
    for label, factory, _ in specials():
        from whatami import What
        h.update(repr(ids_of(What('C', {'x': factory()}))).encode('utf-8', 'backslashreplace'))
        out.append(h.hexdigest())
    return out


def processes(check):
    seeds = ['0', '1', '42', 'random'] if not check.thorough else ['0', '1', '2', '3', '42', '1000', 'random', 'random']
    procs = []
    for s in seeds:
        env = dict(os.environ, PYTHONHASHSEED=s, VERIF_REPO=REPO)
        procs.append((s, subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'checks.c02', 'digest', '1' if check.thorough else '0'], cwd=VERIF, env=env,
                                          stdout=subprocess.PIPE)))
    here = digest(check.thorough)
    check.extra['processes'] = len(seeds)
    for s, p in procs:
        got = json.loads(p.communicate()[0].decode().splitlines()[-1])
        check.count(len(got))
        if got != here:
            block = [i for i, (a, b) in enumerate(zip(here, got)) if a != b][:1]
            check.fail('ids change from process to process', seed=s, block=block)


def body(check):
    ds = list(universe(True)) if check.thorough else list(itertools.islice(universe(True), 0, None, 2))
    many = [d for d in ds if len(list(itertools.islice(permuted(d), 2))) > 1]
    many += [W('C', [('z', v), ('x', v)], non=['q', 'b', 'z']) for v in itertools.islice(values(), 0, None, 9)]
    near = [W('C', [('x', d)]) for d in alike()]
    many += near if check.thorough else near[::3] + near[1::21]
    more = list(rich())
    check.extra['configurations_with_several_orders'] = len(many) + len(more)
    check.parallel(order, [many[i:i + 100] for i in range(0, len(many), 100)] + [[d] for d in more])
    check.sample({'config': repr(more[0]), 'orders': [repr(p) for p in itertools.islice(permuted(more[0]), 3)]})
    pure = more + list(itertools.islice(universe(), 0, None, 3 if check.thorough else 12))
    pure += [W('C', [('x', D((S(k), D((S(k), inner))), (S('y'), I(1))))]) for k in ('__class__', '__dict__', 'class', 'what', 'seq', 'conf', 'name', '', 'None', '_', 'keys')
             for inner in (NONE, L(I(1)), D((S(k), NONE)), W('f', [(k or 'k', D((S(k), NONE)))], non=[k or 'k']))]
    check.parallel(purity, [pure[i:i + 50] for i in range(0, len(pure), 50)])
    check.parallel(special_purity, [[x] for x in specials()])
    histories(check)
    processes(check)


if __name__ == '__main__':
    if sys.argv[1:2] == ['digest']:
        from mc.core import import_whatami
        import_whatami()
        print(json.dumps(digest(sys.argv[2] == '1')))
        sys.exit(0)
    main('C02', 'exploration',
         'one evaluation per (configuration, insertion order or sharing, all its ids), per (configuration, reading operation, full state before and after), '
         'per step of a de Bruijn history of id generations and per block of ids compared between processes; distinct ones are different configurations', body)
