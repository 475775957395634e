# coding=utf-8
"""C18: column values are distributed to records as documented."""
import itertools
from collections import OrderedDict, defaultdict

from mc.core import main

MISSING = object()


class Twice(object):
    """A re-iterable that is not a collection."""
    def __init__(self, *values):
        self.values = values

    def __iter__(self):
        return iter(self.values)


# name: (factory, kind)   kind: 'each' values are distributed, 'same' all the records have it, 'map' for some ids
COLUMNS = OrderedDict([
    ('int', (lambda: 1, 'same')), ('none', (lambda: None, 'same')), ('zero', (lambda: 0, 'same')), ('string', (lambda: 'xyz', 'same')), ('empty string', (lambda: '', 'same')), ('word', (lambda: 'wxyz', 'same')), ('false', (lambda: False, 'same')),
    ('one', (lambda: [10], 'each')), ('two', (lambda: [10, 20], 'each')), ('three', (lambda: (10, None, 30), 'each')), ('four', (lambda: [[1], 'a', (), {}], 'each')), ('no values', (lambda: [], 'each')),
    ('empty tuple', (lambda: (), 'each')), ('iterator', (lambda: iter([10, 20, 30, 40]), 'each')), ('short iterator', (lambda: iter(['a']), 'each')), ('generator', (lambda: (x for x in 'pq'), 'each')), ('range', (lambda: range(5), 'each')),
    ('reiterable', (lambda: Twice(5, 6), 'each')), ('falsies', (lambda: [0, '', None], 'each')),
    ('dict all', (lambda: {'a': 1, 'b': 2, 'c': 3, '7': 4}, 'map')), ('dict some', (lambda: {'b': [1, 2], 'zz': 5}, 'map')), ('dict none', (lambda: {'zz': 5}, 'map')), ('empty dict', (lambda: {}, 'map')),
    ('dict falsies', (lambda: {'a': None, 'c': 0}, 'map')), ('ordered dict', (lambda: OrderedDict([('b', 2), ('a', 1)]), 'map')), ('dict subclass', (lambda: defaultdict(list, {'a': 1, 'zz': 2}), 'map')),
])
ONE_SHOT = ('iterator', 'short iterator', 'generator')

# name: (factory, ids, several)
IDS = OrderedDict([
    ('single', (lambda: 'a', ['a'], False)), ('number', (lambda: 7, ['7'], False)), ('none', (lambda: None, ['None'], False)), ('long string', (lambda: 'abc', ['abc'], False)),
    ('one in a list', (lambda: ['a'], ['a'], True)), ('one in an iterator', (lambda: iter('a'), ['a'], True)), ('one in a set', (lambda: {'b'}, ['b'], True)),
    ('two', (lambda: ['a', 'b'], ['a', 'b'], True)), ('three', (lambda: ('c', 'a', 'b'), ['c', 'a', 'b'], True)), ('iterator', (lambda: iter(['b', 'a']), ['b', 'a'], True)),
    ('numbers', (lambda: [7, 'b', 7.5], ['7', 'b', '7.5'], True)), ('generator', (lambda: (x for x in 'cb'), ['c', 'b'], True)), ('no ids', (lambda: [], [], True)), ('odd ids', (lambda: ['default', 'self', 'items', 'params'], ['default', 'self', 'items', 'params'], True)), ('empty id', (lambda: ['', ' ', 'a b'], ['', ' ', 'a b'], True)), ('keys', (lambda: {'a': 1, 'b': 2}, ['a', 'b'], True)),
])


def distributed(column, ids, unbox, value):
    """[value for each id] (MISSING when the record has no such column)."""
    factory, kind = COLUMNS[column]
    if kind == 'map':
        return [value.get(i, MISSING) for i in ids]
    if kind == 'same' or not unbox:
        return [value] * len(ids)
    values = list(factory())
    return [values[n] if n < len(values) else None for n in range(len(ids))]


def expected_records(ids, columns, unbox, values, id_col='id', extra=None):
    out = OrderedDict([(i, {id_col: i}) for i in ids])
    for c, name in columns.items():
        for i, v in zip(ids, distributed(name, ids, unbox, values[c])):
            if v is not MISSING:
                out[i][c] = v
    return out


def same(got, expected):
    return list(got) == list(expected) and all(dict(got[i]) == expected[i] and all(got[i][c] is v or not hasattr(v, '__next__') for c, v in expected[i].items()) for i in expected)


def direct(check, item):
    from whatami.registry import Recorder
    ids_name, c1, c2 = item
    factory, ids, several = IDS[ids_name]
    for unbox in (True, False):
        columns = OrderedDict((k, v) for k, v in (('p', c1), ('q', c2)) if v is not None)
        if not several and unbox and any(COLUMNS[c][1] == 'each' for c in columns.values()):
            continue   # not documented
        for by_name in (False, True):
            values = {c: COLUMNS[n][0]() for c, n in columns.items()}
            expected = expected_records(ids, columns, unbox, values)
            rec = Recorder()
            kwargs = dict(values)
            if not unbox:
                kwargs['unbox_iterables'] = False
            got = rec.add(ids=factory(), **kwargs) if by_name else rec.add(factory(), **kwargs)
            check.count()
            check.seen((item, unbox, by_name))
            check.expect(same(got, expected) and [rec.get(i)[0] for i in ids] == list(expected.values()) and len(rec) == len(ids), 'values are not distributed as documented', ids=ids_name, columns=repr(dict(columns)), unbox=unbox,
                         got=repr(got), expected=repr(expected))
            # The defaults of the columns are only for the records without a value
            values = {c: COLUMNS[n][0]() for c, n in columns.items()}
            expected = expected_records(ids, columns, unbox, values)
            for r in expected.values():
                for c in ('p', 'r'):
                    r.setdefault(c, 'default ' + c)
            rec = Recorder(p='default p', r='default r')
            kwargs = dict(values) if unbox else dict(values, unbox_iterables=False)
            got = rec.add(ids=factory(), **kwargs) if by_name else rec.add(factory(), **kwargs)
            check.count()
            check.expect(same(got, expected), 'defaults are not used only for the records without a value', ids=ids_name, columns=repr(dict(columns)), unbox=unbox, got=repr(got), expected=repr(expected))
    # Other ways of extracting ids
    if several and ids_name in ('two', 'three', 'iterator') and c1 is not None and c2 is None:
        from whatami import what2id
        for extractor, f in ((None, lambda x: x), (what2id, lambda x: x), (lambda x: 'id-%s' % x, lambda x: 'id-%s' % x)):
            new_ids = [f(i) for i in ids]
            values = {'p': COLUMNS[c1][0]()}
            expected = expected_records(new_ids, {'p': c1}, True, values, id_col='key')
            got = Recorder(id_column_name='key', id_extractor=extractor).add(factory(), **values)
            check.count()
            check.seen((item, 'extractor', repr(new_ids)))
            check.expect(same(got, expected), 'values are not distributed as documented', ids=ids_name, columns=c1, extracted=new_ids, got=repr(got), expected=repr(expected))


# --- Currying

def splittings(names, most):
    """All the ways of giving each name in one of up to `most` steps."""
    for where in itertools.product(range(most), repeat=len(names)):
        yield [[n for n, w in zip(names, where) if w == s] for s in range(most)]


def tag(an_id, record, recorder):
    return dict(record, tag='t%d' % len(recorder))


def curried(check, item):
    from whatami.registry import Recorder
    ids_name, columns, unbox, how, overridden = item
    factory, ids, several = IDS[ids_name]
    names = list(columns) + (['unbox_iterables'] if not unbox else []) + ['record_postprocessors']
    for steps in splittings(names, len(how) + 1):
        values = {c: COLUMNS[n][0]() for c, n in columns.items()}
        options = {'unbox_iterables': False, 'record_postprocessors': [tag]}
        expected = expected_records(ids, columns, unbox, values)
        for r in expected.values():
            r['tag'] = 't0'
        rec = Recorder()
        f = rec.add
        intermediate = []
        for s, (kind, given) in enumerate(zip(how, steps)):
            kwargs = {n: values.get(n, options.get(n)) for n in given}
            if s == 0 and overridden:
                for n in names:
                    if n not in given and n in columns:
                        kwargs[n] = 'to be replaced'
            intermediate.append((f, kwargs))
            if kind == 'curry':
                f = f(**kwargs) if kwargs else f
            else:
                f = rec.padd(**kwargs) if s == 0 else rec.padd(add=f, **kwargs)
            intermediate.append((f, None))
        last = {n: values.get(n, options.get(n)) for n in steps[-1]}
        check.count()
        check.seen((ids_name, tuple(columns.items()), unbox, how, overridden, repr(steps)))
        try:
            got = f(factory(), **last)
        except Exception as e:
            check.fail('a partially applied add fails', ids=ids_name, columns=repr(dict(columns)), how=how, steps=repr(steps), error=repr(e))
            continue
        check.expect(same(got, expected) and len(rec) == len(ids), 'giving the arguments in several steps gives other records', ids=ids_name, columns=repr(dict(columns)), how=how, steps=repr(steps), overridden=overridden,
                     got=repr(got), expected=repr(expected))
        # The last one can be used again, with other ids and values
        if any(c in ONE_SHOT for c in columns.values()):
            continue
        before = len(rec)
        got = f(['u', 'v'], **dict(last, p='again', r=[1, 2]))
        exp = expected_records(['u', 'v'], columns, unbox, values)
        for n, i in enumerate(exp):
            exp[i].update(p='again', r=n + 1 if unbox else [1, 2], tag='t%d' % before)
        check.expect(same(got, exp), 'a partially applied add cannot be used again', ids=ids_name, columns=repr(dict(columns)), how=how, steps=repr(steps), got=repr(got), expected=repr(exp))
        # and the previous ones do not know about the later ones
        if how and not overridden:
            got = rec.padd(w=1)('alone')
            check.expect(dict(got) == {'alone': {'id': 'alone', 'w': 1}}, 'padd has remembered values', how=how, steps=repr(steps), got=repr(got))
            first, kwargs = intermediate[0]
            got = first('first')
            check.expect(dict(got) == {'first': {'id': 'first'}}, 'add has remembered values', how=how, steps=repr(steps), got=repr(got))


def trees(check):
    """Partial adds that share their beginning are independent, and each recorder has its own."""
    from whatami.registry import Recorder
    ways = [('curry', lambda rec, f, kw: f(**kw)), ('padd', lambda rec, f, kw: rec.padd(add=f, **kw))]
    for (n1, w1), (n2, w2), (n3, w3) in itertools.product(ways, repeat=3):
        for order in itertools.permutations(range(4)):
            a, b = Recorder('a'), Recorder('b', q='default')
            root = w1(a, a.add, {'p': 1})
            left, right = w2(a, root, {'q': 'left'}), w3(a, root, {'p': 2, 's': [5, 6]})
            other = w1(b, b.add, {'p': 3})
            calls = [(a, root, 'r', {'r': {'id': 'r', 'p': 1}}), (a, left, ['l1', 'l2'], {i: {'id': i, 'p': 1, 'q': 'left'} for i in ('l1', 'l2')}),
                     (a, right, ['r1', 'r2', 'r3'], {i: {'id': i, 'p': 2, 's': s} for i, s in (('r1', 5), ('r2', 6), ('r3', None))}), (b, other, 'r', {'r': {'id': 'r', 'p': 3, 'q': 'default'}})]
            for i in order:
                rec, f, ids, exp = calls[i]
                got = f(ids)
                check.count()
                check.expect({k: dict(v) for k, v in got.items()} == exp, 'partial adds are not independent', how=(n1, n2, n3), order=order, got=repr(got), expected=exp)
            check.seen((n1, n2, n3, order))
            check.expect(len(a) == 6 and len(b) == 1, 'recorders are not independent', how=(n1, n2, n3), order=order)


def many(check, n):
    """Many ids, values and columns."""
    from whatami.registry import Recorder
    ids = ['id-%d' % i for i in range(n)]
    for given, unbox in itertools.product((n - 1, n, n + 3), (True, False)):
        values = list(range(given))
        cols = {'list': list(values), 'tuple': tuple(values), 'iter': iter(values), 'range': range(given), 'gen': (v for v in values)} if unbox else {'list': list(values), 'tuple': tuple(values)}
        cols.update(dict={i: v for i, v in zip(ids, values) if v % 3}, same=5, text='x' * n)
        cols.update({'c%d' % i: list(range(i, given + i)) for i in range(20)})
        fixed = {k: v for k, v in cols.items() if isinstance(v, (list, tuple))}
        for how in ('direct', 'curried', 'partial'):
            now = dict(cols, **({'iter': iter(values), 'gen': (v for v in values)} if unbox else {}))
            rec = Recorder(same='never', other='default')
            if how == 'direct':
                got = rec.add(ids=list(ids), unbox_iterables=unbox, **now)
            else:
                add = rec.add(unbox_iterables=unbox) if how == 'curried' else rec.padd(unbox_iterables=unbox)
                for c in sorted(now):
                    add = add(**{c: now[c]}) if how == 'curried' else rec.padd(add, **{c: now[c]})
                got = add(ids=iter(ids))
            check.count(n)
            check.seen((n, given, unbox, how))
            for i, an_id in enumerate(ids):
                exp = {'id': an_id, 'same': 5, 'text': 'x' * n, 'other': 'default'}
                for c in cols:
                    if c in fixed and not unbox:
                        exp[c] = fixed[c]
                    elif c in ('list', 'tuple', 'iter', 'range', 'gen') or c in fixed:
                        exp[c] = (i + int(c[1:]) if c[0] == 'c' else i) if i < given else None
                if i < given and i % 3:
                    exp['dict'] = i
                check.expect(got[an_id] == exp, 'values are not distributed as documented', n=n, given=given, unbox=unbox, how=how, id=an_id, got=repr(got[an_id])[:300], expected=repr(exp)[:300])
            check.expect(list(got) == ids, 'the records are not in order', n=n)


def body(check):
    check.parallel(many, (5, 12, 40, 130, 300))
    names = list(COLUMNS)
    items = [(i, None, None) for i in IDS] + [(i, c, None) for i in IDS for c in names]
    pairs = names
    items += [(i, c1, c2) for i in IDS for c1, c2 in itertools.product(pairs, repeat=2)]
    check.parallel(direct, items)
    hows = [(), ('curry',), ('padd',), ('curry', 'curry'), ('curry', 'padd'), ('padd', 'padd')] + ([('padd', 'curry')])
    if check.thorough:
        hows += [('curry', 'curry', 'curry'), ('curry', 'padd', 'padd'), ('padd', 'padd', 'padd'), ('curry', 'curry', 'padd')]
    items = []
    for ids_name, how, unbox, overridden in itertools.product(('one in a list', 'two', 'three', 'iterator', 'single'), hows, (True, False), (False, True)):
        for c1, c2 in [('int', 'two'), ('two', 'dict some'), ('string', 'three'), ('iterator', 'none'), ('dict all', 'no values'), ('falsies', 'generator')] + ([(a, b) for a, b in itertools.product(names, repeat=2)] if check.thorough and len(how) < 3 else []):
            if ids_name == 'single' and any(COLUMNS[c][1] == 'each' for c in (c1, c2)):
                continue
            items.append((ids_name, OrderedDict([('p', c1), ('q', c2)]), unbox, how, overridden))
    check.parallel(curried, items)
    trees(check)
    check.sample({'ids': 'iterator', 'columns': {'p': 'short iterator', 'q': 'dict some'}, 'unbox': True})
    check.sample({'steps': [['curry', {'p': 'to be replaced'}], ['padd', {'unbox_iterables': False}], ['call', {'p': [10, 20]}]]})


if __name__ == '__main__':
    main('C18', 'exploration', 'all combinations of lists of ids, kinds of column values and unboxing, directly and with all the ways of giving the arguments in several curry or padd steps, and all orders of using partial adds that share their beginning; '
         'distinct ones are different combinations', body)
