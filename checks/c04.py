# coding=utf-8
"""C04: ids follow one fixed textual format."""
import itertools

from mc.core import main, outcome
from mc.values import build, canon, ref, ref_positional, universe, W, S, T, L, D, ST, values, numbers, alike, C, NESTED
from mc.special import specials, refused, numpy_specials
from checks.c01 import injections


def chunk(check, ds):
    for d in ds:
        w = build(d)
        check.count(3)
        check.seen(ref(d))
        got = w.id()
        check.expect(got == ref(d) and type(got) is str, 'the id does not follow the format', config=repr(d), got=got, expected=ref(d))
        got = w.positional_id()
        check.expect(got == ref_positional(d), 'the positional id does not follow the format', config=repr(d), got=got, expected=ref_positional(d))
        check.expect(str(w) == ref(d, nonids_too=True), 'str does not follow the format', config=repr(d), got=str(w))


# (label, what to do with the factory of the value, the template of the rendering)
def key_able(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


POSITIONS = [
    ('parameter', lambda x: x(), '%s', False),
    ('list', lambda x: [x()], '[%s]', False),
    ('list 2', lambda x: [x(), x()], '[%s,%s]', False),
    ('tuple', lambda x: (x(),), '(%s)', False),
    ('tuple 2', lambda x: (None, x()), '(None,%s)', False),
    ('dict value', lambda x: {'k': x()}, "{'k':%s}", False),
    ('set', lambda x: {x()}, '{%s}', True),
    ('frozenset', lambda x: frozenset([x()]), 'frozenset({%s})', True),
    ('dict key', lambda x: {x(): 1}, '{%s:1}', True),
    ('deep', lambda x: [({'k': [x()]},)], "[({'k':[%s]})]", False),
]


def special(check, item):
    from whatami import What
    label, factory, expected = item
    for pos, wrap, template, needs_hash in POSITIONS:
        if needs_hash and not key_able(factory()):
            continue
        check.count(3)
        check.seen((label, pos))
        n = template.count('%s')
        text = template % ((expected,) * n)
        v = wrap(factory)
        for w, e in ((What('C', {'x': v, 'a': 1}), 'C(a=1,x=%s)' % text),
                     (What('C', {'x': What('D', {'y': v}, out_name='o')}), 'C(x=o=D(y=%s))' % text)):
            got = outcome(w.id)
            check.expect(got == ('ok', e), 'the id of a special value does not follow the format', value=label, position=pos, got=got, expected=e)
        got = outcome(What('C', {'x': v, 'a': 1}).positional_id)
        check.expect(got == ('ok', 'C(1,%s)' % text), 'the positional id of a special value does not follow the format', value=label, position=pos,
                     got=got, expected='C(1,%s)' % text)


def pairs(check, items):
    """Two special values: sorted by their rendering in sets and dictionaries, kept in order in others."""
    from whatami import What
    (l1, f1, e1), (l2, f2, e2) = items
    both_hash = key_able(f1()) and key_able(f2())
    check.count(4)
    check.seen((l1, l2))
    tests = [([f1(), f2()], '[%s,%s]' % (e1, e2)), ((f1(), f2()), '(%s,%s)' % (e1, e2)),
             ({'a': f1(), 'b': f2()}, "{'a':%s,'b':%s}" % (e1, e2))]
    if both_hash:
        a, b = f1(), f2()
        if a != b:
            tests.append(({a, b}, '{%s}' % ','.join(sorted([e1, e2]))))
            tests.append(({b: 1, a: 2}, '{%s}' % ','.join(sorted([e1 + ':2', e2 + ':1']))))
    for v, text in tests:
        got = outcome(What('C', {'x': v}).id)
        check.expect(got == ('ok', 'C(x=%s)' % text), 'the id of two special values does not follow the format', values=[l1, l2], got=got, expected=text)


def refusals(check):
    from whatami import What
    for label, v in refused():
        for pos, wrap, template, needs_hash in POSITIONS:
            check.count()
            check.seen(('refused', label, pos))
            for w in (What('C', {'x': wrap(lambda: v)}), What('C', {'x': What('D', {'y': wrap(lambda: v)})})):
                got = outcome(w.id)
                check.expect(got[0] == 'error', 'a value that cannot be identified got an id', value=label, position=pos, got=got)
            # but non-id values are not rendered
            got = outcome(What('C', {'x': wrap(lambda: v), 'a': 1}, ['x']).id)
            check.expect(got == ('ok', 'C(a=1)'), 'a non-id value that cannot be identified is a problem', value=label, position=pos, got=got)


def body(check):
    def configs():
        for d in universe(big=True):
            yield d
        for d in injections(5 if check.thorough else 4, 2 if check.thorough else 1):
            yield d
        for d in numbers():
            yield W('C', [('x', d)])
            yield W('C', [('x', T(L(d), D((d, ST(d)))))])
        for name in NESTED:
            yield W('C', [('x', C(name)), ('y', L(C(name), T(C(name))))])
        for d in alike():
            yield W('C', [('x', d)])
        for i, d in enumerate(values()):
            if i % 5 == 0 or check.thorough:
                yield W('C', [('x', ('wobj', W('w', [('y', d), ('b', d)], out='o', non=['b'])))])
                yield W('C', [('z', d), ('x', d), ('y', d)], out='o', non=['z'])
    ds = list(dict.fromkeys(configs()))
    check.parallel(chunk, [ds[i:i + 300] for i in range(0, len(ds), 300)])
    sp = specials() + numpy_specials()
    check.parallel(special, sp)
    plain = specials()  # numpy scalars cannot be compared to everything
    check.parallel(pairs, list(itertools.product(plain, plain if check.thorough else plain[::3])))
    refusals(check)
    for d in ds[5:7]:
        check.sample({'config': repr(d), 'id': build(d).id()})
    for label, factory, e in sp[::25]:
        check.sample({'value': label, 'rendering': e})


if __name__ == '__main__':
    main('C04', 'exploration',
         'one evaluation per (configuration description, rendering) compared with the reference serializer, and per (special value, container position) '
         'compared with its documented rendering; distinct ones have different texts or positions', body)
