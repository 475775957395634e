# coding=utf-8
"""C22: dictionaries of configurations are complete and plain."""
import itertools
import json

from mc.core import main
from mc.values import (universe, ref, build, strings_of, unpaired_backslash_end, canon_str, W, I, S, L, T, D, ST, FS, F, B, NONE, containers, hashable)


def parsed(d):
    """The exact value (types count) that the dictionary must have for a description, as a hashable."""
    k = d[0]
    if k == 'none':
        return ('none',)
    if k == 'str':
        return ('str', canon_str(d[1]))
    if k == 'float':
        return ('float', repr(float(d[1])))
    if k in ('int', 'bool'):
        return (k, d[1])
    if k in ('list', 'tuple'):
        return (k, tuple([parsed(x) for x in d[1]]))
    if k in ('set', 'fset'):
        return (k, frozenset([kept(x) for x in d[1]]))
    if k == 'dict':
        return ('dict', frozenset([(kept(a), parsed(b)) for a, b in d[1]]))
    if k == 'what':
        if empty_set_name(d):
            return ('set' if d[1] == 'set' else 'fset', frozenset())
        return converted(d)
    if k == 'cls':
        return ('cls', d[1])
    raise ValueError(d)


def empty_set_name(d):
    return d[0] == 'what' and d[1] in ('set', 'frozenset') and d[2] is None and not d[3]


def converted(d, nonids_too=False):
    return ('dict', frozenset([(('str', 'whatami_name'), ('str', d[1])), (('str', 'whatami_out_name'), ('none',) if d[2] is None else ('str', d[2])),
                               (('str', 'whatami_conf'), ('dict', frozenset([(('str', k), parsed(v)) for k, v in d[3] if nonids_too or k not in d[4]])))]))


def kept(d):
    """Values that are not converted: the members of sets and the keys of dictionaries."""
    if d[0] == 'what' and not empty_set_name(d):
        return ('what', d[1], d[2], frozenset([(k, kept(v)) for k, v in d[3]]))
    if d[0] in ('list', 'tuple'):
        return (d[0], tuple([kept(x) for x in d[1]]))
    if d[0] in ('set', 'fset'):
        return (d[0], frozenset([kept(x) for x in d[1]]))
    if d[0] == 'dict':
        return ('dict', frozenset([(kept(a), kept(b)) for a, b in d[1]]))
    return parsed(d)


def seen_as(o):
    """The same for a real object."""
    from whatami import What
    t = type(o)
    if o is None:
        return ('none',)
    if t in (bool, int, str):
        return (t.__name__, o)
    if t is float:
        return ('float', repr(o))
    if t in (list, tuple):
        return (t.__name__, tuple([seen_as(x) for x in o]))
    if t in (set, frozenset):
        return ('set' if t is set else 'fset', frozenset([seen_as(x) for x in o]))
    if t is dict:
        return ('dict', frozenset([(seen_as(a), seen_as(b)) for a, b in o.items()]))
    if isinstance(o, What):
        return ('what', o.name, o.out_name, frozenset([(k, seen_as(v)) for k, v in o.conf.items()]))
    if isinstance(o, type):
        return ('cls', o.__qualname__ if o.__module__ == 'builtins' else o.__module__ + '.' + o.__qualname__)
    return ('unknown', repr(o))


def jsonable(d):
    k = d[0]
    if k in ('none', 'bool', 'int', 'float', 'str'):
        return True
    if k == 'list' or k == 'tuple':
        return all(jsonable(x) for x in d[1])
    if k == 'dict':
        return all(a[0] == 'str' and jsonable(b) for a, b in d[1])
    return k == 'what' and all(jsonable(v) for _, v in d[3])


def as_json(x):
    """What JSON can keep: no tuples."""
    if isinstance(x, (list, tuple)):
        return [as_json(y) for y in x]
    if isinstance(x, dict):
        return {k: as_json(v) for k, v in x.items()}
    return x


def nested():
    """Configurations with configurations at each kind of place."""
    inner = [W('N'), W('N', [('p', I(1))]), W('N', [('p', I(1))], out='o'), W('N', [('p', W('M', [('q', NONE)], out='r'))])]
    places = []
    for a in inner:
        places += [a, L(a), T(a), T(I(1), a), D((S('k'), a)), L(L(a)), L(T(D((S('k'), a)))), D((S('k'), L(a))), T(D((S('j'), I(1)), (S('k'), a))), D((S('k'), D((S('k'), a)))), ST(a), FS(a), D((a, I(1))), D((a, a)), ST(T(a)), W('O', [('x', L(a))]),
                   W('O', [('x', a), ('y', L(T(a), I(1)))], out='z'), D((T(a), L(a)))]
    for v in places:
        yield W('C', [('x', v)])
        yield W('C', [('x', v), ('y', S('y'))], out='o')
        yield W('C', [('x', v), ('y', S('y'))], non=('y',))
        yield W('C', [('x', v), ('y', S('y'))], out='o', non=('x',))
        yield W('C', [('x', v)], non=('x', 'other'))
        yield W('C', [('x', v), ('y', S('y'))], out='o', non=('x', 'y'))
    for v, w in itertools.product(places[::3], repeat=2):
        yield W('C', [('x', L(v, w))])
        yield W('C', [('x', v), ('y', w)])


def run(check, chunk):
    from whatami import What
    from whatami.whatutils import id2dict
    out = []
    for d in chunk:
        if any(unpaired_backslash_end(s) for s in strings_of(d)):
            continue
        text = ref(d)
        exp = converted(d)
        got = id2dict(text)
        check.count()
        check.seen(text)
        check.expect(type(got) is dict and seen_as(got) == exp, 'the dictionary is not the converted configuration', id=text, got=repr(got), expected=repr(exp))
        what = build(d)
        for kwargs, exp2 in (({}, exp), ({'nonids_too': True}, converted(d, True)), ({'nonids_too': False}, exp)):
            got2 = what.to_dict(**kwargs)
            if kwargs and not d[4]:
                continue
            check.expect(seen_as(got2) == exp2, 'to_dict does not give the converted configuration', what=repr(what), options=repr(kwargs), got=repr(got2), expected=repr(exp2))
        out.append((hash(seen_as(got)), text))
        if jsonable(d):
            check.extra['json'] = check.extra.get('json', 0) + 1
            try:
                back = json.loads(json.dumps(got))
            except (TypeError, ValueError) as e:
                check.fail('the dictionary cannot be serialised', id=text, got=repr(got), error=repr(e))
                continue
            check.expect(repr(seen_as(back)) == repr(seen_as(as_json(got))) or seen_as(back) == seen_as(as_json(got)), 'JSON gives something else', id=text, got=repr(back), expected=repr(got))
        # a new one each time
        got.clear()
        check.expect(seen_as(id2dict(text)) == exp, 'the dictionary is shared', id=text)
    return out


def body(check):
    descriptions = list(nested()) + list(universe(check.thorough))
    chunks = [descriptions[i::64] for i in range(64)]
    table = {}

    def collect(_, r):
        for h, text in r or ():
            if table.setdefault(h, text) != text:
                check.fail('different ids give the same dictionary', a=table[h], b=text)
    check.parallel(run, chunks, collect=collect)
    from whatami.whatutils import id2dict
    check.extra['different_dictionaries'] = len(table)
    check.sample("o=C(x=[(N(p=1),{'k':o=N()})],y={N():1})")


if __name__ == '__main__':
    main('C22', 'exploration', 'all the configurations of the bounded universe, and configurations nested at all the kinds of places, converted and compared with a reference conversion (types count), serialised as JSON when possible, '
         'all pairs compared for injectivity through a dictionary; distinct ones are different ids', body)
