# coding=utf-8
"""C03: parsing an id gives back the configuration."""
import itertools

from mc.core import main
from mc.values import (build, canon, canon_obj, universe, W, S, I, T, L, ST, FS, D, C, NONE, values, containers, SMALL, chains,
                       unpaired_backslash_end, strings_of, numbers, alike, collapses, NESTED)
from checks.c01 import injections

# Classes that cannot be imported back (or whose name is not reachable): documented fallback
UNIMPORTABLE = ['nomodule.Nope', 'collections.NoSuchClass', '__main__.f.<locals>.K', 'no.such.module.K', 'K']


def one(check, d):
    from whatami import parse_whatid, What
    original = build(d)
    whatid = original.id()
    check.count()
    check.seen(canon(d))
    try:
        parsed = parse_whatid(whatid)
    except Exception as e:
        check.fail('the id of a configuration cannot be parsed: %s %s' % (type(e).__name__, e), whatid=whatid, config=repr(d))
        return
    if not check.expect(isinstance(parsed, What), 'parsing does not give a What', whatid=whatid, got=repr(parsed)):
        return
    check.expect(parsed.non_id_keys == set(), 'parsed configuration has non id keys', whatid=whatid)
    check.expect(list(parsed.conf) is not None and canon_obj(parsed) == canon(d), 'round trip changes the configuration', whatid=whatid,
                 config=repr(d), got=repr(parsed))
    again = parsed.id()
    check.expect(again == whatid, 'round trip changes the id', whatid=whatid, got=again)


def body(check):
    big = check.thorough

    def configs():
        for d in universe(big=big):
            yield d
        for d in injections(5 if big else 4, 2 if big else 1):
            yield d
        for d in chains(5 if big else 4, leafs=(S(" '"), FS(), W('infx', [('a', NONE)], out='o'))[:3 if big else 1]):
            yield W('C', [('x', d)])
        for i, d in enumerate(numbers()):
            yield W('C', [('x', d)])
            if big or i % 4 == 0:
                yield W('C', [('x', T(L(d), D((d, ST(d)))))])
        for d in itertools.islice(alike(), 0, None, 1 if big else 6):
            yield W('C', [('x', d)])
        if big:
            for d in values(big=False):
                yield W('C', [('x', d), ('y', d)], out='o')
                yield W('C', [('x', W('D', [('y', T(d, NONE))], out='p'))])

    ds = list(dict.fromkeys(d for d in configs() if not any(unpaired_backslash_end(s) for s in strings_of(d)) and not collapses(d)))
    check.parallel(chunk, [ds[i:i + 200] for i in range(0, len(ds), 200)])
    for d in ds[:2] + ds[-2:]:
        check.sample({'config': repr(d), 'id': build(d).id()})

    # Known finding: strings ending with an unpaired backslash
    from whatami import What, parse_whatid
    for i, s in enumerate(('\\', 'a\\', 'C:\\dir\\', "it's\\", '\\\\\\')):
        check.count()
        whatid = What('C', {'x': s}).id()
        try:
            ok = canon_obj(parse_whatid(whatid).conf['x']) == canon(S(s))
        except Exception:
            ok = False
        if not ok:
            check.fail('strings ending with an unpaired backslash do not round trip', known_key='backslash-%d' % i, value=s, whatid=whatid)

    # Nested classes cannot be imported by their names
    for name in NESTED:
        for d in (C(name), L(C(name))):
            check.count()
            v = parse_whatid(build(W('C', [('x', d)])).id()).conf['x']
            v = v[0] if isinstance(v, list) else v
            check.expect(v is build(C(name)) or (type(v) is dict and v == {'class': name}), 'nested class is neither itself nor {"class": name}', name=name, got=repr(v))

    # Classes that cannot be imported
    for name in UNIMPORTABLE:
        for tmpl in ("C(x=%s)", "C(x=[%s])", "C(x=(1,%s))", "C(x={'a':%s})", "C(x=D(y=%s),z=1)"):
            check.count()
            w = parse_whatid(tmpl % ("<class '%s'>" % name))
            x = w.conf['x']
            v = x[0] if isinstance(x, list) else x[1] if isinstance(x, tuple) else x.conf['y'] if isinstance(x, What) else \
                x['a'] if list(x) == ['a'] else x
            check.expect(v == {'class': name} and type(v) is dict, 'class that cannot be imported is not {"class": name}', whatid=tmpl % name, got=repr(w))


def chunk(check, ds):
    for d in ds:
        one(check, d)


if __name__ == '__main__':
    main('C03', 'exploration',
         'one evaluation per configuration description of the bounded universe: real id -> real parser -> type-aware comparison with the description '
         '-> id again; distinct ones are different as configurations', body)
