# coding=utf-8
"""C21: columns extracted from ids hold each row's own values."""
import itertools

from mc.core import main

IDS = ["A(a=1,n=B(x='p'))", "A(a=2,b='s')", "Z(a='t',n=B(x=2,y=None))", "A(l=[1,2],d={'k':5})", "A()", "A(a=None,n=C())", "o=A(a=1.5,b=(1,'2'),n=B(x=D(z=1)))", "F(a=0,b='',n=B(x=False),l=[],d={})"]
REQUESTS = [None, (), ['a'], ['n', ('n', 'x')], [['n', 'x'], 'zz'], [('n', 'x', 'z'), 'b'], [('l', 1), ('d', 'k'), ('a', 'zz')], ('b', 'a')]
AFFIXES = [{}, {'prefix': 'pre_'}, {'postfix': '_post', 'prefix': None}, {'prefix': 'id', 'postfix': '2'}, {'postfix': None}]


def keys_of(what, prefix=()):
    """All the keys of a configuration and of the nested ones."""
    from whatami import What
    out = []
    for k, v in what.conf.items():
        key = prefix + (k,)
        out.append(key)
        if isinstance(v, What):
            out += keys_of(v, key)
    return out


def value_of(what, key):
    from whatami import What
    for k in key:
        try:
            what = what.conf[k] if isinstance(what, What) else what[k]
        except (KeyError, TypeError, IndexError):
            return None
    return what


def null(x):
    return x is None or isinstance(x, float) and x != x


def same(got, exp):
    if exp is None:
        return null(got)
    try:
        return bool(got == exp)
    except Exception:
        return False


def run(check, item):
    import pandas as pd
    from whatami import id2what
    from whatami.whatutils import whatid2columns
    rows, request = item
    whats = [id2what(IDS[r]) for r in rows]
    n = len(rows)
    variants = [((request_no(request) + sum(rows) * 3 + n) % len(AFFIXES), v) for v in (0, 1, 2)]
    for affix, variant in variants:
        affixes = AFFIXES[affix]
        data = {'w': [IDS[r] for r in rows], 'other': [10 * r for r in range(n)], 'text': ['r%d' % r for r in range(n)]}
        index = [list(range(n)), ['z', 'y', 'x'][:n], [7, 7, 3][:n]][variant]
        df = pd.DataFrame(data, columns=['other', 'w', 'text'], index=index)
        untouched = df.copy()
        inplace = variant == 1
        kwargs = dict(affixes)
        if not inplace or n % 2:
            kwargs['inplace'] = inplace
        if request is not None or n == 2:
            kwargs['columns'] = [list(k) if isinstance(k, list) else k for k in request] if isinstance(request, list) else request
        check.count()
        check.seen((rows, repr(request), affix, variant))
        try:
            got = whatid2columns(df, 'w', **kwargs)
        except Exception as e:
            check.fail('whatid2columns fails', ids=[IDS[r] for r in rows], options=repr(kwargs), error=repr(e))
            continue
        where = dict(ids=[IDS[r] for r in rows], index=repr(index), options=repr(kwargs), got=got.to_string() if hasattr(got, 'to_string') else repr(got))
        if request is None:
            names = sorted(set(k for w in whats for k in keys_of(w)))
        else:
            names = [tuple(k) if isinstance(k, (list, tuple)) else (k,) for k in request]
        pre, post = affixes.get('prefix') or '', affixes.get('postfix') or ''
        columns = {pre + '_'.join([str(x) for x in k]) + post: k for k in names}
        check.expect((got is df) is inplace, 'wrong dataframe returned', **where)
        if not inplace:
            check.expect(df.equals(untouched) and list(df.columns) == list(untouched.columns), 'the given dataframe changes', **where)
        check.expect(set(got.columns) == set(untouched.columns) | set(columns) and list(got.columns)[:3] == list(untouched.columns) and len(got.columns) == 3 + len(columns), 'wrong columns', expected=sorted(columns), **where)
        check.expect(list(got.index) == list(untouched.index) and got[['other', 'w', 'text']].equals(untouched), 'the rest of the dataframe changes', **where)
        for c, key in columns.items():
            if c in got.columns:
                values = list(got[c])
                expected = [value_of(w, key) for w in whats]
                check.expect(len(values) == n and all(same(a, b) for a, b in zip(values, expected)), 'the values of a row are not those of its id', column=c, values=repr(values), expected=repr(expected), **where)
    return None


def many(check, n):
    """Dataframes with many rows and different ids."""
    import pandas as pd
    from whatami import id2what
    from whatami.whatutils import whatid2columns
    ids = ["A(a=%d,n=B(x='v%d'))" % (i % (n // 2 + 1), i) if i % 3 else "A(b=%d,l=[%d,0])" % (i, i) for i in range(n)]
    ids += ids[::7]
    whats = [id2what(i) for i in ids]
    for columns in (None, ['b', ('n', 'x'), 'zz']):
        df = pd.DataFrame({'w': ids, 'row': list(range(len(ids)))})
        got = whatid2columns(df, 'w', columns=columns, inplace=False)
        names = [('a',), ('b',), ('l',), ('n',), ('n', 'x')] if columns is None else [('b',), ('n', 'x'), ('zz',)]
        check.count(len(ids))
        check.seen((n, repr(columns)))
        check.expect(set(got.columns) == {'w', 'row'} | {'_'.join(k) for k in names} and list(got['w']) == ids and list(got['row']) == list(range(len(ids))), 'wrong columns', rows=len(ids), columns=columns)
        for k in names:
            bad = [i for i, (a, w) in enumerate(zip(list(got['_'.join(k)]), whats)) if not same(a, value_of(w, k))]
            check.expect(not bad, 'the values of a row are not those of its id', rows=len(ids), column=k, where=bad[:10])


def request_no(request):
    return REQUESTS.index(request)


def wide(check, n):
    """Ids with many parameters, and many columns."""
    import pandas as pd
    from whatami.whatutils import whatid2columns
    ids = ['A(%s)' % ','.join(['k%d=%d' % (i, i * r) for i in range(n) if (i + r) % 5] + ['n=B(%s)' % ','.join(['z%d=%d' % (i, i + r) for i in range(n) if i != r])]) for r in range(4)]
    tops, nested = ['k%d' % i for i in range(n)], [('n', 'z%d' % i) for i in range(n)]
    for columns in (None, tops, nested, nested + tops + ['nope'], [list(k) for k in nested]):
        df = pd.DataFrame({'w': ids})
        got = whatid2columns(df, 'w', columns=columns, prefix='p-', inplace=False)
        check.count(n)
        check.seen(('wide', n, repr(columns)))
        asked = set(map(lambda c: c if isinstance(c, str) else tuple(c), tops + nested + ['n'] if columns is None else columns))
        if columns is None:
            asked -= {c for c in tops if not any((int(c[1:]) + r) % 5 for r in range(4))}
            asked -= {c for c in nested if not any(int(c[1][1:]) != r for r in range(4))}
        named = {c: 'p-' + (c if isinstance(c, str) else '_'.join(c)) for c in asked}
        check.expect(set(got.columns) == {'w'} | set(named.values()), 'wrong columns', n=n, columns=repr(columns)[:100], got=sorted(set(got.columns) ^ ({'w'} | set(named.values())))[:10])
        for c, name in named.items():
            if c == 'n' or name not in got.columns:
                continue
            i = None if c == 'nope' else int((c if isinstance(c, str) else c[1])[1:])
            exp = [None if i is None else (i * r if (i + r) % 5 else None) if isinstance(c, str) else (i + r if i != r else None) for r in range(4)]
            check.expect(all(same(a, b) for a, b in zip(list(got[name]), exp)), 'the values of a row are not those of its id', n=n, column=repr(c), got=repr(list(got[name])), expected=repr(exp))


def body(check):
    check.parallel(wide, (3, 11, 26, 60))
    items = []
    for n in range(0, 4):
        for rows in itertools.product(range(len(IDS)), repeat=n):
            for r, request in enumerate(REQUESTS):
                if n == 3 and not check.thorough and (sum(rows) + rows[0] + r) % 3:
                    continue
                items.append((rows, request))
    check.parallel(run, items)
    check.parallel(many, (10, 300, 3000) if not check.thorough else tuple(range(4, 130)) + (1000, 5000, 20000))
    check.sample({'ids': [IDS[0], IDS[3], IDS[0]], 'columns': [['n', 'x'], 'zz'], 'index': [7, 7, 3]})


if __name__ == '__main__':
    main('C21', 'exploration', 'all the sequences of up to 3 rows over an alphabet of heterogeneous ids (quick: two rows, and one third of the requests with three), all the column requests, kinds of index (also repeated) and inplace, '
         'compared with a reference; distinct ones are different combinations', body)
