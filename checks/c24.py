# coding=utf-8
"""C24: ids of arrays, dataframes and random number generators follow their content."""
import copy
import itertools
import json
import os
import pickle
import re
import subprocess
import sys

from mc.core import main, bfs, fork_map, outcome, NPROC


# --- Arrays

def numpy_classes():
    import numpy as np

    class Sub(np.ndarray):
        pass
    Sub.__module__, Sub.__qualname__ = __name__, 'Sub'
    globals().setdefault('Sub', Sub)
    return {'ndarray': np.ndarray, 'matrix': np.matrix, 'Sub': globals()['Sub']}


DTYPES = [
    ('?', [False, True]), ('i1', [0, 1, -1]), ('u1', [0, 1, 255]), ('<i2', [0, 1]), ('<i4', [0, 1, 256]), ('>i4', [0, 1, 256]), ('<i8', [0, 1]), ('<u8', [0, 1]),
    ('<f2', [0, 1]), ('<f4', [0, 1, float('nan')]), ('<f8', [0, 1, float('nan')]), ('>f8', [0, 1]), ('<c8', [0, 1, 1j]), ('<c16', [0, 1]),
    ('<U1', ['', 'a']), ('<U2', ['', 'a', 'ab']), ('S1', [b'', b'a']), ('S2', [b'', b'ab']), ('V2', [b'ab', b'ac']),
    ('<M8[D]', [0, 1]), ('<M8[s]', [0, 1]), ('<m8[D]', [0, 1]), ('<m8[s]', [0, 1]),
    ([('a', '<i4'), ('b', '<i4')], [(0, 1), (1, 0)]), ([('b', '<i4'), ('a', '<i4')], [(0, 1), (1, 0)]), ([('a', '<i4'), ('b', '<f4')], [(0, 1), (0, 0)]),
    ([('a', '<i2', (2,))], [((0, 1),), ((1, 0),)]), ([('a', '<i2'), ('b', [('c', 'i1'), ('d', 'i1')])], [(0, (0, 1)), (0, (1, 0))]),
]
SHAPES = [(), (0,), (1,), (2,), (0, 2), (2, 0), (1, 2), (2, 1), (2, 2), (1, 1, 2), (1, 2, 1)]
SHAPES_BIG = [(3,), (4,), (2, 3), (3, 2), (1, 2, 2), (2, 2, 1), (2, 1, 2), (2, 2, 2), (0, 0), (1, 0, 2), (1, 1, 1, 1)]


def size(shape):
    n = 1
    for d in shape:
        n *= d
    return n


LAYOUTS = ('C', 'F', 'reversed', 'strided', 'transposed')


def layout(a, how):
    """The same array in another memory layout (None if it makes no sense)."""
    import numpy as np
    if how == 'C':
        return np.array(a, order='C')
    if how == 'F':
        return np.array(a, order='F') if a.ndim > 1 else None
    if how == 'reversed':
        return np.array(a[::-1], order='C')[::-1] if a.ndim and a.shape[0] > 1 else None
    if how == 'strided':
        if not a.ndim or not a.shape[-1] > 1:
            return None
        big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        big[..., ::2] = a
        return big[..., ::2]
    if how == 'transposed':
        return np.array(a.transpose((1, 0, 2)), order='C').transpose((1, 0, 2)) if a.ndim == 3 and size(a.shape) > 2 else None


def make_array(cls, dtype, shape, values, how):
    import numpy as np
    dt = np.dtype([tuple(f) for f in dtype] if isinstance(dtype, list) else dtype)
    a = np.empty(shape, dtype=dt)
    flat = a.reshape(-1)
    for n, v in enumerate(values):
        flat[n] = np.array(v, dtype='i8').astype(dt) if dt.kind in 'mM' else v
    a = flat.reshape(shape)
    a = layout(a, how)
    if a is None:
        return None
    return a if cls == 'ndarray' else a.view(numpy_classes()[cls])


def array_descs(thorough):
    for dtype, values in DTYPES:
        for shape in SHAPES + (SHAPES_BIG if thorough else []):
            n = size(shape)
            vs = values if n <= (4 if thorough else 2) else values[:2]
            for content in itertools.product(vs, repeat=n):
                for how in LAYOUTS:
                    yield 'array', 'ndarray', dtype, shape, content, how
                if dtype in ('i1', '<f8', '<U1') and how:
                    yield 'array', 'Sub', dtype, shape, content, 'C'
                    if len(shape) == 2:
                        yield 'array', 'matrix', dtype, shape, content, 'C'


# --- Arrays of objects: elements are (kind, parts); parts of sets and dictionaries come in any order

ATOMS = [('atom', v) for v in (None, True, 0, 1, 1.5, 'a', 'b', b'a', '', 1j)]


ARRAYS = 'array', 'matrix', 'Sub', 'array of bytes'


def pool():
    a, b, one, none = ('atom', 'a'), ('atom', 'b'), ('atom', 1), ('atom', None)
    out = list(ATOMS)
    seqs = [(), (a,), (a, b), (b, a), (a, one)]
    for kind in ('tuple', 'list'):
        out += [(kind, s) for s in seqs]
    sets = [(), (a,), (b,), (a, b), (a, one), (a, b, one), (a, none, one), (('tuple', (one, a)), ('tuple', (a, one)), ('tuple', (one, none))),
            (('frozenset', (a,)), ('frozenset', (b,))), (('frozenset', (a,)), ('frozenset', (a, b)), ('frozenset', (b,))), (('frozenset', (a,)), ('frozenset', (a, b))),
            (('tuple', (('frozenset', (a,)), one)), ('tuple', (('frozenset', (b,)), one))), (('frozenset', (a,)), a, one)]
    for kind in ('set', 'frozenset'):
        out += [(kind, s) for s in sets]
    for s in sets:
        out.append(('dict', tuple([(k, one) for k in s])))
        if s:
            out.append(('dict', tuple([(k, (one if n else a)) for n, k in enumerate(s)])))
    out += [('dict', ((a, ('dict', ((a, one), (b, one)))), (b, ('set', (a, b))))), ('dict', ((a, ('set', (a, b))), (b, ('dict', ((a, one), (b, one)))))),
            ('list', (('set', (a, b)), ('dict', ((a, none), (one, b))))), ('tuple', (('frozenset', (a, b)), ('list', (('frozenset', (b, a)),)))),
            ('array', ((0, 1),)), ('array', ((0,), (1,))), ('matrix', ((0, 1),)), ('Sub', ((0, 1),)), ('array of bytes', ((0, 1),)), ('tuple', (('matrix', ((0, 1),)), ('array', ((0, 1),)))), ('array', ((0, 2),)), ('list', (('array', ((0, 1),)), ('array', ((1, 0),))))]
    return out


def freeze(e):
    """A key that does not depend on the order of sets and dictionaries."""
    kind, parts = e
    if kind == 'atom':
        return type(parts).__name__, repr(parts)
    if kind in ARRAYS:
        return kind, parts
    if kind in ('set', 'frozenset'):
        return kind, frozenset([freeze(p) for p in parts])
    if kind == 'dict':
        return kind, frozenset([(freeze(k), freeze(v)) for k, v in parts])
    return kind, tuple([freeze(p) for p in parts])


def thaw(e):
    """A fresh object, that shares nothing."""
    import numpy as np
    kind, parts = e
    if kind == 'atom':
        return parts
    if kind in ARRAYS:
        return np.array(parts, dtype='i1' if kind == 'array of bytes' else 'i8').view(numpy_classes()[kind if kind in ('matrix', 'Sub') else 'ndarray'])
    if kind == 'dict':
        d = {}
        for k, v in parts:
            d[thaw(k)] = thaw(v)
        return d
    if kind in ('set', 'frozenset'):
        s = set()
        for p in parts:
            s.add(thaw(p))
        if kind == 'set':
            return s
        return frozenset([thaw(p) for p in parts])
    return {'tuple': tuple, 'list': list}[kind]([thaw(p) for p in parts])


def orders(e, limit=None):
    """All the orders of insertion, at all levels."""
    kind, parts = e
    if kind == 'atom' or kind in ARRAYS:
        return [e]
    if kind == 'dict':
        inner = [list(itertools.product(orders(k), orders(v))) for k, v in parts]
    else:
        inner = [orders(p) for p in parts]
    out = []
    for combo in itertools.product(*inner):
        for perm in (itertools.permutations(combo) if kind in ('set', 'frozenset', 'dict') else [combo]):
            out.append((kind, tuple(perm)))
    return out[:limit]


def object_descs(thorough):
    elements = pool()
    for e in elements:
        for o in orders(e):
            yield 'objects', (1,), (o,)
            yield 'objects', (), (o,)
    few = elements if thorough else elements[::3]
    for e in few:
        for f in few:
            for o in orders(e, 3):
                for q in orders(f, 2)[-1:]:
                    yield 'objects', (2,), (o, q)
                    if thorough:
                        yield 'objects', (1, 2), (o, q)


def make_objects(shape, elements):
    import numpy as np
    a = np.empty(len(elements), dtype=object)
    for n, e in enumerate(elements):
        a[n] = thaw(e)
    return a.reshape(shape)


# --- Series and dataframes

COLUMNS = [('int64', (0, 1)), ('int64', (1, 0)), ('int8', (0, 1)), ('float64', (0., 1.)), ('float64', (0., float('nan'))), ('bool', (False, True)), ('object', ('a', 'b')), ('object', ('b', 'a')),
           ('object', ('a', None)), ('category', ('a', 'b')), ('category', ('b', 'a')), ('datetime64[ns]', (0, 1)), ('timedelta64[ns]', (0, 1)), ('Int64', (0, 1)), ('Int64', (0, None)), ('string', ('a', 'b')), ('complex128', (0, 1))]
INDEXES = [None, 'ab', 'ba', 'ints', 'floats', 'dates', 'multi', 'multi2', 'named', 'named2', 'tz']


def make_index(name):
    import pandas as pd
    if name is None:
        return None
    return {'ab': lambda: pd.Index(['a', 'b']), 'ba': lambda: pd.Index(['b', 'a']), 'ints': lambda: pd.Index([5, 6]), 'floats': lambda: pd.Index([5., 6.]),
            'dates': lambda: pd.to_datetime(['2020-01-01', '2020-01-02']), 'tz': lambda: pd.to_datetime(['2020-01-01', '2020-01-02']).tz_localize('UTC'),
            'multi': lambda: pd.MultiIndex.from_tuples([('a', 1), ('b', 1)], names=['x', 'y']), 'multi2': lambda: pd.MultiIndex.from_tuples([('a', 1), ('b', 2)], names=['x', 'y']),
            'named': lambda: pd.Index(['a', 'b'], name='i'), 'named2': lambda: pd.Index(['a', 'b'], name='j')}[name]()


def make_series(dtype, values, index, name):
    import pandas as pd
    return pd.Series(list(values), dtype=dtype, index=make_index(index), name=name)


def make_frame(columns, index, how):
    """columns: sequence of (name, dtype, values); how: all at once or one at a time."""
    import pandas as pd
    series = [(n, make_series(d, v, index, None)) for n, d, v in columns]
    if how == 'at once':
        return pd.DataFrame(dict(series), columns=[n for n, _ in series], index=make_index(index))
    df = pd.DataFrame(dict(series[:1]))
    for n, s in series[1:]:
        df[n] = s
    return df


def pandas_descs(thorough):
    for dtype, values in COLUMNS:
        for index in INDEXES:
            for name in (None, 'a', 'b', 1, ('a', 'b')):
                yield 'series', dtype, values, index, name
            for name in ('a', 'b', 1):
                yield 'frame', ((name, dtype, values),), index, 'at once'
    few = COLUMNS if thorough else COLUMNS[::2]
    for a, b in itertools.product(few, repeat=2):
        for names in (('a', 'b'), ('b', 'a')):
            for index in (INDEXES if thorough else [None, 'ba']):
                yield 'frame', tuple([(n,) + c for n, c in zip(names, (a, b))]), index, 'at once'
    few = [COLUMNS[0], COLUMNS[1], COLUMNS[3], COLUMNS[6]]
    for cols in itertools.product(few, repeat=3):
        for how in ('at once', 'one at a time'):
            yield 'frame', tuple([(n,) + c for n, c in zip('abc', cols)]), None, how


READS = [
    ('column', lambda df: df[list(df.columns)[0]]), ('values', lambda df: df.values), ('row', lambda df: (df.iloc[0], df.loc[df.index[0]])), ('sum', lambda df: df.sum(numeric_only=True)),
    ('repr', repr), ('unique', lambda df: (df.index.is_unique, df.columns.is_unique, df.index.get_loc(df.index[0]))), ('transpose', lambda df: df.T), ('isnull', lambda df: df.isnull()),
    ('describe', lambda df: df.describe()), ('copy', lambda df: df.copy()), ('dtypes', lambda df: df.dtypes), ('to_dict', lambda df: df.to_dict()), ('take', lambda df: df.take([1])),
]


# --- The table of ids

def make(desc):
    if desc[0] == 'array':
        return make_array(*desc[1:])
    if desc[0] == 'objects':
        return make_objects(*desc[1:])
    if desc[0] == 'series':
        return make_series(*desc[1:])
    return make_frame(*desc[1:])


def key_of(desc):
    """What should make a difference."""
    if desc[0] == 'objects':
        return repr(('objects', desc[1])) + repr_frozen(tuple([freeze(e) for e in desc[2]]))
    if desc[0] == 'array':
        return repr(desc[:-1])   # different layouts are the same content
    if desc[0] == 'frame':
        return repr(desc[:-1])
    return repr(desc)


def repr_frozen(x):
    if isinstance(x, frozenset):
        return '{%s}' % ','.join(sorted(map(repr_frozen, x)))
    if isinstance(x, tuple):
        return '(%s)' % ','.join(map(repr_frozen, x))
    return repr(x)


def strict_key(desc):
    """What should not make a difference is not here: these have the same id."""
    return key_of(desc) + (desc[-1] if desc[0] in ('array', 'frame') else '')


def descs(thorough):
    return list(array_descs(thorough)) + list(object_descs(thorough)) + list(pandas_descs(thorough))


def table(thorough, backwards=False):
    """{strict key: id}, in parallel."""
    from whatami.plugins import WhatamiPluginManager as PM
    ds = descs(thorough)

    def worker(k):
        out = {}
        mine = ds[k::NPROC]
        for desc in (reversed(mine) if backwards else mine):
            v = make(desc)
            if v is not None:
                out.setdefault(strict_key(desc), set()).add(PM.build_string(v))
        return out
    merged = {}
    for out in fork_map(worker, range(NPROC)):
        for k, ids in out.items():
            merged.setdefault(k, set()).update(ids)
    return {k: sorted(ids) for k, ids in merged.items()}


PARSED = {}


def check_parses(check, name, i, key='hash', most=20):
    """The first ids with each name are parsed back."""
    from whatami import id2what
    if PARSED.setdefault(name, 0) >= most:
        return
    PARSED[name] += 1
    check.count()
    got = outcome(lambda: id2what(i))
    if check.expect(got[0] == 'ok', 'the id of the content cannot be parsed', id=i, got=repr(got)):
        w = got[1]
        check.expect(w.name == name and list(w.conf) == [key] and w.id() == i and id2what('C(x=[%s])' % i).id() == 'C(x=[%s])' % i, 'the id of the content does not parse to a configuration with the class and the content', id=i, got=repr(w))


def check_desc(check, desc):
    from whatami import What
    from whatami.plugins import WhatamiPluginManager as PM
    v = make(desc)
    if v is None:
        return None
    i = PM.build_string(v)
    check.count()
    check.seen(strict_key(desc))
    check.expect(isinstance(i, str) and re.match(r"%s\(hash='\w+'\)\Z" % type(v).__name__, i), 'the id is not that of a configuration with the class and the hash', value=desc, id=i)
    check_parses(check, type(v).__name__, i)
    check.expect(PM.build_string(v) == i, 'identifying again gives another id', value=desc)
    same = [('rebuilt', make(desc))]
    if desc[0] == 'array':
        if desc[-1] == 'C':
            same += [('copied', v.copy()), ('unpickled', pickle.loads(pickle.dumps(v, 2))), ('read only', v.copy())]
            same[-1][1].flags.writeable = False
    elif desc[0] == 'series' or desc[0] == 'frame' and desc[-1] == 'at once':   # column by column the layout differs from that of copies
        if any(w in repr(desc) for w in ('category', 'Int64', 'string', 'tz', 'dates')):   # pandas caches things inside some of these
            same = same[:1]
        else:
            same += [('copied', v.copy()), ('deep copied', copy.deepcopy(v)), ('unpickled', pickle.loads(pickle.dumps(v)))]
    for how, w in same:
        if desc[0] == 'array' and w.dtype != v.dtype:   # numpy unpickles some big endian arrays as little endian ones
            continue
        got = PM.build_string(w)
        check.expect(got == i, 'the same content, %s, has another id' % how, value=desc, id=i, got=got)
    check.expect(What('C', {'x': [v]}).id() == 'C(x=[%s])' % i, 'the id of a container does not use the id of the content', value=desc)
    return key_of(desc), strict_key(desc), i


def check_reads(check, item):
    desc, history = item
    from whatami.plugins import WhatamiPluginManager as PM
    reads = dict(READS)
    expected = PM.build_string(make(desc))
    for identified in (True, False):
        df = make(desc)
        if identified:
            PM.build_string(df)
        for op in history:
            reads[op](df)
        check.count()
        check.traces += 1
        got = PM.build_string(df)
        if got != expected:
            check.fail('reading a dataframe changes its id', known_key='reads-%s' % (desc[2] if desc[2] in ('dates', 'tz') else 'Int64' if 'Int64' in repr(desc) else 'others'), dataframe=desc, history=history, identified_before=identified)


# --- Large arrays: changing any element changes the id

LARGE = [('|u1', (100003,), 'C'), ('|u1', (300, 401), 'F'), ('<f8', (70000,), 'C'), ('<i4', (100003,), 'strided'), ('<U3', (100003,), 'C'), ('object', (20001,), 'C')]


def check_large(check, item):
    import numpy as np
    from whatami.plugins import WhatamiPluginManager as PM
    dtype, shape, how, positions = item
    a = np.array(np.arange(size(shape)).reshape(shape) % 7, dtype=dtype, order='F' if how == 'F' else 'C')
    if how == 'strided':
        a = np.repeat(a, 2)[::2]
    expected = PM.build_string(a)
    seen = {expected: None}
    for p in positions:
        b = a.copy(order='K')
        where = np.unravel_index(p, shape)
        b[where] = 9
        got = PM.build_string(b)
        check.count()
        check.expect(got not in seen, 'different contents have the same id', dtype=dtype, shape=shape, layout=how, position=p, like=seen.get(got))
        seen[got] = p
    check.seen((dtype, shape, how, positions))
    check.expect(PM.build_string(a) == expected, 'identifying again gives another id', dtype=dtype, shape=shape, layout=how)


def check_dims(check, shape):
    """Arrays of many dimensions with any layout: changing any element changes the id, in its own way."""
    import numpy as np
    from whatami.plugins import WhatamiPluginManager as PM
    plain = np.arange(size(shape), dtype='<i2').reshape(shape)
    layouts = {}
    for axes in itertools.permutations(range(len(shape))) if len(shape) < 5 else [tuple(range(k, len(shape))) + tuple(range(k)) for k in range(len(shape))]:
        back = tuple(np.argsort(axes))
        layouts['axes', axes] = lambda a, axes=axes, back=back: np.array(a.transpose(axes), order='C').transpose(back)
    for axis in range(len(shape)):
        def every(a, axis=axis, step=1):
            big = np.repeat(a, 2, axis=axis)
            cut = tuple(slice(None, None, 2) if k == axis else slice(None) for k in range(a.ndim))
            big[tuple(slice(1, None, 2) if k == axis else slice(None) for k in range(a.ndim))] = 77
            return big[cut]

        def reverse(a, axis=axis):
            cut = tuple(slice(None, None, -1) if k == axis else slice(None) for k in range(a.ndim))
            return np.array(a[cut], order='C')[cut]

        def window(a, axis=axis):
            big = np.full(tuple(d + 2 * (k == axis) for k, d in enumerate(a.shape)), 77, dtype=a.dtype)
            cut = tuple(slice(1, -1) if k == axis else slice(None) for k in range(a.ndim))
            big[cut] = a
            return big[cut]
        layouts['every other', axis], layouts['reversed', axis], layouts['window', axis] = every, reverse, window
    for name, make in layouts.items():
        expected = PM.build_string(make(plain))
        check.expect(PM.build_string(make(plain.copy())) == expected, 'the same array has another id', shape=shape, layout=repr(name))
        seen = {expected: None}
        for p in range(plain.size):
            b = plain.copy()
            b.reshape(-1)[p] = 99
            b = make(b)
            got = PM.build_string(b)
            check.count()
            check.expect(got not in seen, 'different contents have the same id', shape=shape, layout=repr(name), position=p, like=seen.get(got))
            seen[got] = p
        check.seen((shape, name))


def dims(thorough):
    for n in range(1, 7):
        for shape in itertools.product((1, 2, 3) if thorough or n < 4 else (1, 2), repeat=n):
            if size(shape) <= (108 if thorough else 16):
                yield shape


def large_items(thorough):
    for dtype, shape, how in LARGE:
        n = size(shape)
        positions = range(n) if thorough and dtype == '|u1' else sorted(p for p in {2 ** k + d for k in range(18) for d in (-1, 0, 1)} | {n - 2 ** k - d for k in range(18) for d in (0, 1)} | set(range(0, n, 4999)) if 0 <= p < n)
        step = 5000 if thorough else 20
        for i in range(0, len(positions), step):
            yield dtype, shape, how, tuple(positions[i:i + step])


# --- Random number generators

def rng_start(start):
    import numpy as np
    from numpy.random import RandomState, MT19937, PCG64
    return {'0': lambda: RandomState(0), '1': lambda: RandomState(1), 'pcg': lambda: RandomState(PCG64(0)), 'mt': lambda: RandomState(MT19937(0))}[start]()


def rng_key(rng):
    """The state, as a key."""
    def flat(x):
        if isinstance(x, dict):
            return tuple(sorted([(k, flat(v)) for k, v in x.items()]))
        return tuple(x.tolist()) if hasattr(x, 'tolist') else x
    return flat(rng.get_state(legacy=False))


RNG_OPS = ['random_sample', 'randn', 'randint', 'seed', 'reseed', 'shuffle', 'copy', 'unpickle', 'save', 'restore', 'many', 'identify', 'nested', 'randn2']


def make_run_rng(start):
    def run(check, hist):
        from whatami import What
        from whatami.plugins import WhatamiPluginManager as PM
        rng, twin = rng_start(start), rng_start(start)   # the twin is never identified
        saved = None
        for op in hist:
            if op in ('identify', 'nested'):
                before = rng_key(rng)
                i = PM.build_string(rng) if op == 'identify' else What('C', {'r': {'k': (rng, rng)}}).id()
                check.expect(rng_key(rng) == before, 'identifying a random number generator changes its state', start=start, history=hist)
                if op == 'nested':
                    j = PM.build_string(rng)
                    check.expect(i == "C(r={'k':(%s,%s)})" % (j, j), 'the id of a container does not use the id of the generator', start=start, history=hist)
                continue
            if op == 'save':
                saved = rng.get_state(legacy=False), twin.get_state(legacy=False)
                continue
            draws = []
            for n, r in enumerate((rng, twin)):
                if op == 'copy':
                    r = copy.deepcopy(r)
                elif op == 'unpickle':
                    r = pickle.loads(pickle.dumps(r))
                elif op == 'restore':
                    if saved:
                        r.set_state(saved[n])
                elif op == 'seed':
                    if start in '01':
                        r.seed(0)
                elif op == 'reseed':
                    if start in '01':
                        r.seed(1)
                elif op == 'shuffle':
                    xs = [1, 2, 3]
                    r.shuffle(xs)
                    draws.append(xs)
                elif op == 'randint':
                    draws.append(r.randint(0, 10))
                elif op == 'many':
                    draws.append(r.random_sample(400).tolist())
                elif op == 'randn2':
                    draws.append(r.randn(2).tolist())
                else:
                    draws.append(getattr(r, op)())
                if n:
                    twin = r
                else:
                    rng = r
            if draws:
                check.expect(draws[0] == draws[1], 'identifying a random number generator changes what it gives', start=start, history=hist)
        key = rng_key(rng)
        check.count()
        check.expect(key == rng_key(twin), 'identifying a random number generator changes its state', start=start, history=hist)
        i, j = PM.build_string(rng), PM.build_string(twin)
        check.expect(i == j, 'two generators in the same state have different ids', start=start, history=hist, ids=[i, j])
        check_parses(check, 'RandomState', i, key='state')
        check.expect(rng_key(rng) == key, 'identifying a random number generator changes its state', start=start, history=hist)
        check.extra.setdefault('rng_ids', set()).add((hash(key), i))
        check.seen(key)
        return hash(key), None if saved is None else hash(repr(saved))
    return run


# --- All together

def body(check):
    by_id, by_strict = {}, {}

    def collect(n, r):
        if r is None:
            return
        key, strict, i = r
        other = by_id.setdefault(i, key)
        check.expect(other == key, 'different contents have the same id', id=i, one=other, other=key)
        other = by_strict.setdefault(strict, i)
        check.expect(other == i, 'the same content has different ids', content=strict, ids=[other, i])
    check.parallel(check_desc, descs(check.thorough), collect=collect)
    # dataframes built column by column have the same content, but not the same layout: only what is read must not matter
    frames = [d for d in pandas_descs(False) if d[0] == 'frame' and len(d[1]) == 3][::(1 if check.thorough else 9)] + [d for d in pandas_descs(False) if d[0] == 'frame' and len(d[1]) < 3][::(20 if check.thorough else 97)]
    ops = [n for n, _ in READS]
    histories = [h for k in (1, 2) for h in itertools.product(ops, repeat=k)]
    check.parallel(check_reads, [(d, h) for d in frames for h in histories if len(h) == 1 or check.thorough or d[-1] != 'at once'])
    check.parallel(check_dims, list(dims(check.thorough)))
    check.parallel(check_large, list(large_items(check.thorough)))
    # other processes
    for seed in ((1, 2, 3) if check.thorough else (1,)):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        out = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'checks.c24', 'table', 'thorough' if check.thorough else 'quick'], env=env, stdout=subprocess.PIPE, check=True,
                             cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))).stdout
        there = json.loads(out.decode('utf-8'))
        here = by_strict
        check.expect(set(there) == set(here), 'the other process does not give the same table')
        for k, ids in sorted(there.items()):
            check.count()
            check.expect(ids == [here.get(k)], 'another process gives another id', content=k, here=here.get(k), there=ids)
    # elements shared by reference
    import numpy as np
    from whatami.plugins import WhatamiPluginManager as PM
    for n, e in enumerate([('tuple', (('atom', 1), ('atom', 2))), ('list', (('atom', 1),)), ('set', (('atom', 1),)), ('frozenset', (('atom', 1),))]):
        one, two = make_objects((2,), (e, e)), make_objects((2,), (e, e))
        one[1] = one[0]
        check.count()
        if PM.build_string(one) != PM.build_string(two):
            check.fail('arrays with equal elements have different ids, because the elements are the same object', known_key='shared-%s' % e[0], element=e)
    # random number generators
    ids, keys = {}, {}
    for start in ('0', '1', 'pcg', 'mt'):
        ops = RNG_OPS
        if not check.thorough and start in ('1', 'mt'):
            ops = [o for o in RNG_OPS if o not in ('shuffle', 'nested', 'randn2', 'copy')]
        bfs(check, ops, make_run_rng(start), 4 if check.thorough else 3 if start in ('0', 'pcg') else 2)
    for key, i in check.extra['rng_ids']:
        check.expect(ids.setdefault(i, key) == key, 'two generators in different states have the same id', id=i)
        check.expect(keys.setdefault(key, i) == i, 'two generators in the same state have different ids', ids=[keys[key], i])
    check.sample({'array': repr(('array', 'ndarray', '<f8', (2, 2), (0, 1, 1, 0), 'F'))})
    check.sample({'rng history': ['randn', 'identify', 'randn', 'restore']})


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'table':
        from mc.core import import_whatami
        import_whatami()
        import checks.c24 as this
        json.dump(this.table(sys.argv[2] == 'thorough', backwards=True), sys.stdout)
        sys.exit(0)
    import checks.c24 as this
    main('C24', 'model_checking', 'all arrays, series and dataframes of the bounded universe, each with its equal copies, compared by id through a table (also with the table of another process, that goes backwards); all histories of read operations on '
         'dataframes up to the bound; all histories of random number generator operations up to the bound, next to a twin that is never identified; distinct ones are different contents or states', this.body)
