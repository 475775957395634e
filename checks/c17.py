# coding=utf-8
"""C17: recorders add records all or nothing, once, in order."""
from collections import OrderedDict

from mc.core import main, bfs


# --- Postprocessors: (id, record, recorder) -> record

def mark(an_id, record, recorder):
    return dict(record, marks=record.get('marks', '') + 'm')


def stamp(an_id, record, recorder):
    record['stamp'] = '%s%s%d' % (record.get('stamp', ''), record.get('marks', ''), len(recorder))
    return record


def no_y(an_id, record, recorder):
    if str(an_id) == 'y':
        raise ValueError('y')
    return record


def no_z(an_id, record, recorder):
    if str(an_id) == 'z':
        raise TypeError('z')   # what curry could confuse with missing arguments
    return dict(record, noz=True)


def unique_c(an_id, record, recorder):
    if record.get('c') in recorder.unique('c'):
        raise KeyError('c')
    return record


def emptied(an_id, record, recorder):
    return {}


POST = {'emptied': emptied, 'mark': mark, 'stamp': stamp, 'no_y': no_y, 'no_z': no_z, 'unique_c': unique_c}


# --- The model

class Model(object):

    def __init__(self, id_col, defaults, posts):
        self.id_col, self.defaults, self.posts = id_col, dict(defaults), list(posts)
        self.records = OrderedDict()

    def __len__(self):
        return len(self.records)

    def unique(self, column):
        return {r[column] for r in self.records.values() if column in r}

    def add(self, ids, columns, posts=None, override=False, unbox=True):
        """columns: {name: value}, where values are per id (lists), for some ids (dictionaries), or for all."""
        new = OrderedDict()
        for n, an_id in enumerate(ids):
            if an_id in self.records or an_id in new:
                raise ValueError('repeated')
            record = {}
            for c, v in columns.items():
                if isinstance(v, dict):
                    if an_id in v:
                        record[c] = v[an_id]
                elif isinstance(v, list) and unbox:
                    record[c] = v[n] if n < len(v) else None
                else:
                    record[c] = v
            if self.id_col in record:
                raise ValueError('id column')
            record[self.id_col] = an_id
            for c, v in self.defaults.items():
                record.setdefault(c, v)
            chain = self.posts
            if posts is not None:
                chain = list(posts) if override else self.posts + list(posts)
            for p in chain:
                record = POST[p](an_id, record, self)
            new[an_id] = record
        self.records.update(new)
        return new


# name: (ids, columns, postprocessors, override, unboxing)
ADDS = OrderedDict([
    ('x', ('x', {}, None, False, True)),
    ('x c', ('x', {'c': 1}, None, False, True)),
    ('y dict', ('y', {'c': {'y': 2, 'x': 3}, 'd': {'z': 5}}, None, False, True)),
    ('x y', (['x', 'y'], {'c': [1, 2]}, None, False, True)),
    ('y z short', (('y', 'z'), {'c': [1], 'd': 'all'}, None, False, True)),
    ('z x whole', (['z', 'x'], {'c': (1, 2)}, None, False, False)),
    ('x x', (['x', 'x'], {}, None, False, True)),
    ('y z y', (['y', 'z', 'y'], {'c': [1, 2, 3]}, None, False, True)),
    ('z first fails', (['z', 'x'], {'c': 4}, ['mark', 'no_z'], False, True)),
    ('second fails', (['x', 'y'], {'c': 4}, ['stamp', 'no_y'], False, True)),
    ('x z fails late', (['x', 'z'], {}, ['mark', 'no_z', 'mark'], True, True)),
    ('z marked', ('z', {'c': 1}, ['mark', 'stamp'], False, True)),
    ('y only marked', ('y', {'c': 5}, ['stamp', 'mark'], True, True)),
    ('z nothing', ('z', {}, [], True, True)),
    ('z default', ('z', {}, None, True, True)),
    ('unique', (['x', 'z'], {'c': [1, 7]}, ['unique_c'], False, True)),
    ('clash', ('z', {'id': 'mine'}, None, False, True)),
    ('clash second', (['x', 'z'], {'id': {'z': 3}}, None, False, True)),
    ('none', ([], {'c': 1}, None, False, True)),
    ('y emptied', (['y'], {'c': 1}, ['emptied'], False, True)),
])


def make_ops(adds, which=(0, 1)):
    ops = []
    for r in which:
        ops += [('add', r, a) for a in (adds if r == 0 else [a for a in adds if a in ('x c', 'y z short', 'second fails', 'z marked', 'clash')])]
        ops += [('default', r, 'c', 9), ('default', r, 'id', 'D'), ('undefault', r, 'c'), ('undefault', r, 'dd'), ('post', r, ('stamp', 'mark')), ('post', r, ('no_z',)), ('override', r, ('mark',)), ('override', r, ())]
        ops += [('spoil', r)]
    ops.append(('shared',))
    return ops


def ids_of(ids):
    return [ids] if isinstance(ids, str) else list(ids)


def snapshot(records):
    return [(k, sorted(r.items())) for k, r in records.items()]


def run(check, hist):
    from whatami.registry import Recorder
    shared_posts, shared_defaults = [mark], {'dd': 'default', 'e': None}
    recs = [Recorder('first', record_postprocessors=shared_posts, **shared_defaults), Recorder(id_column_name='key', id_extractor=None, record_postprocessors=shared_posts, **shared_defaults)]
    models = [Model('id', shared_defaults, ['mark']), Model('key', shared_defaults, ['mark'])]
    for step, op in enumerate(hist):
        last = step == len(hist) - 1
        kind = op[0]
        if kind == 'shared':
            shared_posts.append(no_y)
            shared_defaults['dd'] = 'changed'
            shared_defaults['f'] = 1
            continue
        rec, model = recs[op[1]], models[op[1]]
        if kind == 'add':
            ids, columns, posts, override, unbox = ADDS[op[2]]
            try:
                expected = model.add(ids_of(ids), columns, posts, override, unbox)
            except Exception:
                expected = None
            kwargs = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in columns.items()}
            given = dict(kwargs)
            if not unbox:
                kwargs['unbox_iterables'] = False
            if posts is not None:
                kwargs['record_postprocessors'] = [POST[p] for p in posts]
            if override:
                kwargs['override_postprocessors'] = True
            given_ids = list(ids) if isinstance(ids, list) else ids
            try:
                got = rec.add(given_ids, **kwargs)
            except Exception:
                got = None
            if (got is None) is not (expected is None):
                check.fail('the last add should %s' % ('fail' if expected is None else 'work'), history=hist)
                return None
            if last:
                check.expect(given_ids == ids and all(given[k] == v for k, v in columns.items()) and (posts is None or kwargs['record_postprocessors'] == [POST[p] for p in posts]), 'add modifies its arguments', history=hist)
                if got is not None:
                    check.expect(snapshot(got) == snapshot(expected), 'add does not return the new records', history=hist, got=snapshot(got), expected=snapshot(expected))
            if got is not None:
                got.clear()   # what is returned is not the registry
        elif kind == 'default':
            rec.add_column_defaults(**{op[2]: op[3]})
            model.defaults[op[2]] = op[3]
        elif kind == 'undefault':
            rec.remove_column_defaults(op[2], 'not there')
            model.defaults.pop(op[2], None)
        elif kind == 'post':
            rec.add_record_postprocessors(*[POST[p] for p in op[2]])
            model.posts = model.posts + list(op[2])
        elif kind == 'override':
            rec.override_record_postprocessors(*[POST[p] for p in op[2]])
            model.posts = list(op[2])
        elif kind == 'spoil':
            rec.column_defaults['c'] = 'spoiled'
            got = rec.record_postprocessors()
            if isinstance(got, list):
                got.append(no_y)
            rec.get('x').append(3)
            rec.unique('c').add('spoiled')
    if any(len(m.posts) > 4 for m in models):
        return None
    check.count()
    check.seen(hist)
    for which, (rec, model) in enumerate(zip(recs, models)):
        exp = snapshot(model.records)
        got = [(i, r) for i in model.records for r in rec.get(i)]
        check.expect([(i, sorted(r.items())) for i, r in got] == exp, 'the records are not the ones implied by the operations', history=hist, recorder=which, got=repr(got), expected=repr(exp))
        check.expect(len(rec) == len(model.records) and rec.get('x', 'nope', 'y', 'z', 'x') == [model.records[i] for i in ('x', 'y', 'z', 'x') if i in model.records], 'wrong records', history=hist, recorder=which)
        for i in ('x', 'y', 'z', 'nope'):
            check.expect(rec[i] == ([model.records[i]] if i in model.records else []), 'wrong record', history=hist, recorder=which, id=i, got=rec[i])
        check.expect(len(set(id(r) for r in rec.get('x', 'y', 'z'))) == len([i for i in 'xyz' if i in model.records]), 'records are shared', history=hist, recorder=which)
        check.expect(rec.column_defaults == model.defaults, 'wrong column defaults', history=hist, recorder=which, got=rec.column_defaults, expected=model.defaults)
        check.expect(list(rec.record_postprocessors()) == [POST[p] for p in model.posts], 'wrong postprocessors', history=hist, recorder=which, got=repr(rec.record_postprocessors()), expected=model.posts)
        for c in ('c', 'dd', 'id', 'nope', 'marks'):
            check.expect(rec.unique(c) == model.unique(c), 'wrong unique values', history=hist, recorder=which, column=c, got=rec.unique(c), expected=model.unique(c))
    if len(hist) <= 2 and hist and hist[-1][0] == 'add':
        dataframe(check, recs[0], models[0], hist)
    return repr([(snapshot(m.records), sorted(m.defaults.items(), key=repr), m.posts) for m in models])


def dataframe(check, rec, model, hist):
    df = rec.to_df()
    check.extra['dataframes'] = check.extra.get('dataframes', 0) + 1
    columns = set(c for r in model.records.values() for c in r)
    check.expect(list(df.index) == list(model.records) and set(df.columns) == columns and len(df) == len(rec), 'the dataframe does not have the records', history=hist, got=repr((list(df.index), list(df.columns))))
    for i, r in model.records.items():
        for c in columns:
            got = df.loc[i, c]
            missing = got is None or got != got
            check.expect(got == r[c] if r.get(c) is not None else missing, 'wrong value in the dataframe', history=hist, id=i, column=c, got=repr(got), expected=repr(r.get(c)))


def many(check, n):
    """Many records, with a failure near the end."""
    from whatami.registry import Recorder
    log = []

    def post(k):
        def f(an_id, record, recorder):
            log.append((an_id, k))
            if record.get('fails') == k:
                raise ValueError('no')
            return dict(record, **{'p%d' % k: len(recorder)})
        return f
    posts = [post(k) for k in range(8)]
    ids = ['id-%d' % i for i in range(n)]
    rec = Recorder(record_postprocessors=posts, d='d')
    expected = {}

    def same(when):
        check.count()
        check.expect(len(rec) == len(expected) and rec.get(*(ids + ['nope'] + ids[:3])) == [expected[i] for i in ids + ids[:3] if i in expected], 'the records are not those added', n=n, when=when)
        for i in ids[::7] + ids[-2:]:
            check.expect(rec[i] == rec.get(i) == ([expected[i]] if i in expected else []), 'wrong record', n=n, when=when, id=i)
        check.expect(rec.unique('v') == {r['v'] for r in expected.values()} and rec.unique('d') == ({'d'} if expected else set()), 'wrong unique values', n=n, when=when)
        df = rec.to_df() if expected else None
        check.expect(df is None or list(df['id']) == list(expected) and list(df['v']) == [r['v'] for r in expected.values()], 'wrong dataframe', n=n, when=when)

    for done, upto in ((0, n // 2), (n // 2, n)):
        new = ids[done:upto]
        values = list(range(done, upto))
        for what, bad, more in (('repeated at the end', new + [new[0]], {}), ('repeated in the middle', new + [new[len(new) // 2]], {}), ('there already', new + ids[:1], {}) if done else ('repeated twice', new + new, {}),
                                ('last fails last', new, {'fails': {new[-1]: 7}}), ('last fails first', new, {'fails': {new[-1]: 0}}), ('one fails', new, {'fails': {new[len(new) // 3]: 5}})):
            check.seen(('many', n, done, what))
            try:
                rec.add(ids=bad, v=values + values, **more)
                check.fail('adding should fail', n=n, how=what)
            except Exception:
                pass
            same(what)
        del log[:]
        got = rec.add(ids=iter(new), v=iter(values))
        for i, v in zip(new, values):
            expected[i] = dict({'p%d' % k: done for k in range(8)}, id=i, v=v, d='d')
        check.expect(list(got) == new and [got[i] for i in new] == [expected[i] for i in new] and log == [(i, k) for i in new for k in range(8)], 'wrong records, or postprocessors not run in order', n=n)
        same('added')
    for k in range(40):   # one by one
        i = 'one-%d' % k
        ids.append(i)
        rec.add(ids=i, v=k)
        expected[i] = dict({'p%d' % p: len(expected) for p in range(8)}, id=i, v=k, d='d')
    same('one by one')


def body(check):
    check.parallel(many, (2, 10, 33, 70, 150, 300))
    if check.thorough:
        bfs(check, make_ops(ADDS, (0,)), run, 5)
        bfs(check, make_ops(ADDS), run, 4)
        bfs(check, make_ops(ADDS), run, 2, memory=1)
        few = ['x c', 'x y', 'y z short', 'z first fails', 'second fails', 'y only marked', 'clash second']
        bfs(check, make_ops(few, (0,)), run, 6)
    else:
        bfs(check, make_ops(ADDS), run, 3)
        few = ['x', 'x y', 'y z short', 'z first fails', 'second fails', 'y only marked', 'unique', 'x x', 'clash second']
        bfs(check, make_ops(few, (0,)), run, 4)
    check.sample({'history': [['default', 0, 'c', 9], ['add', 0, 'second fails'], ['post', 0, ['stamp', 'mark']], ['add', 0, 'y z short']]})


if __name__ == '__main__':
    main('C17', 'model_checking', 'all histories of operations on two recorders built from the same collections, up to the bound, extended once per different state; adds fail at each of their records in all the ways; after each history everything '
         'observable is compared with the model; distinct ones are different histories', body)
