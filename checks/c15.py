# coding=utf-8
"""C15: the plugin chain behaves as an ordered list of unique plugins."""
from functools import partial

from mc.core import main, bfs


# --- Custom plugins, that overlap in what they handle

def floats(v):
    if isinstance(v, float):
        return "'float=%g'" % v


def empties(v):
    """An empty string is an answer, too."""
    if isinstance(v, (float, int)) and not isinstance(v, bool):
        return ''


def lists(v):
    if isinstance(v, list):
        return 'a_list(n=%d)' % len(v)


def silent(v):
    return None


def generic(v, kind=str, text='generic'):
    if isinstance(v, kind):
        return text


class Method(object):
    def plugin(self, v):
        if isinstance(v, (int, str)):
            return 'method()'


METHODS = Method()
nameless = partial(generic, kind=(str, tuple), text='nameless()')
CUSTOM = {'floats': floats, 'empties': empties, 'lists': lists, 'silent': silent, 'nameless': nameless, 'method': METHODS.plugin}
BUILTIN = ['what_plugin', 'string_plugin', 'tuple_plugin', 'list_plugin', 'dict_plugin', 'set_plugin', 'function_plugin', 'partial_plugin', 'anyobject0x_plugin', 'anyobject_plugin']


def func(x=1.5, y=('a', 2)):
    return x, y


def table():
    from whatami import plugins
    t = dict(CUSTOM, method=METHODS.plugin)  # a new bound method, equal to the others
    t.update({n: getattr(plugins, n) for n in BUILTIN})
    return t


# --- The model: the chain is a list of names (the plugins that are not there by name are their own name)

def render(chain, v):
    """What the first plugin with something to say says."""
    from whatami import What
    for p in chain:
        if p == 'silent':
            continue
        if p == 'nameless':
            if isinstance(v, (str, tuple)):
                return 'nameless()'
        elif p in CUSTOM:
            out = CUSTOM[p](v)
            if out is not None:
                return out
        elif p == 'what_plugin' or isinstance(v, What) and p == 'anyobject_plugin':   # their str is their id
            if isinstance(v, What):
                return text(chain, v.name, v.conf)
        elif p == 'string_plugin':
            if isinstance(v, str):
                return "'%s'" % v
        elif p == 'tuple_plugin':
            if isinstance(v, tuple):
                return '(%s)' % ','.join([render(chain, x) for x in v])
        elif p == 'list_plugin':
            if isinstance(v, list):
                return '[%s]' % ','.join([render(chain, x) for x in v])
        elif p == 'dict_plugin':
            if isinstance(v, dict):
                return '{%s}' % ','.join(sorted(['%s:%s' % (render(chain, k), render(chain, x)) for k, x in v.items()]))
        elif p == 'set_plugin':
            if isinstance(v, set):
                return '{%s}' % ','.join(sorted([render(chain, x) for x in v]))
        elif p in ('function_plugin', 'partial_plugin'):
            if callable(v) and isinstance(v, partial) is (p == 'partial_plugin'):
                conf = {'x': 1.5, 'y': ('a', 2)}
                conf.update(getattr(v, 'keywords', {}))
                return text(chain, 'func', conf)
        elif p == 'anyobject0x_plugin':
            if isinstance(v, What):
                text(chain, v.name, v.conf)
            elif ' at 0x' in str(v):
                return '%s()' % type(v).__name__
        elif p == 'anyobject_plugin':
            return str(v)
    raise Nobody()


class Nobody(Exception):
    """No plugin deals with some value: not specified."""


def text(chain, name, conf):
    return '%s(%s)' % (name, ','.join(['%s=%s' % (k, render(chain, x)) for k, x in sorted(conf.items())]))


def probes():
    from whatami import What
    return [1.5, 2, 'a', None, True, [1.5, 'a', [2]], (1.5, 'a', [2, None]), {'k': 1.5, 2: [1.5]}, {1.5, 'a'}, func, partial(func, x=[2]), partial(func, y='b'),
            [func, ('a', partial(func, x=None))], What('W', {'a': 1.5, 'b': [2, 'a'], 'c': What('V', {'d': 1.5, 'e': ('a',)})})]


def step(chain, op, original):
    """The new chain, or None if the operation must fail."""
    kind = op[0]
    if kind == 'reset':
        return list(original)
    if kind == 'drop':
        return [p for p in chain if p != op[1]] if op[1] in chain else None
    if op[1] in chain:
        return None
    if op[2] is None:
        return chain + [op[1]]
    if op[2] not in chain:
        return None
    i = chain.index(op[2])
    return chain[:i] + [op[1]] + chain[i:]


def make_ops(thorough):
    ops = [('reset',)]
    custom = list(CUSTOM) if thorough else list(CUSTOM)
    for p in custom:
        ops.append(('insert', p, 'anyobject0x_plugin', 'default'))
        ops.append(('insert', p, None))
        ops.append(('insert', p, 'what_plugin'))
        ops.append(('insert', p, 'list_plugin'))
        ops.append(('drop', p))
    for p in ('floats', 'empties'):
        for b in ('empties', 'silent', 'nameless', 'floats', 'function_plugin'):
            ops.append(('insert', p, b))
    for p in ('string_plugin', 'list_plugin', 'anyobject0x_plugin', 'anyobject_plugin', 'function_plugin', 'what_plugin'):
        ops.append(('drop', p))
        ops.append(('insert', p, None))
        ops.append(('insert', p, 'floats'))
    return ops


def run(check, hist):
    from whatami import What
    from whatami.plugins import WhatamiPluginManager as PM, anyobject0x_plugin  # noqa
    t = table()
    names = {f: n for n, f in t.items()}

    def chain_of(plugins):
        return [names.get(p, p) for p in plugins]
    PM.reset()
    original = chain_of(PM.plugins())
    model = list(original)
    check.expect(original == chain_of(PM.DEFAULT_PLUGINS), 'reset does not restore the original chain', history=hist, got=original)
    snapshots = []
    for op in hist:
        before = PM.plugins()
        snapshots.append((before, list(before)))
        new = step(model, op, original)
        try:
            if op[0] == 'reset':
                got = PM.reset()
            elif op[0] == 'drop':
                got = PM.drop(table()[op[1]])
            elif len(op) > 3:
                got = PM.insert(t[op[1]])
            else:
                got = PM.insert(table()[op[1]], before=None if op[2] is None else table()[op[2]])
            failed = None
        except ValueError:
            failed = ValueError
        except Exception as e:
            check.fail('plugin operations fail with something that is not a ValueError', history=hist, error=repr(e))
            failed = e
        check.expect((failed is not None) is (new is None), 'the operation does not %s' % ('fail' if new is None else 'work'), history=hist)
        if new is not None:
            model = new
    check.count()
    check.seen(hist)
    check.expect(isinstance(PM.plugins(), tuple) and chain_of(PM.plugins()) == model, 'the chain is not the one implied by the operations', history=hist, got=chain_of(PM.plugins()), expected=model)
    for before, copy in snapshots:
        check.expect(list(before) == copy, 'a returned list of plugins changes', history=hist)
    for v in probes():
        try:
            expected = render(model, v)
        except Nobody:
            continue
        got = PM.build_string(v)
        check.expect(got == expected, 'a value is not rendered by the first plugin that deals with it', history=hist, value=repr(v), got=got, expected=expected)
        conf = {'p': v}
        if model[0] == 'what_plugin':
            check.expect(What('T', conf).id() == text(model, 'T', conf), 'a value is not rendered in an id by the first plugin that deals with it', history=hist, value=repr(v), got=What('T', conf).id(),
                         expected=text(model, 'T', conf))
    PM.reset()
    check.expect(chain_of(PM.plugins()) == original, 'reset does not restore the original chain', history=hist, got=chain_of(PM.plugins()))
    return tuple([p if isinstance(p, str) else '?' for p in model])


def many(check):
    """Many custom plugins, inserted at different places."""
    from whatami import What
    from whatami.plugins import WhatamiPluginManager as Manager

    class Kind(object):
        def __init__(self, n):
            self.n = n

    def make(n):
        def plugin(v):
            if isinstance(v, Kind) and (v.n == n or v.n < n and v.n % 5 == 0):
                return 'kind%d(first=%d)' % (v.n, n)
        return plugin
    default = list(Manager.plugins())
    try:
        for where in ('default', 'first', 'end', 'before last', 'spread'):
            Manager.reset()
            model, mine = list(default), [make(n) for n in range(30)]
            for i, p in enumerate(mine):
                if where == 'default':
                    before = [x for x in default if x.__name__ == 'anyobject0x_plugin'][0]
                    Manager.insert(p)
                else:
                    before = {'first': model[0], 'end': None, 'before last': mine[i - 1] if i else model[3], 'spread': model[i * 7 % len(model)]}[where]
                    Manager.insert(p, before=before)
                model.insert(len(model) if before is None else model.index(before), p)
                check.count()
                check.seen((where, i))
                check.expect(list(Manager.plugins()) == model, 'the chain is not the one expected after inserting many', where=where, n=i, got=repr([x.__name__ for x in Manager.plugins()]))
                for again in (p, mine[0]):
                    try:
                        Manager.insert(again)
                        check.fail('a plugin is inserted twice', where=where, n=i)
                    except ValueError:
                        pass
                if where != 'end':
                    for k in range(0, i + 1, 3):
                        answering = [mine.index(q) for q in model if q in mine and (mine.index(q) == k or k < mine.index(q) and k % 5 == 0)]
                        exp = 'A(a=[kind%d(first=%d)])' % (k, answering[0])
                        got = What('A', {'a': [Kind(k)]}).id()
                        check.expect(got == exp, 'the value is not for the first plugin of the chain', where=where, got=got, expected=exp)
            for i in [n * 11 % 30 for n in range(30)]:
                Manager.drop(mine[i])
                model.remove(mine[i])
                check.expect(list(Manager.plugins()) == model, 'the chain is not the one expected after dropping', where=where, n=i)
            check.expect(list(Manager.plugins()) == default, 'the chain is not the default', where=where)
    finally:
        Manager.reset()


def body(check):
    many(check)
    ops = make_ops(check.thorough)
    if check.thorough:
        bfs(check, ops, run, 4)
        few = [op for op in ops if op[0] == 'reset' or op[1] in ('floats', 'empties', 'string_plugin')]
        bfs(check, few, run, 5, memory=1)
    else:
        bfs(check, ops, run, 3)
        few = [op for op in ops if op[0] == 'reset' or op[1] in ('floats', 'empties', 'nameless')]
        bfs(check, few, run, 3, memory=1)
    check.sample({'history': [['insert', 'empties', 'list_plugin'], ['insert', 'floats', 'empties'], ['drop', 'empties'], ['reset']]})


if __name__ == '__main__':
    main('C15', 'model_checking', 'all histories of insert, drop and reset up to the bound, extended once per different chain (and last operation, in the second search); after each one the chain and the rendering of probe values, nested too, '
         'are compared with the list model; distinct ones are different histories', body)
