# coding=utf-8
"""C33: introspection helpers describe exactly what they are given."""
import itertools
import sys
import types

from mc.core import main, outcome


def signatures(thorough):
    """(positional, number with defaults, varargs, keyword only, varkw)."""
    for params, n, nd in itertools.chain([(('a', 'b', 'c', 'd'), n, nd) for n in range(5 if thorough else 4) for nd in range(n + 1)],
                                         [(('cls', 'obj', 'selfish', 'mcs'), n, nd) for n in range(1, 5 if thorough else 3) for nd in range(n + 1)]):
        if True:
            for var in (None, 'args', 'rest'):
                for kwo in ((), ('k',), ('k', 'l')):
                    for kd in range(len(kwo) + 1):
                        for kw in (None, 'kwargs'):
                            yield params[:n], nd, var, kwo, kd, kw


STYLES = (lambda i: i, lambda i: None, lambda i: (0, '', (), False, None)[i % 5])


def text_of(sig, first=(), style=STYLES[0]):
    pos, nd, var, kwo, kd, kw = sig
    parts = list(first) + [p if i < len(pos) - nd else '%s=%r' % (p, style(i)) for i, p in enumerate(pos)]
    if var:
        parts.append('*' + var)
    elif kwo:
        parts.append('*')
    parts += [p if i < len(kwo) - kd else '%s=%r' % (p, p) for i, p in enumerate(kwo)]
    if kw:
        parts.append('**' + kw)
    return ', '.join(parts)


def check_signature(check, sig):
    for style in (STYLES if sig[1] else STYLES[:1]):
        check_signature_with(check, sig, style)


def check_signature_with(check, sig, style):
    from whatami import init_argspec
    from whatami.misc import required_args
    pos, nd, var, kwo, kd, kw = sig
    defaults = tuple(style(i) for i in range(len(pos) - nd, len(pos))) or None
    required = list(pos[:len(pos) - nd])
    env = {}
    exec('def func(%s):\n    pass\nlamb = lambda %s: None\nclass Plain(object):\n    def meth(%s):\n        pass\n' % (text_of(sig, style=style), text_of(sig, style=style), text_of(sig, ['self'], style)), env)
    for f in ('func', 'lamb'):
        check.count()
        got = outcome(lambda: list(required_args(env[f])))
        check.expect(got == ('ok', required), 'required_args does not give the positional arguments without defaults', signature=text_of(sig, style=style), got=repr(got), expected=required)
    got = outcome(lambda: list(required_args(env['Plain'].meth)))
    check.expect(got == ('ok', ['self'] + required), 'required_args does not work with methods', signature=text_of(sig, style=style), got=repr(got), expected=['self'] + required)
    src = ('class A(object):\n    def __init__(%s):\n        pass\n'
           'class Inherits(A):\n    other = 1\n'
           'class Overrides(A):\n    def __init__(self, mine, also=2):\n        pass\n'
           'class Meta(type):\n    pass\n'
           'class WithMeta(Inherits, metaclass=Meta):\n    pass\n' % text_of(sig, ['self'], style))
    exec(src, env)
    for cls, expected in (('A', None), ('Inherits', None), ('WithMeta', None), ('Overrides', (['self', 'mine', 'also'], None, None, (2,), ['mine']))):
        expected = expected or (['self'] + list(pos), var, kw, defaults, required)
        objs = [env[cls]]
        objs.append(env[cls].__new__(env[cls]))
        for o in objs:
            check.count()
            got = outcome(lambda: init_argspec(o))
            if not check.expect(got[0] == 'ok' and len(got[1]) == 5, 'init_argspec fails', signature=text_of(sig, style=style), cls=cls, got=repr(got)):
                continue
            args, varargs, varkw, defs, req = got[1]
            check.expect((list(args), varargs, varkw, tuple(defs or ()), list(req)) == (expected[0], expected[1], expected[2], expected[3] or (), expected[4]), 'init_argspec does not describe the constructor', signature=text_of(sig, style=style), cls=cls,
                         got=repr(got[1]), expected=repr(expected))
    check.seen(text_of(sig, style=style))


# --- fqn

def check_fqn(check, _):
    from whatami import fqn, maybe_import_member
    name = 'whatami_mc_c33'
    for module_name in (name, name + '.sub', name + '.a.b'):
        mods = []
        for k in range(len(module_name.split('.'))):
            m = '.'.join(module_name.split('.')[:k + 1])
            if m not in sys.modules:
                sys.modules[m] = types.ModuleType(m)
                sys.modules[m].__path__ = []
                mods.append(m)
        module = sys.modules[module_name]
        try:
            exec('''
class Top(object):
    class Inner(object):
        class Deeper(object):
            def meth(self):
                pass
        @staticmethod
        def static():
            pass
    def meth(self):
        class Local(object):
            pass
        return Local
class Sub(Top):
    pass
class Meta(type):
    pass
class WithMeta(Top.Inner, metaclass=Meta):
    pass
def func():
    def inner():
        pass
    return inner
lamb = lambda: None
''', module.__dict__)
            m = module
            for obj, expected in ((m.Top, 'Top'), (m.Sub, 'Sub'), (m.Top.Inner, 'Top.Inner'), (m.Sub.Inner, 'Top.Inner'), (m.Top.Inner.Deeper, 'Top.Inner.Deeper'), (m.func, 'func'), (m.func(), 'func.<locals>.inner'), (m.lamb, '<lambda>'),
                                  (m.Top.meth, 'Top.meth'), (m.Sub.meth, 'Top.meth'), (m.Top().meth, 'Top.meth'), (m.Top.Inner.static, 'Top.Inner.static'), (m.Top().meth(), 'Top.meth.<locals>.Local'), (m.Top.Inner.Deeper().meth, 'Top.Inner.Deeper.meth')):
                check.count()
                got = outcome(fqn, obj)
                check.expect(got == ('ok', module_name + '.' + expected), 'fqn is not module and name', expected=module_name + '.' + expected, got=repr(got))
                check.seen(module_name + expected)
                if '.' not in expected and expected != '<lambda>':
                    check.expect(maybe_import_member(fqn(obj)) is obj, 'fqn cannot be imported back', obj=expected)
                if isinstance(obj, type):
                    for o, e in ((obj(), module_name + '.' + expected), (obj, 'builtins.type')):
                        check.count()
                        got = outcome(fqn, o, use_class=True)
                        check.expect(got == ('ok', e), 'fqn is not that of the class', got=repr(got), expected=e)
            check.expect(fqn(m.WithMeta, use_class=True) == module_name + '.Meta' and fqn(m.WithMeta(), True) == module_name + '.WithMeta', 'fqn is not that of the class')
        finally:
            for k in mods:
                del sys.modules[k]
    import threading
    for obj, expected in ((int, 'builtins.int'), (threading.Thread, 'threading.Thread'), (fqn, 'whatami.misc.fqn'), (dict, 'builtins.dict')):
        check.count()
        check.expect(fqn(obj) == expected and fqn(obj, use_class=True) in ('builtins.type', 'builtins.function'), 'fqn is not module and name', got=fqn(obj), expected=expected)
    for obj, expected in ((1, 'builtins.int'), ('a', 'builtins.str'), (None, 'builtins.NoneType'), ([], 'builtins.list')):
        check.expect(fqn(obj, use_class=True) == expected, 'fqn is not that of the class', got=fqn(obj, use_class=True), expected=expected)


# --- all_subclasses: all the small hierarchies

def check_subclasses(check, item):
    """item: the bases (indices of previous classes) of each class."""
    from whatami.misc import all_subclasses
    classes = []
    try:
        for n, bases in enumerate(item):
            classes.append(type('C%d' % n, tuple(classes[b] for b in bases) or (object,), {}))
    except TypeError:
        return   # no mro
    above = []
    for n, bases in enumerate(item):
        above.append(set(bases).union(*[above[b] for b in bases]))
    check.seen(item)
    for n, cls in enumerate(classes):
        check.count()
        expected = {classes[k] for k in range(len(classes)) if n in above[k]}
        got = outcome(all_subclasses, cls)
        check.expect(got[0] == 'ok' and isinstance(got[1], list) and set(got[1]) == expected, 'all_subclasses does not give all the subclasses', bases=repr(item), cls=n, got=repr(got), expected=repr(expected))


def hierarchies(n):
    def grow(prefix):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for k in range(3):
            for bases in itertools.permutations(range(len(prefix)), k):
                yield from grow(prefix + [bases])
    return grow([])


# --- mlexp_info_helper

def described():
    """(a description, its id)."""
    from whatami import What, whatable

    class WithId(object):
        def id(self):
            return 'theid'

    @whatable
    class WithWhat(object):
        def __init__(self):
            self.a = 1
    return [(None, None), ('text', 'text'), ('', ''), (WithWhat(), 'WithWhat(a=1)'), (WithId(), 'theid'), (What('w', {'b': [1]}), 'w(b=[1])')]


def check_mlexp(check, _):
    import datetime
    import inspect
    from socket import gethostname
    from whatami import mlexp_info_helper
    keys = ['title', 'data_setup', 'model_setup', 'eval_setup', 'fsource', 'date', 'idate', 'host', 'comments']
    for (d, did), (m, mid), (e, eid) in itertools.product(described(), repeat=3):
        for title, comments, function, clock in (('t', None, None, None), ('', 'c', check_fqn, lambda: 'now'), (None, '', described, lambda: None)):
            calls = []

            def itime():
                calls.append(1)
                return clock()
            before = datetime.datetime.now().replace(microsecond=0)
            info = mlexp_info_helper(title, data_setup=d, model_setup=m, eval_setup=e, exp_function=function, comments=comments, itime=itime if clock else None)
            after = datetime.datetime.now()
            check.count()
            date = datetime.datetime.strptime(info['date'], '%Y-%m-%d %H:%M:%S')
            check.expect(list(info) == keys, 'the experiment is not described with the documented keys in order', got=list(info))
            check.expect((info['title'], info['data_setup'], info['model_setup'], info['eval_setup'], info['comments'], info['host']) == (title, did, mid, eid, comments, gethostname()), 'the experiment is not described by the given things',
                         got=repr(info), expected=[did, mid, eid])
            check.expect(info['fsource'] == (inspect.getsourcelines(function) if function else None), 'the source is not that of the function')
            check.expect(before <= date <= after, 'the date is not now', got=info['date'])
            check.expect(info['idate'] == (clock() if clock else None) and len(calls) == (1 if clock else 0), 'the internet time is not that given', got=repr(info['idate']))
            check.seen(repr((did, mid, eid, title)))


def body(check):
    check.parallel(check_signature, list(signatures(check.thorough)))
    check.parallel(check_fqn, [0])
    check.parallel(check_mlexp, [0])
    todo = [h for n in range(1, 5) for h in hierarchies(n)] + (list(hierarchies(5))if check.thorough else [])
    for n in range(5, 8 if check.thorough else 7):   # trees of single inheritance
        todo += list(itertools.product(*[[()]] + [[(k,) for k in range(i)] for i in range(1, n)]))
    for n in (10, 20, 50):
        todo.append(tuple((i - 1,) if i else () for i in range(n)))
    for n in range(2, 7):   # towers of diamonds
        todo.append(tuple((() if i == 0 else (i - 1, i - 2) if i % 3 == 0 else (i // 3 * 3,)) for i in range(3 * n + 1)))
    check.parallel(check_subclasses, todo)
    check.extra['hierarchies'] = len(todo)
    check.sample({'hierarchy': repr(todo[50])})


if __name__ == '__main__':
    main('C33', 'exploration', 'all signatures with up to 3 (thorough: 4) positional parameters, all hierarchies of up to 4 (thorough: 5) classes with up to 2 bases, all combinations of three descriptions, all kinds of nested definitions; distinct ones are different signatures, hierarchies, names or descriptions', body)
