# coding=utf-8
"""C10: callables are identified by what they would be called with."""
import functools
import itertools

from mc.core import main, outcome
from mc.special import Plain

PARAMS = ('d', 'b', 'a', 'c')  # not sorted


MORE = tuple(['p%d' % (i * 7 % 16) for i in range(16)])
ODD = ('self', 'cls', 'args', 'kwargs')  # they mean nothing special in a function


def params_of(kind):
    return ODD if kind == 'odd' else PARAMS + MORE


def make_function(nparams, ndefaults, kind='def'):
    """A real function with those parameters that returns what it receives."""
    params = params_of(kind)[:nparams]
    stars = {'all by name': 0, 'most by name': 1, 'last by name': max(0, nparams - 1)}
    sig = ', '.join([('*, ' if stars.get(kind) == i else '') + (p if i < nparams - ndefaults else "%s='def_%s'" % (p, p)) for i, p in enumerate(params)])
    ret = '{%s}' % ', '.join(["'%s': %s" % (p, p) for p in params])
    ns = {}
    if kind in ('def', 'odd') or kind in stars:
        name = {'odd': '__fun_', 'all by name': '_fun'}.get(kind, 'fun')
        exec('def %s(%s):\n    "doc"\n    return %s' % (name, sig, ret), ns)
        return ns[name], name
    if kind == 'lambda':
        exec('fun = lambda %s: %s' % (sig, ret), ns)
        return ns['fun'], 'lambda'
    if kind == 'closure':
        exec('def outer(free):\n    def clo(%s):\n        free\n        return %s\n    return clo' % (sig, ret), ns)
        return ns['outer'](3), 'clo'
    if kind == 'closure over function':
        exec('def outer(free):\n    def clo(%s):\n        free\n        return %s\n    return clo' % (sig, ret), ns)
        return ns['outer'](lambda other=1: None), 'clo'
    raise ValueError(kind)


KINDS = ('def', 'odd', 'lambda', 'closure', 'closure over function', 'all by name', 'most by name', 'last by name')


class PartialSub(functools.partial):
    pass


def keep(p):
    p.attribute = 1  # partials with attributes are not flattened by python
    return p


def wrapper(kind):
    from toolz import curry
    return {'partial': functools.partial, 'curry': curry, 'kept': lambda f, *a, **k: keep(functools.partial(f, *a, **k)), 'sub': PartialSub}[kind]


def layers(nparams, thorough, kind='def'):
    """All (number of positional, keywords) for a layer."""
    kws = params_of(kind)[:nparams]
    for npos in range(3):
        for r in range(3 if not thorough else 4):
            for ks in itertools.combinations(kws + ('zz',), r):
                yield npos, ks


def apply_layers(fun, ls, wrappers):
    c = fun
    for i, ((npos, ks), w) in enumerate(zip(ls, wrappers)):
        c = wrapper(w)(c, *['pos%d_%d' % (i, j) for j in range(npos)], **dict([(k, 'kw%d_%s' % (i, k)) for k in ks]))
    return c


def oracle(fun, ls, params, ndefaults):
    """('ok', what the function receives for the known parameters) or ('error',): calling it with the missing arguments."""
    c = fun
    kws, npos = {}, 0
    for i, (n, ks) in enumerate(ls):
        c = functools.partial(c, *['pos%d_%d' % (i, j) for j in range(n)], **dict([(k, 'kw%d_%s' % (i, k)) for k in ks]))
        npos += n
        kws.update(dict.fromkeys(ks))
    missing = [p for j, p in enumerate(params) if j >= npos and p not in kws and j < len(params) - ndefaults]
    try:
        received = c(**dict.fromkeys(missing, 'missing'))
    except TypeError:
        return 'error', None
    assert all(received[m] == 'missing' for m in missing)
    return 'ok', {k: v for k, v in received.items() if k not in missing}


def text_of(name, conf):
    return '%s(%s)' % (name, ','.join(["%s='%s'" % (k, conf[k]) for k in sorted(conf)]))


def one(check, fun, name, c, exp, info):
    from whatami import callable2call, whatareyou, whatable, obj2what, what2id, What
    check.count()
    if exp[0] == 'error':
        for label, fn in (('callable2call', callable2call), ('value', lambda c: What('C', {'x': c}).id()), ('nested value', lambda c: What('C', {'x': [c]}).id())) + \
                ((('whatable', whatable),) if info['outermost'] != 'curry' else ()):
            got = outcome(fn, c)
            check.expect(got == ('error', 'ValueError'), 'a call that is not possible is not an error', how=label, got=repr(got), **info)
        return
    conf = exp[1]
    text = text_of(name, conf)
    got = outcome(callable2call, c)
    check.expect(got == ('ok', (name, conf)), 'callable2call does not give what the function would receive', got=repr(got), expected=repr((name, conf)), **info)
    for label, fn, e in (('whatareyou', lambda: whatareyou(c), text), ('obj2what', lambda: obj2what(c), text),
                         ('value', lambda: What('C', {'x': c}), 'C(x=%s)' % text), ('value in collections', lambda: What('C', {'x': [(c,), {'k': c}]}), "C(x=[(%s),{'k':%s}])" % (text, text)),
                         ('value in what', lambda: What('C', {'x': What('D', {'y': c})}), 'C(x=D(y=%s))' % text),
                         ('renamed', lambda: whatareyou(c, name_override='other'), 'other' + text[len(name):])):
        got = outcome(lambda: fn().id())
        check.expect(got == ('ok', e), 'the id is not that of the call', how=label, got=got, expected=e, **info)
    got = outcome(what2id, c)
    check.expect(got == ('ok', text), 'the id is not that of the call', how='what2id', got=got, expected=text, **info)


def same_behaviour(check, original, made, params, info):
    """Both callables give the same, or fail alike, whatever the arguments."""
    for npos in range(len(params) + 2):
        for ks in [()] + [(p,) for p in params] + [('zz',)] + [tuple(params)] + ([tuple(params[1:])] if len(params) > 1 else []):
            args, kwargs = tuple(['call%d' % i for i in range(npos)]), dict([(k, 'call_' + k) for k in ks])
            a, b = outcome(original, *args, **kwargs), outcome(made, *args, **kwargs)
            check.expect(a == b, 'the whatable callable does not behave like the original', args=args, kwargs=kwargs, got=repr(b), expected=repr(a), **info)


def snapshot(c):
    if isinstance(c, functools.partial):
        return (id(c.func), c.args, sorted((c.keywords or {}).items()), sorted(vars(c)), type(c))
    return (c.__name__, c.__defaults__, sorted(vars(c)), c.__doc__, id(c.__code__))


def chunk(check, item):
    from whatami import whatable, is_whatable
    kind, nparams, ndefaults, wrappers, thorough = item
    params = params_of(kind)[:nparams]
    ls_all = list(layers(nparams, thorough, kind))
    if len(wrappers) == 3:
        ls_all = [l for l in ls_all if l[0] <= 1 and len(l[1]) <= 1]
    elif len(wrappers) == 2 and not thorough:
        ls_all = [l for l in ls_all if l[0] + len(l[1]) <= 3 and len(l[1]) <= 2]
    for ls in itertools.product(ls_all, repeat=len(wrappers)):
        fun, name = make_function(nparams, ndefaults, kind)
        exp = oracle(fun, ls, params, ndefaults)
        info = dict(kind=kind, nparams=nparams, ndefaults=ndefaults, layers=repr(ls), wrappers=wrappers, outermost=(wrappers or (None,))[-1])
        try:
            c = apply_layers(fun, ls, wrappers)
        except TypeError:
            continue  # curry itself refuses
        check.seen(repr((kind, nparams, ndefaults, wrappers, ls)))
        one(check, fun, name, c, exp, info)
        if exp[0] == 'ok' and info['outermost'] != 'curry':
            before = snapshot(c)
            w = whatable(c)
            check.expect(snapshot(c) == before and w is not c and not hasattr(c, 'what') and not hasattr(fun, 'what'), 'whatamising modifies the original', **info)
            text = text_of(name, exp[1])
            got = outcome(lambda: (is_whatable(w), w.what().id(), w.what().name, w.what().conf))
            check.expect(got == ('ok', (True, text, name, exp[1])), 'the whatable callable is not identified by the call', got=repr(got), expected=text, **info)
            one_value(check, w, text, info)
            if len(wrappers) <= 1:
                same_behaviour(check, c, w, params, info)
                for attr in ('__name__', '__doc__', '__module__'):
                    if hasattr(c, attr) and not isinstance(c, functools.partial):
                        check.expect(getattr(w, attr) == getattr(c, attr), 'the whatable callable has not the metadata of the original', attr=attr, **info)
                ww = whatable(whatable(w)) if kind != 'closure over function' or True else w
                if not wrappers:
                    got = outcome(lambda: ww.what().id())
                    check.expect(got == ('ok', text), 'whatamising twice changes the id', got=got, expected=text, **info)
                    same_behaviour(check, c, ww, params, info)
            if not (isinstance(c, functools.partial)):
                i = whatable(c, modify_func_inplace=True)
                check.expect(i is c and hasattr(c, 'what') and c.what().id() == text, 'modify_func_inplace does not modify in place', **info)


def one_value(check, w, text, info):
    from whatami import What
    got = outcome(lambda: What('C', {'x': w, 'y': {'k': (w,)}}).id())
    check.expect(got == ('ok', "C(x=%s,y={'k':(%s)})" % (text, text)), 'a whatable callable as a value is not identified by the call', got=got, **info)


def again(check):
    """Whatamising a whatable callable with other options gives one more, and the ones it comes from stay as they were."""
    from whatami import whatable
    for nparams, kind in itertools.product((1, 2, 4), KINDS):
        params = params_of(kind)[:nparams]
        options = [dict(non_id_keys=non) for r in (0, 1, 2) for non in itertools.combinations(params, r)]
        for o1, o2, o3 in itertools.product(options, options, options[:3]):
            fun, name = make_function(nparams, nparams, kind)
            chain = [(fun, None)]
            for o in (o1, o2, o3):
                new = whatable(chain[-1][0], **o)
                check.count()
                check.seen((nparams, kind, repr((o1, o2, o3))))
                check.expect(not any(new is c for c, _ in chain), 'the callable itself is modified', options=repr((o1, o2, o3)), kind=kind)
                chain.append((new, o))
            check.expect(not hasattr(fun, 'what'), 'whatamising modifies the original', options=repr((o1, o2, o3)), kind=kind)
            for c, o in chain[1:]:
                exp = text_of(name, {p: 'def_' + p for p in params if p not in o['non_id_keys']})
                got = outcome(lambda: c.what().id())
                check.expect(got == ('ok', exp), 'whatamising again modifies the one it comes from', options=repr((o1, o2, o3)), got=got, expected=exp, kind=kind)


PRIVATE = ('x', '_y', 'z_', 'what', 'xx', '__v')


def private(check):
    """Names that are excluded in objects: whatareyou excludes them here too, and nothing else does (whatable makes just the explicit ones non-id)."""
    from whatami import callable2call, whatareyou, obj2what, what2id, whatable, What
    exclusions = [{}] + [dict(exclude_prefix=pre, exclude_postfix=post, excludes=ex) for pre in ('_', None, '', 'x', '__') for post in ('_', None, 'x') for ex in (('what',), (), None, ['x', 'nope'], ('_y',))]
    for ndefaults in range(len(PRIVATE) + 1):
        for fixed in [()] + [(p,) for p in PRIVATE] + [PRIVATE[:2], PRIVATE[-3:]]:
            params = PRIVATE
            ns = {}
            exec('def fun(%s):\n    return 1' % ', '.join([p if i < len(params) - ndefaults else "%s='def_%s'" % (p, p) for i, p in enumerate(params)]), ns)
            fun = ns['fun']
            c = functools.partial(fun, **{p: 'kw_' + p for p in fixed}) if fixed else fun
            conf = {p: 'def_' + p for p in params[len(params) - ndefaults:]}
            conf.update({p: 'kw_' + p for p in fixed})
            full = text_of('fun', conf)
            check.expect(outcome(callable2call, c) == ('ok', ('fun', conf)), 'callable2call does not give what the function would receive', params=params, fixed=fixed, ndefaults=ndefaults)
            got = outcome(lambda: What('C', {'x': c}).id())
            check.expect(got == ('ok', 'C(x=%s)' % full), 'the id is not that of the call', how='value', got=got, expected=full)
            for kw in exclusions:
                pre, post, ex = kw.get('exclude_prefix', '_'), kw.get('exclude_postfix', '_'), set(kw.get('excludes', ('what',)) or ())
                trimmed = {k: v for k, v in conf.items() if not (pre and k.startswith(pre)) and not (post and k.endswith(post)) and k not in ex}
                info = dict(fixed=fixed, ndefaults=ndefaults, options=repr(kw))
                check.count()
                check.seen(repr((fixed, ndefaults, kw)))
                for how, fn in (('whatareyou', whatareyou), ('obj2what', obj2what)):
                    got = outcome(lambda: fn(c, **kw))
                    check.expect(got[0] == 'ok' and got[1].conf == trimmed and got[1].id() == text_of('fun', trimmed), 'the names that are excluded are not those asked for', how=how, got=repr(got), expected=repr(trimmed), **info)
                if not kw:
                    check.expect(what2id(c) == text_of('fun', trimmed), 'the names that are excluded are not those asked for', how='what2id', got=what2id(c), **info)
                got = outcome(lambda: whatable(c, **kw).what())
                visible = {k: v for k, v in conf.items() if k not in ex}
                check.expect(got[0] == 'ok' and got[1].conf == conf and got[1].id() == text_of('fun', visible) and str(got[1]) == full, 'the non-id parameters of the whatable callable are not those asked for', got=repr(got), expected=repr(visible), **info)


def others(check):
    """Other callables: builtins and classes have no known parameters but those fixed by name."""
    from whatami import callable2call, whatareyou
    for c, exp in ((map, ('map', {})), (functools.partial(map), ('map', {})), (functools.partial(map, function=str), ('map', {'function': str})),
                   (functools.partial(functools.partial(max, key=1), default=2), ('max', {'key': 1, 'default': 2})),
                   (functools.partial(functools.partial(max, key=1), key=2), ('max', {'key': 2})), (dict, ('dict', {})), (Plain, ('Plain', {})),
                   (functools.partial(Plain, a=3), ('Plain', {'a': 3}))):
        check.count()
        got = outcome(callable2call, c)
        check.expect(got == ('ok', exp), 'wrong call for a callable that is not a function', got=repr(got), expected=repr(exp))
        got = outcome(lambda: whatareyou(c))
        check.expect(got[0] == 'ok' and (got[1].name, got[1].conf) == exp, 'wrong configuration for a callable that is not a function', got=repr(got), expected=repr(exp))
    for c in (3, 'a', None, object(), Plain(), [len]):
        check.count()
        check.expect(outcome(callable2call, c) == ('error', 'ValueError'), 'callable2call accepts what is not callable', value=repr(c))


def wide(check, item):
    """Many parameters, and many layers."""
    kind, nparams, ndefaults = item
    params = params_of(kind)[:nparams]
    fun, name = make_function(nparams, ndefaults, kind)
    layered = [(('partial',), ((npos, params[k:k + most]),)) for npos in range(nparams + 2) for k in range(0, nparams, 2) for most in (0, 1, nparams)]
    for ways in (('kept',), ('partial', 'kept'), ('curry', 'kept'), ('sub', 'kept', 'curry')):
        for n in (2, 4, 5, 7, nparams, nparams + 1):
            ws = tuple([ways[i % len(ways)] for i in range(n)])
            layered.append((ws, ((1, ()),) * n))
            layered.append((ws, tuple([(0, (params[-1 - i % nparams],)) for i in range(n)])))
            layered.append((ws, tuple([(1, (params[-1],)) if i % 2 else (0, (params[-1], params[-2])) for i in range(n)])))
    for ws, ls in layered:
        exp = oracle(fun, ls, params, ndefaults)
        info = dict(kind=kind, nparams=nparams, ndefaults=ndefaults, layers=repr(ls), wrappers=ws, outermost=ws[-1])
        try:
            c = apply_layers(fun, ls, ws)
        except TypeError:
            continue  # curry itself refuses
        check.seen(repr((item, ws, ls)))
        one(check, fun, name, c, exp, info)


def body(check):
    items = []
    for nparams in range(5):
        for ndefaults in range(nparams + 1):
            for kind in KINDS:
                items.append((kind, nparams, ndefaults, (), check.thorough))
                for w in ('partial', 'curry', 'sub'):
                    if kind == 'def' or w == 'partial' or (kind == 'most by name' and w == 'curry'):
                        items.append((kind, nparams, ndefaults, (w,), check.thorough))
            if nparams <= 3 or check.thorough:
                for ws in (('partial', 'partial'), ('kept', 'kept'), ('kept', 'curry'), ('curry', 'partial')):
                    items.append(('def', nparams, ndefaults, ws, check.thorough))
                for ws in (('partial', 'partial'), ('kept', 'curry')):
                    items.append(('most by name', nparams, ndefaults, ws, check.thorough))
                for ws in (('kept', 'kept', 'kept'), ('kept', 'curry', 'partial')) + ((('partial',) * 3, ('sub', 'kept', 'sub')) if check.thorough else ()):
                    items.append(('def', nparams, ndefaults, ws, check.thorough))
            elif ndefaults in (0, 2, 3):
                items.append(('def', nparams, ndefaults, ('kept', 'curry'), False))
    items.sort(key=lambda i: -len(i[3]) * 10 - i[1])
    check.parallel(chunk, items)
    check.parallel(wide, [(kind, n, nd) for kind in ('def', 'lambda', 'closure', 'most by name') for n in (7, 12, 18) for nd in (0, 3, n)])
    others(check)
    again(check)
    private(check)
    fun, name = make_function(3, 2)
    check.sample({'signature': "(d, b='def_b', a='def_a')", 'layers': '(1 positional), (a by name)', 'known': repr(oracle(fun, ((1, ()), (0, ('a',))), PARAMS[:3], 2)[1])})


if __name__ == '__main__':
    main('C10', 'exploration', 'one evaluation per (signature, layers of fixed arguments, kinds of layer); the oracle are the arguments received by the real function when '
         'called with just the missing ones; distinct ones differ in any of them', body)
