# coding=utf-8
"""C27: call capture records exactly the chosen call."""
import itertools

from mc.core import main, outcome

DEFAULTS = {'y': "'dy'", 'k': "('dk', 1)", 'self': 'None', 'depth': '33', 'ignores': "'di'"}


# --- Programs

def signatures(thorough):
    """(positional, number of them with defaults, has varargs, keyword only, number of them with defaults, has kwargs)."""
    for pos in ((), ('x',), ('x', 'y'), ('self', 'x'), ('x', 'depth'), ('overrides', 'ignores'), ('cls', 'frame', 'name')):
        for nd in range(len(pos) + 1) if thorough else sorted({0, min(1, len(pos))}):
            for var in (False, True):
                for kwo in ((), ('k',), ('k', 'y')) if 'y' not in pos else ((), ('k',)):
                    if pos not in ((), ('x',), ('x', 'y')) and kwo and not thorough:
                        continue
                    for kd in sorted({0, len(kwo)}):
                        for kwargs in (False, True):
                            yield pos, nd, var, kwo, kd, kwargs


def text_of(sig):
    pos, nd, var, kwo, kd, kwargs = sig
    parts = [p if n < len(pos) - nd else '%s=%s' % (p, DEFAULTS.get(p, "'d%s'" % p)) for n, p in enumerate(pos)]
    if var:
        parts.append('*args')
    elif kwo:
        parts.append('*')
    parts += [p if n < len(kwo) - kd else '%s=%s' % (p, DEFAULTS.get(p, "'d%s'" % p)) for n, p in enumerate(kwo)]
    if kwargs:
        parts.append('**kwargs')
    return ', '.join(parts)


def calls(sig):
    """Ways of calling: source texts of arguments."""
    pos, nd, var, kwo, kd, kwargs = sig
    need = ['%s=%r' % (k, 'v' + k) for k in kwo[:len(kwo) - kd]]
    every = ['%s=[%r]' % (k, 'v' + k) for k in kwo]
    values = [repr('v' + p) for p in pos]
    out = [values[:len(pos) - nd] + need, values + every, values[:1 if pos else 0] + ['%s=%s' % (p, v) for p, v in zip(pos, values)][1:] + need]
    if var:
        out.append(values + ["'extra'", 'None'] + need)
        out.append(values + ['None'] + every)
    if kwargs:
        out.append(values + need + ['z=1', 'where=[2]'])
        out.append(values + need + ["kwargs='k'", "args='a'", 'overrides_={}'])
        if 'x' not in pos:
            out.append(values + need + ['x=5'])
    unique = []
    for c in out:
        if c not in unique:
            unique.append(c)
    return unique


BODIES = {
    'nothing': [],
    'rebind': ['{p} = "rebound"'],
    'more locals': ['one = 1', 'two = [one]'],
    'branch': ['if {p} is not None:', '    {p} = ({p}, "changed")', 'else:', '    other = 2'],
    'closure': ['def inner():', '    return {p}', '{p} = "closed"'],
    'loop': ['for {p} in range(3):', '    pass'],
    'kwargs': ['if HAS_KWARGS:', '    kwargs["added"] = {p}'],
    'rebound kwargs': ['if HAS_KWARGS:', '    kwargs = dict(kwargs, z="changed", more=1)'],
    'mutable': ['{p} = []', '{p}.append(1)'],
}

# The chain of helpers between the function of interest and the capture
HELPERS = '''
def at1(opts):
    return CAPTURE(**opts)

def at2(opts, unrelated=3):
    local = 5
    return at1(opts)

def at3(opts):
    return [at2(opts), 0][0]

class Deep(object):
    def at2(self, opts, x=1):
        return at1(opts)
'''


def program(sig, body, depth, kind):
    """Source of a function f with the signature that captures itself; depth is the number of helpers between it and the capture."""
    pos, nd, var, kwo, kd, kwargs = sig
    names = list(pos) + list(kwo)
    p = [n for n in names if n not in ('self', 'cls')][:1] or ['free']
    lines = [l.format(p=p[0]).replace('HAS_KWARGS', str(kwargs)) for l in BODIES[body]]
    if p == ['free']:
        lines = ['free = None'] + lines
    expected = '{%s}' % ', '.join(['%r: %s' % (n, n) for n in names])
    lines += ['EXPECTED.append((%s, %s, %s, dict(locals())))' % (expected, 'args' if var else '()', 'kwargs' if kwargs else '{}')]
    call = {0: 'CAPTURE(**OPTS)', 1: 'at1(OPTS)', 2: 'at2(OPTS)', 3: 'at3(OPTS)', 'deep': 'Deep().at2(OPTS)'}[depth]
    lines += ['got = %s' % call, 'SNAP.append(snapshot(got))', '%s = "later"' % p[0], 'late = 1', 'got_ = CAPTURE()' if False else 'locals()', 'return got']
    if kind == 'generator':
        lines = lines[:-1] + ['yield got']
    ind = '    '
    if kind in ('function', 'generator'):
        src = 'def f(%s):\n' % text_of(sig) + '\n'.join([ind + l for l in lines])
    elif kind == 'closure':
        src = 'def make():\n    captured = "captured"\n    def f(%s):\n        use = captured\n' % text_of(sig) + '\n'.join([ind * 2 + l for l in lines]) + '\n    return f\nf = make()'
    elif kind == 'recursive':
        src = ('LEVEL = [0]\ndef f(%s):\n    LEVEL[0] += 1\n    if LEVEL[0] < 3:\n        RESULT = RECURSE()\n        return RESULT\n' % text_of(sig)) + '\n'.join([ind + l for l in lines])
    return src


def snapshot(got):
    """Values of a capture, as they are when it is done."""
    if isinstance(got, dict):
        return dict(got)
    return got.name, dict(got.conf), got.id() if '<' not in got.name else None


def ids(d):
    """Values by identity, as snapshots must hold the very same objects."""
    return {k: id(v) for k, v in d.items()}


def small(v):
    return repr(v)[:300]


def execute(src, arguments, capture, opts, kind='function'):
    """Runs the program; returns (outcome, parameters, varargs, kwargs, all locals, snapshots)."""
    expected, snaps = [], []
    env = {'CAPTURE': capture, 'OPTS': opts, 'EXPECTED': expected, 'SNAP': snaps, 'snapshot': snapshot}
    exec(compile(HELPERS + src, __file__, 'exec'), env)   # in a file that inspect finds soon
    call = 'f(%s)' % ', '.join(arguments)
    if kind == 'generator':
        call = 'next(%s)' % call
    env['RECURSE'] = lambda: eval(call, env)
    out = outcome(lambda: eval(call, env))
    return out, expected, snaps


# --- call_dict

OVERRIDES = [None, {}, {'x': 'over'}, {'x': None, 'y': []}, {'new': 1, 'depth': 99}]
OVER = [{}, {'x': 'overover'}, {'x': None, 'k': 0}, {'newer': None, 'new': 2}]
IGNORES = [None, (), ('x',), ['y', 'nope', 'self'], {'k', 'depth'}, iter]


def options(thorough):
    base = [(i, o, oo, iv) for i in IGNORES for o in OVERRIDES for oo in OVER for iv in (False, True)]
    if not thorough:
        base = [b for n, b in enumerate(base) if sum(x not in (None, {}, False) for x in b) <= 2]
    return base


def model(params, varargs, kwargs, ignores, overrides, over, ignore_varargs):
    if varargs and not ignore_varargs:
        return 'error', 'ValueError'
    d = {k: v for k, v in params.items() if k not in ignores}
    d.update(kwargs)
    d.update(overrides or {})
    d.update(over)
    return 'ok', d


def check_call_dict(check, item):
    from whatami import call_dict
    sig, body, depth, kind, few = item
    src = program(sig, body, depth, kind)
    extra = 0 if depth == 0 else 2 if depth == 'deep' else depth
    opts_list = options(check.thorough)[::few or 1]
    for arguments in calls(sig):
        for ignores, overrides, over, ignore_varargs in opts_list:
            opts = dict(over)
            if extra:
                opts['depth'] = extra + 1
            names = ('cls', 'self') if ignores is None else ('x', 'cls') if ignores is iter else ignores
            if ignores is not None:
                opts['ignores'] = iter(names) if ignores is iter else names
            if overrides is not None:
                opts['overrides'] = dict(overrides)
            if ignore_varargs:
                opts['ignore_varargs'] = True
            if [a.split('=')[0] for a in arguments if a.split('=')[0] in names and a.split('=')[0] not in sig[0] + sig[3]]:
                continue   # extras that are named like ignored parameters: not specified
            given = dict(opts)
            out, expected, _ = execute(src, arguments, call_dict, opts, kind)
            check.count()
            replay = dict(program=src, arguments=arguments, options={k: small(v) for k, v in opts.items()})
            if not check.expect(len(expected) == 1, 'the program does not work', out=small(out), **replay):
                continue
            params, varargs, kwargs, _ = expected[0]
            want = model(params, varargs, kwargs, names, overrides, over, ignore_varargs)
            check.seen(repr((sig, body, depth, kind, arguments, repr(ignores), repr(overrides), repr(over), ignore_varargs)))
            if want[0] == 'error' or out[0] == 'error':
                check.expect(out == want, 'call_dict does not %s' % ('fail' if want[0] == 'error' else 'work'), got=small(out), expected=small(want), **replay)
                continue
            check.expect(type(out[1]) is dict and ids(out[1]) == ids(want[1]), 'call_dict does not give the parameters of the call', got=small(out[1]), expected=small(want[1]), **replay)
            check.expect(overrides is None or opts['overrides'] == overrides, 'call_dict modifies the overrides', **replay)
            check.expect(sorted(given) == sorted(opts), 'call_dict modifies its arguments', **replay)


# --- call2what

NON_IDS = [None, (), ('x',), ['late', 'y', 'x'], {'k', 'self'}, iter]


def check_call2what(check, item):
    from whatami import call2what, What
    sig, body, depth, kind, few = item
    src = program(sig, body, depth, kind)
    extra = 0 if depth == 0 else 2 if depth == 'deep' else depth
    for arguments in calls(sig):
        for non in (NON_IDS[::2] if check.thorough else NON_IDS[len(src) % 3::3]) if few else NON_IDS:
            opts = {}
            if extra:
                opts['depth'] = extra + 1
            names = () if non is None else ('x', 'y') if non is iter else non
            if non is not None:
                opts['non_id_keys'] = iter(names) if non is iter else non
            out, expected, snaps = execute(src, arguments, call2what, opts, kind)
            check.count()
            replay = dict(program=src, arguments=arguments, options={k: small(v) for k, v in opts.items()})
            check.seen(repr((sig, body, depth, kind, arguments, repr(non))))
            if not check.expect(out[0] == 'ok' and len(expected) == 1 and isinstance(out[1], What), 'call2what fails', got=small(out), **replay):
                continue
            what, (_, _, _, local) = out[1], expected[0]
            check.expect(what.name == 'f', 'the name is not that of the function', got=what.name, **replay)
            check.expect(ids(snaps[0][1]) == ids(local), 'call2what does not have all the locals of the call', got=small(snaps[0][1]), expected=small(local), **replay)
            check.expect(ids(what.conf) == ids(snaps[0][1]) and what.id() == snaps[0][2], 'what call2what gives changes later', got=small(what.conf), expected=small(snaps[0][1]), **replay)
            check.expect(what.id() == What('f', dict(local), set(names)).id(), 'the id does not leave out exactly the non-id keys', got=what.id(), **replay)


def check_special(check, _):
    """Depths, methods and frames that are not plain functions."""
    from whatami import call2what, call_dict
    from functools import partial

    def a(x):
        y = x + 1
        return b(y)

    def b(z):
        w = [z]
        return c(w)

    def c(v, *args, **kw):
        return (call2what(depth=1), call2what(depth=2), call2what(depth=3)), (call_dict(depth=1), call_dict(depth=2), call_dict(depth=3)), call2what(), call_dict()

    class M(object):
        def m(self, p=1, **kw):
            return call2what(), call_dict(), call_dict(ignores=())

        @classmethod
        def k(cls, p=1):
            return call2what(), call_dict(), call_dict(ignores=())

        @staticmethod
        def s(p=1):
            return call2what(), call_dict(), call_dict(ignores=())

        def __call__(self, q):
            return call2what(), call_dict(), call_dict(ignores=())
    for n in range(3):
        whats, dicts, w1, d1 = a(n)
        check.count(8)
        check.expect([w.name for w in whats] == ['c', 'b', 'a'] and w1.name == 'c', 'the depth is not respected', got=[w.name for w in whats])
        check.expect(whats[2].conf['x'] == n and whats[2].conf['y'] == n + 1 and whats[1].conf['z'] == n + 1 and whats[1].conf['w'] == [n + 1] and whats[0].conf['v'] == [n + 1],
                     'the locals are not those of the call at the depth', got=[small(w.conf) for w in whats])
        check.expect(list(dicts) == [{'v': [n + 1]}, {'z': n + 1}, {'x': n}] and d1 == dicts[0], 'the parameters are not those of the call at the depth', got=small(dicts))
    o = M()
    for f, name, me in ((o.m, 'm', {'self': o}), (M().k, 'k', {'cls': M}), (M.k, 'k', {'cls': M}), (o.s, 's', {}), (M.s, 's', {}), (partial(o.m, p=1), 'm', {'self': o})):
        w, d, dd = f(p=7)
        check.count(3)
        check.expect(w.name == name and w.conf['p'] == 7 and all(w.conf[k] is v for k, v in me.items()), 'call2what does not work in methods', method=name, got=small(w.conf))
        check.expect(d == {'p': 7} and dd == dict(me, p=7), 'call_dict does not work in methods', method=name, got=small((d, dd)))
    w, d, dd = o(3)
    check.expect(w.name == '__call__' and d == {'q': 3} and dd == {'q': 3, 'self': o}, 'capture does not work in callable objects', got=small((w, d, dd)))
    # captures in a loop are independent

    def loop():
        out = []
        for i in range(4):
            out.append((call2what(non_id_keys=('out',)), call_dict(extra=i)))
        return out
    got = loop()
    check.count(4)
    check.expect([w.conf['i'] for w, _ in got] == [0, 1, 2, 3] and [d for _, d in got] == [{'extra': i} for i in range(4)], 'several captures of the same call are not independent', got=small([(w.conf['i'], d) for w, d in got]))
    # all calls of a recursion, inside out

    def recursive(n, acc=()):
        if n == 0:
            ns, ds = [], []
            for d in range(1, 5):
                ns.append(call2what(depth=d).conf['n'])
                ds.append(call_dict(depth=d))
            return ns, ds
        return recursive(n - 1, acc + (n,))
    ns, ds = recursive(3)
    check.count(8)
    check.expect(ns == [0, 1, 2, 3] and ds == [{'n': n, 'acc': tuple(range(3, n, -1))} for n in range(4)], 'the calls of a recursion are not told apart', got=small((ns, ds)))


def body(check):
    sigs = list(signatures(check.thorough))
    bodies = sorted(BODIES)
    check.parallel(check_special, [0])
    basic = [s for s in sigs if s[0] in ((), ('x',), ('x', 'y'), ('self', 'x'))]
    cd, cw = [], []
    for sig in sigs:
        for b in bodies:
            for depth in (0, 1, 2, 3, 'deep'):
                for kind in ('function', 'closure', 'generator', 'recursive'):
                    plain = kind == 'function' and depth == 0
                    if check.thorough:
                        if kind != 'function' and not (sig in basic and depth in (0, 2) and b in ('nothing', 'rebind', 'closure', 'kwargs')):
                            continue
                        few = 0 if sig in basic and b in ('nothing', 'kwargs') and plain else 61
                    elif sig in (sigs[1], ('x', 'y'), sig if sig[0] == ('x', 'y') and sig[1] == 1 and sig[2] and sig[5] else None) and b in ('nothing', 'kwargs') and plain:
                        few = 0
                    elif plain or sig in basic and b in ('rebind', 'closure') and (kind == 'function' or depth == 0) and sig[5] and (sig[0] != ('self', 'x') or depth == 0):
                        few = 37
                    else:
                        continue
                    cd.append((sig, b, depth, kind, few))
                    cw.append((sig, b, depth, kind, few))
    check.parallel(check_call_dict, cd)
    check.parallel(check_call2what, cw)
    check.extra['programs'] = len(cd) + len(cw)
    check.sample({'program': program(sigs[5], 'rebind', 2, 'closure')})


if __name__ == '__main__':
    main('C27', 'exploration', 'all programs made of a signature, a body, a kind of function and a distance to the capture, called in all the ways and with all the options of the bounded universe; each one tells its own parameters and locals, '
         'that are compared by identity with what is captured; distinct ones are different programs, calls or options', body, jit=False)
