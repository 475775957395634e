# coding=utf-8
"""C26: missing optional libraries change nothing but their own support."""
import itertools
import json
import os
import subprocess
import sys

from mc.core import main, fork_map, outcome, NPROC, VERIF

LIBRARIES = ('numpy', 'pandas', 'sklearn')


class Blocker(object):
    """Makes importing some modules (and their submodules) fail."""

    def __init__(self, names, error, exact=False):
        self.names, self.error, self.exact = set(names), error, exact

    def find_spec(self, name, path=None, target=None):
        if name in self.names or not self.exact and name.split('.')[0] in self.names:
            raise self.error('%s is blocked' % name)
        return None


class NoImportError(ImportError):
    """Another kind of import error."""


ERRORS = {'ImportError': ImportError, 'ModuleNotFoundError': ModuleNotFoundError, 'NoImportError': NoImportError}


# --- What is run with and without libraries

def some_universe(size):
    from mc import values
    if size:
        return values.universe(size > 1)
    return [values.W('C', [('x', v)]) for v in values.leaves()]


def plain_results(big):
    """{label: text} for everything that does not need optional libraries."""
    import whatami as w
    from whatami.plugins import WhatamiPluginManager as PM
    from mc import values, special
    out = {}

    def put(label, fn, *args, **kwargs):
        out[label] = repr(outcome(fn, *args, **kwargs))

    # ids and parsing
    for d in some_universe(big):
        what = values.build(d)
        i = outcome(what.id)
        out['id %r' % (d,)] = repr(i)
        out['str %r' % (d,)] = repr(outcome(str, what))
        if i[0] == 'ok':
            p = outcome(w.parse_whatid, i[1])
            out['parse %s' % i[1]] = repr(values.raw_obj(p[1]) if p[0] == 'ok' else p)
    for text in ('C(', 'C', 'a=b=C()', "C(x=<class 'str'>)", "C(x=<class 'nope.Nope'>)", "C(x=<class 'whatami.What'>)"):
        p = outcome(w.parse_whatid, text)
        out['parse %s' % text] = repr(values.raw_obj(p[1]) if p[0] == 'ok' else p)
    for label, factory, _ in special.specials():
        put('special %s' % label, lambda: PM.build_string(factory()))
        put('nested special %s' % label, lambda: w.What('C', {'x': [factory(), {'k': (factory(),)}]}).id())
    for label, v in special.refused():
        put('refused %s' % label, PM.build_string, v)

    # whatables
    @w.whatable
    class A(object):
        def __init__(self, a=1, b=(1, 2), _c=3):
            self.a, self.b, self._c = a, b, _c

    class Slotted(object):
        __slots__ = 's', 't'

        def __init__(self):
            self.s = 1
    put('whatable', lambda: A(b={'x': A()}).what().id())
    put('whatareyou', lambda: w.whatareyou(A(3), non_id_keys=('a',)).id())
    put('whatareyou slots', lambda: w.whatareyou(Slotted()).id())
    put('is_whatable', lambda: [w.is_whatable(x) for x in (A(), A, 1, None, 'x', [A()], len)])
    put('what2id', lambda: [w.what2id(x) for x in (A(), None, 'x')])
    put('set_nickname', lambda: w.obj2what(A(), name_override='N').id())
    # tools over ids
    ids = ["C(a=1,b=D(c=2))", "C(a=2,b=D(c=2))", "C(a=1,b=D(c=3))", "o=C(a=1)", "C(a=[1,'x'])"]
    put('match', lambda: [w.match_whatids(ids[0], ids, ignored_keys=k) for k in (None, ('a',), (('b', 'c'),))])
    put('sort', lambda: w.sort_whatids(ids[:3], 'a', ('b', 'c')))
    put('dict', lambda: [w.id2dict(i) for i in ids])
    put('old', lambda: w.id2whatami4("out=o#C#a=1#b=\"D#c='x'\""))
    put('call', lambda: (lambda x, y=2: w.call2what().id())(1))
    # registries
    r = w.WhatamiRegistry()
    put('register', lambda: [r.register(A(), 'a'), r.register("C()", 'c')][1])
    put('register again', lambda: r.register(A(a=2), 'a'))
    put('nick', lambda: (r.nick2id('a'), r.id2nick('C()'), r.nick_or_id('X()'), r.list()))
    put('remove', lambda: (r.remove('a'), r.list()))
    # recorders
    rec = w.Recorder('r', id_extractor=w.what2id, who='me')
    put('add', lambda: rec.add(['C()', A()], n=[1, 2]))
    put('curry', lambda: rec.add(n=3)(who='you')('D()'))
    put('padd', lambda: rec.padd(n=4)('E()'))
    put('again', lambda: rec.add('E()'))
    put('get', lambda: (rec.get('C()', 'E()'), len(rec), sorted(rec.unique('n')), rec['D()']))
    # plugins
    put('plugins', lambda: [p.__name__ for p in PM.plugins()])
    return out


def hints(library, placeholder):
    """Using something of a missing library."""
    out = {}
    for attribute in ('array', 'nope', '__version__', '__name__', '__class__', '__dict__', 'ndarray', 'DataFrame'):
        try:
            getattr(placeholder, attribute)
            out[attribute] = 'no error'
        except ImportError as e:
            out[attribute] = str(e)
        except Exception as e:
            out[attribute] = repr(e)
    return out


def run_config(names, error, exact, big):
    """Runs everything in a process where some modules cannot be imported (this must be a fresh process)."""
    blocker = Blocker(names, ERRORS[error], exact)
    assert not [m for m in sys.modules if m.split('.')[0] in LIBRARIES], 'the libraries should not be there'
    import importlib
    if exact:   # does it make numpy or pandas fail with something that is not an import error?
        def there():
            sys.meta_path.insert(0, blocker)
            for lib in ('numpy', 'pandas'):
                try:
                    importlib.import_module(lib)
                except ImportError:
                    pass
                except BaseException as e:
                    return repr(e)
            return None
        problem = fork_map(lambda _: there(), [0])[0]
        if problem is not None:
            return {'skipped': problem}
    sys.meta_path.insert(0, blocker)
    import warnings
    warnings.showwarning = lambda *_, **__: None   # scikit-learn changes the filters
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    try:
        import whatami
        from whatami import plugins
    except BaseException as e:
        return {'import': repr(e)}
    res = {'import': 'ok', 'has_numpy': plugins.has_numpy(), 'has_pandas': plugins.has_pandas(), 'hints': {}, 'usable': {}}
    res['type'] = [type(plugins.has_numpy()).__name__, type(plugins.has_pandas()).__name__]
    res['plain'] = plain_results(big)
    for lib, has, placeholder, attribute in (('numpy', res['has_numpy'], plugins.np, 'ndarray'), ('pandas', res['has_pandas'], plugins.pd, 'DataFrame')):
        if not has:
            res['hints'][lib] = hints(lib, placeholder)
        try:
            res['usable'][lib] = isinstance(getattr(placeholder, attribute), type)
        except ImportError:
            res['usable'][lib] = False
    rec = whatami.Recorder('r')
    rec.add('C()', n=1)
    try:
        res['to_df'] = repr(rec.to_df().to_dict())
    except ImportError as e:
        res['to_df'] = 'ImportError: %s' % e
    except Exception as e:
        res['to_df'] = repr(e)
    # the values of the libraries that are there
    own = {}
    if res['has_numpy']:
        np = plugins.np
        own['array'] = whatami.What('C', {'x': np.array([1, 2])}).id()
        own['rng'] = whatami.What('C', {'x': np.random.RandomState(0)}).id()
        own['scalars'] = whatami.What('C', {'x': [np.float64(1.5), np.int8(3), np.float64]}).id()
        own['parsed'] = repr(whatami.id2what("C(x=<class 'numpy.float64'>)")['x'])
    else:
        own['parsed without numpy'] = repr(whatami.id2what("C(x=<class 'numpy.float64'>)")['x'])
    if res['has_pandas']:
        pd = plugins.pd
        own['frame'] = whatami.What('C', {'x': pd.DataFrame({'a': [1, 2]}), 'y': pd.Series(['a'])}).id()
        own['columns'] = repr(whatami.whatid2columns(pd.DataFrame({'whatid': ['C(a=1)', 'C(a=2)']}), 'whatid').to_dict())
    res['own'] = own
    try:
        from whatami.wrappers.what_sklearn import whatamize_sklearn
        whatamize_sklearn()
        from sklearn.linear_model import Ridge
        res['sklearn'] = Ridge(alpha=3).what().id()
    except ImportError as e:
        res['sklearn'] = 'ImportError'
        res['sklearn error'] = str(e)
    except Exception as e:
        res['sklearn'] = repr(e)
    return res


def configs(thorough, modules):
    out = [((), 'ImportError', False)]
    for k in (1, 2, 3):
        for names in itertools.combinations(LIBRARIES, k):
            for error in sorted(ERRORS):
                out.append((names, error, False))
    for m in modules:
        out.append(((m,), 'ImportError', True))
    return out


def modules_of_libraries():
    """All the modules that importing the libraries imports."""
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    for lib in ('numpy', 'pandas'):
        importlib.import_module(lib)
    return sorted([m for m in sys.modules if m.split('.')[0] in ('numpy', 'pandas') and '.' in m])


def serve(thorough):
    """In a process that never imports the libraries: gives the results of all the configurations."""
    modules = fork_map(lambda _: modules_of_libraries(), [0])[0]
    if not thorough:   # first level only
        modules = [m for m in modules if m.count('.') == 1 and m.startswith('numpy')]
    cs = configs(thorough, modules)

    def size(config):
        return (2 if thorough else 1 if config[1] == 'ImportError' else 0) if not config[2] else 0
    sizes = sorted(set(map(size, cs)))
    references = dict(zip(sizes, fork_map(lambda n: run_config((), 'ImportError', False, n), sizes)))

    def worker(k):
        out = []
        for i in range(k, len(cs), NPROC):
            res = fork_map(lambda _: run_config(*cs[i] + (size(cs[i]),)), [0])[0]
            plain = res.pop('plain', {})
            reference = references[size(cs[i])].get('plain', {})
            res['compared'] = len(plain)
            res['different'] = [(label, plain.get(label), reference.get(label)) for label in sorted(set(plain) | set(reference)) if plain.get(label) != reference.get(label)][:5]
            out.append((i, res))
        return out
    results = {}
    for out in fork_map(worker, range(NPROC)):
        results.update(dict(out))
    return cs, [results[i] for i in range(len(cs))]


def body(check):
    out = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'checks.c26', 'serve', 'thorough' if check.thorough else 'quick'], stdout=subprocess.PIPE, check=True, cwd=VERIF).stdout
    cs, results = json.loads(out.decode('utf-8').rsplit('\n@@', 1)[1])
    full = results[0]
    check.expect(full.get('import') == 'ok' and full['has_numpy'] is True and full['has_pandas'] is True and full['sklearn'].startswith('ridge('), 'the full installation does not work', result=str(full)[:500])
    for n, ((names, error, exact), res) in enumerate(zip(cs, results)):
        where = dict(missing=names, error=error, only_that_module=exact)
        check.count()
        if res.get('skipped'):
            check.extra['skipped, numpy or pandas fail with another error'] = check.extra.get('skipped, numpy or pandas fail with another error', 0) + 1
            continue
        check.seen(repr((names, error, exact)))
        if not check.expect(res['import'] == 'ok', 'whatami cannot be imported', got=res['import'], **where):
            continue
        check.expect(res['type'] == ['bool', 'bool'], 'has_numpy or has_pandas do not give a boolean', **where)
        check.count(res['compared'])
        check.extra['plain results compared'] = check.extra.get('plain results compared', 0) + res['compared']
        for label, got, expected in res['different']:
            check.fail('a result changes when a library is missing', what=label, got=got, expected=expected, **where)
        if not exact:
            numpy, pandas = 'numpy' not in names, not {'numpy', 'pandas'} & set(names)
            check.expect(res['has_numpy'] is numpy, 'has_numpy lies', got=res['has_numpy'], **where)
            check.expect(res['has_pandas'] is pandas, 'has_pandas lies', got=res['has_pandas'], **where)
            sklearn = numpy and 'sklearn' not in names
            check.expect(res['sklearn'] == (full['sklearn'] if sklearn else 'ImportError'), 'the support of scikit-learn is not as expected', got=res['sklearn'], **where)
        check.expect(res['usable'] == {'numpy': res['has_numpy'], 'pandas': res['has_pandas']}, 'has_numpy or has_pandas lie', got=res, **where)
        for lib in ('numpy', 'pandas'):
            if res['has_' + lib]:
                continue
            for attribute, text in sorted(res['hints'][lib].items()):
                check.count()
                check.expect(attribute in text and lib in text and 'conda install %s' % lib in text, 'using a missing library does not give a hint', library=lib, attribute=attribute, got=text, **where)
        if res['has_pandas']:
            check.expect(res['to_df'] == full['to_df'], 'to_df does not work', got=res['to_df'], **where)
        else:
            check.expect(res['to_df'].startswith('ImportError') and 'conda install pandas' in res['to_df'], 'to_df does not give a hint', got=res['to_df'], **where)
        for label, got in sorted(res['own'].items()):
            check.count()
            expected = full['own'].get(label, "{'class': 'numpy.float64'}")
            check.expect(got == expected, 'the support of a library changes when others are missing', what=label, got=got, expected=expected, **where)
    check.extra['configurations'] = len(cs)
    check.sample({'missing': ['numpy'], 'error': 'ModuleNotFoundError'})


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'serve':
        import checks.c26 as this
        answer = json.dumps(this.serve(sys.argv[2] == 'thorough'))
        sys.stdout.write('\n@@' + answer)
        sys.stdout.flush()
        sys.exit(0)
    import checks.c26 as this
    main('C26', 'fault_enumeration', 'all subsets of the optional libraries that fail to import, with several kinds of import error, and all the modules of numpy and pandas (numpy, first level, in the quick check) that can fail while importing them; all the results '
         'for plain values are compared with those of the full installation; distinct ones are different configurations', this.body)
