# coding=utf-8
"""C31: importing submodules gives exactly what can be imported."""
import importlib
import itertools
import os
import shutil
import sys
import tempfile

from mc.core import main

ERRORS = {'import': 'raise ImportError("no")', 'value': 'raise ValueError("no")', 'syntax': 'def def', 'missing': 'import whatami_mc_does_not_exist', 'key': '{}[1]', 'attr': 'import os\nos.nope'}
RAISED = {'import': ImportError, 'value': ValueError, 'syntax': SyntaxError, 'missing': ImportError, 'key': KeyError, 'attr': AttributeError}
ROOTS = itertools.count()

# A module is its state; a package is (state, children)
# Working modules do not need to look like the usual ones
WORKING = {'ok': '', 'nofile': 'del __file__', 'replaced': 'import sys\nclass Module(object):\n    value = __name__\n    __bool__ = __nonzero__ = lambda self: False\n    __len__ = lambda self: 0\nsys.modules[__name__] = Module()',
           'bare': 'del __doc__, __loader__, __package__, __spec__', 'prints': '__all__ = []\n__path__ = []\n__version__ = None', 'package': '__package__ = "other"'}
# Packages too: some without folder of their own (the root only, as others are not found), or with several folders
PACKAGED = {'nofile': WORKING['nofile'], 'bare': WORKING['bare'], 'package': WORKING['package'], 'split': 'import os\n__path__.append(os.path.join(os.path.dirname(__path__[0]), "extra-" + __name__.rpartition(".")[2]))',
            'defines': '__all__ = ["other"]\njson = alpha = gamma = x1 = 3', 'namespace': None}
LEAVES = ('ok', 'import', 'value', 'syntax')
INNER = [(), ('ok',), ('import',), ('value',), ('ok', 'ok'), ('import', 'ok'), (('ok', ('ok',)),), (('ok', ('value', 'ok')),), (('import', ('ok',)), 'ok'), ('ok', ('ok', ()))]
PACKAGES = [(state, inner) for state in ('ok', 'import', 'value') for inner in (INNER if state == 'ok' else INNER[1:2] + INNER[6:7])]
NAMES = ('alpha', 'beta', 'gamma'), ('json', 'alpha', 'whatami_mc_top'), ('whatami_mc_top', 'json', 'email'), ('_private', '__dunder__', 'tests'), ('Upper', 'tests', 'test_x'), ('with_under', 'x1', 'setup')


def write(path, name, node, names):
    """Creates the files of a module or package."""
    state, children = (node, None) if isinstance(node, str) else node
    code = ERRORS[state] if state in ERRORS else WORKING[state] if children is None or state == 'ok' else PACKAGED[state]
    if children is None:
        target = os.path.join(path, name + '.py')
    else:
        os.mkdir(os.path.join(path, name))
        target = os.path.join(path, name, '__init__.py')
        if state == 'split':
            os.mkdir(os.path.join(path, 'extra-' + name))
        for n, child in enumerate(children):
            write(os.path.join(path, 'extra-' + name if state == 'split' and n != 1 else name), names[n], child, names)
    if code is not None:
        with open(target, 'w') as f:
            f.write('value = __name__\n%s\n' % code)


def model(name, node, names, recurse, top=True):
    """(names of the modules, states of those that fail)."""
    state, children = (node, ()) if isinstance(node, str) else node
    if state in ERRORS:
        return [], [state]
    good, bad = [name], []
    for n, child in enumerate(children or ()):
        deeper = top or recurse
        if deeper:
            if recurse or isinstance(child, str):
                g, b = model(name + '.' + names[n], child, names, recurse, False)
            else:
                g, b = model(name + '.' + names[n], child[0], names, recurse, False)
            good += g
            bad += b
    return good, bad


def check_tree(check, item):
    from whatami import import_submodules
    root_state, children, names = item
    tmp = tempfile.mkdtemp(prefix='whatami_mc_')
    name = 'whatami_mc_pkg_%d_%d' % (os.getpid(), next(ROOTS))
    sys.path.insert(0, tmp)
    try:
        write(tmp, name, (root_state, children), names)
        with open(os.path.join(tmp, 'whatami_mc_top.py'), 'w') as f:
            f.write('raise SystemError("this module is not in the package")')
        for recurse in (True, False, None):
            for ignore in (True, False):
                for given in ('name', 'module'):
                    if given == 'module' and root_state in ERRORS:
                        continue
                    for m in list(sys.modules):
                        if m.startswith('whatami_mc_'):
                            del sys.modules[m]
                    importlib.invalidate_caches()
                    before = set(sys.modules)
                    arg = name if given == 'name' else importlib.import_module(name)
                    good, bad = model(name, (root_state, children), names, recurse is not False)
                    kwargs = {} if recurse is None else {'recurse_packages': recurse}
                    check.count()
                    check.seen(repr((item, recurse, ignore, given)))
                    replay = dict(root=root_state, children=repr(children), names=list(names), recurse=recurse, ignore=ignore, given=given)
                    try:
                        got = import_submodules(arg, **kwargs) if ignore and recurse is None else import_submodules(arg, ignore_errors=ignore, **kwargs)
                    except Exception as e:
                        if ignore or not bad:
                            check.fail('import_submodules fails', raised=repr(e), **replay)
                        else:
                            check.expect(isinstance(e, tuple(RAISED[b] for b in bad)), 'import_submodules does not raise the error', raised=repr(e), **replay)
                        got = None
                    else:
                        if not ignore and bad:
                            check.fail('import_submodules hides errors', got=sorted(got), bad=bad, **replay)
                            continue
                        check.expect(sorted(got) == sorted(good), 'import_submodules does not give exactly what can be imported', got=sorted(got), expected=sorted(good), **replay)
                        check.expect(all(m is sys.modules.get(k) and getattr(m, 'value', k) == k for k, m in got.items()), 'import_submodules does not give the modules', **replay)
                    others = [m for m in set(sys.modules) - before if m.split('.')[0] != name]
                    check.expect(not others, 'modules out of the package are imported', others=others, **replay)
    finally:
        sys.path.remove(tmp)
        shutil.rmtree(tmp)
        for m in list(sys.modules):
            if m.startswith('whatami_mc_'):
                del sys.modules[m]


def trees(thorough):
    wide = tuple(['m%02d' % i for i in range(25)])
    yield 'ok', ('ok',) * 25, wide
    yield 'ok', ('ok', 'value', ('ok', ('ok', 'ok')), 'import', ('ok', ())) * 5, wide
    yield 'ok', (('ok', ('ok', 'value') * 12), ('ok', (('ok', ('ok',) * 25),) * 12)), wide
    kinds = list(LEAVES) + PACKAGES
    for names in NAMES if thorough else NAMES[1:3] + NAMES[4:5]:
        for n in range(3):
            for children in itertools.product(kinds, repeat=n):
                yield 'ok', children, names
        for state in WORKING:
            for c in ('ok', 'value', ('ok', ('ok',))):
                yield 'ok', (state, c), names
                yield 'ok', (c, ('ok', (state, c))), names
        for state in PACKAGED:
            for children in ((), ('ok',), ('value', 'ok'), ('ok', ('ok', ('ok', 'import')))):
                yield state, children, names
                if state != 'namespace':
                    yield 'ok', ((state, children), 'ok'), names
                    yield 'split', ('ok', (state, children)), names
        deep = 'ok'
        for n in range(9):   # nested and with modules at all levels
            deep = ('ok', (deep, 'ok') if n % 2 else (deep,))
            yield deep[0], deep[1], names
        for state in ERRORS:
            yield state, (), names
            yield state, ('ok', 'value'), names
            for c in ('ok', ('ok', ('ok',))):
                yield 'ok', (state, c), names
                yield 'ok', (c, ('ok', (state, c))), names
        if thorough:
            few = ['ok', 'import', 'value', ('ok', ('ok', 'value')), ('import', ('ok',)), ('ok', (('ok', ('ok', 'syntax')),)), ('ok', ())]
            for children in itertools.product(few, repeat=3):
                yield 'ok', children, names


def check_real(check, _):
    """Packages of the repository and of the standard library."""
    import pkgutil
    from whatami import import_submodules
    for name in ('json', 'email', 'whatami.minijoblib', 'logging', 'concurrent'):
        package = importlib.import_module(name)
        expected = {name: package}

        def walk(package):
            for _, n, is_pkg in pkgutil.iter_modules(package.__path__):
                try:
                    m = importlib.import_module(package.__name__ + '.' + n)
                except ImportError:
                    continue
                expected[m.__name__] = m
                if is_pkg:
                    walk(m)
        walk(package)
        check.count(2)
        got = import_submodules(name)
        check.expect(got == expected, 'import_submodules does not give exactly what can be imported', package=name, got=sorted(got), expected=sorted(expected))
        check.expect(import_submodules(package) == got, 'names and modules are not the same', package=name)
    for bad in ('whatami_mc_nope', 'whatami_mc_nope.deeper', 'json.nope'):
        check.count(2)
        check.expect(import_submodules(bad) == {} == import_submodules(bad, ignore_errors=True), 'packages that do not exist are not empty', package=bad)
        try:
            import_submodules(bad, ignore_errors=False)
            check.fail('packages that do not exist are not an error', package=bad)
        except ImportError:
            pass


def body(check):
    assert 'whatami_mc_top' not in sys.modules
    todo = list(trees(check.thorough))
    check.parallel(check_tree, todo)
    check.parallel(check_real, [0])
    check.extra['trees'] = len(todo)
    check.sample({'tree': repr(todo[100])})


if __name__ == '__main__':
    main('C31', 'fault_enumeration', 'all trees of packages and modules with up to 2 (thorough: 3) children at the top over the alphabet of subtrees, where each module works or fails in some way, x names that clash or not with modules out of the package x options, written to disk and imported; distinct ones are different trees or options', body)
