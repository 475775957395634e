# coding=utf-8
"""C28: lazy imports prefer the first available variant and fail late."""
import importlib.abc
import importlib.machinery
import itertools
import sys

from mc.core import main, outcome

ROOT = 'whatami_mc_'


class World(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Modules that can be imported, are missing, or fail when executed; says which ones were tried."""

    def __init__(self, states):
        self.states = dict(states)
        self.tried = []

    def __enter__(self):
        sys.meta_path.insert(0, self)
        return self

    def __exit__(self, *_):
        sys.meta_path.remove(self)
        for name in list(sys.modules):
            if name.startswith(ROOT):
                del sys.modules[name]

    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith(ROOT):
            return None
        self.tried.append(fullname)
        state = self.states.get(fullname, 'missing')
        if state == 'missing':
            return None
        return importlib.machinery.ModuleSpec(fullname, self, is_package=True)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        state = self.states[module.__name__]
        if state == 'broken':
            raise ImportError('broken %s, sorry' % module.__name__)
        if state == 'needs':
            import whatami_mc_needed_by_others  # noqa: F401
        module.foo = 'foo of ' + module.__name__
        module.__version__ = '1.0'
        module.what = None
        module.module = 'a module named module'
        module._errors = module.Thing = type('Thing', (), {'__module__': module.__name__})


STATES = 'ok', 'missing', 'broken', 'needs'
HINTS = None, 'pip', 'conda', 'sudo apt-get this %s'
ATTRIBUTES = ('foo', '__version__', 'what', '_errors', 'module', '_private', '__class__', '__dict__', '_library_name', '_maybe_import', '_variants', '_install_msg', '__path__', '_module',
              'install_msg', 'library_name', 'variants', 'Thing', '__init__', '__call__', '__name__')


def names(n, nested):
    return [ROOT + 'v%d' % i + ('.sub' if nested == i else '') for i in range(n)]


def configurations(thorough):
    """(library state, variants, states of the variants)."""
    for lib in STATES:
        yield lib, [], ()
        for n in (1, 2, 3) + ((4,) if thorough else ()):
            for nested in (None, 0, n - 1):
                vs = names(n, nested)
                for states in itertools.product(STATES if n < 4 else STATES[:3], repeat=n):
                    yield lib, vs, states
        # many variants
        for n in (6, 9, 14):
            for k in range(n + 1):
                for other in STATES[1:]:
                    yield lib, names(n, None), tuple(['missing' if i % 2 else other for i in range(k)] + ['ok'] * (n - k))[:n]
        # the library itself among the variants, and repeated ones
        for state in STATES:
            yield lib, [ROOT + 'v0', ROOT + 'lib'], (state, lib)
            yield lib, [ROOT + 'lib', ROOT + 'v0'], (lib, state)
            yield lib, [ROOT + 'v0', ROOT + 'v0'], (state, state)


def world(lib, variants, states):
    w = {ROOT + 'lib': lib}
    for v, s in zip(variants, states):
        w[v] = s
        if '.' in v:
            w[v.split('.')[0]] = 'ok' if s != 'missing' else 'ok'
    return World(w)


def verify_failure(check, lazy, attr, library, tried, hint, how=getattr, **replay):
    """Using the attribute must fail saying everything."""
    try:
        got = how(lazy, attr)
    except ImportError as e:
        text = str(e)
    except Exception as e:
        check.fail('using something that could not be imported does not raise ImportError', raised=repr(e), attribute=attr, **replay)
        return
    else:
        check.fail('using something that could not be imported does not fail', got=repr(got)[:200], attribute=attr, **replay)
        return
    check.expect(attr in text, 'the error does not have the attribute', error=text, attribute=attr, **replay)
    check.expect(library in text, 'the error does not have the library', error=text, attribute=attr, **replay)
    for v in tried:
        check.expect(v in text, 'the error does not have the failed variant', error=text, attribute=attr, variant=v, **replay)
    if hint in ('pip', 'conda'):
        check.expect('%s install %s' % (hint, tried[0]) in text, 'the error does not have the installation hint', error=text, hint=hint, **replay)
    elif hint:
        check.expect(hint in text, 'the error does not have the installation hint', error=text, hint=hint, **replay)
    else:
        check.expect('pip' not in text and 'conda' not in text, 'the error has an installation hint that was not given', error=text, hint=hint, **replay)


def check_one(check, item):
    """All hints and attributes with one set of available variants."""
    from whatami import maybe_import, maybe_import_member
    lib, variants, states = item
    tried = variants or [ROOT + 'lib']
    first = [v for v, s in zip(tried, states or (lib,)) if s == 'ok'][:1]
    hints = HINTS if check.thorough or len(variants) < 3 else HINTS[:2]
    for hint in hints:
        for style in ('positional', 'keyword'):
            if style == 'keyword' and variants:
                continue
            replay = dict(lib_state=lib, variants=variants, states=list(states), the_hint=hint)
            check.seen(repr((item, hint, style)))
            with world(lib, variants, states) as w:
                check.count()
                try:
                    if style == 'positional':
                        got = maybe_import(ROOT + 'lib', hint, *variants)
                    else:
                        got = maybe_import(ROOT + 'lib', install_msg=hint)
                except Exception as e:
                    check.fail('maybe_import fails', raised=repr(e), **replay)
                    continue
                if ROOT + 'lib' not in tried:
                    check.expect(ROOT + 'lib' not in w.tried, 'the library is imported when there are variants', **replay)
                if first:
                    check.expect(got is sys.modules.get(first[0]), 'maybe_import does not give the first variant that can be imported', got=repr(type(got)), expected=first[0], **replay)
                    check.expect(type(got) is type(sys) and got.foo == 'foo of ' + first[0], 'what maybe_import gives cannot be used', **replay)
                else:
                    for attr in ATTRIBUTES:
                        check.count()
                        verify_failure(check, got, attr, ROOT + 'lib', tried, hint, **replay)
                    for v in tried:   # late availability makes no difference
                        w.states[v] = 'ok'
                    verify_failure(check, got, 'foo', ROOT + 'lib', tried, hint, **replay)
            # members
            for attr in ('foo', 'module', '_errors', '__version__', 'what', '_library_name'):
                for fail in (True, False, None):
                    check.count()
                    with world(lib, variants, states) as w:
                        try:
                            if fail is None:
                                got = 'ok', maybe_import_member(ROOT + 'lib.' + attr, True, hint, *variants) if variants or hint else maybe_import_member(ROOT + 'lib.' + attr)
                            elif variants or style == 'positional':
                                got = 'ok', maybe_import_member(ROOT + 'lib.' + attr, fail, hint, *variants)
                            else:
                                got = 'ok', maybe_import_member(member_fqn=ROOT + 'lib.' + attr, fail_if_import_error=fail, install_msg=hint)
                        except ImportError as e:
                            got = 'ImportError', str(e)
                        except Exception as e:
                            got = type(e).__name__, str(e)
                        if first and attr != '_library_name':
                            check.expect(got[0] == 'ok' and got[1] is getattr(sys.modules[first[0]], attr), 'maybe_import_member does not give the member', got=repr(got), member=attr, fail=fail, **replay)
                        elif first:
                            check.expect(got[0] not in ('ok', 'ImportError'), 'maybe_import_member finds members that do not exist', got=repr(got), member=attr, fail=fail, **replay)
                        elif fail is False:
                            check.expect(got == ('ok', None), 'maybe_import_member does not give None', got=repr(got), member=attr, fail=fail, **replay)
                        else:
                            check.expect(got[0] == 'ImportError' and attr in got[1] and ROOT + 'lib' in got[1] and all(v in got[1] for v in tried) and (hint not in ('pip', 'conda') or '%s install %s' % (hint, tried[0]) in got[1]),
                                         'maybe_import_member does not raise a good ImportError', got=repr(got), member=attr, fail=fail, **replay)


def check_history(check, history):
    """Availability changes between imports: each one tells the truth of its moment, and previous results stay as they were."""
    from whatami import maybe_import, maybe_import_member
    a, b = ROOT + 'v0', ROOT + 'v1'
    with World({}) as w:
        results = []
        loaded = set()
        for n, (sa, sb, order, hint) in enumerate(history):
            w.states.update({a: sa, b: sb})
            tried = [a, b] if order else [b, a]
            got = maybe_import('lib%d' % n, hint, *tried)
            first = None
            for v in tried:
                if v in loaded or w.states[v] == 'ok':
                    loaded.add(v)
                    first = v
                    break
            results.append((got, first, 'lib%d' % n, tried, hint))
            member = outcome(maybe_import_member, 'lib%d.foo' % n, False, hint, *tried)
            check.count(2)
            check.expect(member == ('ok', 'foo of ' + first if first else None), 'maybe_import_member depends on the past', history=history, step=n, got=repr(member))
            for got_, first_, lib_, tried_, hint_ in results:
                if first_:
                    check.expect(got_ is sys.modules[first_], 'maybe_import depends on the past', history=history, step=n, expected=first_, got=repr(type(got_)))
                else:
                    verify_failure(check, got_, 'foo', lib_, tried_, hint_, history=history, step=n)
        check.seen(repr(history))


def check_uses(check, _):
    """Other ways of using, real modules, and bad requests."""
    import json.decoder
    import threading
    from whatami import maybe_import, maybe_import_member

    def use(lazy, attr):
        return {'foo': lambda: lazy.foo, 'bar': lambda: lazy.bar(1), 'hasattr': lambda: hasattr(lazy, 'hasattr'), 'default': lambda: getattr(lazy, 'default', None), 'deep': lambda: lazy.deep.er.and_('deeper')}[attr]()
    for hint in HINTS:
        for variants in ((), (ROOT + 'v0',), (ROOT + 'v0', 'json.' + ROOT, 'json.decoder.nope')):
            lazy = maybe_import(ROOT + 'lib', hint, *variants)
            for attr in ('foo', 'bar', 'hasattr', 'default', 'deep'):
                for _ in range(2):
                    check.count()
                    verify_failure(check, lazy, attr, ROOT + 'lib', variants or [ROOT + 'lib'], hint, how=use, variants=variants)
    for name in ('json', 'json.decoder', 'threading', 'sys', 'os.path', 'whatami', 'whatami.misc'):
        for hint in HINTS:
            check.count(2)
            check.expect(maybe_import(name, hint) is sys.modules[name] and maybe_import('x', hint, name) is sys.modules[name], 'maybe_import does not import modules', module=name)
    for fqn, member in (('json.decoder.JSONDecoder', json.decoder.JSONDecoder), ('threading.Thread', threading.Thread), ('json.decoder', json.decoder), ('json.loads', json.loads), ('sys.path', sys.path)):
        for fail in (True, False):
            check.count()
            check.expect(maybe_import_member(fqn, fail) is member, 'maybe_import_member does not give the member', member=fqn)
            check.expect(maybe_import_member('nope.' + fqn.rpartition('.')[2], fail, None, 'nope', fqn.rpartition('.')[0]) is member, 'maybe_import_member does not use the variants', member=fqn)
    # modules in packages, and variants of different depths than the library
    for fqn, member in (('json.decoder.JSONDecoder', json.decoder.JSONDecoder), ('json.loads', json.loads), ('threading.Thread', threading.Thread)):
        module, _, name = fqn.rpartition('.')
        for library in ('nope', 'nope.sub', 'nope.sub.sub_sub', 'json.nope', module, 'json', 'a.b.c.d.e'):
            for variants in ((module,), ('nope', module), (module, 'nope'), ('nope.sub', 'json.nope', module), ('json.' + ROOT, module, 'threading.nope')):
                for fail in (True, False):
                    check.count()
                    got = outcome(maybe_import_member, library + '.' + name, fail, None, *variants)
                    check.expect(got[0] == 'ok' and got[1] is member, 'maybe_import_member does not give the member of the variant', library=library, variants=variants, got=repr(got)[:200])
            for variants in (('nope.sub',), ('json.nope', 'nope')):
                for fail in (True, False):
                    check.count()
                    try:
                        got = 'ok', maybe_import_member(library + '.' + name, fail, 'pip', *variants)
                    except Exception as e:
                        got = type(e).__name__, str(e)
                    check.expect(got == ('ok', None) if not fail else got[0] == 'ImportError' and all(x in got[1] for x in variants + (library, name, 'pip install ' + variants[0])), 'wrong report of variants that are missing',
                                 library=library, variants=variants, got=repr(got)[:300], fail=fail)
    for bad in ('Thread', '', 'x'):
        for fail in (True, False):
            check.count()
            check.expect(outcome(maybe_import_member, bad, fail) == ('error', 'ValueError'), 'names without a module must be refused', member=bad)


def body(check):
    check.parallel(check_one, list(configurations(check.thorough)))
    steps = [(sa, sb, order, hint) for sa in STATES[:3] for sb in STATES[:2] for order in (True, False) for hint in ((None, 'pip') if check.thorough else ('pip',))]
    depth = 3
    hist = list(itertools.product(steps, repeat=depth))
    check.parallel(check_history, hist)
    check.parallel(check_uses, [0])
    check.extra['histories'] = len(hist)
    check.sample({'histories': repr(hist[5])})


if __name__ == '__main__':
    main('C28', 'fault_enumeration', 'all assignments of available, missing, failing and indirectly failing to the library and up to 3 (thorough: 4) variants x hints x attributes x members, with a finder that controls what can be imported; '
         'all histories of 3 changes of availability; distinct ones are different assignments with different hints, or histories', body)
