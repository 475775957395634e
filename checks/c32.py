# coding=utf-8
"""C32: interruptions and other threads never spoil parsing."""
import itertools
import os
import sys

from mc import sched
sched.install()

from mc.core import REPO, in_fork, main, outcome   # noqa: E402


def operations():
    """name: what is done, giving something that can be compared."""
    from whatami import What, id2dict, id2what, match_whatids, oldid2what, parse_whatid
    from whatami.whatutils import id2whatami4

    def parse(text):
        return lambda: repr_outcome(lambda: parse_whatid(text).id())

    def values(text):
        return lambda: repr_outcome(lambda: sorted(parse_whatid(text).conf.items()))
    return {
        'everything': values("o=a(b=[1,None,'x',[2]],c=(1,()),d={'k':1,2:None},e={'s',3},f=-1.5,g=frozenset(),h=inner(i=True),j=<class 'int'>)"),
        'all else': values("q=b(b=[4,False],c=('y',5,[]),d={6:'v'},e=frozenset({7}),f=8,g=set(),h=outer(k=None),j=<class 'nope.Nope'>)"),
        'small': parse('a()'), 'one': parse('a(b=1)'), 'blanks': parse("o=a( b = ' x' )"), 'nested': parse("a(b=c(d={'k':[1,(2,3)]}),e=<class 'str'>)"), 'another': parse("zz(yy=None,xx=set(),ww='w')"),
        'truncated': parse('a(b='), 'wrong': parse('a(b=1)c'), 'not a string': parse(None), 'class': parse("a(b=<class 'nope.Nope'>,c=inf)"),
        'old': lambda: repr_outcome(lambda: oldid2what("a#b=1#c='x'").id()), 'old wrong': lambda: repr_outcome(lambda: oldid2what('a(b=1)')), 'upgrade': lambda: repr_outcome(lambda: id2whatami4("out=x#a#b=[1]")),
        'dict': lambda: repr_outcome(lambda: id2dict('a(b=c(d=1))')), 'match': lambda: repr_outcome(lambda: match_whatids(['a(b=1)', 'a(b=2)'], 'a(b=2)')),
        'generate small': lambda: repr_outcome(lambda: What('a', {'b': [1]}).id()), 'generate': lambda: repr_outcome(lambda: What('a', {'b': [1, {'c': 2}], 'd': What('e', {})}).id()), 'id2what': lambda: repr_outcome(lambda: id2what('a(b=True)').conf),
    }


def repr_outcome(f):
    """Outcome of f; only exceptions that are its own."""
    try:
        return 'ok', repr(f())
    except (KeyboardInterrupt, TimeoutError, sched.Deadlock):
        raise
    except Exception as e:
        return 'error', type(e).__name__


def dirs():
    import arpeggio
    return [os.path.join(os.path.abspath(REPO), 'whatami'), os.path.dirname(arpeggio.__file__)]


EXPECTED = {}


# --- Interruptions

class Interruption(KeyboardInterrupt):
    pass


class Timeout(TimeoutError):
    pass


class Confusing(TypeError):
    """Like those that are taken for failures of the parser."""


def interrupted(f, n, exception):
    """Runs f, raising the exception at the nth line of the code of interest; False if there are less."""
    where = tuple(d + os.sep for d in dirs())
    count = [0]

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] == n:
                sys.settrace(None)
                raise exception()
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(where) else None
    sys.settrace(trace)
    try:
        f()
    except BaseException:
        pass
    finally:
        sys.settrace(None)
    return count[0] >= n


def check_interruptions(check, item):
    name, exception, start, step = item
    ops = operations()
    others = sorted(ops)
    n = start + 1
    while interrupted(ops[name], n, exception):
        check.count()
        check.seen(repr((name, exception, n)))
        # the same again and some others
        again = [name] + ([others[n % len(others)], others[(n // step) % len(others)]] if not check.thorough else others)
        for other in again:
            got = ops[other]()
            if not check.expect(got == EXPECTED[other], 'an interruption spoils what comes later', interrupted=name, line=n, exception=exception.__name__, later=other, got=repr(got), expected=repr(EXPECTED[other])):
                return
        n += step
    if n > 1 + start:
        check.extra.setdefault('lines', {})[name] = max(n, check.extra.get('lines', {}).get(name, 0))


# --- Schedules

def run_schedule(check, names, switches, granularity):
    """Returns the schedule."""
    ops = operations()
    # 'inner' events are the lines of whatami, but not those of its parsing library
    s = sched.Schedule([ops[n] for n in names], switches, dirs()[:1] if granularity == 'inner' else dirs(), 'call' if granularity == 'call' else 'line')
    results = s.run()
    check.count()
    if s.switched >= len(switches):
        check.states += 1
        check.seen(repr((names, sorted(switches.items(), key=repr), granularity)))
    check.transitions += s.switched
    good = check.expect(not s.deadlock, 'threads wait for each other forever', operations=list(names), switches=repr(switches), granularity=granularity)
    for n, name in enumerate(names):
        good &= check.expect(results[n] == EXPECTED[name], 'other threads spoil the result', operations=list(names), switches=repr(switches), granularity=granularity, which=n, got=repr(results[n]), expected=repr(EXPECTED[name]))
    return s, good


def check_one_switch(check, item):
    """All schedules with one preemption, at any line."""
    names, granularity, start, step = item
    n = start
    bad = 0
    while bad < 3:
        s, good = run_schedule(check, names, {n: 'next'}, granularity)
        bad += not good
        if s.switched < 1:
            break
        n += step
    after(check, names)


def check_two_switches(check, item):
    """All schedules with two preemptions."""
    names, granularity, start, step = item
    n = start
    bad = 0
    while bad < 3:
        m = n + 1
        while bad < 3:
            s, good = run_schedule(check, names, {n: 'next', m: 'next'}, granularity)
            bad += not good
            if s.switched < 2:
                break
            m += 1
        if s.switched < 1:
            break
        n += step
    after(check, names)


def check_first_use(check, item):
    """The first uses ever of things that are created when they are first needed: each schedule in its own process."""
    names, start, step = item
    n = start
    while True:
        def one():
            sub = check.fresh()
            s, _ = run_schedule(sub, names, {n: 'next'}, 'line' if check.thorough else 'call')
            return sub.dump(), s.switched
        dump, switched = in_fork(one)
        check.merge(dump)
        if switched < 1 or check.nviolations > 3:
            break
        n += step


def after(check, names):
    for other, f in sorted(operations().items()):
        got = f()
        check.expect(got == EXPECTED[other], 'concurrent use spoils what comes later', operations=list(names), later=other, got=repr(got), expected=repr(EXPECTED[other]))


def body(check):
    shards = 8
    # what each operation gives when it is alone
    for name in operations():
        EXPECTED[name] = in_fork(operations()[name])
        check.expect(in_fork(operations()[name]) == EXPECTED[name], 'operations are not deterministic', operation=name)
    assert EXPECTED['one'] == ('ok', "'a(b=1)'") and EXPECTED['old'] == ('ok', '"a(b=1,c=\'x\')"') and EXPECTED['truncated'] == ('error', 'NoMatch') and EXPECTED['match'] == ('ok', "['a(b=2)']"), EXPECTED
    # nothing old was parsed in this process yet
    firsts = [('old', 'old'), ('old', 'upgrade'), ('upgrade', 'old wrong')]
    for names in firsts if check.thorough else firsts[:2]:
        check.parallel(check_first_use, [(names, k, shards) for k in range(shards)])
    for f in operations().values():
        f()
    names = sorted(operations())
    full = names if check.thorough else ('small', 'one', 'truncated', 'old wrong')
    todo = [(n, e, k, shards) for n in full for e in ((Interruption, Timeout, Confusing) if check.thorough or n == 'small' else (Interruption,)) for k in range(shards)]
    if not check.thorough:   # each seventh line
        todo += [(n, Interruption, k, shards * 7) for n in ('blanks', 'not a string', 'old', 'class') for k in range(0, shards * 7, 7)]
    check.parallel(check_interruptions, todo)
    pairs = list(itertools.product(names, names))
    some = [('one', 'another'), ('one', 'one'), ('blanks', 'truncated'), ('truncated', 'one'), ('not a string', 'one'), ('small', 'not a string'), ('old', 'old'), ('one', 'old'), ('old', 'one'), ('generate', 'one'), ('match', 'dict'), ('class', 'wrong')]
    check.parallel(check_one_switch, [(p, 'call', k, shards) for p in (pairs if check.thorough else some) for k in range(shards)])
    check.parallel(check_one_switch, [(p, 'line', k, shards) for p in (pairs if check.thorough else [('small', 'one'), ('one', 'small')]) for k in range(shards)])
    pairs = list(itertools.product(('small', 'one', 'truncated', 'not a string', 'old'), repeat=2)) if check.thorough else [('small', 'small')]
    check.parallel(check_two_switches, [(p, 'call', k, shards) for p in pairs for k in range(shards)])
    inner = [('everything', 'all else'), ('all else', 'everything'), ('everything', 'everything')] + list(itertools.product(('everything', 'generate', 'old', 'match'), repeat=2) if check.thorough else [('everything', 'truncated'), ('generate', 'generate'), ('match', 'dict'), ('old', 'upgrade')])
    check.parallel(check_one_switch, [(p, 'inner', k, shards) for p in inner for k in range(shards)])
    inner = [('one', 'dict'), ('generate small', 'generate small')] + (list(itertools.product(('one', 'dict', 'id2what', 'generate small', 'small'), repeat=2)) if check.thorough else [])
    check.parallel(check_two_switches, [(p, 'inner', k, shards) for p in inner for k in range(shards)])
    check.traces = check.evaluations
    check.sample({'schedule': 'one(b=1) preempted at each line by another'})


if __name__ == '__main__':
    main('C32', 'model_checking', 'all executions of each operation interrupted at each line of the code of whatami and of its parsing library (quick: of the short operations, and at each seventh line of others); all schedules of two threads with one preemption at any call or line, '
         'and with two at any call (quick: lines and two preemptions only in the shortest pairs), run under a controlled scheduler on the real code; each result is compared with that of the operation alone in a new process; states are distinct schedules, transitions are preemptions', body)
