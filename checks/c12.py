# coding=utf-8
"""C12: parsing does not depend on what was parsed before."""
from mc.core import main, de_bruijn, in_fork, NPROC
from mc.values import raw_obj

VALID = [
    ('simple', "C(a=1)"),
    ('output and nested', "o=C(b=[1,(None,'x, y')],n=p=D(q={'k':[2]},r=E()))"),
    ('literals', "C(a=nan,b=-inf,c=None,d=True,e=set(),f=frozenset({1}),g={1},h=nanmean(),i=<class 'str'>,j=<class 'nope.Nope'>)"),
    ('spaces', " C ( a = 1 , b = ' \\' ( ' ) "),
    ('defaults', 'C()'),
    ('integers', "C(a=1,b=[0,2,1],c='1',d=(1,0),e={1:0})"),
    ('floats', "C(a=1.0,b=[0.0,2.0,-0.0],c='1.0',d=(1.0,-0.0),e={1.0:0.0})"),
    ('booleans', "C(a=True,b=[False,2.0,-0.0],c='True',d=(True,0),e={True:False})"),
]
INVALID = [
    ('early error', "(a=1)"),
    ('late error', "o=C(b=[1,(None,'x, y')],n=p=D(q={'k':[2]},r=E())"),
    ('trailing', "C(a=1)x"),
    ('empty', ''),
]
# The syntax is right, building the value fails
UNBUILDABLE = [
    ('unhashable key', "C(b=1,n=D(a={[1]:2}))"),
    ('unhashable element', "C(a=frozenset({{}}))"),
]
OLD = [
    ('old', "out=o#C#a=1#b=[1,'x']#n=\"D#k=None\""),
    ('old error', "C#a=[1"),
    ('old ambiguous', "out=o#C#out='x'"),
    ('old unhashable', "C#a={[1]:2}"),
]


def mutate(o):
    """Modifies everything that can be modified."""
    from whatami import What
    if isinstance(o, What):
        for v in list(o.conf.values()):
            mutate(v)
        o.conf['mutated'] = 1
        o.conf.pop('a', None)
        o.name = 'Mutated'
        o.out_name = 'mutated'
        o.non_id_keys.add('b')
    elif isinstance(o, (list, tuple)):
        for v in o:
            mutate(v)
        if isinstance(o, list):
            o.append('mutated')
    elif isinstance(o, dict):
        for v in list(o.values()):
            mutate(v)
        o['mutated'] = 1
    elif isinstance(o, set):
        o.add('mutated')


class World(object):
    """What a user has around: custom parsers and visitors."""

    def __init__(self):
        from whatami.parsers import build_whatami_parser, build_oldwhatami_parser, WhatamiTreeVisitor

        class Upper(WhatamiTreeVisitor):
            @staticmethod
            def visit_a_string(node, _):
                return node.value[1:-1].upper()

        class Broken(WhatamiTreeVisitor):
            @staticmethod
            def visit_a_number(node, _):
                raise (TypeError if node.value == '1' else KeyError)(node.value)

        self.parser, self.old, self.upper, self.broken = build_whatami_parser(), build_oldwhatami_parser(), Upper(), Broken()


def ops():
    from whatami import parse_whatid, id2what
    from whatami.whatutils import oldid2what, id2whatami4, id2dict
    out = []
    for label, s in VALID + INVALID + UNBUILDABLE:
        out.append((label, lambda w, s=s: parse_whatid(s)))
    for label, s in OLD:
        out.append((label, lambda w, s=s: oldid2what(s)))
    out.append(('not old', lambda w: id2whatami4("C(a=1)")))
    out.append(('old to new', lambda w: id2whatami4("C#a=1#b='x'")))
    out.append(('not a string', lambda w: id2what(None)))
    out.append(('custom parser', lambda w: parse_whatid(VALID[1][1], parser=w.parser)))
    out.append(('custom parser fails', lambda w: parse_whatid(INVALID[1][1], parser=w.parser)))
    out.append(('custom parser unbuildable', lambda w: parse_whatid(UNBUILDABLE[0][1], parser=w.parser)))
    out.append(('custom visitor', lambda w: parse_whatid(VALID[1][1], visitor=w.upper)))
    out.append(('failing visitor', lambda w: parse_whatid("C(a=[1])", visitor=w.broken)))
    out.append(('failing visitor differently', lambda w: parse_whatid("C(a=[2])", visitor=w.broken)))
    out.append(('old parser', lambda w: parse_whatid("C#a=1", parser=w.old)))
    out.append(('old parser, not a string', lambda w: parse_whatid(None, parser=w.old)))
    out.append(('custom parser, bytes', lambda w: parse_whatid(b'C(a=1)', parser=w.parser)))
    out.append(('id2dict', lambda w: id2dict(VALID[1][1])))
    return out


def do(op, w):
    """(kind, exact structure or error type, object or None)."""
    try:
        r = op(w)
    except Exception as e:
        return 'error', type(e).__name__, None
    return 'ok', raw_obj(r), r


# The ones whose histories are most entangled (those that rebuild or share parsers), for the longer windows
CORE = ['simple', 'output and nested', 'late error', 'trailing', 'unhashable key', 'old', 'old error', 'old unhashable', 'custom parser', 'custom parser unbuildable',
        'custom visitor', 'failing visitor', 'not a string', 'literals', 'old parser, not a string']


def explore(check, names, table, pristine, n):
    k = len(names)
    seq = de_bruijn(k, n)
    total = len(seq)
    seq = seq + seq[:n - 1]

    def worker(sub, j):
        w = World()
        lo, hi = j * total // NPROC, (j + 1) * total // NPROC + n - 1
        kept = []   # previous results, that must not change
        for pos in range(lo, hi):
            name = names[seq[pos]]
            kind, got, obj = do(table[name], w)
            history = [names[x] for x in seq[max(lo, pos - n - 1):pos + 1]]
            if (kind, got) != pristine[name]:
                sub.fail('parsing gives something else depending on what was parsed before', history=history, got=(kind, got), in_a_new_process=pristine[name])
            for prev_name, prev, o in kept:
                if raw_obj(o) != prev:
                    sub.fail('a configuration changed when parsing or modifying another', history=history, which=prev_name, got=raw_obj(o), expected=prev)
            if obj is not None:
                kept.append((name, got, obj))
            if len(kept) == 3 or (len(kept) == 2 and pos % 3 == 0):
                mutate(kept.pop(pos % 2)[2])
            sub.count()
            sub.transitions += 1
            if pos >= lo + n - 1:
                sub.traces += 1
    check.parallel(worker, range(NPROC))
    check.states += k ** (n - 1)
    check.extra['windows_of_%d' % n] = k ** n


def body(check):
    table = dict(ops())
    names = [name for name, _ in ops()]
    pristine = {}
    for name in names:
        pristine[name] = in_fork(lambda name=name: do(table[name], World())[:2])
        check.seen((name, pristine[name]))
    # What they must be, regardless of the pristine outcome
    for name in names:
        fails = [x for x, _ in INVALID + UNBUILDABLE] + ['old error', 'old ambiguous', 'old unhashable', 'not a string', 'old parser, not a string', 'custom parser, bytes', 'custom parser fails', 'custom parser unbuildable', 'failing visitor',
                                                          'failing visitor differently']
        check.expect((pristine[name][0] == 'error') is (name in fails), 'unexpected outcome', op=name, got=pristine[name])
    explore(check, names, table, pristine, 3)
    explore(check, [n for n in names if n in CORE], table, pristine, 4)
    if check.thorough:
        explore(check, names, table, pristine, 4)
        explore(check, [n for n in names if n in CORE[:10]], table, pristine, 5)
    check.sample(names)
    check.sample({'history': ['old', 'unhashable key', 'late error', 'simple']})


if __name__ == '__main__':
    main('C12', 'model_checking', 'every window of n consecutive parses over the alphabet of parse requests occurs (de Bruijn sequences, n=3 over all of them, n=4 over the ones sharing parsers), '
         'each outcome compared with that in a new process, previous results watched while others are modified; states are different histories of length n-1', body)
