# coding=utf-8
"""C16: nicknames and ids stay one-to-one."""
import itertools

from mc.core import main, bfs

NICKS = ['n', '', "A(a=1)"]   # an empty nickname and one that looks like an id
IDS = ["A(a=1)", "o=A(a=1)", "B(c=[None,'x'])"]


def fresh(text):
    """An equal text that is another object."""
    return ''.join(list(text))


class Holder(object):
    def __init__(self, what):
        self._what = what

    def what(self):
        return self._what


class HasId(object):
    def __init__(self, an_id):
        self._id = an_id

    def id(self):
        return self._id


FORMS = ('id', 'what', 'whatable', 'has id')


def give(i, form):
    from whatami import What
    if form == 'id':
        return fresh(IDS[i])
    if form == 'has id':
        return HasId(fresh(IDS[i]))
    what = (What('A', {'a': 1}), What('A', {'hidden': 3, 'a': 1}, non_id_keys=['hidden'], out_name='o'), What('B', {'c': [None, 'x']}))[i]
    return what if form == 'what' else Holder(what)


def make_ops(regs, forms):
    ops = []
    for r in regs:
        for n, i, f in itertools.product(range(len(NICKS)), range(len(IDS)), forms):
            ops.append(('register', r, n, i, f))
        for n in range(len(NICKS)):
            ops.append(('remove nick', r, n))
        for i, f in itertools.product(range(len(IDS)), forms):
            ops.append(('remove what', r, i, f))
        for n, i in itertools.product(range(len(NICKS)), range(len(IDS))):
            ops.append(('remove both', r, n, i, forms[(n + i) % len(forms)]))
        ops += [('reset', r), ('register nothing', r), ('register no nick', r), ('remove nothing', r)]
    return ops


def apply_model(model, op):
    """The new pairs {nick: id}, or None if it must fail."""
    kind = op[0]
    if kind == 'reset':
        return {}
    if kind == 'register':
        n, i = NICKS[op[2]], IDS[op[3]]
        if model.get(n, i) != i or any(v == i and k != n for k, v in model.items()):
            return None
        return dict(model, **{n: i})
    if kind == 'remove nick':
        n = NICKS[op[2]]
        return {k: v for k, v in model.items() if k != n} if n in model else None
    if kind == 'remove what':
        i = IDS[op[2]]
        return {k: v for k, v in model.items() if v != i} if i in model.values() else None
    if kind == 'remove both':
        n, i = NICKS[op[2]], IDS[op[3]]
        return {k: v for k, v in model.items() if k != n} if model.get(n) == i else None
    return None


def apply_real(reg, op):
    kind = op[0]
    if kind == 'reset':
        reg.reset()
    elif kind == 'register':
        what = give(op[3], op[4])
        if reg.register(what, fresh(NICKS[op[2]])) is not what:
            raise AssertionError('register does not return what it was given')
    elif kind == 'remove nick':
        reg.remove(fresh(NICKS[op[2]])) if op[2] else reg.remove(nickname=fresh(NICKS[op[2]]))
    elif kind == 'remove what':
        reg.remove(what=give(op[2], op[3]))
    elif kind == 'remove both':
        reg.remove(fresh(NICKS[op[2]]), give(op[3], op[4]))
    elif kind == 'register nothing':
        reg.register(None, NICKS[0])
    elif kind == 'register no nick':
        reg.register(IDS[0], None)
    elif kind == 'remove nothing':
        reg.remove()


def agree(check, reg, model, hist, which):
    check.expect(reg.list() == sorted(model.items()), 'the pairs are not the ones registered and not removed', history=hist, registry=which, got=reg.list(), expected=sorted(model.items()))
    got = reg.list()
    got.append('x')
    got.reverse()
    check.expect(reg.list() == sorted(model.items()), 'the returned list is shared', history=hist, registry=which)
    back = {v: k for k, v in model.items()}
    for n in NICKS + ['zz', "B(c=[None,'x'])"]:
        check.expect(reg.nick2id(n) == model.get(n), 'wrong id for a nickname', history=hist, registry=which, nick=n, got=reg.nick2id(n), expected=model.get(n))
    for i, s in enumerate(IDS):
        check.expect(reg.id2nick(s) == back.get(s), 'wrong nickname for an id', history=hist, registry=which, id=s, got=reg.id2nick(s), expected=back.get(s))
        for f in FORMS:
            got = reg.nick_or_id(give(i, f))
            check.expect(got == back.get(s, s), 'wrong nickname or id', history=hist, registry=which, id=s, form=f, got=got, expected=back.get(s, s))
    check.expect(reg.id2nick('Z()') is None and reg.nick_or_id('Z()') == 'Z()', 'an id that was never there has a nickname', history=hist, registry=which)
    check.expect(reg.list() == sorted(model.items()), 'looking up changes the registry', history=hist, registry=which)


def run(check, hist):
    from whatami.registry import WhatamiRegistry
    regs = [WhatamiRegistry(), WhatamiRegistry(name='other')]
    models = [{}, {}]
    for op in hist:
        r = op[1]
        new = apply_model(models[r], op)
        try:
            apply_real(regs[r], op)
            failed = False
        except AssertionError as e:
            check.fail(str(e), history=hist)
            failed = False
        except Exception:
            failed = True
        if failed is not (new is None):
            check.fail('the last operation should %s' % ('fail' if new is None else 'work'), history=hist, pairs=repr(models[r]))
            return None
        if new is not None:
            models[r] = new
    check.count()
    check.seen(hist)
    for which in range(2):
        agree(check, regs[which], models[which], hist, which)
    return tuple([tuple(sorted(m.items())) for m in models])


def many(check, n):
    """Many pairs come and go; after each the ends and, from time to time, everything is compared."""
    from whatami import What
    from whatami.registry import WhatamiRegistry
    reg, model = WhatamiRegistry(), {}
    nick, an_id = (lambda i: 'nick-%d' % i), (lambda i: 'A(a=%d,b=B(c=%d))' % (i, i % 7))

    def what(i):
        return What('A', {'b': What('B', {'c': i % 7}), 'a': i}) if i % 2 else an_id(i)

    def same(when):
        check.count()
        check.expect(reg.list() == sorted(model.items()), 'the pairs are not the ones registered and not removed', n=len(model), when=when, got=len(reg.list()))
        back = {v: k for k, v in model.items()}
        for i in range(n):
            check.expect(reg.nick2id(nick(i)) == model.get(nick(i)) and reg.id2nick(an_id(i)) == back.get(an_id(i)) and reg.nick_or_id(what(i)) == back.get(an_id(i), an_id(i)), 'wrong lookup among many', n=len(model), when=when, i=i)

    def refused(i, j, when):
        try:
            reg.register(what(i), nick(j))
        except Exception:
            return
        check.fail('a pairing that conflicts is registered', n=len(model), when=when, id=an_id(i), nick=nick(j))

    for i in range(n):
        reg.register(what(i), nick(i))
        model[nick(i)] = an_id(i)
        check.seen(('many', n, i))
        if i % 23 == 0 or i == n - 1:
            same('registering')
            for j in (0, i // 2, i):   # all that is there is protected, and can be registered again
                reg.register(what(j), nick(j))
                refused(j, n, 'new nick')
                refused(n, j, 'new id')
                if j != i:
                    refused(i, j, 'both taken')
            same('after refusing')
    for i in range(0, n, 3):
        (reg.remove(nick(i)) if i % 2 else reg.remove(what=what(i)))
        del model[nick(i)]
        if i % 69 == 0:
            same('removing')
    same('removed')
    for i in range(0, n, 3):   # exchanged
        other = n - 1 - (n - 1) % 3 - i
        reg.register(what(i), nick(other))
        model[nick(other)] = an_id(i)
    same('exchanged')
    reg.reset()
    model.clear()
    same('reset')


def body(check):
    for n in (10, 130, 300) + ((1200,) if check.thorough else ()):
        many(check, n)
    # one registry, all the forms, until there are no more states (and extending also by last operation)
    s1 = bfs(check, make_ops([0], FORMS), run, 12)
    bfs(check, make_ops([0], ('id', 'whatable')), run, 12, memory=1)
    # two registries
    if check.thorough:
        s2 = bfs(check, make_ops([0, 1], ('id', 'what')), run, 16)
        bfs(check, make_ops([0], FORMS), run, 12, memory=1)
        bfs(check, make_ops([0], ('id',)), run, 12, memory=2)
    else:
        s2 = bfs(check, make_ops([0, 1], ('what',)), run, 5)
    check.extra['states_of_one_registry'] = len(s1)
    check.expect(len(s1) == 34, 'not all the pairings are reachable', got=len(s1))
    if check.thorough:
        check.expect(len(s2) == 34 * 34, 'not all the pairings are reachable', got=len(s2))
    check.sample({'history': [['register', 0, 'n', 'A(a=1)'], ['remove both', 0, 'n', 'B()'], ['remove what', 0, 'A(a=1)'], ['register', 0, '', 'A(a=1)']]})


if __name__ == '__main__':
    main('C16', 'model_checking', 'the reachable states (pairings of 3 nicknames and 3 ids) of one registry to fixpoint, all operations in all forms from each; two registries up to the bound (to fixpoint in thorough); every transition replayed on '
         'real registries and all lookups compared with the model; distinct ones are different histories', body)
