# coding=utf-8
"""C23: old-style ids convert to the equivalent new ids."""
import itertools

from mc.core import main
from mc.values import universe, ref, canon, canon_obj, strings_of, unpaired_backslash_end, quote, hashable, W, I, S, L, T, D, ST, NONE, F


def old_fashioned(d):
    """The old language has no outputs for nested configurations, nor classes, nor frozensets."""
    k = d[0]
    if k in ('cls', 'fset', 'num', 'wobj'):
        return False
    if k in ('list', 'tuple', 'set'):
        return all(old_fashioned(x) for x in d[1])
    if k == 'dict':
        return all(old_fashioned(a) and old_fashioned(b) for a, b in d[1])
    if k == 'what':
        return d[2] is None and all(old_fashioned(v) for _, v in d[3]) and d[1] not in ('set', 'frozenset')
    return True


def old(d, quoted, blank=''):
    """The old-style rendering. quoted: are nested configurations quoted?"""
    k = d[0]
    b = blank
    sep = b + ',' + b
    if k == 'what':
        return d[1] + b + '#' + b + (b + '#' + b).join([key + b + '=' + b + nested(v, quoted, b) for key, v in d[3]])
    if k == 'list':
        return '[' + b + sep.join([nested(x, quoted, b) for x in d[1]]) + b + ']'
    if k == 'tuple':
        return '(' + b + sep.join([nested(x, quoted, b) for x in d[1]]) + b + ')'
    if k == 'set':
        return '{' + b + sep.join([nested(x, quoted, b) for x in d[1]]) + b + '}' if d[1] else 'set()'
    if k == 'dict':
        return '{' + b + sep.join([nested(x, quoted, b) + b + ':' + b + nested(y, quoted, b) for x, y in d[1]]) + b + '}'
    return ref(d)


def nested(d, quoted, b):
    s = old(d, quoted, b)
    return '"' + b + s + b + '"' if d[0] == 'what' and quoted else s


def unquotable(d, last=True):
    """Can nested configurations go without quotes? Only if nothing can be mistaken for more of their parameters, and their names do not look like literals."""
    k = d[0]
    if k == 'what':
        return all(unquotable(v, n == len(d[3]) - 1) and not (v[0] == 'what' and (n != len(d[3]) - 1 or looks_literal(v[1]))) and not (n != len(d[3]) - 1 and ends_in_what(v)) for n, (_, v) in enumerate(d[3]))
    if k in ('list', 'tuple', 'set'):
        return all(unquotable(x) and not (x[0] == 'what' and looks_literal(x[1])) for x in d[1])
    if k == 'dict':
        return all(unquotable(x) and unquotable(y) and not any(z[0] == 'what' and looks_literal(z[1]) for z in (x, y)) for x, y in d[1])
    return True


def ends_in_what(d):
    return d[0] == 'what'


def looks_literal(name):
    return any(name.startswith(w) for w in ('None', 'True', 'False', 'inf', 'nan'))


def more():
    """Configurations for which being old-style matters."""
    vals = [I(1), F(-1.5), S('x'), S('a#b'), S('"'), S('out=o#C#'), S("'"), NONE, L(S('#')), T(S('x'), S('y')), D((S('k'), W('D', [('p', I(1))]))), W('D'), W('D', [('p', I(1))]), W('D', [('p', I(1)), ('q', W('E', [('r', S('z'))]))]),
            L(W('D', [('p', I(1))]), W('D', [('p', I(2))])), ST(I(1), S('b')), ST(), D(), W('True_', [('p', NONE)]), W('nan_')]
    for v in vals:
        yield W('C', [('a', v)])
        yield W('None_', [('a', v), ('out', v)])
    for v, w in itertools.product(vals, repeat=2):
        yield W('C', [('a', v), ('b', w)])
        yield W('C', [('b', v), ('a', w)])
    for v in itertools.product(vals[::4], repeat=3):
        yield W('C', zip(('c', 'a', 'b'), v))


OUTS = ['o', 'acc_to_target', '', 'x y', "it's", 'out', 'None', 'a=b', '"', 'o(a=1)']


def expect(check, text, d, out=None):
    from whatami.whatutils import oldid2what, id2whatami4
    full = text if out is None else 'out=%s#%s' % (out, text)
    ambiguous = out is not None and any(k == 'out' for k, _ in d[3])
    if out is not None:
        d = W(d[1], list(d[3]) + [('out', S(out))])
    check.count()
    check.seen(full)
    results = []
    for f in (oldid2what, id2whatami4):
        try:
            results.append(f(full))
        except ValueError as e:
            results.append(ValueError)
        except Exception as e:
            results.append(e)
    if ambiguous:
        check.expect(results == [ValueError, ValueError], 'an ambiguous output is not an error', old=full, got=repr(results))
        return
    check.expect(canon_obj(results[0]) == canon(d), 'the old id gives another configuration', old=full, got=repr(results[0]), expected=ref(d))
    check.expect(results[1] == ref(d), 'the old id gives another new id', old=full, got=repr(results[1]), expected=ref(d))


def run(check, chunk):
    from whatami.whatutils import id2whatami4
    for i, d in chunk:
        if any(unpaired_backslash_end(s) for s in strings_of(d)):
            continue
        new = ref(d)
        for untouched in (new, ' ' + new):
            check.expect(id2whatami4(untouched) == untouched, 'a new-style id is not left untouched', id=untouched, got=repr(id2whatami4(untouched)))
        check.count()
        d = W(d[1], d[3], non=()) if d[2] is not None else d
        if not old_fashioned(d) or d[4]:
            continue
        texts = [old(d, True), old(d, True, ' '), '"' + old(d, True) + '"', ' "' + old(d, True, '\t') + '" ']
        if unquotable(d):
            texts += [old(d, False), old(d, False, ' '), '"' + old(d, False) + '"']
        for text in texts:
            expect(check, text, d)
        expect(check, texts[0], d, out=OUTS[i % len(OUTS)])
        expect(check, texts[2], d, out=OUTS[(i + 1) % len(OUTS)])


def words(check):
    """Strings that are not old-style ids."""
    from whatami.whatutils import id2whatami4, oldid2what
    from arpeggio import NoMatch
    for n in range(0, 6 if check.thorough else 5):
        for chars in itertools.product('a#=1"\'( ,', repeat=n):
            s = ''.join(chars)
            check.count()
            try:
                what = oldid2what(s)
                ok = True
            except NoMatch:
                ok = False
            exp = recognise(s)
            check.expect(ok is (exp is not None), 'wrongly %s as an old-style id' % ('accepted' if ok else 'rejected'), text=s)
            if ok and exp is not None:
                check.expect(what.id() == exp == id2whatami4(s), 'an old-style id gives another id', text=s, got=what.id(), expected=exp)
            elif not ok:
                check.expect(id2whatami4(s) == s, 'a string that is not an old-style id is not left untouched', text=s, got=repr(id2whatami4(s)))
            check.seen(s)
    for s in ('velocity', '', 'out=', 'out', '#', 'C', 'C()', 'C(a=1)', 'out=C(a=1)', "out=C(a='#D#b=1')", "C(a='#b=1')", '"C"', '"C#', 'C#"', 'C#a', 'C#a=', 'C#a=1#', 'C##', 'C#a=1,b=2', 'C#a=1#b', 'C#a=1)', 'out=o#', 'out=o#C', 'out=o#C(a=1)', '"out=o#C#"', 'C#a="D#b=1',
              'C#a=[1', "C#a='x", u'\xe9#', '1#', 'C#1=1', u'C#\xe9=1', u'C#a=\u0663', u'C#a=1\uff11', u'C#a=-1.\u0663', u'C#a=1e\u0663', u'C#a=[\u0663]', u'C#\xa0a=1', u'\u0430#a=1'):
        check.count()
        check.expect(id2whatami4(s) == s, 'a string that is not an old-style id is not left untouched', text=s, got=repr(id2whatami4(s)))


def recognise(s):
    """The new id of a word over the little alphabet above, or None: a tiny recognizer of the old language without nesting in collections.

    The words are so short that only these shapes exist: a#, a#a=VALUE, quoted or not, with blanks, where VALUE is a number, a string, () or a nested id.
    """
    pos = [0]

    def skip():
        while pos[0] < len(s) and s[pos[0]] == ' ':
            pos[0] += 1

    def eat(c):
        save = pos[0]
        skip()
        if s[pos[0]:pos[0] + 1] == c:
            pos[0] += 1
            return True
        pos[0] = save
        return False

    def name():
        save = pos[0]
        skip()
        i = pos[0]
        while i < len(s) and (s[i] == 'a' or s[i] == '1' and i > pos[0]):
            i += 1
        if i == pos[0]:
            pos[0] = save
            return None
        n, pos[0] = s[pos[0]:i], i
        return n

    def plain():
        save = pos[0]
        n = name()
        if n is None or not eat('#'):
            pos[0] = save
            return None
        kvs = []
        while True:
            after = pos[0]
            if kvs and not eat('#'):
                break
            k = name()
            v = value() if k is not None and eat('=') else None
            if v is None:
                pos[0] = after
                break
            kvs.append((k, v))
        return '%s(%s)' % (n, ','.join(['%s=%s' % kv for kv in sorted(dict(kvs).items())]))

    def an_id():
        save = pos[0]
        got = plain()
        if got is None and eat('"'):
            got = plain()
            if got is None or not eat('"'):
                got = None
        if got is None:
            pos[0] = save
        return got

    def value():
        save = pos[0]
        skip()
        i = pos[0]
        while i < len(s) and s[i] == '1':
            i += 1
        if i > pos[0]:
            n, pos[0] = s[pos[0]:i], i
            return n
        if s[i:i + 1] == "'":
            j = s.find("'", i + 1)
            if j > 0:
                pos[0] = j + 1
                return s[i:j + 1]
        pos[0] = save
        return an_id()
    got = an_id()
    skip()
    return got if got is not None and pos[0] == len(s) else None


def body(check):
    ds = list(more()) + list(universe(check.thorough))
    items = list(enumerate(ds))
    check.parallel(run, [items[i::64] for i in range(64)])
    words(check)
    check.sample('out=acc#C#a=("D#p=1",[None])#b=\'#\'')


if __name__ == '__main__':
    main('C23', 'exploration', 'all the configurations of the bounded universe that exist in the old language, rendered in several old styles (nested ones quoted or not, blanks, quoted as a whole, with outputs) and compared with their descriptions; all new ids left untouched; '
         'all words up to the bound over an alphabet of old-style characters, compared with a reference recognizer; distinct ones are different texts', body)
