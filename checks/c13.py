# coding=utf-8
"""C13: the parser accepts exactly the id language."""
import itertools

from mc.core import main
from mc.grammar import read, tokens
from mc.values import raw_obj, universe, ref, hashable, large, W, strings_of, unpaired_backslash_end

# All the tokens of the language, and one that is not
TOKENS = ['C', 'a', '=', '(', ')', ',', '[', ']', '{', '}', ':', '1', "'s'", 'None', 'True', 'nan', 'set()', 'frozenset()', 'frozenset({', '})', '<class ', '>', "'str'", '-inf', '2.5', '#', '"']
VALUE_CORE = ['1', ',', '(', ')', '[', ']', '{', '}', ':', 'a', '=']
ID_CORE = ['C', 'a', '=', '(', ')', ',', '1']
SET_CORE = ['1', ',', '{', '}', ':', 'frozenset({', '})', 'set()', '[', ']']
NUMBER_CHARS = '-+01.eE'
# Digits, letters, minus signs and blanks that only Unicode takes for such
LOOKALIKES = u'\u0663\uff11\xb2\xbd\u2160\u4e09\xe9\u0430\uff45\u212a\u0131\u017f\u2212\uff0d\xa0\u2003\u2028\x85\x0b\x0c\x1c\u200b\ufeff\uff08\uff09\uff1d\uff0c\u2019\U0001d7d9\x00'
STRING_CHARS = "'\\ a,\n"
NAME_CHARS = "aZ_0 -.\xe9"
WORDS = ['None', 'True', 'False', 'nan', 'inf', '-inf', 'set', 'frozenset', 'class', 'infinity', 'none', 'true', 'Nonea', 'nana', 'infa', '1a', 'a1', '_', 'NaN', 'Infinity', '-nan', '+inf', '--1',
         '-None', '0x1', '1_0', '1j', '1L', "u'a'", "b'a'", '"a"', "r'a'", '...', 'lambda', '*', '**', 'a.b', '1,2', '1 2', "'a' 'b'", "'a''b'", '01', '-0', '-0.0', '1.', '.5', '1e400', '-1e400', '1e', '1e+', '1.5.2',
         '00', '1E5', '1e-5', '99999999999999999999', '<str>', "<class str>", "<class 'str'", "<class'str'>", "<class ''>", "<class 'str' >", "<class '.str'>", "<class 'str.'>", "<class 'a..b'>", "<class 'nope.Nope'>",
         "<class 'collections.OrderedDict'>", "<class 'nope'>", 'set( )', 'set ()', 'set(a=1)', 'o=set()', 'frozenset( )', 'frozenset( {1})', 'frozenset({1}', 'frozenset({})', 'frozenset({1:2})', 'frozenset(1)', 'set({1})',
         'frozenset({1,})', '{,}', '{1,}', '{1:}', '{:1}', '{1:2,3}', '{1,3:2}', '{1:2,}', '{1:2:3}', '[1,]', '(1,)', '(,)', '[,1]', '[1,,2]', '((1)', '(1))', '[(1])', '{{}}', '{[]}', '{[]:1}', '{():1}', '{(1,[]):1}', '{frozenset():1}',
         '{C()}', '{C():C()}', '{a=C()}', '[a=C()]', '[a=1]', '(a=1)', '{a=1}', 'a=1', 'a=b=C()', 'a=C(b=c=C())', 'C(1)', "C('a'=1)", 'C(1=1)', 'C(a:1)', 'C(a==1)', 'C(a=)', 'C(=1)', 'C(a)', 'C(a=1,)', 'C(,a=1)', 'C(a=1 b=2)', 'C[]', 'C', 'C()()',
         'C().a', 'C() C()', 'C(a=1)=C()', '=C()', 'C=()', 'C=1', '1=C()', "'o'=C()", 'C(a=1,a=2)', '{1:2,1:3}', '{1,1}', '{1,True}', "{'set()'}", '{set()}', '{nan,nan}', '', ' ', '()', '[[[[[[1]]]]]]', '{(((())))}']


def compare(check, text):
    from whatami import parse_whatid
    from arpeggio import NoMatch
    expected = read(text)
    check.count()
    check.seen(text)
    try:
        got = parse_whatid(text)
        kind = 'ok'
    except NoMatch:
        kind = 'rejected'
    except TypeError:
        kind = 'unbuildable'
    except Exception as e:
        check.fail('neither parsed nor rejected', text=text, error=repr(e))
        return
    if kind != expected[0]:
        check.fail('wrongly %s, expected %s' % (kind, expected[0]), text=text)
    elif kind == 'ok':
        check.extra['accepted'] = check.extra.get('accepted', 0) + 1
        if not expected[2]:
            check.expect(raw_obj(got) == raw_obj(expected[1]), 'parsed to something else', text=text, got=raw_obj(got), expected=raw_obj(expected[1]))


def sequences(alphabet, n, left='', right=''):
    """Work items: all the sequences with the given length, by prefix."""
    split = 2 if n > 2 else 0
    return [(alphabet, p, n - split, left, right) for p in itertools.product(alphabet, repeat=split)]


def run_sequences(check, item):
    alphabet, prefix, n, left, right = item
    left = left + ''.join(prefix)
    for rest in itertools.product(alphabet, repeat=n):
        compare(check, left + ''.join(rest) + right)


def edits(toks, alphabet):
    """All one-token deletions, repetitions, exchanges of neighbours, insertions and substitutions."""
    for i in range(len(toks)):
        yield toks[:i] + toks[i + 1:]
        yield toks[:i] + [toks[i]] + toks[i:]
        if i + 1 < len(toks):
            yield toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:]
        yield toks[:i]
    for i in range(len(toks) + 1):
        for t in alphabet:
            yield toks[:i] + [t] + toks[i:]
            if i < len(toks):
                yield toks[:i] + [t] + toks[i + 1:]


def run_edits(check, item):
    text, alphabet = item
    compare(check, text)
    for toks in edits(tokens(text), alphabet):
        compare(check, ''.join(toks))


def body(check):
    big = check.thorough
    more = 1 if big else 0
    items = []
    for n in range(0, 4 + more):
        items += sequences(TOKENS, n, 'C(a=', ')')
    for n in range(0, 5 + more):
        items += sequences(VALUE_CORE, n, 'C(a=', ')')
    for n in range(0, 5 + more):
        items += sequences(SET_CORE, n, 'C(a=', ')')
    for n in range(0, 6 + more):
        items += sequences(ID_CORE, n)
    for n in range(0, 6 + more):
        items += sequences(ID_CORE, n, 'C(')
        items += sequences([',', 'a', '=', '1', ')', '('], n, 'C(a=', '')
    for n in range(0, 4 + more):
        items += sequences(TOKENS, n)
    for n in range(0, 5 + more):
        items += sequences(NUMBER_CHARS, n, 'C(a=', ')')
    for n in range(0, 6 + more):
        items += sequences(STRING_CHARS, n, "C(a='", "')")
    for n in range(0, 5 + more):
        items += sequences(NAME_CHARS, n, '', '()')
        items += sequences(NAME_CHARS, n, 'C(', '=1)')
        items += sequences(NAME_CHARS, n, '', '=C()')
    # big ones first, so that all the processes end at the same time
    items.sort(key=lambda it: -len(it[0]) ** it[2])
    check.parallel(run_sequences, items)

    def run_word(sub, w):
        for text in (w, 'C(a=%s)' % w, 'C(a=[%s])' % w, 'C(a=(%s))' % w, 'C(a={%s})' % w, 'C(a={%s:%s})' % (w, w), 'C(a=frozenset({%s}))' % w, 'C(a=D(b=%s),c=%s)' % (w, w), 'o=C(a=%s)' % w, '%s()' % w, '%s=C()' % w, 'C(%s=1)' % w,
                     'C(a=%s' % w, 'C(%s)' % w, 'C(a=1)%s' % w, '%sC(a=1)' % w, ' %s ' % w, 'C(a=[1,%s,2])' % w, 'C(a=%s,b=1)' % w):
            compare(sub, text)
    check.parallel(run_word, WORDS)
    # Characters that some notion of digit, letter or blank takes in, anywhere in the ids
    def run_lookalike(sub, char):
        for text in ('C(a=1)', 'C(a=-12.5e-3)', 'o=C(bc=1,d=None)', 'C(a=nan,b=[1,-inf])', "C(a='s',b={1:(True,)})", 'C(a=frozenset({1}),b=set())', "C(a=<class 'str'>)", 'C()', 'C(a=D(b=1.))'):
            compare(sub, text)
            for i in range(len(text) + 1):
                compare(sub, text[:i] + char + text[i:])
                compare(sub, text[:i] + char + text[i + 1:])
                compare(sub, text[:i] + char * 2 + text[i + 2:])
    check.parallel(run_lookalike, LOOKALIKES)
    # Long and deep ones, some of them broken near the end
    def run_long(sub, d):
        u = d if isinstance(d, str) else ref(W('C', [('x', d)]))
        for text in (u, u[:-1] + ',y=' + u[4:], u[:-1], u[:-1] + ',)', u + ')', u[:-2] + '#)', u[:-1] + ',x=1)', u[:-1] + ',a b=1)', '(' + u[1:], u[:len(u) // 2]):
            compare(sub, text)
    texts = []
    for n in (33, 65, 130, 257, 513, 1025, 4000):
        texts += ["'%s'" % (w * n) for w in ('x', ' ', '\\\\', "\\'", '\\n', '"', '\n', ',)')] + ['1' * n, '-' + '0' * n + '1', '1.%s' % ('5' * n), '0.%s1' % ('0' * n), '1e%s1' % ('0' * n), '1.5e-%s2' % ('0' * n), 'e%s()' % ('d' * n), '%s1=E()' % ('o_' * n), 'E(%s=1)' % ('k' * n)]
    check.parallel(run_long, list(large()) + ['C(x=%s)' % t for t in texts])
    # One-token edits of real ids
    sentences = ["o=C(a={1:(2,[3]),'x':D(b=None)},c=frozenset({1,nan}),d=set())", "C(a=<class 'str'>,b=q=D(c=E(),d=F(e=True)),f={1,(2,())})", "C(a=frozenset({frozenset({1})}),b={frozenset({}):1})",
                 "C(a=frozenset({D(b={1})}),b=[-inf,-1.5e-3,'\\''],c=())"]
    ids = [u for u in (ref(d) for d in universe(False) if not any(unpaired_backslash_end(s) for s in strings_of(d))) if 5 < len(u) < 60]
    step = 3 if big else 29
    picked = ids[::step]
    check.extra['edited_sentences'] = len(picked) + len(sentences)
    check.parallel(run_edits, [(u, TOKENS) for u in sentences + picked])
    check.sample("C(a=frozenset({1})")
    check.sample("C(a={[]:1})")


if __name__ == '__main__':
    main('C13', 'exploration', 'all token sequences up to the bound at the top level and in value position, all character sequences up to the bound in numbers, names and strings, all one-token edits of a systematic subset of the canonical '
         'ids of the bounded universe; acceptance and value compared with a hand written reference recognizer; distinct ones are different texts', body)
