# coding=utf-8
"""C14: blanks between the tokens of an id mean nothing."""
import itertools

from mc.core import main
from mc.grammar import tokens
from mc.values import raw_obj, universe, ref, quote, strings_of, unpaired_backslash_end

# Together they contain each pair of tokens that can be together
COVERING = ["C()", "o=C()", "C(a=1)", "o=C(a=1,b=-2.5)", "C(a=None,b=True,c=False,d=nan,e=-inf)", "C(a='x y',b='')", "C(a=())", "C(a=[])", "C(a={})", "C(a=set())", "C(a=frozenset())",
            "C(a=[1,(2,'x'),[None]])", "C(a={'b',(1,2),1})", "C(a=frozenset({'b',1}))", "C(a={'k':1,2:[3]})", "C(a=<class 'str'>,b=[<class 'dict'>])", "C(a=D(),b=o=E(c=1))",
            "C(a=[D(),o=E(a=1)],b={'k':D()})", "C(a=(set(),frozenset()))", "C(a={frozenset():{()}})", "C(a={frozenset({(True)}),frozenset({1})})", "C(a={D(a=1):D(a=2)})",
            "None_=True_(nan_=infx(a=1))", "C(None_=None,True1=True)", "C(a=[[[]]],b=((())),c=[{}])", "C(a={'x':{'y':{}}})", "C(a='\\'',b='\\\\')", "o=C(n=p=D(q=r=E(a=[1,2])))", "C(a={<class 'bool'>:1})",
            "C(a=('a','b'),b=['a','b'],c={'a','b'})", "C(a=(-1,1e+22,inf))", "C(a={None,nan})"]
BLANKS = [' ', '\t', '\n', '\r', '  ', ' \n\t ']
CONTENTS = [' ', '\t', '\n', 'a', ',', '\r']


def expect_same(check, text, canonical, structure):
    from whatami import parse_whatid
    check.count()
    check.seen(text)
    try:
        got = parse_whatid(text)
    except Exception as e:
        check.fail('blanks between tokens are not accepted', text=text, without_blanks=canonical, error=repr(e)[:300])
        return
    check.expect(raw_obj(got) == structure, 'blanks between tokens change the configuration', text=text, without_blanks=canonical, got=raw_obj(got))
    check.expect(got.id() == canonical, 'the regenerated id is not the one without blanks', text=text, got=got.id(), expected=canonical)


def run_gaps(check, item):
    from whatami import parse_whatid
    canonical, most = item
    toks = tokens(canonical)
    structure = raw_obj(parse_whatid(canonical))
    gaps = range(len(toks) + 1)

    def text(blanks):
        return ''.join([blanks.get(i, '') + t for i, t in enumerate(toks + [''])])
    for n in range(1, most + 1):
        for where in itertools.combinations(gaps, n):
            kinds = BLANKS if n < 2 or len(toks) < 18 else BLANKS[:3]
            if n == 2 and len(toks) < 12:
                choices = itertools.product(kinds, repeat=2)
            else:
                choices = [(b,) * n for b in (kinds if n < 3 else BLANKS[:2])] + ([(' ', '\n', '\t')] if n == 3 else [])
            for blanks in choices:
                expect_same(check, text(dict(zip(where, blanks))), canonical, structure)
    for b in BLANKS:
        expect_same(check, text({i: b for i in gaps}), canonical, structure)
    for i in gaps:
        expect_same(check, text({j: ' ' for j in gaps if j != i}), canonical, structure)
        expect_same(check, text({j: ' ' for j in gaps if j < i}), canonical, structure)
    expect_same(check, text({i: BLANKS[i % len(BLANKS)] for i in gaps}), canonical, structure)


def run_strings(check, prefix):
    """Blanks inside strings."""
    from whatami import parse_whatid, What
    for n in range(0, 5 if check.thorough else 4):
        for rest in itertools.product(CONTENTS, repeat=n):
            s = ''.join(prefix + rest)
            q = quote(s)
            structure = raw_obj(What('C', {'a': s, 'b': [s, (s,)], 'c': {s: What('D', {'e': s})}, 'd': {s}}))
            canonical = "C(a=%s,b=[%s,(%s)],c={%s:D(e=%s)},d={%s})" % ((q,) * 6)
            built = What('C', {'a': s, 'b': [s, (s,)], 'c': {s: What('D', {'e': s})}, 'd': {s}}).id()
            check.expect(built == canonical, 'blanks of a string are not kept in the id', string=s, got=built, expected=canonical)
            expect_same(check, canonical, canonical, structure)
            spaced = "C( a = %s , b = [ %s\t, ( %s\n) ] , c = { %s : D( e = %s ) } , d = { %s } ) " % ((q,) * 6)
            expect_same(check, spaced, canonical, structure)


def body(check):
    most = 3
    items = [(c, most) for c in COVERING]
    ids = [u for u in (ref(d) for d in universe(False) if not any(unpaired_backslash_end(s) for s in strings_of(d))) if len(u) < 45]
    items += [(u, 1) for u in ids[::4 if check.thorough else 40]]
    items.sort(key=lambda it: -it[1] * len(it[0]))
    check.parallel(run_gaps, items)
    check.extra['ids_with_blanks'] = len(items)
    check.parallel(run_strings, [()] + [p for p in itertools.product(CONTENTS, repeat=2)] + [(c,) for c in CONTENTS])
    pairs = set()
    for c in COVERING:
        kinds = [t if not t[0].isalnum() else ('word' if t[0].isalpha() else 'number') for t in tokens(c)]
        pairs |= set(zip(kinds, kinds[1:]))
    check.extra['token_pairs'] = len(pairs)
    check.sample("o = C ( a = [ 1 , ( 2 , 'x' ) ] )")


if __name__ == '__main__':
    main('C14', 'exploration', 'all choices of up to 3 gaps of the covering ids, and of 1 gap of a systematic subset of the bounded universe, with each kind of blank, all gaps at once and all but one; all strings of blanks and letters up to the bound '
         'in every position; distinct ones are different texts', body)
