# coding=utf-8
"""C07: length-limited ids are the id or its SHA-1."""
import hashlib
import itertools

from mc.core import main
from mc.values import build, ref, ref_positional, universe, values, W, S, I, T, L, D, NONE


def limited(text, maxlength):
    if 0 < maxlength < len(text):
        return hashlib.sha1(text.encode('utf-8')).hexdigest()
    return text


def lengths(n):
    return sorted({0, -1, -n, -10 ** 6, 1, 2, 39, 40, 41, 255, n - 2, n - 1, n, n + 1, n + 2, 2 * n, 3 * n, 4 * n, n // 2, 10 ** 6})


def chunk(check, ds):
    for d in ds:
        w = build(d)
        texts = [(lambda m: w.id(maxlength=m), ref(d)), (lambda m: w.id(False, m), ref(d)),
                 (lambda m: w.id(nonids_too=True, maxlength=m), ref(d, True)),
                 (lambda m: w.positional_id(maxlength=m), ref_positional(d)),
                 (lambda m: w.positional_id(non_ids_too=True, maxlength=m), ref_positional(d, True)),
                 (lambda m: w.positional_id(True, m), ref_positional(d, True))]
        for i, (make, text) in enumerate(texts):
            ms = set(lengths(len(text))) | {len(text.encode('utf-8')), len(text.encode('utf-8')) - 1, len(text.encode('utf-16'))}
            for m in sorted(ms):
                check.count()
                got = make(m)
                check.expect(got == limited(text, m) and type(got) is str, 'wrong length-limited id', config=repr(d)[:1000], which=i, maxlength=m, length=len(text), got=got,
                             expected=limited(text, m))
            check.seen((d, i))
        # full ids again, after limited ones; default is not limited
        check.expect((w.id(), str(w), w.positional_id()) == (ref(d), ref(d, True), ref_positional(d)), 'limiting the length affects later ids', config=repr(d)[:1000])


def body(check):
    ds = list(universe(True))
    if not check.thorough:
        ds = ds[:2500] + ds[2500::12]
    extra = [W('C', [('x', S(s * n))], out=o) for s in (u'\xe9', u'\u65e5', u'\U0001f600', 'a', u'a\u0301') for n in (1, 10, 35, 36, 240, 250) for o in (None, 'o')]
    # non ids, nested and whatables, long and short
    big = W('f', [('a', S('z' * 300)), ('n', S('y' * 300))], out='o', non=['n'])
    nested = [big, L(big, big), T(I(1), big), D((S('k'), big)), ('wobj', big), W('g', [('x', big), ('m', big)], non=['m'])]
    for v in nested:
        for non in ([], ['n'], ['n', 'x'], ['zz']):
            extra.append(W('C', [('x', v), ('n', S('w' * 50)), ('a', v)], out='o', non=non))
    # texts of every length around the usual limits
    extra += [W('C', [('x', S('a' * n))]) for n in list(range(0, 60)) + list(range(240, 270))]
    extra += [W('C' * n, out=o) for n in range(1, 45) for o in (None, 'out')]
    ds += extra
    check.parallel(chunk, [ds[i:i + 100] for i in range(0, len(ds), 100)])
    w = build(extra[0])
    check.sample({'id': w.id(), 'maxlength 5': w.id(maxlength=5)})


if __name__ == '__main__':
    main('C07', 'exploration',
         'one evaluation per (configuration, kind of id, maxlength) with all boundary lengths, compared with the id text of the reference serializer or its sha1; distinct '
         'ones differ in configuration or kind of id', body)
