# coding=utf-8
"""Importable classes and functions, so that their instances can be serialised."""
import functools

from whatami import whatable, What
from whatami.whatutils import FunctionLike


@whatable
class Thing(object):

    def __init__(self, a=1, b='x'):
        self.a = a
        self.b = b
        self._hidden = 3


class SubThing(Thing):

    def __init__(self, a=1, c=2):
        super(SubThing, self).__init__(a=a)
        self.c = c

    @property
    def double(self):
        return [self.a, self.a]


@whatable(non_id_keys=('b',), add_class=False)
class NonId(object):

    def __init__(self, a=1, b='x'):
        self.a = a
        self.b = b


@whatable
class Slotted(object):
    __slots__ = 'a', 'b'

    def __init__(self, a=1):
        self.a = a


class Duck(object):

    def __init__(self, a=1):
        self.a = a

    def what(self):
        return What('duck', {'a': self.a, 'n': 1}, non_id_keys=('n',), out_name='quack')


class Callable(FunctionLike):

    def __init__(self, a=1):
        self.a = a

    def __call__(self, x):
        return x, self.a


class Plain(object):

    def __init__(self, a=1):
        self.a = a


@whatable
def function(x, a=1):
    return x, a


def undecorated(x, a=1, *, k=None):
    return x, a, k


partial = functools.partial(undecorated, a=[1, 2])


def stamp(an_id, record, recorder):
    record['n'] = len(recorder)
    return record


def tag(an_id, record, recorder):
    record['tags'] = record.get('tags', []) + [an_id]
    return record


def extractor(an_id):
    return 'the ' + an_id
