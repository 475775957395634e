# coding=utf-8
"""A reference recognizer of the id language: a hand written recursive descent parser, independent of arpeggio.

An id is  [name =] name ( [key = value {, key = value}] )
A value is an empty set, a set, an id, None, a boolean, a number, a quoted string, a tuple, a list, a dictionary or a class.
Blanks are allowed before any token and at the end.
"""
import importlib
import re


class Reject(Exception):
    pass


class Unbuildable(Exception):
    """The syntax is right, but the value cannot exist (e.g. a list as member of a set)."""


BLANKS = '\t\n\r '
NAME = re.compile(r'[_A-Za-z][_A-Za-z0-9]*')
NUMBER = re.compile(r'-?[0-9]+((\.[0-9]*)?([eE][-+]?[0-9]+)?)')


class Missing(object):
    pass


MISSING = Missing()


class Reader(object):

    def __init__(self, text):
        self.s, self.i, self.n = text, 0, len(text)
        self.unbuildable = False
        self.duplicated = False

    def skip(self):
        while self.i < self.n and self.s[self.i] in BLANKS:
            self.i += 1

    def eat(self, token):
        save = self.i
        self.skip()
        if self.s.startswith(token, self.i):
            self.i += len(token)
            return True
        self.i = save
        return False

    def match(self, regex):
        save = self.i
        self.skip()
        m = regex.match(self.s, self.i)
        if m is None:
            self.i = save
            return None
        self.i = m.end()
        return m.group()

    # Each of these returns MISSING, consuming nothing, if there is no such thing at this point

    def an_id(self):
        save = self.i
        first = self.match(NAME)
        if first is None:
            return MISSING
        out = None
        if self.eat('='):
            out, first = first, self.match(NAME)
        if first is None or not self.eat('('):
            # maybe there was no output name; but then there is no parenthesis either
            self.i = save
            return MISSING
        conf = {}
        after = self.i
        kv = self.key_value()
        if kv is MISSING:
            self.i = after
        else:
            conf[kv[0]] = kv[1]
            while True:
                after = self.i
                if not self.eat(','):
                    break
                kv = self.key_value()
                if kv is MISSING:
                    self.i = after
                    break
                if kv[0] in conf:
                    self.duplicated = True
                conf[kv[0]] = kv[1]
        if not self.eat(')'):
            self.i = save
            return MISSING
        return ('what', first, out, conf)

    def key_value(self):
        save = self.i
        key = self.match(NAME)
        if key is not None and self.eat('='):
            value = self.value()
            if value is not MISSING:
                return key, value
        self.i = save
        return MISSING

    def values(self):
        value = self.value()
        if value is MISSING:
            return MISSING
        out = [value]
        while True:
            save = self.i
            if not self.eat(','):
                return out
            value = self.value()
            if value is MISSING:
                self.i = save
                return out
            out.append(value)

    def between(self, left, right):
        """The values between two tokens, at least one."""
        save = self.i
        if self.eat(left):
            out = self.values()
            if out is not MISSING and self.eat(right):
                return out
        self.i = save
        return MISSING

    def string(self):
        save = self.i
        self.skip()
        if self.i < self.n and self.s[self.i] == "'":
            j = self.i + 1
            while j < self.n:
                if self.s[j] == '\\' and j + 1 < self.n:
                    j += 2
                elif self.s[j] == '\\':
                    break
                elif self.s[j] == "'":
                    out = self.s[self.i + 1:j]
                    self.i = j + 1
                    return out
                else:
                    j += 1
        self.i = save
        return MISSING

    def value(self):
        if self.eat('set()'):
            return ('set', [])
        if self.eat('frozenset()'):
            return ('frozenset', [])
        got = self.between('{', '}')
        if got is not MISSING:
            return ('set', got)
        got = self.between('frozenset({', '})')
        if got is not MISSING:
            return ('frozenset', got)
        got = self.an_id()
        if got is not MISSING:
            return got
        for word, v in (('None', None), ('True', True), ('False', False)):
            if self.eat(word):
                return ('const', v)
        got = self.match(NUMBER)
        if got is not None:
            return ('const', float(got) if set('.eE') & set(got) else int(got))
        for word in ('-inf', 'inf', 'nan'):
            if self.eat(word):
                return ('const', float(word))
        got = self.string()
        if got is not MISSING:
            return ('const', got)
        for left, right, kind in (('(', ')', 'tuple'), ('[', ']', 'list')):
            got = self.between(left, right)
            if got is not MISSING:
                return (kind, got)
            save = self.i
            if self.eat(left) and self.eat(right):
                return (kind, [])
            self.i = save
        got = self.dictionary()
        if got is not MISSING:
            return got
        save = self.i
        if self.eat('<class '):
            got = self.string()
            if got is not MISSING and self.eat('>'):
                return ('class', got)
        self.i = save
        return MISSING

    def dict_item(self):
        save = self.i
        k = self.value()
        if k is not MISSING and self.eat(':'):
            v = self.value()
            if v is not MISSING:
                return k, v
        self.i = save
        return MISSING

    def dictionary(self):
        save = self.i
        if not self.eat('{'):
            return MISSING
        items = []
        item = self.dict_item()
        while item is not MISSING:
            items.append(item)
            after = self.i
            item = self.dict_item() if self.eat(',') else MISSING
            if item is MISSING:
                self.i = after
        if self.eat('}'):
            return ('dict', items)
        self.i = save
        return MISSING


def make(node):
    """The python value of a node of the tree."""
    from whatami import What
    kind = node[0]
    if kind == 'const':
        return node[1]
    if kind == 'what':
        return What(node[1], {k: make(v) for k, v in node[3].items()}, out_name=node[2])
    try:
        if kind in ('list', 'tuple', 'set', 'frozenset'):
            return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}[kind]([make(x) for x in node[1]])
        if kind == 'dict':
            return dict([(make(k), make(v)) for k, v in node[1]])
    except TypeError:
        raise Unbuildable()
    if kind == 'class':
        module, _, name = node[1].rpartition('.')
        try:
            return getattr(importlib.import_module(module or 'builtins'), name)
        except Exception:
            return {'class': node[1]}
    raise ValueError(node)


def read(text):
    """('ok', configuration, has duplicated keys), ('unbuildable',) or ('rejected',)."""
    r = Reader(text)
    tree = r.an_id()
    r.skip()
    if tree is MISSING or r.i != r.n:
        return ('rejected',)
    try:
        return ('ok', make(tree), r.duplicated)
    except Unbuildable:
        return ('unbuildable',)


TOKEN = re.compile(r"frozenset\(\{|frozenset\(\)|set\(\)|\}\)|<class |-inf|-?[0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?|'(?:\\[\s\S]|[^'\\])*'|[_A-Za-z][_A-Za-z0-9]*|[\s\S]")
CLOSES_FS = object()


def tokens(text):
    """Splits a canonical id in tokens ("})" is one only when it closes a frozenset)."""
    out, stack, i = [], [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        t = m.group()
        if t in ('frozenset({', '{', '('):
            stack.append(t)
        elif t == '})':
            if stack and stack[-1] == 'frozenset({':
                stack.pop()
            else:
                t = '}'
                stack.pop()
        elif t in (')', '}'):
            stack.pop()
        elif t in ('set()', 'frozenset()') and i and re.match(r'[_A-Za-z0-9]', text[i - 1]):
            raise ValueError(text)
        out.append(t)
        i += len(t)
    return out
