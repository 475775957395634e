# coding=utf-8
"""Reference traversal of configurations (What.flatten)."""
from mc.values import build, ref


def sort_key(k):
    return k


def flatten(d, non_ids_too=False, collections_too=False, recursive=True):
    """[(key, description of the value)] in the documented order, for the description of a configuration."""
    def dict_items(kvs):
        items = [(build(a), a, b) for a, b in kvs]
        try:
            order = sorted(items, key=lambda t: t[0])
        except TypeError:
            order = sorted(items, key=lambda t: ref(t[1]))
        return [(t[0], t[2]) for t in order]

    def children(d):
        if d[0] == 'sub':
            d = d[2]
        if d[0] == 'what':
            return [(k, v) for k, v in sorted(d[3], key=lambda kv: kv[0]) if non_ids_too or k not in d[4]]
        if collections_too and d[0] in ('list', 'tuple'):
            return list(enumerate(d[1]))
        if collections_too and d[0] == 'dict':
            return dict_items(d[1])
        return []

    out = []

    def walk(d, prefix):
        for k, v in children(d):
            key = prefix + (k,)
            out.append((key if len(key) > 1 else k, v))
            if recursive:
                walk(v, key)
    walk(d, ())
    return out
