#!/usr/bin/env python
"""Regenerates data/sklearn_ids.json, the reviewed table of names and non-id parameters per scikit-learn class (run it only to review a new version of scikit-learn)."""
import sys, json, os, warnings, logging
warnings.simplefilter('ignore')
logging.disable(50)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ['/repo', HERE]
from checks import c25
from whatami.wrappers import what_sklearn
what_sklearn.whatamize_sklearn()
table = {}
for cls in c25.classes():
    info = what_sklearn._SKLRegistry.get(cls.__name__)
    if info is not None and info.object is cls:
        table[c25.fqn(cls)] = [info.short_name, sorted(set(info.non_id_params) & set(c25.params(cls)))]
assert len(table) == len(what_sklearn._SKLRegistry)
with open(os.path.join(HERE, 'data', 'sklearn_ids.json'), 'w') as f:
    json.dump(table, f, indent=0, sort_keys=True)
    f.write('\n')
