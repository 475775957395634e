# coding=utf-8
"""C25: ids of estimators change exactly with the parameters that change results."""
import copy
import importlib
import inspect
import itertools
import json
import logging
import os
import pickle
import warnings

from mc.core import main, in_fork, VERIF

MODULES = ('calibration cluster compose covariance cross_decomposition decomposition discriminant_analysis dummy ensemble feature_extraction feature_extraction.text feature_extraction.image '
           'feature_selection gaussian_process gaussian_process.kernels impute isotonic kernel_approximation kernel_ridge linear_model manifold mixture model_selection multiclass multioutput naive_bayes '
           'neighbors neural_network pipeline preprocessing random_projection semi_supervised svm tree').split()


def fqn(cls):
    return cls.__module__ + '.' + cls.__name__


def load():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    warnings.showwarning = lambda *_, **__: None   # scikit-learn changes the filters
    for m in MODULES:
        importlib.import_module('sklearn.' + m)


def bases():
    from sklearn.base import BaseEstimator
    from sklearn.gaussian_process.kernels import Kernel
    from sklearn.model_selection import BaseCrossValidator
    from sklearn.model_selection._split import BaseShuffleSplit, _RepeatedSplits
    return BaseEstimator, Kernel, BaseCrossValidator, BaseShuffleSplit, _RepeatedSplits


def classes():
    """All concrete scikit-learn classes that can be whatables, in a fixed order."""
    load()
    found, todo = {}, list(bases())
    while todo:
        c = todo.pop()
        for s in c.__subclasses__():
            if fqn(s) not in found:
                todo.append(s)
                if s.__module__.startswith('sklearn.') and not s.__name__.startswith('_') and not s.__name__.startswith('Base') and '.tests.' not in s.__module__:
                    found[fqn(s)] = s
    return [c for _, c in sorted(found.items()) if not inspect.isabstract(c)]


def params(cls):
    """Names of the parameters of the constructor (those of the original one, for deprecated classes)."""
    init = getattr(cls.__init__, 'deprecated_original', cls.__init__)
    if init is object.__init__:
        return []
    return [p.name for p in inspect.signature(init).parameters.values() if p.name != 'self' and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]


def required():
    import numpy as np
    from sklearn.gaussian_process.kernels import RBF, WhiteKernel
    from sklearn.linear_model import LinearRegression
    from sklearn.model_selection import KFold
    from sklearn.preprocessing import StandardScaler
    return {'base_estimator': LinearRegression(), 'estimator': LinearRegression(), 'estimators': [('a', LinearRegression(n_jobs=2))], 'transformer_list': [('a', StandardScaler())],
            'steps': [('a', StandardScaler()), ('b', LinearRegression())], 'transformers': [('a', StandardScaler(), [0])], 'param_grid': {'a': [1, 2]}, 'param_distributions': {'a': [1, 2]},
            'kernel': RBF(), 'kernels': [RBF(), WhiteKernel()], 'k1': RBF(), 'k2': WhiteKernel(), 'exponent': 2, 'dictionary': np.eye(2), 'p': 2, 'n_groups': 2, 'test_fold': [0, 1], 'cv': [([0], [1])]}


def instance(cls, **fixed):
    """An instance with only what is required, or None."""
    init = getattr(cls.__init__, 'deprecated_original', cls.__init__)
    kwargs = dict(fixed)
    if init is not object.__init__:
        for p in inspect.signature(init).parameters.values():
            if p.name != 'self' and p.default is p.empty and p.kind == p.POSITIONAL_OR_KEYWORD and p.name not in kwargs:
                r = required()
                if p.name not in r:
                    return None
                kwargs[p.name] = r[p.name]
    try:
        return cls(**kwargs)
    except Exception:
        return None


def current(obj):
    """The current values of the parameters, as kept in the attributes."""
    out = {}
    for p in params(type(obj)):
        out[p] = obj.__dict__.get(p, getattr(obj, p, None))
    return out


# --- The reference

TABLE = {}


def table():
    if not TABLE:
        with open(os.path.join(VERIF, 'data', 'sklearn_ids.json')) as f:
            TABLE.update(json.load(f))
    return TABLE


def info(cls):
    return table().get(fqn(cls), [cls.__name__, []])


def render(v):
    """The id of a value, taking care of estimators inside."""
    from whatami.plugins import WhatamiPluginManager as PM
    if isinstance(v, bases()):
        return expected_id(v)
    if type(v) is list:
        return '[%s]' % ','.join([render(x) for x in v])
    if type(v) is tuple:
        return '(%s)' % ','.join([render(x) for x in v])
    if type(v) is dict:
        return '{%s}' % ','.join(sorted(['%s:%s' % (render(k), render(x)) for k, x in v.items()]))
    return PM.build_string(v)


def by_params(obj):
    return hasattr(obj, 'get_params')


def expected_id(obj, nonids=False):
    name, non = info(type(obj))
    if by_params(obj):
        conf = current(obj)
    else:   # these have no protocol: all that is in the object
        conf = {k: v for k, v in vars(obj).items() if not k.startswith('_') and not k.endswith('_')}
    return '%s(%s)' % (name, ','.join(['%s=%s' % (k, render(conf[k])) for k in sorted(conf) if nonids or k not in non]))


# --- Single estimators

def alternatives():
    from sklearn.linear_model import Ridge
    return ['other', 12345, None, (1, 'x'), Ridge(alpha=7, copy_X=False), {'k': [Ridge(copy_X=False)]}]


def distinct_values(p, default):
    """Two different values that constructors accept."""
    import numpy as np
    if p == 'dictionary':
        return [np.eye(2), np.eye(3)]
    if isinstance(default, bool):
        return [True, False]
    if isinstance(default, (int, float)):
        return [default, default + 1] if default != default + 1 and default == default else [1, 2]
    return ['other', 12345]


def check_class(check, name):
    from sklearn.base import clone, BaseEstimator
    from whatami import is_whatable, What, what2id
    cls = {fqn(c): c for c in classes()}[name]
    obj = instance(cls)
    if obj is None:
        check.extra.setdefault('not constructed', set()).add(name)
        return
    nick, non = info(cls)
    check.expect(is_whatable(obj), 'an instance is not whatable', cls=name)
    w = obj.what()
    check.expect(isinstance(w, What) and w.name == nick, 'the name is not the documented one', cls=name, got=w.name, expected=nick)
    before = expected_id(obj)
    base, text = w.id(), str(obj.what())

    def compare(o, what, **details):
        check.count()
        got = o.what().id()
        expected = expected_id(o)
        check.seen(expected)
        check.expect(got == expected, 'the id is not that of the current parameters (%s)' % what, cls=name, got=got, expected=expected, **details)
        got = str(o.what())
        expected = expected_id(o, nonids=True)
        if not any(isinstance(v, bases()) or isinstance(v, (list, tuple, dict)) for v in vars(o).values()):
            check.expect(got == expected, 'str() does not show all the parameters (%s)' % what, cls=name, got=got, expected=expected, **details)
    compare(obj, 'initial')
    check.expect(expected_id(obj) == before and what2id(obj) == base, 'identification changes the object', cls=name)
    check.expect(obj.what().id() == base and obj.what() is not w, 'identification cannot be repeated', cls=name)
    # copies
    copies = [('copy', copy.copy(obj)), ('deepcopy', copy.deepcopy(obj)), ('rebuilt', instance(cls))]
    if isinstance(obj, BaseEstimator):
        try:
            copies += [('clone', clone(obj))]
        except Exception:   # SparseCoder cannot be cloned
            check.extra.setdefault('not cloned', set()).add(name)
        # "fitted" attributes
        fitted = copy.deepcopy(obj)
        fitted.some_coef_, fitted._cache = [1], 'fitted'
        copies += [('fitted', fitted)]
    for how, c in copies:
        compare(c, how)
        check.expect(c.what().id() == base, 'a %s has another id' % how, cls=name, got=c.what().id(), expected=base)
    # changes
    ps = params(cls) if by_params(obj) else [k for k in vars(obj) if not k.startswith('_')]
    alts = alternatives()

    def change(o, p, v):
        if isinstance(o, BaseEstimator):
            return o.set_params(**{p: v})
        setattr(o, p, v)
        return o
    values = current(obj) if by_params(obj) else dict(vars(obj))
    for p in ps:
        ids = {}
        if by_params(obj) and p in params(cls):   # two different values, given to the constructor
            built = [instance(cls, **{p: v}) for v in distinct_values(p, values[p])]
            built = [o.what().id() for o in built if o is not None]
            check.count(len(built))
            if p in non:
                check.expect(len(set(built)) <= 1, 'a parameter that does not change results, given to the constructor, changes the id', cls=name, parameter=p, ids=built)
            elif len(set(built)) != len(built):
                check.fail('a parameter given to the constructor does not change the id', known_key='%s-%s' % (name.split('.')[-1], p), cls=name, parameter=p, ids=built)
        for n, v in enumerate(alts):
            o = copy.deepcopy(obj)
            i0 = o.what().id()
            try:
                change(o, p, v)
            except Exception:   # some have validation
                o = copy.deepcopy(obj)
                setattr(o, p, v)
            compare(o, 'changed', parameter=p, value=repr(v))
            i, t = o.what().id(), str(o.what())
            if p in non:
                check.expect(i == base, 'a parameter that does not change results changes the id', cls=name, parameter=p, value=repr(v), got=i, expected=base)
            elif v is not None or values[p] is not None:
                check.expect(i != base, 'a parameter does not change the id', cls=name, parameter=p, value=repr(v), got=i)
            if v is not None or values[p] is not None:
                check.expect(t != text, 'a parameter does not appear in str()', cls=name, parameter=p, value=repr(v), got=t)
            change_back = copy.deepcopy(o)
            setattr(change_back, p, values[p])
            check.expect(change_back.what().id() == base, 'the id does not use current values', cls=name, parameter=p)
            check.expect(p in non or i not in ids or ids[i] == n, 'two values of a parameter give the same id', cls=name, parameter=p, values=[repr(v), repr(alts[ids.get(i, 0)])])
            ids[i] = n
            # by the constructor
            if n < 2:
                o = instance(cls, **{p: v}) if p in params(cls) else None
                if o is not None:
                    compare(o, 'constructed', parameter=p, value=repr(v))
            # two parameters at once
            if n == 0 or check.thorough and n < 3:
                for q in ps:
                    if q != p:
                        o = copy.deepcopy(obj)
                        setattr(o, p, v)
                        setattr(o, q, alts[1])
                        check.count()
                        check.expect(o.what().id() == expected_id(o), 'the id is not that of the current parameters (two changed)', cls=name, parameters=[p, q])


# --- Composed estimators

def wrappers():
    from sklearn.calibration import CalibratedClassifierCV
    from sklearn.compose import ColumnTransformer, TransformedTargetRegressor
    from sklearn.ensemble import AdaBoostClassifier, BaggingRegressor, VotingClassifier
    from sklearn.feature_selection import RFE, SelectFromModel
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.model_selection import GridSearchCV, RandomizedSearchCV, KFold
    from sklearn.multiclass import OneVsRestClassifier
    from sklearn.multioutput import MultiOutputRegressor, ClassifierChain
    from sklearn.pipeline import Pipeline, FeatureUnion
    from sklearn.preprocessing import StandardScaler
    return [
        ('pipeline', lambda e: Pipeline([('scale', StandardScaler(copy=False)), ('e', e)])),
        ('union', lambda e: FeatureUnion([('e', e), ('s', StandardScaler())], n_jobs=3)),
        ('grid', lambda e: GridSearchCV(e, {'a': [1, 2]}, n_jobs=3)),
        ('grid of estimators', lambda e: GridSearchCV(Pipeline([('x', StandardScaler())]), [{'x': [e, None]}, {'x__a': (1,)}])),
        ('random', lambda e: RandomizedSearchCV(e, {'a': [1, 2]}, cv=KFold(2, shuffle=True), random_state=1)),
        ('cv', lambda e: GridSearchCV(StandardScaler(), {}, cv=e)),
        ('bagging', lambda e: BaggingRegressor(base_estimator=e, n_jobs=3)),
        ('ada', lambda e: AdaBoostClassifier(e)),
        ('voting', lambda e: VotingClassifier([('a', e), ('b', None)], n_jobs=3)),
        ('ovr', lambda e: OneVsRestClassifier(e, n_jobs=3)),
        ('calibrated', lambda e: CalibratedClassifierCV(e)),
        ('columns', lambda e: ColumnTransformer([('a', e, [0]), ('b', 'drop', [1])])),
        ('target', lambda e: TransformedTargetRegressor(regressor=e)),
        ('multi', lambda e: MultiOutputRegressor(e)),
        ('chain', lambda e: ClassifierChain(e)),
        ('rfe', lambda e: RFE(e, verbose=3)),
        ('select', lambda e: SelectFromModel(e)),
        ('kernel', lambda e: GaussianProcessRegressor(kernel=e)),
    ]


def check_composed(check, item):
    from sklearn.base import clone, BaseEstimator
    name, chain = item
    cls = {fqn(c): c for c in classes()}[name]
    inner = instance(cls)
    if inner is None:
        return
    ws = dict(wrappers())

    def compose(e):
        for w in chain:
            e = ws[w](e)
        return e
    try:
        outer = compose(inner)
    except Exception:   # the library refuses this combination
        check.extra['refused compositions'] = check.extra.get('refused compositions', 0) + 1
        return
    base = outer.what().id()
    check.count()
    check.traces += 1
    check.expect(base == expected_id(outer), 'the id of a composed estimator is not that of its parts', cls=name, inside=chain, got=base, expected=expected_id(outer))
    check.expect(inner.what().id() in base, 'the id of a composed estimator does not have the id of its parts', cls=name, inside=chain)
    check.seen(base)
    try:
        c = clone(outer)
    except Exception:   # the constructor of some estimators changes the parameters
        c = copy.deepcopy(outer)
    check.expect(c.what().id() == base, 'a clone of a composed estimator has another id', cls=name, inside=chain)
    non = info(cls)[1]
    ps = params(cls) if by_params(inner) else [k for k in vars(inner) if not k.startswith('_')]
    if len(chain) > 1 and not check.thorough:
        ps = [p for p in ps if p in non][:1] + [p for p in ps if p not in non][:1]
    for p in ps:
        old = getattr(inner, p, None)
        setattr(inner, p, 'changed inside')
        got = outer.what().id()
        check.count()
        if p in non:
            check.expect(got == base, 'a parameter that does not change results changes the id of the outer estimator', cls=name, parameter=p, inside=chain)
        else:
            check.expect(got != base, 'a parameter of a part does not change the id of the outer estimator', cls=name, parameter=p, inside=chain)
        setattr(inner, p, old)
    check.expect(outer.what().id() == base, 'the id of a composed estimator does not use current values', cls=name, inside=chain)


# --- Making scikit-learn whatable: histories, each in its own process

OPS = ['whatamize', 'check', 'own base', 'own subclass', 'own kernel', 'own splitter', 'subclass', 'identify']


def run_history(history):
    """Returns a list of messages."""
    def go():
        from whatami import What, is_whatable
        from whatami.wrappers.what_sklearn import whatamize_sklearn
        from sklearn.base import BaseEstimator
        from sklearn.linear_model import Ridge
        from sklearn.svm import SVC
        from sklearn.gaussian_process.kernels import Kernel, RBF
        from sklearn.model_selection import BaseCrossValidator, KFold
        bad, owned, done, mine = [], {}, False, []

        def own(cls):
            if isinstance(cls.__dict__.get('what'), type(own)) and cls in owned:
                return

            def what(self):
                return What('own_' + cls.__name__, {})
            cls.what = what
            owned[cls] = what
        for op in history:
            if op == 'whatamize':
                whatamize_sklearn()
                done = True
            elif op == 'check':
                if owned.get(BaseEstimator) is None:
                    whatamize_sklearn(check=True)
                    done = True
            elif op == 'own base':
                own(BaseEstimator)
            elif op == 'own subclass':
                own(SVC)
            elif op == 'own kernel':
                own(Kernel)
            elif op == 'own splitter':
                own(BaseCrossValidator)
            elif op == 'subclass':
                class Mine(Ridge):
                    def what(self):
                        return What('mine', {})
                mine.append((Mine, Mine.__dict__['what']))
            elif op == 'identify' and done:
                Ridge().what().id()
            for cls, what in owned.items():
                if cls.__dict__.get('what') is not what:
                    bad.append('the what of %s is replaced' % cls.__name__)
            for cls, what in mine:
                if cls.__dict__.get('what') is not what or cls().what().id() != 'mine()':
                    bad.append('the what of a subclass is replaced')
            if done:
                for base, obj in ((BaseEstimator, Ridge(alpha=2)), (Kernel, RBF()), (BaseCrossValidator, KFold(3)), (SVC, SVC())):
                    o = base if base in owned else BaseEstimator if base is SVC and BaseEstimator in owned else None
                    i = obj.what().id()
                    if i != ('own_%s()' % o.__name__ if o else expected_id(obj)):
                        bad.append('wrong id %s for %s' % (i, base.__name__))
        return bad
    return in_fork(go)


def check_history(check, history):
    check.count()
    check.traces += 1
    check.seen(history)
    for message in run_history(history):
        check.fail('making scikit-learn whatable: ' + message, history=history)


# --- All

def body(check):
    load()
    # Before anything is whatamized in this process
    n = 4 if check.thorough else 3
    few = OPS if check.thorough else [o for o in OPS if o != 'check']
    hs = [h for k in range(1, n + 1) for h in itertools.product(few, repeat=k) if h.count('check') <= 1 and ('whatamize' in h or 'check' in h)]
    hs += [('whatamize', 'check'), ('check', 'whatamize', 'check'), ('own subclass', 'check'), ('check', 'own base', 'whatamize')]
    check.parallel(check_history, hs)
    check.extra['histories'] = len(hs)
    from whatami.wrappers.what_sklearn import whatamize_sklearn
    whatamize_sklearn()
    cs = classes()
    names = [fqn(c) for c in cs]
    supported = sorted(table())
    for name in supported:
        check.expect(name in names, 'a supported class is not there', cls=name)
    nicks = {}
    for c in cs:
        obj = instance(c)
        if obj is not None and fqn(c) in table():
            other = nicks.setdefault(obj.what().name, fqn(c))
            check.count()
            check.expect(other == fqn(c), 'two supported classes share a name', classes=[other, fqn(c)], name=obj.what().name)
    check.parallel(check_class, names)
    ws = [w for w, _ in wrappers()]
    chains = [(w,) for w in ws]
    two = [(w, v) for w in ws for v in ws]
    if not check.thorough:
        sample = [n for n in names if n.rsplit('.')[-1] in ('RandomForestClassifier', 'RBF', 'KFold', 'PCA', 'LinearSVC', 'ClassifierChain', 'RepeatedKFold', 'GridSearchCV')]
        items = [(n, c) for n in names for c in chains] + [(n, c) for n in sample for c in two]
    else:
        items = [(n, c) for n in names for c in chains + two]
    check.parallel(check_composed, items)
    check.extra['classes'] = len(names)
    check.extra['supported classes'] = len(supported)
    check.sample({'class': names[0], 'inside': ['pipeline', 'grid']})
    check.sample({'history': list(hs[-1])})


if __name__ == '__main__':
    import checks.c25 as this
    main('C25', 'exploration', 'all concrete classes of scikit-learn x all parameters x alternative values (and pairs of parameters), alone and inside all the chains of up to two meta-estimators, and all the histories of making the library whatable '
         'up to the bound, each in its own process; ids are compared with those built from the reviewed table; distinct ones are different ids or histories', this.body)
