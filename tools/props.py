#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def p(id, title, statement, over, text, why, files, mech, technique, level, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, level=level, note=note, observe=list(observe)))


TRUST = ' Trusts the reference in /verif/mc and the interpreter; says nothing outside the stated alphabet and bounds.'

p('C01', 'Different configurations never share an id',
  'Two configurations made of names, optional output names, parameter keys and plain values (None, booleans, integers, '
  'floats, strings, non-numeric classes, tuples, lists, dictionaries, sets, frozensets, nested configurations or whatables) '
  'have the same id only when they are the same configuration, where types count: 1, 1.0, True and \'1\' are different '
  'values, and so are (1,), [1], {1} and frozenset({1}). '
  'The only values allowed to share an id are strings that differ just in whether a quote is preceded by an escaping '
  'backslash, and empty sets with parameterless configurations named "set" or "frozenset".',
  ['inputs', 'configurations'],
  'all pairs of configurations over an alphabet of leaf values, keys and names, all container shapes up to size 2 and nesting depth 4, plus long ones',
  'Tests compare a handful of ids with literals; collisions are a property of all pairs of configurations.',
  ['whatami/what.py', 'whatami/plugins.py'],
  [('id assembly', 'whatami/what.py:What.id'), ('value rendering', 'whatami/plugins.py:WhatamiPluginManager.build_string')],
  'exhaustive bounded enumeration of configurations, id collisions detected over all pairs', 'exploration',
  'Every configuration of the bounded universe is built and identified with the real code; all pairs compared through a dictionary.' + TRUST)

p('C02', 'Ids are canonical: order, sharing, process and repetition do not matter',
  'The id of a configuration does not depend on the order in which its parameters, non-id keys, dictionary entries or set '
  'elements were inserted at any nesting level, on whether equal values are shared or separate objects, on the process or '
  'hash seed, nor on which ids were generated before. Generating ids, positional ids, strings, keys or values never modifies '
  'the configuration or the values it holds.',
  ['inputs', 'histories', 'configurations'],
  'all permutations of insertion order of every bounded configuration, all windows of id generations of different configurations, several hash seeds and processes',
  'Tests build each configuration in one order, once, in one process.',
  ['whatami/what.py', 'whatami/plugins.py'],
  [('sorting', 'whatami/what.py:What.id'), ('sorting of dictionaries and sets', 'whatami/plugins.py:dict_plugin,set_plugin')],
  'exhaustive enumeration of insertion orders and of id-generation histories on the real code', 'exploration',
  'All permutations up to 4 elements per level (long collections: all rotations and reversals), de Bruijn histories of id calls, subprocesses with different hash seeds.' + TRUST)

p('C03', 'Parsing an id gives back the configuration',
  'Parsing the id of a configuration made of names, optional output names, parameters and values that are None, booleans, '
  'integers, floats, strings, importable classes, tuples, lists, dictionaries, sets, frozensets or nested configurations gives '
  'an equal configuration with values of the same types, at any nesting level (strings come back with their quotes escaped). '
  'The id of the parsed configuration is again exactly the parsed id, and classes that cannot be imported come back as '
  '{\'class\': name}.',
  ['inputs'],
  'all configurations of a bounded universe (leaf alphabet, containers up to size 2, depth up to 4, output names, names that look like literals, long strings and collections)',
  'Tests sample a few ids; the round trip must hold for every value, and needs serializer, grammar and visitor to agree.',
  ['whatami/parsers.py', 'whatami/what.py', 'whatami/plugins.py'],
  [('grammar', 'whatami/parsers.py:build_whatami_parser'), ('visitor', 'whatami/parsers.py:WhatamiTreeVisitor')],
  'exhaustive bounded enumeration of configurations, round trip against the original description', 'exploration',
  'Every configuration of the bounded universe goes through the real id and the real parser; the result is compared type-aware with the description it was built from.' + TRUST)

p('C04', 'Ids follow one fixed textual format',
  'An id is exactly "name(key=value,...)" with the id parameters sorted by key, preceded by "out=" when there is an output '
  'name; values are rendered as python literals without spaces (one-element tuples without comma, strings in single quotes with unescaped quotes '
  'backslash-escaped, dictionary entries and set elements sorted by their rendering), nested configurations and whatables as their '
  'ids, functions, partials and curried functions as name(known parameters) with lambdas named "lambda", OrderedDict and subclasses of lists, '
  'tuples and sets as Class(seq=...), other objects without a useful str as ClassName() and anything else with str. Builtin functions and '
  'properties are refused with an exception. The positional id is the same text but with only the values, in key order, without keys.',
  ['inputs'],
  'all configurations of a bounded universe of plain values and of every other kind of supported value, alone and nested in each container',
  'Stored ids are compared for equality years later, so the format of every value matters, not just of those tested.',
  ['whatami/what.py', 'whatami/plugins.py'],
  [('id assembly', 'whatami/what.py:What.id,positional_id'), ('plugin chain', 'whatami/plugins.py:WhatamiPluginManager.DEFAULT_PLUGINS')],
  'exhaustive bounded enumeration against an independent reference serializer', 'exploration',
  'Character by character equality with a separate serializer over the bounded universe.' + TRUST)

p('C05', 'Non-id parameters never influence ids',
  'Adding, removing or changing the value of a parameter declared as non-id never changes id() or positional_id(), at any '
  'nesting level, while changing any other parameter does. Non-id parameters of the configuration itself (not of the nested '
  'ones) appear, sorted with the others, in str() and when explicitly asked for in id() and positional_id(); in keys, values and flatten '
  'they appear, at all levels, exactly when asked for. Declaring non-id keys that do not exist has no effect.',
  ['inputs', 'configurations'],
  'all assignments of 3 keys x value alphabet x all subsets of non-id keys, at nesting levels 0, 1 and 2, passed as list, tuple, set or other iterables',
  'Tests check one or two configurations; the guarantee is over every subset of non-id keys and every value.',
  ['whatami/what.py'],
  [('filters', 'whatami/what.py:What.id,positional_id,flatten')],
  'exhaustive enumeration of parameter assignments x non-id subsets, compared with a reference', 'exploration',
  'Complete over the bounded assignments and subsets.' + TRUST)

p('C06', 'Keys address exactly their values',
  'flatten returns keys and values side by side, and looking up each key with [] gives that very value; every id '
  'parameter is listed exactly once, depth first and sorted by key, with nested ones addressed by tuples, members of lists, tuples and '
  'dictionaries only listed when collections are asked for and nothing below the top level when not recursive. '
  'get gives the same value as [] when the key addresses something, also through whatable objects that hold the configuration, and the '
  'default when it does not; [] raises KeyError in exactly that case.',
  ['inputs'],
  'all bounded configurations x all 8 combinations of flags x all key tuples up to length 3 over a probe alphabet, including keys through values that are not configurations',
  'Tests use a couple of configurations; missing keys below scalar values are not exercised.',
  ['whatami/what.py'],
  [('flatten', 'whatami/what.py:What.flatten'), ('lookup', 'whatami/what.py:What.__getitem__,get')],
  'exhaustive enumeration of configurations, flags and keys against a reference traversal', 'exploration',
  'Complete over the bounded universe and probe keys.' + TRUST)

p('C07', 'Length-limited ids are the id or its SHA-1',
  'With maxlength zero or negative, or not smaller than the number of characters of the full id, id() and positional_id() return the '
  'full text; otherwise they return the 40-digit hexadecimal SHA-1 of the full text encoded as utf-8. '
  'This holds combined with output names and non-id keys, and never depends on or alters the ids of nested configurations.',
  ['inputs'],
  'all bounded configurations x every maxlength around the length of the id (and 0, negatives, 1, 40, 255)',
  'Tests check one length; boundaries (equal length, non-ascii text) are not covered.',
  ['whatami/what.py'],
  [('trimming', 'whatami/what.py:What._trim_too_long')],
  'exhaustive enumeration of configurations x boundary lengths', 'exploration',
  'Complete over the bounded universe and lengths.' + TRUST)

p('C08', 'Introspection includes exactly the requested attributes',
  'The configuration inferred from an object (by whatareyou, obj2what, the whatable class decorator and whatable instances alike) is named '
  'like its class and maps exactly the attributes stored in its instance dictionary, set slots, properties and class, each kind when asked for '
  '(class attributes only on request), to their current values, minus the names with the excluded prefix or postfix (None or \'\' to disable) '
  'and the explicitly excluded names. This includes inherited slots and properties, callable objects, and non-id keys are '
  'passed through; containers are kept as "seq".',
  ['inputs', 'configurations'],
  'all class shapes (subsets of attributes of every kind and naming pattern, one or two inheritance levels, some slots unset) x all flag combinations x exclusion settings x ways of asking',
  'Tests and doctests try a few classes with a few of the 2^4 flag combinations.',
  ['whatami/what.py', 'whatami/misc.py', 'whatami/whatutils.py'],
  [('introspection', 'whatami/misc.py:config_dict_for_object'), ('exclusions', 'whatami/misc.py:trim_dict'), ('decorator', 'whatami/what.py:whatable')],
  'exhaustive enumeration of class shapes and flags against a by-construction oracle', 'exploration',
  'Classes are generated so that the expected configuration is known by construction.' + TRUST)

p('C09', 'Asking what() never has side effects',
  'Whatever sequence of what() calls, modifications of the returned configurations and modifications of the objects happens, each what() '
  'returns a fresh configuration that reflects the current state of its own object (or, for functions, its known parameters) and only that. Changing a returned '
  'configuration never affects the object, other configurations or later answers; whatamising an instance affects neither '
  'its class nor other instances, and whatamising a function does not touch the original.',
  ['histories'],
  'all operation sequences up to the depth bound over several whatable objects (decorated classes, instances, functions, partials)',
  'Tests call what() once per object; state shared between calls only shows in sequences.',
  ['whatami/what.py'],
  [('what method creation', 'whatami/what.py:whatable'), ('configuration inference', 'whatami/what.py:whatareyou')],
  'explicit-state search over operation histories replayed on the real objects, against a reference model', 'model_checking',
  'Breadth-first search with states deduplicated on the observable state plus model.' + TRUST)

p('C10', 'Callables are identified by what they would be called with',
  'The configuration of a function, partial, nested partial or toolz curry maps exactly the parameters whose value is known (defaults, overridden by '
  'arguments fixed by position or by keyword, outermost first) to the value that the underlying function receives when it is called with just the missing '
  'arguments; fixing the same argument by position and name, too many positional or unknown keywords is an error (for callable2call, whatable and values). '
  'The same id is obtained from whatareyou, from whatable and when the callable is a value in another configuration, and the whatable function or partial '
  'behaves like the original, which gains no attributes unless in-place modification is asked for. Only whatareyou and obj2what apply their name exclusions here too '
  '(by default names that start or end with an underscore, and "what"); whatable just makes the explicitly excluded names non-id.',
  ['inputs', 'programs'],
  'all function signatures with up to 4 parameters and any number of defaults x all partial applications with up to 3 layers',
  'Tests try a few partials; positional arguments over defaults and deep layering are not covered.',
  ['whatami/misc.py', 'whatami/what.py', 'whatami/plugins.py'],
  [('argument binding', 'whatami/misc.py:callable2call'), ('decorator', 'whatami/what.py:whatable'), ('rendering', 'whatami/plugins.py:partial_plugin,function_plugin')],
  'exhaustive enumeration of signatures and partial applications; the real call is the oracle', 'exploration',
  'The oracle records the arguments actually received by the function.' + TRUST)

p('C11', 'Configurations reflect only their own modifications',
  'After any sequence of copies (shallow or deep), set (in place or copying), direct modification of name, parameters, non-id keys, output name or nested values, '
  'and whatadd, every configuration has exactly the contents that its own modifications imply, and its id, equality and hash follow from those contents. '
  'A shallow copy shares nothing but the values, a deep copy shares nothing at all; whatadd and copying set leave their source intact, and whatadd refuses existing keys.',
  ['histories'],
  'all operation sequences up to the depth bound over up to 3 configurations derived from each other',
  'Tests make single copies; aliasing and stale derived data need sequences of operations.',
  ['whatami/what.py', 'whatami/whatutils.py'],
  [('copy and set', 'whatami/what.py:What.copy,set'), ('whatadd', 'whatami/whatutils.py:whatadd'), ('equality', 'whatami/what.py:What.__eq__')],
  'explicit-state search over operation histories replayed on the real objects, against a reference model', 'model_checking',
  'Breadth-first search, every transition validated on the implementation.' + TRUST)

p('C12', 'Parsing does not depend on what was parsed before',
  'The outcome of parsing an id (the configuration or the error) is the same in every history of previous parses, whether they succeeded, failed because of syntax, failed '
  'while building values, used custom or old-style parsers or custom visitors. Returned configurations are always new: modifying one never '
  'shows in another.',
  ['histories', 'fault_sequences'],
  'all windows of up to 4 consecutive parses over an alphabet of valid, invalid, value-failing, old-style and custom-parser requests, with results modified in between',
  'The parser is a shared stateful global with an error-recovery path; tests parse mostly valid ids, once.',
  ['whatami/parsers.py', 'whatami/whatutils.py'],
  [('shared parser and recovery', 'whatami/parsers.py:parse_whatid'), ('old parser cache', 'whatami/whatutils.py:oldid2what')],
  'exhaustive exploration of parse histories (all windows, de Bruijn) on the real parser, with faults', 'model_checking',
  'Each outcome compared with that in a pristine process; every sequence of the alphabet up to the bound occurs.' + TRUST)

p('C13', 'The parser accepts exactly the id language',
  'A string is accepted if and only if it is a well-formed id: an optional "out=", a name, and in parentheses comma-separated key=value pairs, where values are None, booleans, '
  'numbers, quoted strings, tuples, lists, dictionaries, sets, frozensets, classes or nested ids. Accepted strings get the '
  'meaning their literals have in python; anything else is rejected with the arpeggio NoMatch error, never silently truncated or patched.',
  ['inputs'],
  'all token sequences up to a length bound, all sentences up to a larger bound and all their one-token edits, all short character strings for numbers and quoted strings',
  'Tests parse a few valid strings and a couple of invalid ones.',
  ['whatami/parsers.py'],
  [('grammar', 'whatami/parsers.py:build_whatami_parser'), ('visitor', 'whatami/parsers.py:WhatamiTreeVisitor')],
  'exhaustive enumeration of token sequences, agreement with a reference recognizer', 'exploration',
  'Agreement on acceptance and on value for every sequence within the bound.' + TRUST)

p('C14', 'Blanks between the tokens of an id mean nothing',
  'Inserting spaces, tabs or newlines before or after any token of an id does not change what it parses to, and parsing then regenerating the id removes them. Blanks inside '
  'quoted strings are always part of the value, wherever they are, and are never added, removed or merged.',
  ['inputs'],
  'all subsets of gaps (up to 3 at once) of representative ids covering every token pair of the grammar x kinds of blanks; all short strings over blanks and letters',
  'Tests contain a few ids with a blank after commas.',
  ['whatami/parsers.py'],
  [('whitespace skipping', 'whatami/parsers.py:build_whatami_parser')],
  'exhaustive enumeration of blank insertions over covering ids', 'exploration',
  'Complete over the chosen ids and gaps.' + TRUST)

p('C15', 'The plugin chain behaves as an ordered list of unique plugins',
  'After any sequence of insert (anywhere), drop and reset, plugins() is exactly the list those operations imply, failed operations raise ValueError and change nothing, reset '
  'restores the original chain and previously returned plugin lists never change. A value is always rendered by the first plugin in the current '
  'chain that does not return None, at every nesting level of an id.',
  ['histories'],
  'all sequences of plugin operations up to the depth bound with custom plugins that overlap in the values they handle',
  'Doctests follow one linear scenario.',
  ['whatami/plugins.py'],
  [('chain', 'whatami/plugins.py:WhatamiPluginManager')],
  'explicit-state search over plugin-management histories on the real manager, against a list model', 'model_checking',
  'All reachable chains within the depth bound; each transition runs on the implementation.' + TRUST)

p('C16', 'Nicknames and ids stay one-to-one',
  'After any sequence of register, remove and reset on a registry, the mapping from nicknames to ids and from ids to nicknames are inverse of each other and contain exactly the pairs '
  'registered and not removed since; registering a pair that would break this, or removing with a nickname and a configuration that do not match, raises and changes nothing. Lookups (by nickname, by id, '
  'nick_or_id, sorted list) agree with those pairs. Configurations, whatables and id strings can be used alike to register, remove and look up nick_or_id. Registries are independent of each other.',
  ['histories'],
  'all operation sequences up to the depth bound over 3 nicknames, 3 configurations given in several forms and 2 registries, until the state space is exhausted',
  'Tests follow one scenario; half-updated maps need failing operations in the right state.',
  ['whatami/registry.py'],
  [('two maps', 'whatami/registry.py:WhatamiRegistry')],
  'explicit-state search of the registry state machine on the real code, against a bijection model', 'model_checking',
  'The reachable state space for the alphabet is explored completely.' + TRUST)

p('C17', 'Recorders add records all or nothing, once, in order',
  'A successful add inserts exactly one record per id, after the existing ones and in the given order, with the id column, the given columns, the column defaults in force for missing columns, and '
  'all postprocessors in force applied in order; an add that fails for any reason (duplicated id, id column clash, failing postprocessor) inserts nothing. Existing records, defaults and postprocessors change only through '
  'their own operations: each recorder is independent of others and of the collections it was given, and len, get, [], unique and to_df agree with the records.',
  ['histories', 'fault_sequences'],
  'all operation sequences up to the depth bound over adds (single, multiple, clashing, failing at the first or second record), default and postprocessor changes on two recorders built from shared arguments',
  'Doctests follow one scenario; atomicity needs failures at every point of a multi-record add.',
  ['whatami/registry.py'],
  [('add', 'whatami/registry.py:Recorder.add'), ('defaults and postprocessors', 'whatami/registry.py:Recorder')],
  'explicit-state search over recorder histories with injected failures, against a reference model', 'model_checking',
  'Every transition replayed on the implementation.' + TRUST)

p('C18', 'Column values are distributed to records as documented',
  'When several ids are added at once, iterable column values are distributed in order (missing ones are None, extra ones are ignored), strings and other values are repeated for every record, dictionaries give values only to the '
  'ids they contain, and with unboxing disabled iterables are given whole to every record. Fixing arguments first through currying or padd, in any '
  'grouping and order, gives exactly the same records as a direct call, later values win, the default of a column is used just for the records that are given no value for it, and the partially applied adds remain reusable and independent of each other.',
  ['inputs', 'programs'],
  'all combinations of id lists, kinds of column values, unboxing flag, and all ways of splitting the arguments into curry or partial steps',
  'Doctests show one example of each kind, with string ids only.',
  ['whatami/registry.py', 'whatami/misc.py'],
  [('distribution', 'whatami/registry.py:Recorder._params2dict'), ('currying', 'whatami/registry.py:_RecorderMeta'), ('padd', 'whatami/registry.py:Recorder.padd')],
  'exhaustive enumeration of add calls and their curried splittings against a reference', 'exploration',
  'Complete over the bounded alphabet of calls.' + TRUST)

p('C19', 'Matching selects exactly the ids that agree with the template',
  'match_whatids returns, in order and with repetitions, exactly the ids whose configuration has the same name, exactly the same keys (those of nested configurations, and of collections when asked for, included) and the same values as the '
  'template, but for the values of the ignored keys and of everything below them. The names (and outputs) of nested configurations are values too. Only the top level keys count when not recursive. The inputs are not modified.',
  ['inputs'],
  'all pairs (template, id) over a bounded universe of nested ids x all subsets of up to 2 ignored keys (including nested and absent ones) x flags',
  'A doctest with six ids; the guarantee is over all pairs and ignored keys.',
  ['whatami/whatutils.py'],
  [('matching', 'whatami/whatutils.py:match_whatids')],
  'exhaustive enumeration of template/id pairs and ignored keys against a reference matcher', 'exploration',
  'Complete over the bounded universe.' + TRUST)

p('C20', 'Sorting by parameters is a stable, aligned permutation',
  'sort_whats and sort_whatids return all the given configurations (or ids), each as many times as given, ordered by the values of the requested parameters, keeping the original order among equal values, '
  'together with the tuples of values aligned with them. Keys can be nested, values can be of any mutually comparable type and the inputs are not modified.',
  ['inputs'],
  'all sequences up to length 5 over an alphabet of configurations with ties x key choices',
  'Doctests sort one reversed list without ties.',
  ['whatami/whatutils.py'],
  [('sorting', 'whatami/whatutils.py:sort_whats,sort_whatids'), ('values', 'whatami/whatutils.py:whatvalues')],
  'exhaustive enumeration of input sequences against a reference sort', 'exploration',
  'Complete over the bounded sequences.' + TRUST)

p('C21', 'Columns extracted from ids hold each row\'s own values',
  'whatid2columns adds one column per requested key (or per key present in any id when none is requested, nested keys joined with "_"), surrounded by prefix and postfix, where each row holds the value that key '
  'has in that row\'s id, or None if it has none. All other columns, the order of rows and the index are unchanged; with inplace=False the given dataframe is unchanged, otherwise it is the one returned.',
  ['inputs'],
  'all dataframes with up to 3 rows over an alphabet of heterogeneous ids (repeated rows, custom index) x column requests x affixes x inplace',
  'Tests use homogeneous ids.',
  ['whatami/whatutils.py'],
  [('extraction', 'whatami/whatutils.py:whatid2columns')],
  'exhaustive enumeration of small dataframes against a reference', 'exploration',
  'Complete over the bounded dataframes.' + TRUST)

p('C22', 'Dictionaries of configurations are complete and plain',
  'id2dict and to_dict turn an id (for to_dict with non-id keys only when asked for) into a dictionary with the name, the output name and the parameters, where configurations nested at any depth, also inside lists, tuples and '
  'dictionaries, are converted likewise, and all other values are kept as parsed. When the values are JSON compatible the result can be '
  'serialised as JSON and loses no information: different ids give different dictionaries (but for dictionaries that already look like a converted configuration).',
  ['inputs'],
  'all bounded configurations with nested configurations in every kind of container position',
  'Tests convert one or two ids.',
  ['whatami/whatutils.py', 'whatami/what.py'],
  [('conversion', 'whatami/whatutils.py:id2dict')],
  'exhaustive bounded enumeration against a reference conversion', 'exploration',
  'Complete over the bounded universe.' + TRUST)

p('C23', 'Old-style ids convert to the equivalent new ids',
  'An old-style id ("name#key=value#...", optionally quoted as a whole or nested, optionally preceded by "out=value#") parses to the configuration with the same name, parameters and values, the output going to the parameter "out", '
  'and an ambiguous output is an error. id2whatami4 gives the new-style id of that configuration and returns strings that are not old-style ids untouched.',
  ['inputs'],
  'all bounded configurations rendered in the old style (values, nesting, quoting, blanks, output), and all new-style ids and short words as non-old-style strings',
  'Doctests convert three ids; the old grammar is a copy of the new one that can diverge.',
  ['whatami/parsers.py', 'whatami/whatutils.py'],
  [('old grammar', 'whatami/parsers.py:build_oldwhatami_parser'), ('conversion', 'whatami/whatutils.py:oldid2what,id2whatami4')],
  'exhaustive bounded enumeration of old-style renderings against the description', 'exploration',
  'Complete over the bounded universe.' + TRUST)

p('C24', 'Ids of arrays, dataframes and RNGs follow their content',
  'Numpy arrays of the same class, dtype, shape, memory layout and contents and dataframes or series built alike have the same id, in any process; arrays that differ in any element, in dtype, shape or class, and dataframes or series that differ in values, dtypes, '
  'column names or index, have different ids. Arrays of objects holding sets or dictionaries do not depend on insertion order. Two RandomState have the same id if and only if they are in the same state, whatever the operations that took them there, and '
  'identifying them does not advance or alter them. All these ids are themselves ids of configurations, named like the class and with the hash or state.',
  ['inputs', 'histories'],
  'all small arrays over dtypes x shapes x values, all one-element changes, all insertion orders of object elements, all RNG operation sequences up to the depth bound',
  'Tests compare a few arrays with recorded hashes, several of which fail on this platform.',
  ['whatami/plugins.py', 'whatami/minijoblib/hashing.py'],
  [('hashing', 'whatami/minijoblib/hashing.py:hasher'), ('plugins', 'whatami/plugins.py:numpy_plugin,pandas_plugin,rng_plugin')],
  'exhaustive enumeration of small arrays and of RNG operation histories', 'exploration',
  'All pairs within the bounded universe compared through a dictionary.' + TRUST)

p('C25', 'Estimator ids change exactly with the parameters that change results',
  'For every supported scikit-learn class, changing a parameter changes the id unless it is one of those declared not to affect results for that class (such as n_jobs or verbose), which never change it but appear in str(). '
  'The id has the documented short name (or the class name), uses the current parameter values also inside composed estimators and cross-validators, is the same for clones, and no two supported classes share a name. '
  'Making scikit-learn whatable can be repeated and never replaces existing what methods.',
  ['inputs', 'configurations'],
  'every supported class x every parameter x alternative values, nested in pipelines, unions, searches and other meta-estimators',
  'Tests check a few estimators with literal ids.',
  ['whatami/wrappers/what_sklearn.py'],
  [('declarations', 'whatami/wrappers/what_sklearn.py:_declare0dot19dot1'), ('what for sklearn', 'whatami/wrappers/what_sklearn.py:_what_for_sklearn')],
  'exhaustive enumeration of classes x parameters against a reviewed table of non-id parameters', 'exploration',
  'The table of names and non-id parameters per class lives in /verif and was reviewed against the library.' + TRUST)

p('C26', 'Missing optional libraries change nothing but their own support',
  'Whatever subset of the optional libraries (numpy, pandas, scikit-learn) cannot be imported, whatami can be imported, has_numpy and has_pandas tell the truth, and ids, parsing, whatables, registries and '
  'recorders give exactly the same results for values that do not belong to the missing libraries. Using a feature that needs a missing library raises ImportError, with the installation hint if the library is numpy or pandas.',
  ['configurations', 'fault_sequences'],
  'all subsets of optional libraries made unavailable x all bounded values and operations',
  'Tests run with everything installed.',
  ['whatami/plugins.py', 'whatami/misc.py', 'whatami/minijoblib/hashing.py'],
  [('lazy imports', 'whatami/misc.py:maybe_import'), ('guards', 'whatami/plugins.py:has_numpy,has_pandas')],
  'enumeration of all subsets of failing imports, differential against the full installation', 'fault_enumeration',
  'All subsets; differential over the bounded universe of plain values.' + TRUST)

p('C27', 'Call capture records exactly the chosen call',
  'call2what gives the name of the function at the requested depth and a snapshot of all its local variables at that moment, unaffected by later changes, with the requested non-id keys. call_dict gives exactly the parameters of the call at the requested depth with '
  'their current values, keyword extras included, ignored parameters removed and overrides applied in the documented precedence; variadic arguments raise ValueError unless ignored.',
  ['inputs', 'programs'],
  'all function signatures from a bounded set x all ways of calling them x depths 1 to 3 x later modifications x ignores and overrides',
  'Doctests show one call each.',
  ['whatami/whatutils.py', 'whatami/misc.py'],
  [('call2what', 'whatami/whatutils.py:call2what'), ('call_dict', 'whatami/misc.py:call_dict')],
  'exhaustive enumeration of signatures, calls and depths against the by-construction oracle', 'exploration',
  'Complete over the bounded programs.' + TRUST)

p('C28', 'Lazy imports prefer the first available variant and fail late',
  'maybe_import returns the first variant that can be imported (the library itself, which is not tried otherwise, when there are no variants) and never raises ImportError itself; if none can be imported, using any attribute of what it returned raises ImportError naming the attribute, the library, every failed variant and the '
  'installation hint ("pip install" or "conda install" the first variant, or the text given). maybe_import_member returns the member (also from variants), and when the module cannot be imported raises that ImportError or returns None as requested. Each call reflects what can be imported at that moment.',
  ['configurations', 'fault_sequences'],
  'all availability assignments of up to 3 variants x hints x attributes x member lookups, and all histories of availability changes',
  'Tests try one missing module.',
  ['whatami/misc.py'],
  [('lazy import', 'whatami/misc.py:_LazyImportError,maybe_import,maybe_import_member')],
  'enumeration of all assignments of import failures and histories of them', 'fault_enumeration',
  'Complete over the bounded assignments.' + TRUST)

p('C29', 'Metaclass decoration applies to every definition, once, in order',
  'In every class created, directly or by inheritance, with a metaclass made by decorate_some, each definition of a named member is decorated by exactly its decorators, each once and in the given order, whether a single decorator or a collection was given; '
  'members that are not named, and inherited members not redefined, are left exactly as they are, and so are the dictionaries used to create classes. Recorder subclasses get a curried add that waits for all its required parameters, and whose required positional "ids" is enforced when the class is defined: '
  'ensure_has_positional_args returns the function itself if it has the required positional arguments and raises an exception naming the missing ones otherwise.',
  ['programs'],
  'all class hierarchies of up to 4 classes over subsets of redefined members x decorator collections; all signatures; all recorder subclasses and orders of giving arguments',
  'A doctest shows one hierarchy.',
  ['whatami/misc.py', 'whatami/registry.py'],
  [('metaclass', 'whatami/misc.py:decorate_some'), ('signature check', 'whatami/misc.py:ensure_has_positional_args')],
  'exhaustive enumeration of class hierarchies and decorator assignments', 'exploration',
  'Complete over the bounded hierarchies.' + TRUST)

p('C30', 'Identification dispatch honours existing identities',
  'what2id gives None for None, the string itself for strings, the id of what() for whatables, the result of id() for other objects with an id method, and the inferred id otherwise (also when the attributes what or id are not methods); obj2what prefers an existing what() unless inspection is forced, and so do values in configurations. '
  'is_whatable is true exactly for objects whose what() can be called and returns a configuration, and for classes made whatable, and never raises; whatamize_object assigns the function unless there is one already and it is not forced, and import failures raise or are ignored as requested; '
  'whatable refuses builtins, and objects with a foreign what unless told to adopt it (which keeps it), and leaves refused objects and other objects untouched.',
  ['inputs', 'configurations', 'histories'],
  'all combinations of kinds of objects (ways of having a what and an id, broken ones, classes, instances, callables) x options; all histories of whatable and whatamize_object on a class, a subclass and instances',
  'Tests cover the main branches with one object each.',
  ['whatami/whatutils.py', 'whatami/what.py'],
  [('dispatch', 'whatami/whatutils.py:what2id,obj2what,whatamize_object'), ('detection', 'whatami/what.py:is_whatable,whatable')],
  'explicit-state search over histories on real classes against a model; exhaustive enumeration of kinds of objects and options against a decision table', 'model_checking',
  'Complete over the bounded kinds; the state space of histories is explored to its fixpoint (quick tier: depth 3).' + TRUST)

p('C31', 'Importing submodules gives exactly what can be imported',
  'import_submodules, given the name of a package or the package itself, returns exactly the modules of the package that can be imported (all the levels, or just the first one if not recursive), mapped by full name, whatever the errors that the others raise when ignoring errors '
  '(nothing if the package itself cannot be imported). If errors are not ignored, the error of a module of the package, at any level, is raised. Modules out of the package are never imported, even when they are named like its subpackages.',
  ['configurations', 'fault_sequences'],
  'all package trees up to 3 levels over an alphabet of working and failing modules and clashing names x options',
  'Tests import one package without failing modules.',
  ['whatami/misc.py'],
  [('walk', 'whatami/misc.py:import_submodules')],
  'enumeration of all small package trees and import failures, on disk', 'fault_enumeration',
  'Complete over the bounded trees.' + TRUST)

p('C32', 'Interruptions and other threads never spoil parsing',
  'Parsing (new-style or old-style ids, and the functions built on parsing such as id2dict, id2whatami4 or match_whatids) gives in each thread exactly what it gives alone, result or error, however the execution of several threads interleaves, without deadlocks and also when parsers are created at first use. '
  'An exception raised asynchronously in the middle of parsing (KeyboardInterrupt, a timeout) never affects later results.',
  ['schedules', 'crash_points'],
  'all interleavings of two threads over pairs of operations with one preemption at any line and two at any call; all interruption points (lines) of each operation',
  'Tests parse in one thread and are never interrupted.',
  ['whatami/parsers.py', 'whatami/whatutils.py'],
  [('shared parser', 'whatami/parsers.py:parse_whatid'), ('old parser cache', 'whatami/whatutils.py:oldid2what')],
  'preemption-bounded stateless exploration of thread schedules and crash points on the real code under a controlled scheduler', 'model_checking',
  'Exhaustive up to the preemption bound at line or call granularity; preemptions inside single lines (bytecodes) are not explored.' + TRUST)

p('C33', 'Introspection helpers describe exactly what they are given',
  'required_args gives the positional parameters without default in order; init_argspec describes the constructor, own or inherited, of a class or instance, its required parameters without self; fqn is the module and qualified name of classes, functions and methods (or of the class of the object if asked for), '
  'and top level names can be imported back from it; all_subclasses gives all the direct and indirect subclasses and nothing else; mlexp_info_helper describes each given setup with its id, under the documented keys in order, with the source, host and dates.',
  ['inputs', 'programs'],
  'all signatures up to 3 positional parameters, all hierarchies of up to 4 classes, all nestings of definitions, all combinations of descriptions',
  'Tests check one class or function.',
  ['whatami/misc.py'],
  [('introspection', 'whatami/misc.py:required_args,init_argspec,fqn,all_subclasses'), ('experiments', 'whatami/misc.py:mlexp_info_helper')],
  'exhaustive enumeration of signatures, hierarchies and descriptions against by-construction oracles', 'exploration',
  'Complete over the bounded programs.' + TRUST)

p('C34', 'Interruptions and other threads never spoil identification',
  'Generating ids, positional ids, strings, keys, values or dictionaries, inferring configurations (of objects, classes, functions, partials, arrays, random number generators), asking what(), copying, sorting and matching give in each thread exactly what they give alone, '
  'however the execution of several threads interleaves and also when they share the objects, and never leave the objects or the plugin chain modified, not even when an exception is raised asynchronously (KeyboardInterrupt, a timeout) in the middle of them, which never affects later results either. '
  'Adding records to a recorder, changing its defaults or postprocessors, inserting, dropping or resetting plugins, setting a parameter and making an object whatable either happen completely or not at all when they are interrupted, and can be done again.',
  ['schedules', 'crash points'],
  'each of 44 operations interrupted at each line, each of 17 modifications interrupted at each line, and all schedules with one preemption of pairs of operations (two for short operations), also at their first use in a process',
  'Tests run one thread and never interrupt anything; races need a switch in a specific line.',
  ['whatami/what.py', 'whatami/plugins.py', 'whatami/misc.py', 'whatami/registry.py', 'whatami/minijoblib/hashing.py'],
  [('ids', 'whatami/what.py:What.id'), ('plugin chain', 'whatami/plugins.py:WhatamiPluginManager'), ('commit of records', 'whatami/registry.py:Recorder.add'), ('inference', 'whatami/misc.py:config_dict_for_object'), ('hashing', 'whatami/minijoblib/hashing.py:hasher')],
  'preemption-bounded exploration of the interleavings of the real code under a controlled scheduler, and exhaustive crash points', 'model_checking',
  'Exhaustive up to the preemption bound at line or call granularity (quick: lines only for the shorter operations); switches inside single lines (bytecodes) are not explored. Nickname registries are not part of it: their two mappings are updated by two statements.' + TRUST)

p('C35', 'Copies and pickles keep ids, and are independent',
  'Configurations (with any values that can be copied or pickled themselves), whatable functions and classes and their instances, recorders (also partially applied adds) and nickname registries can be copied with copy.copy and copy.deepcopy and pickled with protocols 2 and up, '
  'also several times and at any point of their history. What comes back is of the same type, equal to the original where that makes sense, and has the same id, string, keys, values, non-id keys, output name, hash, records, column defaults, postprocessors or nicknames; from there on it behaves as the original would. '
  'Copying does not change the original, and after a deep copy or a pickle nothing that is done to one side affects the other, while what was shared inside is still shared inside.',
  ['inputs', 'histories'],
  'all bounded configurations x all ways of copying and pickling (and pairs of them), everything modified afterwards on either side; all histories of operations on recorders and registries copied at each of their points',
  'Tests never pickle or deep copy anything.',
  ['whatami/what.py', 'whatami/registry.py', 'whatami/whatutils.py'],
  [('configuration', 'whatami/what.py:What'), ('whatable', 'whatami/what.py:whatable'), ('recorder', 'whatami/registry.py:Recorder'), ('nicknames', 'whatami/registry.py:WhatamiRegistry'), ('function-like', 'whatami/whatutils.py:FunctionLike')],
  'exhaustive bounded enumeration of configurations and histories x transports, against the same without transport', 'exploration',
  'Complete over the bounded universe and histories; two recorded findings about instances made whatable one by one.' + TRUST)

p('C36', 'Making things whatable composes with inheritance and changes nothing else',
  'After any sequence of making classes and instances whatable (with whatable, its options, a function of our own or force_flag_as_whatami, or with whatamize_object), defining or deleting what() methods over a hierarchy of classes, each instance, also of classes defined later, '
  'answers what() as the closest of itself and its classes in resolution order says, with the options of that one and the name and attributes of the instance. whatable returns the very thing it was given, replaces methods that are usable (for classes: ours or flagged as ours) only in that thing, '
  'refuses those that are not with an exception unless forced to flag them, and whatamize_object replaces existing ones only when forced. is_whatable tells the truth about all of them. Nothing else of the classes and instances changes: attributes, construction, methods, bases, metadata, and the other classes and instances.',
  ['histories'],
  'all histories up to the depth bound of 10 kinds of operations on 5 classes (single and multiple inheritance, a mixin, slots) and 4 instances of them, checked on the instances made before and after and on classes defined later',
  'Tests whatamise a class or an instance once or twice; what matters is how it interacts with the other classes of the hierarchy and with previous what methods.',
  ['whatami/what.py', 'whatami/whatutils.py'],
  [('whatable', 'whatami/what.py:whatable'), ('is_whatable', 'whatami/what.py:is_whatable'), ('whatamize_object', 'whatami/whatutils.py:whatamize_object')],
  'explicit-state exploration of histories against a model of inheritance, replayed on the real classes', 'model_checking',
  'Exhaustive over histories up to the depth bound.' + TRUST)

NA = [
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for q in PROPS:
            f.write(json.dumps(dict(
                id=q['id'], title=q['title'], statement=q['statement'],
                quantifier=dict(over=q['over'], text=q['text']),
                why_tests_cant=q['why'],
                anchors=dict(files=q['files'], mechanism=[dict(name=n, where=w) for n, w in q['mech']],
                             observe_at=q['observe'] or ['public API of ' + x for x in q['files']], hook_needed=None)),
                ensure_ascii=False) + '\n')
    checks, na = [], list(NA)
    for q in PROPS:
        if os.path.exists(os.path.join(HERE, 'checks', q['id'].lower() + '.py')):
            checks.append(dict(property=q['id'],
                               quick_cmd='bash run.sh %s quick' % q['id'],
                               thorough_cmd='bash run.sh %s thorough' % q['id'],
                               evidence_file='evidence/%s.json' % q['id'],
                               technique='model checking: ' + q['technique'],
                               level=q['level'], level_note=q['note']))
        else:
            na.append(dict(property=q['id'], reason='Model checking applies (see DESIGN.md) but the check is not built yet.'))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
                       notes='No hooks in /repo: all checks drive the public API of the working tree of /repo in the '
                             'PyPy interpreter of /opt/venv. properties.jsonl and this file are generated by tools/props.py. '
                             'Known findings and fixed defects: known_findings.txt.'), f, indent=1)
        f.write('\n')
    for q in PROPS:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))


if __name__ == '__main__':
    main()
