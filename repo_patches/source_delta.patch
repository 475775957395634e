From 2b637a24c94dc0f26f28c35e34e04e0c9423e662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 01/53] fix: keep leading whitespace of quoted strings when
 parsing ids

The parser skips whitespace before each token, and the string content was a
token of its own, so "f(x='  a')" was parsed as if it were "f(x='a')".
---
 whatami/parsers.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 7cd8852..524a90d 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -49,7 +49,8 @@ def build_whatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # N.B. a single token: whitespace inside the quotes is content, must not be skipped
+        return RegExMatch(r"'(\\[\s\S]|[^'\\])*'")
 
     def a_true():
         return StrMatch('True')
@@ -151,12 +152,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
             return float(node.value)
 
     @staticmethod
-    def visit_a_string(_, children):
-        if 1 == len(children):
-            return children[0]
-        elif 0 == len(children):
-            return ''
-        raise ValueError('unexpected string children: %r' % children)  # pragma: no cover
+    def visit_a_string(node, _):
+        return node.value[1:-1]  # remove the quotes
 
     @staticmethod
     def visit_a_true(*_):
@@ -343,7 +340,8 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # N.B. a single token: whitespace inside the quotes is content, must not be skipped
+        return RegExMatch(r"'(\\[\s\S]|[^'\\])*'")
 
     def a_true():
         return StrMatch('True')
-- 
2.43.0


From ae52b392c8037d06fa89438e32a4e957230d40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 02/53] fix: parse frozensets back as frozensets

---
 whatami/parsers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 524a90d..3ac0bd3 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -214,12 +214,13 @@ class WhatamiTreeVisitor(PTNodeVisitor):
         return dict(list(children[0]))
 
     @staticmethod
-    def visit_an_empty_set(*_):
-        return set()
+    def visit_an_empty_set(node, _):
+        return frozenset() if node.value.startswith('frozenset') else set()
 
     @staticmethod
-    def visit_a_non_empty_set(_, children):
-        return set(list(children[0]))
+    def visit_a_non_empty_set(node, children):
+        set_type = frozenset if node.value.startswith('frozenset') else set
+        return set_type(children[0])
 
     # Key-values
 
-- 
2.43.0


From 7614d39e9c876331c2b0c7b08ce7b82339c85034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 03/53] fix: parse ids with an output name and no parameters
 ("out=f()")

---
 whatami/parsers.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 3ac0bd3..7f0c3bc 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -5,6 +5,8 @@
 # Licence: BSD 3 clause
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
+# noinspection PyProtectedMember
+from future.utils import string_types
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
 from whatami import maybe_import
 
@@ -241,16 +243,11 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     @staticmethod
     def visit_whatami_id(_, children):
         from whatami import What
-        # lengths can be 1, 2 or 3
-        if 3 == len(children):
-            out_name, an_id, kvs = children
-        elif 2 == len(children):
-            an_id, kvs = children
-            out_name = None
-        else:
-            an_id = children[0]
-            kvs = []
-            out_name = None
+        # lengths can be 1, 2 or 3, both the output name and the parameters are optional
+        children = list(children)
+        kvs = children.pop() if not isinstance(children[-1], string_types) else []
+        an_id = children.pop()
+        out_name = children.pop() if children else None
         return What(an_id, dict(list(kvs)), out_name=out_name)
 
     @staticmethod
-- 
2.43.0


From 173040a2f881db62f798e9a3f7ca663ccf7e949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 04/53] fix: parse builtin classes back ("<class 'str'>")

---
 whatami/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 7f0c3bc..18d4b7a 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -7,6 +7,7 @@
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
 # noinspection PyProtectedMember
 from future.utils import string_types
+from future.moves import builtins
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
 from whatami import maybe_import
 
@@ -182,7 +183,7 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     def visit_a_class(_, children):
         module, _, clazz = children[0].rpartition('.')
         try:
-            return getattr(maybe_import(module), clazz)
+            return getattr(maybe_import(module or builtins.__name__), clazz)
         except (ImportError, AttributeError):
             # Unfortunately it breaks roundtripping, but is a lesser evil
             return {'class': children[0]}
-- 
2.43.0


From 833ea3acc392aafec86cd75dd23d2085c267da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 05/53] fix: parse nested ids whose name starts like a literal
 ("f(x=nanmean())")

Literals were tried first and "nan", "inf", "None", "True" or "False" matched
the beginning of the name of a nested configuration.
---
 whatami/parsers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 18d4b7a..250cc81 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -105,7 +105,9 @@ def build_whatami_parser(reduce_tree=False, debug=False):
     # Key-values
 
     def value():
-        return [a_none, a_bool, a_number, a_string, a_tuple, a_list, a_set, a_dict, a_class, whatami_id]
+        # N.B. order matters: names can start like None, booleans or numbers (e.g. "nanmean()"),
+        #      but "set()" and "frozenset()" are always the empty collections
+        return [a_set, whatami_id, a_none, a_bool, a_number, a_string, a_tuple, a_list, a_dict, a_class]
 
     def kv():
         return an_id, StrMatch('='), value
-- 
2.43.0


From 405fa0067bced95f76aad448e0fbbe8553cb1cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 06/53] fix: make What objects hashable again in python 3

What defines __eq__, so in python 3 they were not hashable and ids of sets of
whatables, or dictionaries with whatable keys, could not be parsed back.
---
 whatami/what.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 0f85db4..b4b90d0 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -202,6 +202,10 @@ class What(object):
                 hasattr(other, 'conf') and self.conf == other.conf and
                 hasattr(other, 'out_name') and self.out_name == other.out_name)
 
+    def __hash__(self):
+        # N.B. conf values can be unhashable
+        return hash((self.name, self.out_name))
+
     def __str__(self):
         """The default representation is the configuration string including non_ids keys."""
         return self.id(nonids_too=True)
-- 
2.43.0


From 3d83e013ca7ac6e4b9df627a5b5c7a62859505f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 07/53] fix: escape quotes that are preceded by escaped
 backslashes in string ids

---
 whatami/plugins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index f20fd10..dc26c37 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -7,6 +7,7 @@ from __future__ import print_function, absolute_import
 from future.utils import string_types, PY2
 
 import inspect
+import re
 from collections import OrderedDict
 from functools import partial
 
@@ -129,7 +130,7 @@ def string_plugin(v):
     This is a single-quoted string with single-quoted characters escaped.
     """
     if isinstance(v, string_types):
-        return '\'%s\'' % v.replace("\\'", "'").replace("'", "\\'")
+        return '\'%s\'' % re.sub(r"(\\.)|'", lambda m: m.group(1) or "\\'", v, flags=re.DOTALL)
         # This is correct because of these relations:
         # "'" == "\'"
         # "\\'" == "\\\'"
-- 
2.43.0


From 74f4eb6b68d7d2cc9e5884516e1665b8d83eca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 08/53] fix: allow whatable classes as configuration values

---
 whatami/plugins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index dc26c37..b142572 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -36,7 +36,7 @@ def whatable_plugin(v):
 
     This should be second in the plugin chain to allow free specialisation of the what method.
     """
-    if is_whatable(v):
+    if is_whatable(v) and not inspect.isclass(v):
         what = v.what
         what = what() if callable(what) else what
         return what_plugin(what)
-- 
2.43.0


From 856e938938ba8ffbf8291adc0521d8accf92c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 09/53] fix: do not share the configuration between calls to
 what() in whatable functions

---
 whatami/what.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index b4b90d0..6bf24a8 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -519,7 +519,10 @@ def whatable(obj=None,
         # Adds what method
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
-            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=excludes)
+
+            def what():
+                return What(name=name, conf=config_dict.copy(), non_id_keys=excludes)
+            whatablefunc.what = what
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From a3b458a7695227348c270de417b00f2635e84e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 10/53] fix: honor non_id_keys when whatamising functions

---
 whatami/what.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 6bf24a8..4666658 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -519,9 +519,10 @@ def whatable(obj=None,
         # Adds what method
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
+            non_ids = set(excludes).union(non_id_keys or ())
 
             def what():
-                return What(name=name, conf=config_dict.copy(), non_id_keys=excludes)
+                return What(name=name, conf=config_dict.copy(), non_id_keys=non_ids)
             whatablefunc.what = what
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
-- 
2.43.0


From 71e2c5a108aedfb07ff9afe777712ac2baff74b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 11/53] fix: call2what takes a snapshot of the locals of the
 caller

---
 whatami/whatutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 8f41fff..a5c0641 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -229,7 +229,7 @@ def call2what(depth=1, non_id_keys=None):
     frame, _, _, name, _, _ = inspect.stack()[depth]
     # we could probably be (too) clever here and get only the function parameter values
     # also we could add a parameter to automatically grab only keywords... for next iteration
-    conf_dict = frame.f_locals
+    conf_dict = dict(frame.f_locals)  # a copy, locals can change after this call
     return What(name, conf=conf_dict, non_id_keys=non_id_keys)
 
 
-- 
2.43.0


From 3b4af5e802239de2cf6cee34057d3d3b0da87803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 12/53] fix: do not repeat the values of nested configurations
 in positional ids

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 4666658..3b24c23 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -286,7 +286,7 @@ class What(object):
         """
         from whatami.plugins import WhatamiPluginManager
         my_id = '%s(%s)' % (self.name, ','.join(map(WhatamiPluginManager.build_string,
-                                                    self.values(non_ids_too=non_ids_too))))
+                                                    self.values(non_ids_too=non_ids_too, recursive=False))))
         if self.out_name is not None:
             my_id = '%s=%s' % (self.out_name, my_id)
         return self._trim_too_long(my_id, maxlength=maxlength)
-- 
2.43.0


From 1114a4a7844464080f3998e58d08690d5fbacf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 13/53] fix: What raises KeyError when a recursive key does not
 address any value

It used to leak AttributeError, IndexError or TypeError, which in turn made
`What.get` and `whatid2columns` fail with heterogeneous configurations.
---
 whatami/what.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 3b24c23..56762ac 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -228,7 +228,11 @@ class What(object):
                 for key in item:
                     try:
                         w = w[key]
+                    except IndexError:
+                        raise KeyError(item)
                     except TypeError:
+                        if not is_whatable(w):
+                            raise KeyError(item)
                         w = w.what()[key]
                 return w
             raise
-- 
2.43.0


From 73e56b684cce8070f3da23f98f12d1615064785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 14/53] fix: accept excludes=None when whatamising functions

As before non_id_keys was honored for functions.
---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 56762ac..38fdef1 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -523,7 +523,7 @@ def whatable(obj=None,
         # Adds what method
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
-            non_ids = set(excludes).union(non_id_keys or ())
+            non_ids = set(excludes or ()).union(non_id_keys or ())
 
             def what():
                 return What(name=name, conf=config_dict.copy(), non_id_keys=non_ids)
-- 
2.43.0


From ff5a7c74bc6de9ac2a0d75d97e514b5698d1c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 15/53] fix: convert to dictionaries also configurations nested
 in collections

---
 whatami/whatutils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index a5c0641..4b0b02f 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -95,11 +95,17 @@ def id2dict(whatid):
     whatid : string
       a whatami id string
     """
-    what = id2what(whatid)
-    return {'whatami_name': what.name,
-            'whatami_out_name': what.out_name,
-            'whatami_conf': {k: (v if not isinstance(v, What) else v.to_dict())
-                             for k, v in what.conf.items()}}
+    def what2dict(v):
+        if isinstance(v, What):
+            return {'whatami_name': v.name,
+                    'whatami_out_name': v.out_name,
+                    'whatami_conf': {k: what2dict(kv) for k, kv in v.conf.items()}}
+        if isinstance(v, (list, tuple)):
+            return type(v)(map(what2dict, v))
+        if isinstance(v, dict):
+            return {k: what2dict(kv) for k, kv in v.items()}
+        return v
+    return what2dict(id2what(whatid))
 
 
 def obj2what(obj,
-- 
2.43.0


From 6d03da4caf34d4a1b8c3757afbc38ede32d14138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 16/53] fix: allow to disable excluding by prefix or postfix
 with None or ''

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 4537a41..95500ed 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -480,8 +480,8 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     A copy of cd with only the allowed keys.
     """
     return {k: v for k, v in cd.items() if
-            (exclude_prefix and not k.startswith(exclude_prefix)) and
-            (exclude_postfix and not k.endswith(exclude_postfix)) and
+            not (exclude_prefix and k.startswith(exclude_prefix)) and
+            not (exclude_postfix and k.endswith(exclude_postfix)) and
             k not in set(excludes)}
 
 
-- 
2.43.0


From 8b99bc32779104ad5a59f9208e0282384660e4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 17/53] fix: whatareyou does not forget the elements of
 frozensets and set subclasses

---
 whatami/what.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 38fdef1..b8046e2 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -352,7 +352,7 @@ def whatareyou(obj,
                                     add_slots=add_slots,
                                     add_properties=add_properties,
                                     add_class=add_class)
-        if type(obj) in (list, tuple, set, dict):  # N.B. do not use isinstance here
+        if type(obj) in (list, tuple, set, frozenset, dict):  # N.B. do not use isinstance here
             cd['seq'] = obj
         elif isinstance(obj, dict):
             cd['seq'] = {k: v for k, v in obj.items()}
@@ -360,6 +360,10 @@ def whatareyou(obj,
             cd['seq'] = tuple(obj)
         elif isinstance(obj, list):
             cd['seq'] = list(obj)
+        elif isinstance(obj, set):
+            cd['seq'] = set(obj)
+        elif isinstance(obj, frozenset):
+            cd['seq'] = frozenset(obj)
     return What(name=name if name_override is None else name_override,
                 conf=trim_dict(cd,
                                exclude_prefix=exclude_prefix,
-- 
2.43.0


From ea3714f61b8210975829236bb5fc9b1cdab39fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 18/53] fix: inspect the attributes of callable objects that
 are not functions

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 95500ed..6e62acd 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -324,7 +324,7 @@ def callable2call(c, closure_extractor=lambda c: c):
                 c.func,
                 positional=positional + list(c.args),                  # N.B. order matters
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
-        if hasattr(c, '__call__'):
+        if hasattr(c, '__call__') and hasattr(c, '__name__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
             return c.__name__, keywords
         raise ValueError('Only callables (partials, functions, builtins...) are allowed, %r is none of them' % c)
-- 
2.43.0


From 4ceedaa315c4951ac869dcb31fc042136410dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 19/53] fix: positional arguments in partials can override
 default parameter values

---
 whatami/misc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 6e62acd..20b2f4f 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -304,7 +304,6 @@ def callable2call(c, closure_extractor=lambda c: c):
             args = [] if not args else args
             args_set = set(args)
             # Check that everything is fine...
-            keywords = dict(chain(zip(args[-len(defaults):], defaults), keywords.items()))  # N.B. order matters
             pos2keyword = dict(zip(args[:len(positional)], positional))  # N.B. order matters
             keywords_set = set(keywords.keys())
             if len(keywords_set - args_set) > 0:
@@ -313,11 +312,11 @@ def callable2call(c, closure_extractor=lambda c: c):
             if len(set(pos2keyword.keys()) & set(keywords.keys())) > 0:
                 raise ValueError('Some arguments are indicated both by position and name (%r)' %
                                  sorted(set(pos2keyword.keys()) & set(keywords.keys())))
-            if len(args_set) - len(keywords_set) < len(positional):
+            if len(args) < len(positional):
                 raise ValueError('There are too many positional arguments indicated '
                                  'for the number of unbound positional parameters left.')
             return c.__name__.replace('<', '').replace('>', ''), \
-                dict(list(keywords.items()) + list(pos2keyword.items()))
+                dict(chain(zip(args[-len(defaults):], defaults), keywords.items(), pos2keyword.items()))  # N.B. order matters
         if isinstance(c, partial):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
-- 
2.43.0


From 82be61a57af60bc3cfc3e743974dbc98c7c1c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 20/53] fix: allow to remove registry entries by both nickname
 and id

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index b627b2d..fcf0304 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -70,7 +70,7 @@ class WhatamiRegistry(object):
             whatid = self.nick2id(nickname)
         else:
             old_whatid = self.nick2id(nickname)
-            old_nick = self.id2nick(nickname)
+            old_nick = self.id2nick(whatid)
             if old_whatid != whatid or old_nick != nickname:
                 raise ValueError('both whatid "%s"=="%s" and nickname "%s"=="%s" identities must hold' %
                                  (whatid, old_whatid, nickname, old_nick))
-- 
2.43.0


From ea362b738d44c2dbb0910750fc739b121b807a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 21/53] fix: recorders do not share (and modify) the list of
 postprocessors they are given

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index fcf0304..6471f91 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -512,7 +512,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             raise ValueError('id_column_name must be a string')  # pragma: no cover
         self.id_column_name = id_column_name
         self._column_defaults = column_defaults
-        self._record_postprocessors = [] if not record_postprocessors else record_postprocessors
+        self._record_postprocessors = [] if not record_postprocessors else list(record_postprocessors)
 
     # --- Column defaults
 
-- 
2.43.0


From 23cd643076530e77413901fd786b5f21403aefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 22/53] fix: allow any id when adding several records with
 iterable columns

The ids were passed as keyword arguments, so ids that are not strings, or named
like the parameters of the constructor, failed.
---
 whatami/registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 6471f91..15e66ed 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -106,8 +106,8 @@ class WhatamiRegistry(object):
 
 class _DefaultDict(dict):
     """Like collections.defaultdict, but does not add missing keys to the dictionary."""
-    def __init__(self, default, **kwargs):
-        super(_DefaultDict, self).__init__(**kwargs)
+    def __init__(self, default, items=()):
+        super(_DefaultDict, self).__init__(items)
         self.default = default
 
     def __getitem__(self, key):
@@ -561,7 +561,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             if warn and len(ids) != len(params):  # pragma: no cover
                 print('WARNING: number of names is different to the number of parameters (%d != %d)' %
                       (len(ids), len(params)))
-            return _DefaultDict(None, **dict(zip(ids, params)))
+            return _DefaultDict(None, zip(ids, params))
         return _DefaultDict(default=params)
 
     def add(self, ids, unbox_iterables=True,
-- 
2.43.0


From 0cf5b9ae27012dfcdef4ffeb913ee1e46f16c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 23/53] fix: parse empty dictionaries in old-style ids

---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 250cc81..e36a9f5 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -380,7 +380,7 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
         return StrMatch('set()')
 
     def a_non_empty_set():
-        return StrMatch('{'), Optional(list_elements), StrMatch('}')
+        return StrMatch('{'), list_elements, StrMatch('}')
 
     def a_set():
         return [an_empty_set, a_non_empty_set]
-- 
2.43.0


From 62b795638993901cbfa5a1cfd642f79eea789e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 24/53] fix: maybe_import gives priority to the first variant
 that can be imported

---
 whatami/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index 20b2f4f..a416c71 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -708,6 +708,7 @@ class _LazyImportError(object):
         for variant in variants:
             try:
                 self.module = import_module(variant)
+                break
             except ImportError as ie:
                 self._errors.append((variant, ie))
         # Autogenerate install hint
-- 
2.43.0


From 6d5d2b26fa362e2eb6174f39834ccf9e09607002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 25/53] fix: flatten dictionaries with keys that cannot be
 compared

---
 whatami/what.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index b8046e2..b29b96f 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -69,6 +69,7 @@ from __future__ import print_function, absolute_import
 import hashlib
 import inspect
 from copy import deepcopy
+from operator import itemgetter
 from functools import partial, update_wrapper, WRAPPER_ASSIGNMENTS
 import types
 
@@ -166,6 +167,8 @@ class What(object):
         >>> values[-1] == what[keys[-1]]
         True
         """
+        from whatami.plugins import WhatamiPluginManager
+
         def flatten(what, flattened_keys, flattened_values, partial_k):
             if isinstance(what, What):
                 if non_ids_too:
@@ -175,7 +178,10 @@ class What(object):
             elif isinstance(what, (list, tuple)) and collections_too:
                 kvs = enumerate(what)
             elif isinstance(what, dict) and collections_too:
-                kvs = sorted(what.items())
+                try:
+                    kvs = sorted(what.items(), key=itemgetter(0))
+                except TypeError:  # keys that cannot be compared to each other
+                    kvs = sorted(what.items(), key=lambda kv: WhatamiPluginManager.build_string(kv[0]))
             else:
                 kvs = ()
             for k, v in kvs:
-- 
2.43.0


From 399a9416f5d2d89ad19351f4b5b662e2ac04eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 26/53] fix: ignore slots without a value when inspecting
 objects

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index a416c71..3e5e01e 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -399,7 +399,7 @@ def _slotsdict(obj):
     """
     descriptors = inspect.getmembers(obj.__class__, inspect.isdatadescriptor)
     return {dname: value.__get__(obj) for dname, value in descriptors if
-            '__weakref__' != dname if inspect.ismemberdescriptor(value)}
+            '__weakref__' != dname if inspect.ismemberdescriptor(value) and hasattr(obj, dname)}
 
 
 def _propsdict(obj):
-- 
2.43.0


From 707d05ac0f80387710e29a47078ca08790b47f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 27/53] fix: generate ids when the optional numpy or pandas are
 not installed

A library that fails to import is represented by an object that raises
ImportError when used, it is never None.
---
 whatami/plugins.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index b142572..337ef45 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -10,6 +10,7 @@ import inspect
 import re
 from collections import OrderedDict
 from functools import partial
+from types import ModuleType
 
 from whatami import getargspec, is_whatable
 
@@ -205,7 +206,7 @@ np = maybe_import('numpy', 'conda')
 
 def has_numpy():
     """Returns True iff numpy can be imported."""
-    return inspect.ismodule(np)
+    return issubclass(type(np), ModuleType)  # N.B. placeholders for missing libraries only support type()
 
 
 pd = maybe_import('pandas', 'conda')
@@ -213,26 +214,26 @@ pd = maybe_import('pandas', 'conda')
 
 def has_pandas():
     """Returns True iff pandas can be imported."""
-    return pd is not None
+    return issubclass(type(pd), ModuleType)
 
 
 def numpy_plugin(v):
     """Represents numpy arrays as "class(hash='xxx')"."""
-    if np is not None and hasher is not None:
+    if has_numpy():
         if isinstance(v, np.ndarray):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
 
 
 def rng_plugin(v):
     """Represents a numpy rng as a string RandomState(state=xxx)."""
-    if np is not None and hasher is not None:
+    if has_numpy():
         if isinstance(v, np.random.RandomState):
             return "%s(state=%s)" % (v.__class__.__name__, whatareyou(v.__getstate__()).id())
 
 
 def pandas_plugin(v):
     """Represents pandas objects as any of "DataFrame(hash='xxx')" or "Series(hash='xxx')"."""
-    if pd is not None and hasher is not None:
+    if has_pandas():
         if isinstance(v, (pd.DataFrame, pd.Series)):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
     #
-- 
2.43.0


From aaa636416c85ef4b7adf60c9dfad9e63b3336fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 28/53] fix: identify sklearn objects that are not registered
 and have no get_params

For example RepeatedKFold, or any custom cross-validation splitter.
---
 whatami/wrappers/what_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index a8c2f90..597596c 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -603,8 +603,8 @@ def _what_for_sklearn(x, use_short=True):
     except AttributeError:
         return obj2what(x,
                         force_inspect=True,
-                        name_override=pinfo.short_name if use_short else name,
-                        non_id_keys=pinfo.non_id_params)
+                        name_override=pinfo.short_name if pinfo is not None and use_short else name,
+                        non_id_keys=pinfo.non_id_params if pinfo is not None else None)
     if pinfo is not None:
         return What(pinfo.short_name if use_short else name,
                     conf=configuration_dict,
-- 
2.43.0


From 5a6bc64b6bc27cd29ad7be393b33c2009698217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 29/53] fix: add records from iterators when there is no id
 extractor

---
 whatami/registry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 15e66ed..0c58105 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -620,8 +620,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
         if isinstance(ids, string_types) or not is_iterable(ids):
             ids = [ids]
         # Get whatami ids (maybe this should be left to the caller)
-        if self.id_extractor is not None:
-            ids = list(map(self.id_extractor, ids))
+        ids = list(ids if self.id_extractor is None else map(self.id_extractor, ids))
         # Expand iterables to field assignments
         config_dict = {param: self._params2dict(ids, value, unbox_iterables)
                        for param, value in columns.items()}
-- 
2.43.0


From 7d226776c40b502a5052d09e6995d9fd05fa8f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 30/53] fix: exclude all the names given by an iterator (or
 none)

---
 whatami/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 3e5e01e..3f8535f 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -478,10 +478,11 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     -------
     A copy of cd with only the allowed keys.
     """
+    excludes = set(excludes or ())
     return {k: v for k, v in cd.items() if
             not (exclude_prefix and k.startswith(exclude_prefix)) and
             not (exclude_postfix and k.endswith(exclude_postfix)) and
-            k not in set(excludes)}
+            k not in excludes}
 
 
 def config_dict_for_object(obj,
-- 
2.43.0


From f2e92521bff17ee38dbc81cfa270586f513e9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 31/53] fix: what() gives always the same configuration if
 non_id_keys or excludes are iterators

---
 whatami/what.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index b29b96f..70ba3a1 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -492,6 +492,12 @@ def whatable(obj=None,
     WhatableWithProps(d=0)
     """
 
+    # iterators would be exhausted after the first use
+    if is_iterable(non_id_keys):
+        non_id_keys = list(non_id_keys)
+    if is_iterable(excludes):
+        excludes = list(excludes)
+
     # class decorator
     if obj is None:
         return partial(whatable,
-- 
2.43.0


From 1e550219f2b18b5198e3297e1fd769c03b45a914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 32/53] fix: the positional arguments of inner partials go
 before those of outer ones

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 3f8535f..32cc7d9 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -321,7 +321,7 @@ def callable2call(c, closure_extractor=lambda c: c):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
                 c.func,
-                positional=positional + list(c.args),                  # N.B. order matters
+                positional=list(c.args) + positional,                  # N.B. order matters
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
         if hasattr(c, '__call__') and hasattr(c, '__name__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
-- 
2.43.0


From 6e5b4a2332d1efffc5cee75786c6625c80adfd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 33/53] fix: plugins without a name can be refused too

---
 whatami/plugins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index 337ef45..5c5c947 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -347,7 +347,7 @@ class WhatamiPluginManager(object):
             plugins.remove(plugin)
             cls.PLUGINS = tuple(plugins)
         except ValueError:
-            raise ValueError('cannot drop plugin %s, not in plugins list' % plugin.__name__)
+            raise ValueError('cannot drop plugin %s, not in plugins list' % getattr(plugin, '__name__', plugin))
 
     @classmethod
     def insert(cls, plugin, before=anyobject0x_plugin):
@@ -368,7 +368,7 @@ class WhatamiPluginManager(object):
         ValueError if plugin is already in the list of registered plugins of if before is not in the list.
         """
         if plugin in cls.PLUGINS:
-            raise ValueError('cannot insert plugin %s, already in plugins list' % plugin.__name__)
+            raise ValueError('cannot insert plugin %s, already in plugins list' % getattr(plugin, '__name__', plugin))
         plugins = list(cls.PLUGINS)
         if before is None:
             plugins.append(plugin)
@@ -377,7 +377,7 @@ class WhatamiPluginManager(object):
                 index = plugins.index(before)
                 plugins.insert(index, plugin)
             except ValueError:
-                raise ValueError('plugin to insert before (%s) not in plugins list' % before.__name__)
+                raise ValueError('plugin to insert before (%s) not in plugins list' % getattr(before, '__name__', before))
         cls.PLUGINS = tuple(plugins)
 
     @classmethod
-- 
2.43.0


From 9991ba7d5bed498369a4679ce5d4ad768fda81da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 34/53] fix: match_whatids ignores all the keys given by an
 iterator

---
 whatami/whatutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 4b0b02f..9d61666 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -305,6 +305,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
     # Slow but somehow clear implementation ahead, based on What.flatten
     # Alternatives: nasty recursion, make flatten take a visitor that can abort...
 
+    ignored_keys = set(ignored_keys)  # N.B. it can be an iterator
     template_what = id2what(template_whatid)
     template_name = template_what.name
     template_keys, template_values = template_what.flatten(non_ids_too=non_ids_too,
@@ -321,7 +322,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
 
     def not_ignored_values(keys, values):
         return [(value.name, value.out_name) if isinstance(value, What) else value
-                for key, value in zip(keys, values) if not ignore_key(key, set(ignored_keys))]
+                for key, value in zip(keys, values) if not ignore_key(key, ignored_keys)]
 
     def partial_match(what, template_values):
         if what.name != template_name:
-- 
2.43.0


From fe1b58b20a4a6aed57e10bb48402a795a2482d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 35/53] fix: match_whatids does not confuse nested
 configurations with tuples

---
 whatami/whatutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 9d61666..e5aeb3b 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -321,7 +321,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
         return False
 
     def not_ignored_values(keys, values):
-        return [(value.name, value.out_name) if isinstance(value, What) else value
+        return [What(value.name, {}, out_name=value.out_name) if isinstance(value, What) else value
                 for key, value in zip(keys, values) if not ignore_key(key, ignored_keys)]
 
     def partial_match(what, template_values):
-- 
2.43.0


From dc81374d241f5c7e3d1dbf5a722dc1a68dfcb867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 36/53] fix: match_whatids can ignore members of collections

---
 whatami/whatutils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index e5aeb3b..1d48756 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -320,8 +320,16 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
             return ignore_key(partial_key, ignored_keys)
         return False
 
+    def without_members(value):
+        # N.B. the members have their own keys, so they can be ignored
+        if isinstance(value, What):
+            return What(value.name, {}, out_name=value.out_name)
+        if collections_too and recursive and isinstance(value, (list, tuple, dict)):
+            return type(value)()
+        return value
+
     def not_ignored_values(keys, values):
-        return [What(value.name, {}, out_name=value.out_name) if isinstance(value, What) else value
+        return [without_members(value)
                 for key, value in zip(keys, values) if not ignore_key(key, ignored_keys)]
 
     def partial_match(what, template_values):
-- 
2.43.0


From c3c3c4186f42dcbb47931241916aeb864a52f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 37/53] fix: sort the configurations or ids of iterators
 instead of losing them

---
 whatami/whatutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 1d48756..9616939 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -179,6 +179,7 @@ def sort_whats(whats, *keys):
     >>> [what['lag'] for what in whats_sorted]
     [-2, -1, 0, 1, 2]
     """
+    whats = list(whats)  # N.B. it can be an iterator
     values = [whatvalues(what, keys) for what in whats]
     # noinspection PyTypeChecker
     return tuple(zip(*[(whatid, value) for value, whatid in sorted(zip(values, whats), key=itemgetter(0))]))
@@ -200,6 +201,7 @@ def sort_whatids(whatids, *keys):
     >>> [what['lag'] for what in map(id2what, ids_sorted)]
     [-2, -1, 0, 1, 2]
     """
+    whatids = list(whatids)  # N.B. it can be an iterator
     whats = map(id2what, whatids)  # if this is bottleneck, allow to pass what themselves
     values = [whatvalues(what, keys) for what in whats]
     # noinspection PyTypeChecker
-- 
2.43.0


From b10ac72e111b56553a9fe276253c7bc9d94cf17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 38/53] fix: sorting nothing gives a pair too

---
 whatami/whatutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 9616939..515cce7 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -180,6 +180,8 @@ def sort_whats(whats, *keys):
     [-2, -1, 0, 1, 2]
     """
     whats = list(whats)  # N.B. it can be an iterator
+    if not whats:
+        return (), ()
     values = [whatvalues(what, keys) for what in whats]
     # noinspection PyTypeChecker
     return tuple(zip(*[(whatid, value) for value, whatid in sorted(zip(values, whats), key=itemgetter(0))]))
@@ -202,6 +204,8 @@ def sort_whatids(whatids, *keys):
     [-2, -1, 0, 1, 2]
     """
     whatids = list(whatids)  # N.B. it can be an iterator
+    if not whatids:
+        return (), ()
     whats = map(id2what, whatids)  # if this is bottleneck, allow to pass what themselves
     values = [whatvalues(what, keys) for what in whats]
     # noinspection PyTypeChecker
-- 
2.43.0


From 1cc7688be3c86022caf89d3be288b9a82fc45908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 39/53] fix: ids of arrays with frozensets do not depend on
 insertion order

---
 whatami/minijoblib/hashing.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index a46a360..3893f2a 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -23,6 +23,17 @@ else:
     Pickler = pickle.Pickler
 
 
+def _strictly_sorted(sequence):
+    """ Sorts the sequence, fails with a TypeError if its elements are not
+        totally ordered (e.g. frozensets, which are compared by inclusion),
+        as then the result would depend on their original order.
+    """
+    ordered = sorted(sequence)
+    if not all(a < b for a, b in zip(ordered, ordered[1:])):
+        raise TypeError('the elements are not totally ordered')
+    return ordered
+
+
 class _ConsistentSet(object):
     """ Class used to ensure the hash of Sets is preserved
         whatever the order of its items.
@@ -34,13 +45,17 @@ class _ConsistentSet(object):
             # consistent and orderable.
             # This fails on python 3 when elements are unorderable
             # but we keep it in a try as it's faster.
-            self._sequence = sorted(set_sequence)
+            self._sequence = _strictly_sorted(set_sequence)
         except TypeError:
             # If elements are unorderable, sorting them using their hash.
             # This is slower but works in any case.
             self._sequence = sorted((hasher(e) for e in set_sequence))
 
 
+class _ConsistentFrozenSet(_ConsistentSet):
+    """ The same, for frozensets. """
+
+
 class _MyHash(object):
     """ Class used to hash objects that won't normally pickle """
 
@@ -143,7 +158,8 @@ class Hasher(Pickler):
             # consistent and orderable.
             # This fails on python 3 when keys are unorderable
             # but we keep it in a try as it's faster.
-            Pickler._batch_setitems(self, iter(sorted(items)))
+            items = list(items)
+            Pickler._batch_setitems(self, iter(_strictly_sorted(items)))
         except TypeError:
             # If keys are unorderable, sorting them using their hash. This is
             # slower but works in any case.
@@ -156,6 +172,12 @@ class Hasher(Pickler):
 
     dispatch[type(set())] = save_set
 
+    def save_frozenset(self, set_items):
+        # forces order of items in frozensets to ensure consistent hash
+        Pickler.save(self, _ConsistentFrozenSet(set_items))
+
+    dispatch[type(frozenset())] = save_frozenset
+
 
 class NumpyHasher(Hasher):
     """ Special case the hasher for when numpy is loaded.
-- 
2.43.0


From b87a3c54036a1e7155ff75bd9c1e01abca6d211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 40/53] fix: ids of dataframes do not change when pandas groups
 columns of the same type

---
 whatami/plugins.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index 5c5c947..fec4b82 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -235,7 +235,13 @@ def pandas_plugin(v):
     """Represents pandas objects as any of "DataFrame(hash='xxx')" or "Series(hash='xxx')"."""
     if has_pandas():
         if isinstance(v, (pd.DataFrame, pd.Series)):
-            return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
+            name = v.__class__.__name__
+            if isinstance(v, pd.DataFrame):
+                # pandas can group in blocks the columns of the same type at any moment, even when just reading data
+                blocks = v._mgr if hasattr(v, '_mgr') else v._data
+                if not blocks.is_consolidated():
+                    v = v._constructor(blocks.consolidate()).__finalize__(v)
+            return "%s(hash='%s')" % (name, hasher(v))
     #
     # Given the variability of pandas key classes and the stability of numpy
     # ABI it should repay to create an spesialised pandas plugin that just
-- 
2.43.0


From ca0d0c471613c11e2a7cb4a3218c7bb1f811e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 41/53] fix: accessing any attribute of a library that fails to
 import raises ImportError

---
 whatami/misc.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 32cc7d9..874db48 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -701,35 +701,37 @@ class _LazyImportError(object):
         # Bookkeeping
         self._library_name = library_name
         self._variants = variants
-        self._errors = []
+        self._errors = errors = []
         # Try to import
         self.module = self
         if not variants:
-            variants = [self._library_name]
+            variants = [library_name]
         for variant in variants:
             try:
                 self.module = import_module(variant)
                 break
             except ImportError as ie:
-                self._errors.append((variant, ie))
+                errors.append((variant, ie))
         # Autogenerate install hint
         if install_msg in ('conda', 'pip'):
             install_msg = '%s install %s' % (install_msg, variants[0])
         self._install_msg = install_msg
 
     def __getattribute__(self, name):
-        if name in ('_library_name', '_install_msg', '_errors', '_maybe_import', 'module', '_variants'):
-            return super(_LazyImportError, self).__getattribute__(name)  # pragma: no cover
-        errors_msg = '\n'.join(['\timport %s: %s' % (variant, str(ie)) for variant, ie in self._errors])
-        if self._install_msg is not None:
+        # N.B. all attributes fail, also these (use object.__getattribute__ to get the actual values)
+        library_name, install_msg, errors = [
+            super(_LazyImportError, self).__getattribute__(attr)
+            for attr in ('_library_name', '_install_msg', '_errors')]
+        errors_msg = '\n'.join(['\timport %s: %s' % (variant, str(ie)) for variant, ie in errors])
+        if install_msg is not None:
             raise ImportError('Trying to access %s from module %s, but the library fails to import.\n'
                               'Errors: \n%s\n'
                               'Maybe install it like "%s"?' %
-                              (name, self._library_name, errors_msg, self._install_msg))
+                              (name, library_name, errors_msg, install_msg))
         else:
             raise ImportError('Trying to access %s from module %s, but the library fails to import.\n'
                               'Errors: \n%s\n' %
-                              (name, self._library_name, errors_msg))
+                              (name, library_name, errors_msg))
 
 
 def maybe_import(library_name, install_msg=None, *variants):
@@ -755,7 +757,7 @@ def maybe_import(library_name, install_msg=None, *variants):
       toolz = LazyImportError.maybe_import(toolz, install_msg='conda', 'cytoolz', 'toolz')
     """
     lie = _LazyImportError(library_name, install_msg, *variants)
-    return lie.module
+    return object.__getattribute__(lie, 'module')
 
 
 def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None, *variants):
-- 
2.43.0


From 9e249706b428004c5f96d895b2817db64861183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 42/53] fix: maybe_import_member accepts variants

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 874db48..dcec1f6 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -787,7 +787,7 @@ def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None,
     if not module:
         raise ValueError('Please provide a FQN, including module name (was given %r)' % member_fqn)
     try:
-        return getattr(maybe_import(module, install_msg=install_msg, *variants), member)
+        return getattr(maybe_import(module, install_msg, *variants), member)
     except ImportError:
         if fail_if_import_error:
             raise
-- 
2.43.0


From 2589f9b70b573a11f57a7d4c5f578c7b3d5efa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 43/53] fix: import_submodules does not import modules out of
 the package

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index dcec1f6..c3c92f0 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -8,7 +8,7 @@ from __future__ import absolute_import
 # noinspection PyProtectedMember
 from future.utils import PY3, string_types
 
-from pkgutil import walk_packages
+from pkgutil import iter_modules
 
 from functools import partial
 from itertools import chain
@@ -821,7 +821,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 return results
             raise
     results[package.__name__] = package
-    for _, name, is_pkg in walk_packages(package.__path__):
+    for _, name, is_pkg in iter_modules(package.__path__):
         full_name = package.__name__ + '.' + name
         try:
             results[full_name] = import_module(full_name)
-- 
2.43.0


From 8b1dbf5720e1d75ffed39023c0cba658d7276cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 44/53] fix: import_submodules does not ignore errors in
 subpackages unless asked for

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index c3c92f0..283c676 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -830,7 +830,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 raise
         if recurse_packages and is_pkg:
             try:
-                results.update(import_submodules(full_name))
+                results.update(import_submodules(full_name, ignore_errors=ignore_errors))
             except ImportError:  # pragma: no cover
                 if not ignore_errors:
                     raise
-- 
2.43.0


From 1ec7b7026801decfd43cccd97a8d7358f33b6775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 45/53] fix: import_submodules ignores any error when importing
 if asked for

---
 whatami/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 283c676..6a5ee35 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -816,7 +816,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
     if isinstance(package, string_types):
         try:
             package = import_module(package)
-        except ImportError:
+        except Exception:
             if ignore_errors:
                 return results
             raise
@@ -825,13 +825,13 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
         full_name = package.__name__ + '.' + name
         try:
             results[full_name] = import_module(full_name)
-        except ImportError:
+        except Exception:
             if not ignore_errors:  # pragma: no cover
                 raise
         if recurse_packages and is_pkg:
             try:
                 results.update(import_submodules(full_name, ignore_errors=ignore_errors))
-            except ImportError:  # pragma: no cover
+            except Exception:  # pragma: no cover
                 if not ignore_errors:
                     raise
     return results
-- 
2.43.0


From a891bc9adaa950de1dc88ec551a73a609fd8cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 46/53] fix: decorate_some does not modify the dictionaries
 used to create classes

---
 whatami/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index 6a5ee35..c20505e 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -680,6 +680,7 @@ def decorate_some(name='DecorateSome', **decorators):
     def new_decorate(mcs, name, bases=None, d=None):
         # Use a closure to keep metaclass parameters
         # Alternative: add a "decorators" member to the metaclass "mcs" dictionary
+        d = dict(d)  # do not decorate twice if the same dictionary is used to create several classes
         for attr, attr_decorators in decorators.items():
             if attr in d:
                 if not is_iterable(attr_decorators):
-- 
2.43.0


From 2a9850f5b3e2ef82a377c04a60bd08e94aaf6b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 47/53] fix: objects that have a function or static method what
 are whatable too

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 70ba3a1..fcaaa92 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -402,7 +402,7 @@ def is_whatable(obj):
     try:
         what_method = obj.what
         selfbind = '__self__' if PY3 else 'im_self'
-        if getattr(what_method, selfbind, None) is None:
+        if inspect.isclass(obj) and getattr(what_method, selfbind, None) is None:
             # Unbounded method, so this comes from a class
             if hasattr(what_method, 'whatami'):
                 return True
-- 
2.43.0


From 696e8186910d5f324e0bde509a9423331d2bef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 48/53] fix: allow to force_flag_as_whatami also instances

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index fcaaa92..587af8a 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -559,7 +559,7 @@ def whatable(obj=None,
             # mark this method as a whatami method
             # http://legacy.python.org/dev/peps/pep-0232/
             # http://stackoverflow.com/questions/23345005/does-pep-232-also-works-for-instance-methods
-            to_annotate = obj.what.__func__ if not PY3 else obj.what
+            to_annotate = getattr(obj.what, '__func__', obj.what)
             to_annotate.whatami = True
             return obj
         else:
-- 
2.43.0


From d2ce785233371f9b8d41c9da4c000cc1e7970681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 49/53] fix: what2id accepts objects with attributes what or id
 that are not methods

---
 whatami/whatutils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 515cce7..0dcacff 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -70,12 +70,16 @@ def what2id(obj):
     if isinstance(obj, string_types):
         return obj
     try:
-        return obj.what().id()
+        if callable(obj.what):
+            return obj.what().id()
     except AttributeError:
-        try:
+        pass
+    try:
+        if callable(obj.id):
             return obj.id()
-        except AttributeError:
-            return whatareyou(obj).id()
+    except AttributeError:
+        pass
+    return whatareyou(obj).id()
 
 
 # An alias for whatami.parse_whatid
-- 
2.43.0


From 83457aa9424eb280c62db52ae4243db026e6cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:16 +0000
Subject: [PATCH 50/53] fix: several threads can parse ids at the same time

---
 whatami/parsers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index e36a9f5..85922f0 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -5,6 +5,7 @@
 # Licence: BSD 3 clause
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
+from threading import RLock
 # noinspection PyProtectedMember
 from future.utils import string_types
 from future.moves import builtins
@@ -261,6 +262,9 @@ class WhatamiTreeVisitor(PTNodeVisitor):
 DEFAULT_WHATAMI_PARSER = build_whatami_parser()
 DEFAULT_WHATAMI_VISITOR = WhatamiTreeVisitor()
 
+# Arpeggio parsers keep the state of the current parse, so they can only parse one string at a time
+PARSE_LOCK = RLock()
+
 
 def parse_whatid(id_string, parser=None, visitor=None):
     """
@@ -301,7 +305,9 @@ def parse_whatid(id_string, parser=None, visitor=None):
     if visitor is None:
         visitor = DEFAULT_WHATAMI_VISITOR
     try:
-        return visit_parse_tree(parser.parse(id_string), visitor=visitor)
+        with PARSE_LOCK:
+            parse_tree = parser.parse(id_string)
+        return visit_parse_tree(parse_tree, visitor=visitor)
     except TypeError:
         # Remove this once arpeggio is released with this fix:
         # https://github.com/igordejanovic/Arpeggio/pull/21
-- 
2.43.0


From 2dfa82cc5e49ef78080a70845c8bacfdf4aa2608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:02 +0000
Subject: [PATCH 51/53] fix: keyword-only parameters are part of the
 configuration of callables

---
 whatami/misc.py    | 26 ++++++++++++++++++++++++--
 whatami/plugins.py |  3 ++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index c20505e..1df185c 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -69,6 +69,26 @@ def getargspec(func):  # pragma: no cover
         return inspect.getargspec(func)
 
 
+def keyword_only(func):
+    """
+    Returns a list with the keyword-only arguments of the function and a dictionary with their defaults.
+
+    Parameters
+    ----------
+    func : function
+      A function.
+
+    Returns
+    -------
+    A tuple (kwonlyargs, kwonlydefaults), always empty in python 2
+    """
+    if PY3:
+        # noinspection PyUnresolvedReferences
+        spec = inspect.getfullargspec(func)
+        return spec.kwonlyargs, spec.kwonlydefaults or {}
+    return [], {}  # pragma: no cover
+
+
 def init_argspec(obj):
     """
     Returns a named 4-tuple (args, varargs, varkw, defaults) for the constructor of obj.
@@ -302,7 +322,8 @@ def callable2call(c, closure_extractor=lambda c: c):
             args, _, _, defaults = getargspec(c)
             defaults = [] if not defaults else defaults
             args = [] if not args else args
-            args_set = set(args)
+            kwonly, kwonly_defaults = keyword_only(c)
+            args_set = set(args) | set(kwonly)
             # Check that everything is fine...
             pos2keyword = dict(zip(args[:len(positional)], positional))  # N.B. order matters
             keywords_set = set(keywords.keys())
@@ -316,7 +337,8 @@ def callable2call(c, closure_extractor=lambda c: c):
                 raise ValueError('There are too many positional arguments indicated '
                                  'for the number of unbound positional parameters left.')
             return c.__name__.replace('<', '').replace('>', ''), \
-                dict(chain(zip(args[-len(defaults):], defaults), keywords.items(), pos2keyword.items()))  # N.B. order matters
+                dict(chain(zip(args[-len(defaults):], defaults), kwonly_defaults.items(),
+                           keywords.items(), pos2keyword.items()))  # N.B. order matters
         if isinstance(c, partial):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
diff --git a/whatami/plugins.py b/whatami/plugins.py
index fec4b82..c806d3d 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -17,7 +17,7 @@ from whatami import getargspec, is_whatable
 from whatami.misc import maybe_import
 
 from .what import What, whatareyou
-from .misc import callable2call, config_dict_for_object, curry2partial
+from .misc import callable2call, config_dict_for_object, curry2partial, keyword_only
 from .minijoblib.hashing import hasher
 
 
@@ -164,6 +164,7 @@ def function_plugin(v):
         defaults = [] if not defaults else defaults
         args = [] if not args else args
         params_with_defaults = dict(zip(args[-len(defaults):], defaults))
+        params_with_defaults.update(keyword_only(v)[1])
         name = v.__name__ if v.__name__ != '<lambda>' else 'lambda'
         what = What(name, params_with_defaults)
         return what.id()
-- 
2.43.0


From 6fdee0e483c08165c27a9480e0d1de47447872dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:48 +0000
Subject: [PATCH 52/53] fix: to_df keeps the records that have no columns

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 0c58105..5a11862 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -688,4 +688,4 @@ class Recorder(with_metaclass(_RecorderMeta)):
         Returns a pandas dataframe with records in rows and as many columns as different attributes.
         It is sorted by insertion order.
         """
-        return pd.DataFrame.from_dict(self._registry, orient='index').loc[self._registry.keys()]
+        return pd.DataFrame.from_dict(self._registry, orient='index').reindex(list(self._registry.keys()))
-- 
2.43.0


From c0cb251df582b84604230ca8b02197622cc2feef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:08 +0000
Subject: [PATCH 53/53] fix: only ASCII digits are numbers in an id

A Unicode digit, like the arabic 3, was taken for part of a number, so that
ids that what.id() never writes were parsed (as 3), in both the id languages.
---
 whatami/parsers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 85922f0..97b182b 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -49,7 +49,7 @@ def build_whatami_parser(reduce_tree=False, debug=False):
         return RegExMatch(r'[_A-Za-z][_a-zA-Z0-9]*')
 
     def a_number():
-        return [RegExMatch('-?\d+((\.\d*)?((e|E)(\+|-)?\d+)?)?'),
+        return [RegExMatch('-?[0-9]+((\.[0-9]*)?((e|E)(\+|-)?[0-9]+)?)?'),
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
@@ -343,7 +343,7 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
         return RegExMatch(r'[_A-Za-z][_a-zA-Z0-9]*')
 
     def a_number():
-        return [RegExMatch('-?\d+((\.\d*)?((e|E)(\+|-)?\d+)?)?'),
+        return [RegExMatch('-?[0-9]+((\.[0-9]*)?((e|E)(\+|-)?[0-9]+)?)?'),
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-- 
2.43.0

