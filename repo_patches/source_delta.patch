From cc23486bcdd2ffb9c0620b8f49153241bd98b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 01/97] fix: replace_data_type_failures with an explicit
 replacement for a primary key field

---
 ticdat/pandatfactory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 6f7c4bc..6ff8707 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1227,9 +1227,10 @@ class PanDatFactory(object):
         real_replacements = {}
         for table, type_row in self._true_data_types().items():
             for field in type_row:
-                if ((table, field) in replacement_values) or (field in self.default_values.get(table, {})):
-                    real_replacements[table, field] = replacement_values.get((table, field),
-                        self.default_values[table][field])
+                if (table, field) in replacement_values:
+                    real_replacements[table, field] = replacement_values[table, field]
+                elif field in self.default_values.get(table, {}):
+                    real_replacements[table, field] = self.default_values[table][field]
         for (table, field), value in real_replacements.items():
             if (table, field) in replacements_needed:
                 verify(self._true_data_types()[table][field].valid_data(value),
-- 
2.43.0


From 0205b70d19cffd72eca557b4d14a777150cf9caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 02/97] fix: PanDat compound foreign keys whose native and
 foreign fields share names

---
 ticdat/pandatfactory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 6ff8707..e86a7d9 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1468,8 +1468,10 @@ class PanDatFactory(object):
                 new_index = mappings.native_field
             else:
                 parent = parent.drop_duplicates([_.foreign_field for _ in mappings], inplace=False).copy(deep=True)
-                for _ in mappings:
-                    parent[_.native_field] = parent[_.foreign_field]
+                # collecting the foreign columns first, since a native field can have the same name as a foreign field
+                foreign_columns = {_.native_field: parent[_.foreign_field] for _ in mappings}
+                for native_field, foreign_column in foreign_columns.items():
+                    parent[native_field] = foreign_column
                 new_index = [_.native_field for _ in mappings]
             # sadly a join might knacker the row order, hence the ugliness with magic_field*2 for child
             parent[magic_field] = True
-- 
2.43.0


From eabb428d33333bffcb5b9e04cf828d606b411a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 03/97] fix: add_implied_foreign_keys adding empty foreign keys
 to tables without primary keys

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 3c7da71..4bcc05b 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -534,7 +534,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     newnativeft = tuple((bridgetonative[bf], ff) for ff,bf in
                                          foreigntobridge.items() if bf in bridgetonative)
                     fkSet = self._foreign_keys[nativetable, bfk.foreign_table]
-                    if newnativeft not in fkSet and self._simple_fk(bfk.foreign_table, newnativeft):
+                    if newnativeft and newnativeft not in fkSet and self._simple_fk(bfk.foreign_table, newnativeft):
                         return fkSet.add(newnativeft) or True
         while findderivedforeignkey():
             pass
-- 
2.43.0


From b5de68a1e6a759c385bf541070a8998a3a06c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 04/97] fix: kwargs maker results of converted and unconverted
 data mixed up

---
 ticdat/pandatfactory.py | 8 +++++---
 ticdat/ticdatfactory.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index e86a7d9..0be03b0 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1343,7 +1343,9 @@ class PanDatFactory(object):
                                 converted_dat.append(f"Exception<{e}>")
                         else:
                             converted_dat.append(self._convert_dat[0](pan_dat))
-                    if rpi.predicate_kwargs_maker not in predicate_kwargs_maker_results:
+                    # the converted and unconverted dat can't share a result
+                    maker_key = (rpi.predicate_kwargs_maker, bool(uses_convert))
+                    if maker_key not in predicate_kwargs_maker_results:
                         __pan_dat = converted_dat[0] if uses_convert else pan_dat
                         if uses_convert and isinstance(converted_dat[0], str):
                             _predicate_kwargs = converted_dat[0]
@@ -1354,8 +1356,8 @@ class PanDatFactory(object):
                                 _predicate_kwargs = f"Exception<{e}>"
                         else:
                             _predicate_kwargs = rpi.predicate_kwargs_maker(__pan_dat)
-                        predicate_kwargs_maker_results[rpi.predicate_kwargs_maker] = _predicate_kwargs
-                    predicate_kwargs = predicate_kwargs_maker_results[rpi.predicate_kwargs_maker]
+                        predicate_kwargs_maker_results[maker_key] = _predicate_kwargs
+                    predicate_kwargs = predicate_kwargs_maker_results[maker_key]
                 if not isinstance(predicate_kwargs, dict):
                     rtn[TPN(tbl, pn)] = PKEM('*', predicate_kwargs
                                         if (isinstance(predicate_kwargs, str) and "Exception<" in predicate_kwargs)
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 4bcc05b..cec53de 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -2038,7 +2038,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                     converted_dat.append(f"Exception<{e}>")
                             else:
                                 converted_dat.append(self._convert_dat[0](tic_dat))
-                        if rpi.predicate_kwargs_maker not in predicate_kwargs_maker_results:
+                        # the converted and unconverted dat can't share a result
+                        maker_key = (rpi.predicate_kwargs_maker, bool(uses_convert))
+                        if maker_key not in predicate_kwargs_maker_results:
                             __tic_dat = converted_dat[0] if uses_convert else tic_dat
                             if uses_convert and isinstance(converted_dat[0], str):
                                 _predicate_kwargs = converted_dat[0]
@@ -2049,8 +2051,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                     _predicate_kwargs = f"Exception<{e}>"
                             else:
                                 _predicate_kwargs = rpi.predicate_kwargs_maker(__tic_dat)
-                            predicate_kwargs_maker_results[rpi.predicate_kwargs_maker] = _predicate_kwargs
-                        predicate_kwargs = predicate_kwargs_maker_results[rpi.predicate_kwargs_maker]
+                            predicate_kwargs_maker_results[maker_key] = _predicate_kwargs
+                        predicate_kwargs = predicate_kwargs_maker_results[maker_key]
                     if not isinstance(predicate_kwargs, dict):
                         rtn[tbl, pn] = PKEM('*', predicate_kwargs
                                             if (isinstance(predicate_kwargs, str) and "Exception<" in predicate_kwargs)
-- 
2.43.0


From de6cc3cd899d6da6522ec612899f9740fac67606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 05/97] fix: generator tables built from a container reported
 as duplicate rows

---
 ticdat/ticdatfactory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index cec53de..64e43de 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -777,7 +777,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 superself._trigger_has_been_used()
                 self._all_data_dicts = []
                 self._made_foreign_links = False
-                lens = {t: l for t, v in init_tables.items() for l in [utils.safe_apply(len)(v)] if l is not None}
+                # a generator table has no primary key, and thus no duplicates
+                lens = {t: l for t, v in init_tables.items() if t not in superself.generator_tables
+                        for l in [utils.safe_apply(len)(v)] if l is not None}
                 for t in init_tables :
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
                     if t in superself.generic_tables:
-- 
2.43.0


From a2873f3af9421f722551d97fbc4bca4fc604053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 06/97] fix: json find_duplicates ignoring tables whose name
 differs by case or spaces

---
 ticdat/jsontd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 8d58c23..0ff2778 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -130,7 +130,7 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
             jdict = self._create_jdict(json_file_path)
             if self._looks_pandas(jdict):
                 return self.find_duplicates(json_file_path, from_pandas=True)
-        rtn = find_duplicates_from_dict_ticdat(self.tic_dat_factory, jdict)
+        rtn = find_duplicates_from_dict_ticdat(self.tic_dat_factory, self._create_tic_dat_dict(jdict))
         return rtn or {}
     def _create_jdict(self, path_or_buf):
         if stringish(path_or_buf) and os.path.exists(path_or_buf):
-- 
2.43.0


From f62b07f462835630b399bcb1c82afd4457b75a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 07/97] fix: mutators that bypass freezing of tables, rows and
 foreign key links

---
 ticdat/ticdatfactory.py |  2 +-
 ticdat/utils.py         | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 64e43de..2edc3a2 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -757,7 +757,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                             setattr(self, t, tuple(_t))
                     else :
                         assert callable(_t) and t in superself.generator_tables
-                for _t in getattr(self, "_allDataDicts", ()) :
+                for _t in getattr(self, "_all_data_dicts", ()) :
                     if utils.dictish(_t) and not getattr(_t, "_attributesFrozen", False) :
                         _t._dataFrozen  = True
                         _t._attributesFrozen = True
diff --git a/ticdat/utils.py b/ticdat/utils.py
index 765fa9d..dd8eace 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1004,6 +1004,21 @@ class FreezeableDict(_FreezableDictBase) :
         if not getattr(self, "_dataFrozen", False) :
             return super(FreezeableDict, self).pop(*args, **kwargs)
         raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def popitem(self) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).popitem()
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def clear(self) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).clear()
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def setdefault(self, *args, **kwargs) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).setdefault(*args, **kwargs)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def __ior__(self, other) :
+        self.update(other)
+        return self
 
 class FrozenDict(FreezeableDict) :
     def __init__(self, *args, **kwargs):
-- 
2.43.0


From bd50e3622bcff9069e0a7dec83023cb2cabc7d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 08/97] fix: table edits that store rows not conforming to the
 schema

---
 ticdat/ticdatfactory.py | 20 ++++++++++++++------
 ticdat/utils.py         |  4 +++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 2edc3a2..3f765f9 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -704,11 +704,21 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     def __init__(self, *_args, **_kwargs):
                         super(TicDatDict, self).__init__(*_args, **_kwargs)
                         alldatadicts.append(self)
-                    def __setitem__(self, key, value):
+                    def _row(self, key, value):
                         verify(containerish(key) ==  (keylen > 1) and
                                (keylen == 1 or keylen == len(key)),
                                "inconsistent key length for %s"%tablename)
-                        return super(TicDatDict, self).__setitem__(key, rowfactory(value))
+                        return rowfactory(value)
+                    def __setitem__(self, key, value):
+                        return super(TicDatDict, self).__setitem__(key, self._row(key, value))
+                    def update(self, *args, **kwargs):
+                        # all the rows are made first, so that a bad row leaves the table as it was
+                        rows = {k: self._row(k, v) for k, v in dict(*args, **kwargs).items()}
+                        return super(TicDatDict, self).update(rows)
+                    def setdefault(self, key, default=utils.FrozenDict()):
+                        if key not in self:
+                            self[key] = default
+                        return self[key]
                     def __getitem__(self, item):
                         if (item not in self) and (not getattr(self, "_dataFrozen", False)):
                             self[item] = rowfactory({})
@@ -723,7 +733,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 def __getitem__(self, i): return self._list[i]
                 def __delitem__(self, i): del self._list[i]
                 def __setitem__(self, i, v):
-                    self._list[i] = rowfactory(v)
+                    self._list[i] = [rowfactory(_) for _ in v] if isinstance(i, slice) else rowfactory(v)
                 def insert(self, i, v):
                     self._list.insert(i, rowfactory(v))
                 def __repr__(self):
@@ -745,11 +755,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     _t = getattr(self, t)
                     if utils.dictish(_t) or utils.containerish(_t) :
                         for v in getattr(_t, "values", lambda : _t)() :
-                            if not getattr(v, "_dataFrozen", False) :
+                            if not getattr(v, "_attributesFrozen", False) :
                                 v._dataFrozen =True
                                 v._attributesFrozen = True
-                            else : # we freeze the data-less ones off the bat as empties
-                                assert (len(v) == 0) and v._attributesFrozen
                         if utils.dictish(_t) :
                             _t._dataFrozen  = True
                             _t._attributesFrozen = True
diff --git a/ticdat/utils.py b/ticdat/utils.py
index dd8eace..9219e40 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1070,7 +1070,9 @@ def td_row_factory(table, key_field_names, data_field_names, default_values=None
          # need a freezeable dict not a frozen dict here so can still link foreign keys
         def makefreezeabledict(x=()) :
             verify(containerish(x) and len(x) == 0, "Attempting to add non-empty data to %s"%table)
-            return FreezeableDict()
+            rtn = FreezeableDict()
+            rtn._dataFrozen = True # there are no fields to edit
+            return rtn
         return makefreezeabledict
     fieldtoindex = {x:data_field_names.index(x) for x in data_field_names}
     indextofield = {v:k for k,v in fieldtoindex.items()}
-- 
2.43.0


From dd4e418f5333c16bbd9c6d9ffa290f880efb9cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 09/97] fix: field defaults ignored for lists of dict rows in
 keyed tables

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 3f765f9..c899a3a 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -824,10 +824,11 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                           apply(v, lambda row_dict: getattr(self, t).append(_rd_(row_dict)))
                     elif superself.primary_key_fields.get(t) and not utils.dictish(v):
                          pklen = len(superself.primary_key_fields[t])
+                         defaults = superself.default_values.get(t, {})
                          def handle_row_dict(r):
                              if not utils.dictish(r):
                                  return r
-                             return [r.get(k, 0) for k in superself.primary_key_fields[t] +
+                             return [r.get(k, defaults.get(k, 0)) for k in superself.primary_key_fields[t] +
                                       superself.data_fields.get(t,[])]
                          drf = datarowfactory(t) # lots of verification inside the datarowfactory
                          setattr(self, t, ticdattablefactory(self._all_data_dicts, t)(
-- 
2.43.0


From 4e37e32b97b7a180f5c0fa300218832c9b9d5fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 10/97] fix: PanDat built from a split-oriented dict with as
 many rows as columns

---
 ticdat/pandatfactory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 0be03b0..d96da4f 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -989,7 +989,12 @@ class PanDatFactory(object):
                                utils.safe_apply(bool)(v)}
                 for t in init_tables:
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
-                    tbl = safe_apply(DataFrame)(init_tables[t])
+                    tbl = None
+                    if isinstance(init_tables[t], dict) and {"columns", "data"}.issubset(init_tables[t]) and \
+                       not {"columns", "data"}.intersection(superself._all_fields(t)):
+                        # also resolves as two columns called "columns" and "data" when those have equal lengths
+                        tbl = safe_apply(DataFrame)(**init_tables[t])
+                    tbl = tbl if isinstance(tbl, DataFrame) else safe_apply(DataFrame)(init_tables[t])
                     if tbl is None and dictish(init_tables[t]) and all(map(stringish, init_tables[t])):
                         tbl = safe_apply(DataFrame)(**init_tables[t])
                     verify(isinstance(tbl, DataFrame),
-- 
2.43.0


From 803ef4b9e717c9c64af10737937bbbfdf48398d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 11/97] fix: PanDat dropping tables given as numpy arrays

---
 ticdat/pandatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index d96da4f..cb13e1e 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -986,7 +986,7 @@ class PanDatFactory(object):
             def __init__(self, **init_tables):
                 superself._trigger_has_been_used()
                 init_tables = {k: v for k,v in init_tables.items() if isinstance(v, (pd.DataFrame, pd.Series)) or
-                               utils.safe_apply(bool)(v)}
+                               (v is not None and utils.safe_apply(bool)(v) in (True, None))}
                 for t in init_tables:
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
                     tbl = None
-- 
2.43.0


From b0446312f1917273357e1055d15b3144a3ffca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 12/97] fix: copies of generic tables sharing memory with the
 original

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index c899a3a..cf9dffb 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -791,7 +791,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 for t in init_tables :
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
                     if t in superself.generic_tables:
-                        setattr(self, t, DataFrame(init_tables[t]))
+                        setattr(self, t, DataFrame(init_tables[t]).copy(deep=True))
                 for t,v in init_tables.items():
                   if t not in superself.generic_tables:
                     badticdattable = []
-- 
2.43.0


From 39e341bed1bfd538461c491d9ef7559590856287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 13/97] fix: copy_to_pandas replacing generic tables by their
 name

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index cf9dffb..063fb8a 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1665,7 +1665,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         for tname in table_restrictions:
             tdtable = getattr(tic_dat, tname)
             if tname in self.generic_tables:
-                df = tname
+                df = tdtable.copy(deep=True)
             elif len(tdtable) == 0 :
                 df = DataFrame([], columns = self.primary_key_fields.get(tname,tuple()) +
                                                 self.data_fields.get(tname, tuple()))
-- 
2.43.0


From fc0a1d5312f8e94e9b6a1e3fa206fbc0fe5fcd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 14/97] fix: DataFrames indexed by a primary key that has a
 default value

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 063fb8a..42f3ba3 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -799,7 +799,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                        set(superself.default_values.get(t, {})).difference(v.columns):
                         v = v.copy(deep=True)
                         for f, d in superself.default_values.get(t, {}).items():
-                            if f not in v.columns:
+                            if f not in v.columns and f not in v.index.names:
                                 v[f] = d
                     if not (goodticdattable(v, t, lambda x : badticdattable.append(x))) :
                         raise utils.TicDatError(t + " cannot be treated as a ticDat table : " +
-- 
2.43.0


From 44ac70ff3e0a80ff1877f851f3442279adbac9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 15/97] fix: PanDat dropping one-cell numpy arrays

---
 ticdat/pandatfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index cb13e1e..159dc48 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -985,8 +985,8 @@ class PanDatFactory(object):
                 return "pd: {" + ", ".join("%s: %s"%(t, tlen(t)) for t in sorted(superself.all_tables)) + "}"
             def __init__(self, **init_tables):
                 superself._trigger_has_been_used()
-                init_tables = {k: v for k,v in init_tables.items() if isinstance(v, (pd.DataFrame, pd.Series)) or
-                               (v is not None and utils.safe_apply(bool)(v) in (True, None))}
+                init_tables = {k: v for k,v in init_tables.items() if isinstance(v, (pd.DataFrame, pd.Series, numpy.ndarray)) or
+                               utils.safe_apply(bool)(v)}
                 for t in init_tables:
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
                     tbl = None
-- 
2.43.0


From 22c067313704995fa885f5906839b7fcbbf426dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 16/97] fix: generic tables built from a dict reported as
 duplicate rows

---
 ticdat/ticdatfactory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 42f3ba3..f03cb15 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -785,8 +785,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 superself._trigger_has_been_used()
                 self._all_data_dicts = []
                 self._made_foreign_links = False
-                # a generator table has no primary key, and thus no duplicates
-                lens = {t: l for t, v in init_tables.items() if t not in superself.generator_tables
+                # generator tables and generic tables have no primary key, and thus no duplicates
+                lens = {t: l for t, v in init_tables.items()
+                        if t not in superself.generic_tables.union(superself.generator_tables)
                         for l in [utils.safe_apply(len)(v)] if l is not None}
                 for t in init_tables :
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
-- 
2.43.0


From 9b3cabffdc2c759bd51954bcb54c1e686f6e6bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 17/97] fix: as_dict losing rows of generic tables with a
 repeated index

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index f03cb15..b39b2ab 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -630,7 +630,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         for t in set(self.all_tables).difference(dict_tables, self.generic_tables):
             rtn[t] = [{k:v for k,v in row.items()} for row in getattr(ticdat, t)]
         for t in self.generic_tables:
-            rtn[t] = getattr(ticdat, t).to_dict()
+            df = getattr(ticdat, t)
+            rtn[t] = df.to_dict() if df.index.is_unique else df.to_dict(orient="list")
         return rtn
     def __init__(self, **init_fields):
         """
-- 
2.43.0


From 735d4fc4b16f96419721164eb3345ae645ce2855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 18/97] fix: cloning part of a schema that has generic tables

---
 ticdat/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 9219e40..8d49a3a 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -193,15 +193,19 @@ def clone_a_anchillary_info_schema(schema, table_restrictions, fields_to_remove=
     fields_to_remove = clean_up_set_of_str_pairs(fields_to_remove, "fields_to_remove")
     verify(set(table_restrictions).issubset(schema["tables_fields"]),
            "table_restrictions needs to be a subset of schema['tables_fields']")
-    all_fields = {(t, f) for t, (pks, dfs) in schema["tables_fields"].items() for f in pks + dfs}
+    all_fields = {(t, f) for t, fields in schema["tables_fields"].items() if fields != "*"
+                  for f in fields[0] + fields[1]}
     verify(fields_to_remove.issubset(all_fields),
            "fields_to_remove needs to be a subset of the aggregate field set in schema['tables_fields']")
     rtn = {}
     for k, v in schema.items():
         if k == "tables_fields":
             rtn[k] = {}
-            for t, (pks, dfs) in schema[k].items():
-                if t in table_restrictions:
+            for t, fields in schema[k].items():
+                if t in table_restrictions and fields == "*":
+                    rtn[k][t] = fields
+                elif t in table_restrictions:
+                    pks, dfs = fields
                     pks = [f for f in pks if (t, f) not in fields_to_remove]
                     dfs = [f for f in dfs if (t, f) not in fields_to_remove]
                     rtn[k][t] = [pks, dfs]
-- 
2.43.0


From 974bce4ce7c4d27bbe8150af8ea3e02f19bef15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 19/97] fix: cloning part of a TicDatFactory that has generator
 tables

---
 ticdat/ticdatfactory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index b39b2ab..773e72f 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1396,7 +1396,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                                            table_restrictions)
         rtn = clone_factory(full_schema)
         if hasattr(rtn, "set_generator_tables"):
-            rtn.set_generator_tables(self.generator_tables)
+            # the clone might be missing some of these tables, or have added a primary key to them
+            rtn.set_generator_tables([t for t in self.generator_tables if t in rtn.all_tables and
+                                      not rtn.primary_key_fields.get(t)])
         for tbl, row_predicates in self._data_row_predicates.items():
             if table_restrictions is None or tbl in table_restrictions:
                 for pn, rpi in row_predicates.items():
-- 
2.43.0


From 2f2f0c5ba6d74d88db4d6e1469136b1c4bba7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 20/97] fix: cloning a TicDatFactory with foreign key links to
 a PanDatFactory

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 773e72f..1411933 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1406,7 +1406,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                         rtn.add_data_row_predicate(tbl, predicate=rpi.predicate, predicate_name=pn,
                                                    predicate_kwargs_maker=rpi.predicate_kwargs_maker,
                                                    predicate_failure_response=rpi.predicate_failure_response)
-        rtn.enable_foreign_key_links() if self._foreign_key_links_enabled else None
+        if self._foreign_key_links_enabled and hasattr(rtn, "enable_foreign_key_links"):
+            rtn.enable_foreign_key_links()
         if convert_dat: # this function is effectively a constructor so _ reference is ok
             assert callable(convert_dat) and len(inspect.getfullargspec(convert_dat).args) >= 1
             rtn._convert_dat[:] = [convert_dat,
-- 
2.43.0


From afebbda206a800544752edcace1172049c69efee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 21/97] fix: clone_rename_a_column for single-field tables and
 for the parameters table

---
 ticdat/utils.py | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 8d49a3a..42d7231 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -137,33 +137,26 @@ def clone_rename_a_column(tdf_pdf, table, field, new_field):
     verify(table in tdf_pdf.all_tables, "Unrecognized table name %s" % table)
     verify(field in tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table],
            f"field needs to be one of {tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table]}")
-    if field in tdf_pdf.primary_key_fields[table]:
-        args = ("primary key", tdf_pdf.primary_key_fields[table].index(field))
-    else:
-        args = ("data", tdf_pdf.data_fields[table].index(field))
+    verify(isinstance(new_field, str), "new_field needs to be a string")
     verify(new_field not in tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table],
            f"new_field cannot be one of {tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table]}")
-    rtn = clone_add_a_column(clone_remove_a_column(tdf_pdf, table, field), table, new_field, *args)
-    if field in tdf_pdf.data_types.get(table, {}):
-        rtn.set_data_type(table, new_field, *tdf_pdf.data_types[table][field])
-    if field in tdf_pdf.default_values.get(table, {}):
-        rtn.set_default_value(table, new_field, tdf_pdf.default_values[table][field])
-    for fk in tdf_pdf.foreign_keys:
-        def needs_renaming(mp):
-            if hasattr(mp, "native_field"):
-                return (table, field) in {(fk.native_table, mp.native_field), (fk.foreign_table, mp.foreign_field)}
-            return any(needs_renaming(_) for _ in mp) if containerish(mp) else False
-        def do_renaming(mp):
-            field_renaming = lambda _t, _f: new_field if (_t, _f) == (table, field) else _f
-            if hasattr(mp, "native_field"):
-                return (field_renaming(fk.native_table, mp.native_field),
-                        field_renaming(fk.foreign_table, mp.foreign_field))
-            return tuple(do_renaming(_) for _ in mp)if containerish(mp) else mp
-        if needs_renaming(fk.mapping):
-            rtn.add_foreign_key(fk.native_table, fk.foreign_table, do_renaming(fk.mapping))
-    if (table, field) in tdf_pdf.tooltips:
-        rtn.set_tooltip(table, new_field, tdf_pdf.tooltips[table, field])
-    return rtn
+    def rename(t, f):
+        return new_field if (t, f) == (table, field) else f
+    def rename_mapping(fk):
+        mappings = [fk.mapping] if hasattr(fk.mapping, "native_field") else fk.mapping
+        return [[rename(fk.native_table, mp.native_field), rename(fk.foreign_table, mp.foreign_field)]
+                for mp in mappings]
+    def clone_factory(full_schema):
+        full_schema = clone_a_anchillary_info_schema(full_schema, table_restrictions=set(tdf_pdf.all_tables))
+        full_schema["tables_fields"][table] = [[rename(table, f) for f in fields] for fields in
+                                               full_schema["tables_fields"][table]]
+        for k in ["default_values", "data_types", "tooltips"]:
+            if table in full_schema[k]:
+                full_schema[k][table] = {rename(table, f): v for f, v in full_schema[k][table].items()}
+        full_schema["foreign_keys"] = [[fk.native_table, fk.foreign_table, rename_mapping(fk)]
+                                       for fk in full_schema["foreign_keys"]]
+        return tdf_pdf.create_from_full_schema(full_schema)
+    return tdf_pdf.clone(clone_factory=clone_factory)
 
 def clone_a_anchillary_info_schema(schema, table_restrictions, fields_to_remove=None):
     '''
-- 
2.43.0


From f614f28158c4bac970c84a0ac0426cc125e9bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 22/97] fix: remove_parameter allowed after the factory has
 been used

---
 ticdat/pandatfactory.py | 2 ++
 ticdat/ticdatfactory.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 159dc48..df4fb1a 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -780,6 +780,8 @@ class PanDatFactory(object):
 
         :return:
         '''
+        verify(not self._has_been_used,
+               "The parameters can't be changed after a PanDatFactory has been used.")
         verify(name in self._parameters, f"{name} is not a valid parameter")
         self._parameters.pop(name)
 
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 1411933..81d60ab 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -394,6 +394,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
 
         :return:
         '''
+        verify(not self._has_been_used,
+               "The parameters can't be changed after a TicDatFactory has been used.")
         verify(name in self._parameters, f"{name} is not a valid parameter")
         self._parameters.pop(name)
 
-- 
2.43.0


From 3021967677f5787ce088e28598d54c75ece6e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 23/97] fix: reading the pandas json layout into a TicDat of
 another factory

---
 ticdat/jsontd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 0ff2778..ba1f38d 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -63,7 +63,8 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
         self._isFrozen = True
     def _looks_pandas(self, jdict):
         if not all(set(itertools.chain(*v)) == {'columns', 'data'} for v in self.tic_dat_factory.schema().values()):
-            return all(dictish(v) and set(v.keys()) == {'columns', 'data'} for v in  jdict.values())
+            return jdict and \
+                   all(dictish(v) and set(v.keys()) == {'columns', 'data'} for v in  jdict.values())
     def create_tic_dat(self, json_file_path, freeze_it = False, from_pandas = False):
         """
         Create a TicDat object from a json file
@@ -90,7 +91,8 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
             from ticdat import PanDatFactory
             pdf = PanDatFactory.create_from_full_schema(self.tic_dat_factory.schema(include_ancillary_info=True))
             _rtn = pdf.json.create_pan_dat(json_file_path)
-            return pdf.copy_to_tic_dat(_rtn, freeze_it=freeze_it)
+            rtn = self.tic_dat_factory.TicDat(**{t: getattr(_rtn, t) for t in pdf.all_tables})
+            return self.tic_dat_factory.freeze_me(rtn) if freeze_it else rtn
         jdict = self._create_jdict(json_file_path)
         if self._looks_pandas(jdict):
             return self.create_tic_dat(json_file_path, freeze_it=freeze_it, from_pandas=True)
-- 
2.43.0


From 9b2411a586b7a2bdbe539cdb0ca4f0447ab1f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 24/97] fix: foreign key links for permuted foreign keys and
 for tables named like dict methods

---
 ticdat/ticdatfactory.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 81d60ab..e5ea4f9 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -596,18 +596,20 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         if self._has_been_used :
             return # idempotent
         for (nativetable, foreigntable), nativeforeignmappings in self._foreign_keys.items():
-            nativeFieldsSet = frozenset(frozenset(_[0] for _ in nfm) for nfm in nativeforeignmappings
-                                        if self._simple_fk(foreigntable, nfm)) # ignore for complex
-            if len(nativeFieldsSet)==1:
-                self._linkName[nativetable, foreigntable, next(_ for _ in nativeFieldsSet)] = \
-                    nativetable
-            else :
-                for nativeFields in nativeFieldsSet :
-                    trialLinkName = nativeFields
-                    for _ in nativeFieldsSet.difference({nativeFields}) :
-                        trialLinkName = trialLinkName.difference(_)
-                    self._linkName[nativetable, foreigntable, nativeFields] = \
-                        "_".join([nativetable] + [x for x in trialLinkName or nativeFields])
+            # ignore for complex
+            links = {frozenset(nfm) for nfm in nativeforeignmappings if self._simple_fk(foreigntable, nfm)}
+            for link in links:
+                nativeFields = {nf for nf, _ in link}
+                otherFields = [{nf for nf, _ in other} for other in links if other != link]
+                if not otherFields:
+                    linkFields = []
+                elif nativeFields in otherFields: # same fields, matched in a different order
+                    reverseMapping = {ff: nf for nf, ff in link}
+                    linkFields = [reverseMapping[ff] for ff in self.primary_key_fields[foreigntable]]
+                else:
+                    trialFields = nativeFields.difference(*otherFields) or nativeFields
+                    linkFields = [f for f in utils.all_fields(self, nativetable) if f in trialFields]
+                self._linkName[nativetable, foreigntable, link] = "_".join([nativetable] + linkFields)
         self._has_been_used[:] = [True]
     def as_dict(self, ticdat):
         '''
@@ -881,18 +883,21 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 self._made_foreign_links = True
                 can_link_w_me = lambda t : t not in superself.generator_tables and \
                                            superself.primary_key_fields.get(t)
+                already_linked = set()
                 for fk in superself.foreign_keys :
                     t = fk.native_table
                     if can_link_w_me(t):
                       if can_link_w_me(fk.foreign_table)  :
                         nativefields = fk.nativefields()
-                        linkname = superself._linkName[t, fk.foreign_table, frozenset(nativefields)]
-                        if linkname not in ("keys", "items", "values") :
+                        reversemapping  = fk.foreigntonativemapping()
+                        link = (t, fk.foreign_table, frozenset((nf, ff) for ff, nf in reversemapping.items()))
+                        linkname = superself._linkName[link]
+                        if not hasattr(dict, linkname) and link not in already_linked:
+                            already_linked.add(link)
                             ft = getattr(self, fk.foreign_table)
                             foreign_pk = superself.primary_key_fields[fk.foreign_table]
                             local_pk = superself.primary_key_fields[t]
                             assert all(pk for pk in (foreign_pk, local_pk))
-                            reversemapping  = fk.foreigntonativemapping()
                             if len(nativefields) == 1:
                                 assert set(foreign_pk) =={fk.mapping.foreign_field}
                             else:
-- 
2.43.0


From 5042b88aa497e25666956b904008fd82ab056f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 25/97] revert: remove_parameter allowed after the factory has
 been used

This is behaviour the existing suite (testutils testTwentyTwo) relies on, so it was not a defect.
---
 ticdat/pandatfactory.py | 2 --
 ticdat/ticdatfactory.py | 2 --
 2 files changed, 4 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index df4fb1a..159dc48 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -780,8 +780,6 @@ class PanDatFactory(object):
 
         :return:
         '''
-        verify(not self._has_been_used,
-               "The parameters can't be changed after a PanDatFactory has been used.")
         verify(name in self._parameters, f"{name} is not a valid parameter")
         self._parameters.pop(name)
 
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index e5ea4f9..db262d1 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -394,8 +394,6 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
 
         :return:
         '''
-        verify(not self._has_been_used,
-               "The parameters can't be changed after a TicDatFactory has been used.")
         verify(name in self._parameters, f"{name} is not a valid parameter")
         self._parameters.pop(name)
 
-- 
2.43.0


From c9c9748aa7087aabb5f12ddd0800782443a11ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 26/97] fix: SQLite writing of pandas Timestamps, NaT, NaN and
 numpy numbers

---
 ticdat/sqlitetd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index f7dcce0..783063a 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -36,7 +36,7 @@ def _insert_format(x) :
         return "'%s'"%_fix_str(x)
     if x in (float("inf"), -float("inf")) or isinstance(x, datetime.datetime):
         return "'%s'"%x
-    if x is None:
+    if x is None or x != x: # nan is written to the database as null as well
         return "null"
     return str(x)
 
@@ -276,6 +276,10 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             rtn.append(str)
         return tuple(rtn)
     def _write_data_cell(self, t, f, x):
+        if isinstance(x, datetime.datetime): # sqlite3 can't bind a pandas.Timestamp
+            return str(x) if x == x else None
+        if hasattr(x, "item") and hasattr(x, "dtype"): # sqlite3 would store a numpy number as its raw bytes
+            x = x.item()
         if x is True or x is False:
             return str(x)
         return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
-- 
2.43.0


From b301f10ede251a484f2cfd103b90ee9e3e066f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 27/97] fix: tables without primary keys written to SQLite
 unconverted

---
 ticdat/sqlitetd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 783063a..0b69bcf 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -303,7 +303,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                         rtn.append((str, datarow))
             else :
                 for sqldatarow in (_t if containerish(_t) else _t()) :
-                    k,v = zip(*sqldatarow.items())
+                    k,v = zip(*((f, self._write_data_cell(t, f, x)) for f,x in sqldatarow.items()))
                     str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
                              (t, ",".join(_brackets(k)), ",".join(
                                 ["%s" if as_sql else "?"]*len(sqldatarow)))
-- 
2.43.0


From 4b6309b6db0eac2b83fbcaa1aeb0c9ac29a4156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 28/97] fix: SQL text of strings that begin and end with a
 quote

---
 ticdat/sqlitetd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 0b69bcf..88a9c2a 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -22,7 +22,7 @@ def _fix_str(x):
     """
     rtn = []
     for i,c in enumerate(x):
-        preceeding = x[i-1] if x else ""
+        preceeding = x[i-1] if i else ""
         following = x[i+1] if i < len(x)-1 else ""
         if c != "'" or "'" in (preceeding, following):
             rtn.append(c)
-- 
2.43.0


From 33f9a05dcbdfd4a2243fe03683b6d2c95a7efefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 29/97] fix: SQL text files holding strings with semicolons

---
 ticdat/sqlitetd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 88a9c2a..abb38e6 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -142,8 +142,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                                                 difference(tdf.generic_tables)):
                     con.execute(str)
             with open(sql_file_path, "r") as f:
-                for str in f.read().split(";"):
-                    con.execute(str)
+                con.executescript(f.read())
             return self._create_tic_dat_from_con(con,
                         {t:t for t in self.tic_dat_factory.all_tables})
     def _get_table_names(self, db_file_path, tables):
-- 
2.43.0


From a915db5db566de4dcd0b9cb2022dc3f12fad09fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 30/97] fix: SQL text files of tables with % in a name

---
 ticdat/sqlitetd.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index abb38e6..7695656 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -295,21 +295,15 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                     assert len(datarow) == len(fields)
                     datarow = tuple(self._write_data_cell(t, f, x) for f,x in zip(fields, datarow))
                     str = "INSERT INTO [%s] (%s) VALUES (%s)"%(t, ",".join(_brackets(fields)),
-                          ",".join("%s" if as_sql else "?" for _ in fields))
-                    if as_sql:
-                        rtn.append((str%tuple(map(_insert_format, datarow))) + ";")
-                    else:
-                        rtn.append((str, datarow))
+                          ",".join(map(_insert_format, datarow) if as_sql else ["?"]*len(fields)))
+                    rtn.append(str + ";" if as_sql else (str, datarow))
             else :
                 for sqldatarow in (_t if containerish(_t) else _t()) :
                     k,v = zip(*((f, self._write_data_cell(t, f, x)) for f,x in sqldatarow.items()))
                     str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
                              (t, ",".join(_brackets(k)), ",".join(
-                                ["%s" if as_sql else "?"]*len(sqldatarow)))
-                    if as_sql:
-                        rtn.append((str%tuple(map(_insert_format, v))) + ";")
-                    else:
-                        rtn.append((str,v))
+                                map(_insert_format, v) if as_sql else ["?"]*len(sqldatarow)))
+                    rtn.append(str + ";" if as_sql else (str,v))
         return tuple(rtn)
     def write_db_schema(self, db_file_path):
         """
-- 
2.43.0


From f49cbc908fa70c1a4c81dc8410006d952b1ba0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 31/97] fix: SQLite schemas with circular or self referencing
 foreign keys

---
 ticdat/sqlitetd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 7695656..926f0f3 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -237,10 +237,11 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                         rtn[table].append(data)
         return rtn
     def _ordered_tables(self):
-        rtn = []
+        rtn, started = [], set()
         fks = self._fks()
         def processTable(t) :
-            if t not in rtn:
+            if t not in started:
+                started.add(t) # foreign keys can be circular
                 for fk in fks.get(t, ()) :
                     processTable(fk.foreign_table)
                 rtn.append(t)
-- 
2.43.0


From 79f5b35b515b0354771bd5e74a154bff44b2760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 32/97] fix: reading generic tables from SQLite tables with
 spaces or reserved words in their name

---
 ticdat/sqlitetd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 926f0f3..5f23867 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -221,7 +221,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             fields = tdf.primary_key_fields.get(table, ()) + tdf.data_fields.get(table, ())
             if not fields:
                 assert table in tdf.generic_tables
-                fields = tuple(x[1] for x in con.execute("PRAGMA table_info(%s)"%table))
+                fields = tuple(x[1] for x in con.execute("PRAGMA table_info([%s])"%table_names[table]))
             rtn[table]= {} if tdf.primary_key_fields.get(table, ())  else []
             for row in con.execute("Select %s from [%s]"%(", ".join(_brackets(fields)),
                                                           table_names[table])):
-- 
2.43.0


From 494c819b3dc42a040633a2e8f4dd7ccddc7e6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 33/97] fix: default values in SQLite schemas

---
 ticdat/sqlitetd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 5f23867..5373ef7 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -252,6 +252,9 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         rtn = []
         fks = self._fks()
         default_ = lambda t, f : self.tic_dat_factory.default_values[t][f]
+        def default_text(t, f):
+            rtn = self._write_data_cell(t, f, default_(t, f))
+            return "'%s'"%rtn.replace("'", "''") if stringish(rtn) else _insert_format(rtn)
         def data_type(t, f):
             if t == "parameters" and self.tic_dat_factory.parameters:
                 return "" # the TEXT data type doesn't seem to have much value for my purposes.
@@ -264,7 +267,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         for t in [_ for _ in self._ordered_tables() if _ in tables]:
             str = "Create TABLE [%s] (\n"%t
             strl = _brackets(self.tic_dat_factory.primary_key_fields.get(t, ())) + \
-                   ["[%s] " % f + data_type(t,f) + " default [%s]"%default_(t,f)
+                   ["[%s] " % f + data_type(t,f) + " default %s"%default_text(t,f)
                     for f in self.tic_dat_factory.data_fields.get(t, ())]
             for fk in fks.get(t, ()) :
                 nativefields, foreignfields = zip(*(fk.nativetoforeignmapping().items()))
-- 
2.43.0


From 8d11fb975405ab3a4c08351711ce40bff3cb1f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 34/97] fix: text fields with a numeric default value in SQLite
 schemas

---
 ticdat/sqlitetd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 5373ef7..1246763 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -259,6 +259,9 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             if t == "parameters" and self.tic_dat_factory.parameters:
                 return "" # the TEXT data type doesn't seem to have much value for my purposes.
             def_  = default_(t, f)
+            dt = self.tic_dat_factory.data_types.get(t, {}).get(f)
+            if dt and (dt.datetime or dt.strings_allowed):
+                return "" # a numeric column would turn text that looks like a number into that number
             if numericish(def_):
                 if safe_apply(int)(def_) == def_:
                     return "INT"
-- 
2.43.0


From e82d1c974b7622e6f4cd98ebe4f4e6bb034ca69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 35/97] fix: writing PanDat json files with orient records or
 values

---
 ticdat/pandatio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 999f500..a888671 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -219,9 +219,9 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
         verify("index" not in kwargs, "index should be passed as a non-kwargs argument")
         pan_dat = self.pan_dat_factory._pre_write_adjustment(pan_dat)
 
-        if self._modern_pandas:
-            # FYI - pandas Exception: ValueError: 'index=False' is only valid when 'orient' is 'split' or 'table'
-            kwargs["index"] = index if orient in ("split", "table") else True
+        if self._modern_pandas and orient in ("split", "table"):
+            # FYI - depending on the pandas version, either 'index=False' or 'index=True' raises for other orients
+            kwargs["index"] = index
         case_space_table_names = case_space_table_names and \
                                  len(set(self.pan_dat_factory.all_tables)) == \
                                  len(set(map(case_space_to_pretty, self.pan_dat_factory.all_tables)))
-- 
2.43.0


From 0c557d521b8241af7167760054d655f379217853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 36/97] fix: nulls in text fields and parameters of PanDat json
 files

---
 ticdat/pandatfactory.py | 15 +--------------
 ticdat/pandatio.py      | 13 ++++++++++---
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 159dc48..9ad7e30 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -438,25 +438,19 @@ class PanDatFactory(object):
                 if fld_singleton[0] not in rtn:
                     rtn[fld_singleton[0]] = str
         return rtn
-    def _general_post_read_adjustment(self, dat, push_parameters_to_be_valid=False, json_read=False):
+    def _general_post_read_adjustment(self, dat, push_parameters_to_be_valid=False):
         '''
         we expect other routines inside ticdat to access this routine, even though it starts with _
         :param dat: PanDat object that was just read from an external data source. dat will be side-effected
         :param push_parameters_to_be_valid : needed for certain file formats, where pandas makes pushy assumptions
                                              about type that might need to be undone
-        :param json_read: special 'None'->None override needed for pandas json reader
         '''
-        assert push_parameters_to_be_valid or not json_read, "json_read should always push_parameters_to_be_valid"
         def _multitype_cell_adj(x):
             _x = safe_apply(float)(x)
             return x if _x is None else _x
         def _datetime_cell_adj(x):
             _x = utils.dateutil_adjuster(x)
             return x if _x is None else _x
-        def _json_none_cell_adj(x):
-            if utils.stringish(x) and x.lower() == "none":
-                return None
-            return x
         def _inf_cell_adj(x):
             if not utils.numericish(x):
                 return x
@@ -485,10 +479,6 @@ class PanDatFactory(object):
                                         if pd.isnull(x) else x)
                 if dt and dt.datetime:
                     df[f] = df[f].apply(_datetime_cell_adj)
-                if json_read and self._dtypes_for_pandas_read(t).get(f) == str:
-                    assert dt, "assumed because _dtypes_for_pandas_read result"
-                    if dt.nullable:
-                        df[f] = df[f].apply(_json_none_cell_adj)
 
         # this is the logic that is used in lieu of infinity_io_flag logic for the parameters table
         # it is predicated on the assumption that the parameters table will be serialized to a string/string table
@@ -504,9 +494,6 @@ class PanDatFactory(object):
                     _can_parameter_have_data(key, utils.dateutil_adjuster(value)) and \
                     push_parameters_to_be_valid:
                     return utils.dateutil_adjuster(value)
-                if json_read and utils.stringish(value) and value.lower() == "none" and \
-                    _can_parameter_have_data(key, None):
-                    return None
                 if not _can_parameter_have_number(key):
                     if push_parameters_to_be_valid and not _can_parameter_have_data(key, value) and \
                        _can_parameter_have_data(key, str(value)):
diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index a888671..a701f2a 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -34,7 +34,7 @@ class _DummyContextManager(object):
     def __exit__(self, *excinfo) :
         pass
 
-def _clean_pandat_creator(pdf, df_dict, push_parameters_to_be_valid=True, json_read=False):
+def _clean_pandat_creator(pdf, df_dict, push_parameters_to_be_valid=True):
     # note that pandas built in IO routines tend to be a bit overy pushy with the typing, hence
     # the push_parameters_to_be_valid argument
     pandat = pdf.PanDat(**df_dict)
@@ -44,7 +44,7 @@ def _clean_pandat_creator(pdf, df_dict, push_parameters_to_be_valid=True, json_r
     missing_tables = '\n'.join(sorted({t for t in pdf.all_tables if not len(getattr(pandat, t))}))
     msg = []
     assert pdf.good_pan_dat_object(pandat, msg.append), str(msg)
-    return pdf._general_post_read_adjustment(pandat, json_read=json_read,
+    return pdf._general_post_read_adjustment(pandat,
                                              push_parameters_to_be_valid=push_parameters_to_be_valid)
 
 class JsonPanFactory(freezable_factory(object, "_isFrozen")):
@@ -120,6 +120,13 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
                 if "dtype" not in kwargs_:
                     kwargs_["dtype"] = self.pan_dat_factory._dtypes_for_pandas_read(t)
                 rtn[t] = pd.read_json(StringIO(json.dumps(loaded_dict[f])), orient=orient, **kwargs_)
+                text_fields = [c for c, d in kwargs_["dtype"].items() if d == str and c in rtn[t].columns] \
+                              if dictish(kwargs_["dtype"]) else []
+                if text_fields: # pandas turns the nulls of such fields into text, like "None" or "nan"
+                    untyped = pd.read_json(StringIO(json.dumps(loaded_dict[f])), orient=orient,
+                                           **dict(kwargs_, dtype=False))
+                    for c in text_fields:
+                        rtn[t][c] = rtn[t][c].where(untyped[c].notnull(), None)
             missing_fields = {(t, f) for t in rtn for f in all_fields(self.pan_dat_factory, t)
                               if f not in rtn[t].columns}
             if fill_missing_fields:
@@ -133,7 +140,7 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
         if missing_tables:
             print("The following table names could not be found in the json file/string.\n%s\n" %
                   "\n".join(missing_tables))
-        return _clean_pandat_creator(self.pan_dat_factory, rtn, json_read=True)
+        return _clean_pandat_creator(self.pan_dat_factory, rtn)
 
     def _get_table_names(self, loaded_dict):
         rtn = {}
-- 
2.43.0


From e0f30f5e2b1da567118c9c52a9cafcd4278abdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 37/97] fix: datetime.datetime cells and datetime parameters in
 write_file_pd

---
 ticdat/pandatio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index a701f2a..66fc2a2 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -238,13 +238,13 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
                  replace(-float("inf"), f"-{infinity_flagging_str}")
             for f in df.columns:
                 dt = self.pan_dat_factory.data_types.get(t, {}).get(f, None)
-                if dt and dt.datetime:
+                if (dt and dt.datetime) or (t == "parameters" and self.pan_dat_factory.parameters):
                     # pandas can be a real PIA when trying to mix types in a column
                     def fixed(row): # this might not always fix things
-                        if isinstance(row[f], (pd.Timestamp, numpy.datetime64)):
-                            return str(row[f])
                         if pd.isnull(row[f]):
                             return None
+                        if isinstance(row[f], (pd.Timestamp, numpy.datetime64, datetime.datetime)):
+                            return str(row[f])
                         return row[f]
                     df[f] = faster_df_apply(df, fixed)
             k = case_space_to_pretty(t) if case_space_table_names else t
-- 
2.43.0


From ac89250576cf0f12018e2c4a61ea379edafbb354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 38/97] fix: PanDat SQLite files with datetimes in mixed type
 columns

---
 ticdat/pandatio.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 66fc2a2..6e44579 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -503,8 +503,14 @@ class SqlPanFactory(freezable_factory(object, "_isFrozen")):
         with con_maker() as _:
             con_ = con or _
             for t in self.pan_dat_factory.all_tables:
-                getattr(pan_dat, t).to_sql(name=case_space_to_pretty(t) if case_space_table_names else t,
-                                           con=con_, if_exists=if_exists, index=False)
+                df = getattr(pan_dat, t)
+                for f in df.columns:
+                    # sqlite3 can't bind the pd.Timestamps of a column with mixed types
+                    if df[f].dtype == object and any(isinstance(x, datetime.datetime) for x in df[f]):
+                        df = df.assign(**{f: [str(x) if isinstance(x, datetime.datetime) and not pd.isnull(x) else x
+                                              for x in df[f]]})
+                df.to_sql(name=case_space_to_pretty(t) if case_space_table_names else t,
+                          con=con_, if_exists=if_exists, index=False)
 
 class XlsPanFactory(freezable_factory(object, "_isFrozen")):
     """
-- 
2.43.0


From 5f18c54c38e16827cbe248fff493a3825924c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 39/97] fix: reading empty tables from PanDat json files with
 orient="index"

---
 ticdat/pandatio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 6e44579..941b2da 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -116,6 +116,9 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
             verify("orient" not in kwargs, "orient should be passed as a non-kwargs argument")
             rtn = {}
             for t, f in tbl_names.items():
+                if orient == "index" and not loaded_dict[f]: # this orient has no place for the fields of an empty table
+                    rtn[t] = pd.DataFrame(columns=list(all_fields(self.pan_dat_factory, t)))
+                    continue
                 kwargs_ = dict(kwargs)
                 if "dtype" not in kwargs_:
                     kwargs_["dtype"] = self.pan_dat_factory._dtypes_for_pandas_read(t)
-- 
2.43.0


From 6097d6b0efcb47f629120942e22699390675930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 40/97] fix: null parameters read as text by PanDat readers

---
 ticdat/pandatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 9ad7e30..06f39ae 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -495,7 +495,8 @@ class PanDatFactory(object):
                     push_parameters_to_be_valid:
                     return utils.dateutil_adjuster(value)
                 if not _can_parameter_have_number(key):
-                    if push_parameters_to_be_valid and not _can_parameter_have_data(key, value) and \
+                    if push_parameters_to_be_valid and not isnull(value) and \
+                       not _can_parameter_have_data(key, value) and \
                        _can_parameter_have_data(key, str(value)):
                         return str(value) # this is a bit of extreme defensive programming, not covered by unittests
                     return value
-- 
2.43.0


From 148ce7dfb189ad5d532441857b69d070ba6a4b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 41/97] fix: PanDat json reader converting fields and field
 names that look like dates

---
 ticdat/pandatio.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 941b2da..ca9c92b 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -122,14 +122,20 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
                 kwargs_ = dict(kwargs)
                 if "dtype" not in kwargs_:
                     kwargs_["dtype"] = self.pan_dat_factory._dtypes_for_pandas_read(t)
+                if orient != "table":
+                    # pandas would convert fields (and field names) that look like dates, no matter the data types
+                    kwargs_ = dict({"convert_dates": False, "convert_axes": False}, **kwargs_)
                 rtn[t] = pd.read_json(StringIO(json.dumps(loaded_dict[f])), orient=orient, **kwargs_)
+                if orient in ("columns", "index") and not kwargs_["convert_axes"]:
+                    row_names = safe_apply(rtn[t].index.astype)("int64")
+                    rtn[t].index = rtn[t].index if row_names is None else row_names
                 text_fields = [c for c, d in kwargs_["dtype"].items() if d == str and c in rtn[t].columns] \
                               if dictish(kwargs_["dtype"]) else []
                 if text_fields: # pandas turns the nulls of such fields into text, like "None" or "nan"
                     untyped = pd.read_json(StringIO(json.dumps(loaded_dict[f])), orient=orient,
                                            **dict(kwargs_, dtype=False))
                     for c in text_fields:
-                        rtn[t][c] = rtn[t][c].where(untyped[c].notnull(), None)
+                        rtn[t][c] = rtn[t][c].where(untyped[c].notnull().values, None)
             missing_fields = {(t, f) for t in rtn for f in all_fields(self.pan_dat_factory, t)
                               if f not in rtn[t].columns}
             if fill_missing_fields:
-- 
2.43.0


From 8709c4fd802c74c0f4b817105bd294427eb4712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 42/97] fix: integer division in baseConverter

---
 ticdat/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 42d7231..6237e59 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -958,9 +958,9 @@ def baseConverter(number, base):
     while power * base <= number:
         power *= base
     while power >= base :
-        rtn.append(number / power)
-        number -= power * (number/power)
-        power /= base
+        rtn.append(number // power)
+        number -= power * (number // power)
+        power //= base
     rtn.append(number%base)
     return rtn
 
-- 
2.43.0


From a19b96875aab659e035148fcbaa69d9db262868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 43/97] fix: obfusimplify for tables whose primary keys mix
 types

---
 ticdat/ticdatfactory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index db262d1..d8edb31 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -2196,7 +2196,11 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
 
         reverse_renamings = {}
         for t in table_prepends :
-            for i,k in enumerate(sorted(getattr(tic_dat, t))) :
+            try:
+                sorted_pks = sorted(getattr(tic_dat, t))
+            except TypeError: # a mix of types that aren't comparable to each other
+                sorted_pks = sorted(getattr(tic_dat, t), key=lambda k: (str(type(k)), str(k)))
+            for i,k in enumerate(sorted_pks) :
                 reverse_renamings[t, k] = "%s%s"%(table_prepends[t],i+1)
         foreign_keys = {}
         for fk in better_self.foreign_keys:
-- 
2.43.0


From d53299f61a878b876f907896c0eb60dc81b3dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 44/97] fix: obfusimplify with generic tables

---
 ticdat/ticdatfactory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index d8edb31..a15741b 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -2213,6 +2213,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         rtn_dict  = clt.defaultdict(dict)
         for t in better_self.all_tables:
             read_table = getattr(tic_dat, t)
+            if t in better_self.generic_tables:
+                rtn_dict[t] = read_table
+                continue
             def fix_all_row(all_row):
                 return {k: reverse_renamings[foreign_keys[t, k], v] if (t,k) in foreign_keys else v
                            for k,v in all_row.items()}
-- 
2.43.0


From b0dd5e048f3bb20358d3d3105b76e051a1c9db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 45/97] fix: write NaT as null in json, csv and Excel files

---
 ticdat/csvtd.py  | 6 ++++--
 ticdat/jsontd.py | 2 +-
 ticdat/xls.py    | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index d4de8f7..64eef75 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -4,7 +4,7 @@ PEP8
 """
 
 import os
-from ticdat.utils import DataFrame, create_generic_free, numericish, case_space_to_pretty
+from ticdat.utils import DataFrame, create_generic_free, numericish, case_space_to_pretty, pd
 from ticdat.utils import freezable_factory, TicDatError, verify, containerish, dictish
 from collections import defaultdict
 from itertools import product
@@ -15,6 +15,7 @@ except:
     csv = None
 
 _can_unit_test = csv
+NaT = getattr(pd, "NaT", float("nan"))
 
 class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
     """
@@ -262,7 +263,8 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
                         tdf.primary_key_fields.get(t, ()) + tdf.data_fields.get(t, ()) )
                  writer.writeheader() if write_header else None
                  def infinty_io_dict(d):
-                     return {f: self.tic_dat_factory._infinity_flag_write_cell(t, f, x) for f,x in d.items()}
+                     return {f: self.tic_dat_factory._infinity_flag_write_cell(t, f, x) for f,x in d.items()
+                             if x is not NaT} # DictWriter leaves the missing cells empty
                  _t =  getattr(tic_dat, t)
                  if dictish(_t) :
                      for p_key, data_row in _t.items() :
diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index ba1f38d..52bda9e 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -26,7 +26,7 @@ def make_json_dict(tdf, tic_dat, verbose=False, use_infinity_io_flag_if_provided
     assert tdf.good_tic_dat_object(tic_dat)
     def write_cell(t, f, x):
         if isinstance(x, datetime.datetime):
-            return str(x)
+            return str(x) if x == x else None # NaT is an instance of datetime
         return x if not use_infinity_io_flag_if_provided else tdf._infinity_flag_write_cell(t, f, x)
     jdict = {t: [] for t in tdf.all_tables}
     for t in tdf.all_tables:
diff --git a/ticdat/xls.py b/ticdat/xls.py
index 6be01f4..990be8c 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -422,7 +422,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         def clean_for_write(t, f, x):
             if isinstance(x, datetime.datetime):
-                return str(x)
+                return str(x) if x == x else None # NaT is an instance of datetime
             return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
         book = xlwt.Workbook()
         for t in  sorted(sorted(tdf.all_tables),
@@ -454,7 +454,9 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
             if self.tic_dat_factory.infinity_io_flag != "N/A" or \
                (t == "parameters" and self.tic_dat_factory.parameters):
                 x = self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
-            if x in [float("inf"), -float("inf")] or isinstance(x, datetime.datetime):
+            if isinstance(x, datetime.datetime):
+                return str(x) if x == x else None # NaT is an instance of datetime
+            if x in [float("inf"), -float("inf")]:
                 return str(x)
             return x
         for t in sorted(sorted(tdf.all_tables),
-- 
2.43.0


From d7298e09f3d492011b6cef39fea7a439d7e71540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 46/97] fix: numpy numbers in json files

---
 ticdat/jsontd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 52bda9e..2302375 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -27,6 +27,8 @@ def make_json_dict(tdf, tic_dat, verbose=False, use_infinity_io_flag_if_provided
     def write_cell(t, f, x):
         if isinstance(x, datetime.datetime):
             return str(x) if x == x else None # NaT is an instance of datetime
+        if hasattr(x, "item") and hasattr(x, "dtype"): # the json package can't write a numpy number
+            x = x.item()
         return x if not use_infinity_io_flag_if_provided else tdf._infinity_flag_write_cell(t, f, x)
     jdict = {t: [] for t in tdf.all_tables}
     for t in tdf.all_tables:
-- 
2.43.0


From aeac52e691b078140b44acb412f7eb7ec5ca281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 47/97] fix: recognize the pandas json format for tables whose
 fields are columns and data

---
 ticdat/jsontd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 2302375..729fe50 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -7,7 +7,6 @@ from collections import defaultdict
 from ticdat.utils import freezable_factory, TicDatError, verify, stringish, dictish, containerish
 from ticdat.utils import find_duplicates_from_dict_ticdat
 import datetime
-import itertools
 
 try:
     import json
@@ -64,9 +63,8 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
         self.tic_dat_factory = tic_dat_factory
         self._isFrozen = True
     def _looks_pandas(self, jdict):
-        if not all(set(itertools.chain(*v)) == {'columns', 'data'} for v in self.tic_dat_factory.schema().values()):
-            return jdict and \
-                   all(dictish(v) and set(v.keys()) == {'columns', 'data'} for v in  jdict.values())
+        # the other json formats have a list of rows for each table
+        return jdict and all(dictish(v) and set(v.keys()) == {'columns', 'data'} for v in  jdict.values())
     def create_tic_dat(self, json_file_path, freeze_it = False, from_pandas = False):
         """
         Create a TicDat object from a json file
-- 
2.43.0


From c1fb9feb30b735798a718ba67194e7f4c02f2ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:58 +0000
Subject: [PATCH 48/97] fix: numpy numbers in PanDat json files

---
 ticdat/pandatio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index ca9c92b..67bb84e 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -183,6 +183,8 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
                 return None
             if isinstance(x, (pd.Timestamp, numpy.datetime64, datetime.datetime)):
                 return str(x)
+            if hasattr(x, "item") and hasattr(x, "dtype"): # the json package can't write a numpy number
+                x = x.item()
             return x
 
         for t, (pks, dfs) in self.pan_dat_factory.schema().items():
-- 
2.43.0


From 902548e5fd5db94b5e3ad3173ff9d0e918ed19f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 49/97] fix: line breaks inside csv cells

---
 ticdat/csvtd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index 64eef75..8ce7ca6 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -149,7 +149,7 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         rtn = {t:defaultdict(int) for t,_ in tdf.primary_key_fields.items()
                if _ and self._get_file_path(dir_path, t)}
         for t in rtn:
-            with open(self._get_file_path(dir_path, t), encoding=encoding) as csvfile:
+            with open(self._get_file_path(dir_path, t), encoding=encoding, newline='') as csvfile:
                 for r in self._get_data(csvfile, t, dialect, headers_present):
                     p_key = r[tdf.primary_key_fields[t][0]] \
                             if len(tdf.primary_key_fields[t])==1 else \
@@ -196,12 +196,12 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         if table in tdf.generator_tables:
             def rtn() :
-                with open(file_path, encoding=encoding) as csvfile:
+                with open(file_path, encoding=encoding, newline='') as csvfile:
                     for r in self._get_data(csvfile, table, dialect, headers_present):
                         yield tuple(r[_] for _ in tdf.data_fields[table])
         else:
             rtn = {} if tdf.primary_key_fields.get(table) else []
-            with open(file_path, encoding=encoding) as csvfile:
+            with open(file_path, encoding=encoding, newline='') as csvfile:
                 for r in self._get_data(csvfile, table, dialect, headers_present) :
                     if tdf.primary_key_fields.get(table) :
                         p_key = r[tdf.primary_key_fields[table][0]] \
-- 
2.43.0


From 315d30c3f450625215d986ba1b485c6a8b75214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 50/97] fix: case_space_table_names with generic tables in csv

---
 ticdat/csvtd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index 8ce7ca6..c53a307 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -242,7 +242,8 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(not os.path.isfile(dir_path), "A file is not a valid directory path")
         if self.tic_dat_factory.generic_tables:
             dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)
-            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header)
+            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header,
+                                           case_space_table_names)
         tdf = self.tic_dat_factory
         msg = []
         if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
-- 
2.43.0


From e6bcd3fa9fe7d242030e6fb5a251f702b094b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 51/97] fix: write generic tables without losing the other
 rules of the factory

---
 ticdat/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 6237e59..c4d1a99 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -839,8 +839,15 @@ def create_generic_free(td, tdf):
     for t in tdf.generic_tables:
         if len(getattr(td, t)):
             sch[t] = [[],list(getattr(td, t).columns)]
-    rtn_tdf = ticdat.TicDatFactory(**sch)
-    return rtn_tdf.TicDat(**{t:getattr(td, t) for t in rtn_tdf.all_tables}), rtn_tdf
+    # the data types, infinity_io_flag, etc, of the original factory apply to the writing as well
+    rtn_tdf = ticdat.TicDatFactory.create_from_full_schema(
+        dict(tdf.schema(include_ancillary_info=True), tables_fields=sch))
+    rtn_tdf.set_generator_tables(tdf.generator_tables)
+    def table(t):
+        if t in tdf.generic_tables: # rows, since DataFrame columns that look like index names aren't always accepted
+            return [list(row) for row in getattr(td, t).itertuples(index=False, name=None)]
+        return getattr(td, t)
+    return rtn_tdf.TicDat(**{t:table(t) for t in rtn_tdf.all_tables}), rtn_tdf
 
 class Slicer(object):
     """
-- 
2.43.0


From b0916d3d09be61ad051e6216d904a2889849bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 52/97] fix: carriage returns inside text survive the SQL text
 files

---
 ticdat/sqlitetd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 1246763..5d9f436 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -141,7 +141,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                 for str in self._get_schema_sql(set(tdf.all_tables).
                                                 difference(tdf.generic_tables)):
                     con.execute(str)
-            with open(sql_file_path, "r") as f:
+            with open(sql_file_path, "r", newline="") as f:
                 con.executescript(f.read())
             return self._create_tic_dat_from_con(con,
                         {t:t for t in self.tic_dat_factory.all_tables})
@@ -388,7 +388,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         return self._write_sql_file(tic_dat, sql_file_path, must_schema)
 
     def _write_sql_file(self, tic_dat, sql_file_path, schema_tables):
-        with open(sql_file_path, "w") as f:
+        with open(sql_file_path, "w", newline="") as f:
             for str in self._get_schema_sql(schema_tables) + \
                        self._get_data(tic_dat, as_sql=True):
                 f.write(str + "\n")
-- 
2.43.0


From 99d5f9c0b5cd164b6701de30466df1b2ad8ca442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 53/97] fix: xlsx sheets with leading blank rows are read
 completely

---
 ticdat/xls.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 990be8c..7d4ac66 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -70,11 +70,13 @@ class _OpenPyxlSheetWrapper(object):
             self._max_row = i+1
     @property
     def nrows(self):
-        return self._sheet.max_row-self._sheet.min_row+1
+        return self._max_row # counted from the top of the sheet, as xlrd does
     def row_values(self, row_index): # openpyxl used 1 based indexing
         return tuple(x.value for x in next(iter(self._sheet.iter_rows(min_row=row_index+1, max_row=row_index+1,
                                                                       min_col=1, max_col=self._max_col))))
     def col_values(self, col_index): # openpyxl used 1 based indexing
+        if self._max_row == 0:
+            return ()
         return tuple(x.value for x in next(iter(self._sheet.iter_cols(min_col=col_index+1, max_col=col_index+1,
                                                                       min_row=1, max_row=self._max_row))))
 
-- 
2.43.0


From c4c3118f09402ccf557087853320dfc157f65623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 54/97] fix: xlsx writer writes text as text

---
 ticdat/xls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 7d4ac66..8cf8c0d 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -451,7 +451,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         if os.path.exists(file_path):
             os.remove(file_path)
-        book = xlsx.Workbook(file_path)
+        book = xlsx.Workbook(file_path, {"strings_to_formulas": False, "strings_to_urls": False})
         def clean_for_write(t, f, x):
             if self.tic_dat_factory.infinity_io_flag != "N/A" or \
                (t == "parameters" and self.tic_dat_factory.parameters):
-- 
2.43.0


From 5030b64516719621d76ea718b3d11cea93af57ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:54 +0000
Subject: [PATCH 55/97] fix: xlsx writer writes text as text, array formula
 look-alikes included

---
 ticdat/xls.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 8cf8c0d..35b7415 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -451,7 +451,9 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         if os.path.exists(file_path):
             os.remove(file_path)
-        book = xlsx.Workbook(file_path, {"strings_to_formulas": False, "strings_to_urls": False})
+        book = xlsx.Workbook(file_path)
+        def write(sheet, row, col, x): # sheet.write would turn text like "=a" or "http://a" into formulas and links
+            return (sheet.write_string if utils.stringish(x) and x else sheet.write)(row, col, x)
         def clean_for_write(t, f, x):
             if self.tic_dat_factory.infinity_io_flag != "N/A" or \
                (t == "parameters" and self.tic_dat_factory.parameters):
@@ -466,16 +468,16 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
             all_flds = self.tic_dat_factory.primary_key_fields.get(t, ()) + self.tic_dat_factory.data_fields.get(t, ())
             sheet = book.add_worksheet(tbl_name_mapping[t][:_longest_sheet])
             for i,f in enumerate(tdf.primary_key_fields.get(t,()) + tdf.data_fields.get(t, ())) :
-                sheet.write(0, i, f)
+                write(sheet, 0, i, f)
             _t = getattr(tic_dat, t)
             if utils.dictish(_t) :
                 for row_ind, (p_key, data) in enumerate(_t.items()) :
                     for field_ind, cell in enumerate( (p_key if containerish(p_key) else (p_key,)) +
                                         tuple(data[_f] for _f in tdf.data_fields.get(t, ()))):
                         write_cell =  clean_for_write(t, all_flds[field_ind], cell)
-                        sheet.write(row_ind+1, field_ind, write_cell)
+                        write(sheet, row_ind+1, field_ind, write_cell)
             else :
                 for row_ind, data in enumerate(_t if containerish(_t) else _t()) :
                     for field_ind, cell in enumerate(tuple(data[_f] for _f in tdf.data_fields[t])) :
-                        sheet.write(row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))
+                        write(sheet, row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))
         book.close()
-- 
2.43.0


From 8584e4fc86461a21445173953b716f7ea2f4e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 56/97] fix: NaN is written to xlsx as an empty cell

---
 ticdat/xls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 35b7415..923b0a4 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -462,7 +462,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
                 return str(x) if x == x else None # NaT is an instance of datetime
             if x in [float("inf"), -float("inf")]:
                 return str(x)
-            return x
+            return None if x != x else x # NaN is another null
         for t in sorted(sorted(tdf.all_tables),
                          key=lambda x: len(tdf.primary_key_fields.get(x, ()))) :
             all_flds = self.tic_dat_factory.primary_key_fields.get(t, ()) + self.tic_dat_factory.data_fields.get(t, ())
-- 
2.43.0


From 1c97d4b6198c98b9646598254a898ebef851cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 57/97] fix: numpy numbers can be written to xls files

---
 ticdat/xls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 923b0a4..f8a8eb8 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -425,7 +425,8 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         def clean_for_write(t, f, x):
             if isinstance(x, datetime.datetime):
                 return str(x) if x == x else None # NaT is an instance of datetime
-            return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
+            rtn = self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
+            return rtn.item() if hasattr(rtn, "item") else rtn # xlwt can't write numpy integers
         book = xlwt.Workbook()
         for t in  sorted(sorted(tdf.all_tables),
                          key=lambda x: len(tdf.primary_key_fields.get(x, ()))) :
-- 
2.43.0


From 4f4a2a8159dfe709817d1d24f18e5de61313c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 58/97] fix: PanDat xlsx writer writes text as text

---
 ticdat/pandatio.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 67bb84e..01859ee 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -18,6 +18,10 @@ try:
     import numpy
 except:
     numpy = None
+try:
+    import xlsxwriter
+except:
+    xlsxwriter = None
 
 _longest_sheet = 30 # seems to be an Excel limit with pandas
 
@@ -642,7 +646,12 @@ class XlsPanFactory(freezable_factory(object, "_isFrozen")):
         case_space_sheet_names = case_space_sheet_names and \
                                  len(set(self.pan_dat_factory.all_tables)) == \
                                  len(set(map(case_space_to_pretty, self.pan_dat_factory.all_tables)))
-        with pd.ExcelWriter(file_path) as writer:
+        kwargs = {}
+        if xlsxwriter and stringish(file_path) and file_path.endswith(".xlsx"):
+            # text should be written as text, even when it begins with "=" or looks like a link
+            kwargs = {"engine": "xlsxwriter",
+                      "engine_kwargs": {"options": {"strings_to_formulas": False, "strings_to_urls": False}}}
+        with pd.ExcelWriter(file_path, **kwargs) as writer:
             for t in self.pan_dat_factory.all_tables:
                 getattr(pan_dat, t).to_excel \
                     (writer, sheet_name=(case_space_to_pretty(t) if case_space_sheet_names else t)[:_longest_sheet],
-- 
2.43.0


From fdd853eb8b242f5ee569714d3ab57cd811173284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 59/97] fix: PanDat SQLite writer keeps object columns of
 numbers numeric

---
 ticdat/pandatio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 01859ee..83959fa 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -524,6 +524,9 @@ class SqlPanFactory(freezable_factory(object, "_isFrozen")):
                     if df[f].dtype == object and any(isinstance(x, datetime.datetime) for x in df[f]):
                         df = df.assign(**{f: [str(x) if isinstance(x, datetime.datetime) and not pd.isnull(x) else x
                                               for x in df[f]]})
+                    # otherwise pandas writes a column of both int and float objects as text
+                    elif pd.api.types.infer_dtype(df[f], skipna=True) == "mixed-integer-float":
+                        df = df.assign(**{f: df[f].astype(float)})
                 df.to_sql(name=case_space_to_pretty(t) if case_space_table_names else t,
                           con=con_, if_exists=if_exists, index=False)
 
-- 
2.43.0


From ecdd50baa9da999853ae69ac8178a09dad933f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 60/97] fix: no infinity flagging of a parameters table without
 declared parameters

---
 ticdat/ticdatfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index a15741b..eadb609 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1076,9 +1076,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         :param x: cell value which might need to be adjusted
         :return: x, adjusted as required
         """
-        if t == "parameters" and self._parameters: # SPEED IS IMPORTANT
+        if t == "parameters": # SPEED IS IMPORTANT
             # I will assume a parameters table without parameters specification is just a naive developer
-            return None if x is None or (utils.pd and utils.pd.isnull(x)) else x
+            return None if self._parameters and (x is None or (utils.pd and utils.pd.isnull(x))) else x
         if self.infinity_io_flag is None and (self._none_as_infinity_bias(t, f) or float("nan"))*float("inf") == x:
             return None
         if utils.numericish(self.infinity_io_flag) and utils.numericish(x):
-- 
2.43.0


From 3429911bcc8d85545d01cde64575c485983abe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 61/97] fix: csv allow_overwrite checks the files that will be
 written

---
 ticdat/csvtd.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index c53a307..e68c8b4 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -248,18 +248,18 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         msg = []
         if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
             raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))
+        case_space_table_names = case_space_table_names and \
+                                 len(set(self.tic_dat_factory.all_tables)) == \
+                                 len(set(map(case_space_to_pretty, self.tic_dat_factory.all_tables)))
+        file_paths = {t: os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")
+                      for t in tdf.all_tables}
         if not allow_overwrite:
-            for t in tdf.all_tables :
-                f = os.path.join(dir_path, t + ".csv")
+            for f in file_paths.values():
                 verify(not os.path.exists(f), "The %s path exists and overwrite is not allowed"%f)
         if not os.path.isdir(dir_path) :
             os.mkdir(dir_path)
-        case_space_table_names = case_space_table_names and \
-                                 len(set(self.tic_dat_factory.all_tables)) == \
-                                 len(set(map(case_space_to_pretty, self.tic_dat_factory.all_tables)))
         for t in tdf.all_tables :
-            f = os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")
-            with open(f, 'w', newline='') as csvfile:
+            with open(file_paths[t], 'w', newline='') as csvfile:
                  writer = csv.DictWriter(csvfile,dialect=dialect, fieldnames=
                         tdf.primary_key_fields.get(t, ()) + tdf.data_fields.get(t, ()) )
                  writer.writeheader() if write_header else None
-- 
2.43.0


From 430c94fbf073465d8640eb2399a14d7b9bc5ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 62/97] fix: xlsx writer raises for data an Excel sheet can't
 hold

---
 ticdat/xls.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index f8a8eb8..35f4ad6 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -454,7 +454,10 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
             os.remove(file_path)
         book = xlsx.Workbook(file_path)
         def write(sheet, row, col, x): # sheet.write would turn text like "=a" or "http://a" into formulas and links
-            return (sheet.write_string if utils.stringish(x) and x else sheet.write)(row, col, x)
+            if (sheet.write_string if utils.stringish(x) and x else sheet.write)(row, col, x):
+                # xlsxwriter drops or truncates what doesn't fit into an Excel sheet without raising an exception
+                raise TicDatError("%s can't hold the data for row %s, column %s of sheet %s"%
+                                  (file_path, row, col, sheet.name))
         def clean_for_write(t, f, x):
             if self.tic_dat_factory.infinity_io_flag != "N/A" or \
                (t == "parameters" and self.tic_dat_factory.parameters):
-- 
2.43.0


From 7ae3f4067849ad257bcb6798184ab5d76a185daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 63/97] fix: recognize the pandas json format when it includes
 the index

---
 ticdat/jsontd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 729fe50..b3f0a4d 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -64,7 +64,8 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
         self._isFrozen = True
     def _looks_pandas(self, jdict):
         # the other json formats have a list of rows for each table
-        return jdict and all(dictish(v) and set(v.keys()) == {'columns', 'data'} for v in  jdict.values())
+        return jdict and all(dictish(v) and {'columns', 'data'} <= set(v.keys()) <= {'columns', 'data', 'index'}
+                             for v in  jdict.values())
     def create_tic_dat(self, json_file_path, freeze_it = False, from_pandas = False):
         """
         Create a TicDat object from a json file
-- 
2.43.0


From dfc7d736080b968a70c5abdc4986aabc7046c032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 64/97] fix: refuse headerless csv rows with too few columns

---
 ticdat/csvtd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index e68c8b4..58a6308 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -174,7 +174,7 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         for row in csv.DictReader(csvfile, dialect = dialect,
                             **({"fieldnames":fieldnames} if not headers_present else {})):
             if not headers_present:
-                verify(len(row) == len(fieldnames),
+                verify(len(row) == len(fieldnames) and None not in row.values(),
                    "Need %s columns for table %s"%(len(fieldnames), table))
                 yield {f: self._read_cell(table, f, row[f]) for f in fieldnames}
             else:
-- 
2.43.0


From 5636e9836c6e20331a370c17391ea0be81886448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 65/97] fix: refuse missing fields in json files whose rows are
 dictionaries

---
 ticdat/pandatio.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 83959fa..f75b75a 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -113,6 +113,12 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
                 # there is no obvious assumption for which columns are being supplied and which are missing
                 print("fill_missing_fields isn't appropriate for list-of-lists format.")
             rtn ={k: loaded_dict[v] for k,v in tbl_names.items()}
+            if not fill_missing_fields: # when rows are dictionaries the PanDat constructor fills in missing fields
+                missing_fields = {(t, f) for t, rows in rtn.items() if any(map(dictish, rows))
+                                  for f in all_fields(self.pan_dat_factory, t)
+                                  if not any(dictish(row) and f in row for row in rows)}
+                verify(not missing_fields,
+                       "The following (table, field) pairs are missing fields.\n%s" % list(missing_fields))
         else:
             verify(all(map(dictish, loaded_dict.values())),
                    "the json.load result doesn't resolve to a dictionary whose values are themselves dictionaries")
-- 
2.43.0


From ced123292ee46facccce29a307109dd256b926ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 66/97] fix: match and default table names when reading SQL
 text files

---
 ticdat/sqlitetd.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 5d9f436..fde6081 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -144,24 +144,23 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             with open(sql_file_path, "r", newline="") as f:
                 con.executescript(f.read())
             return self._create_tic_dat_from_con(con,
-                        {t:t for t in self.tic_dat_factory.all_tables})
-    def _get_table_names(self, db_file_path, tables):
+                        self._get_table_names(con, sql_file_path, self.tic_dat_factory.all_tables))
+    def _get_table_names(self, con, file_path, tables):
         rtn = {}
-        with sql.connect(db_file_path) as con:
-            def try_name(name):
-                try :
-                    con.execute("Select * from [%s]"%name)
-                except :
-                    return False
-                return True
-            for table in tables:
-                rtn[table] = [t for t in all_underscore_replacements(table) if try_name(t)]
-                verify(len(rtn[table]) <= 1, "Duplicate tables found for table %s in SQLite file %s"%
-                                  (table, db_file_path))
-                if rtn[table]:
-                    rtn[table] = rtn[table][0]
-                else:
-                    rtn.pop(table)
+        def try_name(name):
+            try :
+                con.execute("Select * from [%s]"%name)
+            except :
+                return False
+            return True
+        for table in tables:
+            rtn[table] = [t for t in all_underscore_replacements(table) if try_name(t)]
+            verify(len(rtn[table]) <= 1, "Duplicate tables found for table %s in SQLite file %s"%
+                              (table, file_path))
+            if rtn[table]:
+                rtn[table] = rtn[table][0]
+            else:
+                rtn.pop(table)
         return rtn
     def _check_tables_fields(self, db_file_path, tables):
         tdf = self.tic_dat_factory
@@ -172,8 +171,8 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                 pass
         except Exception as e:
             raise TDE("Unable to open %s as SQLite file : %s"%(db_file_path, e))
-        table_names = self._get_table_names(db_file_path, tables)
         with sql.connect(db_file_path) as con:
+            table_names = self._get_table_names(con, db_file_path, tables)
             for table, sql_table in table_names.items():
                 for field in tdf.primary_key_fields.get(table, ()) + \
                              tdf.data_fields.get(table, ()):
-- 
2.43.0


From c75bc8dc2d49e6701cb095426c673c0538a3b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 67/97] fix: keep numbers that aren't dates when reading
 datetime fields from .xls

---
 ticdat/xls.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 35f4ad6..614c4ab 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -46,12 +46,14 @@ class _XlrdSheetWrapper(object): # main purpose of this routine is to enforce th
     def col_values(self, col_index):
         return self._sheet.col_values(col_index)
     def xldate_as_tuple_munge(self, x): # only needed for xlrd
-        rtn = utils.safe_apply(lambda: xlrd.xldate_as_tuple(x, self._datemode))()
-        if rtn is not None:
-            f = datetime.datetime
-            if utils.pd:
-                f = utils.pd.Timestamp
+        f = datetime.datetime
+        if utils.pd:
+            f = utils.pd.Timestamp
+        def _as_date():
+            rtn = xlrd.xldate_as_tuple(x, self._datemode)
             return f(year=rtn[0], month=rtn[1], day=rtn[2], hour=rtn[3], minute=rtn[4], second=rtn[5])
+        rtn = utils.safe_apply(_as_date)()
+        return x if rtn is None else rtn # numbers that aren't dates (like 0 or -1) are left as they are
 
 class _OpenPyxlSheetWrapper(object):
     '''
-- 
2.43.0


From cec217c658e98037ca17e3c8dd7c08dcfc5e5acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 68/97] fix: csv and xls readers follow data types and default
 values set after find_duplicates

---
 ticdat/csvtd.py | 13 +++++++------
 ticdat/xls.py   | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index 58a6308..04eb2b8 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -84,12 +84,13 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         return rtn
     def _get_dv_dt(self, table, field):
         # reminder - data fields have a default default of zero, primary keys don't get a default default
-        if (table, field) not in self._dv_dt:
-            self._dv_dt[table, field] = (
-                self.tic_dat_factory.default_values.get(table, {}).get(field, ["LIST", "NOT", "POSSIBLE"]),
-                self.tic_dat_factory.data_types.get(table, {}).get(field)
-            )
-        return self._dv_dt[table, field]
+        if (table, field) in self._dv_dt:
+            return self._dv_dt[table, field]
+        rtn = (self.tic_dat_factory.default_values.get(table, {}).get(field, ["LIST", "NOT", "POSSIBLE"]),
+               self.tic_dat_factory.data_types.get(table, {}).get(field))
+        if self.tic_dat_factory._has_been_used: # otherwise, the default values and data types might still change
+            self._dv_dt[table, field] = rtn
+        return rtn
     def _read_cell(self, table, field, x):
         def _inner_rtn(x):
             if table == "parameters" and self.tic_dat_factory.parameters:
diff --git a/ticdat/xls.py b/ticdat/xls.py
index 614c4ab..9d683e1 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -320,12 +320,13 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         return rtn
     def _get_dv_dt(self, table, field):
         # reminder - data fields have a default default of zero, primary keys don't get a default default
-        if (table, field) not in self._dv_dt:
-            self._dv_dt[table, field] = (
-                self.tic_dat_factory.default_values.get(table, {}).get(field, ["LIST", "NOT", "POSSIBLE"]),
-                self.tic_dat_factory.data_types.get(table, {}).get(field)
-            )
-        return self._dv_dt[table, field]
+        if (table, field) in self._dv_dt:
+            return self._dv_dt[table, field]
+        rtn = (self.tic_dat_factory.default_values.get(table, {}).get(field, ["LIST", "NOT", "POSSIBLE"]),
+               self.tic_dat_factory.data_types.get(table, {}).get(field))
+        if self.tic_dat_factory._has_been_used: # otherwise, the default values and data types might still change
+            self._dv_dt[table, field] = rtn
+        return rtn
     def _sub_tuple(self, table, fields, field_indicies, treat_inf_as_infinity, sheet) :
         assert set(fields).issubset(field_indicies)
         if self.tic_dat_factory.infinity_io_flag != "N/A" or \
-- 
2.43.0


From d6da85e71eb5e98457e88ef75602463ef25a5816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 69/97] fix: SQL find_duplicates sees primary keys as they are
 read

---
 ticdat/mdb.py      | 2 +-
 ticdat/pgtd.py     | 2 +-
 ticdat/sqlitetd.py | 2 +-
 ticdat/utils.py    | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ticdat/mdb.py b/ticdat/mdb.py
index 459dda8..b87826f 100644
--- a/ticdat/mdb.py
+++ b/ticdat/mdb.py
@@ -129,7 +129,7 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
         if not self._duplicate_focused_tdf:
             return {}
         return find_duplicates(self._duplicate_focused_tdf.mdb.create_tic_dat(mdb_file_path),
-                              self._duplicate_focused_tdf)
+                              self._duplicate_focused_tdf, self.tic_dat_factory)
     def _get_table_names(self, db_file_path, tables):
         rtn = {}
         with _connect(_connection_str(db_file_path)) as con:
diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index a29ee70..eca4b14 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -375,7 +375,7 @@ class PostgresTicFactory(_PostgresFactory):
             return {}
 
         return find_duplicates(PostgresTicFactory(self._duplicate_focused_tdf).create_tic_dat(
-                                engine, schema, active_fld=active_fld), self._duplicate_focused_tdf)
+                                engine, schema, active_fld=active_fld), self._duplicate_focused_tdf, self.tdf)
 
 
     def _get_data(self, tic_dat, schema, active_fld, active_fld_tables, dump_format="list"):
diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index fde6081..f196f88 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -125,7 +125,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         if not self._duplicate_focused_tdf:
             return {}
         return find_duplicates(self._duplicate_focused_tdf.sql.create_tic_dat(db_file_path),
-                              self._duplicate_focused_tdf)
+                              self._duplicate_focused_tdf, self.tic_dat_factory)
     def _fks(self):
         rtn = defaultdict(set)
         for fk in self.tic_dat_factory.foreign_keys:
diff --git a/ticdat/utils.py b/ticdat/utils.py
index c4d1a99..5800857 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -737,7 +737,7 @@ def create_duplicate_focused_tdf(tdf):
     if primary_key_fields:
         return ticdat.TicDatFactory(**{k:[[],v] for k,v in primary_key_fields.items()})
 
-def find_duplicates(td, tdf_for_dups):
+def find_duplicates(td, tdf_for_dups, tdf):
     assert tdf_for_dups.good_tic_dat_object(td)
     assert not any(tdf_for_dups.primary_key_fields.values())
     assert not tdf_for_dups.generator_tables
@@ -745,7 +745,7 @@ def find_duplicates(td, tdf_for_dups):
     for t,flds in list(tdf_for_dups.data_fields.items()):
         tbl = getattr(td, t)
         for row in tbl:
-            k = tuple(row[f] for f in flds)
+            k = tuple(tdf._general_read_cell(t, f, row[f]) for f in flds) # tdf_for_dups has no data types
             k = k[0] if len(k)==1 else k
             rtn[t][k] += 1
         rtn[t] = {k:v for k,v in rtn[t].items() if v > 1}
-- 
2.43.0


From b5832ed7091de06475f9b4555b8024d5c0fb0c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 70/97] fix: PanDat readers apply the infinity flag to the
 numbers of multitype fields

---
 ticdat/pandatfactory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 06f39ae..341c7b2 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -459,6 +459,11 @@ class PanDatFactory(object):
         for t in set(self.all_tables).difference(["parameters"]): # parameters table is handled differently
             df = getattr(dat, t)
             all_fields = tuple(self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ()))
+            for f in all_fields: # needs to precede the infinity_io_flag logic, which only applies to numbers
+                dt = self.data_types.get(t, {}).get(f, None)
+                if dt and not dt.datetime and dt.strings_allowed and dt.number_allowed and \
+                    self.automunge_multitype_fields:
+                    df[f] = df[f].apply(_multitype_cell_adj)
             if utils.numericish(self.infinity_io_flag):
                 fields_w_issues = set()
                 def find_fields_w_issues(row):
@@ -470,9 +475,6 @@ class PanDatFactory(object):
                     df[f] = df[f].apply(_inf_cell_adj)
             for f in all_fields:
                 dt = self.data_types.get(t, {}).get(f, None)
-                if dt and not dt.datetime and dt.strings_allowed and dt.number_allowed and \
-                    self.automunge_multitype_fields:
-                    df[f] = df[f].apply(_multitype_cell_adj)
                 if not utils.numericish(self.infinity_io_flag) and utils.numericish(self._none_as_infinity_bias(t, f)):
                     assert self.infinity_io_flag is None
                     df[f] = df[f].apply(lambda x: self._none_as_infinity_bias(t, f) * float("inf")
-- 
2.43.0


From 6a1e3fddf1798e393b18b9fae09f8825d5042993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 71/97] fix: write_directory doesn't destroy the csv file a
 generator table is reading

---
 ticdat/csvtd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index 04eb2b8..55df997 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -4,10 +4,12 @@ PEP8
 """
 
 import os
+import shutil
 from ticdat.utils import DataFrame, create_generic_free, numericish, case_space_to_pretty, pd
 from ticdat.utils import freezable_factory, TicDatError, verify, containerish, dictish
 from collections import defaultdict
 from itertools import product
+from tempfile import TemporaryFile
 
 try:
     import csv
@@ -260,7 +262,9 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         if not os.path.isdir(dir_path) :
             os.mkdir(dir_path)
         for t in tdf.all_tables :
-            with open(file_paths[t], 'w', newline='') as csvfile:
+            # a generator table might be streaming from the very file that is about to be overwritten
+            with (TemporaryFile('w+', newline='') if t in tdf.generator_tables else
+                  open(file_paths[t], 'w', newline='')) as csvfile:
                  writer = csv.DictWriter(csvfile,dialect=dialect, fieldnames=
                         tdf.primary_key_fields.get(t, ()) + tdf.data_fields.get(t, ()) )
                  writer.writeheader() if write_header else None
@@ -275,4 +279,8 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
                          writer.writerow(infinty_io_dict(dict(data_row, **primaryKeyDict)))
                  else :
                      for data_row in (_t if containerish(_t) else _t()) :
-                         writer.writerow(infinty_io_dict(data_row))
\ No newline at end of file
+                         writer.writerow(infinty_io_dict(data_row))
+                 if t in tdf.generator_tables:
+                     csvfile.seek(0)
+                     with open(file_paths[t], 'w', newline='') as final_csvfile:
+                         shutil.copyfileobj(csvfile, final_csvfile)
\ No newline at end of file
-- 
2.43.0


From f12068832dc7130d6e9776d52d797eea14bebfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 72/97] fix: writing xlsx doesn't delete the file a generator
 table is reading

---
 ticdat/xls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 9d683e1..468897c 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -453,8 +453,6 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
     def _xlsx_write(self, tic_dat, file_path, tbl_name_mapping):
         verify(xlsx, "Can't write .xlsx files because xlsxwriter package isn't installed.")
         tdf = self.tic_dat_factory
-        if os.path.exists(file_path):
-            os.remove(file_path)
         book = xlsx.Workbook(file_path)
         def write(sheet, row, col, x): # sheet.write would turn text like "=a" or "http://a" into formulas and links
             if (sheet.write_string if utils.stringish(x) and x else sheet.write)(row, col, x):
@@ -487,4 +485,6 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
                 for row_ind, data in enumerate(_t if containerish(_t) else _t()) :
                     for field_ind, cell in enumerate(tuple(data[_f] for _f in tdf.data_fields[t])) :
                         write(sheet, row_ind+1, field_ind, clean_for_write(t, all_flds[field_ind], cell))
+        if os.path.exists(file_path): # not any sooner, as a generator table might be streaming from this file
+            os.remove(file_path)
         book.close()
-- 
2.43.0


From d5df92131f292a62c9978bbce177610f455edff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 73/97] fix: foreign key checks handle generator tables

---
 ticdat/ticdatfactory.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index eadb609..6a6b4c8 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1756,14 +1756,16 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                  return native_data_row[field_name]
              return native_pk[self.primary_key_fields[tblname].index(field_name)]
 
+        def items(tblname):
+            tbl = getattr(tic_dat, tblname)
+            return tbl.items() if dictish(tbl) else enumerate(tbl if containerish(tbl) else tbl())
         table_data = defaultdict(set)
         def get_table_data(tblname, fields):
             if fields == self.primary_key_fields.get(tblname, ()):
                 return getattr(tic_dat, tblname)
             if (tblname, fields) not in table_data:
                 add_here = table_data[tblname, fields]
-                tbl = getattr(tic_dat, tblname)
-                for k,v in (tbl.items() if dictish(tbl) else enumerate(tbl)):
+                for k,v in items(tblname):
                     add_here.add(tuple(getcell(tblname, k, v, f) for f in fields))
             return table_data[tblname, fields]
         number_failures = [0] if max_failures < float("inf") else None
@@ -1777,9 +1779,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                      return getcell(native, native_pk, native_data_row, field_name)
                 for fk in fks:
                     foreign_to_native = fk.foreigntonativemapping()
-                    for native_pk, native_data_row in (getattr(tic_dat, native).items()
-                                if dictish(getattr(tic_dat, native))
-                                else enumerate(getattr(tic_dat, native))):
+                    for native_pk, native_data_row in items(native):
                         ffs = tuple(_ff for _ff in self.primary_key_fields.get(fk.foreign_table, ()) +
                                     self.data_fields.get(fk.foreign_table, ())
                                     if _ff in foreign_to_native)
@@ -1835,6 +1835,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         :return: tic_dat, with the foreign key failures removed
         """
         fk_failures = self.find_foreign_key_failures(tic_dat)
+        verify(not any(fk.native_table in self.generator_tables for fk in fk_failures),
+               "foreign key failures can't be removed from generator tables")
         needs_removal = set()
         for fk, (_, failed_pks) in fk_failures.items():
             for failed_pk in failed_pks:
-- 
2.43.0


From 5d466916130de1ae8fa77908f46f61dfaef0c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 74/97] fix: Slicer.slice answers are the caller's own

---
 ticdat/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 5800857..c4ce312 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -889,7 +889,7 @@ class Slicer(object):
             return []
         verify(len(args) == len((self._indicies or self._gu)[0]), "inconsistent number of elements")
         if self._gu:
-            return self._gu.select(*args)
+            return list(self._gu.select(*args)) # copied, since select can return tuplelist's own cached result
         wildcards = tuple(i for i,x in enumerate(args) if x == "*")
         fixedposns = tuple(i for i in range(len(args)) if i not in wildcards)
         def fa(t):
-- 
2.43.0


From 9e49370263e8ff5b17704fde3ddab075d8e975be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 75/97] fix: Sloc doesn't hide rows when the index is unsorted

---
 ticdat/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index c4ce312..c428b0e 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1153,6 +1153,8 @@ class Sloc(object):
     def __getitem__(self, key):
         try:
             return self._s.loc[key]
+        except pd.errors.UnsortedIndexError: # nothing to do with the slice being empty
+            raise
         except Exception as e:
             if containerish(key) and any(isinstance(k, slice) and
                                          (k.start == k.step == k.stop == None) for k in key):
-- 
2.43.0


From da41744f25b5fb0751d0d492164d6ca40234503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 76/97] fix: faster_df_apply keeps the index of the DataFrame

---
 ticdat/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index c428b0e..fa38302 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -61,18 +61,17 @@ def faster_df_apply(df, func, trip_wire_check=None):
     verify(callable(func), "func needs to be a function")
     verify(not trip_wire_check or callable(trip_wire_check), "trip_wire_check needs to None, or a function")
     cols = list(df.columns)
-    data, index = [], []
-    for row in df.itertuples(index=True):
-        row_dict = {f:v for f,v in zip(cols, row[1:])}
+    data = []
+    for row in df.itertuples(index=False):
+        row_dict = {f:v for f,v in zip(cols, row)}
         data.append(func(row_dict))
-        index.append(row[0])
         if trip_wire_check:
             new_func = trip_wire_check(data[-1])
             if new_func:
                 func = new_func
                 trip_wire_check = None
     # will default to float for empty Series, like original pandas
-    return pd.Series(data, index=index, **({"dtype": numpy.float64} if not data else {}))
+    return pd.Series(data, index=df.index, **({"dtype": numpy.float64} if not data else {}))
 
 def set_tooltip(tdf_pdf, table, field, tooltip, tooltips_dict):
     verify(table in tdf_pdf.all_tables, f"Unrecognized table name {table}")
-- 
2.43.0


From a0dad92214fc5a489a9bacb17dc513d8564a8aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 77/97] fix: TicDatFactory.copy_to_ampl works with generic
 tables

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 6a6b4c8..fbab8c1 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1578,7 +1578,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         verify(not excluded_tables or (containerish(excluded_tables) and
                                        set(excluded_tables).issubset(self.all_tables)),
                "bad excluded_tables argument")
-        copy_tables = {t for t in self.all_tables if self.primary_key_fields[t]}.\
+        copy_tables = {t for t in self.all_tables if self.primary_key_fields.get(t)}.\
                       difference(excluded_tables or [])
         field_renamings = field_renamings or {}
         verify(dictish(field_renamings) and
-- 
2.43.0


From e3916e404967186b833d1daf24a7b684a6cacfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 78/97] fix: PanDatFactory.copy_to_ampl works with generic
 tables

---
 ticdat/pandatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 341c7b2..ae1a014 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1622,7 +1622,7 @@ class PanDatFactory(object):
         verify(not excluded_tables or (containerish(excluded_tables) and
                                        set(excluded_tables).issubset(self.all_tables)),
                "bad excluded_tables argument")
-        copy_tables = {t for t in self.all_tables if self.primary_key_fields[t]}.\
+        copy_tables = {t for t in self.all_tables if self.primary_key_fields.get(t)}.\
                       difference(excluded_tables or [])
         field_renamings = field_renamings or {}
         verify(dictish(field_renamings), "invalid field_renamings argument")
-- 
2.43.0


From 9004279a06c8b97e7ee2af963fc353eee2558d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 79/97] fix: PanDatFactory.copy_to_ampl writes renamed primary
 key fields once

---
 ticdat/pandatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index ae1a014..0bfd522 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1640,7 +1640,8 @@ class PanDatFactory(object):
             df_ampl = amplpy.DataFrame(index=tuple(map(rename, self.primary_key_fields[t])))
             for f in self.primary_key_fields[t]:
                 df_ampl.setColumn(rename(f), list(getattr(pan_dat, t)[f]))
-            for f in {f for _t,f in field_renamings if _t == t}.union(self.data_fields[t]):
+            for f in {f for _t,f in field_renamings if _t == t}.union(self.data_fields[t]).\
+                    difference(self.primary_key_fields[t]): # the primary key columns were already set
                 if rename(f):
                     df_ampl.addColumn(rename(f), list(getattr(pan_dat, t)[f]))
             setattr(rtn, t, df_ampl)
-- 
2.43.0


From 6936348d46e5fdd9176d42cede262d18d431fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 80/97] fix: Model.optimize recognizes xpress solutions with
 current Python

---
 ticdat/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/model.py b/ticdat/model.py
index 974491a..e145389 100644
--- a/ticdat/model.py
+++ b/ticdat/model.py
@@ -209,7 +209,7 @@ class Model(object):
             return rtn
         if self.model_type == "xpress":
             self.core_model.solve(*args, **kwargs)
-            rtn = str(self.core_model.attributes.solstatus) in ['SolStatus.OPTIMAL', 'SolStatus.FEASIBLE']
+            rtn = self.core_model.attributes.solstatus in [xpress.SolStatus.OPTIMAL, xpress.SolStatus.FEASIBLE]
             self._xpress_solution_list = self.core_model.getSolution() if rtn else []
             return rtn
     def get_solution_value(self, var):
-- 
2.43.0


From 506bea4f7fbcfad5e2e9f94a1ba8924bda69dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 81/97] fix: the error report works with generic tables

---
 ticdat/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index fa38302..b54a728 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -350,7 +350,8 @@ def _integrity_solve(input_schema, dat):
                                                dat_version_of_func(predicate_tuple.predicate_kwargs_maker),
                                                predicate_tuple.predicate_failure_response)
 
-    _id_flds = {t: (pks or dfs) for t, (pks, dfs) in input_schema.schema().items()}
+    _id_flds = {t: (input_schema.primary_key_fields.get(t) or input_schema.data_fields.get(t, ())) # generic tables have none
+                for t in input_schema.all_tables}
     longest_id_flds =  max(len(id_fld) for id_fld in _id_flds.values())
     _fld_names = [f"Field {_ + 1}" for _ in range(longest_id_flds)]
     solution_schema = ticdat.PanDatFactory(
-- 
2.43.0


From 61c5d4a5ddbe8d1773b5b1aa24a496f32ea5eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 82/97] fix: the error report evaluates row predicates on the
 original cells

---
 ticdat/utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index b54a728..b9b8d4a 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -363,7 +363,18 @@ def _integrity_solve(input_schema, dat):
     if isinstance(input_schema, ticdat.PanDatFactory):
         pan_dat = dat
     else:
-        pan_dat = input_schema.copy_to_pandas(dat, reset_index=True)
+        # not using copy_to_pandas, since the row predicates should see None (and int) instead of nan (and float)
+        def make_df(t):
+            if t in input_schema.generic_tables:
+                return getattr(dat, t)
+            pks, dfs = input_schema.primary_key_fields.get(t, ()), input_schema.data_fields.get(t, ())
+            table_ = getattr(dat, t)
+            if dictish(table_):
+                rows = [(list(k) if containerish(k) else [k]) + [v[f] for f in dfs] for k, v in table_.items()]
+            else: # generator tables need to be called
+                rows = [[v[f] for f in dfs] for v in (table_ if containerish(table_) else table_())]
+            return pd.DataFrame(rows, columns=pks + dfs, dtype=object)
+        pan_dat = pdf.PanDat(**{t: make_df(t) for t in input_schema.all_tables})
 
     def add_error_row(default_dict_object, table_, row_):
         for f, c in zip(_fld_names, row_[:len(_id_flds[table_])]):
-- 
2.43.0


From b6219c7d0c6ae6d6fe9db8285f0f266608a82453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 83/97] fix: write_sql_file refuses invalid data before
 touching the file

---
 ticdat/sqlitetd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index f196f88..e493e15 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -379,6 +379,9 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(sql, "sqlite3 needs to be installed to use this subroutine")
         verify(allow_overwrite or not os.path.exists(sql_file_path),
                "The %s path exists and overwrite is not allowed"%sql_file_path)
+        msg = []
+        if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
+            raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))
         must_schema = set(self.tic_dat_factory.all_tables if include_schema else [])
         if self.tic_dat_factory.generic_tables:
              gt = self.tic_dat_factory.generic_tables
-- 
2.43.0


From 846ed9b0b2373cf370bfd37561f105f0e9a0a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 84/97] fix: good_tic_dat_table answers False for any table it
 can't use

---
 ticdat/ticdatfactory.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index fbab8c1..2621911 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1205,8 +1205,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             return False
         if table_name in self.generator_tables :
             assert not self.primary_key_fields.get(table_name), "this should be verified in __init__"
-            verify((containerish(data_table) or callable(data_table)) and not dictish(data_table),
-                   "Expecting a container of rows or a generator function of rows for %s"%table_name)
+            if not ((containerish(data_table) or callable(data_table)) and not dictish(data_table)):
+                bad_message_handler("Expecting a container of rows or a generator function of rows for %s"%table_name)
+                return False
             return self._good_data_rows(data_table if containerish(data_table) else data_table(),
                                       table_name, bad_message_handler, row_checking)
         if pd and isinstance(data_table, pd.Series) and len(self.data_fields.get(table_name, ())) == 1:
@@ -1242,13 +1243,17 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             if row_checking == "strict" and  not utils.dictish(data_table):
                 bad_message_handler(f"{table_name} is not a dict")
                 return False
+            if pd and isinstance(data_table, pd.Series):
+                bad_message_handler("Unexpected ticDat table type for %s."%table_name)
+                return False
             if utils.dictish(data_table) :
                 return self._good_ticdat_dict_table(data_table, table_name, bad_message_handler, row_checking)
             if utils.containerish(data_table):
                 return self._good_ticdat_key_container(data_table, table_name, bad_message_handler)
         else :
-            verify(utils.containerish(data_table),
-                   "Unexpected ticDat table type for %s."%table_name)
+            if not utils.containerish(data_table):
+                bad_message_handler("Unexpected ticDat table type for %s."%table_name)
+                return False
             return self._good_data_rows(data_table, table_name, bad_message_handler, row_checking)
         bad_message_handler("Unexpected ticDat table type for %s."%table_name)
         return False
-- 
2.43.0


From 3b52918217bedf47e23927454fdb591c8f6dfb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 85/97] fix: good_pan_dat_object refuses repeated columns

---
 ticdat/pandatfactory.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 0bfd522..96a44fa 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1048,6 +1048,13 @@ class PanDatFactory(object):
         if missing_fields:
             bad_message_handler("The following are (table, field) pairs missing from the data.\n%s"%missing_fields)
             return False
+        repeated_fields = {(t, f) for t in self.all_tables for f in
+                           self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ())
+                           if not isinstance(getattr(data_obj, t)[f], pd.Series)}
+        if repeated_fields:
+            bad_message_handler("The following are (table, field) pairs that match more than one column.\n%s"%
+                                repeated_fields)
+            return False
         return True
     def copy_pan_dat(self, pan_dat):
         """
-- 
2.43.0


From c31265a9f1c5c73879f6174b92b58c0dacbaf935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 86/97] fix: a field that allows neither text nor numbers is
 refused by write_schema

---
 ticdat/pgtd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index eca4b14..0f11597 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -141,7 +141,7 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
                 else:
                     return 'float'
             else:
-                TicDatError(f"Allow one of text or numeric for {t}.{f} if declaring type and using postgres")
+                raise TicDatError(f"Allow one of text or numeric for {t}.{f} if declaring type and using postgres")
 
         def db_default(t, f):
             rtn = self.tdf.default_values[t][f]
-- 
2.43.0


From b0362e4b1efe2d332f8cab62e53d4f791c51a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 87/97] fix: text and infinite default values in postgres
 schemas

---
 ticdat/pgtd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index 0f11597..c233916 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -151,8 +151,10 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
                 return "NULL"
             if numericish(rtn) and abs(rtn) == float("inf") and numericish(self.tdf.infinity_io_flag):
                 return math.copysign(self.tdf.infinity_io_flag, rtn)
+            if numericish(rtn) and abs(rtn) == float("inf"):
+                return "'Infinity'" if rtn > 0 else "'-Infinity'"
             if stringish(rtn) and rtn:
-                return f"'{rtn}'"
+                return "'%s'" % rtn.replace("'", "''")
             return rtn
 
         def nullable(t, f):
@@ -231,7 +233,7 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
         if schema not in [rw[0] for rw in engine.execute(saxt("select schema_name from information_schema.schemata"))]:
             engine.execute(sa.schema.CreateSchema(schema))
         for str in self._get_schema_sql(self.tdf.all_tables, schema, forced_field_types):
-            engine.execute(saxt(str))
+            engine.execute(saxt(str.replace(":", "\\:"))) # a colon in a default isn't a bind parameter
         engine.commit() if hasattr(engine, "commit") else None
 
     def _handle_prexisting_rows(self, engine, schema, pre_existing_rows):
-- 
2.43.0


From ffcd9d0ff22ff494b211909901d80b93dc4ec863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 88/97] fix: no numeric default for date and timestamp columns
 in postgres

---
 ticdat/pgtd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index c233916..c1d03b1 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -169,7 +169,7 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
             if forced_field_types.get((t, f)) == "text" and stringish(self.tdf.default_values[t][f]):
                 return f" DEFAULT {db_default(t, f)}"
             fld_type = self.tdf.data_types.get(t, {}).get(f)
-            if (fld_type and fld_type.datetime) or get_fld_type(t, f, '') == "bytea":
+            if (fld_type and fld_type.datetime) or get_fld_type(t, f, '') in ("bytea", "timestamp", "date"):
                 return ""
             return f" DEFAULT {db_default(t, f)}"
 
-- 
2.43.0


From 274902604643291044dae401a52d50db3c599c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 89/97] fix: parameters are text in postgres without ancillary
 info too

---
 ticdat/pgtd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index c1d03b1..608505b 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -224,6 +224,8 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
                     tdf.set_default_value(t, f, dfv)
             forced_field_types_ = {(t, f): "text" for t, (pks, dfs) in self.tdf.schema().items() for f in pks
                        if f not in tdf.data_types.get(t, {})}
+            if self.tdf.parameters:
+                forced_field_types_.update({("parameters", f): "text" for f in all_fields("parameters")})
             forced_field_types_.update(forced_field_types)
             return PostgresTicFactory(tdf).write_schema(engine, schema, forced_field_types_)
 
-- 
2.43.0


From 230547387599a894199712f64b57a7e619b9d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 90/97] fix: pass the right bound to mip_progress when CPLEX
 has no solution yet

---
 ticdat/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index b9b8d4a..1ebfc33 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1327,7 +1327,7 @@ class Progress(object):
         super_self = self
         class MyListener(cplexprogress.ProgressListener):
             def notify_progress(self, progress_data):
-                no_feasible_yet = {"minimize": float("inf"), "maximize": -float("inf")}
+                no_feasible_yet = {"minimize": float("inf"), "maximize": -float("inf")}[sense]
                 ub = no_feasible_yet if progress_data.current_objective is None else progress_data.current_objective
                 lb = progress_data.best_bound
                 lb, ub = (lb, ub) if sense == "minimize" else (ub, lb)
-- 
2.43.0


From c7dc1e00a7dc55d279d96f762d935f5832eeb573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 91/97] fix: apply xlsx_trailing_empty_rows to the generic
 tables of a TicDatFactory

---
 ticdat/xls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 468897c..6a9d8ac 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -163,6 +163,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
             if xls_file_path.endswith(".xls"):
                 print("** Warning : pandas doesn't always play well with older Excel formats.")
             pdf = PanDatFactory(**{t: '*' for t in self.tic_dat_factory.generic_tables})
+            pdf.set_xlsx_trailing_empty_rows(tdf.xlsx_trailing_empty_rows)
             pandat = pdf.xls.create_pan_dat(xls_file_path)
             for t in self.tic_dat_factory.generic_tables:
                 rtn[t] = getattr(pandat, t)
-- 
2.43.0


From 41841125e047d5f6193e2d149cdc825f1ee6cc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 92/97] fix: convert a numeric infinity_io_flag back when
 reading generic tables from Excel

---
 ticdat/xls.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 6a9d8ac..42d89ec 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -166,7 +166,9 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
             pdf.set_xlsx_trailing_empty_rows(tdf.xlsx_trailing_empty_rows)
             pandat = pdf.xls.create_pan_dat(xls_file_path)
             for t in self.tic_dat_factory.generic_tables:
-                rtn[t] = getattr(pandat, t)
+                df = getattr(pandat, t) # PanDatFactory doesn't apply the infinity_io_flag to generic tables
+                rtn[t] = df.apply(lambda col: col.apply(
+                    lambda x: tdf._general_read_cell(t, col.name, x))) if len(df) else df
         rtn = tdf._parameter_table_post_read_adjustment(tdf.TicDat(**rtn))
         if freeze_it:
             return self.tic_dat_factory.freeze_me(rtn)
-- 
2.43.0


From 779a31db67063675a6c9cb3980d83a2f57a4aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 93/97] fix: a row predicate added after a converting clone
 gets the original object even when it replaces one

---
 ticdat/pandatfactory.py | 2 ++
 ticdat/ticdatfactory.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 96a44fa..c19a677 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -691,6 +691,8 @@ class PanDatFactory(object):
                "predicate_failure_response should be Boolean or Error Message")
         if predicate_name is None:
             predicate_name = next(i for i in count() if i not in self._data_row_predicates[table])
+        if self._convert_dat: # convert_dat isn't for predicates added after the clone
+            self._convert_dat[1] = self._convert_dat[1].difference({(table, predicate_name)})
         self._data_row_predicates[table][predicate_name] = RowPredicateInfo(predicate, predicate_kwargs_maker,
                                                                             predicate_failure_response)
     def get_row_predicates(self, table):
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 2621911..f7cf8d8 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -315,6 +315,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                "predicate_failure_response should be Boolean or Error Message")
         if predicate_name is None:
             predicate_name = next(i for i in count() if i not in self._data_row_predicates[table])
+        if self._convert_dat: # convert_dat isn't for predicates added after the clone
+            self._convert_dat[1] = self._convert_dat[1].difference({(table, predicate_name)})
         self._data_row_predicates[table][predicate_name] = RowPredicateInfo(predicate, predicate_kwargs_maker,
                                                                             predicate_failure_response)
 
-- 
2.43.0


From c90491de0e69cd6dc8d809c859ecd1424fefacb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:28 +0000
Subject: [PATCH 94/97] fix: Excel sheet name collisions are found whatever the
 case

---
 ticdat/pandatio.py | 2 +-
 ticdat/xls.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index f75b75a..7c1097a 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -616,7 +616,7 @@ class XlsPanFactory(freezable_factory(object, "_isFrozen")):
     def _verify_differentiable_sheet_names(self):
         rtn = defaultdict(set)
         for t in self.pan_dat_factory.all_tables:
-            rtn[t[:_longest_sheet]].add(t)
+            rtn[t[:_longest_sheet].lower()].add(t)
         rtn = [v for k,v in rtn.items() if len(v) > 1]
         verify(not rtn, "The following tables collide when names are truncated to %s characters.\n%s"%
                (_longest_sheet, sorted(map(sorted, rtn))))
diff --git a/ticdat/xls.py b/ticdat/xls.py
index 42d89ec..a18d0ac 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -176,7 +176,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
     def _verify_differentiable_sheet_names(self):
         rtn = defaultdict(set)
         for t in self.tic_dat_factory.all_tables:
-            rtn[t[:_longest_sheet]].add(t)
+            rtn[t[:_longest_sheet].lower()].add(t)
         rtn = [v for k,v in rtn.items() if len(v) > 1]
         verify(not rtn, "The following tables collide when names are truncated to %s characters.\n%s"%
                (_longest_sheet, sorted(map(sorted, rtn))))
-- 
2.43.0


From 6a60e3b4d6cefcc9bd0e4ca53b1c64eb43dc1209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 95/97] fix: removing foreign key failures doesn't recurse once
 per cascade level

---
 ticdat/ticdatfactory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index f7cf8d8..a3b96f6 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1841,6 +1841,10 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
 
         :return: tic_dat, with the foreign key failures removed
         """
+        while self._remove_foreign_key_failures(tic_dat) and propagate: # not recursive, since cascades can be deep
+            pass
+        return tic_dat
+    def _remove_foreign_key_failures(self, tic_dat):
         fk_failures = self.find_foreign_key_failures(tic_dat)
         verify(not any(fk.native_table in self.generator_tables for fk in fk_failures),
                "foreign key failures can't be removed from generator tables")
@@ -1855,9 +1859,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     needs_removal.add((fk.native_table, failed_pk))
         for t,row_index in sorted(needs_removal, reverse=True):
             getattr(tic_dat, t).pop(row_index)
-        if fk_failures and propagate:
-            return self.remove_foreign_key_failures(tic_dat)
-        return tic_dat
+        return fk_failures
 
     def _get_full_row(self, ticdat, table, pk):
         full_row = dict(getattr(ticdat, table)[pk])
-- 
2.43.0


From 3c828208412b14522c04b37d1d871fee30737e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:56 +0000
Subject: [PATCH 96/97] fix: foreign key matches are found among columns that
 mix types

---
 ticdat/pandatfactory.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index c19a677..13907f9 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1490,8 +1490,12 @@ class PanDatFactory(object):
                 joined = None # see ticdat issue 173
             except:
                 raise
-            bad_rows = set(child[magic_field*2]) if joined is None else \
-                       set(joined[joined[magic_field] != True][magic_field*2])
+            if joined is None: # unsortable mix of types, but some of the rows might still match
+                no_nan = lambda k: tuple(None if isnull(_) else _ for _ in (k if lupish(new_index) else [k]))
+                parent_keys = set(map(no_nan, parent.index))
+                bad_rows = {i for i, k in zip(child[magic_field*2], child.index) if no_nan(k) not in parent_keys}
+            else:
+                bad_rows = set(joined[joined[magic_field] != True][magic_field*2])
             if bad_rows:
                 # I'm casting to list here because child is a copy that doesn't have the original index
                 # This is fixable, (i.e. we could return a Series with an index matching the original child table)
-- 
2.43.0


From bfe76c6df0cd552484104c3c2426727ddf185863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:31 +0000
Subject: [PATCH 97/97] fix: data types of categorical columns are checked

---
 ticdat/pandatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 13907f9..02c8330 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1186,7 +1186,7 @@ class PanDatFactory(object):
                         if rtn:
                             number_failures[0] += 1
                         return rtn
-                where_bad_rows = _table[field].apply(bad_row)
+                where_bad_rows = _table[field].astype(object).apply(bad_row)
                 if _safe_any(where_bad_rows):
                     rtn[TableField(table, field)] = _table[where_bad_rows].copy() if as_table else where_bad_rows
                 if number_failures[0] >= max_failures:
-- 
2.43.0

