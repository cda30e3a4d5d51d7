From 71a239993444feaf0f98e78a1c36da282e888764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:23 +0000
Subject: [PATCH 01/39] fix: find the related manager of aggregate fields when
 installing triggers

The manager was only looked up when a model class got prepared, but Django
adds it to the model after that signal. If no other model was loaded after
the counted one, installing the triggers failed with an AttributeError.
---
 denorm/denorms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index f102a0f..12de17e 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -375,6 +375,10 @@ class AggregateDenorm(Denorm):
         else:
             cconnection = connection
 
+        if not self.manager:
+            # no model was prepared after the one that provides our manager
+            self.manager = getattr(self.model, self.manager_name)
+
         qn = self.get_quote_name(using)
 
         try:  # Django>=1.9
-- 
2.43.0


From 3e8571c243fe80692da0a5fdea2f27f515f6d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:23 +0000
Subject: [PATCH 02/39] fix: track aggregates and cache keys inherited from
 abstract models

Every model inheriting such a field shared one set of tracking information,
so only the model that was loaded last got its triggers.
---
 denorm/fields.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index b8acb2a..2e29aec 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -1,4 +1,6 @@
 # -*- coding: utf-8 -*-
+import copy
+
 from django.db import models, connection
 from . import denorms
 from django.conf import settings
@@ -142,6 +144,8 @@ class AggregateField(models.PositiveIntegerField):
         super(AggregateField, self).__init__(**kwargs)
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
+        # fields inherited from an abstract model share the original's denorm
+        self.denorm = copy.copy(self.denorm)
         self.denorm.model = cls
         self.denorm.fieldname = name
         models.signals.class_prepared.connect(self.denorm.setup)
@@ -271,6 +275,8 @@ class CacheKeyField(models.BigIntegerField):
         self.dependencies.append(CacheKeyDependOnRelated(*args, **kwargs))
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
+        # fields inherited from an abstract model share the original's dependencies
+        self.dependencies = [copy.copy(depend) for depend in self.dependencies]
         for depend in self.dependencies:
             depend.fieldname = name
         self.denorm = denorms.BaseCacheKeyDenorm(depend_on_related=self.dependencies)
-- 
2.43.0


From 367f0918cb6a4e205e5839eedb8b0d1ee2ff8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:23 +0000
Subject: [PATCH 03/39] fix: honour denorm_always_skip together with an
 explicit skip

The model wide list was ignored as soon as the field or dependency had a
skip list of its own.
---
 denorm/db/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 9d1c7e4..cf180b8 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -100,7 +100,7 @@ class Trigger(object):
         elif isinstance(subject, models.ForeignKey):
             self.model = subject.model
             self.db_table = self.model._meta.db_table
-            skip = skip or () + getattr(self.model, 'denorm_always_skip', ())
+            skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
             self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
 
         elif hasattr(subject, "_meta"):
@@ -108,7 +108,7 @@ class Trigger(object):
             self.db_table = self.model._meta.db_table
             # FIXME: need to check get_parent_list and add triggers to those
             # The below will only check the fields on *this* model, not parents
-            skip = skip or () + getattr(self.model, 'denorm_always_skip', ())
+            skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
             self.fields = []
             try:
                 from django.db.models.fields.related import ForeignObjectRel
-- 
2.43.0


From 029ad5cc0e27082a517a883a14a143d00ae984a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:23 +0000
Subject: [PATCH 04/39] fix: watch the fields of every dependency when merging
 triggers

Triggers on the same table and event are merged into one. The result only
watched the columns of the first one, so changes that mattered to the
others were missed, for example with different skip lists.
---
 denorm/db/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index cf180b8..3c40f74 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -164,7 +164,10 @@ class TriggerSet(object):
         for trigger in triggers:
             name = trigger.name()
             if name in self.triggers:
-                self.triggers[name].append(trigger.actions)
+                merged = self.triggers[name]
+                merged.append(trigger.actions)
+                # the actions share one condition: watch the fields of both triggers
+                merged.fields += [f for f in trigger.fields if f[0] not in [m[0] for m in merged.fields]]
             else:
                 self.triggers[name] = trigger
 
-- 
2.43.0


From e9ca2cd92ea439939db6a657b772bee4ac4ee056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:23 +0000
Subject: [PATCH 05/39] fix: ignore unchanged rows of generic relations on
 PostgreSQL

The content type condition lacked parentheses, so an update that changed
nothing still marked the owner.
---
 denorm/db/postgresql/triggers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 9159809..8c9206b 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -102,7 +102,7 @@ class Trigger(base.Trigger):
         if ct_field:
             ct_field = qn(ct_field)
             if event == "UPDATE":
-                conditions.append("(OLD.%(ctf)s = %(ct)s) OR (NEW.%(ctf)s = %(ct)s)" % {'ctf': ct_field, 'ct': content_type})
+                conditions.append("((OLD.%(ctf)s = %(ct)s) OR (NEW.%(ctf)s = %(ct)s))" % {'ctf': ct_field, 'ct': content_type})
             elif event == "INSERT":
                 conditions.append("(NEW.%s = %s)" % (ct_field, content_type))
             elif event == "DELETE":
-- 
2.43.0


From 7ce683e11050a1788c2d0658c89504d7b053e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:23 +0000
Subject: [PATCH 06/39] fix: notice changes of case and accents on MySQL

Column values were compared with the collation of the column, which is
usually case insensitive.
---
 denorm/db/mysql/triggers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 7ad85b7..8d76527 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -83,7 +83,7 @@ class Trigger(base.Trigger):
             for field, native_type in self.fields:
                 field = qn(field)
                 # TODO: find out if we need to compare some fields as text like in postgres
-                conditions.append("(NOT(OLD.%(f)s <=> NEW.%(f)s))" % {'f': field})
+                conditions.append("(NOT(BINARY OLD.%(f)s <=> BINARY NEW.%(f)s))" % {'f': field})
 
         if conditions:
             cond = " OR ".join(conditions)
-- 
2.43.0


From 9bdc629697f01708c14f93b320650ca942b4a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:44 +0000
Subject: [PATCH 07/39] fix: let sum fields cope with NULL amounts

A NULL in the summed column turned the whole sum into NULL, so the write was
refused. Computing the sum from scratch also failed on Python 3.
---
 denorm/denorms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 12de17e..6cc929b 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -468,17 +468,17 @@ class SumDenorm(AggregateDenorm):
         # correctness of the incremental updates we create a function that
         # calculates it from scratch.
         self.sum_field = field
-        self.func = lambda obj: (getattr(obj, self.manager_name).filter(**self.filter).exclude(**self.exclude).aggregate(Sum(self.sum_field)).values()[0] or 0)
+        self.func = lambda obj: (getattr(obj, self.manager_name).filter(**self.filter).exclude(**self.exclude).aggregate(sum=Sum(self.sum_field))['sum'] or 0)
 
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + NEW.%s" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - OLD.%s" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
 
     def get_related_increment_value(self, using):
         qn = self.get_quote_name(using)
-- 
2.43.0


From d66db121d1dbca28faed45ed86defc8419b2fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:44 +0000
Subject: [PATCH 08/39] fix: use column names instead of attribute names in
 triggers

Installing the triggers failed for models with a db_column that differs from
the attribute name.
---
 denorm/db/base.py      |  6 +++---
 denorm/denorms.py      | 27 +++++++++++++++++----------
 denorm/dependencies.py | 14 +++++++-------
 3 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 3c40f74..40c6c24 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -94,14 +94,14 @@ class Trigger(object):
         elif isinstance(subject, GenericRelation):
             self.model = None
             self.db_table = remote_field_model(subject)._meta.db_table
-            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v]
+            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v]
             self.content_type_field = subject.content_type_field_name + '_id'
 
         elif isinstance(subject, models.ForeignKey):
             self.model = subject.model
             self.db_table = self.model._meta.db_table
             skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
-            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
+            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
 
         elif hasattr(subject, "_meta"):
             self.model = subject
@@ -119,7 +119,7 @@ class Trigger(object):
                     pass
                 else:
                     if not v and k.attname not in skip:
-                        self.fields.append((k.attname, k.db_type(connection=self.connection)))
+                        self.fields.append((k.column, k.db_type(connection=self.connection)))
 
         else:
             raise NotImplementedError
diff --git a/denorm/denorms.py b/denorm/denorms.py
index 6cc929b..934dd27 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -89,6 +89,13 @@ class Denorm(object):
             cconnection = connection
         return cconnection.ops.quote_name
 
+    @property
+    def column(self):
+        """
+        The name of the database column of the denormalized field.
+        """
+        return self.model._meta.get_field(self.fieldname).column
+
     def setup(self, **kwargs):
         """
         Adds 'self' to the global denorm list
@@ -251,7 +258,7 @@ class CacheKeyDenorm(BaseCacheKeyDenorm):
         from .db import triggers
         action = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.column,),
             values=(triggers.RandomBigInt(),),
             where="%s = NEW.%s" % ((qn(self.model._meta.pk.get_attname_column()[1]),) * 2),
         )
@@ -349,13 +356,13 @@ class AggregateDenorm(Denorm):
         related_dec_where, related_where_params = self.get_related_where(fk_name, using, 'OLD')
         related_increment = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.column,),
             values=(self.get_related_increment_value(using),),
             where=(' AND '.join(related_inc_where), related_where_params),
         )
         related_decrement = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.column,),
             values=(self.get_related_decrement_value(using),),
             where=(' AND '.join(related_dec_where), related_where_params),
         )
@@ -396,7 +403,7 @@ class AggregateDenorm(Denorm):
             dec_where = [action.replace('NEW.', 'OLD.') for action in inc_where]
         else:
             pk_name = qn(self.model._meta.pk.get_attname_column()[1])
-            fk_name = qn(related_field.attname)
+            fk_name = qn(related_field.column)
             inc_where = ["%s = NEW.%s" % (pk_name, fk_name)]
             dec_where = ["%s = OLD.%s" % (pk_name, fk_name)]
 
@@ -425,13 +432,13 @@ class AggregateDenorm(Denorm):
             # create the triggers for the incremental updates
         increment = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.column,),
             values=(self.get_increment_value(using),),
             where=(' AND '.join(inc_where), where_params),
         )
         decrement = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.column,),
             values=(self.get_decrement_value(using),),
             where=(' AND '.join(dec_where), where_params),
         )
@@ -473,12 +480,12 @@ class SumDenorm(AggregateDenorm):
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.column), qn(self.manager.field.model._meta.get_field(self.sum_field).column))
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.column), qn(self.manager.field.model._meta.get_field(self.sum_field).column))
 
     def get_related_increment_value(self, using):
         qn = self.get_quote_name(using)
@@ -523,12 +530,12 @@ class CountDenorm(AggregateDenorm):
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + 1" % qn(self.fieldname)
+        return "%s + 1" % qn(self.column)
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - 1" % qn(self.fieldname)
+        return "%s - 1" % qn(self.column)
 
     def get_related_increment_value(self, using):
         return self.get_increment_value(using)
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 7f4802e..2f1e88d 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -110,7 +110,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             # may be related to one instance of ``other_model``
             action_new = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.this_model._meta.get_field(self.fieldname).column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.field.get_attname_column()[1]),
@@ -119,7 +119,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             )
             action_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.this_model._meta.get_field(self.fieldname).column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.field.get_attname_column()[1]),
@@ -140,7 +140,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             # are affected, otherwise only the one it is pointing to is affected.
             action_new = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.this_model._meta.get_field(self.fieldname).column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -149,7 +149,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             )
             action_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.this_model._meta.get_field(self.fieldname).column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -185,7 +185,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             # to the intermediate table.
             action_m2m_new = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.this_model._meta.get_field(self.fieldname).column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -194,7 +194,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             )
             action_m2m_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.this_model._meta.get_field(self.fieldname).column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -224,7 +224,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 ).sql()
                 action_new = triggers.TriggerActionUpdate(
                     model=self.this_model,
-                    columns=(self.fieldname,),
+                    columns=(self.this_model._meta.get_field(self.fieldname).column,),
                     values=(triggers.RandomBigInt(),),
                     where=(self.this_model._meta.pk.get_attname_column()[1] + ' IN (' + sql + ')', params),
                 )
-- 
2.43.0


From 89e2c1abab9fbd318f31ec347e18d5b84b6fe755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:28 +0000
Subject: [PATCH 09/39] fix: quote identifiers in trigger SQL

---
 denorm/db/base.py                | 11 ++++++-----
 denorm/db/mysql/triggers.py      | 10 ++++++----
 denorm/db/postgresql/triggers.py | 15 ++++++++-------
 denorm/db/sqlite3/triggers.py    | 12 ++++++------
 denorm/dependencies.py           |  4 ++--
 5 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 40c6c24..3917fdd 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -9,9 +9,10 @@ class RandomBigInt(object):
 
 class TriggerNestedSelect:
     def __init__(self, table, columns, **kwargs):
-        self.table = table
-        self.columns = ", ".join(columns)
-        self.kwargs = kwargs
+        qn = connection.ops.quote_name
+        self.table = qn(table)
+        self.columns = ", ".join([c if c.isdigit() else qn(c) for c in columns])
+        self.kwargs = dict((qn(k), v) for k, v in kwargs.items())
 
     def sql(self):
         raise NotImplementedError
@@ -28,7 +29,7 @@ class TriggerAction(object):
 class TriggerActionInsert(TriggerAction):
     def __init__(self, model, columns, values):
         self.model = model
-        self.columns = columns
+        self.columns = [connection.ops.quote_name(c) for c in columns]
         self.values = values
 
     def sql(self):
@@ -38,7 +39,7 @@ class TriggerActionInsert(TriggerAction):
 class TriggerActionUpdate(TriggerAction):
     def __init__(self, model, columns, values, where):
         self.model = model
-        self.columns = columns
+        self.columns = [connection.ops.quote_name(c) for c in columns]
         self.where = where
 
         self.values = []
diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 8d76527..52d2e98 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -1,5 +1,6 @@
 import random
 import string
+from django.db import connection
 from denorm.db import base
 
 
@@ -20,7 +21,7 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
 class TriggerActionInsert(base.TriggerActionInsert):
 
     def sql(self):
-        table = self.model._meta.db_table
+        table = connection.ops.quote_name(self.model._meta.db_table)
         columns = "(" + ", ".join(self.columns) + ")"
         params = []
         if isinstance(self.values, TriggerNestedSelect):
@@ -36,7 +37,7 @@ class TriggerActionInsert(base.TriggerActionInsert):
 class TriggerActionUpdate(base.TriggerActionUpdate):
 
     def sql(self):
-        table = self.model._meta.db_table
+        table = connection.ops.quote_name(self.model._meta.db_table)
         updates = ", ".join(["%s = %s" % (k, v) for k, v in zip(self.columns, self.values)])
         if isinstance(self.where, tuple):
             where, where_params = self.where
@@ -57,6 +58,7 @@ class Trigger(base.Trigger):
                 random.choice(string.ascii_uppercase + string.digits)
                 for x in range(5)
             )
+        qname = qn(name)
         params = []
         action_list = []
         actions_added = set()
@@ -73,7 +75,7 @@ class Trigger(base.Trigger):
 
         # FIXME: actions should depend on content_type and content_type_field, if applicable
         # now we flag too many things dirty, e.g. a change for ('forum', 1) also flags ('post', 1)
-        table = self.db_table
+        table = qn(self.db_table)
         time = self.time.upper()
         event = self.event.upper()
 
@@ -97,7 +99,7 @@ class Trigger(base.Trigger):
             actions = "\n        ".join(action_list)
 
         sql = """
-CREATE TRIGGER %(name)s
+CREATE TRIGGER %(qname)s
     %(time)s %(event)s ON %(table)s
     FOR EACH ROW BEGIN
         %(actions)s
diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 8c9206b..4a33f67 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -1,4 +1,4 @@
-from django.db import transaction
+from django.db import connection, transaction
 from denorm.db import base
 from django.db.backends.utils import truncate_name
 
@@ -20,7 +20,7 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
 class TriggerActionInsert(base.TriggerActionInsert):
 
     def sql(self):
-        table = self.model._meta.db_table
+        table = connection.ops.quote_name(self.model._meta.db_table)
         columns = "(" + ", ".join(self.columns) + ")"
         params = []
         if isinstance(self.values, TriggerNestedSelect):
@@ -43,7 +43,7 @@ class TriggerActionInsert(base.TriggerActionInsert):
 class TriggerActionUpdate(base.TriggerActionUpdate):
 
     def sql(self):
-        table = self.model._meta.db_table
+        table = connection.ops.quote_name(self.model._meta.db_table)
         params = []
         updates = ", ".join(["%s = %s" % (k, v) for k, v in zip(self.columns, self.values)])
         if isinstance(self.where, tuple):
@@ -65,6 +65,7 @@ class Trigger(base.Trigger):
         qn = self.connection.ops.quote_name
 
         name = truncate_name(self.name(), self.connection.ops.max_name_length() - 5)
+        qname, qfunc = qn(name), qn('func_' + name)
         params = []
         action_list = []
         actions_added = set()
@@ -78,7 +79,7 @@ class Trigger(base.Trigger):
                     actions_added.add((sql, action_params))
                     action_list.extend(sql.split('\n'))
                     params.extend(action_params)
-        table = self.db_table
+        table = qn(self.db_table)
         time = self.time.upper()
         event = self.event.upper()
         content_type = self.content_type
@@ -118,16 +119,16 @@ class Trigger(base.Trigger):
             actions = "\n        ".join(action_list)
 
         sql = """
-CREATE OR REPLACE FUNCTION func_%(name)s()
+CREATE OR REPLACE FUNCTION %(qfunc)s()
     RETURNS TRIGGER AS $$
     BEGIN
         %(actions)s
         RETURN NULL;
     END;
 $$ LANGUAGE plpgsql;
-CREATE TRIGGER %(name)s
+CREATE TRIGGER %(qname)s
     %(time)s %(event)s ON %(table)s
-    FOR EACH ROW EXECUTE PROCEDURE func_%(name)s();
+    FOR EACH ROW EXECUTE PROCEDURE %(qfunc)s();
 """ % locals()
         return sql, params
 
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 576e110..6093550 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -1,4 +1,4 @@
-from django.db import transaction
+from django.db import connection, transaction
 from denorm.db import base
 
 import logging
@@ -24,7 +24,7 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
 class TriggerActionInsert(base.TriggerActionInsert):
 
     def sql(self):
-        table = self.model._meta.db_table
+        table = connection.ops.quote_name(self.model._meta.db_table)
         columns = "(" + ", ".join(self.columns) + ")"
         if isinstance(self.values, TriggerNestedSelect):
             sql, params = self.values.sql()
@@ -39,7 +39,7 @@ class TriggerActionInsert(base.TriggerActionInsert):
 class TriggerActionUpdate(base.TriggerActionUpdate):
 
     def sql(self):
-        table = self.model._meta.db_table
+        table = connection.ops.quote_name(self.model._meta.db_table)
         updates = ", ".join(["%s = %s" % (k, v) for k, v in zip(self.columns, self.values)])
         if isinstance(self.where, tuple):
             where, where_params = self.where
@@ -60,7 +60,7 @@ class Trigger(base.Trigger):
     def sql(self):
         qn = self.connection.ops.quote_name
 
-        name = self.name()
+        qname = qn(self.name())
         params = []
         action_list = []
         actions_added = set()
@@ -75,7 +75,7 @@ class Trigger(base.Trigger):
                     action_list.extend(sql.split('\n'))
                     params.extend(action_params)
         actions = "\n        ".join(action_list)
-        table = self.db_table
+        table = qn(self.db_table)
         time = self.time.upper()
         event = self.event.upper()
         content_type = self.content_type
@@ -98,7 +98,7 @@ class Trigger(base.Trigger):
             when = "WHEN(%s)" % (when,)
 
         return """
-CREATE TRIGGER %(name)s
+CREATE TRIGGER %(qname)s
     %(time)s %(event)s ON %(table)s
     FOR EACH ROW %(when)s BEGIN
         %(actions)s
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 2f1e88d..9c27aec 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -226,7 +226,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                     model=self.this_model,
                     columns=(self.this_model._meta.get_field(self.fieldname).column,),
                     values=(triggers.RandomBigInt(),),
-                    where=(self.this_model._meta.pk.get_attname_column()[1] + ' IN (' + sql + ')', params),
+                    where=(qn(self.this_model._meta.pk.get_attname_column()[1]) + ' IN (' + sql + ')', params),
                 )
                 trigger_list.append(triggers.Trigger(self.other_model, "after", "update", [action_new], content_type, using, self.skip))
 
@@ -333,7 +333,7 @@ class CallbackDependOnRelated(DependOnRelated):
                 columns=("content_type_id", "object_id"),
                 values=(
                     content_type,
-                    "OLD.%s" % self.field.get_attname_column()[1],
+                    "OLD.%s" % qn(self.field.get_attname_column()[1]),
                 ),
             )
             return [
-- 
2.43.0


From 5f3a567fb412f951bff021b2954f06b1ecc18e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:53 +0000
Subject: [PATCH 10/39] fix: lock rows while flush recomputes them

---
 denorm/denorms.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 934dd27..7ae3932 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -2,7 +2,7 @@
 import abc
 
 from django.contrib import contenttypes
-from django.db import connections, connection
+from django.db import connections, connection, transaction
 from django.apps import apps as gmodels
 from django.db.models import sql, ManyToManyField
 from django.db.models.aggregates import Sum
@@ -637,10 +637,15 @@ def flush(verbose=False):
             if verbose:
                 i += 1
                 print("flushing %s of %s all dirty instances" % (i, size))
-            if dirty_instance.content_object:
-                dirty_instance.content_object.save()
-
-            DirtyInstance.objects.filter(
-                content_type_id=dirty_instance.content_type_id,
-                object_id=dirty_instance.object_id
-            ).delete()
+            with transaction.atomic():
+                # Lock the row until its new values are saved, so that we
+                # neither overwrite nor resurrect what others change meanwhile.
+                content_type = contenttypes.models.ContentType.objects.get_for_id(dirty_instance.content_type_id)
+                model = content_type.model_class()
+                for instance in model._base_manager.select_for_update().filter(pk=dirty_instance.object_id):
+                    instance.save()
+
+                DirtyInstance.objects.filter(
+                    content_type_id=dirty_instance.content_type_id,
+                    object_id=dirty_instance.object_id
+                ).delete()
-- 
2.43.0


From 90c1920f67089f3ea944fa1ebdc8113a8843e99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:24 +0000
Subject: [PATCH 11/39] fix: never overwrite counts and sums when saving

Saving read the stored count and wrote it back, so rows added by another
client in between were lost. Saving a new instance with a given primary
key failed with an IndexError. The database now keeps its own value.
---
 denorm/fields.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index 2e29aec..5e956ae 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -170,16 +170,20 @@ class AggregateField(models.PositiveIntegerField):
         if add:
             # if this is a new instance there can't be any related objects yet
             value = 0
-        else:
-            # if we're updating, get the most recent value from the DB
-            value = self.denorm.model.objects.filter(
-                pk=model_instance.pk,
-            ).values_list(
-                self.attname, flat=True,
-            )[0]
-
-        setattr(model_instance, self.attname, value)
-        return value
+            setattr(model_instance, self.attname, value)
+            return value
+
+        # if we're updating, get the most recent value from the DB
+        # (there is none if the instance was given its primary key)
+        for value in self.denorm.model._base_manager.filter(
+            pk=model_instance.pk,
+        ).values_list(
+            self.attname, flat=True,
+        ):
+            setattr(model_instance, self.attname, value)
+
+        # and leave it to the DB to keep its value, as it may change meanwhile
+        return models.F(self.name)
 
     def deconstruct(self):
         name, path, args, kwargs = super(AggregateField, self).deconstruct()
-- 
2.43.0


From f9b870bc7232d4b73466f8608a898f39fa566202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:15 +0000
Subject: [PATCH 12/39] fix: link computed many-to-many fields of instances
 with a given key

Saving a new instance whose primary key was assigned by hand raised a
ValueError or an integrity error, because links were written before the
row. A primary key of 0 was taken for no key at all.
---
 denorm/denorms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 7ae3932..b148101 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -19,8 +19,11 @@ def many_to_many_pre_save(sender, instance, **kwargs):
     """
     Updates denormalised many-to-many fields for the model
     """
-    if instance.pk:
-        # Need a primary key to do m2m stuff
+    # Not the same as being created, if the primary key was assigned by hand
+    instance._denorm_adding = instance._state.adding
+    if instance.pk is not None and not instance._state.adding:
+        # Need a row in a database to do m2m stuff, new instances
+        # get saved again by many_to_many_post_save
         for m2m in sender._meta.local_many_to_many:
             # This gets us all m2m fields, so limit it to just those that are denormed
             if hasattr(m2m, 'denorm'):
@@ -52,7 +55,7 @@ def many_to_many_pre_save(sender, instance, **kwargs):
 
 
 def many_to_many_post_save(sender, instance, created, **kwargs):
-    if created:
+    if created or instance.__dict__.pop('_denorm_adding', False):
         def check_resave():
             for m2m in sender._meta.local_many_to_many:
                 if hasattr(m2m, 'denorm'):
-- 
2.43.0


From f20806f785ab5aef66a3d56ed862c3f0c6ee0a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:39 +0000
Subject: [PATCH 13/39] fix: update computed many-to-many fields when saving
 subclasses and proxies

Their links were only updated by saves through the class that declares the
field, and only for fields the saved class declares itself.
---
 denorm/denorms.py | 4 ++--
 denorm/fields.py  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index b148101..cbf3b11 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -24,7 +24,7 @@ def many_to_many_pre_save(sender, instance, **kwargs):
     if instance.pk is not None and not instance._state.adding:
         # Need a row in a database to do m2m stuff, new instances
         # get saved again by many_to_many_post_save
-        for m2m in sender._meta.local_many_to_many:
+        for m2m in sender._meta.many_to_many:
             # This gets us all m2m fields, so limit it to just those that are denormed
             if hasattr(m2m, 'denorm'):
                 # Does some extra jiggery-pokery for "through" m2m models.
@@ -57,7 +57,7 @@ def many_to_many_pre_save(sender, instance, **kwargs):
 def many_to_many_post_save(sender, instance, created, **kwargs):
     if created or instance.__dict__.pop('_denorm_adding', False):
         def check_resave():
-            for m2m in sender._meta.local_many_to_many:
+            for m2m in sender._meta.many_to_many:
                 if hasattr(m2m, 'denorm'):
                     return True
             return False
diff --git a/denorm/fields.py b/denorm/fields.py
index 5e956ae..35aa26e 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -50,9 +50,9 @@ def denormalized(DBField, *args, **kwargs):
             self.denorm.fieldname = name
             self.field_args = (args, kwargs)
             models.signals.class_prepared.connect(self.denorm.setup, sender=cls)
-            # Add The many to many signal for this class
-            models.signals.pre_save.connect(denorms.many_to_many_pre_save, sender=cls)
-            models.signals.post_save.connect(denorms.many_to_many_post_save, sender=cls)
+            # Add The many to many signal for this class, its subclasses and proxies
+            models.signals.pre_save.connect(denorms.many_to_many_pre_save)
+            models.signals.post_save.connect(denorms.many_to_many_post_save)
             DBField.contribute_to_class(self, cls, name, *args, **kwargs)
 
         def pre_save(self, model_instance, add):
-- 
2.43.0


From 294aa9a3a5d9ee30997217c3c787841fa86e9417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:28 +0000
Subject: [PATCH 14/39] fix: track and rebuild computed many-to-many fields

Models whose only denormalized field is many-to-many got no triggers and
were left out of rebuilds.
---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index cbf3b11..a454585 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -73,7 +73,7 @@ def get_alldenorms():
     alldenorms = []
     for model in gmodels.get_models(include_auto_created=True):
         if not model._meta.proxy:
-            for field in model._meta.fields:
+            for field in list(model._meta.fields) + list(model._meta.many_to_many):
                 if hasattr(field, 'denorm'):
                     if not field.denorm.model._meta.swapped:
                         alldenorms.append(field.denorm)
-- 
2.43.0


From 51339ae346b0f2a5f2d9b167265b71096a7fed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:28 +0000
Subject: [PATCH 15/39] fix: rebuild rows hidden by a model's default manager

---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index a454585..a805d98 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -572,7 +572,7 @@ def rebuildall(verbose=False, model_name=None, field_name=None):
                 i += 1
         # create DirtyInstance for all objects, so the rebuild is done during flush
         content_type = contenttypes.models.ContentType.objects.get_for_model(model)
-        for instance in model.objects.all():
+        for instance in model._base_manager.all():
                 DirtyInstance.objects.create(
                     content_type=content_type,
                     object_id=instance.pk,
-- 
2.43.0


From 577c6ecb6a627e33bbce3efdee56e93e02b0cddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:36 +0000
Subject: [PATCH 16/39] fix: recalculate counts and sums in a rebuild

A rebuild is documented to recalculate every denormalized field but left
counts and sums at whatever value was stored.
---
 denorm/denorms.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index a805d98..611324b 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -572,7 +572,16 @@ def rebuildall(verbose=False, model_name=None, field_name=None):
                 i += 1
         # create DirtyInstance for all objects, so the rebuild is done during flush
         content_type = contenttypes.models.ContentType.objects.get_for_model(model)
+        aggregates = [denorm for denorm in denorms if isinstance(denorm, AggregateDenorm)]
         for instance in model._base_manager.all():
+                if aggregates:
+                    # counts and sums are not recalculated by flush, do it
+                    # while the row is locked and triggers can't change them
+                    with transaction.atomic():
+                        for locked in model._base_manager.select_for_update().filter(pk=instance.pk):
+                            model._base_manager.filter(pk=instance.pk).update(
+                                **dict((denorm.fieldname, denorm.func(locked)) for denorm in aggregates)
+                            )
                 DirtyInstance.objects.create(
                     content_type=content_type,
                     object_id=instance.pk,
-- 
2.43.0


From a5600f66eb5c344d822f2e8a58d295d288a2d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:30 +0000
Subject: [PATCH 17/39] fix: do not fail on marks of models that no longer
 exist

---
 denorm/denorms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 611324b..6c615e2 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -654,8 +654,9 @@ def flush(verbose=False):
                 # neither overwrite nor resurrect what others change meanwhile.
                 content_type = contenttypes.models.ContentType.objects.get_for_id(dirty_instance.content_type_id)
                 model = content_type.model_class()
-                for instance in model._base_manager.select_for_update().filter(pk=dirty_instance.object_id):
-                    instance.save()
+                if model is not None:  # the model may have been removed from the project
+                    for instance in model._base_manager.select_for_update().filter(pk=dirty_instance.object_id):
+                        instance.save()
 
                 DirtyInstance.objects.filter(
                     content_type_id=dirty_instance.content_type_id,
-- 
2.43.0


From 6fbab588df1cbf8c7a792b7591b5d03277b5cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:15 +0000
Subject: [PATCH 18/39] fix: do not share cached values between rows without a
 cache key

---
 denorm/fields.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index 35aa26e..1c476d0 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -310,10 +310,12 @@ class CacheWrapper(object):
 
     def __set__(self, obj, value):
         key = 'CachedField_%s' % value
-        cached = self.field.cache.get(key)
+        # rows that never got a key all have 0, they must not share an entry
+        cached = self.field.cache.get(key) if value else None
         if not cached:
             cached = self.field.func(obj)
-            self.field.cache.set(key, cached, 60 * 60 * 24 * 30)
+            if value:
+                self.field.cache.set(key, cached, 60 * 60 * 24 * 30)
         obj.__dict__[self.field.name] = cached
 
 
-- 
2.43.0


From 95f17ff8d338999f3d845daf555351f4ef9e0ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:57 +0000
Subject: [PATCH 19/39] fix: return the value of cached fields that were
 deferred

---
 denorm/fields.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index 1c476d0..a02dce2 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -318,6 +318,15 @@ class CacheWrapper(object):
                 self.field.cache.set(key, cached, 60 * 60 * 24 * 30)
         obj.__dict__[self.field.name] = cached
 
+    def __get__(self, obj, cls=None):
+        if obj is None:
+            return self
+        if self.field.name not in obj.__dict__:
+            # the field was deferred when the instance got loaded
+            key = obj.__class__._base_manager.using(obj._state.db).filter(pk=obj.pk).values_list(self.field.attname, flat=True)
+            self.__set__(obj, key.get())
+        return obj.__dict__[self.field.name]
+
 
 class CachedField(CacheKeyField):
     def __init__(self, func=None, cache=None, *args, **kwargs):
-- 
2.43.0


From cfea38beff8dc3ddbb6d35d5d605afde9b8d797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:15 +0000
Subject: [PATCH 20/39] fix: do not cache values computed by the save of an
 outdated instance

---
 denorm/fields.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index a02dce2..c5f79ec 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -341,6 +341,12 @@ class CachedField(CacheKeyField):
         super(CachedField, self).contribute_to_class(cls, name, *args, **kwargs)
         setattr(cls, self.name, CacheWrapper(self))
 
+    def pre_save(self, model_instance, add):
+        # the instance may hold outdated related objects, what it sees must not be cached
+        value = self.denorm.func(model_instance)
+        model_instance.__dict__[self.name] = self.func(model_instance)
+        return value
+
 
 def cached(cache, *args, **kwargs):
     def deco(func):
-- 
2.43.0


From 18a53091da4849bb00e1ce6e8cf1f846f0308e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:21:11 +0000
Subject: [PATCH 21/39] fix: install and drop triggers atomically in the chosen
 database

---
 denorm/db/postgresql/triggers.py | 4 ++--
 denorm/db/sqlite3/triggers.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 4a33f67..29220a2 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -143,7 +143,7 @@ class TriggerSet(base.TriggerSet):
 
     def drop(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.drop_atomic()
         except AttributeError:
             self.drop_atomic()
@@ -160,7 +160,7 @@ class TriggerSet(base.TriggerSet):
 
     def install(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.install_atomic()
         except AttributeError:
             self.install_atomic()
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 6093550..4e0de92 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -117,7 +117,7 @@ class TriggerSet(base.TriggerSet):
 
     def drop(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.drop_atomic()
         except AttributeError:
             self.drop_atomic()
@@ -132,7 +132,7 @@ class TriggerSet(base.TriggerSet):
 
     def install(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.install_atomic()
         except AttributeError:
             self.install_atomic()
-- 
2.43.0


From 54d9cdaf1c1911eb30699677356d0b4bf829074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:32 +0000
Subject: [PATCH 22/39] fix: replace the triggers of an earlier installation

---
 denorm/db/mysql/triggers.py      | 2 ++
 denorm/db/postgresql/triggers.py | 2 ++
 denorm/db/sqlite3/triggers.py    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 52d2e98..4260187 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -122,6 +122,8 @@ class TriggerSet(base.TriggerSet):
                 cursor.execute('DROP TRIGGER %s;' % qn(result[0]))
 
     def install(self):
+        # triggers of an earlier installation may be outdated
+        self.drop()
         cursor = self.cursor()
         for name, trigger in self.triggers.items():
             sql, args = trigger.sql()
diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 29220a2..fa210db 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -150,6 +150,8 @@ class TriggerSet(base.TriggerSet):
             transaction.commit_unless_managed(using=self.using)
 
     def install_atomic(self):
+        # triggers of an earlier installation may be outdated
+        self.drop_atomic()
         cursor = self.cursor()
         cursor.execute("SELECT lanname FROM pg_catalog.pg_language WHERE lanname ='plpgsql'")
         if not cursor.fetchall():
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 4e0de92..0d9d26d 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -124,6 +124,8 @@ class TriggerSet(base.TriggerSet):
             transaction.commit_unless_managed(using=self.using)
 
     def install_atomic(self):
+        # triggers of an earlier installation may be outdated
+        self.drop_atomic()
         cursor = self.cursor()
 
         for name, trigger in self.triggers.items():
-- 
2.43.0


From d1312159d20696f60a3f8ad3f14ce88e5391f7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:05 +0000
Subject: [PATCH 23/39] fix: drop only triggers with the library's prefix

---
 denorm/db/postgresql/triggers.py | 4 +++-
 denorm/db/sqlite3/triggers.py    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index fa210db..1cb9ee1 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -139,7 +139,9 @@ class TriggerSet(base.TriggerSet):
         cursor = self.cursor()
         cursor.execute("SELECT pg_class.relname, pg_trigger.tgname FROM pg_trigger LEFT JOIN pg_class ON (pg_trigger.tgrelid = pg_class.oid) WHERE pg_trigger.tgname LIKE 'denorm_%%';")
         for table_name, trigger_name in cursor.fetchall():
-            cursor.execute('DROP TRIGGER %s ON %s;' % (qn(trigger_name), qn(table_name)))
+            # the pattern also matches e.g. "denormalize"
+            if trigger_name.startswith('denorm_'):
+                cursor.execute('DROP TRIGGER %s ON %s;' % (qn(trigger_name), qn(table_name)))
 
     def drop(self):
         try:
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 0d9d26d..adfbc74 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -113,7 +113,9 @@ class TriggerSet(base.TriggerSet):
 
         cursor.execute("SELECT name, tbl_name FROM sqlite_master WHERE type = 'trigger' AND name LIKE 'denorm_%%';")
         for trigger_name, table_name in cursor.fetchall():
-            cursor.execute("DROP TRIGGER %s;" % (qn(trigger_name),))
+            # the pattern also matches e.g. "denormalize"
+            if trigger_name.startswith('denorm_'):
+                cursor.execute("DROP TRIGGER %s;" % (qn(trigger_name),))
 
     def drop(self):
         try:
-- 
2.43.0


From 08af66339b46e71f749c230cc33f3b5421da753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:12 +0000
Subject: [PATCH 24/39] fix: find the relations of a dependency by the models
 they point to

Relations were compared by the lower-cased representation of the model, so models
of the same name in the same module matched, and relations declared by name were missed
until Django had resolved them.
---
 denorm/helpers.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/denorm/helpers.py b/denorm/helpers.py
index 54d2be7..6f09673 100644
--- a/denorm/helpers.py
+++ b/denorm/helpers.py
@@ -12,6 +12,19 @@ def remote_field_model(field):
     if hasattr(field, 'rel') and field.rel:
         return field.rel.to
 
+
+def points_to(field, to_model):
+    """
+    Tells if the relation 'field' points to 'to_model', even if Django did not
+    yet replace the name of the model by the model itself.
+    """
+    model = remote_field_model(field)
+    if isinstance(model, six.string_types):
+        label = model if '.' in model else '%s.%s' % (field.model._meta.app_label, model)
+        return label.lower() == ('%s.%s' % (to_model._meta.app_label, to_model.__name__)).lower()
+    return model is to_model
+
+
 def find_fks(from_model, to_model, fk_name=None):
     """
     Finds all ForeignKeys on 'from_model' pointing to 'to_model'.
@@ -21,7 +34,7 @@ def find_fks(from_model, to_model, fk_name=None):
     fkeys = [x for x in from_model._meta.fields if isinstance(x, models.ForeignKey)]
 
     # filter out all FKs not pointing to 'to_model'
-    fkeys = [x for x in fkeys if repr(remote_field_model(x)).lower() == repr(to_model).lower()]
+    fkeys = [x for x in fkeys if points_to(x, to_model)]
 
     # if 'fk_name' was given, filter out all FKs not matching that name, leaving
     # only one (or none)
@@ -45,7 +58,7 @@ def find_m2ms(from_model, to_model, m2m_name=None):
     m2ms = list(from_model._meta.many_to_many) + private_fields
 
     # filter out all M2Ms not pointing to 'to_model'
-    m2ms = [x for x in m2ms if repr(remote_field_model(x)).lower() == repr(to_model).lower()]
+    m2ms = [x for x in m2ms if points_to(x, to_model)]
 
     # if 'm2m_name' was given, filter out all M2Ms not matching that name, leaving
     # only one (or none)
-- 
2.43.0


From b851d8998476e1f66028eebcbdd66601233f711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:52 +0000
Subject: [PATCH 25/39] fix: report dependencies on models that do not exist
 also if a type is given

---
 denorm/dependencies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 9c27aec..6ef67c9 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -98,7 +98,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
         from denorm.db import triggers
         qn = self.get_quote_name(using)
 
-        if not self.type:
+        if not hasattr(self, 'field'):
             # 'resolved_model' model never got called...
             raise ValueError("The model '%s' could not be resolved, it probably does not exist" % self.other_model)
 
@@ -275,7 +275,7 @@ class CallbackDependOnRelated(DependOnRelated):
         from denorm.db import triggers
         qn = self.get_quote_name(using)
 
-        if not self.type:
+        if not hasattr(self, 'field'):
             # 'resolved_model' model never got called...
             raise ValueError("The model '%s' could not be resolved, it probably does not exist" % self.other_model)
 
-- 
2.43.0


From c42384754edbf055a6caa7a71587789b71199170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:47 +0000
Subject: [PATCH 26/39] fix: flush once if the daemon is told to run once

---
 denorm/management/commands/denorm_daemon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index 24b4d47..c00c243 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -82,13 +82,13 @@ class Command(BaseCommand):
             from denorm import daemon
             daemon.daemonize(noClose=True, pidfile=pidfile)
 
-        while not run_once:
+        while True:
             try:
                 denorms.flush()
+                if run_once:
+                    break
                 sleep(interval)
                 transaction.commit()
             except KeyboardInterrupt:
                 transaction.commit()
                 sys.exit()
-            if run_once:
-                break
-- 
2.43.0


From 175e9cd104de58fd470d6f950726b2c5ebe66653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:58:04 +0000
Subject: [PATCH 27/39] fix: let the daemon commit its work before it goes to
 sleep, also on SQLite

---
 denorm/management/commands/denorm_daemon.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index c00c243..2cbc3f7 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -5,21 +5,11 @@ from time import sleep
 from optparse import make_option
 
 from django.core.management.base import BaseCommand
-from django.db import transaction
 
 from denorm import denorms
 
 PID_FILE = "/tmp/django-denorm-daemon-pid"
 
-def commit_manually(fn):  # replacement of transaction.commit_manually decorator removed in Django 1.6
-    def _commit_manually(*args, **kwargs):
-        transaction.set_autocommit(False)
-        res = fn(*args, **kwargs)
-        transaction.commit()
-        transaction.set_autocommit(True)
-        return res
-    return _commit_manually
-
 
 class Command(BaseCommand):
     def add_arguments(self, parser):
@@ -68,7 +58,6 @@ class Command(BaseCommand):
             else:
                 raise
 
-    @commit_manually
     def handle(self, **options):
         foreground = options['foreground']
         interval = options['interval']
@@ -88,7 +77,5 @@ class Command(BaseCommand):
                 if run_once:
                     break
                 sleep(interval)
-                transaction.commit()
             except KeyboardInterrupt:
-                transaction.commit()
                 sys.exit()
-- 
2.43.0


From c54ea0e6382ae2f39182cc5a1d8f0d990e0d636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:58 +0000
Subject: [PATCH 28/39] fix: write the pid file of the daemon on Python 3

---
 denorm/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/daemon.py b/denorm/daemon.py
index a058937..0bda534 100644
--- a/denorm/daemon.py
+++ b/denorm/daemon.py
@@ -151,7 +151,8 @@ def daemonize(noClose=False, pidfile=None):
             # Original child. Exit.
             if pidfile:
                 print(pid)
-                file(pidfile, "w").write(str(pid))
+                with open(pidfile, "w") as f:
+                    f.write(str(pid))
             os._exit(0)
 
         # This is the second child. Set the umask.
-- 
2.43.0


From 2dd96b0ac8c3e3be88f52b5456c4d01083bf8286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:58 +0000
Subject: [PATCH 29/39] fix: accept the name of the model to rebuild on the
 command line

---
 denorm/management/commands/denorm_rebuild.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/denorm/management/commands/denorm_rebuild.py b/denorm/management/commands/denorm_rebuild.py
index d401631..17088b3 100644
--- a/denorm/management/commands/denorm_rebuild.py
+++ b/denorm/management/commands/denorm_rebuild.py
@@ -5,6 +5,9 @@ from denorm import denorms
 class Command(BaseCommand):
     help = "Recalculates the value of every single denormalized model field in the whole project."
 
+    def add_arguments(self, parser):
+        parser.add_argument('model_name', nargs='?', help='Rebuild only this model or application')
+
     def handle(self, model_name=None, *args, **kwargs):
         verbosity = int((kwargs.get('verbosity', 0)))
         denorms.rebuildall(verbose=verbosity > 1, model_name=model_name)
-- 
2.43.0


From e2daf5b71f2a9f9e787f2796d3392ac7e4769b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:38:49 +0000
Subject: [PATCH 30/39] fix: use the column names of generic foreign keys in
 triggers

---
 denorm/db/base.py      | 2 +-
 denorm/dependencies.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 3917fdd..39ca5b2 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -96,7 +96,7 @@ class Trigger(object):
             self.model = None
             self.db_table = remote_field_model(subject)._meta.db_table
             self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v]
-            self.content_type_field = subject.content_type_field_name + '_id'
+            self.content_type_field = remote_field_model(subject)._meta.get_field(subject.content_type_field_name).column
 
         elif isinstance(subject, models.ForeignKey):
             self.model = subject.model
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 6ef67c9..c750240 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -174,11 +174,11 @@ class CacheKeyDependOnRelated(DependOnRelated):
                     reverse_column_name = self.field.m2m_column_name()
             else:
                 if "forward" in self.type:
-                    column_name = self.field.object_id_field_name
+                    column_name = self.field.remote_field.model._meta.get_field(self.field.object_id_field_name).column
                     reverse_column_name = self.field.remote_field.model._meta.pk.column
                 if "backward" in self.type:
                     column_name = self.field.remote_field.model._meta.pk.column
-                    reverse_column_name = self.field.object_id_field_name
+                    reverse_column_name = self.field.remote_field.model._meta.get_field(self.field.object_id_field_name).column
 
             # The first part of a M2M dependency is exactly like a backward
             # ForeignKey dependency. ``this_model`` is backward FK related
@@ -354,11 +354,11 @@ class CallbackDependOnRelated(DependOnRelated):
                     reverse_column_name = self.field.m2m_column_name()
             else:
                 if "forward" in self.type:
-                    column_name = qn(self.field.object_id_field_name)
+                    column_name = qn(self.field.remote_field.model._meta.get_field(self.field.object_id_field_name).column)
                     reverse_column_name = remote_field_model(self.field)._meta.pk.column
                 if "backward" in self.type:
                     column_name = qn(remote_field_model(self.field)._meta.pk.column)
-                    reverse_column_name = self.field.object_id_field_name
+                    reverse_column_name = self.field.remote_field.model._meta.get_field(self.field.object_id_field_name).column
 
             # The first part of a M2M dependency is exactly like a backward
             # ForeignKey dependency. ``this_model`` is backward FK related
-- 
2.43.0


From 2360a99423a48904ff9f6c753442f435c0988c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:35 +0000
Subject: [PATCH 31/39] fix: notice changes of case in SQLite columns with a
 collation

---
 denorm/db/sqlite3/triggers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index adfbc74..4b70bc3 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -83,7 +83,7 @@ class Trigger(base.Trigger):
 
         when = []
         if event == "UPDATE":
-            when.append("(" + "OR".join(["(OLD.%s IS NOT NEW.%s)" % (qn(f), qn(f)) for f, t in self.fields]) + ")")
+            when.append("(" + "OR".join(["(OLD.%s IS NOT NEW.%s COLLATE BINARY)" % (qn(f), qn(f)) for f, t in self.fields]) + ")")
         if ct_field:
             ct_field = qn(ct_field)
             if event == "DELETE":
-- 
2.43.0


From dd3620f0d6e0e3797017f2d567f92574e86c51b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:35 +0000
Subject: [PATCH 32/39] fix: compare citext, json and xml columns as text in
 PostgreSQL triggers

---
 denorm/db/postgresql/triggers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 1cb9ee1..0b28625 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -90,10 +90,12 @@ class Trigger(base.Trigger):
         if event == "UPDATE":
             for field, native_type in self.fields:
                 field = qn(field)
-                if native_type is None:
+                if native_type in (None, 'citext', 'json', 'xml'):
                     # If Django didn't know what this field type should be
                     # then compare it as text - Fixes a problem of trying to
                     # compare PostGIS geometry fields.
+                    # The other types can't be compared or are equal in spite
+                    # of their case.
                     conditions.append("(OLD.%(f)s::%(t)s IS DISTINCT FROM NEW.%(f)s::%(t)s)" % {'f': field, 't': 'text'})
                 else:
                     conditions.append("(OLD.%(f)s IS DISTINCT FROM NEW.%(f)s)" % {'f': field})
-- 
2.43.0


From 77924d2ab8f40105ce7cfd8dd683dc8ce0b26eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:06:21 +0000
Subject: [PATCH 33/39] fix: let migrations load and save rows with cached
 fields

The model a migration sees knows neither the function nor the cache of a
cached field, so loading or saving a row failed. It now only renews the key.
---
 denorm/fields.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index c5f79ec..60e94b9 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -339,9 +339,13 @@ class CachedField(CacheKeyField):
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
         super(CachedField, self).contribute_to_class(cls, name, *args, **kwargs)
-        setattr(cls, self.name, CacheWrapper(self))
+        if self.func:
+            setattr(cls, self.name, CacheWrapper(self))
 
     def pre_save(self, model_instance, add):
+        if not self.func:
+            # the model of a migration only knows the key
+            return super(CachedField, self).pre_save(model_instance, add)
         # the instance may hold outdated related objects, what it sees must not be cached
         value = self.denorm.func(model_instance)
         model_instance.__dict__[self.name] = self.func(model_instance)
-- 
2.43.0


From 4b1e6a9146a3422ff854fa5728d8f6e4546f616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:06:21 +0000
Subject: [PATCH 34/39] fix: quote texts and dates in the SQL printed by
 denorm_sql

---
 denorm/management/commands/denorm_sql.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/denorm/management/commands/denorm_sql.py b/denorm/management/commands/denorm_sql.py
index 48216e5..eae74d3 100644
--- a/denorm/management/commands/denorm_sql.py
+++ b/denorm/management/commands/denorm_sql.py
@@ -1,7 +1,22 @@
+from numbers import Number
+
+import six
 from django.core.management.base import BaseCommand
+from django.db import connection
 from denorm import denorms
 
 
+def literal(value):
+    if value is None:
+        return 'NULL'
+    if isinstance(value, Number):
+        return value
+    value = six.text_type(value).replace("'", "''")
+    if connection.vendor == 'mysql':
+        value = value.replace('\\', '\\\\')
+    return "'%s'" % value
+
+
 class Command(BaseCommand):
     help = "Prints out the SQL used to create all triggers needed to track changes to models that may cause data to become inconsistent."
 
@@ -10,5 +25,5 @@ class Command(BaseCommand):
         sql_list = []
         for name, trigger in triggerset.triggers.items():
             sql, params = trigger.sql()
-            sql_list.append(sql % tuple(params))
+            sql_list.append(sql % tuple(literal(param) for param in params))
         print('\n'.join(sql_list))
-- 
2.43.0


From 6d97e90f5a80fcf8d39b209179483002c1ab4298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:06:21 +0000
Subject: [PATCH 35/39] fix: track foreign keys that refer to another unique
 column

Triggers compared foreign keys with the primary key even if the field was
declared with to_field.
---
 denorm/denorms.py      |  5 ++++-
 denorm/dependencies.py | 34 ++++++++++++++++++++++++++++------
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 6c615e2..e674cca 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -405,7 +405,10 @@ class AggregateDenorm(Denorm):
             }]
             dec_where = [action.replace('NEW.', 'OLD.') for action in inc_where]
         else:
-            pk_name = qn(self.model._meta.pk.get_attname_column()[1])
+            key = related_field.target_field
+            if key.primary_key:
+                key = self.model._meta.pk
+            pk_name = qn(key.get_attname_column()[1])
             fk_name = qn(related_field.column)
             inc_where = ["%s = NEW.%s" % (pk_name, fk_name)]
             dec_where = ["%s = OLD.%s" % (pk_name, fk_name)]
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index c750240..1156a3c 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -91,6 +91,15 @@ class DependOnRelated(DenormDependency):
         # Now the candidates list contains exactly one item, thats our winner.
         self.type, self.field = candidates[0]
 
+    def get_key_column(self, model):
+        """
+        Returns the column of ``model`` our ForeignKey refers to.
+        """
+        key = self.field.target_field
+        if key.primary_key:
+            key = model._meta.pk
+        return key.get_attname_column()[1]
+
 
 class CacheKeyDependOnRelated(DependOnRelated):
 
@@ -114,7 +123,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.field.get_attname_column()[1]),
-                    qn(self.other_model._meta.pk.get_attname_column()[1]),
+                    qn(self.get_key_column(self.other_model)),
                 ),
             )
             action_old = triggers.TriggerActionUpdate(
@@ -123,7 +132,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.field.get_attname_column()[1]),
-                    qn(self.other_model._meta.pk.get_attname_column()[1]),
+                    qn(self.get_key_column(self.other_model)),
                 ),
             )
             return [
@@ -143,7 +152,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 columns=(self.this_model._meta.get_field(self.fieldname).column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
-                    qn(self.this_model._meta.pk.get_attname_column()[1]),
+                    qn(self.get_key_column(self.this_model)),
                     qn(self.field.get_attname_column()[1]),
                 ),
             )
@@ -152,7 +161,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 columns=(self.this_model._meta.get_field(self.fieldname).column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
-                    qn(self.this_model._meta.pk.get_attname_column()[1]),
+                    qn(self.get_key_column(self.this_model)),
                     qn(self.field.get_attname_column()[1]),
                 ),
             )
@@ -293,7 +302,7 @@ class CallbackDependOnRelated(DependOnRelated):
                     self.this_model._meta.pk.model._meta.db_table,
                     (content_type,
                         self.this_model._meta.pk.get_attname_column()[1]),
-                    **{self.field.get_attname_column()[1]: "NEW.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
+                    **{self.field.get_attname_column()[1]: "NEW.%s" % qn(self.get_key_column(self.other_model))}
                 )
             )
             action_old = triggers.TriggerActionInsert(
@@ -303,7 +312,7 @@ class CallbackDependOnRelated(DependOnRelated):
                     self.this_model._meta.pk.model._meta.db_table,
                     (content_type,
                         self.this_model._meta.pk.get_attname_column()[1]),
-                    **{self.field.get_attname_column()[1]: "OLD.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
+                    **{self.field.get_attname_column()[1]: "OLD.%s" % qn(self.get_key_column(self.other_model))}
                 )
             )
             return [
@@ -336,6 +345,19 @@ class CallbackDependOnRelated(DependOnRelated):
                     "OLD.%s" % qn(self.field.get_attname_column()[1]),
                 ),
             )
+            if not self.field.target_field.primary_key:
+                # The ForeignKey holds an other column of ``this_model``,
+                # so we need to look up the instances it is pointing to.
+                action_new, action_old = [triggers.TriggerActionInsert(
+                    model=denorm.models.DirtyInstance,
+                    columns=("content_type_id", "object_id"),
+                    values=triggers.TriggerNestedSelect(
+                        self.this_model._meta.db_table,
+                        (content_type,
+                            self.this_model._meta.pk.get_attname_column()[1]),
+                        **{self.get_key_column(self.this_model): "%s.%s" % (row, qn(self.field.get_attname_column()[1]))}
+                    )
+                ) for row in ("NEW", "OLD")]
             return [
                 triggers.Trigger(self.other_model, "after", "update", [action_new, action_old], content_type, using, self.skip),
                 triggers.Trigger(self.other_model, "after", "insert", [action_new], content_type, using, self.skip),
-- 
2.43.0


From ab23dbea676c64287715181b48c643453dcfa7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:06:21 +0000
Subject: [PATCH 36/39] fix: install triggers for counts and sums over
 many-to-many relations

The code relied on an attribute Django removed, only knew the reverse side
of a relation and did not use the summed column.
---
 denorm/denorms.py | 90 +++++++++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 35 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index e674cca..18ebc61 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -5,7 +5,7 @@ from django.contrib import contenttypes
 from django.db import connections, connection, transaction
 from django.apps import apps as gmodels
 from django.db.models import sql, ManyToManyField
-from django.db.models.aggregates import Sum
+from django.db.models.aggregates import Count, Sum
 from django.db.models.manager import Manager
 from django.db.models.query_utils import Q
 from django.db.models.sql.compiler import SQLCompiler
@@ -15,6 +15,8 @@ from django.db.models.sql.where import WhereNode
 import django
 from decimal import Decimal
 
+from .helpers import remote_field_model
+
 def many_to_many_pre_save(sender, instance, **kwargs):
     """
     Updates denormalised many-to-many fields for the model
@@ -330,24 +332,47 @@ class AggregateDenorm(Denorm):
         if not self.manager and hasattr(self.model, str(self.manager_name)):
             self.manager = getattr(self.model, self.manager_name)
 
+    @property
+    def related_model(self):
+        """
+        The model whose rows get aggregated.
+        """
+        field = self.manager.field
+        if isinstance(field, ManyToManyField) and not self.manager.reverse:
+            return remote_field_model(field)
+        return field.model
+
+    def get_m2m_columns(self):
+        """
+        Returns the columns of the intermediate table of a many to many
+        relation that refer to our model and to the related one.
+        """
+        field = self.manager.field
+        if self.manager.reverse:
+            return field.m2m_reverse_name(), field.m2m_column_name()
+        return field.m2m_column_name(), field.m2m_reverse_name()
+
     def get_related_where(self, fk_name, using, type):
         qn = self.get_quote_name(using)
 
         related_where = ["%s = %s.%s" % (qn(self.model._meta.pk.get_attname_column()[1]), type, qn(fk_name))]
-        related_query = Query(self.manager.related.model)
+        related_query = Query(self.related_model)
         for name, value in self.filter.items():
             related_query.add_q(Q(**{name: value}))
         for name, value in self.exclude.items():
             related_query.add_q(~Q(**{name: value}))
         related_query.add_extra(None, None,
-            ["%s = %s.%s" % (qn(self.model._meta.pk.get_attname_column()[1]), type, qn(self.manager.related.field.m2m_column_name()))],
+            ["%s.%s = %s.%s" % (
+                qn(self.related_model._meta.db_table),
+                qn(self.related_model._meta.pk.get_attname_column()[1]),
+                type, qn(self.get_m2m_columns()[1]),
+            )],
             None, None, None)
-        related_query.add_count_column()
+        related_query.add_annotation(Count('*'), alias='count', is_summary=True)
         related_query.clear_ordering(force_empty=True)
         related_query.default_cols = False
-        related_filter_where, related_where_params = related_query.get_compiler(using=using).as_sql()
-        if related_filter_where is not None:
-            related_where.append('(' + related_filter_where + ') > 0')
+        related_filter_where, related_where_params = related_query.get_compiler(using=using or 'default').as_sql()
+        related_where.append('(' + related_filter_where + ') > 0')
         return related_where, related_where_params
 
     def m2m_triggers(self, content_type, fk_name, related_field, using):
@@ -396,10 +421,11 @@ class AggregateDenorm(Denorm):
         except AttributeError:
             related_field = self.manager.related.field
         if isinstance(related_field, ManyToManyField):
-            fk_name = related_field.m2m_reverse_name()
-            inc_where = ["%(id)s IN (SELECT %(reverse_related)s FROM %(m2m_table)s WHERE %(related)s = NEW.%(id)s)" % {
-                'id': qn(self.model._meta.pk.get_attname_column()[0]),
-                'related': qn(related_field.m2m_column_name()),
+            fk_name, reverse_name = self.get_m2m_columns()
+            inc_where = ["%(id)s IN (SELECT %(reverse_related)s FROM %(m2m_table)s WHERE %(related)s = NEW.%(related_id)s)" % {
+                'id': qn(self.model._meta.pk.get_attname_column()[1]),
+                'related': qn(reverse_name),
+                'related_id': qn(self.related_model._meta.pk.get_attname_column()[1]),
                 'm2m_table': qn(related_field.m2m_db_table()),
                 'reverse_related': qn(fk_name),
             }]
@@ -415,10 +441,7 @@ class AggregateDenorm(Denorm):
 
         content_type = str(contenttypes.models.ContentType.objects.get_for_model(self.model).pk)
 
-        if hasattr(self.manager, "field"):  # Django>=1.9
-             related_model = self.manager.field.model
-        else:  # Django>=1.8
-            related_model = self.manager.related.related_model
+        related_model = self.related_model
         inc_query = TriggerFilterQuery(related_model, trigger_alias='NEW')
         inc_query.add_q(Q(**self.filter))
         inc_query.add_q(~Q(**self.exclude))
@@ -486,38 +509,35 @@ class SumDenorm(AggregateDenorm):
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.column), qn(self.manager.field.model._meta.get_field(self.sum_field).column))
+        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.column), qn(self.related_model._meta.get_field(self.sum_field).column))
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.column), qn(self.manager.field.model._meta.get_field(self.sum_field).column))
+        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.column), qn(self.related_model._meta.get_field(self.sum_field).column))
+
+    def get_related_value(self, type, using):
+        """
+        Returns SQL for the value of the object a row of the intermediate table refers to
+        """
+        qn = self.get_quote_name(using)
+
+        return "COALESCE((SELECT %s FROM %s WHERE %s = %s.%s), 0)" % (
+            qn(self.related_model._meta.get_field(self.sum_field).column),
+            qn(self.related_model._meta.db_table),
+            qn(self.related_model._meta.pk.get_attname_column()[1]),
+            type, qn(self.get_m2m_columns()[1]),
+        )
 
     def get_related_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        related_query = Query(self.manager.related.model)
-        related_query.add_extra(None, None,
-            ["%s = %s.%s" % (qn(self.model._meta.pk.get_attname_column()[1]), 'NEW', qn(self.manager.related.field.m2m_column_name()))],
-            None, None, None)
-        related_query.add_fields([self.fieldname])
-        related_query.clear_ordering(force_empty=True)
-        related_query.default_cols = False
-        related_filter_where, related_where_params = related_query.get_compiler(using=using).as_sql()
-        return "%s + (%s)" % (qn(self.fieldname), related_filter_where)
+        return "%s + %s" % (qn(self.column), self.get_related_value('NEW', using))
 
     def get_related_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        related_query = Query(self.manager.related.model)
-        related_query.add_extra(None, None,
-            ["%s = %s.%s" % (qn(self.model._meta.pk.get_attname_column()[1]), 'OLD', qn(self.manager.related.field.m2m_column_name()))],
-            None, None, None)
-        related_query.add_fields([self.fieldname])
-        related_query.clear_ordering(force_empty=True)
-        related_query.default_cols = False
-        related_filter_where, related_where_params = related_query.get_compiler(using=using).as_sql()
-        return "%s - (%s)" % (qn(self.fieldname), related_filter_where)
+        return "%s - %s" % (qn(self.column), self.get_related_value('OLD', using))
 
 
 class CountDenorm(AggregateDenorm):
-- 
2.43.0


From c021a554bafa683ee3fa20198c7ead151e33ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:39 +0000
Subject: [PATCH 37/39] fix: combine several exclusions of a many-to-many
 aggregate as exclude() does

---
 denorm/denorms.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 18ebc61..3933c82 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -357,10 +357,8 @@ class AggregateDenorm(Denorm):
 
         related_where = ["%s = %s.%s" % (qn(self.model._meta.pk.get_attname_column()[1]), type, qn(fk_name))]
         related_query = Query(self.related_model)
-        for name, value in self.filter.items():
-            related_query.add_q(Q(**{name: value}))
-        for name, value in self.exclude.items():
-            related_query.add_q(~Q(**{name: value}))
+        related_query.add_q(Q(**self.filter))
+        related_query.add_q(~Q(**self.exclude))
         related_query.add_extra(None, None,
             ["%s.%s = %s.%s" % (
                 qn(self.related_model._meta.db_table),
-- 
2.43.0


From 9fd8714664f22dbb5464c679b78c63ff7d4da064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:39 +0000
Subject: [PATCH 38/39] fix: honour skipped columns of generic relations

---
 denorm/db/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 39ca5b2..b3b3b89 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -95,7 +95,8 @@ class Trigger(object):
         elif isinstance(subject, GenericRelation):
             self.model = None
             self.db_table = remote_field_model(subject)._meta.db_table
-            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v]
+            skip = tuple(skip or ()) + tuple(getattr(remote_field_model(subject), 'denorm_always_skip', ()))
+            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v and k.attname not in skip]
             self.content_type_field = remote_field_model(subject)._meta.get_field(subject.content_type_field_name).column
 
         elif isinstance(subject, models.ForeignKey):
-- 
2.43.0


From 4192cda645f0f37d720baa9dbf66cbb27fa2be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:39 +0000
Subject: [PATCH 39/39] fix: track changes of the objects instances are
 attached to by a generic relation

---
 denorm/db/mysql/triggers.py      |  2 +-
 denorm/db/postgresql/triggers.py |  2 +-
 denorm/db/sqlite3/triggers.py    |  2 +-
 denorm/dependencies.py           | 51 ++++++++++++++++++++++++++++++++
 4 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 4260187..9b2b6e9 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -14,7 +14,7 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
     def sql(self):
         columns = self.columns
         table = self.table
-        where = ", ".join(["%s = %s" % (k, v) for k, v in self.kwargs.items()])
+        where = " AND ".join(["%s = %s" % (k, v) for k, v in self.kwargs.items()])
         return 'SELECT DISTINCT %(columns)s FROM %(table)s WHERE %(where)s' % locals(), tuple()
 
 
diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 0b28625..777c792 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -13,7 +13,7 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
     def sql(self):
         columns = self.columns
         table = self.table
-        where = ", ".join(["%s = %s" % (k, v) for k, v in self.kwargs.items()])
+        where = " AND ".join(["%s = %s" % (k, v) for k, v in self.kwargs.items()])
         return 'SELECT DISTINCT %(columns)s FROM %(table)s WHERE %(where)s' % locals(), tuple()
 
 
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 4b70bc3..9779753 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -17,7 +17,7 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
     def sql(self):
         columns = self.columns
         table = self.table
-        where = ", ".join(["%s = %s" % (k, v) for k, v in self.kwargs.items()])
+        where = " AND ".join(["%s = %s" % (k, v) for k, v in self.kwargs.items()])
         return 'SELECT DISTINCT %(columns)s FROM %(table)s WHERE %(where)s' % locals(), tuple()
 
 
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 1156a3c..8419e59 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -100,6 +100,24 @@ class DependOnRelated(DenormDependency):
             key = model._meta.pk
         return key.get_attname_column()[1]
 
+    def get_attached_where(self, row, using):
+        """
+        Returns the columns, and the values they have for instances of ``this_model``
+        that a GenericRelation attaches to ``row`` of ``other_model``.
+        """
+        cconnection = connections[using] if using else connection
+        meta = self.this_model._meta
+        object_id = meta.get_field(self.field.object_id_field_name)
+        key = "%s.%s" % (row, self.get_quote_name(using)(self.other_model._meta.pk.get_attname_column()[1]))
+        if cconnection.vendor == 'postgresql':
+            # it does not compare e.g. numbers to texts
+            key = "CAST(%s AS %s)" % (key, object_id.db_type(connection=cconnection))
+        return {
+            meta.get_field(self.field.content_type_field_name).column:
+                str(contenttypes.models.ContentType.objects.get_for_model(self.other_model).pk),
+            object_id.column: key,
+        }
+
 
 class CacheKeyDependOnRelated(DependOnRelated):
 
@@ -171,6 +189,21 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 triggers.Trigger(self.other_model, "after", "delete", [action_old], content_type, using, self.skip),
             ]
 
+        if self.type == "backward_m2m" and not isinstance(self.field, models.ManyToManyField):
+            # With generic relations pointing to ``this_model`` many instances
+            # of it may be attached to one instance of ``other_model``.
+            action_new, action_old = [triggers.TriggerActionUpdate(
+                model=self.this_model,
+                columns=(self.this_model._meta.get_field(self.fieldname).column,),
+                values=(triggers.RandomBigInt(),),
+                where=" AND ".join("%s = %s" % (qn(k), v) for k, v in self.get_attached_where(row, using).items()),
+            ) for row in ("NEW", "OLD")]
+            return [
+                triggers.Trigger(self.other_model, "after", "update", [action_new], content_type, using, self.skip),
+                triggers.Trigger(self.other_model, "after", "insert", [action_new], content_type, using, self.skip),
+                triggers.Trigger(self.other_model, "after", "delete", [action_old], content_type, using, self.skip),
+            ]
+
         if "m2m" in self.type:
             # The two directions of M2M relations only differ in the column
             # names used in the intermediate table.
@@ -364,6 +397,24 @@ class CallbackDependOnRelated(DependOnRelated):
                 triggers.Trigger(self.other_model, "after", "delete", [action_old], content_type, using, self.skip),
             ]
 
+        if self.type == "backward_m2m" and not isinstance(self.field, models.ManyToManyField):
+            # With generic relations pointing to ``this_model`` many instances
+            # of it may be attached to one instance of ``other_model``.
+            action_new, action_old = [triggers.TriggerActionInsert(
+                model=denorm.models.DirtyInstance,
+                columns=("content_type_id", "object_id"),
+                values=triggers.TriggerNestedSelect(
+                    self.this_model._meta.db_table,
+                    (content_type, self.this_model._meta.pk.get_attname_column()[1]),
+                    **self.get_attached_where(row, using)
+                )
+            ) for row in ("NEW", "OLD")]
+            return [
+                triggers.Trigger(self.other_model, "after", "update", [action_new], content_type, using, self.skip),
+                triggers.Trigger(self.other_model, "after", "insert", [action_new], content_type, using, self.skip),
+                triggers.Trigger(self.other_model, "after", "delete", [action_old], content_type, using, self.skip),
+            ]
+
         if "m2m" in self.type:
             # The two directions of M2M relations only differ in the column
             # names used in the intermediate table.
-- 
2.43.0

