From 5227f9c5db4d1019642a9735f3ae1be5044813dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 01/68] fix: round numeric cutoff times down to their
 approximation bin

---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 0fc4d59..0d3d4ef 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -23,7 +23,7 @@ logger = logging.getLogger('featuretools.computational_backend')
 def bin_cutoff_times(cutoff_time, bin_size):
     binned_cutoff_time = cutoff_time.copy()
     if type(bin_size) == int:
-        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x / bin_size * bin_size)
+        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x // bin_size * bin_size)
     else:
         bin_size = _check_timedelta(bin_size)
         binned_cutoff_time['time'] = datetime_round(binned_cutoff_time['time'], bin_size)
-- 
2.43.0


From fef7328686a56ab4ea01d3cf6026c63c3d9020a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 02/68] fix: leave the caller's dask_kwargs dictionary
 unchanged

---
 featuretools/computational_backends/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 0d3d4ef..10ea65c 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -135,6 +135,7 @@ def n_jobs_to_workers(n_jobs):
 def create_client_and_cluster(n_jobs, dask_kwargs, entityset_size):
     Client, LocalCluster = get_client_cluster()
 
+    dask_kwargs = dict(dask_kwargs)
     cluster = None
     if 'cluster' in dask_kwargs:
         cluster = dask_kwargs['cluster']
-- 
2.43.0


From f7c5e4f9d7d659ebd5d5c7da17f54a4a69a44ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 03/68] fix: do not append the groupby to the caller's list of
 base features

---
 featuretools/feature_base/feature_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 4899143..8170963 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -689,7 +689,7 @@ class GroupByTransformFeature(TransformFeature):
         self.groupby = groupby
 
         if hasattr(base_features, '__iter__'):
-            base_features.append(groupby)
+            base_features = list(base_features) + [groupby]
         else:
             base_features = [base_features, groupby]
 
-- 
2.43.0


From b383ee6f08974c75f1583748bd4ae3b8022dd2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 04/68] fix: normalize_entity no longer appends to the caller's
 copy_variables

---
 featuretools/entityset/entityset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 18ad9a4..dd74f34 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -639,7 +639,7 @@ class EntitySet(object):
                 "Base entity doesn't have time_index defined"
 
             if base_time_index not in [v for v in additional_variables]:
-                copy_variables.append(base_time_index)
+                copy_variables = copy_variables + [base_time_index]
 
             transfer_types[new_entity_time_index] = type(base_entity[base_entity.time_index])
         else:
-- 
2.43.0


From fbd6a486705d15073a2204dc29bbac70eb85588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 05/68] fix: hide late secondary-time values in a copy of the
 entity's data

---
 featuretools/entityset/entityset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index dd74f34..0e70d0f 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -1012,6 +1012,7 @@ class EntitySet(object):
             # should we use ignore time last here?
             df_empty = df.empty if isinstance(df, pd.DataFrame) else False
             if time_last is not None and not df_empty:
+                df = df.copy()
                 mask = df[secondary_time_index] >= time_last
                 if isinstance(df, dd.DataFrame):
                     for col in columns:
-- 
2.43.0


From 8ec3f2c2d9b7f059a5565aaa2b399bdcd2ade63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 06/68] fix: do not append to the caller's secondary_time_index
 lists

---
 featuretools/entityset/entity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 1683379..98d4c84 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -422,6 +422,8 @@ class Entity(object):
         self.index = variable_id
 
     def set_secondary_time_index(self, secondary_time_index):
+        secondary_time_index = {time_index: list(columns)
+                                for time_index, columns in secondary_time_index.items()}
         for time_index, columns in secondary_time_index.items():
             if is_instance(self.df, (dd, ks), 'DataFrame') or self.df.empty:
                 time_to_check = vtypes.DEFAULT_DTYPE_VALUES[self[time_index]._default_pandas_dtype]
-- 
2.43.0


From 8c946c2d8a5597d3cc941ac1764d4e7cc576099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 07/68] fix: do not add or convert columns in the dataframe
 handed to an entity

---
 featuretools/entityset/entity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 98d4c84..16b33c4 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -61,6 +61,8 @@ class Entity(object):
                 Otherwise, assume index exists in dataframe.
         """
         _validate_entity_params(id, df, time_index)
+        # index creation and type conversion replace columns: leave the caller's dataframe alone
+        df = df.copy(deep=False) if isinstance(df, pd.DataFrame) else df.copy()
         created_index, index, df = _create_index(index, make_index, df)
 
         self.id = id
-- 
2.43.0


From 7284fbdedfaacb216ec6e86fb46f9f284d6235ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:14 +0000
Subject: [PATCH 08/68] fix: let a secondary time index settle an undecided
 time type

---
 featuretools/entityset/entity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 16b33c4..1f4a68a 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -435,7 +435,9 @@ class Entity(object):
             if time_type is None:
                 raise TypeError("%s time index not recognized as numeric or"
                                 " datetime" % (self.id))
-            if self.entityset.time_type != time_type:
+            if self.entityset.time_type is None:
+                self.entityset.time_type = time_type
+            elif self.entityset.time_type != time_type:
                 raise TypeError("%s time index is %s type which differs from"
                                 " other entityset time indexes" %
                                 (self.id, time_type))
-- 
2.43.0


From 9cca310f229921ee077b30c910a12c6521ab7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 09/68] fix: approximate_features no longer adds a column to
 its cutoff_time argument

---
 featuretools/computational_backends/calculate_feature_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index d690bb2..af5a51d 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -527,6 +527,7 @@ def approximate_features(feature_set, cutoff_time, window, entityset,
     approx_fms_trie = Trie(path_constructor=RelationshipPath)
 
     target_time_colname = 'target_time'
+    cutoff_time = cutoff_time.copy()
     cutoff_time[target_time_colname] = cutoff_time['time']
     approx_cutoffs = bin_cutoff_times(cutoff_time, window)
     cutoff_df_time_var = 'time'
-- 
2.43.0


From 9e67569aa41d54ba44a4cf491146f22417606644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:04 +0000
Subject: [PATCH 10/68] fix: reset the metadata cache in every entity and
 variable mutator

---
 featuretools/entityset/entity.py        | 7 +++++++
 featuretools/variable_types/variable.py | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 1f4a68a..a0fff93 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -140,6 +140,7 @@ class Entity(object):
     @df.setter
     def df(self, _df):
         self.data["df"] = _df
+        self.entityset.reset_data_description()
 
     @property
     def last_time_index(self):
@@ -151,6 +152,7 @@ class Entity(object):
     @last_time_index.setter
     def last_time_index(self, lti):
         self.data["last_time_index"] = lti
+        self.entityset.reset_data_description()
 
     def __hash__(self):
         return id(self.id)
@@ -211,6 +213,7 @@ class Entity(object):
         variable = self._get_variable(variable_id)
         new_variable = new_type.create_from(variable)
         self.variables[self.variables.index(variable)] = new_variable
+        self.entityset.reset_data_description()
 
     def _create_variables(self, variable_types, index, time_index, secondary_time_index):
         """Extracts the variables from a dataframe
@@ -370,6 +373,7 @@ class Entity(object):
         for v_id in variable_ids:
             v = self._get_variable(v_id)
             self.variables.remove(v)
+        self.entityset.reset_data_description()
 
     def set_time_index(self, variable_id, already_sorted=False):
         # check time type
@@ -406,6 +410,7 @@ class Entity(object):
         self.convert_variable_type(variable_id, t, convert_data=False)
 
         self.time_index = variable_id
+        self.entityset.reset_data_description()
 
     def set_index(self, variable_id, unique=True):
         """
@@ -422,6 +427,7 @@ class Entity(object):
 
         self.convert_variable_type(variable_id, vtypes.Index, convert_data=False)
         self.index = variable_id
+        self.entityset.reset_data_description()
 
     def set_secondary_time_index(self, secondary_time_index):
         secondary_time_index = {time_index: list(columns)
@@ -445,6 +451,7 @@ class Entity(object):
                 columns.append(time_index)
 
         self.secondary_time_index = secondary_time_index
+        self.entityset.reset_data_description()
 
 
 def _create_index(index, make_index, df):
diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 6668ae1..abb89e5 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -97,6 +97,7 @@ class Variable(object):
     @name.setter
     def name(self, name):
         self._name = name
+        self.entity.entityset.reset_data_description()
 
     @property
     def description(self):
@@ -116,6 +117,7 @@ class Variable(object):
     def interesting_values(self, interesting_values):
         self._interesting_values = pd.Series(interesting_values,
                                              dtype=self._interesting_values.dtype)
+        self.entity.entityset.reset_data_description()
 
     @property
     def series(self):
@@ -157,6 +159,7 @@ class Discrete(Variable):
         self._interesting_values = pd.Series([v for v in values if not
                                               (v in seen or seen_add(v))],
                                              dtype=self._interesting_values.dtype)
+        self.entity.entityset.reset_data_description()
 
 
 class Boolean(Variable):
-- 
2.43.0


From 3be15e06b26c5c44978926e09c9db9211d157c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 11/68] fix: loading an entityset description leaves the
 variable types in it

---
 featuretools/entityset/deserialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 901c739..9c55bb9 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -26,11 +26,11 @@ def description_to_variable(description, entity=None):
         variable (Variable) : Returns :class:`.Variable`.
     '''
     is_type_string = isinstance(description['type'], str)
-    variable = description['type'] if is_type_string else description['type'].pop('value')
+    variable = description['type'] if is_type_string else description['type']['value']
     if entity is not None:
         variable_types = find_variable_types()
         variable_class = variable_types.get(variable, variable_types.get('unknown'))
-        kwargs = {} if is_type_string else description['type']
+        kwargs = {} if is_type_string else {key: value for key, value in description['type'].items() if key != 'value'}
         variable = variable_class(description['id'], entity, **kwargs)
         interesting_values = pd.read_json(description['properties']['interesting_values'], typ='series')
         variable.interesting_values = interesting_values
-- 
2.43.0


From c4129e9b56c8dbdaf717ba5faed71ce5b376246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 12/68] fix: read csv files with the separator they were
 written with

---
 featuretools/entityset/deserialize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 9c55bb9..a21543a 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -154,6 +154,7 @@ def read_entity_data(description, path):
             engine=kwargs['engine'],
             compression=kwargs['compression'],
             encoding=kwargs['encoding'],
+            sep=kwargs.get('sep', ','),
             **read_kwargs
         )
     elif load_format == 'parquet':
-- 
2.43.0


From 7543f0e8b05c3b10e179bddbb84d585ebbcb5193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 13/68] fix: restore variable names and type arguments of a
 saved entityset

---
 featuretools/entityset/deserialize.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index a21543a..c994b33 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -31,7 +31,7 @@ def description_to_variable(description, entity=None):
         variable_types = find_variable_types()
         variable_class = variable_types.get(variable, variable_types.get('unknown'))
         kwargs = {} if is_type_string else {key: value for key, value in description['type'].items() if key != 'value'}
-        variable = variable_class(description['id'], entity, **kwargs)
+        variable = variable_class(description['id'], entity, name=description['properties'].get('name'), **kwargs)
         interesting_values = pd.read_json(description['properties']['interesting_values'], typ='series')
         variable.interesting_values = interesting_values
         variable_description = description['properties'].get('description')
@@ -63,6 +63,12 @@ def description_to_entity(description, entityset, path=None):
         secondary_time_index=description['properties'].get('secondary_time_index'),
         variable_types={variable: variable_types[variable][0] for variable in variable_types})
     for variable in es[description['id']].variables:
+        variable.name = variable_types[variable.id][1]['properties'].get('name')
+        type_description = variable_types[variable.id][1]['type']
+        if not isinstance(type_description, str):
+            for argument, value in type_description.items():
+                if argument != 'value':
+                    setattr(variable, argument, value)
         interesting_values = variable_types[variable.id][1]['properties']['interesting_values']
         interesting_values = pd.read_json(interesting_values, typ="series")
         variable.interesting_values = interesting_values
-- 
2.43.0


From 2ad5692130b0f945e14ffe07c35ff142df2f1bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 14/68] fix: keep the categories and range given to a variable

---
 featuretools/variable_types/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index abb89e5..3f7073b 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -200,7 +200,7 @@ class Categorical(Discrete):
     """
 
     def __init__(self, id, entity, name=None, categories=None):
-        self.categories = None or []
+        self.categories = categories or []
         super(Categorical, self).__init__(id, entity, name=name)
 
     def to_data_description(self):
@@ -242,7 +242,7 @@ class Numeric(Variable):
                  range=None,
                  start_inclusive=True,
                  end_inclusive=False):
-        self.range = None or []
+        self.range = range or []
         self.start_inclusive = start_inclusive
         self.end_inclusive = end_inclusive
         super(Numeric, self).__init__(id, entity, name=name)
-- 
2.43.0


From 93461236a23b099d669755aac9b94ddf95ac617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 15/68] fix: loading options are not recorded in the
 description they load

---
 featuretools/entityset/deserialize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index c994b33..2b5979a 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -97,7 +97,9 @@ def description_to_entityset(description, **kwargs):
 
     last_time_index = []
     for entity in description['entities'].values():
-        entity['loading_info']['params'].update(kwargs)
+        loading_info = dict(entity['loading_info'])
+        loading_info['params'] = dict(loading_info['params'], **kwargs)
+        entity = dict(entity, loading_info=loading_info)
         # If path is None, an empty dataframe will be created for entity.
         description_to_entity(entity, entityset, path=path)
         if entity['properties']['last_time_index']:
-- 
2.43.0


From 70698b4b619aad65208d5c260241d6b5f7d19bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 16/68] fix: reading Koalas data does not rewrite the
 description it reads

---
 featuretools/entityset/deserialize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 2b5979a..b1b5278 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -153,7 +153,7 @@ def read_entity_data(description, path):
                        'Consider doing a pip install with featuretools[koalas] to install Koalas with pip'
         lib = import_or_raise('databricks.koalas', import_error)
         read_kwargs['multiline'] = True
-        kwargs['compression'] = str(kwargs['compression'])
+        kwargs = dict(kwargs, compression=str(kwargs['compression']))
     else:
         lib = pd
     if load_format == 'csv':
@@ -173,7 +173,8 @@ def read_entity_data(description, path):
         error = 'must be one of the following formats: {}'
         raise ValueError(error.format(', '.join(FORMATS)))
     if entity_type == 'koalas':
-        for col, dtype in dtypes.items():
+        dtypes = dict(dtypes)
+        for col, dtype in list(dtypes.items()):
             if dtype == 'object':
                 dtypes[col] = 'str'
             if dtype == 'datetime64[ns]':
-- 
2.43.0


From c43bdeb09d5082e634ef453b22df813f05c100b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 17/68] fix: save a group-by feature's input that is also its
 group-by feature

---
 featuretools/feature_base/feature_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 8170963..21ca307 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -726,8 +726,7 @@ class GroupByTransformFeature(TransformFeature):
 
     def get_arguments(self):
         # Do not include groupby in base_features.
-        feature_names = [feat.unique_name() for feat in self.base_features
-                         if feat.unique_name() != self.groupby.unique_name()]
+        feature_names = [feat.unique_name() for feat in self.base_features[:-1]]
         return {
             'name': self._name,
             'base_features': feature_names,
-- 
2.43.0


From c9c807f08e9813fc7eb504588824f7326c454425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:09 +0000
Subject: [PATCH 18/68] fix: a copy of a feature keeps its custom name

---
 featuretools/feature_base/feature_base.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 21ca307..0cb6623 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -361,7 +361,7 @@ class IdentityFeature(FeatureBase):
 
     def copy(self):
         """Return copy of feature"""
-        return IdentityFeature(self.variable)
+        return IdentityFeature(self.variable, name=self._name)
 
     def generate_name(self):
         return self.variable.name
@@ -452,7 +452,8 @@ class DirectFeature(FeatureBase):
         """Return copy of feature"""
         _is_forward, relationship = self.relationship_path[0]
         return DirectFeature(self.base_features[0], self.entity,
-                             relationship=relationship)
+                             relationship=relationship,
+                             name=self._name)
 
     @property
     def variable_type(self):
@@ -590,7 +591,8 @@ class AggregationFeature(FeatureBase):
                                   relationship_path=self.relationship_path,
                                   primitive=self.primitive,
                                   use_previous=self.use_previous,
-                                  where=self.where)
+                                  where=self.where,
+                                  name=self._name)
 
     def _where_str(self):
         if self.where is not None:
@@ -665,7 +667,7 @@ class TransformFeature(FeatureBase):
         return cls(base_features=base_features, primitive=primitive, name=arguments['name'])
 
     def copy(self):
-        return TransformFeature(self.base_features, self.primitive)
+        return TransformFeature(self.base_features, self.primitive, name=self._name)
 
     def generate_name(self):
         return self.primitive.generate_name(base_feature_names=[bf.get_name() for bf in self.base_features])
@@ -709,7 +711,8 @@ class GroupByTransformFeature(TransformFeature):
         # so here we separate them again
         return GroupByTransformFeature(self.base_features[:-1],
                                        self.primitive,
-                                       self.groupby)
+                                       self.groupby,
+                                       name=self._name)
 
     def generate_name(self):
         # exclude the groupby feature from base_names since it has a special
@@ -816,7 +819,7 @@ class FeatureOutputSlice(FeatureBase):
         return cls(base_feature=base_feature, n=n, name=name)
 
     def copy(self):
-        return FeatureOutputSlice(self.base_feature, self.n)
+        return FeatureOutputSlice(self.base_feature, self.n, name=self._name)
 
 
 def _check_feature(feature):
-- 
2.43.0


From c30e566d796fe78ed44af19cf30a5eecd024091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:42 +0000
Subject: [PATCH 19/68] fix: record the keyword arguments of primitives made
 from functions

---
 .../primitives/base/aggregation_primitive_base.py   |  6 +++++-
 .../primitives/base/transform_primitive_base.py     |  6 +++++-
 featuretools/primitives/base/utils.py               | 13 +++++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/featuretools/primitives/base/aggregation_primitive_base.py b/featuretools/primitives/base/aggregation_primitive_base.py
index 07e76f7..ee9d30d 100755
--- a/featuretools/primitives/base/aggregation_primitive_base.py
+++ b/featuretools/primitives/base/aggregation_primitive_base.py
@@ -3,7 +3,10 @@ import functools
 import inspect
 
 from featuretools.primitives.base.primitive_base import PrimitiveBase
-from featuretools.primitives.base.utils import inspect_function_args
+from featuretools.primitives.base.utils import (
+    changed_kwargs,
+    inspect_function_args
+)
 
 
 class AggregationPrimitive(PrimitiveBase):
@@ -142,6 +145,7 @@ def make_agg_primitive(function, input_types, return_type, name=None,
 
         new_class.__init__ = new_class_init
         new_class.get_function = lambda self: self.partial
+        new_class.get_arguments = lambda self: changed_kwargs(self.kwargs, self.default_kwargs)
     else:
         # creates a lambda function that returns function every time
         new_class.get_function = lambda self, f=function: f
diff --git a/featuretools/primitives/base/transform_primitive_base.py b/featuretools/primitives/base/transform_primitive_base.py
index 4472581..f010fa0 100755
--- a/featuretools/primitives/base/transform_primitive_base.py
+++ b/featuretools/primitives/base/transform_primitive_base.py
@@ -3,7 +3,10 @@ import functools
 import inspect
 
 from featuretools.primitives.base.primitive_base import PrimitiveBase
-from featuretools.primitives.base.utils import inspect_function_args
+from featuretools.primitives.base.utils import (
+    changed_kwargs,
+    inspect_function_args
+)
 
 
 class TransformPrimitive(PrimitiveBase):
@@ -114,6 +117,7 @@ def make_trans_primitive(function, input_types, return_type, name=None,
 
         new_class.__init__ = new_class_init
         new_class.get_function = lambda self: self.partial
+        new_class.get_arguments = lambda self: changed_kwargs(self.kwargs, self.default_kwargs)
     else:
         # creates a lambda function that returns function every time
         new_class.get_function = lambda self, f=function: f
diff --git a/featuretools/primitives/base/utils.py b/featuretools/primitives/base/utils.py
index 932743b..624ce1a 100644
--- a/featuretools/primitives/base/utils.py
+++ b/featuretools/primitives/base/utils.py
@@ -15,3 +15,16 @@ def inspect_function_args(new_class, function, uses_calc_time):
         if arg.default is not arg.empty:
             kwargs[arg.name] = arg.default
     return new_class, kwargs
+
+
+def changed_kwargs(kwargs, default_kwargs):
+    """Returns the (name, value) pairs of kwargs that differ from their default"""
+    values = []
+    for name, value in kwargs.items():
+        if name in default_kwargs:
+            default = default_kwargs[name]
+            # check if kwarg and default are the same type
+            if isinstance(value, type(default)) and default == value:
+                continue
+        values.append((name, value))
+    return values
-- 
2.43.0


From 249b2a07085f8daceca9a2c5de841adaa06dcc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:45 +0000
Subject: [PATCH 20/68] fix: name a time span by its own unit when its value is
 one

---
 featuretools/entityset/timedelta.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/timedelta.py b/featuretools/entityset/timedelta.py
index 5b6f4da..c1a063f 100644
--- a/featuretools/entityset/timedelta.py
+++ b/featuretools/entityset/timedelta.py
@@ -142,9 +142,10 @@ class Timedelta(object):
             return "{} {}".format(self.times[all_units[0]], self._readable_units[all_units[0]])
         final_str = ""
         for unit, value in self.times.items():
+            readable_unit = self._readable_units[unit]
             if value == 1:
-                unit = self.make_singular(unit)
-            final_str += "{} {} ".format(value, self._readable_units[unit])
+                readable_unit = self.make_singular(readable_unit)
+            final_str += "{} {} ".format(value, readable_unit)
         return final_str[:-1]
 
     def get_arguments(self):
-- 
2.43.0


From db63786e9c62ce41fc25d87d8e9896dd1d18792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:24 +0000
Subject: [PATCH 21/68] fix: compute time_since_previous over the whole entity

---
 featuretools/primitives/standard/transform_primitive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/primitives/standard/transform_primitive.py b/featuretools/primitives/standard/transform_primitive.py
index 5db373e..aca2db1 100644
--- a/featuretools/primitives/standard/transform_primitive.py
+++ b/featuretools/primitives/standard/transform_primitive.py
@@ -86,6 +86,7 @@ class TimeSincePrevious(TransformPrimitive):
     name = "time_since_previous"
     input_types = [DatetimeTimeIndex]
     return_type = Numeric
+    uses_full_entity = True
     description_template = "the time since the previous instance of {}"
 
     def __init__(self, unit="seconds"):
-- 
2.43.0


From f4c02082daf85358eda3931342cfafa9a07b5a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 22/68] fix: convert columns declared as a numeric time index

---
 featuretools/utils/entity_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index 1ef1f6a..f1773c5 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -147,7 +147,7 @@ def convert_variable_data(df, column_id, new_type, **kwargs):
     empty = df[column_id].empty if isinstance(df, pd.DataFrame) else False
     if empty:
         return df
-    if new_type == vtypes.Numeric:
+    if issubclass(new_type, vtypes.Numeric):
         if isinstance(df, dd.DataFrame):
             df[column_id] = dd.to_numeric(df[column_id], errors='coerce')
         elif is_instance(df, ks, 'DataFrame'):
-- 
2.43.0


From 631bb87703b43cd50e1d7e7cf90fa09f91f8689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 23/68] fix: convert columns to boolean with numpy versions
 that have no np.bool

---
 featuretools/utils/entity_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index f1773c5..f7600be 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -180,7 +180,7 @@ def convert_variable_data(df, column_id, new_type, **kwargs):
                     True: True,
                     False: False}
         # TODO: what happens to nans?
-        df[column_id] = df[column_id].map(map_dict).astype(np.bool)
+        df[column_id] = df[column_id].map(map_dict).astype(bool)
     elif not issubclass(new_type, vtypes.Discrete):
         raise Exception("Cannot convert column %s to %s" %
                         (column_id, new_type))
-- 
2.43.0


From af9ea4bc0c46b11e3ef71a8b3bd52625daae3939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 24/68] fix: order the inputs of a commutative primitive by a
 key without ties

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index ccf8451..ab0fd0e 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -915,7 +915,7 @@ def match(input_types, features, replace=False, commutative=False, require_direc
             matching_inputs.add(new_match)
 
     if commutative:
-        matching_inputs = {tuple(sorted(s, key=lambda x: x.get_name().lower())) for s in matching_inputs}
+        matching_inputs = {tuple(sorted(s, key=lambda x: (x.get_name().lower(), x.unique_name()))) for s in matching_inputs}
 
     return matching_inputs
 
-- 
2.43.0


From f2586d03a2a5e205c481f5ebeb05af00fd017e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 25/68] fix: build where features in an order that does not
 depend on hash seeds

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index ab0fd0e..a3ec380 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -706,7 +706,7 @@ class DeepFeatureSynthesis(object):
                                                         feature_filter=feature_filter)
             matching_inputs = filter_matches_by_options(matching_inputs,
                                                         current_options)
-            wheres = list(self.where_clauses[child_entity.id])
+            wheres = sorted(self.where_clauses[child_entity.id], key=lambda where: where.unique_name())
 
             for matching_input in matching_inputs:
                 if not check_stacking(agg_prim, matching_input):
-- 
2.43.0


From f26cb413cde752b410738c0b5e7aeeb5dadd2b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 26/68] fix: list primitives in a fixed order

---
 featuretools/primitives/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/primitives/utils.py b/featuretools/primitives/utils.py
index 468a8a7..02c226a 100644
--- a/featuretools/primitives/utils.py
+++ b/featuretools/primitives/utils.py
@@ -23,7 +23,7 @@ def get_aggregation_primitives():
                           featuretools.primitives.AggregationPrimitive):
                 if attribute.name:
                     aggregation_primitives.add(attribute)
-    return {prim.name.lower(): prim for prim in aggregation_primitives}
+    return {prim.name.lower(): prim for prim in sorted(aggregation_primitives, key=lambda prim: prim.name)}
 
 
 # returns all transform primitives, regardless of compatibility
@@ -36,7 +36,7 @@ def get_transform_primitives():
                           featuretools.primitives.TransformPrimitive):
                 if attribute.name:
                     transform_primitives.add(attribute)
-    return {prim.name.lower(): prim for prim in transform_primitives}
+    return {prim.name.lower(): prim for prim in sorted(transform_primitives, key=lambda prim: prim.name)}
 
 
 def list_primitives():
-- 
2.43.0


From 206f48416555d199206a3be8c0ed415e79d7d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 27/68] fix: draw the columns of a feature graph in a fixed
 order

---
 featuretools/feature_base/feature_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/feature_base/feature_visualizer.py b/featuretools/feature_base/feature_visualizer.py
index bac4ea5..769f99d 100644
--- a/featuretools/feature_base/feature_visualizer.py
+++ b/featuretools/feature_base/feature_visualizer.py
@@ -228,7 +228,7 @@ def get_entity_table(entity_name, entity_dict):
     else:
         rows = []
 
-    for var in list(variables) + list(feats) + list(targets):
+    for var in sorted(variables) + sorted(feats) + sorted(targets):
         template = COL_TEMPLATE
         if var in targets:
             template = TARGET_TEMPLATE
-- 
2.43.0


From db39c9e308cad9926fe25578bac27a6177751c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 28/68] fix: infer variable types from a seeded sample

---
 featuretools/utils/entity_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index f7600be..b77302e 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -60,7 +60,7 @@ def infer_variable_types(df, link_vars, variable_types, time_index, secondary_ti
                 inferred_type = vtypes.Categorical
 
                 # heuristics to predict this some other than categorical
-                sample = df[variable].sample(min(10000, len(df[variable])))
+                sample = df[variable].sample(min(10000, len(df[variable])), random_state=0)
 
                 # catch cases where object dtype cannot be interpreted as a string
                 try:
@@ -84,7 +84,7 @@ def infer_variable_types(df, link_vars, variable_types, time_index, secondary_ti
 
         elif len(df[variable]):
             n = min(10000, len(df[variable]))
-            sample = df[variable].sample(n=n)
+            sample = df[variable].sample(n=n, random_state=0)
             n_unique = len(sample.unique())
             percent_unique = n_unique / sample.size
 
-- 
2.43.0


From 38c948767b05255a2089d337b197e3665236f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 29/68] fix: where conditions respect the options of the
 aggregation primitive

---
 featuretools/synthesis/deep_feature_synthesis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index a3ec380..3c8975b 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -22,7 +22,8 @@ from featuretools.primitives.options_utils import (
     filter_groupby_matches_by_options,
     filter_matches_by_options,
     generate_all_primitive_options,
-    ignore_entity_for_primitive
+    ignore_entity_for_primitive,
+    variable_filter
 )
 from featuretools.utils.gen_utils import Library, import_or_none, is_instance
 from featuretools.variable_types import Boolean, Discrete, Id, Numeric
@@ -706,7 +707,8 @@ class DeepFeatureSynthesis(object):
                                                         feature_filter=feature_filter)
             matching_inputs = filter_matches_by_options(matching_inputs,
                                                         current_options)
-            wheres = sorted(self.where_clauses[child_entity.id], key=lambda where: where.unique_name())
+            wheres = [where for where in sorted(self.where_clauses[child_entity.id], key=lambda where: where.unique_name())
+                      if all(variable_filter(where, option) for option in current_options)]
 
             for matching_input in matching_inputs:
                 if not check_stacking(agg_prim, matching_input):
-- 
2.43.0


From 76b108d629822252d77a9d3de1277782783b271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 30/68] fix: ignored and included variables are matched by
 their ids, not display names

---
 featuretools/primitives/options_utils.py         | 4 ++--
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/featuretools/primitives/options_utils.py b/featuretools/primitives/options_utils.py
index 7c465f8..7f22b1b 100644
--- a/featuretools/primitives/options_utils.py
+++ b/featuretools/primitives/options_utils.py
@@ -171,12 +171,12 @@ def variable_filter(f, options, groupby=False):
     for base_f in dependencies:
         if isinstance(base_f, IdentityFeature):
             if include_vars in options and base_f.entity.id in options[include_vars]:
-                if base_f.get_name() in options[include_vars][base_f.entity.id]:
+                if base_f.variable.id in options[include_vars][base_f.entity.id]:
                     continue  # this is a valid feature, go to next
                 else:
                     return False  # this is not an included feature
             if ignore_vars in options and base_f.entity.id in options[ignore_vars]:
-                if base_f.get_name() in options[ignore_vars][base_f.entity.id]:
+                if base_f.variable.id in options[ignore_vars][base_f.entity.id]:
                     return False  # ignore this feature
         if include_entities in options and \
                 base_f.entity.id not in options[include_entities]:
diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index 3c8975b..47b046b 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -515,7 +515,7 @@ class DeepFeatureSynthesis(object):
         """
         variables = entity.variables
         for v in variables:
-            if v.name in self.ignore_variables[entity.id]:
+            if v.id in self.ignore_variables[entity.id]:
                 continue
             new_f = IdentityFeature(variable=v)
             self._handle_new_feature(all_features=all_features,
-- 
2.43.0


From 421f8128b69433a919bc0d3b0c699ccb0dc8eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 31/68] fix: base_of_exclude is read from the primitive of the
 input feature

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index 47b046b..e02154a 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -854,7 +854,7 @@ def check_stacking(primitive, inputs):
 
     for f in inputs:
         if f.primitive.base_of_exclude is not None:
-            if primitive in f.base_of_exclude:
+            if isinstance(primitive, tuple(f.primitive.base_of_exclude)):
                 return False
 
     for f in inputs:
-- 
2.43.0


From 53cdce773d0724fc6e7ebf762e3192b471363996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 32/68] fix: remove_low_information_features keeps features
 with several output columns in step with the matrix

---
 featuretools/selection/selection.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index 0f287e7..6f4265b 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -15,12 +15,7 @@ def remove_low_information_features(feature_matrix, features=None):
     keep = [c for c in feature_matrix
             if (feature_matrix[c].nunique(dropna=False) > 1 and
                 feature_matrix[c].dropna().shape[0] > 0)]
-    feature_matrix = feature_matrix[keep]
-    if features is not None:
-        features = [f for f in features
-                    if f.get_name() in feature_matrix.columns]
-        return feature_matrix, features
-    return feature_matrix
+    return _apply_feature_selection(keep, feature_matrix, features)
 
 
 def remove_highly_null_features(feature_matrix, features=None, pct_null_threshold=0.95):
-- 
2.43.0


From 4b21f59686457012464b9ff09866e5dcb154c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 33/68] fix: encode_features accepts a dict top_n together with
 drop_first

---
 featuretools/synthesis/encode_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/encode_features.py b/featuretools/synthesis/encode_features.py
index 1732978..b4aee78 100644
--- a/featuretools/synthesis/encode_features.py
+++ b/featuretools/synthesis/encode_features.py
@@ -136,7 +136,7 @@ def encode_features(feature_matrix, features, top_n=DEFAULT_TOP_N, include_unkno
         if isinstance(top_n, dict):
             select_n = top_n.get(f.get_name(), DEFAULT_TOP_N)
         if drop_first:
-            select_n = min(len(val_counts), top_n)
+            select_n = min(len(val_counts), select_n)
             select_n = max(select_n - 1, 1)
         unique = val_counts.head(select_n).index.tolist()
         for label in unique:
-- 
2.43.0


From 97508d77f39c31e6fb3d6876920330528dfa5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 34/68] fix: a Dask matrix holds the index column once when the
 index is also a feature

---
 featuretools/computational_backends/calculate_feature_matrix.py | 2 +-
 featuretools/computational_backends/feature_set_calculator.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index af5a51d..6a3ab26 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -433,7 +433,7 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
                                                include_cutoff_time=include_cutoff_time)
 
                 if is_instance(_feature_matrix, (dd, ks), 'DataFrame'):
-                    id_name = _feature_matrix.columns[-1]
+                    id_name = entityset[feature_set.target_eid].index
                 else:
                     id_name = _feature_matrix.index.name
 
diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 88cd33e..80a7411 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -153,7 +153,7 @@ class FeatureSetCalculator(object):
         for feat in self.feature_set.target_features:
             column_list.extend(feat.get_feature_names())
 
-        if is_instance(df, (dd, ks), 'DataFrame'):
+        if is_instance(df, (dd, ks), 'DataFrame') and target_entity.index not in column_list:
             column_list.extend([target_entity.index])
 
         return df[column_list]
-- 
2.43.0


From f39341f2eb1938909fbc78b81eb3c295dfb38a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 35/68] fix: passed columns of a Dask cutoff table no longer
 remove a feature named time

---
 .../computational_backends/calculate_feature_matrix.py    | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index 6a3ab26..e0b6521 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -465,17 +465,13 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
                             for col in pass_columns:
                                 _feature_matrix[col] = pass_through[col]
                     elif isinstance(_feature_matrix, dd.DataFrame) and (len(pass_columns) > 0):
-                        _feature_matrix['time'] = time_last
                         for col in pass_columns:
-                            pass_df = dd.from_pandas(pass_through[[id_name, 'time', col]], npartitions=_feature_matrix.npartitions)
+                            pass_df = dd.from_pandas(pass_through[[id_name, col]], npartitions=_feature_matrix.npartitions)
                             _feature_matrix = _feature_matrix.merge(pass_df, how="outer")
-                        _feature_matrix = _feature_matrix.drop(columns=['time'])
                     elif is_instance(_feature_matrix, ks, 'DataFrame') and (len(pass_columns) > 0):
-                        _feature_matrix['time'] = time_last
                         for col in pass_columns:
-                            pass_df = ks.from_pandas(pass_through[[id_name, 'time', col]])
+                            pass_df = ks.from_pandas(pass_through[[id_name, col]])
                             _feature_matrix = _feature_matrix.merge(pass_df, how="outer")
-                        _feature_matrix = _feature_matrix.drop(columns=['time'])
                 feature_matrix.append(_feature_matrix)
 
     if any(isinstance(fm, dd.DataFrame) for fm in feature_matrix):
-- 
2.43.0


From 99842e40920fb43de53cf35d0fdb08393ed2ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 36/68] fix: client and cluster are closed when setting them up
 fails

---
 featuretools/computational_backends/utils.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 10ea65c..b82c206 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -1,6 +1,7 @@
 import logging
 import os
 import warnings
+from contextlib import suppress
 from functools import wraps
 
 import dask.dataframe as dd
@@ -133,6 +134,18 @@ def n_jobs_to_workers(n_jobs):
 
 
 def create_client_and_cluster(n_jobs, dask_kwargs, entityset_size):
+    opened = []
+    try:
+        return _create_client_and_cluster(n_jobs, dask_kwargs, entityset_size, opened)
+    except BaseException:
+        # the caller never gets to see what was opened before the error
+        for resource in reversed(opened):
+            with suppress(Exception):
+                resource.close()
+        raise
+
+
+def _create_client_and_cluster(n_jobs, dask_kwargs, entityset_size, opened):
     Client, LocalCluster = get_client_cluster()
 
     dask_kwargs = dict(dask_kwargs)
@@ -172,6 +185,7 @@ def create_client_and_cluster(n_jobs, dask_kwargs, entityset_size):
                                diagnostics_port=diagnostics_port,
                                memory_limit=memory_limit,
                                **dask_kwargs)
+        opened.append(cluster)
 
         # if cluster has bokeh port, notify user if unexpected port number
         if diagnostics_port is not None:
@@ -182,6 +196,7 @@ def create_client_and_cluster(n_jobs, dask_kwargs, entityset_size):
                     print(msg.format(info['services']['bokeh']))
 
     client = Client(cluster)
+    opened.append(client)
 
     warned_of_memory = False
     for worker in list(client.scheduler_info()['workers'].values()):
-- 
2.43.0


From f656db276eff6fc7f62e578d3c896aba5c09d57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 37/68] fix: the cluster is closed even if closing its client
 fails

---
 .../calculate_feature_matrix.py                       | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index e0b6521..5f86fba 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -676,11 +676,12 @@ def parallel_calculate_chunks(cutoff_time, chunk_size, feature_set, approximate,
     except Exception:
         raise
     finally:
-        if client is not None:
-            client.close()
-
-        if 'cluster' not in dask_kwargs and cluster is not None:
-            cluster.close()
+        try:
+            if client is not None:
+                client.close()
+        finally:
+            if 'cluster' not in dask_kwargs and cluster is not None:
+                cluster.close()
 
     feature_matrix = pd.concat(feature_matrix)
 
-- 
2.43.0


From 6d0f831bac2d11dea50181c523bd7f58ca4b405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 38/68] fix: the stream that silences the progress bar is
 closed

---
 .../computational_backends/calculate_feature_matrix.py   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index 5f86fba..9c66da2 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -2,6 +2,7 @@ import logging
 import math
 import os
 import shutil
+import sys
 import time
 import warnings
 from datetime import datetime
@@ -262,10 +263,12 @@ def calculate_feature_matrix(features, entityset=None, cutoff_time=None, instanc
     if verbose:
         tqdm_options.update({'disable': False})
     elif progress_callback is not None:
-        # allows us to utilize progress_bar updates without printing to anywhere
-        tqdm_options.update({'file': open(os.devnull, 'w'), 'disable': False})
+        tqdm_options.update({'disable': False})
 
-    with make_tqdm_iterator(**tqdm_options) as progress_bar:
+    # allows us to utilize progress_bar updates without printing to anywhere
+    silent = not verbose and progress_callback is not None
+    with open(os.devnull, 'w') as devnull, \
+            make_tqdm_iterator(file=devnull if silent else sys.stdout, **tqdm_options) as progress_bar:
         if n_jobs != 1 or dask_kwargs is not None:
             feature_matrix = parallel_calculate_chunks(cutoff_time=cutoff_time_to_pass,
                                                        chunk_size=chunk_size,
-- 
2.43.0


From 89d726244bbe8a41d272c8f63a33471911f9bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 39/68] fix: the archive file is closed when writing it fails

---
 featuretools/entityset/serialize.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index dc85e78..61aefe1 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -169,8 +169,7 @@ def dump_data_description(entityset, path, **kwargs):
 def create_archive(tmpdir):
     file_name = "es-{date:%Y-%m-%d_%H%M%S}.tar".format(date=datetime.datetime.now())
     file_path = os.path.join(tmpdir, file_name)
-    tar = tarfile.open(str(file_path), 'w')
-    tar.add(str(tmpdir) + '/data_description.json', arcname='/data_description.json')
-    tar.add(str(tmpdir) + '/data', arcname='/data')
-    tar.close()
+    with tarfile.open(str(file_path), 'w') as tar:
+        tar.add(str(tmpdir) + '/data_description.json', arcname='/data_description.json')
+        tar.add(str(tmpdir) + '/data', arcname='/data')
     return file_path
-- 
2.43.0


From d6369d45e532026ef3ab0f9447e665f6dbbb146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 40/68] fix: progress files keep every chunk, for every kind of
 cutoff time, and leave the user's files alone

---
 .../calculate_feature_matrix.py               | 15 +++++++------
 featuretools/computational_backends/utils.py  | 22 +++++++++++--------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index 9c66da2..bc547dc 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -1,7 +1,6 @@
 import logging
 import math
 import os
-import shutil
 import sys
 import time
 import warnings
@@ -315,9 +314,6 @@ def calculate_feature_matrix(features, entityset=None, cutoff_time=None, instanc
             if not cutoff_time_in_index:
                 feature_matrix.reset_index(level='time', drop=True, inplace=True)
 
-        if save_progress and os.path.exists(os.path.join(save_progress, 'temp')):
-            shutil.rmtree(os.path.join(save_progress, 'temp'))
-
         # force to 100% since we saved last 5 percent
         previous_progress = progress_bar.n
         progress_bar.update(progress_bar.total - progress_bar.n)
@@ -362,9 +358,14 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
                                           feature_set,
                                           time_last,
                                           training_window=training_window)
-        _feature_matrix = calculator.run(ids,
-                                         progress_callback=update_progress_callback,
-                                         include_cutoff_time=include_cutoff_time)
+
+        @save_csv_decorator(save_progress)
+        def calc_all(time_last, ids):
+            return calculator.run(ids,
+                                  progress_callback=update_progress_callback,
+                                  include_cutoff_time=include_cutoff_time)
+
+        _feature_matrix = calc_all(time_last, ids)
         if isinstance(_feature_matrix, pd.DataFrame):
             time_index = pd.Index([time_last] * len(ids), name='time')
             _feature_matrix = _feature_matrix.set_index(time_index, append=True)
diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index b82c206..ef94193 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -1,5 +1,7 @@
+import hashlib
 import logging
 import os
+import tempfile
 import warnings
 from contextlib import suppress
 from functools import wraps
@@ -38,16 +40,18 @@ def save_csv_decorator(save_progress=None):
             if save_progress is None:
                 r = method(*args, **kwargs)
             else:
-                time = args[0].to_pydatetime()
-                file_name = 'ft_' + time.strftime("%Y_%m_%d_%I-%M-%S-%f") + '.csv'
-                file_path = os.path.join(save_progress, file_name)
-                temp_dir = os.path.join(save_progress, 'temp')
-                if not os.path.exists(temp_dir):
-                    os.makedirs(temp_dir)
-                temp_file_path = os.path.join(temp_dir, file_name)
                 r = method(*args, **kwargs)
-                r.to_csv(temp_file_path)
-                os.rename(temp_file_path, file_path)
+                time = args[0]
+                if hasattr(time, 'strftime'):
+                    time = time.strftime("%Y_%m_%d_%H-%M-%S-%f")
+                # several chunks can have the same cutoff time
+                chunk = hashlib.md5(repr((args[0], list(args[1]))).encode()).hexdigest()
+                file_name = 'ft_{}_{}.csv'.format(time, chunk)
+                os.makedirs(save_progress, exist_ok=True)
+                with tempfile.TemporaryDirectory(dir=save_progress) as temp_dir:
+                    temp_file_path = os.path.join(temp_dir, file_name)
+                    r.to_csv(temp_file_path)
+                    os.rename(temp_file_path, os.path.join(save_progress, file_name))
             return r
         return wrapped
     return inner_decorator
-- 
2.43.0


From 6c40635cdad92c50b7c3bf44fb3cc1a9d9a9bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 41/68] fix: do not batch features with different multi-unit
 use_previous

---
 featuretools/computational_backends/feature_set.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 776c5d6..3a0d56f 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -203,16 +203,11 @@ class FeatureSet(object):
 # These functions are used for sorting and grouping features
 
 
-def _get_use_previous(f):  # TODO Sort and group features for DateOffset with two different temporal values
+def _get_use_previous(f):
     if isinstance(f, AggregationFeature) and f.use_previous is not None:
-        if len(f.use_previous.times.keys()) > 1:
-            return ("", -1)
-        else:
-            unit = list(f.use_previous.times.keys())[0]
-            value = f.use_previous.times[unit]
-            return (unit, value)
+        return tuple(sorted(f.use_previous.times.items()))
     else:
-        return ("", -1)
+        return ()
 
 
 def _get_where(f):
-- 
2.43.0


From dd9c7cb12ba3535f67da27c80505e4849e387b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 42/68] fix: features of one batch may share a column and a
 named aggregation

---
 .../feature_set_calculator.py                  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 80a7411..8bbf311 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -1,3 +1,4 @@
+from copy import copy
 from datetime import datetime
 from functools import partial
 
@@ -631,6 +632,7 @@ class FeatureSetCalculator(object):
 
             to_agg = {}
             agg_rename = {}
+            same_values = {}
             to_apply = set()
             # apply multivariable and time-dependent features as we find them, and
             # save aggregable features for later
@@ -666,13 +668,21 @@ class FeatureSetCalculator(object):
                         func.__name__ = funcname
 
                     if isinstance(func, dd.Aggregation):
-                        # TODO: handle aggregation being applied to same variable twice
-                        # (see above partial wrapping of functions)
                         funcname = func.__name__
+                        if u"{}-{}".format(variable_id, funcname) in agg_rename:
+                            # features can use different aggregations with the same name
+                            func = copy(func)
+                            funcname = func.__name__ = "{}_{}".format(funcname, len(agg_rename))
+
+                    agg_key = u"{}-{}".format(variable_id, funcname)
+                    if agg_key in agg_rename:
+                        # the function is given by name, so it is the same computation
+                        same_values[f.get_name()] = agg_rename[agg_key]
+                        continue
 
                     to_agg[variable_id].append(func)
                     # this is used below to rename columns that pandas names for us
-                    agg_rename[u"{}-{}".format(variable_id, funcname)] = f.get_name()
+                    agg_rename[agg_key] = f.get_name()
                     continue
 
                 to_apply.add(f)
@@ -710,6 +720,8 @@ class FeatureSetCalculator(object):
                 # rename columns to the correct feature names
                 to_merge.columns = [agg_rename["-".join(x)] for x in to_merge.columns]
                 to_merge = to_merge[list(agg_rename.values())]
+                for name, same_name in same_values.items():
+                    to_merge[name] = to_merge[same_name]
 
                 # workaround for pandas bug where categories are in the wrong order
                 # see: https://github.com/pandas-dev/pandas/issues/22501
-- 
2.43.0


From 7d0941bab13244262debc530ccddf49581eea78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 43/68] fix: FeatureBase.__not__ called NOT with an argument it
 does not take

---
 featuretools/feature_base/feature_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 0cb6623..30dd7a6 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -301,8 +301,8 @@ class FeatureBase(object):
     def __ror__(self, other):
         return Feature([other, self], primitive=primitives.Or)
 
-    def __not__(self, other):
-        return self.NOT(other)
+    def __not__(self):
+        return self.NOT()
 
     def __abs__(self):
         return Feature([self], primitive=primitives.Absolute)
-- 
2.43.0


From af185a61b3d8068827bc106e7d4615e8188c869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 44/68] fix: missing values in text columns were saved to
 parquet as the text 'nan', and a missing LatLong could not be loaded

---
 featuretools/entityset/deserialize.py | 4 ++++
 featuretools/entityset/serialize.py   | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index b1b5278..f3af029 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -188,9 +188,13 @@ def read_entity_data(description, path):
                 latlongs.append(var_description["id"])
 
         def parse_latlong_tuple(x):
+            if not isinstance(x, str):
+                return x
             return tuple(float(y) for y in x[1:-1].split(","))
 
         def parse_latlong_list(x):
+            if not isinstance(x, str):
+                return x
             return list(float(y) for y in x[1:-1].split(","))
 
         for column in latlongs:
diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index 61aefe1..37a247f 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -115,7 +115,9 @@ def write_entity_data(entity, path, format='csv', **kwargs):
         # Issue is resolved by casting columns of dtype object to string.
         df = df.copy()
         columns = list(df.select_dtypes('object').columns)
-        df[columns] = df[columns].astype(str)
+        for column in columns:
+            # missing values stay missing, they are not the text "nan"
+            df[column] = df[column].astype(str).mask(df[column].isnull(), None)
         df.to_parquet(file, **kwargs)
     elif format == 'pickle':
         # Dask currently does not support to_pickle
-- 
2.43.0


From 6498e1e58ac1c0e72e68810841a9745aa211b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 45/68] fix: deep equality compared no data

---
 featuretools/utils/wrangle.py | 75 +++++++++++++++++------------------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index 7166a70..701ec7d 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -2,11 +2,15 @@ import re
 import tarfile
 from datetime import datetime
 
+import dask.dataframe as dd
 import numpy as np
 import pandas as pd
 
 from featuretools import variable_types
 from featuretools.entityset.timedelta import Timedelta
+from featuretools.utils.gen_utils import import_or_none, is_instance
+
+ks = import_or_none('databricks.koalas')
 
 
 def _check_timedelta(td):
@@ -113,46 +117,39 @@ def _check_time_type(time):
 
 
 def _dataframes_equal(df1, df2):
-    # ^ means XOR
-    df1_empty = bool(len(df1))
-    df2_empty = bool(len(df2))
-    if df1_empty ^ df2_empty:
+    if is_instance(df1, (dd, ks), 'DataFrame'):
+        df1 = df1.compute() if is_instance(df1, dd, 'DataFrame') else df1.to_pandas()
+    if is_instance(df2, (dd, ks), 'DataFrame'):
+        df2 = df2.compute() if is_instance(df2, dd, 'DataFrame') else df2.to_pandas()
+
+    if len(df1) != len(df2) or set(df1.columns) != set(df2.columns):
+        return False
+    # compare row by row, whatever the labels are
+    return all(_columns_equal(df1[c].reset_index(drop=True), df2[c].reset_index(drop=True)) for c in df1)
+
+
+def _columns_equal(df1c, df2c):
+    # handle nan equality correctly
+    present = ~pd.isnull(df1c)
+    if not (present == ~pd.isnull(df2c)).all():
         return False
-    elif not df1_empty and not df2_empty:
-        if not set(df1.columns) == set(df2.columns):
-            return False
-
-        for c in df1:
-            df1c = df1[c]
-            df2c = df2[c]
-            if df1c.dtype == object:
-                df1c = df1c.astype('unicode')
-            if df2c.dtype == object:
-                df2c = df2c.astype('unicode')
-
-            normal_compare = True
-            if df1c.dtype == object:
-                dropped = df1c.dropna()
-                if not dropped.empty:
-                    if isinstance(dropped.iloc[0], tuple):
-                        dropped2 = df2[c].dropna()
-                        normal_compare = False
-                        for i in range(len(dropped.iloc[0])):
-                            try:
-                                equal = dropped.apply(lambda x: x[i]).equals(
-                                    dropped2.apply(lambda x: x[i]))
-                            except IndexError:
-                                raise IndexError("If column data are tuples, they must all be the same length")
-                            if not equal:
-                                return False
-            if normal_compare:
-                # handle nan equality correctly
-                # This way is much faster than df1.equals(df2)
-                result = df1c == df2c
-                result[pd.isnull(df1c) == pd.isnull(df2c)] = True
-                if not result.all():
-                    return False
-    return True
+    df1c, df2c = df1c[present], df2c[present]
+
+    if len(df1c) and isinstance(df1c.iloc[0], tuple):
+        for i in range(len(df1c.iloc[0])):
+            try:
+                equal = _columns_equal(df1c.apply(lambda x: x[i]), df2c.apply(lambda x: x[i]))
+            except IndexError:
+                raise IndexError("If column data are tuples, they must all be the same length")
+            if not equal:
+                return False
+        return True
+
+    if df1c.dtype == object or isinstance(df1c.dtype, pd.CategoricalDtype):
+        df1c = df1c.astype('unicode')
+    if df2c.dtype == object or isinstance(df2c.dtype, pd.CategoricalDtype):
+        df2c = df2c.astype('unicode')
+    return bool((df1c == df2c).all())
 
 
 def _is_s3(string):
-- 
2.43.0


From 87ca1bf274115c722152a593ce557f4f23820688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 46/68] fix: EntitySet equality ignored relationships only the
 other one has

---
 featuretools/entityset/entityset.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 0e70d0f..800da97 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -110,6 +110,8 @@ class EntitySet(object):
         return (EntitySet, serialize.entityset_to_description(self.metadata))
 
     def __eq__(self, other, deep=False):
+        if not isinstance(other, EntitySet):
+            return False
         if len(self.entity_dict) != len(other.entity_dict):
             return False
         for eid, e in self.entity_dict.items():
@@ -117,10 +119,7 @@ class EntitySet(object):
                 return False
             if not e.__eq__(other[eid], deep=deep):
                 return False
-        for r in self.relationships:
-            if r not in other.relationships:
-                return False
-        return True
+        return set(self.relationships) == set(other.relationships)
 
     def __ne__(self, other, deep=False):
         return not self.__eq__(other, deep=deep)
-- 
2.43.0


From 67be3d2882ca1c0195c348fb3a9042a8fb2ec2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 47/68] fix: equal entities had different hashes and entities
 with different ids were equal

---
 featuretools/entityset/entity.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index a0fff93..7aa6d0f 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -101,6 +101,10 @@ class Entity(object):
         return self.df.shape
 
     def __eq__(self, other, deep=False):
+        if not isinstance(other, Entity):
+            return False
+        if self.id != other.id:
+            return False
         if self.index != other.index:
             return False
         if self.time_index != other.time_index:
@@ -155,7 +159,7 @@ class Entity(object):
         self.entityset.reset_data_description()
 
     def __hash__(self):
-        return id(self.id)
+        return hash(self.id)
 
     def __getitem__(self, variable_id):
         return self._get_variable(variable_id)
-- 
2.43.0


From 1ccd54a3bd0a3cdcdbee39c08b9c876aabf38fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 48/68] fix: Variable equality was not symmetric

---
 featuretools/variable_types/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 3f7073b..78731ae 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -57,7 +57,7 @@ class Variable(object):
         return self.entity.entityset
 
     def __eq__(self, other, deep=False):
-        shallow_eq = isinstance(other, self.__class__) and \
+        shallow_eq = type(self) == type(other) and \
             self.id == other.id and \
             self.entity_id == other.entity_id
         if not deep:
-- 
2.43.0


From d7abf0f7f82f4280d16dcb7ff2af77ead3059086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 49/68] fix: give every saved chunk its own progress file, also
 when chunks share their cutoff time and instances

---
 featuretools/computational_backends/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index ef94193..9eba229 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -1,7 +1,7 @@
-import hashlib
 import logging
 import os
 import tempfile
+import uuid
 import warnings
 from contextlib import suppress
 from functools import wraps
@@ -44,9 +44,8 @@ def save_csv_decorator(save_progress=None):
                 time = args[0]
                 if hasattr(time, 'strftime'):
                     time = time.strftime("%Y_%m_%d_%H-%M-%S-%f")
-                # several chunks can have the same cutoff time
-                chunk = hashlib.md5(repr((args[0], list(args[1]))).encode()).hexdigest()
-                file_name = 'ft_{}_{}.csv'.format(time, chunk)
+                # several chunks can have the same cutoff time and instances
+                file_name = 'ft_{}_{}.csv'.format(time, uuid.uuid4().hex)
                 os.makedirs(save_progress, exist_ok=True)
                 with tempfile.TemporaryDirectory(dir=save_progress) as temp_dir:
                     temp_file_path = os.path.join(temp_dir, file_name)
-- 
2.43.0


From 559aee4b930d070f5c67a6e078d5e7b67f1fe704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 50/68] fix: compare schema versions as numbers

---
 featuretools/utils/gen_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/utils/gen_utils.py b/featuretools/utils/gen_utils.py
index 9f35e1b..bad224e 100644
--- a/featuretools/utils/gen_utils.py
+++ b/featuretools/utils/gen_utils.py
@@ -56,8 +56,8 @@ def check_schema_version(cls, cls_type):
             )
             version_string = cls.features_dict['schema_version']
 
-        current = SCHEMA_VERSION.split('.')
-        saved = version_string.split('.')
+        current = [int(part) for part in SCHEMA_VERSION.split('.')]
+        saved = [int(part) for part in version_string.split('.')]
 
         warning_text_upgrade = ('The schema version of the saved %s'
                                 '(%s) is greater than the latest supported (%s). '
-- 
2.43.0


From c75534d3867f60f8e5e22b7bcb0a87e176cf3bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 51/68] fix: tell observation counts from time spans when
 checking use_previous against a numeric time index

---
 featuretools/utils/wrangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index 701ec7d..bc4787b 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -98,7 +98,7 @@ def _check_time_against_column(time, time_column):
     elif isinstance(time, Timedelta):
         return (isinstance(time_column, (variable_types.Datetime, variable_types.DatetimeTimeIndex)) or
                 (isinstance(time_column, (variable_types.Ordinal, variable_types.Numeric, variable_types.TimeIndex)) and
-                 time.unit not in Timedelta._time_units))
+                 time.get_units() == [Timedelta._Observations]))
     else:
         return False
 
-- 
2.43.0


From 14a2d86247ce2e84c49c66df5fd5e8589154c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 52/68] fix: let every relationship to a child count in the
 last time index, also several to the same child

---
 featuretools/entityset/entityset.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 800da97..c34283e 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -769,11 +769,9 @@ class EntitySet(object):
                 (will update all parents of those entities as well)
         """
         # Generate graph of entities to find leaf entities
-        children = defaultdict(list)  # parent --> child mapping
-        child_vars = defaultdict(dict)
+        children = defaultdict(list)  # parent --> relationships to its children
         for r in self.relationships:
-            children[r.parent_entity.id].append(r.child_entity)
-            child_vars[r.parent_entity.id][r.child_entity.id] = r.child_variable
+            children[r.parent_entity.id].append(r)
 
         updated_entities = updated_entities or []
         if updated_entities:
@@ -826,7 +824,7 @@ class EntitySet(object):
                 entity.last_time_index = lti
 
             if entity.id in children:
-                child_entities = children[entity.id]
+                child_entities = [r.child_entity for r in children[entity.id]]
 
                 # if all children not explored, skip for now
                 if not set([e.id for e in child_entities]).issubset(explored):
@@ -842,11 +840,12 @@ class EntitySet(object):
                     continue
 
                 # updated last time from all children
-                for child_e in child_entities:
+                for r in children[entity.id]:
+                    child_e = r.child_entity
                     # TODO: Figure out if Dask code related to indexes is important for Koalas
                     if child_e.last_time_index is None:
                         continue
-                    link_var = child_vars[entity.id][child_e.id].id
+                    link_var = r.child_variable.id
 
                     lti_is_dask = isinstance(child_e.last_time_index, dd.Series)
                     lti_is_koalas = is_instance(child_e.last_time_index, ks, 'Series')
-- 
2.43.0


From c769c3f913bee5cdf8cd0ef3660331ddd28d06c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 53/68] fix: keep a missing time of a child from hiding its
 siblings' times in the last time index

---
 featuretools/entityset/entityset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index c34283e..1e9ca63 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -871,7 +871,8 @@ class EntitySet(object):
                                                entity.index: child_e.df[link_var]})
 
                         # sort by time and keep only the most recent
-                        lti_df.sort_values(['last_time', entity.index],
+                        # (a missing time is older than any other)
+                        lti_df.sort_values(['last_time', entity.index], na_position='first',
                                            kind="mergesort", inplace=True)
 
                         lti_df.drop_duplicates(entity.index,
-- 
2.43.0


From b7b2f67c22d7684e31bb1996510081b65db3f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 54/68] fix: keep numeric times numeric in the last time index

---
 featuretools/entityset/entityset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 1e9ca63..9bc72a9 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -886,7 +886,9 @@ class EntitySet(object):
                         # Pandas errors out if it tries to do fillna and then max on an empty dataframe
                         lti_df = pd.Series()
                     else:
-                        if lti_is_koalas:
+                        if self.time_type == vtypes.NumericTimeIndex:
+                            lti_df = lti_df.astype('float64').max(axis=1)
+                        elif lti_is_koalas:
                             lti_df['last_time'] = ks.to_datetime(lti_df['last_time'])
                             lti_df['last_time_old'] = ks.to_datetime(lti_df['last_time_old'])
                             # TODO: Figure out a workaround for fillna and replace
-- 
2.43.0


From 389cd4aa6d1820ab58185c52396351fd30ae77cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 55/68] fix: compute the last time index of an entity whose
 index is called last_time

---
 featuretools/entityset/entityset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 9bc72a9..65c10e2 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -855,31 +855,31 @@ class EntitySet(object):
                             to_join.index = child_e.df[child_e.index]
 
                         lti_df = child_e.last_time_index.to_frame(name='last_time').join(
-                            to_join.to_frame(name=entity.index)
+                            to_join.to_frame(name='parent')
                         )
 
                         if lti_is_dask:
                             new_index = lti_df.index.copy()
                             new_index.name = None
                             lti_df.index = new_index
-                        lti_df = lti_df.groupby(lti_df[entity.index]).agg('max')
+                        lti_df = lti_df.groupby(lti_df['parent']).agg('max')
 
                         lti_df = entity.last_time_index.to_frame(name='last_time_old').join(lti_df)
 
                     else:
                         lti_df = pd.DataFrame({'last_time': child_e.last_time_index,
-                                               entity.index: child_e.df[link_var]})
+                                               'parent': child_e.df[link_var]})
 
                         # sort by time and keep only the most recent
                         # (a missing time is older than any other)
-                        lti_df.sort_values(['last_time', entity.index], na_position='first',
+                        lti_df.sort_values(['last_time', 'parent'], na_position='first',
                                            kind="mergesort", inplace=True)
 
-                        lti_df.drop_duplicates(entity.index,
+                        lti_df.drop_duplicates('parent',
                                                keep='last',
                                                inplace=True)
 
-                        lti_df.set_index(entity.index, inplace=True)
+                        lti_df.set_index('parent', inplace=True)
                         lti_df = lti_df.reindex(entity.last_time_index.index)
                         lti_df['last_time_old'] = entity.last_time_index
                     if not (lti_is_dask or lti_is_koalas) and lti_df.empty:
-- 
2.43.0


From eab1b725c2ee29a895f8cb31f0a9bc3a8a71a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 56/68] fix: leave the entity set's time type alone when a time
 index is rejected

---
 featuretools/entityset/entity.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 7aa6d0f..1fe5e8d 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -391,9 +391,7 @@ class Entity(object):
             raise TypeError("%s time index not recognized as numeric or"
                             " datetime" % (self.id))
 
-        if self.entityset.time_type is None:
-            self.entityset.time_type = time_type
-        elif self.entityset.time_type != time_type:
+        if self.entityset.time_type is not None and self.entityset.time_type != time_type:
             raise TypeError("%s time index is %s type which differs from"
                             " other entityset time indexes" %
                             (self.id, time_type))
@@ -414,6 +412,7 @@ class Entity(object):
         self.convert_variable_type(variable_id, t, convert_data=False)
 
         self.time_index = variable_id
+        self.entityset.time_type = time_type
         self.entityset.reset_data_description()
 
     def set_index(self, variable_id, unique=True):
@@ -436,6 +435,7 @@ class Entity(object):
     def set_secondary_time_index(self, secondary_time_index):
         secondary_time_index = {time_index: list(columns)
                                 for time_index, columns in secondary_time_index.items()}
+        entityset_time_type = self.entityset.time_type
         for time_index, columns in secondary_time_index.items():
             if is_instance(self.df, (dd, ks), 'DataFrame') or self.df.empty:
                 time_to_check = vtypes.DEFAULT_DTYPE_VALUES[self[time_index]._default_pandas_dtype]
@@ -445,9 +445,9 @@ class Entity(object):
             if time_type is None:
                 raise TypeError("%s time index not recognized as numeric or"
                                 " datetime" % (self.id))
-            if self.entityset.time_type is None:
-                self.entityset.time_type = time_type
-            elif self.entityset.time_type != time_type:
+            if entityset_time_type is None:
+                entityset_time_type = time_type
+            elif entityset_time_type != time_type:
                 raise TypeError("%s time index is %s type which differs from"
                                 " other entityset time indexes" %
                                 (self.id, time_type))
@@ -455,6 +455,7 @@ class Entity(object):
                 columns.append(time_index)
 
         self.secondary_time_index = secondary_time_index
+        self.entityset.time_type = entityset_time_type
         self.entityset.reset_data_description()
 
 
-- 
2.43.0


From 8439c94ef12b8bcdb9a5293e93f9e9bd15fed9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 57/68] fix: an entity that is rejected does not decide the
 time type of the entity set

---
 featuretools/entityset/entity.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 1fe5e8d..8ca58d0 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -78,10 +78,16 @@ class Entity(object):
         self.set_index(index)
 
         self.time_index = None
-        if time_index:
-            self.set_time_index(time_index, already_sorted=already_sorted)
-
-        self.set_secondary_time_index(secondary_time_index)
+        time_type = entityset.time_type
+        try:
+            if time_index:
+                self.set_time_index(time_index, already_sorted=already_sorted)
+
+            self.set_secondary_time_index(secondary_time_index)
+        except Exception:
+            # an entity that is rejected does not decide the time type of the others
+            entityset.time_type = time_type
+            raise
 
     def __repr__(self):
         repr_out = u"Entity: {}\n".format(self.id)
-- 
2.43.0


From 823f254fb95f744cb5d2b2ee9fcd7db3f30e11ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 58/68] fix: keep the indexes of an entity, and no secondary
 time index of nothing, when variables are deleted

---
 featuretools/entityset/entity.py    | 11 +++++++++++
 featuretools/entityset/entityset.py |  1 +
 2 files changed, 12 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 8ca58d0..f95dd82 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -378,13 +378,24 @@ class Entity(object):
             raise TypeError('variable_ids must be a list of variable names')
         if len(variable_ids) == 0:
             return
+        self._check_deletable(variable_ids)
         self.df = self.df.drop(variable_ids, axis=1)
+        self.secondary_time_index = {time_index: [c for c in columns if c not in variable_ids]
+                                     for time_index, columns in self.secondary_time_index.items()
+                                     if time_index not in variable_ids}
 
         for v_id in variable_ids:
             v = self._get_variable(v_id)
             self.variables.remove(v)
         self.entityset.reset_data_description()
 
+    def _check_deletable(self, variable_ids):
+        """Check that the entity keeps its indexes"""
+        for v_id in variable_ids:
+            if v_id in (self.index, self.time_index):
+                raise ValueError("Cannot delete {} because it is the index or time index of "
+                                 "entity {}".format(v_id, self.id))
+
     def set_time_index(self, variable_id, already_sorted=False):
         # check time type
         if not isinstance(self.df, pd.DataFrame) or self.df.empty:
diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 65c10e2..40fda47 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -597,6 +597,7 @@ class EntitySet(object):
             if v == base_entity.time_index:
                 raise ValueError("Not moving {} as it is the base time index variable. Perhaps, move the variable to the copy_variables.".format(v))
 
+        base_entity._check_deletable(additional_variables)
         if isinstance(make_time_index, str):
             if make_time_index not in base_entity.df.columns:
                 raise ValueError("'make_time_index' must be a variable in the base entity")
-- 
2.43.0


From c83752222a5851d3ca04a49392f27ff534bd0d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 59/68] fix: deleting or moving a linking variable does not
 leave a dangling relationship

---
 featuretools/entityset/entity.py    | 6 ++++++
 featuretools/entityset/entityset.py | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index f95dd82..b833e17 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -387,6 +387,12 @@ class Entity(object):
         for v_id in variable_ids:
             v = self._get_variable(v_id)
             self.variables.remove(v)
+        # a relationship does not outlive its variables
+        deleted = {(self.id, v_id) for v_id in variable_ids}
+        es = self.entityset
+        es.relationships = [r for r in es.relationships
+                            if not deleted & {(r._parent_entity_id, r._parent_variable_id),
+                                              (r._child_entity_id, r._child_variable_id)}]
         self.entityset.reset_data_description()
 
     def _check_deletable(self, variable_ids):
diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 40fda47..da95a2b 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -696,9 +696,16 @@ class EntitySet(object):
             secondary_time_index=make_secondary_time_index,
             variable_types=transfer_types)
 
+        new_entity = self.entity_dict[new_entity_id]
+
+        # the relationships of a variable move to the new entity with it
+        moved = [Relationship(r.parent_variable, new_entity[r.child_variable.id])
+                 for r in self.get_forward_relationships(base_entity_id)
+                 if r.child_variable.id in additional_variables]
         self.entity_dict[base_entity_id].delete_variables(additional_variables)
+        for relationship in moved:
+            self.add_relationship(relationship)
 
-        new_entity = self.entity_dict[new_entity_id]
         base_entity.convert_variable_type(base_entity_index, vtypes.Id, convert_data=False)
         self.add_relationship(Relationship(new_entity[index], base_entity[base_entity_index]))
         self.reset_data_description()
-- 
2.43.0


From 9892ebfe443f77914a59742eca16fc55f8f8600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 60/68] fix: normalize_entity does not overwrite an existing
 entity

---
 featuretools/entityset/entityset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index da95a2b..004245e 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -564,6 +564,8 @@ class EntitySet(object):
             new_entity_secondary_time_index (str, optional): Rename new entity secondary time index.
 
         """
+        if new_entity_id in self.entity_dict:
+            raise ValueError("Not creating entity {} as it already exists".format(new_entity_id))
         base_entity = self.entity_dict[base_entity_id]
         additional_variables = additional_variables or []
         copy_variables = copy_variables or []
-- 
2.43.0


From c14060cbb77c40ee57dedac782a4aba70542154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 61/68] fix: an entity that replaces another keeps the
 variables of its relationships

---
 featuretools/entityset/entityset.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 004245e..5ac7e3b 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -520,6 +520,15 @@ class EntitySet(object):
             secondary_time_index=secondary_time_index,
             already_sorted=already_sorted,
             make_index=make_index)
+        # relationships of an entity this one replaces
+        for r in self.relationships:
+            for v, other in ((r.parent_variable, r.child_variable), (r.child_variable, r.parent_variable)):
+                if v.entity.id == entity_id and (
+                        v.id not in entity.df.columns or
+                        v is r.parent_variable and v.id != entity.index or
+                        not is_dtype_equal(entity.df[v.id].dtype, other.entity.df[other.id].dtype)):
+                    raise ValueError("Unable to replace entity {} because {} refers to its variable {}"
+                                     .format(entity_id, r, v.id))
         self.entity_dict[entity.id] = entity
         self.reset_data_description()
         return self
-- 
2.43.0


From 1133178469118f81a310ce449e69167e515a8893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 62/68] fix: rejected data does not replace the data of an
 entity

---
 featuretools/entityset/entity.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index b833e17..af5c08d 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -294,12 +294,18 @@ class Entity(object):
                 raise ValueError("Updated dataframe is missing new {} column".format(v.id))
 
         # Make sure column ordering matches variable ordering
+        previous_df = self.df
         self.df = df[[v.id for v in self.variables]]
-        self.set_index(self.index)
-        if self.time_index is not None:
-            self.set_time_index(self.time_index, already_sorted=already_sorted)
+        try:
+            self.set_index(self.index)
+            if self.time_index is not None:
+                self.set_time_index(self.time_index, already_sorted=already_sorted)
 
-        self.set_secondary_time_index(self.secondary_time_index)
+            self.set_secondary_time_index(self.secondary_time_index)
+        except Exception:
+            # data that is rejected does not replace the data of the entity
+            self.df = previous_df
+            raise
         if recalculate_last_time_indexes and self.last_time_index is not None:
             self.entityset.add_last_time_indexes(updated_entities=[self.id])
         self.entityset.reset_data_description()
@@ -445,11 +451,12 @@ class Entity(object):
             unique (bool) : Whether to assert that the index is unique.
         """
         if isinstance(self.df, pd.DataFrame):
-            self.df = self.df.set_index(self.df[variable_id], drop=False)
-            self.df.index.name = None
+            df = self.df.set_index(self.df[variable_id], drop=False)
+            df.index.name = None
             if unique:
-                assert self.df.index.is_unique, "Index is not unique on dataframe " \
+                assert df.index.is_unique, "Index is not unique on dataframe " \
                     "(Entity {})".format(self.id)
+            self.df = df
 
         self.convert_variable_type(variable_id, vtypes.Index, convert_data=False)
         self.index = variable_id
-- 
2.43.0


From 4a284da0283eaf2d45ce11862be27e62e5b16ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 63/68] fix: aggregations over several hops group by the link
 column's actual name

The link columns are named after the relationship's parent name, which
tells several relationships between the same entities apart.
---
 featuretools/utils/gen_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/gen_utils.py b/featuretools/utils/gen_utils.py
index bad224e..4977848 100644
--- a/featuretools/utils/gen_utils.py
+++ b/featuretools/utils/gen_utils.py
@@ -26,7 +26,7 @@ def get_relationship_variable_id(path):
     child_link_name = r.child_variable.id
     for _, r in path[1:]:
         parent_link_name = child_link_name
-        child_link_name = '%s.%s' % (r.parent_entity.id,
+        child_link_name = '%s.%s' % (r.parent_name,
                                      parent_link_name)
     return child_link_name
 
-- 
2.43.0


From ed9b1180dd85a7c18bdd9bcedf20a8103cdee480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 64/68] fix: a parent's column may be taken by several direct
 features at once

Direct features of the same column computed together overwrote each
other's name, and a direct feature of the parent's index could not be
computed on Dask.
---
 .../feature_set_calculator.py                 | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 8bbf311..78598ee 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -538,37 +538,40 @@ class FeatureSetCalculator(object):
         # generate a mapping of old column names (in the parent entity) to
         # new column names (in the child entity) for the merge
         col_map = {relationship.parent_variable.id: merge_var}
-        index_as_feature = None
+        same_values = {}
 
         fillna_dict = {}
         for f in features:
             feature_defaults = {name: f.default_value
                                 for name in f.get_feature_names() if not pd.isna(f.default_value)}
             fillna_dict.update(feature_defaults)
-            if f.base_features[0].get_name() == relationship.parent_variable.id:
-                index_as_feature = f
             base_names = f.base_features[0].get_feature_names()
             for name, base_name in zip(f.get_feature_names(), base_names):
                 if name in child_df.columns:
                     continue
+                if col_map.get(base_name, merge_var) != merge_var:
+                    # another feature already takes this column
+                    same_values[name] = col_map[base_name]
+                    continue
                 col_map[base_name] = name
 
         # merge the identity feature from the parent entity into the child
         merge_df = parent_df[list(col_map.keys())].rename(columns=col_map)
+        # the parent's index may itself be one of the features
+        parent_merge_var = col_map[relationship.parent_variable.id]
         if is_instance(merge_df, (dd, ks), 'DataFrame'):
-            new_df = child_df.merge(merge_df, left_on=merge_var, right_on=merge_var,
+            new_df = child_df.merge(merge_df, left_on=merge_var, right_on=parent_merge_var,
                                     how='left')
         else:
-            if index_as_feature is not None:
-                merge_df.set_index(index_as_feature.get_name(),
-                                   inplace=True,
-                                   drop=False)
-            else:
-                merge_df.set_index(merge_var, inplace=True)
+            merge_df.set_index(parent_merge_var, inplace=True,
+                               drop=parent_merge_var == merge_var)
 
             new_df = child_df.merge(merge_df, left_on=merge_var, right_index=True,
                                     how='left')
 
+        for name, same_name in same_values.items():
+            new_df[name] = new_df[same_name]
+
         progress_callback(len(features) / float(self.num_features))
 
         return new_df.fillna(fillna_dict)
-- 
2.43.0


From 4a26c3ae7d1f148cad08512541276cbd02cb8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 65/68] fix: renamed variables can be computed

---
 .../computational_backends/feature_set_calculator.py   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 78598ee..18265ff 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -424,9 +424,15 @@ class FeatureSetCalculator(object):
             raise UnknownFeature(u"{} feature unknown".format(f.__class__))
 
     def _calculate_identity_features(self, features, df, _df_trie, progress_callback):
+        renamed = {}
         for f in features:
-            assert f.get_name() in df.columns, (
-                'Column "%s" missing frome dataframe' % f.get_name())
+            assert f.variable.id in df.columns, (
+                'Column "%s" missing frome dataframe' % f.variable.id)
+            if f.get_name() != f.variable.id:
+                renamed[f.get_name()] = df[f.variable.id]
+
+        if renamed:
+            df = df.assign(**renamed)
 
         progress_callback(len(features) / float(self.num_features))
 
-- 
2.43.0


From a7a17f358025bf5f550ea8f2c5f2b12d1f9501b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 66/68] fix: slices of multi-output features can be computed
 and used as inputs like other features

---
 .../computational_backends/feature_set.py     | 19 +++++++++++++------
 .../feature_set_calculator.py                 | 17 +++++++++++++++++
 featuretools/feature_base/feature_base.py     |  4 ++++
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 3a0d56f..45dbac7 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -106,6 +106,7 @@ class FeatureSet(object):
         needs_full_entity = ancestor_needs_full_entity or self.uses_full_entity(feature)
 
         name = feature.unique_name()
+        path = _get_dependency_path(feature)
 
         # If this feature is ignored then don't add it or any of its dependencies.
         if name in approximate_feature_trie.value:
@@ -122,7 +123,7 @@ class FeatureSet(object):
 
             # Set every node in relationship path to needs_full_entity.
             sub_trie = trie
-            for edge in feature.relationship_path:
+            for edge in path:
                 sub_trie = sub_trie.get_node([edge])
                 (_, f1, f2) = sub_trie.value
                 sub_trie.value = (True, f1, f2)
@@ -130,13 +131,11 @@ class FeatureSet(object):
             if name not in full_features:
                 not_full_features.add(name)
 
-            sub_trie = trie.get_node(feature.relationship_path)
+            sub_trie = trie.get_node(path)
 
-        sub_ignored_trie = approximate_feature_trie.get_node(feature.relationship_path)
+        sub_ignored_trie = approximate_feature_trie.get_node(path)
 
         for dep_feat in feature.get_dependencies():
-            if isinstance(dep_feat, FeatureOutputSlice):
-                dep_feat = dep_feat.base_feature
             self._add_feature_to_trie(sub_trie, dep_feat, sub_ignored_trie,
                                       ancestor_needs_full_entity=needs_full_entity)
 
@@ -180,7 +179,7 @@ class FeatureSet(object):
             depths[f.unique_name()] = order[f.unique_name()]
 
             # Only look at dependencies if they are on the same entity.
-            if not f.relationship_path:
+            if not _get_dependency_path(f):
                 dependencies = f.get_dependencies()
                 for dep in dependencies:
                     order[dep.unique_name()] = \
@@ -200,6 +199,14 @@ class FeatureSet(object):
                 return True
         return False
 
+
+def _get_dependency_path(f):
+    # A slice shares the path of the feature it is taken from, but that feature
+    # is itself on the same entity as the slice.
+    if isinstance(f, FeatureOutputSlice):
+        return RelationshipPath([])
+    return f.relationship_path
+
 # These functions are used for sorting and grouping features
 
 
diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 18265ff..3d6c103 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -13,6 +13,7 @@ from featuretools.exceptions import UnknownFeature
 from featuretools.feature_base import (
     AggregationFeature,
     DirectFeature,
+    FeatureOutputSlice,
     GroupByTransformFeature,
     IdentityFeature,
     TransformFeature
@@ -420,6 +421,8 @@ class FeatureSetCalculator(object):
             return self._calculate_agg_features
         elif type(f) == IdentityFeature:
             return self._calculate_identity_features
+        elif type(f) == FeatureOutputSlice:
+            return self._calculate_slice_features
         else:
             raise UnknownFeature(u"{} feature unknown".format(f.__class__))
 
@@ -438,6 +441,20 @@ class FeatureSetCalculator(object):
 
         return df
 
+    def _calculate_slice_features(self, features, frame, _df_trie, progress_callback):
+        slices = {}
+        for f in features:
+            base_name = f.base_feature.get_feature_names()[f.n]
+            if f.get_name() != base_name:
+                slices[f.get_name()] = frame[base_name]
+
+        if slices:
+            frame = frame.assign(**slices)
+
+        progress_callback(len(features) / float(self.num_features))
+
+        return frame
+
     def _calculate_transform_features(self, features, frame, _df_trie, progress_callback):
         frame_empty = frame.empty if isinstance(frame, pd.DataFrame) else False
         feature_values = []
diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 30dd7a6..74470e1 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -803,6 +803,10 @@ class FeatureOutputSlice(FeatureBase):
     def number_output_features(self):
         return 1
 
+    @property
+    def default_value(self):
+        return self.base_feature.default_value
+
     def get_arguments(self):
         return {
             'name': self._name,
-- 
2.43.0


From 846d09e634cc9043dab1d83dd8d6fb63ba44439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 67/68] fix: describe aggregations with any where-condition and
 slices of group-by and direct features

---
 .../feature_base/feature_descriptions.py      | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/featuretools/feature_base/feature_descriptions.py b/featuretools/feature_base/feature_descriptions.py
index e2dbe46..4433bbc 100644
--- a/featuretools/feature_base/feature_descriptions.py
+++ b/featuretools/feature_base/feature_descriptions.py
@@ -41,6 +41,15 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     if isinstance(feature, ft.IdentityFeature):
         return feature.variable.description
 
+    # Handle slices of direct features
+    if (isinstance(feature, ft.feature_base.FeatureOutputSlice) and
+            isinstance(feature.base_feature, ft.DirectFeature)):
+        base_feature, direct_description = get_direct_description(feature.base_feature)
+        direct_base = generate_description(base_feature[feature.n],
+                                           feature_descriptions,
+                                           primitive_templates)
+        return direct_base + direct_description
+
     # Handle direct features
     if isinstance(feature, ft.DirectFeature):
         base_feature, direct_description = get_direct_description(feature)
@@ -63,7 +72,8 @@ def generate_description(feature, feature_descriptions, primitive_templates):
 
     # Remove groupby description from input columns
     groupby_description = None
-    if isinstance(feature, ft.GroupByTransformFeature):
+    is_slice = isinstance(feature, ft.feature_base.FeatureOutputSlice)
+    if isinstance(feature.base_feature if is_slice else feature, ft.GroupByTransformFeature):
         groupby_description = input_descriptions.pop()
 
     # Generate primitive description
@@ -100,10 +110,19 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     # Generate where phrase
     where = ''
     if hasattr(feature, 'where') and feature.where:
-        where_col = generate_description(feature.where.base_features[0],
-                                         feature_descriptions,
-                                         primitive_templates)
-        where = 'where {} is {}'.format(where_col, feature.where.primitive.value)
+        if isinstance(feature.where.primitive, ft.primitives.EqualScalar):
+            where_col = generate_description(feature.where.base_features[0],
+                                             feature_descriptions,
+                                             primitive_templates)
+            where = 'where {} is {}'.format(where_col, feature.where.primitive.value)
+        else:
+            condition = generate_description(feature.where,
+                                             feature_descriptions,
+                                             primitive_templates)
+            if condition.startswith('whether '):
+                where = 'where ' + condition[len('whether '):]
+            else:
+                where = 'where {} is true'.format(condition)
 
     # Join all parts of template
     description_template = [primitive_description, entity_description, where, groupby]
-- 
2.43.0


From 53690175a04e6e4896bb4ec7a5d362166f62ba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 68/68] fix: empty approximations have a column for every
 output of a feature

---
 featuretools/computational_backends/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 9eba229..e0ac923 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -114,7 +114,8 @@ def gather_approximate_features(feature_set):
 
 
 def gen_empty_approx_features_df(approx_features):
-    df = pd.DataFrame(columns=[f.get_name() for f in approx_features])
+    df = pd.DataFrame(columns=[name for f in approx_features
+                               for name in f.get_feature_names()])
     df.index.name = approx_features[0].entity.index
     return df
 
-- 
2.43.0

