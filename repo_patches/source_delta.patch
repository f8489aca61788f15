From e9779a96a87a3b9e1695066a214d0c253168492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 01/29] fix: enforce foreign keys on every connection

Foreign key enforcement is a per-connection SQLite setting. It was only
enabled for newly created in-memory spaces, so dropping weight groups,
links or locations in a space opened with read_file() or bind_file()
(or cached to drive) left orphaned records behind.
---
 src/toron/dal1/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toron/dal1/schema.py b/src/toron/dal1/schema.py
index 8a6406f..d315f7a 100644
--- a/src/toron/dal1/schema.py
+++ b/src/toron/dal1/schema.py
@@ -818,6 +818,10 @@ def create_functions_and_temporary_triggers(
         create_toron_check_property_value(connection)
 
     with closing(connection.cursor()) as cur:
+        # Foreign key enforcement is a per-connection setting (it is not
+        # stored in the database) and must be enabled each time.
+        cur.execute('PRAGMA foreign_keys = ON')
+
         create_triggers_selectors(cur)
         create_triggers_attributes(cur)
         create_triggers_user_properties(cur)
-- 
2.43.0


From 9e5cebf928b1ef130c6dcf948000bebd3ff1aece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 02/29] fix: do not treat an unchanged index record as
 conflicting with itself

Calling update_index() with a row whose labels were unchanged raised a
conflict error or, with merge_on_conflict=True, merged the record into
itself and then deleted it.
---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index e0a8d3f..f419eed 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -938,7 +938,7 @@ class DataSpace(object):
 
                 # Check for matching record, raise error or merge if exists.
                 matching = next(index_repo.filter_by_label(label_dict), None)
-                if matching:
+                if matching and matching.id != index_record.id:
                     if not merge_on_conflict:
                         raise ValueError(
                             f"cannot update index_id {index_record.id}, new labels "
-- 
2.43.0


From e1f91a8a7e75ec9f9db54e714c677f17069a1ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 03/29] fix: handle spaces that have no default weight group

Dropping a weight group failed with a KeyError when no default was
defined, and clearing the default with set_default_weight_group(None)
made get_default_weight_group() fail with a TypeError.
---
 src/toron/data_service.py | 3 +++
 src/toron/space.py        | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index c73b532..0cb1102 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -638,6 +638,9 @@ def get_default_weight_group(
     except KeyError:
         raise RuntimeError('no default weight group is defined')
 
+    if weight_group_id is None:  # <- Default was set to None.
+        raise RuntimeError('no default weight group is defined')
+
     if not isinstance(weight_group_id, int):
         raise TypeError(
             f"'default_weight_group_id' property must be int, got "
diff --git a/src/toron/space.py b/src/toron/space.py
index f419eed..2e040f4 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1209,7 +1209,12 @@ class DataSpace(object):
             group_repo.delete_and_cascade(group.id)
             applogger.info(f'removed weight group {existing_name!r}')
 
-            if group.id == property_repo.get('default_weight_group_id'):
+            try:
+                default_group_id = property_repo.get('default_weight_group_id')
+            except KeyError:
+                default_group_id = None
+
+            if group.id == default_group_id:
                 property_repo.delete('default_weight_group_id')
                 applogger.warning(f'default weight group was removed')
 
-- 
2.43.0


From 4b590ac8eb1f7b9f948839e2c4bd0a5ef6d37473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 04/29] fix: accept unquoted identifiers as selector values

The selector grammar allows values such as [attr=val] but the
transformer dropped the value which made parsing fail.
---
 src/toron/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 7ffd8a9..5d84773 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -500,6 +500,8 @@ class SelectorTransformer(Transformer):
         if s.startswith("'") and s.endswith("'"):
             return s[1:-1].replace("\\'", "'")
 
+        return s  # <- Unquoted identifier.
+
     def ignore_case(self, args):
         return True
 
-- 
2.43.0


From b47155b09713784af85d024f6ae8c5e54e89b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 05/29] fix: keep label display order in step with renamed and
 dropped labels

After change_label_order(), renaming or dropping a label column left
the old name in the saved display order so get_label_columns() listed
labels that no longer existed.
---
 src/toron/dal1/label_manager.py |  2 ++
 src/toron/data_service.py       | 28 ++++++++++++++++++++++++++++
 src/toron/space.py              |  8 ++++++++
 3 files changed, 38 insertions(+)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index bb2cc37..9720702 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -125,6 +125,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
     from toron.data_service import validate_new_index_columns
     from toron.data_service import rename_partition_definitions
+    from toron.data_service import rename_labels_in_display_order
 
     with node._managed_cursor() as cursor:
         if cursor.connection.in_transaction:
@@ -210,6 +211,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
             # Rename partition definitions to match new column names.
             rename_partition_definitions(mapping, label_manager, property_repo)
+            rename_labels_in_display_order(mapping, property_repo)
 
             cursor.execute('COMMIT TRANSACTION')
 
diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 0cb1102..e0ae89a 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -713,6 +713,34 @@ def rename_partition_definitions(
     property_repo.update('partition_definitions', definition_lists)
 
 
+def rename_labels_in_display_order(
+    mapping: Dict[str, str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Apply renamed labels to the saved display order (if any)."""
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT!
+
+    renamed_order = [mapping.get(x, x) for x in display_order]
+    property_repo.update('label_display_order', renamed_order)
+
+
+def remove_labels_from_display_order(
+    labels: Collection[str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Remove dropped labels from the saved display order (if any)."""
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT!
+
+    remaining_labels = [x for x in display_order if x not in labels]
+    property_repo.update('label_display_order', remaining_labels)
+
+
 def calculate_granularity(
     columns: List[str],
     index_repo: BaseIndexRepository,
diff --git a/src/toron/space.py b/src/toron/space.py
index 2e040f4..58bcd80 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -61,6 +61,8 @@ from .data_service import (
     find_matching_weight_groups,
     get_all_partition_definitions,
     rename_partition_definitions,
+    rename_labels_in_display_order,
+    remove_labels_from_display_order,
     rebuild_structure_table,
     refresh_or_rebuild_structure_granularity,
     add_partition_definitions,
@@ -444,6 +446,7 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order({old_label: new_label}, property_repo)
 
     @property
     def index_columns(self) -> List[str]:
@@ -549,6 +552,7 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order(mapping, property_repo)
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
         with self._managed_transaction() as cursor:
@@ -571,6 +575,10 @@ class DataSpace(object):
                 raise RuntimeError(msg)
 
             label_manager.drop_columns(column, *columns)
+            remove_labels_from_display_order(
+                labels={column, *columns},
+                property_repo=self._dal.PropertyRepository(cursor),
+            )
 
     def insert_index(
         self,
-- 
2.43.0


From 9484062b58eceda17ad7ce2d2aadb4807221189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 06/29] fix: update partitions and mapping levels when dropping
 label columns

Dropping a label column left the dropped name in the partition
definitions, left stale structure records, left mapping levels whose
flags no longer lined up with the columns, and could fail because the
stale structure records collided.
---
 src/toron/space.py | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 58bcd80..da91408 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -555,8 +555,12 @@ class DataSpace(object):
             rename_labels_in_display_order(mapping, property_repo)
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
-        with self._managed_transaction() as cursor:
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
             label_manager = self._dal.LabelManager(cursor)
+            property_repo = self._dal.PropertyRepository(cursor)
+            structure_repo = self._dal.StructureRepository(cursor)
+            mapping_repo = self._dal.MappingRepository(cursor)
 
             all_reserved_identifiers = \
                 self._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
@@ -574,10 +578,39 @@ class DataSpace(object):
                 )
                 raise RuntimeError(msg)
 
+            # Delete existing structure (rebuilt below, after dropping columns).
+            for structure in structure_repo.get_all():
+                structure_repo.delete(structure.id)
+
+            labels_to_drop = {column, *columns}
+            kept_bits = [x not in labels_to_drop for x in label_manager.get_columns()]
+
             label_manager.drop_columns(column, *columns)
-            remove_labels_from_display_order(
-                labels={column, *columns},
-                property_repo=self._dal.PropertyRepository(cursor),
+            remove_labels_from_display_order(labels_to_drop, property_repo)
+
+            # Remove the dropped labels from the partition definitions.
+            whole_space = set(label_manager.get_columns())
+            definitions = [
+                x - labels_to_drop for x in get_all_partition_definitions(property_repo)
+            ]
+            definition_sets = find_minimal_partition_generating_set(definitions, [whole_space])
+            definition_lists: JsonTypes = [list(x) for x in definition_sets]
+            property_repo.add_or_update('partition_definitions', definition_lists)
+
+            # Remove the dropped labels from the mapping levels.
+            for link in self._dal.LinkRepository(cursor).get_all():
+                for mapping in list(mapping_repo.find(link_id=link.id)):
+                    level_bits = compress(BitFlags(mapping.mapping_level), kept_bits)
+                    mapping_level = bytes(BitFlags(list(level_bits)))
+                    mapping_repo.update(replace(mapping, mapping_level=mapping_level))
+
+            rebuild_structure_table(
+                label_manager=label_manager,
+                property_repo=property_repo,
+                structure_repo=structure_repo,
+                index_repo=self._dal.IndexRepository(cursor),
+                aux_index_repo=self._dal.IndexRepository(aux_cursor),
+                optimizations=self._dal.optimizations,
             )
 
     def insert_index(
-- 
2.43.0


From 72496c9359eacc7ed5766bc5f397870e18626a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 07/29] fix: quote label column names when updating index and
 location records

Updating labels failed with a syntax error when a label column name was
not a plain SQL identifier (e.g. contained a space or was a keyword).
---
 src/toron/dal1/repositories.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index 285ba56..d309795 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -68,7 +68,9 @@ class IndexRepository(BaseIndexRepository):
     def update(self, record: Index) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_index')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(
+            format_identifier(row[1]) for row in self._cursor.fetchall()[1:]
+        )
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_index
@@ -226,7 +228,9 @@ class LocationRepository(BaseLocationRepository):
     def update(self, record: Location) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_location')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(
+            format_identifier(row[1]) for row in self._cursor.fetchall()[1:]
+        )
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_location
-- 
2.43.0


From a3a4d364200a33bb4613530fcf25ece253b18387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 08/29] fix: refresh granularity when insert_index() replaces
 labels

Labels replaced with on_label_conflict='replace' left the stored
partition granularity out of date. Also report the correct value when
on_label_conflict is invalid.
---
 src/toron/space.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index da91408..674f340 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -722,7 +722,7 @@ class DataSpace(object):
                         else:
                             raise ValueError(
                                 f"on_label_conflict must be 'abort', 'ignore', or "
-                                f"'replace'; got {on_weight_conflict!r}"
+                                f"'replace'; got {on_label_conflict!r}"
                             )
                 else:
                     try:
@@ -777,23 +777,22 @@ class DataSpace(object):
                         )
                         counter['weight_inserted'] += 1
 
-            if counter['label_inserted']:
-                prop_repo = self._dal.PropertyRepository(cursor)
-
-                refresh_index_hash_property(
-                    index_repo=index_repo,
-                    prop_repo=prop_repo,
-                )
-
+            if counter['label_inserted'] or counter['label_replaced']:
                 refresh_or_rebuild_structure_granularity(
                     label_manager=self._dal.LabelManager(cursor),
-                    property_repo=prop_repo,
+                    property_repo=self._dal.PropertyRepository(cursor),
                     structure_repo=self._dal.StructureRepository(cursor),
                     index_repo=index_repo,
                     aux_index_repo=self._dal.IndexRepository(aux_cursor),
                     optimizations=self._dal.optimizations,
                 )
 
+            if counter['label_inserted']:
+                refresh_index_hash_property(
+                    index_repo=index_repo,
+                    prop_repo=self._dal.PropertyRepository(cursor),
+                )
+
                 # Existing links will not include newly inserted indexes.
                 link_repo = self._dal.LinkRepository(cursor)
                 for link in link_repo.get_all():
-- 
2.43.0


From 2f06abc1249390c0ddca2a3b521ca1ec63f32a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 09/29] fix: make reify_mappings() and
 delete_unmatched_quantities() atomic

A failure part way through (e.g. two mappings that collide once they are
reified) left some of the records changed.
---
 src/toron/space.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 674f340..42c4f96 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2287,7 +2287,8 @@ class DataSpace(object):
             associated the given index labels for reification.
         """
         counter: Counter = Counter()
-        with self._managed_cursor(n=2) as (cursor, aux_cursor):
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
             index_repo = self._dal.IndexRepository(cursor)
             link_repo = self._dal.LinkRepository(cursor)
 
@@ -2775,7 +2776,8 @@ class DataSpace(object):
 
     def delete_unmatched_quantities(self) -> None:
         """Delete quantities without matching index or structure."""
-        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4):
+        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4), \
+                self._managed_transaction(cur1):
             # These repositories can share a single cursor.
             location_repo = self._dal.LocationRepository(cur1)
             structure_repo = self._dal.StructureRepository(cur1)
-- 
2.43.0


From d7b92f5c38aec3f05eee3b2ba334fa63ab955531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 10/29] fix: ignore stale links when matching link selectors in
 translation

---
 src/toron/graph.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/toron/graph.py b/src/toron/graph.py
index 96e20c3..cfd5ccf 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -658,7 +658,14 @@ def _translate(
             raise RuntimeError(msg)
 
         # Build dict of index id values and attribute selector objects.
-        links = [x for x in links if x.is_locally_complete and x.selectors]
+        # (Stale links, whose mappings don't match the incoming index, are
+        # excluded because they could silently discard quantities.)
+        links = [
+            x for x in links
+            if x.is_locally_complete
+            and x.selectors
+            and x.other_index_hash == quantity_iterator.index_hash
+        ]
         func = lambda selectors: [parse_selector(s) for s in selectors]
         selector_dict = {x.id: func(x.selectors) for x in links}
 
-- 
2.43.0


From 2dd9f9602ee628b774459aba6f6009efeffdfe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 11/29] fix: prefer defined records when disaggregating at the
 finest granularity

---
 src/toron/space.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 42c4f96..5de5b2d 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2865,10 +2865,14 @@ class DataSpace(object):
                         criteria = {k: v for k, v in zipped if v != ''}
 
                         # Since we're at the finest granularity, there can
-                        # only be one matching index record.
-                        try:
-                            index_id = next(index_repo.filter_index_ids_by_label(criteria))
-                        except StopIteration:
+                        # only be one matching index record (not counting
+                        # the undefined record, id 0, which is used when
+                        # there is no other match).
+                        index_id = max(
+                            index_repo.filter_index_ids_by_label(criteria),
+                            default=None,
+                        )
+                        if index_id is None:
                             items = (f'{k}={v!r}' for k, v in criteria.items())
                             msg = f"no index matching: {', '.join(items)}\n  {location}"
                             raise RuntimeError(msg)
-- 
2.43.0


From 2f795978acff99fe81fc11dbb0d9897bb6637f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 12/29] fix: don't silently drop unmapped quantities when
 translating a reader

---
 src/toron/reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 22edf0e..44a7def 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -330,10 +330,15 @@ class NodeReader(object):
                             continue  # Skip to next record.
 
                         # All other quantities are translated using mappings.
-                        rels = mapping_repo.find(
+                        rels = list(mapping_repo.find(
                             link_id=link_id,
                             other_index_id=index_id,
-                        )
+                        ))
+                        if not rels:
+                            # Happens when the source node's index has
+                            # changed since the reader was created.
+                            msg = f'no mapping for source index record {index_id}'
+                            raise RuntimeError(msg)
 
                         items = ((rel.index_id, quant_value * rel.proportion)
                                  for rel in rels)
-- 
2.43.0


From d7a5251472666b586e2b98979e0b966364a4eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 13/29] fix: avoid transient level conflicts when dropping
 label columns

---
 src/toron/space.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 5de5b2d..fcf1d05 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -597,12 +597,23 @@ class DataSpace(object):
             definition_lists: JsonTypes = [list(x) for x in definition_sets]
             property_repo.add_or_update('partition_definitions', definition_lists)
 
-            # Remove the dropped labels from the mapping levels.
+            # Remove the dropped labels from the mapping levels (deletes all
+            # records before re-adding them so that new levels can't conflict
+            # with the levels of records that haven't been changed yet).
             for link in self._dal.LinkRepository(cursor).get_all():
-                for mapping in list(mapping_repo.find(link_id=link.id)):
+                mappings = list(mapping_repo.find(link_id=link.id))
+                for mapping in mappings:
+                    mapping_repo.delete(mapping.id)
+                for mapping in mappings:
                     level_bits = compress(BitFlags(mapping.mapping_level), kept_bits)
-                    mapping_level = bytes(BitFlags(list(level_bits)))
-                    mapping_repo.update(replace(mapping, mapping_level=mapping_level))
+                    mapping_repo.add(
+                        link_id=mapping.link_id,
+                        other_index_id=mapping.other_index_id,
+                        index_id=mapping.index_id,
+                        mapping_level=bytes(BitFlags(list(level_bits))),
+                        value=mapping.value,
+                        proportion=mapping.proportion,
+                    )
 
             rebuild_structure_table(
                 label_manager=label_manager,
-- 
2.43.0


From 1682c2c5ef4cca43bbeadab161d1af0eb5bef861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 14/29] fix: keep merged mapping proportions from exceeding 1.0
 by a rounding error

---
 src/toron/data_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toron/data_models.py b/src/toron/data_models.py
index 818775f..332063e 100644
--- a/src/toron/data_models.py
+++ b/src/toron/data_models.py
@@ -1203,7 +1203,9 @@ class BaseMappingRepository(ABC):
                 key = (rel.link_id, rel.other_index_id, rel.mapping_level)
                 v, p = mapping_sums[key]  # Unpack value and proportion.
                 try:
-                    proportion = p + rel.proportion
+                    # Limit to 1.0 (a sum of shares can exceed it by a
+                    # floating point rounding error).
+                    proportion = min(p + rel.proportion, 1.0)
                 except TypeError:
                     proportion = None
                 mapping_sums[key] = ((v + rel.value), proportion)
-- 
2.43.0


From c68c40b9c132fa5de8ef4ccf7f2477760776c61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 15/29] fix: count the undefined record as a match for
 quantities labelled as undefined

---
 src/toron/data_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index e0ae89a..cf894ec 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -179,7 +179,7 @@ def find_locations_without_index(
     label_names = location_repo.get_label_names()
     for location in location_repo.find_all():
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+        if next(aux_index_repo.filter_index_ids_by_label(criteria), None) is None:
             yield location
 
 
@@ -212,7 +212,7 @@ def find_nonmatching_locations(
             yield location
         else:
             criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-            if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+            if next(aux_index_repo.filter_index_ids_by_label(criteria), None) is None:
                 yield location
 
 
@@ -240,7 +240,7 @@ def count_nonmatching_locations(
         nonmatching_structure = BitFlags(location.labels) not in all_structure_bits
 
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        nonmatching_index = not any(aux_index_repo.filter_index_ids_by_label(criteria))
+        nonmatching_index = next(aux_index_repo.filter_index_ids_by_label(criteria), None) is None
 
         if nonmatching_structure and nonmatching_index:
             counter['structure_and_index'] += 1
-- 
2.43.0


From f49c414cce2f341bdd9eb010e01e52dee9bc4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:44 +0000
Subject: [PATCH 16/29] fix: don't reinitialize a nested selector as its own
 item

---
 src/toron/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 5d84773..262b302 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -65,6 +65,8 @@ class SelectorContainer(SelectorBase):
         self, selector_list: List[Union['SelectorContainer', 'SimpleSelector']]
     ) -> None:
         """Initialize class instance."""
+        if len(selector_list) == 1 and selector_list[0] is self:
+            return  # Already initialized (single item returned by __new__()).
         self.selector_list = selector_list
 
     def __contains__(self, item) -> bool:
-- 
2.43.0


From 6c4cba022bca1b2d0a62d914af2938c9a6fe8e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:08 +0000
Subject: [PATCH 17/29] fix: print selector values with a backslash before a
 double quote so they parse again

---
 src/toron/selectors.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 262b302..40e8dfb 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -1,5 +1,6 @@
 """Handling for attribute selectors (using CSS-inspired syntax)."""
 
+import re
 from abc import ABC, abstractmethod
 from itertools import groupby
 from json import loads, JSONDecodeError
@@ -223,10 +224,13 @@ class SimpleSelector(SelectorBase):
         if not self._val:
             return f'[{self._attr}]'
 
-        value = self._val.replace(r'"', r'\"')
+        # Use double quotes unless the value has a double quote that already
+        # follows a backslash (which can only be written in single quotes).
+        quote = "'" if re.search(r'(?<!\\)(\\\\)*\\"', self._val) else '"'
+        value = self._val.replace(quote, f'\\{quote}')
         if self._ignore_case:
-            return f'[{self._attr}{self._op}"{value}" i]'
-        return f'[{self._attr}{self._op}"{value}"]'
+            return f'[{self._attr}{self._op}{quote}{value}{quote} i]'
+        return f'[{self._attr}{self._op}{quote}{value}{quote}]'
 
     def __eq__(self, other) -> bool:
         """Check if self is equal to other."""
-- 
2.43.0


From 8c63e2ab68f5d91775f909227ac32bc8a6827e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:25 +0000
Subject: [PATCH 18/29] fix: allow a reader to be pivoted again after a pivot
 failed

---
 src/toron/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 44a7def..f11e6eb 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -421,6 +421,9 @@ def pivot_reader(
     with reader._managed_connection() as con:
         cur1 = con.cursor()
         cur2 = con.cursor()
+        # Remove table left over from a failed pivot (when an error occurs,
+        # its DROP TABLE statement gets rolled back).
+        cur1.execute('DROP TABLE IF EXISTS temp.pivot_temp')
         cur1.execute("""
             CREATE TEMPORARY TABLE pivot_temp (
                 attr_data_id INTEGER NOT NULL,
-- 
2.43.0


From ca0d2980b42ab7ce0bb2235c86d9c2d4375f56e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:39 +0000
Subject: [PATCH 19/29] fix: list unmatched quantities when no header row is
 requested

---
 src/toron/space.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index fcf1d05..381ec86 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2687,9 +2687,10 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            label_cols = location_repo.get_label_names()
+            attr_cols = attribute_repo.get_all_attribute_names()
+
             if header:
-                label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_locations_without_index(
@@ -2766,9 +2767,10 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            label_cols = location_repo.get_label_names()
+            attr_cols = attribute_repo.get_all_attribute_names()
+
             if header:
-                label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_nonmatching_locations(
-- 
2.43.0


From 717c9a70b4e7624c40a2aa51f3068e1fe8e0a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 20/29] fix: reject mapping values that are not numbers

A mapping row whose value was text or blank was loaded as if its value
were zero, and a negative value was refused only after the link had
been added.
---
 src/toron/mapper.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/toron/mapper.py b/src/toron/mapper.py
index ed04962..5f50143 100644
--- a/src/toron/mapper.py
+++ b/src/toron/mapper.py
@@ -108,7 +108,10 @@ class Mapper(object):
                     node2_index_id INTEGER,
                     node2_location TEXT NOT NULL,
                     node2_level BLOB NOT NULL,
-                    mapping_value REAL CHECK (0.0 <= mapping_value)
+                    mapping_value REAL CHECK (
+                        TYPEOF(mapping_value) IN ('real', 'integer', 'null')
+                        AND 0.0 <= mapping_value
+                    )
                 );
                 CREATE TABLE node1_matches(
                     run_id INTEGER NOT NULL REFERENCES mapping_source(run_id),
@@ -476,7 +479,10 @@ class Mapper_OLD(object):
                     left_level BLOB_BITFLAGS NOT NULL,
                     right_location TEXT NOT NULL,
                     right_level BLOB_BITFLAGS NOT NULL,
-                    mapping_value REAL NOT NULL
+                    mapping_value REAL NOT NULL CHECK (
+                        TYPEOF(mapping_value) IN ('real', 'integer')
+                        AND 0.0 <= mapping_value
+                    )
                 );
                 CREATE TABLE left_matches(
                     run_id INTEGER NOT NULL REFERENCES mapping_data(run_id),
-- 
2.43.0


From c46e8f655dd2be8beb32080417bd6d5e6c94e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 21/29] fix: do not match rows that list unmatched records

An exported mapping lists unmatched records with a blank value and a
blank other side. When loaded with a large match limit, such a row was
matched to every record of the other side.
---
 src/toron/mapper.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/toron/mapper.py b/src/toron/mapper.py
index 5f50143..f1c40b0 100644
--- a/src/toron/mapper.py
+++ b/src/toron/mapper.py
@@ -138,6 +138,13 @@ class Mapper(object):
                 node1_index_id, node1_location, node1_bitflags, \
                 node2_index_id, node2_location, node2_bitflags, mapping_value = row
 
+                # Skip rows that list an unmatched record (these have no
+                # mapping value and nothing to match on the other side).
+                if mapping_value is None or mapping_value == '':
+                    if ((node1_index_id in (None, '') and not any(node1_location))
+                            or (node2_index_id in (None, '') and not any(node2_location))):
+                        continue
+
                 node1_level = bytes(node1_bitflags)
                 node2_level = bytes(node2_bitflags)
 
-- 
2.43.0


From 93f12842ba103e46300689c22d7bcb18d47f5ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:31 +0000
Subject: [PATCH 22/29] fix: count only rows matched on both sides when judging
 completeness

A row that matched on one side only has no mapping, but its records
were counted as matched and an incomplete mapping could be loaded
without --allow-incomplete.
---
 src/toron/mapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/toron/mapper.py b/src/toron/mapper.py
index f1c40b0..cd3f9ca 100644
--- a/src/toron/mapper.py
+++ b/src/toron/mapper.py
@@ -377,7 +377,9 @@ class Mapper(object):
             )
 
     def is_fully_matched(self) -> bool:
-        """Return True if all index_id records are matched."""
+        """Return True if all index_id records are matched (counting
+        only rows that are matched on both sides).
+        """
         with self.node1._managed_cursor() as node1_cur:
             index_repo = self.node1._dal.IndexRepository(node1_cur)
             node1_cardinality = index_repo.get_cardinality(include_undefined=False)
@@ -391,6 +393,7 @@ class Mapper(object):
                 SELECT COUNT(DISTINCT index_id)
                 FROM node1_matches
                 WHERE index_id != 0
+                    AND run_id IN (SELECT run_id FROM node2_matches)
             """)
             node1_match_count = cur.fetchone()[0]
 
@@ -398,6 +401,7 @@ class Mapper(object):
                 SELECT COUNT(DISTINCT index_id)
                 FROM node2_matches
                 WHERE index_id != 0
+                    AND run_id IN (SELECT run_id FROM node1_matches)
             """)
             node2_match_count = cur.fetchone()[0]
 
-- 
2.43.0


From 0d623a13f9a386015056e6d1adfa70c147449f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:44 +0000
Subject: [PATCH 23/29] fix: name every ambiguous field of spaces with more
 than eight columns

The ambiguity note of a mapping listing left out the fields whose bits
were trimmed from the stored mapping level.
---
 src/toron/cli/command_mapping.py | 7 ++++---
 src/toron/graph.py               | 8 +++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index 9442145..ec0e9be 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -8,8 +8,8 @@ from collections import Counter
 from contextlib import suppress
 from itertools import (
     chain,
-    compress,
     islice,
+    repeat,
 )
 from .._typing import (
     Callable,
@@ -464,8 +464,9 @@ def get_ambiguous_field_text(
     """
     if mapping_level is None:
         return None
-    inverted_level = [(not bit) for bit in BitFlags(mapping_level)]
-    ambiguous_fields = compress(label_names, inverted_level)
+    # Trailing zeros are not stored, pad the level to match the names.
+    padded_level = chain(BitFlags(mapping_level), repeat(0))
+    ambiguous_fields = (x for x, bit in zip(label_names, padded_level) if not bit)
     return ', '.join(ambiguous_fields) or None
 
 
diff --git a/src/toron/graph.py b/src/toron/graph.py
index cfd5ccf..7e0b8d6 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -7,9 +7,10 @@ from json import (
     loads as _loads,
 )
 from itertools import (
-    compress,
+    chain,
     groupby,
     product,
+    repeat,
 )
 from ._typing import (
     Dict,
@@ -410,8 +411,9 @@ def _get_ambiguous_fields(
     """
     if mapping_level is None:
         return None
-    inverted_level = [(not bit) for bit in BitFlags(mapping_level)]
-    ambiguous_fields = compress(column_names, inverted_level)
+    # Trailing zeros are not stored, pad the level to match the names.
+    padded_level = chain(BitFlags(mapping_level), repeat(0))
+    ambiguous_fields = (x for x, bit in zip(column_names, padded_level) if not bit)
     return ', '.join(ambiguous_fields) or None
 
 
-- 
2.43.0


From f420d4186f538a0938e07dec2977a6611e55b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:03 +0000
Subject: [PATCH 24/29] fix: create a missing file in the current directory
 when binding with mode 'rwc'

---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 381ec86..32389b1 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -3131,7 +3131,7 @@ def bind_file(
         if mode != 'rwc':
             raise FileNotFoundError(f'path does not exist: {filepath!r}')
 
-        dir_path = os.path.dirname(filepath)
+        dir_path = os.path.dirname(os.path.abspath(filepath))
         if not os.access(dir_path, os.W_OK):
             raise PermissionError(
                 f"cannot bind to {filepath!r} in 'rwc' mode, process "
-- 
2.43.0


From 03da8b1abfa1e8d37e6c195fd30261a5035b2815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:43 +0000
Subject: [PATCH 25/29] fix: refuse to open a file of an unknown schema version

---
 src/toron/dal1/migrations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/toron/dal1/migrations.py b/src/toron/dal1/migrations.py
index f844da6..7d03b50 100644
--- a/src/toron/dal1/migrations.py
+++ b/src/toron/dal1/migrations.py
@@ -243,6 +243,12 @@ def apply_migrations(
     if toron_schema_version == '0.3.1' or toron_schema_version == '"0.3.1"':
         return  # <- EXIT!
 
+    # Refuse versions that have no migration (too old or too new).
+    if toron_schema_version not in {'0.2.0', '"0.2.0"', '0.3.0', '"0.3.0"'}:
+        raise RuntimeError(
+            f'unsupported node schema version: {toron_schema_version}'
+        )
+
     if mode == 'ro':
         raise Exception(
             'Node schema version is out of date, unable to update when file '
-- 
2.43.0


From 0833325f8ebd66eb48bd95e574ae51660a1bdd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:53 +0000
Subject: [PATCH 26/29] fix: let the undefined record's zero weight be loaded
 from an exported index

---
 src/toron/space.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/toron/space.py b/src/toron/space.py
index 32389b1..983b6e2 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -759,6 +759,11 @@ class DataSpace(object):
                     else:
                         weight_value = float(weight_value)
 
+                    # The undefined record stores no weight, its implicit
+                    # value is 0 (and is exported as such).
+                    if index_id == 0 and weight_value == 0:
+                        continue  # Skip to next weight group.
+
                     try:
                         weight_record = weight_repo.get_by_weight_group_id_and_index_id(
                             weight_group_id=group.id, index_id=index_id
-- 
2.43.0


From 4c1c19319758a5504aa61f242168cfa81ba9e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 27/29] fix: read CSV data from stdin the same way it is
 written to stdout

---
 src/toron/cli/command_index.py    |  4 ++--
 src/toron/cli/command_mapping.py  |  4 ++--
 src/toron/cli/command_quantity.py |  4 ++--
 src/toron/cli/common.py           | 13 +++++++++++++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/toron/cli/command_index.py b/src/toron/cli/command_index.py
index 2d0ff6d..bd16c79 100644
--- a/src/toron/cli/command_index.py
+++ b/src/toron/cli/command_index.py
@@ -1,6 +1,5 @@
 """Implementation for "index" command."""
 import argparse
-import csv
 import logging
 import os
 import re
@@ -11,6 +10,7 @@ from .._typing import Iterator, List, TYPE_CHECKING
 from .common import (
     ExitCode,
     is_streamed,
+    csv_stdin_reader,
     csv_stdout_writer,
     cli_bind_file,
     process_backup_option,
@@ -28,7 +28,7 @@ applogger = logging.getLogger('app-toron')
 
 def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
     """Insert index records read from stdin stream."""
-    reader = csv.reader(args.stdin)
+    reader = csv_stdin_reader(args.stdin)
     sample_rows = list(islice(reader, 10))
     iterator: Iterator[List] = chain(sample_rows, reader)
 
diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index ec0e9be..e4c07f0 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -1,6 +1,5 @@
 """Implementation for "mapping" command."""
 import argparse
-import csv
 import logging
 import os
 import uuid
@@ -42,6 +41,7 @@ from .._utils import (
 from .common import (
     ExitCode,
     is_streamed,
+    csv_stdin_reader,
     csv_stdout_writer,
     index_code_to_id,
     index_id_to_code,
@@ -392,7 +392,7 @@ def read_from_stdin(
 
     # Normalize and load mapping data.
     data = normalize_mapping_data(
-        node1, node2, args.link, csv.reader(args.stdin)
+        node1, node2, args.link, csv_stdin_reader(args.stdin)
     )
     mapper = Mapper(node1, node2, data)
 
diff --git a/src/toron/cli/command_quantity.py b/src/toron/cli/command_quantity.py
index e9e9723..4f09fab 100644
--- a/src/toron/cli/command_quantity.py
+++ b/src/toron/cli/command_quantity.py
@@ -1,6 +1,5 @@
 """Implementation for "quantity" command."""
 import argparse
-import csv
 import logging
 import os
 from .._typing import TYPE_CHECKING
@@ -8,6 +7,7 @@ from .._typing import TYPE_CHECKING
 from .common import (
     ExitCode,
     is_streamed,
+    csv_stdin_reader,
     csv_stdout_writer,
     cli_bind_file,
     process_backup_option,
@@ -22,7 +22,7 @@ applogger = logging.getLogger('app-toron')
 
 def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
     """Load quantity records read from stdin stream."""
-    reader = csv.reader(args.stdin)
+    reader = csv_stdin_reader(args.stdin)
 
     try:
         node.insert_quantities2(
diff --git a/src/toron/cli/common.py b/src/toron/cli/common.py
index 3810729..24fd6d5 100644
--- a/src/toron/cli/common.py
+++ b/src/toron/cli/common.py
@@ -73,6 +73,19 @@ def csv_stdout_writer(
             pass
 
 
+def csv_stdin_reader(stdin: TextIO) -> '_csv._reader':
+    """Return a ``csv.reader()`` of stdin.
+
+    Text is read the same way that ``csv_stdout_writer()`` writes it.
+    """
+    if isinstance(stdin, io.TextIOWrapper):
+        stdin.reconfigure(
+            encoding='utf-8',
+            newline='',  # Disable universal newline translation.
+        )
+    return csv.reader(stdin)
+
+
 def cli_bind_file(
     filepath: str, *, mode: Literal['ro', 'rw', 'rwc']
 ) -> 'DataSpace':
-- 
2.43.0


From f74f969f61c48b8f57dcf4171fa59e55a5a16189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:26 +0000
Subject: [PATCH 28/29] fix: show info of a file holding attributes that are
 not registered

---
 src/toron/cli/command_info.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/toron/cli/command_info.py b/src/toron/cli/command_info.py
index 19cb78c..9221345 100644
--- a/src/toron/cli/command_info.py
+++ b/src/toron/cli/command_info.py
@@ -7,7 +7,6 @@ from shutil import get_terminal_size
 from .. import bind_file
 from ..data_service import (
     get_registered_attributes,
-    get_loaded_attributes,
     get_dataspace_info_text,
 )
 from .common import (
@@ -35,8 +34,7 @@ def write_to_stdout(args: argparse.Namespace) -> ExitCode:
             link_repo=node._dal.LinkRepository(cursor),
         )
         registered_attributes = get_registered_attributes(property_repo)
-        loaded_attributes = \
-            set(get_loaded_attributes(registered_attributes, attribute_repo))
+        loaded_attributes = set(attribute_repo.get_all_attribute_names())
 
     # Define short alias for style values (used in f-string).
     bright = args.stdout_style.bright
-- 
2.43.0


From 0230ae17010a9f005935171de4cdf7d78498d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:27 +0000
Subject: [PATCH 29/29] fix: name every ambiguous field of mappings in wide
 spaces

Bit flags drop trailing zero bytes, so for spaces with more than eight
label columns select_mappings() left out the trailing columns when
describing which fields of a mapping were ambiguous.
---
 src/toron/space.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 983b6e2..c4e6a2b 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -5,7 +5,7 @@ import os
 from collections import Counter, defaultdict
 from contextlib import contextmanager, nullcontext
 from dataclasses import replace
-from itertools import chain, compress, groupby
+from itertools import chain, compress, groupby, repeat
 from logging import getLogger
 from math import isnan, isinf
 from pprint import pformat
@@ -1790,8 +1790,9 @@ class DataSpace(object):
                         if rel.mapping_level:
                             # Build a description of any columns that were
                             # left unspecified in the original mapping.
-                            bit_flags = BitFlags(rel.mapping_level)
-                            inverted_bits = [(not bit) for bit in bit_flags]
+                            # Bit flags omit trailing zeros, pad to match columns.
+                            bit_flags = chain(BitFlags(rel.mapping_level), repeat(0))
+                            inverted_bits = ((not bit) for bit in bit_flags)
                             ambiguous_labels = compress(label_columns, inverted_bits)
                             ambiguous_desc = ', '.join(ambiguous_labels) or None
                         else:
-- 
2.43.0

