From 7e5849dbf44881143f9c0d9112c131753bc242d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 01/47] fix: enforce foreign keys on connections to loaded and
 bound files

SQLite's foreign_keys setting is per connection; it was only enabled while
creating a new schema. Spaces opened with read_file(), bind_file() or
cache_to_drive did not cascade deletions, so dropping a weight group or link
left orphan records that a new group or link (reusing the id) adopted.
---
 src/toron/dal1/schema.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toron/dal1/schema.py b/src/toron/dal1/schema.py
index 8a6406f..dcdf75f 100644
--- a/src/toron/dal1/schema.py
+++ b/src/toron/dal1/schema.py
@@ -818,6 +818,7 @@ def create_functions_and_temporary_triggers(
         create_toron_check_property_value(connection)
 
     with closing(connection.cursor()) as cur:
+        cur.execute('PRAGMA foreign_keys = ON')  # Not persisted, must set per connection.
         create_triggers_selectors(cur)
         create_triggers_attributes(cur)
         create_triggers_user_properties(cur)
-- 
2.43.0


From a96e919b7da705b843f08a9790c55cf75e3d3795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 02/47] fix: do not merge an index record with itself in
 update_index()

Updating a record to labels it already has matched the record itself, which
raised a conflict error or, with merge_on_conflict=True, deleted the record
that was being updated.
---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index e0a8d3f..f419eed 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -938,7 +938,7 @@ class DataSpace(object):
 
                 # Check for matching record, raise error or merge if exists.
                 matching = next(index_repo.filter_by_label(label_dict), None)
-                if matching:
+                if matching and matching.id != index_record.id:
                     if not merge_on_conflict:
                         raise ValueError(
                             f"cannot update index_id {index_record.id}, new labels "
-- 
2.43.0


From 1945d06badbbc35dd4d86f003991e2669924fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 03/47] fix: quote label column names when updating index and
 location records

Labels such as 'my col' or 'order' made update_index() fail with an SQL
syntax error.
---
 src/toron/dal1/repositories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index 285ba56..bf36547 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -68,7 +68,7 @@ class IndexRepository(BaseIndexRepository):
     def update(self, record: Index) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_index')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(format_identifier(row[1]) for row in self._cursor.fetchall()[1:])
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_index
@@ -226,7 +226,7 @@ class LocationRepository(BaseLocationRepository):
     def update(self, record: Location) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_location')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(format_identifier(row[1]) for row in self._cursor.fetchall()[1:])
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_location
-- 
2.43.0


From 960b0fe4d078401863250343be1c469520118fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 04/47] fix: let bind_file() create a file given by a bare
 relative name

os.path.dirname('my.toron') is an empty string, for which os.access() is
always False, so creating a file in the current directory was refused.
---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index f419eed..ccfe666 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -3067,7 +3067,7 @@ def bind_file(
         if mode != 'rwc':
             raise FileNotFoundError(f'path does not exist: {filepath!r}')
 
-        dir_path = os.path.dirname(filepath)
+        dir_path = os.path.dirname(os.path.abspath(filepath))
         if not os.access(dir_path, os.W_OK):
             raise PermissionError(
                 f"cannot bind to {filepath!r} in 'rwc' mode, process "
-- 
2.43.0


From 19545efdb8a26e0b67b9dceeb540d7bd4964f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 05/47] fix: refresh granularity after insert_index() replaces
 labels

A partition whose stored granularity was stale could still be taken for the
finest one, so a coarse quantity was assigned whole to a single index record
instead of being disaggregated.
---
 src/toron/space.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/toron/space.py b/src/toron/space.py
index ccfe666..5841ea9 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -759,6 +759,15 @@ class DataSpace(object):
                     if link.is_locally_complete:
                         link_repo.update(replace(link, is_locally_complete=False))
 
+            elif counter['label_replaced']:
+                refresh_structure_granularity(
+                    label_manager=self._dal.LabelManager(cursor),
+                    structure_repo=self._dal.StructureRepository(cursor),
+                    index_repo=index_repo,
+                    aux_index_repo=self._dal.IndexRepository(aux_cursor),
+                    optimizations=self._dal.optimizations,
+                )
+
             if counter['label_inserted'] or counter['weight_inserted']:
                 # Update `is_complete` status for all weight groups.
                 for group in weight_group_repo.get_all():
-- 
2.43.0


From 6de04fa096911d309e18217e6dfa3cf89e9507fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 06/47] fix: match no records when criteria name an unknown
 label

---
 src/toron/dal1/repositories.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index bf36547..56e8ced 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -36,6 +36,25 @@ from ..data_models import (
 )
 
 
+def execute_label_query(
+    cursor: sqlite3.Cursor, sql: str, parameters: Tuple[str, ...]
+) -> bool:
+    """Execute a query with predicates on label columns. Returns False
+    if the query uses a label name that doesn't exist.
+
+    The column names in *sql* must be qualified with a table name--if
+    an unqualified, double-quoted name matches no column, SQLite would
+    silently treat it as a string literal.
+    """
+    try:
+        cursor.execute(sql, parameters)
+    except sqlite3.OperationalError as err:
+        if str(err).startswith('no such column'):
+            return False
+        raise
+    return True
+
+
 class IndexRepository(BaseIndexRepository):
     def __init__(self, cursor: sqlite3.Cursor) -> None:
         """Initialize a new IndexRepository instance."""
@@ -149,7 +168,7 @@ class IndexRepository(BaseIndexRepository):
         If *criteria* is an empty dict, no filtering is applied and all
         Index objects are returned.
         """
-        where_predicates = [f'{format_identifier(k)}=?' for k in criteria.keys()]
+        where_predicates = [f'label_index.{format_identifier(k)}=?' for k in criteria.keys()]
         if not include_undefined:
             where_predicates.append('index_id != 0')
 
@@ -157,7 +176,8 @@ class IndexRepository(BaseIndexRepository):
         if where_predicates:
             sql = f"{sql} WHERE {' AND '.join(where_predicates)}"
 
-        self._cursor.execute(sql, tuple(criteria.values()))
+        if not execute_label_query(self._cursor, sql, tuple(criteria.values())):
+            return iter([])  # No records can match an unknown label.
         return (Index(*record) for record in self._cursor)
 
     def filter_index_ids_by_label(
@@ -171,7 +191,7 @@ class IndexRepository(BaseIndexRepository):
         If *criteria* is an empty dict, no filtering is applied and all
         'index_id' integers are returned.
         """
-        where_predicates = [f'{format_identifier(k)}=?' for k in criteria.keys()]
+        where_predicates = [f'label_index.{format_identifier(k)}=?' for k in criteria.keys()]
         if not include_undefined:
             where_predicates.append('index_id != 0')
 
@@ -179,7 +199,8 @@ class IndexRepository(BaseIndexRepository):
         if where_predicates:
             sql = f"{sql} WHERE {' AND '.join(where_predicates)}"
 
-        self._cursor.execute(sql, tuple(criteria.values()))
+        if not execute_label_query(self._cursor, sql, tuple(criteria.values())):
+            return iter([])  # No records can match an unknown label.
         return (record[0] for record in self._cursor)
 
     def get_cardinality(self, include_undefined: bool = True) -> int:
@@ -261,9 +282,10 @@ class LocationRepository(BaseLocationRepository):
             msg = 'find_by_label requires at least 1 criteria value, got 0'
             raise ValueError(msg)
 
-        qmarks = (f'{format_identifier(k)}=?' for k in criteria.keys())
+        qmarks = (f'label_location.{format_identifier(k)}=?' for k in criteria.keys())
         sql = f'SELECT * FROM main.label_location WHERE {" AND ".join(qmarks)}'
-        self._cursor.execute(sql, tuple(criteria.values()))
+        if not execute_label_query(self._cursor, sql, tuple(criteria.values())):
+            return iter([])  # No records can match an unknown label.
         return (Location(*record) for record in self._cursor)
 
     def find_by_structure(self, structure: Structure) -> Iterable[Location]:
-- 
2.43.0


From 73abeea677f2615e673ce3ac63c517c7bbe9cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 07/47] fix: let unmatched quantities be selected without a
 header row

---
 src/toron/space.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 5841ea9..f8756f0 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2639,9 +2639,10 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            label_cols = location_repo.get_label_names()
+            attr_cols = attribute_repo.get_all_attribute_names()
+
             if header:
-                label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_locations_without_index(
@@ -2718,9 +2719,10 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            label_cols = location_repo.get_label_names()
+            attr_cols = attribute_repo.get_all_attribute_names()
+
             if header:
-                label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_nonmatching_locations(
-- 
2.43.0


From 008567264c12b78fbefb05302042e2b123079238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 08/47] fix: run reify_mappings() and
 delete_unmatched_quantities() in a transaction

---
 src/toron/space.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index f8756f0..b18f891 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2251,7 +2251,8 @@ class DataSpace(object):
             associated the given index labels for reification.
         """
         counter: Counter = Counter()
-        with self._managed_cursor(n=2) as (cursor, aux_cursor):
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
             index_repo = self._dal.IndexRepository(cursor)
             link_repo = self._dal.LinkRepository(cursor)
 
@@ -2741,7 +2742,8 @@ class DataSpace(object):
 
     def delete_unmatched_quantities(self) -> None:
         """Delete quantities without matching index or structure."""
-        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4):
+        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4), \
+                self._managed_transaction(cur1):
             # These repositories can share a single cursor.
             location_repo = self._dal.LocationRepository(cur1)
             structure_repo = self._dal.StructureRepository(cur1)
-- 
2.43.0


From f21e912feab4c94a3d05548b9a7f8126b3ebc882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 09/47] fix: keep label display order in step with renamed and
 dropped columns

---
 src/toron/dal1/label_manager.py |  2 ++
 src/toron/data_service.py       | 20 +++++++++++++++++++-
 src/toron/space.py              |  3 +++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index bb2cc37..9720702 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -125,6 +125,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
     from toron.data_service import validate_new_index_columns
     from toron.data_service import rename_partition_definitions
+    from toron.data_service import rename_labels_in_display_order
 
     with node._managed_cursor() as cursor:
         if cursor.connection.in_transaction:
@@ -210,6 +211,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
             # Rename partition definitions to match new column names.
             rename_partition_definitions(mapping, label_manager, property_repo)
+            rename_labels_in_display_order(mapping, property_repo)
 
             cursor.execute('COMMIT TRANSACTION')
 
diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index c73b532..c68e9f7 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -1099,8 +1099,12 @@ def get_labels_in_display_order(
     except KeyError:
         display_order = []
 
-    # Get any unspecified labels in storage order.
     storage_order = index_repo.get_label_names()
+
+    # Ignore any labels that no longer exist.
+    display_order = [x for x in display_order if x in storage_order]
+
+    # Get any unspecified labels in storage order.
     unspecified_labels = [x for x in storage_order if x not in display_order]
 
     if unspecified_labels:
@@ -1108,6 +1112,20 @@ def get_labels_in_display_order(
     return display_order
 
 
+def rename_labels_in_display_order(
+    mapping: Dict[str, str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Rename labels in their specified display order (if any)."""
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT!
+
+    renamed: JsonTypes = [mapping.get(x, x) for x in display_order]
+    property_repo.update('label_display_order', renamed)
+
+
 def change_element_order(
     sequence: Sequence[str], element: str, *, offset: int
 ) -> List[str]:
diff --git a/src/toron/space.py b/src/toron/space.py
index b18f891..ff2231c 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -73,6 +73,7 @@ from .data_service import (
     get_registered_attributes,
     set_labels_in_display_order,
     get_labels_in_display_order,
+    rename_labels_in_display_order,
     change_element_order,
     get_dataspace_info_text,
 )
@@ -444,6 +445,7 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order({old_label: new_label}, property_repo)
 
     @property
     def index_columns(self) -> List[str]:
@@ -549,6 +551,7 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order(mapping, property_repo)
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
         with self._managed_transaction() as cursor:
-- 
2.43.0


From 8ff6a8a801815982852a479f34363c265cf3f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 10/47] fix: keep definitions, structure, and mapping levels
 valid when dropping columns

---
 src/toron/data_service.py | 30 ++++++++++++++++++++++++++++++
 src/toron/space.py        | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index c68e9f7..1394ede 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -2,6 +2,7 @@
 
 import logging
 from collections import Counter
+from dataclasses import replace
 from itertools import chain, compress, groupby
 from math import log2
 
@@ -924,6 +925,35 @@ def remove_partition_definition(
     property_repo.update('partition_definitions', definition_lists)
 
 
+def remove_dropped_columns_from_partition_definitions(
+    new_columns: Collection[str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Limit partition definitions to the remaining *new_columns*."""
+    definition_sets = find_minimal_partition_generating_set(
+        [x.intersection(new_columns) for x in get_all_partition_definitions(property_repo)],
+        [set(new_columns)],
+    )
+    definition_lists: JsonTypes = [list(pdef) for pdef in definition_sets]
+    property_repo.update('partition_definitions', definition_lists)
+
+
+def remove_dropped_columns_from_mapping_levels(
+    old_columns: Sequence[str],
+    new_columns: Sequence[str],
+    link_repo: BaseLinkRepository,
+    mapping_repo: BaseMappingRepository,
+) -> None:
+    """Remove the bits of dropped columns from all mapping levels."""
+    kept_bits = [(x in new_columns) for x in old_columns]
+    for link in link_repo.get_all():
+        for mapping in list(mapping_repo.find(link_id=link.id)):
+            bits = list(BitFlags(mapping.mapping_level))
+            mapping_level = bytes(BitFlags(compress(bits, kept_bits)))
+            if mapping.mapping_level != mapping_level:
+                mapping_repo.update(replace(mapping, mapping_level=mapping_level))
+
+
 def refresh_structure_granularity(
     label_manager: BaseLabelManager,
     structure_repo: BaseStructureRepository,
diff --git a/src/toron/space.py b/src/toron/space.py
index ff2231c..80d0b75 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -66,6 +66,8 @@ from .data_service import (
     add_partition_definitions,
     add_partition_definition,
     remove_partition_definition,
+    remove_dropped_columns_from_partition_definitions,
+    remove_dropped_columns_from_mapping_levels,
     refresh_structure_granularity,
     set_domain,
     get_domain,
@@ -554,8 +556,11 @@ class DataSpace(object):
             rename_labels_in_display_order(mapping, property_repo)
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
-        with self._managed_transaction() as cursor:
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
             label_manager = self._dal.LabelManager(cursor)
+            property_repo = self._dal.PropertyRepository(cursor)
+            structure_repo = self._dal.StructureRepository(cursor)
 
             all_reserved_identifiers = \
                 self._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
@@ -573,8 +578,37 @@ class DataSpace(object):
                 )
                 raise RuntimeError(msg)
 
+            old_columns = label_manager.get_columns()
+
+            # Remove structure (dropping a column can make records coincide).
+            for structure in structure_repo.get_all():
+                structure_repo.delete(structure.id)
+
             label_manager.drop_columns(column, *columns)
 
+            new_columns = label_manager.get_columns()
+            remove_dropped_columns_from_mapping_levels(
+                old_columns=old_columns,
+                new_columns=new_columns,
+                link_repo=self._dal.LinkRepository(cursor),
+                mapping_repo=self._dal.MappingRepository(cursor),
+            )
+
+            # Remove dropped columns from definitions and rebuild structure.
+            if get_all_partition_definitions(property_repo):
+                remove_dropped_columns_from_partition_definitions(
+                    new_columns=new_columns,
+                    property_repo=property_repo,
+                )
+                rebuild_structure_table(
+                    label_manager=label_manager,
+                    property_repo=property_repo,
+                    structure_repo=structure_repo,
+                    index_repo=self._dal.IndexRepository(cursor),
+                    aux_index_repo=self._dal.IndexRepository(aux_cursor),
+                    optimizations=self._dal.optimizations,
+                )
+
     def insert_index(
         self,
         data: Union[Iterable[Sequence], Iterable[Dict]],
-- 
2.43.0


From 3e1f264857a0145ffebe64e5a7f4c3da20707971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 11/47] fix: do not reuse index ids after legacy renaming or
 dropping of labels

---
 src/toron/dal1/label_manager.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index 9720702..dc08ee2 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -111,6 +111,20 @@ class LabelManager(BaseLabelManager):
         schema.create_schema_constraints(self._cursor)
 
 
+def _get_last_index_id(cursor: sqlite3.Cursor) -> int:
+    """Get the largest index_id that has ever been used."""
+    cursor.execute("SELECT seq FROM main.sqlite_sequence WHERE name='label_index'")
+    return cursor.fetchone()[0]
+
+
+def _set_last_index_id(cursor: sqlite3.Cursor, index_id: int) -> None:
+    """Set the AUTOINCREMENT counter so index_id values aren't reused."""
+    cursor.execute(
+        "UPDATE main.sqlite_sequence SET seq=? WHERE name='label_index'",
+        (index_id,),
+    )
+
+
 def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
     """Rename label columns (for legacy SQLite versions).
 
@@ -175,8 +189,10 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
             cursor.execute(
                 'INSERT INTO main.new_label_index SELECT * FROM main.label_index'
             )
+            last_index_id = _get_last_index_id(cursor)
             cursor.execute('DROP TABLE main.label_index')
             cursor.execute('ALTER TABLE main.new_label_index RENAME TO label_index')
+            _set_last_index_id(cursor, last_index_id)
 
             # Rebuild 'label_location' table with new column names.
             cursor.execute(f"""
@@ -286,8 +302,10 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
                 SELECT index_id, {', '.join(formatted_columns_to_keep)}
                 FROM main.label_index
             """)
+            last_index_id = _get_last_index_id(cursor)
             cursor.execute('DROP TABLE main.label_index')
             cursor.execute('ALTER TABLE main.new_label_index RENAME TO label_index')
+            _set_last_index_id(cursor, last_index_id)
 
             # Rebuild 'label_location' table with columns_to_keep.
             cursor.execute(f"""
-- 
2.43.0


From 961fa0ab5163ec7eb1b0220da9879cf49fad460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 12/47] fix: keep definitions and mapping levels valid in
 legacy_drop_labels()

---
 src/toron/dal1/label_manager.py | 41 ++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index dc08ee2..f9c894b 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -252,7 +252,12 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
         msg = f"expected DataSpace with 'DAL1' backend, got {node._dal.backend!r}"
         raise TypeError(msg)
 
-    with node._managed_cursor() as cursor:
+    from toron.data_service import get_all_partition_definitions
+    from toron.data_service import rebuild_structure_table
+    from toron.data_service import remove_dropped_columns_from_mapping_levels
+    from toron.data_service import remove_dropped_columns_from_partition_definitions
+
+    with node._managed_cursor(n=2) as (cursor, aux_cursor):
         manager = LabelManager(cursor)
 
         if cursor.connection.in_transaction:
@@ -269,8 +274,9 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
                 raise ValueError(msg)
 
         # Get list of columns to keep (must preserve existing order).
+        old_columns = manager.get_columns()
         columns_to_keep = [
-            col for col in manager.get_columns() if col not in columns_to_delete
+            col for col in old_columns if col not in columns_to_delete
         ]
         if not columns_to_keep:
             msg = (
@@ -322,7 +328,8 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
             cursor.execute('DROP TABLE main.label_location')
             cursor.execute('ALTER TABLE main.new_location RENAME TO label_location')
 
-            # Rebuild 'label_structure' table with columns_to_keep.
+            # Rebuild 'label_structure' table with columns_to_keep (records are
+            # regenerated below).
             cursor.execute(f"""
                 CREATE TABLE main.new_structure(
                     _structure_id INTEGER PRIMARY KEY,
@@ -330,17 +337,35 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
                     {', '.join(schema.column_def_structure(x) for x in columns_to_keep)}
                 )
             """)
-            cursor.execute(f"""
-                INSERT INTO main.new_structure
-                SELECT _structure_id, _granularity, {', '.join(formatted_columns_to_keep)}
-                FROM main.label_structure
-            """)
             cursor.execute('DROP TABLE main.label_structure')
             cursor.execute('ALTER TABLE main.new_structure RENAME TO label_structure')
 
             # Check integrity, re-create constraints, and commit transaction.
             schema.verify_foreign_key_check(cursor)
             schema.create_schema_constraints(cursor)
+
+            # Remove dropped columns from mapping levels and definitions.
+            remove_dropped_columns_from_mapping_levels(
+                old_columns=old_columns,
+                new_columns=columns_to_keep,
+                link_repo=node._dal.LinkRepository(cursor),
+                mapping_repo=node._dal.MappingRepository(cursor),
+            )
+            property_repo = node._dal.PropertyRepository(cursor)
+            if get_all_partition_definitions(property_repo):
+                remove_dropped_columns_from_partition_definitions(
+                    new_columns=columns_to_keep,
+                    property_repo=property_repo,
+                )
+                rebuild_structure_table(
+                    label_manager=manager,
+                    property_repo=property_repo,
+                    structure_repo=node._dal.StructureRepository(cursor),
+                    index_repo=node._dal.IndexRepository(cursor),
+                    aux_index_repo=node._dal.IndexRepository(aux_cursor),
+                    optimizations=node._dal.optimizations,
+                )
+
             cursor.execute('COMMIT TRANSACTION')
 
         except Exception as err:
-- 
2.43.0


From 61d715264850162e9c8b6a58dc5523f5263a141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 13/47] fix: limit rounding error when merging mapping
 proportions

---
 src/toron/data_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/data_models.py b/src/toron/data_models.py
index 818775f..faf39a8 100644
--- a/src/toron/data_models.py
+++ b/src/toron/data_models.py
@@ -1203,7 +1203,7 @@ class BaseMappingRepository(ABC):
                 key = (rel.link_id, rel.other_index_id, rel.mapping_level)
                 v, p = mapping_sums[key]  # Unpack value and proportion.
                 try:
-                    proportion = p + rel.proportion
+                    proportion = min(p + rel.proportion, 1.0)  # <- Limit rounding error.
                 except TypeError:
                     proportion = None
                 mapping_sums[key] = ((v + rel.value), proportion)
-- 
2.43.0


From 5bb83a6a90ce10acced1c05b2f3619dec115e145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 14/47] fix: allow dropping a weight group when no default
 group is defined

---
 src/toron/space.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 80d0b75..78c117a 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1255,7 +1255,12 @@ class DataSpace(object):
             group_repo.delete_and_cascade(group.id)
             applogger.info(f'removed weight group {existing_name!r}')
 
-            if group.id == property_repo.get('default_weight_group_id'):
+            try:
+                default_id = property_repo.get('default_weight_group_id')
+            except KeyError:
+                default_id = None  # No default weight group is defined.
+
+            if group.id == default_id:
                 property_repo.delete('default_weight_group_id')
                 applogger.warning(f'default weight group was removed')
 
-- 
2.43.0


From a53f5ab818e3ad45ddf29b1c77e1ee822a939f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 15/47] fix: count quantities of the undefined record as
 matched

---
 src/toron/data_service.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 1394ede..7230b31 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -168,6 +168,15 @@ def delete_index_record(
     index_repo.delete(index_id)
 
 
+def _has_matching_index(
+    index_repo: BaseIndexRepository,
+    criteria: Dict[str, str],
+) -> bool:
+    """Return True if any record (even the undefined one) matches."""
+    index_ids = index_repo.filter_index_ids_by_label(criteria)
+    return next(iter(index_ids), None) is not None  # The id itself can be 0.
+
+
 def find_locations_without_index(
     location_repo: BaseLocationRepository,
     aux_index_repo: BaseIndexRepository,
@@ -180,7 +189,7 @@ def find_locations_without_index(
     label_names = location_repo.get_label_names()
     for location in location_repo.find_all():
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+        if not _has_matching_index(aux_index_repo, criteria):
             yield location
 
 
@@ -213,7 +222,7 @@ def find_nonmatching_locations(
             yield location
         else:
             criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-            if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+            if not _has_matching_index(aux_index_repo, criteria):
                 yield location
 
 
@@ -241,7 +250,7 @@ def count_nonmatching_locations(
         nonmatching_structure = BitFlags(location.labels) not in all_structure_bits
 
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        nonmatching_index = not any(aux_index_repo.filter_index_ids_by_label(criteria))
+        nonmatching_index = not _has_matching_index(aux_index_repo, criteria)
 
         if nonmatching_structure and nonmatching_index:
             counter['structure_and_index'] += 1
-- 
2.43.0


From 0af39badb0213be3a100ad80db786ee7c155a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:35 +0000
Subject: [PATCH 16/47] fix: accept unquoted identifiers as selector values

---
 src/toron/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 7ffd8a9..5d84773 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -500,6 +500,8 @@ class SelectorTransformer(Transformer):
         if s.startswith("'") and s.endswith("'"):
             return s[1:-1].replace("\\'", "'")
 
+        return s  # <- Unquoted identifier.
+
     def ignore_case(self, args):
         return True
 
-- 
2.43.0


From 00529f217b007ea737ee880f081aac88c84fb112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:13 +0000
Subject: [PATCH 17/47] fix: make selector text with backslashes and quotes
 round-trip

---
 src/toron/selectors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 5d84773..c235b38 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -1,5 +1,6 @@
 """Handling for attribute selectors (using CSS-inspired syntax)."""
 
+import re
 from abc import ABC, abstractmethod
 from itertools import groupby
 from json import loads, JSONDecodeError
@@ -221,7 +222,7 @@ class SimpleSelector(SelectorBase):
         if not self._val:
             return f'[{self._attr}]'
 
-        value = self._val.replace(r'"', r'\"')
+        value = re.sub(r'(["\\])', r'\\\1', self._val)
         if self._ignore_case:
             return f'[{self._attr}{self._op}"{value}" i]'
         return f'[{self._attr}{self._op}"{value}"]'
@@ -495,10 +496,10 @@ class SelectorTransformer(Transformer):
     def value(self, token):
         s = token.value
         if s.startswith('"') and s.endswith('"'):
-            return s[1:-1].replace('\\"', '"')
+            return re.sub(r'\\(["\\])', r'\1', s[1:-1])
 
         if s.startswith("'") and s.endswith("'"):
-            return s[1:-1].replace("\\'", "'")
+            return re.sub(r"\\(['\\])", r'\1', s[1:-1])
 
         return s  # <- Unquoted identifier.
 
-- 
2.43.0


From 755d5c11d0f354bf6dfb3998b0caee0e7a26fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:11 +0000
Subject: [PATCH 18/47] fix: keep nested :is() selectors from containing
 themselves

---
 src/toron/selectors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index c235b38..c362d42 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -66,6 +66,10 @@ class SelectorContainer(SelectorBase):
         self, selector_list: List[Union['SelectorContainer', 'SimpleSelector']]
     ) -> None:
         """Initialize class instance."""
+        # When __new__() unwraps a single-item list, it can return an
+        # already initialized instance that must not contain itself.
+        if len(selector_list) == 1 and selector_list[0] is self:
+            return
         self.selector_list = selector_list
 
     def __contains__(self, item) -> bool:
-- 
2.43.0


From a1693ffe5298e956afdd536b7d899b86bbd06949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:40 +0000
Subject: [PATCH 19/47] fix: prefer a defined record over the undefined one at
 the finest granularity

---
 src/toron/space.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 78c117a..392ceaf 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2873,10 +2873,12 @@ class DataSpace(object):
                         criteria = {k: v for k, v in zipped if v != ''}
 
                         # Since we're at the finest granularity, there can
-                        # only be one matching index record.
+                        # only be one matching index record (besides the
+                        # undefined record--index_id 0--which is only used
+                        # when there is no other match).
                         try:
-                            index_id = next(index_repo.filter_index_ids_by_label(criteria))
-                        except StopIteration:
+                            index_id = max(index_repo.filter_index_ids_by_label(criteria))
+                        except ValueError:
                             items = (f'{k}={v!r}' for k, v in criteria.items())
                             msg = f"no index matching: {', '.join(items)}\n  {location}"
                             raise RuntimeError(msg)
-- 
2.43.0


From 272a11bba266f2a27e6b4499dbc578d1ed2bcaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:16 +0000
Subject: [PATCH 20/47] fix: ignore out-of-date links when translating a
 QuantityIterator

---
 src/toron/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toron/graph.py b/src/toron/graph.py
index 96e20c3..b4826e4 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -657,7 +657,9 @@ def _translate(
             msg = f'no default link found for node {node}'
             raise RuntimeError(msg)
 
-        # Build dict of index id values and attribute selector objects.
+        # Build dict of index id values and attribute selector objects
+        # (only using links that are current and locally complete).
+        links = [x for x in links if x.other_index_hash == quantity_iterator.index_hash]
         links = [x for x in links if x.is_locally_complete and x.selectors]
         func = lambda selectors: [parse_selector(s) for s in selectors]
         selector_dict = {x.id: func(x.selectors) for x in links}
-- 
2.43.0


From 187738c8dd9e62dd07b309093bff4c6d41070bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:17 +0000
Subject: [PATCH 21/47] fix: make mapping matches independent of the order of
 the rows

---
 src/toron/mapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/toron/mapper.py b/src/toron/mapper.py
index ed04962..fbb2c00 100644
--- a/src/toron/mapper.py
+++ b/src/toron/mapper.py
@@ -576,7 +576,11 @@ class Mapper_OLD(object):
                 node_bytes = None
             levels.append((input_bytes, node_bytes))
 
-        # Sort levels from highest to lowest granularity.
+        # Sort levels from highest to lowest granularity. Levels of equal
+        # granularity use the order of the node's structure (so the result
+        # does not depend on the order of the input data).
+        positions = {k: i for i, k in enumerate(granularity_dict)}
+        levels = sorted(levels, key=lambda x: positions.get(x[1], -1))
         get_granularity = lambda x: granularity_dict.get(x[1], -1)
         levels = sorted(levels, key=get_granularity, reverse=True)
 
-- 
2.43.0


From 6659af5fe768fe345e430da0d1059f5cbebfa38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 22/47] fix: roll back when interrupted right after a
 transaction begins

---
 src/toron/space.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 392ceaf..550bbaa 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -239,13 +239,14 @@ class DataSpace(object):
                 msg = 'cannot start a transaction within a transaction'
                 raise Exception(msg)
 
-            self._connector.transaction_begin(cursor)
             try:
-                yield cursor
-                self._connector.transaction_commit(cursor)
-            except Exception:
-                self._connector.transaction_rollback(cursor)
-                raise
+                self._connector.transaction_begin(cursor)
+                try:
+                    yield cursor
+                    self._connector.transaction_commit(cursor)
+                except Exception:
+                    self._connector.transaction_rollback(cursor)
+                    raise
             finally:
                 # If the transaction never completed, roll it back.
                 if self._connector.transaction_is_active(cursor):
-- 
2.43.0


From c5fdd415600d02186a80f8ab86716411a5e55b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 23/47] fix: roll back legacy label changes when interrupted

---
 src/toron/dal1/label_manager.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index f9c894b..78dd96c 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -174,8 +174,8 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
                 raise ValueError(f'cannot create duplicate columns: {new_col}')
             new_columns.append(new_col)
 
-        cursor.execute('PRAGMA foreign_keys=OFF')  # <- Must be outside transaction.
         try:
+            cursor.execute('PRAGMA foreign_keys=OFF')  # <- Must be outside transaction.
             cursor.execute('BEGIN TRANSACTION')
             schema.drop_schema_constraints(cursor)
 
@@ -231,11 +231,10 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
 
             cursor.execute('COMMIT TRANSACTION')
 
-        except Exception as err:
-            cursor.execute('ROLLBACK TRANSACTION')
-            raise  # Re-raise exception.
-
         finally:
+            # If the transaction never completed, roll it back.
+            if cursor.connection.in_transaction:
+                cursor.execute('ROLLBACK TRANSACTION')
             cursor.execute('PRAGMA foreign_keys=ON')  # <- Must be outside transaction.
 
 
@@ -291,8 +290,8 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
             schema.format_identifier(x) for x in columns_to_keep
         ]
 
-        cursor.execute('PRAGMA foreign_keys=OFF')  # <- Must be outside transaction.
         try:
+            cursor.execute('PRAGMA foreign_keys=OFF')  # <- Must be outside transaction.
             cursor.execute('BEGIN TRANSACTION')
             schema.drop_schema_constraints(cursor)
 
@@ -368,9 +367,8 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
 
             cursor.execute('COMMIT TRANSACTION')
 
-        except Exception as err:
-            cursor.execute('ROLLBACK TRANSACTION')
-            raise  # Re-raise exception.
-
         finally:
+            # If the transaction never completed, roll it back.
+            if cursor.connection.in_transaction:
+                cursor.execute('ROLLBACK TRANSACTION')
             cursor.execute('PRAGMA foreign_keys=ON')  # <- Must be outside transaction.
-- 
2.43.0


From af971b513ba6da31cb4ab6b68d97e06f25cd90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:25 +0000
Subject: [PATCH 24/47] fix: refuse to save within an open transaction instead
 of waiting forever

---
 src/toron/dal1/data_connector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 9b47a4b..e9cfbee 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -414,6 +414,8 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                         try:
                             cur.execute('VACUUM main INTO ?', (tmp_path,))
                         except sqlite3.OperationalError:  # No "VACUUM INTO" before SQLite 3.27.0.
+                            if con.in_transaction:
+                                raise  # Cannot backup in a transaction (never finishes).
                             with closing(get_sqlite_connection(tmp_path)) as tmp_con:
                                 con.backup(tmp_con)
                         finally:
@@ -450,6 +452,8 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                     with closing(con.cursor()) as cur:
                         cur.execute('VACUUM main INTO ?', (tmp_path,))
                 except sqlite3.OperationalError:  # No `VACUUM INTO` before SQLite 3.27.0.
+                    if con.in_transaction:
+                        raise  # Cannot backup in a transaction (never finishes).
                     with closing(get_sqlite_connection(tmp_path)) as tmp_con:
                         con.backup(tmp_con)
                 finally:
-- 
2.43.0


From 4a6f724b19820a7343e9947a5384548591adbecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:47 +0000
Subject: [PATCH 25/47] fix: store properties in one statement so that a
 storage error is not swallowed

---
 src/toron/data_service.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 7230b31..bcf13c9 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -118,10 +118,7 @@ def refresh_index_hash_property(
         sequence_hash.add_value(index_id)
 
     index_hash = sequence_hash.get_hexdigest()
-    try:
-        prop_repo.add('index_hash', index_hash)
-    except Exception:
-        prop_repo.update('index_hash', index_hash)
+    prop_repo.add_or_update('index_hash', index_hash)
 
 
 def delete_index_record(
@@ -855,10 +852,7 @@ def add_partition_definitions(
         warnings.warn(msg, category=ToronWarning, stacklevel=2)
 
     definition_lists = cast(JsonTypes, [list(cat) for cat in definition_sets])
-    try:
-        property_repo.add('partition_definitions', definition_lists)
-    except Exception:
-        property_repo.update('partition_definitions', definition_lists)
+    property_repo.add_or_update('partition_definitions', definition_lists)
 
 
 def add_partition_definition(
-- 
2.43.0


From 73e5d51f9af8b1e553309b788b5a3a768e2b45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:58 +0000
Subject: [PATCH 26/47] fix: stop loading quantities when a storage error ends
 the transaction

---
 src/toron/space.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 550bbaa..65dd5be 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2447,7 +2447,11 @@ class DataSpace(object):
                     )
                     counter['inserted'] += 1
                 except Exception as err:  # <- Use `Exception` because different
-                    try:                  #    backends could raise different types.
+                                          #    backends could raise different types.
+                    if not self._connector.transaction_is_active(cur):
+                        raise  # The error ended the transaction (not a duplicate).
+
+                    try:
                         quantity = quantity_repo.get_by_location_id_and_attribute_group_id(
                             location_id=location.id,
                             attribute_group_id=attribute_group.id,
-- 
2.43.0


From ece61d3ade161dd9532a1a7c87f52c344f179800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:01 +0000
Subject: [PATCH 27/47] fix: remove all temporary files when saving fails, keep
 the original error

---
 src/toron/dal1/data_connector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index e9cfbee..dc576cd 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -462,8 +462,11 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                 os.chmod(tmp_path, save_permissions)  # Change to default permissions.
                 os.replace(tmp_path, dst_path)
 
-        except Exception:
-            os.unlink(tmp_path)  # Remove temporary file.
+        except BaseException:
+            # Remove temporary file and rollback journal (if any remain).
+            for leftover_path in (tmp_path, f'{tmp_path}-journal'):
+                if os.path.exists(leftover_path):
+                    os.unlink(leftover_path)
             raise  # Re-raise error.
 
     @classmethod
-- 
2.43.0


From a4e4e270a96ff576cc851e8fd050e4706b6bb607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:23 +0000
Subject: [PATCH 28/47] fix: read the columns within the transaction when
 changing labels on old SQLite

---
 src/toron/dal1/label_manager.py | 106 ++++++++++++++++----------------
 1 file changed, 54 insertions(+), 52 deletions(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index 78dd96c..76cefca 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -149,34 +149,35 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
         label_manager = LabelManager(cursor)
         property_repo = node._dal.PropertyRepository(cursor)
 
-        # Check new column names for conflicts.
-        validate_new_index_columns(
-            new_column_names=mapping.values(),
-            reserved_identifiers=node._dal.reserved_identifiers,
-            label_manager=label_manager,
-            property_repo=property_repo,
-            attribute_repo=node._dal.AttributeGroupRepository(cursor),
-        )
-
-        # Check old column names for conflicts.
-        all_reserved_identifiers = \
-            node._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
-        for col in mapping.keys():
-            if col in all_reserved_identifiers:
-                msg = f'cannot alter columns, {col!r} is a reserved identifier'
-                raise ValueError(msg)
-
-        # Build a list of new column names.
-        new_columns = []
-        for old_col in label_manager.get_columns():
-            new_col = mapping.get(old_col, old_col)  # Get new name or default to old.
-            if new_col in new_columns:
-                raise ValueError(f'cannot create duplicate columns: {new_col}')
-            new_columns.append(new_col)
-
         try:
             cursor.execute('PRAGMA foreign_keys=OFF')  # <- Must be outside transaction.
             cursor.execute('BEGIN TRANSACTION')
+
+            # Check new column names for conflicts.
+            validate_new_index_columns(
+                new_column_names=mapping.values(),
+                reserved_identifiers=node._dal.reserved_identifiers,
+                label_manager=label_manager,
+                property_repo=property_repo,
+                attribute_repo=node._dal.AttributeGroupRepository(cursor),
+            )
+
+            # Check old column names for conflicts.
+            all_reserved_identifiers = \
+                node._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
+            for col in mapping.keys():
+                if col in all_reserved_identifiers:
+                    msg = f'cannot alter columns, {col!r} is a reserved identifier'
+                    raise ValueError(msg)
+
+            # Build a list of new column names.
+            new_columns = []
+            for old_col in label_manager.get_columns():
+                new_col = mapping.get(old_col, old_col)  # Get new name or default to old.
+                if new_col in new_columns:
+                    raise ValueError(f'cannot create duplicate columns: {new_col}')
+                new_columns.append(new_col)
+
             schema.drop_schema_constraints(cursor)
 
             # Rebuild 'label_index' table with new column names.
@@ -263,36 +264,37 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
             msg = 'cannot delete columns inside an existing transaction'
             raise RuntimeError(msg)
 
-        columns_to_delete = tuple(chain([column], columns))
-
-        all_reserved_identifiers = \
-            node._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
-        for col in columns_to_delete:
-            if col in all_reserved_identifiers:
-                msg = f'cannot alter columns, {col!r} is a reserved identifier'
-                raise ValueError(msg)
-
-        # Get list of columns to keep (must preserve existing order).
-        old_columns = manager.get_columns()
-        columns_to_keep = [
-            col for col in old_columns if col not in columns_to_delete
-        ]
-        if not columns_to_keep:
-            msg = (
-                'cannot delete all columns\n'
-                '\n'
-                'Without at least one index column, a node cannot represent '
-                'any weights, quantities, or mappings it might contain.'
-            )
-            raise RuntimeError(msg)
-
-        formatted_columns_to_keep = [
-            schema.format_identifier(x) for x in columns_to_keep
-        ]
-
         try:
             cursor.execute('PRAGMA foreign_keys=OFF')  # <- Must be outside transaction.
             cursor.execute('BEGIN TRANSACTION')
+
+            columns_to_delete = tuple(chain([column], columns))
+
+            all_reserved_identifiers = \
+                node._dal.reserved_identifiers.union(COMMON_RESERVED_IDENTIFIERS)
+            for col in columns_to_delete:
+                if col in all_reserved_identifiers:
+                    msg = f'cannot alter columns, {col!r} is a reserved identifier'
+                    raise ValueError(msg)
+
+            # Get list of columns to keep (must preserve existing order).
+            old_columns = manager.get_columns()
+            columns_to_keep = [
+                col for col in old_columns if col not in columns_to_delete
+            ]
+            if not columns_to_keep:
+                msg = (
+                    'cannot delete all columns\n'
+                    '\n'
+                    'Without at least one index column, a node cannot represent '
+                    'any weights, quantities, or mappings it might contain.'
+                )
+                raise RuntimeError(msg)
+
+            formatted_columns_to_keep = [
+                schema.format_identifier(x) for x in columns_to_keep
+            ]
+
             schema.drop_schema_constraints(cursor)
 
             # Rebuild 'label_index' table with columns_to_keep.
-- 
2.43.0


From 1aefc0d132e88c7bb29ba7671054dfe17031175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:45 +0000
Subject: [PATCH 29/47] fix: release readers and their temporary files when
 they are no longer used

---
 src/toron/reader.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 22edf0e..bf76bcc 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -53,6 +53,7 @@ class NodeReader(object):
     _in_memory_connection: Optional[sqlite3.Connection]
     _index_columns: List[str]
     _attr_keys: List[str]
+    _started: 'weakref.WeakSet[Generator]'
     close: weakref.finalize
 
     def __init__(
@@ -138,7 +139,12 @@ class NodeReader(object):
         self._attr_keys = sorted(attr_keys)
 
         # Assign `close()` method (gets a callable finalizer object).
-        self.close = weakref.finalize(self, self._finalizer)
+        # The finalizer must not hold a reference to `self` (this would keep
+        # the reader and its data alive until the interpreter exits).
+        self._started = weakref.WeakSet()
+        self.close = weakref.finalize(
+            self, self._finalizer, self._started, connection, filepath
+        )
 
     @staticmethod
     def _get_attr_data_id_add_if_missing(
@@ -157,17 +163,22 @@ class NodeReader(object):
         cur.execute(sql, parameters)
         return cast(int, cur.lastrowid)  # Cast because we know it exists (just inserted).
 
-    def _finalizer(self) -> None:
-        """Close `_data` generator and remove temporary database file."""
-        if self._data:
-            self._data.close()
+    @staticmethod
+    def _finalizer(
+        started: 'weakref.WeakSet[Generator]',
+        in_memory_connection: Optional[sqlite3.Connection],
+        current_working_path: Optional[str],
+    ) -> None:
+        """Close started generators and remove temporary database file."""
+        for generator in list(started):
+            generator.close()
 
-        if self._in_memory_connection:
-            self._in_memory_connection.close()
+        if in_memory_connection:
+            in_memory_connection.close()
 
-        if self._current_working_path:
+        if current_working_path:
             with suppress(FileNotFoundError):
-                os.unlink(self._current_working_path)
+                os.unlink(current_working_path)
 
     @property
     def index_columns(self) -> List[str]:
@@ -210,6 +221,7 @@ class NodeReader(object):
             return next(self._data)  # type: ignore [arg-type]
         except TypeError:
             self._data = self._generate_reader_output()
+            self._started.add(self._data)
             return next(self._data)
 
     @contextmanager
@@ -220,6 +232,9 @@ class NodeReader(object):
         in_memory_connection = self._in_memory_connection
         on_drive_path = self._current_working_path
 
+        if not self.close.alive:
+            raise RuntimeError('NodeReader is closed')
+
         if in_memory_connection and on_drive_path:
             raise RuntimeError(
                 'NodeReader must have _in_memory_connection or '
-- 
2.43.0


From c92009669eb635816939373210b036cee160d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:54 +0000
Subject: [PATCH 30/47] fix: iterate over translated quantities after
 translating a reader that was already iterated

---
 src/toron/reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index bf76bcc..d544c54 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -361,6 +361,11 @@ class NodeReader(object):
                             ((x, attr_data_id, y) for x, y in items),
                         )
 
+                # Stop iteration, if started (it reads from the old table).
+                if self._data is not None:
+                    self._data.close()
+                    self._data = None  # Next iteration starts over.
+
                 # Replace the old quantity table with the new table.
                 cur1.execute('DROP TABLE main.quant_data')
                 cur1.execute('ALTER TABLE main.new_quant_data RENAME TO quant_data')
-- 
2.43.0


From c28cc889502c248a1296ae15436e04c2373b1f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:27 +0000
Subject: [PATCH 31/47] fix: allow pivoting a reader while it is iterated or
 pivoted elsewhere

---
 src/toron/reader.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index d544c54..3ec2480 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -9,7 +9,7 @@ from contextlib import (
     nullcontext,
     suppress,
 )
-from itertools import chain, groupby
+from itertools import chain, count, groupby
 from json import dumps, loads
 from tempfile import NamedTemporaryFile
 
@@ -410,6 +410,9 @@ def format_column(parts: List[str]) -> Union[Tuple[str, ...], str]:
     return tuple(parts)
 
 
+_pivot_counter = count(1)  # Used to make unique table names.
+
+
 PivotedRowType: TypeAlias = Union[
     Sequence[Union[str, Tuple[Optional[str], ...]]],  # <- Header row.
     Sequence[Union[str, float, None]],  # <- Data rows.
@@ -436,8 +439,12 @@ def pivot_reader(
     with reader._managed_connection() as con:
         cur1 = con.cursor()
         cur2 = con.cursor()
-        cur1.execute("""
-            CREATE TEMPORARY TABLE pivot_temp (
+
+        # Use a unique name since a connection can be shared with other
+        # pivots of the same reader.
+        pivot_temp = f'pivot_temp_{next(_pivot_counter)}'
+        cur1.execute(f"""
+            CREATE TEMPORARY TABLE {pivot_temp} (
                 attr_data_id INTEGER NOT NULL,
                 pivot_attrs TEXT NOT NULL
             )
@@ -452,14 +459,14 @@ def pivot_reader(
                     continue  # Skip to next if pivot attrs are all empty.
 
                 cur2.execute(
-                    'INSERT INTO temp.pivot_temp VALUES (?, ?)',
+                    f'INSERT INTO temp.{pivot_temp} VALUES (?, ?)',
                     (attr_data_id, dumps(pivot_attrs)),
                 )
 
             # Get distinct list of columns after populating table.
-            cur1.execute("""
+            cur1.execute(f"""
                 SELECT DISTINCT pivot_attrs
-                FROM temp.pivot_temp
+                FROM temp.{pivot_temp}
                 ORDER BY pivot_attrs
             """)
             pivoted_columns = [x[0] for x in cur1]  # Unwrap single item results.
@@ -478,7 +485,7 @@ def pivot_reader(
                     FROM main.quant_data
                     GROUP BY index_id, attr_data_id
                 )
-                JOIN temp.pivot_temp USING (attr_data_id)
+                JOIN temp.{pivot_temp} USING (attr_data_id)
                 GROUP BY index_id, pivot_attrs
                 ORDER BY index_id
             """)
@@ -496,7 +503,11 @@ def pivot_reader(
                     yield get_labels(index_id) + float_or_none_vals
 
         finally:
-            cur1.execute('DROP TABLE temp.pivot_temp')
+            # The table can't be dropped while the reader is also being
+            # iterated over (it's then removed with the connection).
+            cur1.execute(f'DELETE FROM temp.{pivot_temp}')
+            with suppress(sqlite3.OperationalError):
+                cur1.execute(f'DROP TABLE temp.{pivot_temp}')
 
 
 def pivot_reader_to_pandas(
-- 
2.43.0


From e06b921952d3f860cecff4521bc281b3d653f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:52 +0000
Subject: [PATCH 32/47] fix: don't convert pivoted values named like a label
 column to strings

---
 src/toron/reader.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 3ec2480..931db19 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -529,12 +529,17 @@ def pivot_reader_to_pandas(
 
     pivoted_data = pivot_reader(reader, columns, aggregate_function)
     pivoted_columns = next(pivoted_data)
+    label_count = len(reader.index_columns)
 
-    df = pd.DataFrame(pivoted_data, columns=pivoted_columns)
-    for col in reader.index_columns:  # Using loop for memory efficiency.
-        df[col] = df[col].astype('string')
+    # Use positions until finished since the name of a pivoted column can
+    # be the same as the name of a label column.
+    df = pd.DataFrame(pivoted_data, columns=range(len(pivoted_columns)))
+    for pos in range(label_count):  # Using loop for memory efficiency.
+        df[pos] = df[pos].astype('string')
+    labels = [df[pos].rename(name) for pos, name in enumerate(reader.index_columns)]
+    df.columns = pivoted_columns
 
     if index:
-        df.set_index(reader.index_columns, inplace=True)
+        df = df.iloc[:, label_count:].set_index(labels)
 
     return df
-- 
2.43.0


From 2770dbb0a6678d8594e776599cddd526d7dd8810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 33/47] fix: roll back an interrupted translation of a reader

---
 src/toron/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 931db19..ecd96ac 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -252,7 +252,7 @@ class NodeReader(object):
         try:
             yield connection
             connection.commit()
-        except Exception:
+        except (Exception, KeyboardInterrupt):
             connection.rollback()
             raise
         finally:
-- 
2.43.0


From 9afa4f87e3a4ee2a02d970af309baf69fc8d7901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:06 +0000
Subject: [PATCH 34/47] fix: remove the temporary file of a reader whose data
 could not be loaded

---
 src/toron/reader.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index ecd96ac..1dcab22 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -92,6 +92,15 @@ class NodeReader(object):
             connection = sqlite3.connect(':memory:')
             connection_cm = nullcontext(connection)
 
+        # Assign `close()` method (gets a callable finalizer object) before
+        # loading data so that the temporary file is removed when loading fails.
+        # The finalizer must not hold a reference to `self` (this would keep
+        # the reader and its data alive until the interpreter exits).
+        self._started = weakref.WeakSet()
+        self.close = weakref.finalize(
+            self, self._finalizer, self._started, connection, filepath
+        )
+
         # Create tables, insert records, and accumulate `attr_keys`.
         with connection_cm as con:
             try:
@@ -138,14 +147,6 @@ class NodeReader(object):
         self._index_columns = node.index_columns
         self._attr_keys = sorted(attr_keys)
 
-        # Assign `close()` method (gets a callable finalizer object).
-        # The finalizer must not hold a reference to `self` (this would keep
-        # the reader and its data alive until the interpreter exits).
-        self._started = weakref.WeakSet()
-        self.close = weakref.finalize(
-            self, self._finalizer, self._started, connection, filepath
-        )
-
     @staticmethod
     def _get_attr_data_id_add_if_missing(
         cur: sqlite3.Cursor, attributes: Dict[str, str]
@@ -363,8 +364,8 @@ class NodeReader(object):
 
                 # Stop iteration, if started (it reads from the old table).
                 if self._data is not None:
-                    self._data.close()
-                    self._data = None  # Next iteration starts over.
+                    data, self._data = self._data, None  # Next iteration starts over.
+                    data.close()
 
                 # Replace the old quantity table with the new table.
                 cur1.execute('DROP TABLE main.quant_data')
-- 
2.43.0


From 57e2744631665bd80f2068f04989c029f792755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:23 +0000
Subject: [PATCH 35/47] fix: accept the undefined record's zero weight when
 importing an exported index

---
 src/toron/space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toron/space.py b/src/toron/space.py
index 65dd5be..bf73f3d 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -745,6 +745,9 @@ class DataSpace(object):
                     else:
                         weight_value = float(weight_value)
 
+                    if index_id == 0 and weight_value == 0.0:
+                        continue  # Undefined record always has a weight of zero.
+
                     try:
                         weight_record = weight_repo.get_by_weight_group_id_and_index_id(
                             weight_group_id=group.id, index_id=index_id
-- 
2.43.0


From b1637dd4e7c77f5e16f3504f324eaa97789f236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:23 +0000
Subject: [PATCH 36/47] fix: treat an index code with an oversized number as
 badly formatted

---
 src/toron/cli/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/toron/cli/common.py b/src/toron/cli/common.py
index 3810729..19e443a 100644
--- a/src/toron/cli/common.py
+++ b/src/toron/cli/common.py
@@ -12,7 +12,7 @@ from collections import Counter
 from contextlib import contextmanager
 from dataclasses import astuple, dataclass
 from enum import IntEnum
-from struct import Struct
+from struct import Struct, error as StructError
 from .. import bind_file, ToronError
 from .._typing import (
     Any,
@@ -333,12 +333,13 @@ def index_code_to_id(
 
     try:
         index_id = int(index_id_dec)
+        index_id_bytes = pack_i64_be(index_id)
         checksum = int(checksum_hex, 16)
-    except ValueError:
+    except (ValueError, StructError):
         raise ValueError(f'badly formatted index code: {index_code}')
 
     # Using crc32 to verify IDs and distinguish datasets; not for security.
-    if checksum != crc32(pack_i64_be(index_id) + unique_id_bytes) & 0xffffffff:
+    if checksum != crc32(index_id_bytes + unique_id_bytes) & 0xffffffff:
         raise ValueError(f'checksum mismatch for index code: {index_code}')
 
     return index_id
-- 
2.43.0


From 3b0b8e3c11e8f18473f60f3016eb461848530b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:23 +0000
Subject: [PATCH 37/47] fix: skip unmatched records when importing an exported
 mapping

---
 src/toron/cli/command_mapping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index 9442145..abedf50 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -339,6 +339,10 @@ def normalize_mapping_data(
                                               positions['node2_stop'])
 
     for row in data_iter:
+        # Skip unmatched records (these have no mapping value).
+        if get_mapping_value(row) in ('', None):
+            continue
+
         node1_index_id = node1_get_index_id(row)
         node1_location = node1_get_location(row)
 
-- 
2.43.0


From 4cf936f56a0b31931b464fe008d7619a9ff4fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:37 +0000
Subject: [PATCH 38/47] fix: keep the mapping level of ambiguous records when
 importing an exported mapping

---
 src/toron/cli/command_mapping.py | 61 ++++++++++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 2 deletions(-)

diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index abedf50..52affda 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -307,6 +307,50 @@ def make_getter_functions(
     return (node_get_index_id, node_get_location, node_get_level)
 
 
+def make_ambiguous_level_getter(
+    node: DataSpace,
+    sample_header: Sequence[str],
+    start: Optional[int],
+    stop: Optional[int],
+) -> Callable[[Optional[int], Sequence], Optional[BitFlags]]:
+    """Make and return a function to get the level of ambiguous records.
+
+    The function takes an index_id and a row, it returns the mapping
+    level given by the row's "ambiguous_fields" value or None if the
+    record is not ambiguous.
+    """
+    label_names = node.index_columns
+    header_slice = list(sample_header[start:stop])
+    if ('ambiguous_fields' not in header_slice
+            or 'ambiguous_fields' in label_names):
+        return lambda index_id, row: None  # <- EXIT!
+
+    position = (start or 0) + header_slice.index('ambiguous_fields')
+
+    # Build dictionary of text-to-levels (same text as used for output).
+    with node._managed_cursor() as cur:
+        structures = node._dal.StructureRepository(cur).get_all()
+    text_to_level = {}
+    for structure in structures:
+        level = BitFlags(structure.bits)
+        text = get_ambiguous_field_text(bytes(level), label_names)
+        if text:
+            text_to_level[text] = level
+
+    def get_ambiguous_level(
+        index_id: Optional[int], row: Sequence
+    ) -> Optional[BitFlags]:
+        text = row[position]
+        if index_id is None or not text:
+            return None
+        try:
+            return text_to_level[text]
+        except KeyError:
+            raise ToronError(f'no partition with ambiguous fields: {text}')
+
+    return get_ambiguous_level
+
+
 @eagerly_initialize
 def normalize_mapping_data(
     node1: DataSpace,
@@ -338,6 +382,17 @@ def normalize_mapping_data(
                                               positions['node2_start'],
                                               positions['node2_stop'])
 
+    # Records on the right side of the link column may be ambiguous (these
+    # were exported with the names of the ambiguous fields).
+    node1_get_ambiguous = make_ambiguous_level_getter(node1,
+                                                      columns,
+                                                      positions['node1_start'],
+                                                      positions['node1_stop'])
+    node2_get_ambiguous = make_ambiguous_level_getter(node2,
+                                                      columns,
+                                                      positions['node2_start'],
+                                                      positions['node2_stop'])
+
     for row in data_iter:
         # Skip unmatched records (these have no mapping value).
         if get_mapping_value(row) in ('', None):
@@ -352,11 +407,13 @@ def normalize_mapping_data(
         yield [
             node1_index_id,
             node1_location,
-            node1_get_level(node1_index_id, node1_location),
+            node1_get_ambiguous(node1_index_id, row)
+                or node1_get_level(node1_index_id, node1_location),
 
             node2_index_id,
             node2_location,
-            node2_get_level(node2_index_id, node2_location),
+            node2_get_ambiguous(node2_index_id, row)
+                or node2_get_level(node2_index_id, node2_location),
 
             get_mapping_value(row),
         ]
-- 
2.43.0


From d0da7b8330b5da94c64fca790f4de68f97528e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 39/47] fix: find the mapping column when a label shares its
 name with the link or the index code

---
 src/toron/cli/command_mapping.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index 52affda..7f669cf 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -103,6 +103,15 @@ def get_column_positions(
         else:
             sample_rows = list(islice(unscanned_rows, chunk_size))
 
+    # If the link shares its name with another column, use the column that's
+    # between the index code columns (the last one that comes before them both).
+    if node1_index_pos is not None and node2_index_pos is not None:
+        start, stop = sorted([node1_index_pos, node2_index_pos])
+        for position in range(start + 1, stop):
+            with suppress(ValueError):
+                get_mapping_value_position([columns[position]], link_name)
+                value_position = position
+
     # If column order is invalid, raise error.
     if (node1_index_pos is not None
         and node2_index_pos is not None
@@ -290,8 +299,13 @@ def make_getter_functions(
         def node_get_index_id(row: Sequence) -> Optional[int]:
             return None
 
+    # Exclude index code column (a label column could have the same name).
+    header_row = [x for x in sample_header]
+    if index_code_pos is not None:
+        header_row[index_code_pos] = None
+
     node_get_location = get_location_factory(
-        header_row=sample_header,
+        header_row=header_row,
         label_columns=node.index_columns,
         start=start,
         stop=stop,
@@ -363,7 +377,7 @@ def normalize_mapping_data(
     data, columns = normalize_tabular(data, columns)
     positions, data_iter = get_column_positions(node1, node2, link_name, data, columns)
 
-    value_position = get_mapping_value_position(columns, link_name)
+    value_position = cast(int, positions['value_position'])
     get_mapping_value = lambda row: row[value_position]
 
     (node1_get_index_id,
-- 
2.43.0


From 460dbf0ab145221454ae4734f19b100df0510230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:40 +0000
Subject: [PATCH 40/47] fix: read standard input with the encoding and newlines
 that exports are written with

---
 src/toron/cli/command_index.py    |  4 ++--
 src/toron/cli/command_mapping.py  |  4 ++--
 src/toron/cli/command_quantity.py |  4 ++--
 src/toron/cli/common.py           | 21 +++++++++++++++++++++
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/toron/cli/command_index.py b/src/toron/cli/command_index.py
index 2d0ff6d..bd16c79 100644
--- a/src/toron/cli/command_index.py
+++ b/src/toron/cli/command_index.py
@@ -1,6 +1,5 @@
 """Implementation for "index" command."""
 import argparse
-import csv
 import logging
 import os
 import re
@@ -11,6 +10,7 @@ from .._typing import Iterator, List, TYPE_CHECKING
 from .common import (
     ExitCode,
     is_streamed,
+    csv_stdin_reader,
     csv_stdout_writer,
     cli_bind_file,
     process_backup_option,
@@ -28,7 +28,7 @@ applogger = logging.getLogger('app-toron')
 
 def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
     """Insert index records read from stdin stream."""
-    reader = csv.reader(args.stdin)
+    reader = csv_stdin_reader(args.stdin)
     sample_rows = list(islice(reader, 10))
     iterator: Iterator[List] = chain(sample_rows, reader)
 
diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index 7f669cf..f156c16 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -1,6 +1,5 @@
 """Implementation for "mapping" command."""
 import argparse
-import csv
 import logging
 import os
 import uuid
@@ -42,6 +41,7 @@ from .._utils import (
 from .common import (
     ExitCode,
     is_streamed,
+    csv_stdin_reader,
     csv_stdout_writer,
     index_code_to_id,
     index_id_to_code,
@@ -467,7 +467,7 @@ def read_from_stdin(
 
     # Normalize and load mapping data.
     data = normalize_mapping_data(
-        node1, node2, args.link, csv.reader(args.stdin)
+        node1, node2, args.link, csv_stdin_reader(args.stdin)
     )
     mapper = Mapper(node1, node2, data)
 
diff --git a/src/toron/cli/command_quantity.py b/src/toron/cli/command_quantity.py
index e9e9723..4f09fab 100644
--- a/src/toron/cli/command_quantity.py
+++ b/src/toron/cli/command_quantity.py
@@ -1,6 +1,5 @@
 """Implementation for "quantity" command."""
 import argparse
-import csv
 import logging
 import os
 from .._typing import TYPE_CHECKING
@@ -8,6 +7,7 @@ from .._typing import TYPE_CHECKING
 from .common import (
     ExitCode,
     is_streamed,
+    csv_stdin_reader,
     csv_stdout_writer,
     cli_bind_file,
     process_backup_option,
@@ -22,7 +22,7 @@ applogger = logging.getLogger('app-toron')
 
 def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
     """Load quantity records read from stdin stream."""
-    reader = csv.reader(args.stdin)
+    reader = csv_stdin_reader(args.stdin)
 
     try:
         node.insert_quantities2(
diff --git a/src/toron/cli/common.py b/src/toron/cli/common.py
index 19e443a..52e3b8c 100644
--- a/src/toron/cli/common.py
+++ b/src/toron/cli/common.py
@@ -73,6 +73,27 @@ def csv_stdout_writer(
             pass
 
 
+def csv_stdin_reader(stdin: TextIO) -> Generator[List[str], None, None]:
+    """Yield rows of CSV data from *stdin*.
+
+    Reads the same encoding and newlines that ``csv_stdout_writer()``
+    writes, regardless of the current locale.
+    """
+    if not hasattr(stdin, 'buffer'):
+        yield from csv.reader(stdin)  # Use text as-is (e.g., StringIO).
+        return  # <- EXIT!
+
+    stdin_wrapper = io.TextIOWrapper(
+        stdin.buffer,
+        encoding='utf-8',
+        newline='', # Disable universal newline translation.
+    )
+    try:
+        yield from csv.reader(stdin_wrapper)
+    finally:
+        stdin_wrapper.detach()  # Keep `stdin.buffer` open.
+
+
 def cli_bind_file(
     filepath: str, *, mode: Literal['ro', 'rw', 'rwc']
 ) -> 'DataSpace':
-- 
2.43.0


From f3f1666036eb7f5e724883eb3a3da43999cba8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:16 +0000
Subject: [PATCH 41/47] fix: verify index codes that only appear after the
 first rows of an imported index

---
 src/toron/cli/command_index.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/toron/cli/command_index.py b/src/toron/cli/command_index.py
index bd16c79..cd15845 100644
--- a/src/toron/cli/command_index.py
+++ b/src/toron/cli/command_index.py
@@ -5,7 +5,7 @@ import os
 import re
 import uuid
 from itertools import chain, islice
-from .._typing import Iterator, List, TYPE_CHECKING
+from .._typing import Iterator, List, Optional, TYPE_CHECKING
 
 from .common import (
     ExitCode,
@@ -26,6 +26,26 @@ if TYPE_CHECKING:
 applogger = logging.getLogger('app-toron')
 
 
+def find_index_code_header(
+    header: List[str], node: 'DataSpace'
+) -> Optional[int]:
+    """Return the position of the column named as an index code column
+    or None if there isn't one.
+    """
+    reserved = set(node.index_columns)
+    reserved.update(group.name for group in node.weight_groups)
+    positions = [
+        pos for pos, name in enumerate(header)
+        if name not in reserved
+            and (name == 'index_code' or name.endswith('_index_code'))
+    ]
+    if len(positions) > 1:
+        names = ', '.join(repr(header[pos]) for pos in positions)
+        raise RuntimeError(f'found multiple index code columns: {names}')
+
+    return positions[0] if positions else None
+
+
 def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
     """Insert index records read from stdin stream."""
     reader = csv_stdin_reader(args.stdin)
@@ -38,13 +58,19 @@ def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
         iterator = remap_index_codes_to_index_ids(iterator, unique_id_bytes, position)
     except RuntimeError as e:
         # If raw 'index_id' is given (instead of index code), raise error.
-        # But if no index is given at all, continue (for loading new index
-        # records).
-        header = sample_rows[0]
+        header = sample_rows[0] if sample_rows else []
         if 'index_id' in header:
             msg = f"{e}; found unexpected column 'index_id'"
             raise RuntimeError(msg) from None
 
+        # If the sample contains no matching codes, use the column with an
+        # index code name (its codes could come later or could be invalid).
+        # But if no index is given at all, continue (for loading new index
+        # records).
+        position = find_index_code_header(header, node)
+        if position is not None:
+            iterator = remap_index_codes_to_index_ids(iterator, unique_id_bytes, position)
+
     try:
         node.insert_index(
             iterator,
-- 
2.43.0


From 564849406c257fe27f42a85084c4a43a56738928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:40 +0000
Subject: [PATCH 42/47] fix: do not overwrite one of the given files with the
 backup of the other

---
 src/toron/cli/common.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/toron/cli/common.py b/src/toron/cli/common.py
index 52e3b8c..31f3386 100644
--- a/src/toron/cli/common.py
+++ b/src/toron/cli/common.py
@@ -121,6 +121,7 @@ def process_backup_option(
     if not getattr(args, 'backup', False):
         return  # Exit immediately if `args.backup` is not True.
 
+    backup_paths = []
     for node in nodes:
         if node.path_hint is None:
             raise FileNotFoundError(
@@ -128,7 +129,17 @@ def process_backup_option(
                 f'(has no `path_hint`)'
             )
         dir_name, base_name = os.path.split(node.path_hint)
-        backup_path = os.path.join(dir_name, f'backup-{base_name}')
+        backup_paths.append(os.path.join(dir_name, f'backup-{base_name}'))
+
+    # Make sure that the backup of one node doesn't overwrite another node.
+    node_paths = {os.path.realpath(node.path_hint) for node in nodes if node.path_hint}
+    for backup_path in backup_paths:
+        if os.path.realpath(backup_path) in node_paths:
+            raise ToronError(
+                f'cannot make backup, {backup_path!r} is one of the given files'
+            )
+
+    for node, backup_path in zip(nodes, backup_paths):
         node.to_file(backup_path)
 
 
-- 
2.43.0


From ff24b7a2c7067eaedc0caf98c8eb88288a30a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:03 +0000
Subject: [PATCH 43/47] fix: adding a link in both directions changed FILE2
 before it was refused by FILE1

---
 src/toron/cli/command_add.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/toron/cli/command_add.py b/src/toron/cli/command_add.py
index 9bb4e3f..754c678 100644
--- a/src/toron/cli/command_add.py
+++ b/src/toron/cli/command_add.py
@@ -107,6 +107,13 @@ def add_link(args: argparse.Namespace) -> ExitCode:
     )
 
     if args.direction == 'both':
+        # Check FILE1 first (so that FILE2 isn't changed if it's refused).
+        if any(link.name == args.link and link.other_unique_id == node2.unique_id
+               for link in node1.links):
+            raise ToronError(
+                f'a link named {args.link!r} already exists '
+                f'between these two dataspaces'
+            )
         do_add(node1, node2, args)  # node1 -> node2
         do_add(node2, node1, args)  # node1 <- node2
     elif args.direction == 'right':
-- 
2.43.0


From 89b364dc0742643c8acde188cf1f25448b9690a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:34 +0000
Subject: [PATCH 44/47] fix: ambiguous fields beyond the last stored byte of a
 mapping level were not shown

---
 src/toron/cli/command_mapping.py |  4 +++-
 src/toron/graph.py               |  5 ++++-
 src/toron/space.py               | 11 ++++++-----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index f156c16..c44f103 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -9,6 +9,7 @@ from itertools import (
     chain,
     compress,
     islice,
+    repeat,
 )
 from .._typing import (
     Callable,
@@ -539,7 +540,8 @@ def get_ambiguous_field_text(
     """
     if mapping_level is None:
         return None
-    inverted_level = [(not bit) for bit in BitFlags(mapping_level)]
+    bit_flags = chain(BitFlags(mapping_level), repeat(0))  # Trailing zeros aren't stored.
+    inverted_level = ((not bit) for bit in bit_flags)
     ambiguous_fields = compress(label_names, inverted_level)
     return ', '.join(ambiguous_fields) or None
 
diff --git a/src/toron/graph.py b/src/toron/graph.py
index b4826e4..7add264 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -7,9 +7,11 @@ from json import (
     loads as _loads,
 )
 from itertools import (
+    chain,
     compress,
     groupby,
     product,
+    repeat,
 )
 from ._typing import (
     Dict,
@@ -410,7 +412,8 @@ def _get_ambiguous_fields(
     """
     if mapping_level is None:
         return None
-    inverted_level = [(not bit) for bit in BitFlags(mapping_level)]
+    bit_flags = chain(BitFlags(mapping_level), repeat(0))  # Trailing zeros aren't stored.
+    inverted_level = ((not bit) for bit in bit_flags)
     ambiguous_fields = compress(column_names, inverted_level)
     return ', '.join(ambiguous_fields) or None
 
diff --git a/src/toron/space.py b/src/toron/space.py
index bf73f3d..1c21d7d 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -5,7 +5,7 @@ import os
 from collections import Counter, defaultdict
 from contextlib import contextmanager, nullcontext
 from dataclasses import replace
-from itertools import chain, compress, groupby
+from itertools import chain, compress, groupby, repeat
 from logging import getLogger
 from math import isnan, isinf
 from pprint import pformat
@@ -1781,11 +1781,12 @@ class DataSpace(object):
                 try:
                     # Loop over mappings (or raise StopIteration if empty).
                     for rel in chain([next(mappings)], mappings):
-                        if rel.mapping_level:
+                        if rel.mapping_level is not None:
                             # Build a description of any columns that were
-                            # left unspecified in the original mapping.
-                            bit_flags = BitFlags(rel.mapping_level)
-                            inverted_bits = [(not bit) for bit in bit_flags]
+                            # left unspecified in the original mapping (the
+                            # level has no trailing bytes of zeros).
+                            bit_flags = chain(BitFlags(rel.mapping_level), repeat(0))
+                            inverted_bits = ((not bit) for bit in bit_flags)
                             ambiguous_labels = compress(label_columns, inverted_bits)
                             ambiguous_desc = ', '.join(ambiguous_labels) or None
                         else:
-- 
2.43.0


From bb40690a426690c1fae45d050500e940179b24bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:52 +0000
Subject: [PATCH 45/47] fix: translating data of a deleted source record
 dropped its values

---
 src/toron/reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 1dcab22..b940d68 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -346,10 +346,16 @@ class NodeReader(object):
                             continue  # Skip to next record.
 
                         # All other quantities are translated using mappings.
-                        rels = mapping_repo.find(
+                        rels = list(mapping_repo.find(
                             link_id=link_id,
                             other_index_id=index_id,
-                        )
+                        ))
+                        if not rels:
+                            # The record no longer exists in the source node
+                            # (current links have mappings for all records).
+                            raise RuntimeError(
+                                f'no mapping found for index id {index_id}'
+                            )
 
                         items = ((rel.index_id, quant_value * rel.proportion)
                                  for rel in rels)
-- 
2.43.0


From 29416f81ce66a332f2bb09c6cabf9af010e32ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:00 +0000
Subject: [PATCH 46/47] fix: a selector listed more than once for a weight was
 not removed by update weight

---
 src/toron/cli/command_update.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/toron/cli/command_update.py b/src/toron/cli/command_update.py
index 52cd2fa..936e4d7 100644
--- a/src/toron/cli/command_update.py
+++ b/src/toron/cli/command_update.py
@@ -56,9 +56,7 @@ def update_weight(args: argparse.Namespace) -> ExitCode:
                            f"{', '.join(repr(x) for x in args.add_selector)}")
 
         if args.remove_selector:
-            for sel in args.remove_selector:
-                if sel in selectors:
-                    selectors.remove(sel)
+            selectors = [sel for sel in selectors if sel not in args.remove_selector]
             applogger.info(f"removed selectors: "
                            f"{', '.join(repr(x) for x in args.remove_selector)}")
 
-- 
2.43.0


From 19dea1cc19a4595ed2ff2725b95f854fa7505dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:04 +0000
Subject: [PATCH 47/47] fix: update_index skipped rows because of an empty cell
 in an unused column

---
 src/toron/space.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 1c21d7d..b86d027 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -962,12 +962,13 @@ class DataSpace(object):
 
             previously_merged = set()
             for updated_values in data:
-                if '' in updated_values:
+                # Make a dictionary of updated values (may have extra columns).
+                updated_dict = dict(zip(columns, updated_values))
+                if any(updated_dict.get(x) == '' for x in ('index_id', *label_columns)):
                     counter['empty_str'] += 1
                     continue  # <- Skip to next item.
 
-                # Make a dictionary of updated labels and get existing record.
-                updated_dict = dict(zip(columns, updated_values))
+                # Get existing record.
                 try:
                     index_record = index_repo.get(updated_dict['index_id'])
                 except KeyError:
-- 
2.43.0

