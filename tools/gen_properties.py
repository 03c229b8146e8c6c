"""Writes ../properties.jsonl (kept as Python for readable diffs)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': ['src/toron/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'src/toron/' + w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': 'src/toron/' + w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'Disaggregation conserves every quantity and follows the weights',
     'Disaggregating a space yields, for every stored quantity at a level of the partition structure and each of its attribute combinations, parts that sum to '
     'the stored value, land only on index records whose labels match the quantity\'s location, and are proportional to '
     'the records\' weights (split evenly when the matching weights sum to zero). The weights used are those of the complete '
     'weight group whose selectors match the attributes with the greatest unique specificity, else of the default group. '
     'A selector given by the caller restricts the output to exactly the quantities whose attributes it matches, and an '
     'incomplete default group or a location matching no index record is refused rather than silently dropped.',
     ['inputs', 'configurations'],
     'every combination, in a small scope, of index records, partition definitions, weights (including zeros and ties), '
     'weight groups with selectors, quantity locations at every level of the structure, attributes and caller selectors',
     'Tests check a handful of hand-written spaces; conservation and proportionality must hold for every structure level, '
     'weight vector (zeros, single-record blocks, equal granularities) and selector constellation.',
     ['space.py', 'data_service.py', 'selectors.py', 'dal1/repositories.py'],
     [('weight-proportional split', 'data_service.py:disaggregate_value'),
      ('per-structure traversal', 'space.py:DataSpace._disaggregate'),
      ('weight group choice', 'selectors.py:get_greatest_unique_specificity'),
      ('quantities of one structure level', 'dal1/repositories.py:QuantityRepository.find_by_structure')],
     ['rows of space(...) / NodeReader iteration'])

prop('C02', 'Quantized output stays conservative, whole-number and fair',
     'When whole-number output is requested, disaggregated or translated parts still sum to the original value, every part is '
     'a whole number except for at most one that carries a fractional remainder of the total, and no part deviates from its '
     'exact share by a whole unit or more. The outcome depends only on the inputs (identical on every run), exact shares that are already whole '
     'are unchanged, and negative values behave as the mirror image of positive ones.',
     ['inputs'],
     'every list of up to six parts over a small value alphabet (whole, fractional, negative, tied, tiny remainders), with '
     'and without an explicit total, and every small space/translation that requests quantized output',
     'Largest-remainder rounding has many tie, sign and remainder cases; tests sample a few vectors.',
     ['_utils.py', 'space.py', 'reader.py'],
     [('largest remainder rounding', '_utils.py:quantize_values'),
      ('quantized disaggregation', 'space.py:DataSpace._disaggregate'),
      ('quantized translation', 'reader.py:NodeReader.translate')],
     ['quantize_values()', 'space(quantize=True)', 'reader.translate(..., quantize=True)'])

prop('C03', 'Translation conserves totals and follows the link',
     'Translating quantities from one space into another distributes each value over the target records in proportion to '
     'the recorded mapping values of the link chosen for its attributes (greatest unique specificity among current, '
     'complete links, else the default link), so per-attribute totals are conserved and an undefined source record maps to '
     'the undefined target record. If no link from the source exists, none is current for the source\'s present set of index records, '
     'or there is no current default link, translation is refused instead of producing partial results.',
     ['inputs', 'histories', 'configurations'],
     'every small mapping relation (overlaps, zero values, several links with selectors, default or not, complete or not) '
     'between small spaces, and every short history of index edits on the source after linking',
     'Tests translate through one or two fixed links; staleness detection and conservation depend on the whole history of '
     'both spaces and on every mapping shape.',
     ['reader.py', 'data_service.py', 'graph.py', 'data_models.py'],
     [('link choice and staleness test', 'data_service.py:make_get_link_id_func'),
      ('proportional distribution', 'reader.py:NodeReader.translate'),
      ('legacy translation', 'graph.py:translate'),
      ('proportions', 'data_models.py:BaseMappingRepository.refresh_proportions')],
     ['rows of reader >> space, reader.translate(), select_weights() >> space'])

prop('C04', 'Every change to a space is all-or-nothing',
     'Each modifying operation (method call) on a space either takes full effect or, if it fails or is interrupted at any point (a bad row anywhere in the '
     'input, an input iterator that raises, a storage error at any step, an interrupt), leaves the space exactly as it was before. '
     'After a failed operation the space remains usable, and repeating the operation without the fault gives the same result as if the failure had never happened.',
     ['fault_sequences', 'crash_points'],
     'every modifying operation of the API x every position at which an input row is bad or the iterator raises x every '
     'storage call at which an error or interrupt is injected, for in-memory, drive-cached and file-bound spaces',
     'Tests exercise success paths and a few argument errors; no test injects a failure at each step of an operation and '
     'compares the complete contents before and after.',
     ['space.py', 'dal1/data_connector.py', 'dal1/label_manager.py', 'data_service.py'],
     [('transaction scope', 'space.py:DataSpace._managed_transaction'),
      ('begin/commit/rollback', 'dal1/data_connector.py:DataConnector'),
      ('schema changes', 'dal1/label_manager.py:LabelManager')],
     ['complete database contents before and after'])

prop('C05', 'Saving a space is atomic and durable',
     'Saving to a path leaves there, whenever the process stops (and, when saving with syncing, the machine), either the complete previous file (or no file if there was none) or the '
     'complete new one, never a partial or mixed file, and never modifies the space being saved. When saving with syncing (the default) returns '
     'successfully the new contents survive a power loss; when saving fails with an error no temporary file is left behind and the previous file is untouched, unless only '
     'the final directory sync failed, after the complete new file was put in place.',
     ['crash_points', 'fault_sequences'],
     'every system call made while saving as a crash point (with every legal loss of unsynced data and directory entries) '
     'and as a failing call, for new and existing destinations, both sync modes, and in-memory, cached and bound sources',
     'Tests only save successfully or against read-only files; no test stops the process or fails a system call in the middle of a save.',
     ['dal1/data_connector.py', 'space.py'],
     [('temp file + VACUUM INTO + rename + directory sync', 'dal1/data_connector.py:DataConnector.save_to_file')],
     ['destination directory contents after each simulated crash or failure'])

prop('C06', 'Reloading and storage mode never change a space',
     'A space saved to a file and loaded again (into memory, cached to drive, or bound directly to the file) has identical contents '
     'and answers every query identically. The same sequence of operations gives the same results '
     'whether the space lives in memory, in a temporary drive cache or in a bound file, and saving and reloading at any point of the sequence makes no difference.',
     ['histories', 'configurations'],
     'every sequence up to a bounded depth of modifying operations over a small alphabet x every storage mode x every '
     'single point at which the space is saved and reloaded',
     'Most tests run on fresh in-memory spaces; behaviour that depends on the connection a space was opened with is only '
     'visible when the same history is replayed in the other modes.',
     ['dal1/data_connector.py', 'dal1/schema.py', 'space.py'],
     [('connection set-up', 'dal1/data_connector.py:DataConnector.acquire_connection'),
      ('per-connection triggers and functions', 'dal1/schema.py:create_functions_and_temporary_triggers'),
      ('loading', 'dal1/data_connector.py:DataConnector.read_from_file'),
      ('binding', 'dal1/data_connector.py:DataConnector.bind_file')],
     ['complete observable contents and the outcome (result or error) of each operation'])

prop('C07', 'Index records keep a unique, stable identity',
     'After any sequence of operations no two index records share the same labels, no label is empty, the undefined record (id 0) exists unchanged, and an id once '
     'given to a record is never given to another one, even after deletions. The index fingerprint depends only on the present set of ids and '
     'changes whenever that set changes, and inserting, updating and deleting affect exactly the records named by the given ids, labels or criteria.',
     ['histories'],
     'every sequence up to a bounded depth of insert, update, merge, delete (by row and by criteria), column changes and reloads over colliding labels',
     'Uniqueness, non-reuse of ids and the fingerprint are invariants of all histories; tests start from fresh spaces and apply one operation.',
     ['space.py', 'dal1/schema.py', 'dal1/repositories.py', 'data_service.py', '_utils.py'],
     [('unique label index, undefined-record triggers, AUTOINCREMENT', 'dal1/schema.py:create_schema_constraints'),
      ('fingerprint refresh', 'data_service.py:refresh_index_hash_property'),
      ('index edits', 'space.py:DataSpace.insert_index/update_index/delete_index')],
     ['select_index()', 'index hash of selected weights'])

prop('C08', 'Weights load by the stated policy and completeness is truthful',
     'Loading weights applies exactly the chosen conflict policy (abort, ignore, replace or sum) to the records named by labels or id, skips rows '
     'that name no matching record, the undefined record or no real number, and never stores a negative weight. After any sequence of '
     'operations a weight group that Toron tracks is flagged complete exactly when every defined index record has a weight in it.',
     ['histories', 'inputs'],
     'every sequence up to a bounded depth of weight-group, weight and index operations with every conflict policy on overlapping rows',
     'The flag is maintained incrementally by many operations, and disaggregation trusts it; only exhaustive histories reach the combinations in which one of them forgets it.',
     ['space.py', 'data_models.py', 'dal1/repositories.py'],
     [('completeness query', 'dal1/repositories.py:WeightRepository.weight_group_is_complete'),
      ('conflict policies', 'data_models.py:BaseWeightRepository.add_or_resolve'),
      ('weight operations', 'space.py:DataSpace.insert_weights/update_weights/delete_weights')],
     ['weight_groups', 'select_weights()'])

prop('C09', 'Links stay truthful about their mappings',
     'After any sequence of operations, a link that has been loaded is flagged complete exactly when every defined index record is mapped, its source '
     'fingerprint is that of the distinct source ids present in its mappings, and the proportions of each source record sum to one and follow the '
     'mapping values (an undefined source record contributes nothing). At most one link per source is the default, and mapping edits, deletions and reclassifications affect exactly the named records.',
     ['histories', 'inputs'],
     'every sequence up to a bounded depth of link, mapping (insert, update, delete, reify) and index operations with two links and overlapping mappings',
     'Translation trusts these derived values without rechecking them; they are maintained incrementally by a dozen operations and must be right after every history.',
     ['space.py', 'data_models.py', 'data_service.py', 'dal1/repositories.py', 'dal1/schema.py'],
     [('link refresh after edits', 'space.py:DataSpace.insert_mappings/update_mappings/delete_mappings'),
      ('proportion refresh', 'data_models.py:BaseMappingRepository.refresh_proportions'),
      ('single default constraint', 'dal1/schema.py:create_schema_tables (UNIQUE is_default)')],
     ['links', 'select_mappings()', 'mapping table of the saved file'])

prop('C10', 'The partition structure is the closure of its definitions and current',
     'After any sequence of operations on a space with label columns and index data, the structure consists of exactly the unions of the partition definitions, always contains '
     'the whole space and the empty level, definitions are kept minimal and are never silently lost, and each level\'s '
     'granularity is the entropy of the present index under that level\'s columns. Loading a quantity at a level outside the structure is refused.',
     ['histories', 'inputs'],
     'every family of partition definitions over up to four columns, and every sequence up to a bounded depth of definition, column and index operations',
     'Structure and granularity are derived data refreshed by many operations; tests check single operations on fixed spaces.',
     ['partitions.py', 'data_service.py', 'space.py', 'dal1/optimizations.py'],
     [('closure', 'partitions.py:make_structure'),
      ('minimal generators', 'partitions.py:find_minimal_partition_generating_set'),
      ('rebuild and refresh', 'data_service.py:rebuild_structure_table/refresh_structure_granularity'),
      ('optimized granularity', 'dal1/optimizations.py')],
     ['partition_definitions', 'structure table of the saved file', 'insert_quantities2()'])

prop('C11', 'Changing label columns preserves everything else',
     'Adding, renaming, reordering or dropping label columns keeps every index record\'s id and its labels in the remaining columns, and all weights, mappings and '
     'quantities, and leaves partition definitions, structure and display order referring to exactly the existing columns. '
     'A change that would lose the distinction between records, reuse an existing or reserved name, or remove all columns is refused without effect.',
     ['histories', 'inputs'],
     'every sequence up to a bounded depth of column operations (with ordinary, quoted, keyword and conflicting names) on populated spaces',
     'Column changes rewrite four tables and several properties; tests check one change at a time on nearly empty spaces.',
     ['space.py', 'dal1/label_manager.py', 'data_service.py', 'dal1/schema.py'],
     [('table alteration', 'dal1/label_manager.py:LabelManager'),
      ('validation', 'data_service.py:validate_new_index_columns'),
      ('definition rename', 'data_service.py:rename_partition_definitions')],
     ['all observable contents before and after'])

prop('C12', 'Removal is complete, exact and final',
     'Dropping a weight group, link, index record or unmatched quantities removes all and only the data that belongs to it: nothing '
     'belonging to other groups, links or records changes, no dependent record survives, and something created later under the same or another '
     'name never inherits data from what was removed. Criteria that name an unknown label remove nothing.',
     ['histories', 'configurations'],
     'every sequence up to a bounded depth of create, populate, remove and re-create operations in every storage mode',
     'Orphans are invisible until a later object reuses an id, and cascade behaviour depends on how the space was opened; tests remove from fresh in-memory spaces only.',
     ['space.py', 'dal1/schema.py', 'dal1/repositories.py', 'data_service.py'],
     [('cascading foreign keys', 'dal1/schema.py:create_schema_tables'),
      ('record deletion', 'data_service.py:delete_index_record'),
      ('quantity pruning', 'space.py:DataSpace.delete_quantities_without_index/delete_unmatched_quantities')],
     ['all observable contents', 'raw tables of the saved file'])

prop('C13', 'Merging index records preserves totals',
     'When relabelling makes index records coincide and merging is requested, the surviving record carries the sum of the weights per weight group and the sum '
     'of the mapping values and proportions per link, source and mapping level; every other record is unchanged. Totals per group and per source, '
     'and the disaggregated or translated totals over the merged records, are therefore the same before and after, and without a merge request the conflict is refused without effect.',
     ['inputs', 'histories'],
     'every relabelling of small indexes that merges records (chains, several merges in one call, partial weights, mappings of '
     'several sources, links and levels, awkward floating-point values)',
     'Tests merge one pair with round numbers; conservation must hold for every merge shape and for values whose floating-point sums are inexact.',
     ['space.py', 'data_models.py'],
     [('weight merge', 'data_models.py:BaseWeightRepository.merge_by_index_id'),
      ('mapping merge', 'data_models.py:BaseMappingRepository.merge_by_index_id'),
      ('merge driver', 'space.py:DataSpace.update_index')],
     ['select_weights()', 'select_mappings()', 'mapping table of the saved file'])

prop('C14', 'Mappings built from labelled data match exactly the right records',
     'Building a mapping between two spaces from labelled rows matches each row to exactly the records whose labels agree with '
     'it, within the stated match limit and overlap setting and with finer rows taking precedence over coarser ones, and splits an ambiguous row over its '
     'matches in proportion to the chosen weights so that its value is conserved. Rows that cannot be matched under those settings are left out entirely, and the result does not depend on the order of the rows.',
     ['inputs'],
     'every small set of mapping rows at every level of label detail on both sides x match limit x overlap setting x weights, between small spaces',
     'Matching interacts across rows through granularity order, overlap and limits; tests sample a few files.',
     ['mapper.py', 'graph.py', 'cli/command_mapping.py'],
     [('record matching', 'mapper.py:Mapper.match_records'),
      ('value distribution', 'mapper.py:Mapper.iter_mappings/get_mappings'),
      ('load driver', 'graph.py:load_mapping')],
     ['select_mappings() after loading'])

prop('C15', 'Selectors mean what their syntax says',
     'A selector matches an attribute set exactly when the documented meaning of its operators, negations, grouping and case flag says so, and its '
     'specificity orders selectors as documented. A selector written back as text parses to an equivalent '
     'selector, and choosing among selectors returns the unique most specific match, falling back to the default when there is no match or a tie.',
     ['inputs'],
     'every selector up to a bounded size from the grammar over a small attribute alphabet (quotes, backslashes, case, empty, missing) '
     'x every attribute set, and every small selector dictionary',
     'The grammar is recursive; tests try individual examples.',
     ['selectors.py'],
     [('parser', 'selectors.py:parse_selector'),
      ('matching and specificity', 'selectors.py:SimpleSelector/CompoundSelector'),
      ('choice', 'selectors.py:get_greatest_unique_specificity')],
     ['parse_selector(text)(attributes), str(), specificity'])

prop('C16', 'Quantities load by the stated policy and read back unchanged',
     'Loading quantities stores each accepted row once under its location and attributes with its exact value, applies the chosen policy to rows that are already present (abort, ignore, replace '
     'or sum), skips rows without attribute values, and refuses rows whose domain, partition level or labels are invalid unless the caller allowed them. '
     'Reading back returns exactly the stored quantities, the lists of unmatched or index-less quantities contain exactly those that cannot be disaggregated, and deleting them removes exactly those.',
     ['inputs', 'histories'],
     'every sequence of up to two loads of up to three rows over a small alphabet of locations, attributes, values and policies, followed by index and partition changes',
     'Policies interact with duplicates inside one load and across loads; tests check one duplicate at a time.',
     ['space.py', 'data_service.py', 'dal1/repositories.py'],
     [('load policy', 'space.py:DataSpace.insert_quantities2'),
      ('read back', 'space.py:DataSpace.select_quantities2/select_quantities'),
      ('unmatched quantities', 'data_service.py:find_nonmatching_locations/find_locations_without_index')],
     ['select_quantities2()', 'select_unmatched_quantities()', 'select_quantities_without_index()'])

prop('C17', 'Command-line export and import round-trip',
     'Exporting the index, the mappings or the quantities of a file with the command-line tool changes nothing and shows exactly its records, weights, mappings and quantities, whatever the label texts and the locale. '
     'The unchanged output can be imported again: into a copy that lacks the weights, mappings or quantities it re-creates them, into the same file it leaves the data as they were (or is refused and leaves them), '
     'and the exported index without its code column re-creates the labelled records and weights in an empty file. '
     'An exported mapping that is incomplete is only imported when incomplete mappings are allowed.',
     ['inputs', 'configurations'],
     'every small space (labels with quotes, commas, newlines, Unicode, leading zeros; weights; mappings; quantities) x export/import command x option x locale',
     'Tests run each command once on plain labels with mocked parts; the round trip has to hold for every content.',
     ['cli/main.py', 'cli/common.py', 'cli/command_index.py', 'cli/command_mapping.py', 'cli/command_quantity.py', 'mapper.py'],
     [('commands', 'cli/command_index.py, cli/command_mapping.py, cli/command_quantity.py')],
     ['stdout of export commands, file contents after import commands, exit status'])

prop('C18', 'Older files upgrade without loss, completely or not at all',
     'Opening a file of any supported older format yields the same index, weights, mappings, quantities and properties it contained, in the current format, whichever way it is opened. '
     'If the upgrade fails or the process stops at any point while a file is upgraded in place, the file remains a complete old file or is a complete new one, and '
     'a file is never modified by being read into memory or opened read-only.',
     ['crash_points', 'fault_sequences', 'configurations'],
     'every supported old format x content variants x way of opening x every storage call of the upgrade as a crash or failure point',
     'Tests run each migration once to completion on one fixture.',
     ['dal1/migrations.py', 'dal1/data_connector.py'],
     [('migration transaction', 'dal1/migrations.py:apply_migrations'),
      ('loading', 'dal1/data_connector.py:DataConnector.read_from_file/bind_file')],
     ['file bytes, observable contents after opening'])

prop('C19', 'Read-only access never changes a file',
     'No operation, successful or not, on a space bound read-only, and no reading, exporting, disaggregating, translating or saving elsewhere of any bound or '
     'loaded space, changes a byte of the file or leaves other files beside it (saving over the bound file itself is no such use); a modifying operation on a read-only space is refused with an error. '
     'Changes to a space loaded into memory or a drive cache never reach the file it was loaded from.',
     ['programs', 'configurations'],
     'every public operation x read-only binding, loaded-into-memory and drive-cached spaces x present/absent write permission',
     'Tests check that one write fails; the guarantee quantifies over every operation of the API.',
     ['space.py', 'dal1/data_connector.py', 'reader.py'],
     [('access modes', 'dal1/data_connector.py:get_sqlite_connection/bind_file'),
      ('copy on read', 'dal1/data_connector.py:DataConnector.read_from_file')],
     ['file bytes and directory listing before and after'])

prop('C20', 'Concurrent users of one bound file are serialised',
     'When two clients operate at the same time on spaces bound to the same file, every operation that reports success has its full effect exactly once, an '
     'operation that reports an error has none, and the resulting file is one that some serial order of the successful operations produces. '
     'A reading call made while another client\'s operation is under way sees none of its effects, and each single query of a reader sees the state before '
     'or after that operation, never one in between (an answer composed of several queries may combine both).',
     ['schedules'],
     'every interleaving, at the granularity of storage calls and up to a bounded number of context switches, of every pair of operations from the modifying and reading API on one file',
     'No test runs two clients; atomicity of each operation\'s read-modify-write sequence under interleaving is invisible in sequential tests.',
     ['space.py', 'dal1/data_connector.py', 'data_service.py'],
     [('one transaction per operation', 'space.py:DataSpace._managed_transaction'),
      ('connections per operation', 'dal1/data_connector.py:DataConnector.acquire_connection')],
     ['final file contents, results and errors of both clients'])

prop('C21', 'Readers give one answer however they are consumed',
     'However a result reader is consumed - partially and then fully, as rows, as a data frame or pivoted, from memory or cached to drive - it hands out the same data: one row per distinct '
     'combination of labels and attributes holding the sum of its contributions, each row once, with totals equal to the unaggregated values; pivoting and looking do not use up rows, and a translation, '
     'whatever was consumed before, makes the whole translated data available. A failed translation changes nothing. Restricting or dropping attributes only merges rows by summation, chained '
     'translations equal translations done one at a time, and a reader and its temporary files go away when it is closed, no longer used, or could not be made.',
     ['inputs', 'programs'],
     'every small multiset of contributions x every consumption program of up to three steps x caching mode x pivot columns',
     'Aggregation and caching are stateful; tests consume a reader once in one way.',
     ['reader.py', 'space.py'],
     [('aggregating cache', 'reader.py:NodeReader'),
      ('pivot', 'reader.py:pivot_reader')],
     ['rows, to_pandas(), pivot output'])

prop('C22', 'Index codes identify a record of one particular file',
     'An index code in an imported index or mapping stands for one record of the file it was exported from, wherever in the data it stands and whatever the import options are. '
     'An import that contains an altered code, or a code of another file, is refused with an error message and leaves the target files unchanged.',
     ['inputs', 'configurations'],
     'every single-character edit and swap of every code of an export; every set of rows carrying codes of another file; codes after any number of rows without one; every conflict option',
     'Tests check a handful of valid and invalid codes in isolation; the protection has to hold for every damaged text, every position and every option.',
     ['cli/common.py', 'cli/command_index.py', 'cli/command_mapping.py'],
     [('index codes', 'cli/common.py:index_code_to_id/get_index_code_position/remap_index_codes_to_index_ids'),
      ('imports', 'cli/command_index.py:read_from_stdin, cli/command_mapping.py:get_column_positions')],
     ['exit status and file contents after import commands'])

prop('C23', 'Commands back up what they change; refused commands change nothing',
     'Every command of the command-line tool that modifies files first saves the state before the command of every file involved, as a copy called backup-<name> next to it, unless this is switched off. '
     'It does nothing when a backup cannot be written, never overwrites the other given file with a backup, and leaves no other files behind. '
     'A command that is refused or fails leaves the data of every file as they were.',
     ['configurations', 'fault_sequences', 'inputs'],
     'every modifying command, valid and refused, x backup situation (none yet, old backup present, not writable, switched off) x file layout x absolute and relative paths',
     'Tests mock the backup step or run one command; the guarantee has to hold for every command and every refusal.',
     ['cli/main.py', 'cli/common.py', 'cli/command_add.py', 'cli/command_update.py', 'cli/command_remove.py', 'cli/command_rename.py', 'cli/command_index.py', 'cli/command_mapping.py', 'cli/command_quantity.py'],
     [('backup', 'cli/common.py:process_backup_option'),
      ('commands', 'cli/main.py')],
     ['file contents and directory contents after each command, exit status'])

prop('C24', 'Every command makes exactly the change it is asked for',
     'Each command of the command-line tool changes the given files exactly as its arguments say (the named elements, in the given direction, with the given description, selectors, default, order and load policies) and nothing else in them, whatever commands came before. '
     'It reports success exactly when that change was made; a command that names something missing, taken, reserved or contradictory is refused with a nonzero status. '
     'The information shown about a file is that of its current contents.',
     ['histories', 'configurations', 'inputs'],
     'every sequence of commands from a list of about 190 argument combinations, on files that are empty, without data, or filled and linked in one or both directions',
     'Tests run one command with mocked or hand-made files; the options interact with each other and with what earlier commands left in either file.',
     ['cli/main.py', 'cli/command_add.py', 'cli/command_update.py', 'cli/command_remove.py', 'cli/command_rename.py', 'cli/command_index.py', 'cli/command_mapping.py', 'cli/command_quantity.py', 'cli/command_info.py', 'data_service.py'],
     [('arguments', 'cli/main.py:get_parser'), ('commands', 'cli/command_*.py'), ('information', 'data_service.py:get_dataspace_info_text')],
     ['both files read back after each command, exit status, printed information'])

prop('C25', 'Rows mean the same in every accepted form',
     'Every operation that takes rows (loading, updating and deleting index records, weights, mappings and quantities, and building a mapping) has the same effect and the same outcome whether the rows are sequences under a header, sequences with the column names given separately, or dictionaries, in a list or produced lazily. '
     'Where columns are found by name, their order and the presence of other, unused columns make no difference either. '
     'wide_to_long and wide_to_narrow give exactly one long record per wide record and stacked column, in order, with the values of all other columns carried along.',
     ['inputs', 'configurations'],
     'every listed table x every form of rows (lists, tuples, generators, separate column names, dicts with varying key order, other mappings, csv readers) x every order of the columns x unused columns at every place',
     'Tests give each operation its rows in one or two forms with the columns in the order of the space; the forms and orders multiply, and a mix-up loads plausible data into the wrong place.',
     ['_utils.py', 'space.py', 'graph.py', 'data_service.py'],
     [('forms', '_utils.py:normalize_tabular/verify_columns_set/make_readerlike/make_dictreaderlike'),
      ('reshaping', '_utils.py:wide_to_long/wide_to_narrow'),
      ('operations', 'space.py:DataSpace.insert_*/update_*/delete_*, graph.py:load_mapping')],
     ['dump of the space after each operation', 'records produced'])

prop('C26', 'Loads act row by row and report what they did',
     'Loading, updating or deleting several rows in one call leaves a space as giving the same rows one call at a time does: the effect of a row does not depend on the rows around it. '
     'What a call reports (by messages or warnings) is true: the numbers of records loaded, changed, merged and deleted are those that happened, and every row skipped is reported as skipped unless it asked for nothing new. '
     'A weight group or mapping is reported as complete exactly when it is, and an export reports the number of records written and of those unmatched.',
     ['inputs', 'sequences', 'reports'],
     'every listed operation with its policies x every sequence of up to three of its kinds of rows (taken up, repeated, mismatching, unknown, empty, undefined record, conflicting), every sequence of criteria, every mapping between two and three records',
     'Tests look at the report of one call with one or two kinds of rows; a value kept from an earlier row, or a count that is lost in a mixture, only shows for particular sequences.',
     ['space.py', 'cli/command_mapping.py', 'cli/command_index.py', 'cli/command_quantity.py'],
     [('row loops and counters', 'space.py:DataSpace.insert_*/update_*/delete_*/reify_mappings'),
      ('reports', 'space.py:warn_if_issues'),
      ('commands', 'cli/command_mapping.py:read_from_stdin/write_to_stdout, cli/command_index.py, cli/command_quantity.py')],
     ['dump of the space after each call', 'messages of the app-toron logger', 'ToronWarning'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        n = p['statement'].count('. ') + 1
        assert len(p['title']) <= 80, p['title']
        assert n <= 3, (p['id'], n)
        f.write(json.dumps(p) + '\n')
print(len(P))
