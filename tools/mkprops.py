#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
L = 'openquake/commonlib/'


def prop(id, title, statement, over, text, why, files, mech, observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[f if '/' in f else L + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

NOTEST = 'There is no test of this module at all'

prop('C01', 'map_reduce folds every task result exactly once, in any completion order',
     'For every batch of argument tuples and every order in which the worker pool finishes the tasks, the parallel '
     'map/reduce (one call, or a task manager that is submitted to and then aggregated, also several managers '
     'interleaved or one manager reused for later batches) calls the aggregation function exactly once per submitted '
     'task, each time with the accumulator returned by the previous call and that task\'s own result, and returns '
     'the last accumulator. '
     'Falsy results, duplicate or empty argument tuples, lazily generated arguments and an empty batch are no exception, and '
     'waiting without aggregating returns the number of tasks of the batch after all of them finished. '
     'Each finished result is folded as it becomes available: aggregation never waits for an unfinished task while a finished, '
     'not yet aggregated result exists.',
     ['schedules', 'inputs', 'histories'],
     'all completion orders, pool sizes and delays of any finite batch, all interleavings of several batches',
     NOTEST + ', and a real process pool never shows more than the few completion orders the machine happens to produce',
     ['parallel.py'],
     [('completion-ordered aggregation', L + 'parallel.py:aggregate_result_set'),
      ('batch bookkeeping and reset', L + 'parallel.py:TaskManager'), ('map_reduce', L + 'parallel.py:map_reduce')],
     ['arguments and return values of the aggregation function', 'return value of the batch'])

prop('C02', 'A failing task, pool or argument stream is never swallowed',
     'If any task of a batch raises - whatever exception class it is and whatever its message contains, including interrupts, '
     'system exit and non-ASCII text - the batch raises a RuntimeError whose text contains the exception class name, its message (when it is printable) '
     'and the remote traceback down to the raising task function, and no aggregate is returned. '
     'A broken pool, a failing aggregation function and a failing argument iterator likewise surface as an exception of the batch, '
     'never as a partial result. '
     'The failed task itself is never run again and no result is aggregated twice on the way to the error, and in the worker the wrapper that runs a task always returns a (result, exception class) pair instead of raising.',
     ['schedules', 'inputs', 'fault_sequences'],
     'every subset of failing tasks, every exception class and message, every completion order, worker crash at any point',
     NOTEST + '; the failure path depends on which of several concurrent tasks fails and when its result is delivered',
     ['parallel.py'],
     [('exception trapping in the worker', L + 'parallel.py:safely_call'),
      ('re-raise at aggregation', L + 'parallel.py:aggregate_results')],
     ['exception leaving the batch', 'calls of the aggregation function'])

prop('C03', 'OQ_NO_DISTRIBUTE means sequential in-process reduce, its absence means the pool',
     'When the environment variable OQ_NO_DISTRIBUTE is 1, true or yes (in any letter case) a batch runs its tasks one after the other in the '
     'calling process, in argument order, without touching the worker pool, and its result equals the sequential reduce of the aggregation function over the '
     'task results in argument order, failures included. '
     'With any other value, or none, the tasks run only in the worker pool, on copies of their arguments, and never in the calling process. '
     'The variable is consulted anew for every batch, so setting or clearing it between batches takes effect.',
     ['configurations', 'schedules', 'histories', 'inputs'],
     'all values of the variable, changes of it between batches, all batches with failing and succeeding tasks, all pool schedules',
     NOTEST + '; the equivalence quantifies over task functions, batches and environment histories',
     ['parallel.py'],
     [('mode switch', L + 'parallel.py:no_distribute'), ('submit', L + 'parallel.py:TaskManager.submit')],
     ['pool submissions', 'process in which each task body runs', 'order of task executions'])

prop('C04', 'Progress reports are truthful under every completion schedule',
     'Every batch reports once, before anything is aggregated, how many tasks of its kind were spawned, then percentages that are strictly increasing and '
     'never exceed the fraction of results already aggregated (and lag it by at most one percent), and exactly one final 100% once all results '
     'of a non-empty batch have been aggregated. '
     'A batch that fails never reports 100%. '
     'The reports carry the task name or the explicit name given to the batch and interleaved batches do not disturb one another\'s reports.',
     ['schedules', 'inputs', 'histories'],
     'all batch sizes, completion orders, failures at any position, interleavings of several batches',
     NOTEST + '; the percent sequence depends on the batch size and on where a failure cuts the aggregation',
     ['parallel.py'],
     [('progress generator', L + 'parallel.py:log_percent_gen')], ['calls of the progress function'])

prop('C05', 'Performance monitor survives process death, denied access and clock jumps',
     'For every history of its monitored processes dying, denying access, growing and shrinking, and for every clock, the performance monitor never changes the '
     'outcome of the monitored block: it lets exactly the block\'s own exception through and raises none itself. '
     'Each reported memory delta is the stop measurement minus the start measurement of one and the same process, in the order the processes were given and '
     'covering every process that was measurable both times; duration is the difference of the clock readings taken when the block is left and entered and start_time is the reading at entry. '
     'The exception attribute is the block\'s exception or None, the exit callback runs exactly once after all attributes are set, and the monitor can be reused (it may then leave out processes found dead or inaccessible before).',
     ['fault_sequences', 'schedules', 'histories'],
     'every subset of processes failing at the start or stop measurement, clock jumps at any point, nested and repeated use, blocks that raise',
     NOTEST + '; process death between the two measurements is a race no test can schedule',
     ['parallel.py'],
     [('measure', L + 'parallel.py:PerformanceMonitor.measure_mem'), ('stop', L + 'parallel.py:PerformanceMonitor.__exit__')],
     ['.mem, .duration, .start_time, .exc', 'exception leaving the with block'])

prop('C06', 'Pickled transport delivers snapshots, keyed by identity and not by recycled ids',
     'Pickling a sequence gives one packet per item, in order, and each packet unpickles to the value its own item had at that moment, also when the items '
     'come from an iterator whose previous items were already garbage-collected and had their identity reused. '
     'Items that are the very same object share one packet, distinct objects never do, and items that are already packets are passed through unchanged; later mutation of an item does not change its packet. '
     'A call through the pickling wrapper computes the function on the unpickled arguments and returns a packet of the same (result, exception class) pair as the plain wrapper.',
     ['inputs', 'schedules', 'histories'],
     'all sequences and iterators of picklable objects, every point at which the allocator reuses an object identity',
     NOTEST + '; identity reuse depends on when the garbage collector runs',
     ['parallel.py'],
     [('identity cache', L + 'parallel.py:pickle_sequence'), ('packets', L + 'parallel.py:Pickled'), ('wrapper', L + 'parallel.py:safely_call')],
     ['unpickled values', 'identity of the packets'])

prop('C07', 'The memory guard warns exactly above its limit and changes nothing else',
     'Memory usage is sampled for every submitted task and, in pool mode, for every result taken from the pool; a warning naming the used percentage is logged for a sample if and only if the '
     'sampled percentage is strictly above the limit (80 by default, or the one given). '
     'Whatever the samples are and however they vary over time, the result of the batch and its progress reports are the same as without memory pressure.',
     ['schedules', 'fault_sequences', 'inputs'],
     'all memory usage histories, limits and completion orders',
     NOTEST + '; memory pressure is an environment input no test controls',
     ['parallel.py'], [('guard', L + 'parallel.py:check_mem_usage')], ['logged warnings'])

prop('C08', 'All archive kinds behave as one map from names to contents',
     'A directory, zip or in-memory archive, and one made from a path name, behaves as a map from file names to contents for every history of opens, writes, closes and lookups: opening a name for reading yields exactly the content '
     'last written and closed under it, membership and prefix listings agree with the completed writes, and opening a missing name for reading raises the not-in-archive error and creates nothing. '
     'Closing the archive completes all writes still open and leaves the archive usable, and opening an existing archive for update or append keeps what it already contains. '
     'Two readers of the same name are independent, and reading a name again after it was read before gives the full content again.',
     ['histories', 'configurations', 'inputs', 'schedules'],
     'all archive kinds and modes, all interleavings of any number of readers and writers, closes and reopens',
     'csvmanager_test uses each archive kind in one fixed write-then-read sequence (and does not run here: its dependencies are missing)',
     ['csvmanager.py'],
     [('temp file staging', L + 'csvmanager.py:TempFile'), ('archives', L + 'csvmanager.py:ZipArchive, DirArchive, MemArchive'), ('membership', L + 'csvmanager.py:Archive.__contains__')],
     ['content read back, listings, membership, exceptions'])

prop('C09', 'A closed archive survives a process kill; a crash harms nothing committed',
     'After the close of a directory or zip archive has returned, every file completed before it is readable with its exact content by a fresh process, even if the writing process is killed at '
     'any later point without any further cleanup (for zip archives: as long as nothing more is written to them). '
     'If the process is killed in the middle of an operation, a fresh process finds for every directory-archive file not being written at that moment its previous content, and files of a previously closed zip archive remain readable '
     'when the killed session had only read from it. '
     'Opening, listing, reading, closing and converting out of an archive that is only read leaves the bytes of its files unchanged.',
     ['crash_points', 'histories', 'configurations'],
     'kill after any system call of any history of sessions on directory and zip archives',
     'Unit tests run in one process that always exits cleanly; no test reopens an archive in a fresh process',
     ['csvmanager.py'],
     [('close protocol', L + 'csvmanager.py:Archive.close, ZipArchive'), ('staging', L + 'csvmanager.py:TempFile.close')],
     ['content seen by a fresh process over the surviving files'])

prop('C10', 'Storage faults are reported, never turned into missing or wrong data',
     'If an input/output fault (no space, I/O error, descriptor exhaustion, permission, short read) hits an archive, CSV, NRML conversion or temp-file operation, either that operation, or the closing of the file or archive it belongs to, raises - '
     'or the data is complete and exact: no history of faults makes a conversion report success with missing or wrong records. '
     'An archive membership test, a validity scan and a load of optional tables never report a file that exists as absent because reading it failed. '
     'Once the faults stop, running the same operation again from the start succeeds and gives the fault-free result.',
     ['fault_sequences', 'histories', 'inputs'],
     'every fault kind at every system call of any workload over the archive and conversion layer',
     'No test injects an I/O error',
     ['csvmanager.py', 'general.py', 'record.py'],
     [('membership', L + 'csvmanager.py:Archive.__contains__'), ('optional tables', L + 'csvmanager.py:CSVManager.get_tableset'), ('staging', L + 'csvmanager.py:TempFile')],
     ['return values and exceptions under faults versus the fault-free model'])

prop('C11', 'NRML to CSV to NRML round trips preserve the model, across archives and restarts',
     'Converting any valid (ASCII) vulnerability, discrete or continuous fragility, exposure (buildings or population) or ground-motion-field NRML model to CSV and back - '
     'through any archive kind, with the process restarted between the two steps, several models of any names in one archive, via the manager or the command line script - gives an equivalent NRML model: '
     'the same sets, functions, levels, assets, costs, occupancies, locations, fields and values, with order kept where it matters. '
     'Converting the result to CSV again gives the same CSV files, up to the order in which the costs and occupancies of an asset are listed.',
     ['inputs', 'histories', 'configurations', 'crash_points'],
     'all valid models of each kind, all archive kinds, restarts between steps, several models per archive',
     'convert_test/csvmanager_test cover one fixed model per kind, in memory, in one process (and do not run here)',
     ['csvmanager.py', 'converter.py', 'records.py', 'record.py', 'bin/NRMLconvert.py'],
     [('converters', L + 'converter.py'), ('CSV manager', L + 'csvmanager.py:CSVManager'), ('script', 'bin/NRMLconvert.py')],
     ['node tree after the round trip', 'CSV bytes'])

prop('C12', 'The validity scan finds exactly the invalid records, whatever the storage does',
     'Scanning an archive for invalid records reports, for every file of every recognised model in it, exactly the records with at least one field that does not cast: each with its file name, its row number and the '
     'names of all its bad fields, in file and row order, repeatably, and without changing the archive. '
     'With a limit n it reports the first n of them. '
     'A file whose header line differs from the record type\'s field names is rejected with the invalid-file error, and a read fault during the scan raises instead of shortening the report.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'all archives with any pattern of corrupted cells, rows and headers, stored bytes flipped between sessions, all archive kinds, all limits, read faults at any point',
     'csvmanager_test has a few fixed invalid CSV samples in memory',
     ['csvmanager.py', 'record.py'],
     [('scan', L + 'csvmanager.py:CSVManager.find_invalid'), ('casting', L + 'record.py:Record.cast')],
     ['the reported (file, row, fields) list'])

prop('C13', 'Concurrent temp-file and archive creation never collides or leaks',
     'Any number of concurrent callers creating temporary files - with the same or different target directories, which may not exist yet - all succeed, and each gets its own distinct existing file, in its directory and with its prefix and suffix, holding exactly its content '
     '(also when the content is empty), for every interleaving of their steps. '
     'Concurrent creation of directory archives on the same new path succeeds for all of them. '
     'No descriptor is left open by these operations, with or without content.',
     ['schedules', 'inputs', 'fault_sequences'],
     'all interleavings at line and system-call granularity of any number of callers',
     'general_test does not exercise it; races need a particular preemption between the existence test and the creation',
     ['general.py', 'csvmanager.py'],
     [('temp files', L + 'general.py:writetmp'), ('archive directory', L + 'csvmanager.py:DirArchive.__init__')],
     ['returned paths and their content', 'open descriptors'])

prop('C14', 'Model loaders are all-or-nothing under failing, truncated or corrupt streams',
     'Loading a source model, a vulnerability or fragility model, a job configuration or a logic tree from files that cannot be read, from XML documents that end early, or from inputs with an invalid element at any point either raises an exception or returns exactly the model of the intact input, never a partial or altered one. '
     'A duplicated source id, a duplicated taxonomy in a vulnerability file and an invalid function raise wherever they occur in the stream. '
     'A failed load leaves nothing behind: loading the intact input afterwards, or through another loader used in between or concurrently, gives its model, and changing a loaded model does not affect later loads.',
     ['fault_sequences', 'inputs', 'histories'],
     'every position in the stream and every failure kind, over all models, with further loads afterwards',
     'The tests load fixed intact files plus two fixed broken ones',
     ['source.py', 'riskloaders.py', 'readini.py', 'logictree.py'],
     [('source models', L + 'source.py:parse_source_model'), ('risk models', L + 'riskloaders.py'), ('logic trees', L + 'logictree.py:BaseLogicTree.__init__, GsimLogicTree._parse_lt'), ('config', L + 'readini.py:parse_config')],
     ['loaded model or exception'])

prop('C15', 'Job configuration resolves to the same inputs from any working directory',
     'Parsing a job configuration gives the same parameters whatever the current directory is and whatever was parsed before: every *_file entry becomes an absolute path (relative ones '
     'taken from the directory of the configuration file), source model paths are collected from the logic tree it names, without duplicates and sorted, and resolved against the same directory. '
     'Sites given as CSV become the MULTIPOINT with exactly their coordinates in order, every other entry is kept verbatim, and absolute paths stay as they are. '
     'All of it holds with other threads or calls parsing other configurations and changing nothing but their own results.',
     ['configurations', 'inputs', 'histories', 'schedules'],
     'all configurations, locations of the file, working directories and interleavings of several parses',
     'readini_test parses three fixed configurations from one directory',
     ['readini.py'], [('parse', L + 'readini.py:parse_config')], ['the returned dictionary'])

prop('C16', 'Logic-tree sampling follows the weights for every sequence of random draws',
     'For every random number in [0, 1), sampling one object returns the object in whose half-open slice of the cumulated weights the number falls; in particular an object of weight zero is never returned, and '
     'one draw is used per choice. '
     'A sample of n objects has n elements, chosen independently by successive draws. '
     'A path sampled from a logic tree consists of one branch of each visited branch set, chosen by weight, following exactly the child links from the root to a leaf, together with the model name of its first branch.',
     ['inputs', 'schedules', 'histories'],
     'all weight vectors, tree shapes and random sequences, including the extreme rolls 0 and 1-epsilon and the exact boundaries',
     'logictree_test samples with a fixed seed and checks approximate frequencies',
     ['logictree.py'], [('sampling', L + 'logictree.py:sample_one, sample, BaseLogicTree.sample_path')], ['sampled objects versus draws'])

prop('C17', 'Sampled realizations are reproducible from the seed, whatever else happens',
     'Iterating a logic tree with a number of samples n yields exactly n realizations with value, weight (None) and lt_path, and they depend only on the tree and its seed: iterating again, interleaving '
     'several iterations of this or other trees, pausing, abandoning one, drawing from or reseeding the global random generator, and loading the same tree in another process never changes them. '
     'Without sampling, iterating yields each path exactly once with the product of its weights, again identically each time and regardless of interleaving.',
     ['schedules', 'histories', 'inputs'],
     'all trees and seeds, all interleavings of iterations with each other and with uses of global randomness',
     'The tests iterate once, alone',
     ['logictree.py'], [('iteration', L + 'logictree.py:BaseLogicTree.__iter__, GsimLogicTree.__iter__')], ['sequence of realizations'])

prop('C18', 'Uncertainties hit exactly their target sources, once, isolated per realization',
     'For every realization of a source-model logic tree, applying its uncertainties while a source model streams in modifies exactly the Gutenberg-Richter distributions of the sources '
     'that pass each branch set\'s filters, applies each uncertainty of the path exactly once and in path order, with the right kind and value, and touches nothing else about any source. '
     'Realizations are independent: processing several of them in any order, interleaved, concurrently or repeatedly over freshly parsed sources gives for each the same modified sources as processing it alone.',
     ['schedules', 'inputs', 'histories'],
     'all trees, filters, paths and source models, all interleavings of several realizations',
     'logictree_test applies single uncertainties to single mock sources',
     ['logictree.py', 'source.py'],
     [('apply', L + 'logictree.py:BranchSet.apply_uncertainty, make_apply_uncertainties'), ('parse', L + 'source.py:parse_source_model')],
     ['modifications recorded by each source\'s magnitude-frequency distribution'])

prop('C19', 'Filter, split, block and distribute conserve seismicity within block limits',
     'Filtering, splitting and grouping the sources of a collector into blocks and processing the blocks in the pool conserves the seismicity of the kept sources: per kept source, the pieces add up to the original occurrence rates '
     '(each magnitude bin for faults, the total spread evenly over the grid points for areas, the source itself when it is not split), no piece is lost or duplicated, and pieces of dropped sources never appear. '
     'Every block is non-empty, in order, of one kind, weighs no more than the limit unless it is a single item, ignores items without weight, has the sum of its items\' weights, and the splitter ends a block only before an item of another kind or one that would exceed its limit; merging blocks, in any grouping, keeps items in order and total weight and leaves the merged ones unchanged. '
     'It holds for every consumption schedule of the generated blocks - paused, interleaved with other collectors, or abandoned and restarted - and for every completion order of the pool.',
     ['schedules', 'inputs', 'histories'],
     'all source models, filters, limits, weights and kinds, all consumption and completion schedules',
     'general_test checks the splitter on small fixed lists; source_test does not run here and splits single fixed sources',
     ['source.py', 'general.py', 'parallel.py'],
     [('split', L + 'source.py:split_source, area_to_point_sources, split_fault_source'), ('blocks', L + 'general.py:block_splitter, split_in_blocks'), ('pipeline', L + 'source.py:SourceCollector.gen_blocks')],
     ['pieces received by the tasks', 'blocks'])

prop('C20', 'Source collector bookkeeping matches its sources at every point of its life',
     'After every operation a source collector\'s minimum and maximum magnitude are those over all sources it ever took in, its number of ruptures is the sum of the rupture counts of the pieces that have gone into blocks plus the initial number, and its sources are those given, in order. '
     'Filtering terminates and returns a new collector of the same region type with exactly the accepted sources, leaving the original unchanged. '
     'When a block stream has been consumed to its end the collector holds exactly the kept pieces and reports (number of kept pieces, kept pieces plus dropped sources); while blocks are still to come, or when the stream is abandoned or fails then, it still holds the original sources; collectors order by number of sources, then region type.',
     ['histories', 'schedules', 'inputs', 'fault_sequences'],
     'all histories of updates, filters and partially consumed or failing block streams',
     'source_test builds collectors from one fixed model',
     ['source.py'], [('collector', L + 'source.py:SourceCollector')], ['collector attributes after each step'])

prop('C21', 'Tables keep their unique constraints and reject atomically',
     'After any history of inserts, appends, replacements, deletions and lookups - accepted and rejected ones, with operations failing midway included - no two records of a table agree on the primary key or on any other unique constraint, and looking up a primary key '
     'returns exactly the record in the table with that key or raises KeyError. '
     'An operation that would create a duplicate raises KeyError and changes nothing: the same records in the same order, the same lookups, and the same later acceptances as if it had not been tried.',
     ['histories', 'inputs', 'fault_sequences'],
     'all operation histories over any record type with one or more unique constraints',
     'table_test tries one duplicate insert per constraint',
     ['record.py'], [('unique dictionaries', L + 'record.py:Table, UniqueData')], ['records, lookups and exceptions after each step'])

prop('C22', 'Table sets keep referential integrity while streams are loaded and fail',
     'After any history of single and bulk insertions into a set of tables - with record streams that fail, stop, contain dangling references or duplicates at any point - every record with a foreign key refers to an existing record of the referenced table; a dangling record raises the foreign-key error and a duplicate KeyError, '
     'and the rejected record and everything after it is not inserted while everything before it is. '
     'Records go to the table of their own type in stream order, independent table sets never affect one another, and the foreign keys keep working after references are deleted or replaced through the tables.',
     ['histories', 'inputs', 'fault_sequences', 'schedules'],
     'all histories of inserts, deletions and failing streams over any converter\'s tables, and interleavings of several table sets',
     'record_test/table_test check one missing reference',
     ['record.py', 'records.py', 'csvmanager.py'],
     [('foreign keys', L + 'record.py:TableSet.check_fk'), ('bulk insert', L + 'record.py:TableSet.insert_all')],
     ['table contents and exceptions after each step'])

prop('C29', 'Ground motion logic trees give each region exactly the model of its branch',
     'For every ground motion logic tree, restricted to any selection of its tectonic region types, each realization - enumerated or sampled, from either kind of tree - contains exactly one branch of each selected region, and gives that region the model of that branch and no other region any model; the numbers of branches and paths reported are those enumerated. '
     'Resolving a path into its models gives this mapping as often as it is asked for, in any order, interleaved with iterations, other paths, trees and threads, and whatever the caller does to the mappings given before. '
     'A selection none of whose regions is in the file or that has duplicates (for the tree by region), and a path that is too short or has an unknown branch, raise instead of giving fewer models.',
     ['schedules', 'inputs', 'histories'],
     'all trees, selections, samples, and all orders and interleavings of iterations and resolutions',
     'logictree_test resolves one path of fixed trees, and none of its tests runs without the libraries',
     ['logictree.py'],
     [('resolution', L + 'logictree.py:GMPELogicTree.make_trt_to_gsim'), ('skipped regions', L + 'logictree.py:BaseLogicTree.parse_branchinglevel'), ('tree by region', L + 'logictree.py:GsimLogicTree')],
     ['realizations and mappings after each step'])

prop('C30', 'The conversion script validates first and tells the truth',
     'For every input and limit of at least one, the command line script ends with exit status zero only if the conversion was carried out in full: its output then names what it created, the output archive has the complete converted models and nothing else in or around the archives has changed. '
     'CSV input with invalid records is left alone - nothing is created or changed - and the bad fields of exactly the first records allowed by the limit are reported by file, field, row and column, with a non-zero exit that gives their number; invalid records in the CSV files made from NRML are reported likewise once these are written. '
     'A missing input or output argument, broken XML, wrong headers, duplicated or dangling records, a failing system call or console never end in exit status zero, the input is unchanged even if the process is killed at any point, and running the script again after the trouble is over converts everything.',
     ['crash_points', 'fault_sequences', 'inputs', 'histories'],
     'all models, invalid records, limits and archive kinds, all sequences of executions of the script, and all points where a process fails or dies',
     'no test runs the script',
     ['bin/NRMLconvert.py', 'csvmanager.py', 'converter.py', 'record.py'],
     [('script', 'bin/NRMLconvert.py:main'), ('validation', L + 'csvmanager.py:CSVManager.find_invalid')],
     ['exit status and output of each process', 'archives and files after it'])

prop('C31', 'Records edited in place say the truth about themselves',
     'After any history of assignments to the fields of records, by name or position, a record has exactly the strings that were accepted last: an assignment of an invalid value (ValueError), to an unknown field (KeyError, IndexError) or whose validation fails leaves it unchanged, an accepted one changes this field of this record only. '
     'At any time the validity of the record, of each field and of a table with it, the cast values or the InvalidRecord with exactly the bad fields in order, the scan for invalid records and the comparison with other records are those of its current strings, including the constraints between fields added to its type so far. '
     'This does not depend on other records, their types, threads editing them, or on what callers do to the values and errors obtained before.',
     ['histories', 'inputs', 'schedules'],
     'all histories of edits, checks and added constraints over records of any types, and all interleavings of threads editing their own records',
     'record_test checks a few records made once, and it does not run here',
     ['record.py', 'records.py', 'valid.py'],
     [('records', L + 'record.py:Record'), ('constraints', L + 'record.py:MetaRecord.add_check')],
     ['contents, validity, errors and values after each step'])

prop('C32', 'CSV tables give back exactly the records written',
     'For any records - of any types, with commas, quotes, line breaks, blanks, invalid or empty values - written in any interleaving over the tables of an archive of any kind by one or more managers, new or used before, with or without a header line, once manager or archive are closed every reading gives exactly the records written last to that table, in their order and of their type. '
     'This holds for whole reads, for tables made of them and for readers that are interleaved, abandoned or resumed, in the same process or a later one, and does not depend on the tables of other types and prefixes, on earlier readings or on how much the operating system returns per read. '
     'A table that was not written raises a not-in-archive error, a header line that is not that of the type an invalid-file error, and records that break a unique constraint of their type a KeyError when a table is made of them.',
     ['histories', 'inputs', 'schedules'],
     'all records, and all histories of writers and readers over the tables of an archive',
     'the tests of the manager do not run here and read what they wrote in one piece',
     ['csvmanager.py', 'record.py', 'records.py'],
     [('manager', L + 'csvmanager.py:CSVManager'), ('archives', L + 'csvmanager.py:ZipArchive')],
     ['records read, errors raised', 'names of the files in the archive'])

prop('C33', 'Table sets say what their models say, before and after edits',
     'For every valid (ASCII) vulnerability, fragility, exposure or ground-motion-field model the table set made of it - from its node or from CSV files, at once, again, in threads or record by record in turns with other models - has the tables of its kind with exactly one valid record per set, function, level, limit state, field, site, cost type, distinct location, asset, cost and occupancy of the model, in document order, all references between its tables resolve (of data to functions, fields and sets, of assets to locations), and the node is not changed. '
     'Converting a table set into a node gives the model of the records it has then - the original one at first, and after values were edited or records inserted or removed together with those referring to them the model changed in just this way - as often as asked, also with the assets of several results taken in turns, and whatever callers do to other results. '
     'Vulnerability data that the risk library rejects, of whichever function, raise instead of giving a model.',
     ['histories', 'inputs', 'schedules'],
     'all models, all histories of edits and conversions of several table sets, and all interleavings of their streams and threads',
     'the conversion tests do not run here, use seven files and never look into or edit the tables',
     ['converter.py', 'record.py', 'records.py', 'csvmanager.py'],
     [('to tables', L + 'converter.py:Converter.from_node'), ('to models', L + 'record.py:TableSet.to_node')],
     ['rows of the tables', 'nodes made of them'])

# ---- pure functions: listed because users rely on them, not claimed (no nondeterminism to simulate)
prop('C23', 'Field validators accept exactly the documented values',
     'Each field validator (probabilities, positive numbers, longitudes, latitudes, categories, intensity measure types, booleans, name lists, optional values) accepts exactly the documented strings, returns the documented value and raises ValueError on all others.',
     ['inputs'], 'all strings', 'valid_test checks a few values per validator', ['valid.py'], [('validators', L + 'valid.py')])
prop('C24', 'Full enumeration of a logic tree is complete and its weights sum to one',
     'Enumerating a branch set yields every root-to-leaf path of the tree exactly once, as the list of '
     'its branches from the root with the exact product of their weights (branches of zero weight and branch sets shared '
     'by several branches included), so that the weights of a tree whose sets each sum to one sum to exactly one; the order is the '
     'same every time while the tree is unchanged. This holds for the tree as it is when enumerated, whatever it was '
     'before, however many enumerations of it or of its subtrees are advanced in turns, suspended, abandoned or run in threads, and '
     'whatever callers do to the paths they got. Looking up a branch by id in a branch set returns the branch of that set that has '
     'the id now, or raises AssertionError if none has.',
     ['schedules', 'histories', 'inputs'],
     'all trees with distinct ids within a branch set, all histories of edits between enumerations and interleavings of enumerations',
     'logictree_test (which does not run here) enumerates a few fixed trees once',
     ['logictree.py'], [('enumeration', L + 'logictree.py:BranchSet.enumerate_paths'),
                        ('lookup', L + 'logictree.py:BranchSet.get_branch_by_id')],
     ['paths and weights', 'branches', 'errors'])
prop('C25', 'Converters turn NRML sources and ruptures into equal hazardlib objects',
     'A converter turns every NRML source (point, area, simple fault, complex fault, characteristic with a simple, a complex or '
     'planar surfaces) and every rupture into a new hazard library object of the corresponding kind with the same '
     'geometry, distributions and parameters and, from the converter, the mesh spacing, the bin width of truncated '
     'Gutenberg-Richter distributions, the area discretization and the Poisson model of its investigation time (none without one). '
     'This holds whatever was converted before or is being converted at the same time, by this or another converter with other '
     'parameters, from the same NRML objects or others with equal ids, after NRML objects were changed, after '
     'conversions failed midway, and whatever callers do to the attributes of earlier results or of their distributions; conversions change neither '
     'NRML objects nor earlier results. A source that cannot be converted raises an error of the original type '
     'that names its id and name.',
     ['schedules', 'histories', 'inputs', 'fault_sequences'],
     'all histories and interleavings of conversions by several converters, all NRML sources and ruptures',
     'source_test (which does not run here) converts one fixed source per kind with one converter',
     ['source.py'],
     [('converter', L + 'source.py:NrmlHazardlibConverter')],
     ['converted objects', 'NRML objects', 'errors'])
prop('C26', 'Deep comparison is an equivalence up to the given precision',
     'Deep comparison reports equal exactly when two object trees have the same shape and their leaves agree (numbers up to the precision), and names a difference otherwise.',
     ['inputs'], 'all pairs of object trees', 'not tested directly', ['general.py'], [('deep_eq', L + 'general.py:deep_eq')])
prop('C27', 'Validation judges logic trees by the rules and the files of the moment',
     'A validated source model or ground motion logic tree is accepted, with exactly its branches, weights, values and '
     'the source ids, source types and tectonic regions of its source models, exactly if all documents are well-formed '
     'and it keeps the rules: branch ids are unique, the weights of each branch set sum to one, applyToBranches names '
     'branches of the previous level without branch set, values have the form of their type, source models come in one '
     'branch set on the first level and only there, at most one filter names sources, types or regions that are in '
     'the source models as the files are at that moment, absolute uncertainties are of one source, ground motion models are '
     'known and have one branch set per level and region and one for each region of the sources (branch sets of other regions '
     'are skipped, without filter they raise). Otherwise it raises: ValidationError with file and line of an '
     'element that breaks a rule (InvalidLogicTree or, for weights, any error in GsimLogicTree, which judges only the structure), '
     'ParsingError naming a document that is not well-formed; without validation, unique ids, weights and '
     'applyToBranches are still judged. The outcome does not depend on trees or files as they were before, trees validated at the same '
     'time, the working directory or what callers do to loaded trees; a read that fails never gives an outcome the files do '
     'not justify, and repaired trees and files are accepted.',
     ['histories', 'inputs', 'fault_sequences', 'schedules'],
     'all histories of edits and repairs of logic trees and of the source model files they name, and all interleavings and '
     'read faults of their validations',
     'logictree_test has one document per rule, validated once',
     ['logictree.py'],
     [('source models', L + 'logictree.py:SourceModelLogicTree.validate_filters, collect_source_model_data'),
      ('ground motion', L + 'logictree.py:GMPELogicTree.validate_tree, GsimLogicTree._parse_lt'),
      ('structure', L + 'logictree.py:BaseLogicTree.parse_branches, SourceModelLogicTree.apply_branchset')],
     ['accepted trees', 'class, file and line of errors'])
prop('C28', 'Risk models are those of the files of the moment, per taxonomy and loss type',
     'The risk models built for a list of loss types have one model per taxonomy found in any of their vulnerability files, with '
     'exactly the functions those files give it, by loss type (files are looked up by cost type, fatalities as occupants, retrofitted or not, '
     'loss types without file are skipped) and the insured-losses flag; those built from a fragility file have per taxonomy its intensity measure type and one function per limit '
     'state, discrete ones beginning at the no-damage limit with probability zero if there is one, else at the first level, '
     'and the damage states are no_damage and the limit states. '
     'This depends on the files as they are at the time of the call (of the first pair, for lazily read functions) and on nothing else: neither earlier, interleaved, failed or concurrent loads nor '
     'what callers do to their results, and no load changes its arguments or earlier results. '
     'A missing file and an invalid fragility function raise, a taxonomy given twice in a vulnerability file and an invalid '
     'vulnerability function raise a ValueError that names the taxonomy, and a failing read never gives a different model.',
     ['histories', 'schedules', 'inputs', 'fault_sequences'],
     'all histories of edits of risk model files and of whole, lazy, failing and concurrent loads',
     'riskloaders_test (which does not run here) loads fixed files once',
     ['riskloaders.py'],
     [('vulnerability', L + 'riskloaders.py:get_risk_models, get_taxonomy_vfs'),
      ('fragility', L + 'riskloaders.py:get_damage_states_and_risk_models')],
     ['risk models', 'pairs of lazy readers', 'errors'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        if len(p['title'])>80: print('LONG',p['id'],len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
