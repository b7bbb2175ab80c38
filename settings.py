# What check.py explores per property, and how the evidence describes it.
DEADLINE = dict(quick=240., thorough=780.)   # wall clock cap, seconds
MINIMUM = 150       # fewer finished runs than this is no answer

ASSUMPTIONS = [
    'Python code of /repo runs in Jython 2.7 (the only Python 2 here); its interpretation of '
    'the language is trusted',
    'sampling, not enumeration: a clean batch of runs is evidence, not proof',
    'the simulated components listed in coverage.components_simulated behave like the real ones',
]

POOL = ('concurrent.futures ProcessPoolExecutor and as_completed (simulated workers, seeded '
        'completion order, pickled transport, worker crashes)')
PS = 'psutil (simulated process table and memory gauge)'
CLOCK = 'clock (simulated)'
FS = ('file system below os/open/tempfile (in-memory POSIX semantics with descriptors, user '
      'buffers, seeded faults and kills)')
NRML = 'openquake.nrmllib Node/parsers (small reimplementation of the documented API)'
PARALLEL = 'openquake.commonlib.parallel'
CSVM = 'openquake.commonlib.csvmanager'
CONV = 'openquake.commonlib.{converter,record,records,valid}'
SCRIPT = 'bin/NRMLconvert.py'
RECORD = 'openquake.commonlib.{record,records}'
GENERAL = 'openquake.commonlib.general'
SOURCE = 'openquake.commonlib.source'
LOGICTREE = 'openquake.commonlib.logictree'
READINI = 'openquake.commonlib.readini'
RISK = 'openquake.commonlib.riskloaders'
HAZARDLIB = ('openquake.hazardlib (sources, distributions, geometry: value classes with the argument '
             'checks and rate formulas of the library)')
LXML = 'lxml, openquake.nrmllib parsers (over the Java SAX parser, no schema validation)'
SHAPELY = 'shapely.wkt (parser of the geometries used)'
RISKLIB = 'openquake.risklib (value classes with argument checks)'
ZIP = 'zipfile, csv (standard library)'
SCIENTIFIC = 'openquake.risklib.scientific (argument checks only)'


def _p(rule, states, real, stub, quick, thorough=None, **kw):
    return dict(rule=rule, states=states, real=real, stub=stub,
                runs=dict(quick=quick, thorough=thorough or quick * 40), **kw)


PROPS = dict(
    C01=_p('A run draws 1-4 batches (sizes 0-40, result and argument shapes, map_reduce or task '
           'manager, reuse, nesting in the aggregation function), a pool size and every '
           'submission, start and completion order. Non-trivial: some task completed out of '
           'submission order or batches were nested.',
           'completion order of a batch and the way it was run',
           [PARALLEL], [POOL, PS, CLOCK], 2400),
    C02=_p('As C01 with tasks that raise any of 19 exception kinds, failing aggregation '
           'functions, failing argument iterators, workers that crash and broken pools. '
           'Non-trivial: at least one fault was injected.',
           'failure kind, position and completion order', [PARALLEL, 'cPickle'],
           [POOL, PS, CLOCK], 4000),
    C03=_p('A run draws batches and switches OQ_NO_DISTRIBUTE between them over 16 values. '
           'Non-trivial: tasks ran in both modes or a task failed.',
           'mode sequence, outcome', [PARALLEL], [POOL, PS, CLOCK], 4000),
    C04=_p('As C01, C02 with the progress function recorded against the number of results '
           'aggregated so far. Non-trivial: out-of-order completion, nesting or a failure.',
           'batch size, progress sequence', [PARALLEL], [POOL, PS, CLOCK], 1600),
    C05=_p('A run draws 1-4 monitored processes with histories of growth, death, denied and '
           'restored access, a jumping clock, blocks that raise, nested and reused monitors. '
           'Non-trivial: a process died or denied access, the clock jumped, or a monitor was '
           'reused.', 'monitored set, measured set, outcome, nesting', [PARALLEL, 'datetime'],
           [PS, CLOCK], 6000),
    C06=_p('A run draws sequences of equal, identical, packed and garbage-collected items; the '
           'identity of dead objects may be given to new ones; packets are unpickled after '
           'later mutation and sent through the wrapper. Non-trivial: items died while the '
           'sequence was pickled, or a fault was injected.', 'sharing structure of the sequence',
           [PARALLEL, 'cPickle'], ['id() (identity reuse)', PS], 2400),
    C07=_p('A run draws memory samples around the limit for every submission and result, in '
           'both modes, against a run without memory pressure. Non-trivial: some sample was '
           'above the limit.', 'pattern of samples above, at and below the limit', [PARALLEL],
           [POOL, PS, CLOCK], 4000),
    C08=_p('A run draws an archive kind and up to 16 operations: opens, partial writes, closes, '
           'reads in five ways, interleaved readers, listings, memberships, closing, reopening '
           'for update or reading, also by a new process; every answer is compared with a map. '
           'Non-trivial: writers were left open, readers interleaved or the archive reopened.',
           'archive kind, final contents, length of the history', [CSVM, ZIP], [FS, NRML], 3000),
    C09=_p('A run draws up to 4 processes writing to or only reading from one archive, each '
           'killed at a random system call, after its last operation, or ending normally; a '
           'fresh process then looks at what was committed. Non-trivial: a process was killed '
           'or only read.',
           'archive kind, killed or not, number of committed files', [CSVM, CONV, ZIP],
           [FS, NRML], 2400),
    C10=_p('A run draws an operation (writing, reading, membership, loading tables, scanning, '
           'conversion in either direction, temporary files) and a fault: error kind, system '
           'call, single or persistent, short reads. Non-trivial: a fault was injected.',
           'operation, archive kind, outcome, fault kinds', [CSVM, CONV, ZIP, GENERAL],
           [FS, NRML], 2400),
    C11=_p('A run draws 1-3 models of the seven kinds, an archive kind, the manager, node or '
           'script interface and process restarts between the steps. Non-trivial: a restart, '
           'several models or the script.',
           'archive kind, interface, record types of the models', [CSVM, CONV, SCRIPT, ZIP],
           [FS, NRML, SCIENTIFIC], 1600),
    C12=_p('A run draws the CSV files of 1-2 models with a rate of invalid cells, headers that '
           'differ, foreign files, the archive kind, several scans with limits, short reads '
           'and read faults. Non-trivial: something was invalid or a fault was injected.',
           'archive kind, limit, fault hit, number of invalid records', [CSVM, CONV, ZIP],
           [FS, NRML], 3000),
    C13=_p('A run draws 1-3 processes of 2-5 concurrent callers in all, each creating temporary '
           'files (target directory existing or not, prefix, suffix, content) or a directory '
           'archive, preempted at any statement and system call, in a name space small enough '
           'for collisions; then faults. Non-trivial: a preemption or a fault happened.',
           'callers, processes, preemptions, names given out', [GENERAL, CSVM], [FS], 3000),
    C14=_p('A run draws 1-3 inputs (source models, vulnerability and fragility models, job '
           'configurations, source model, GMPE and GSIM logic trees) and 3-8 loads of them: intact, '
           'with read faults and short reads, truncated XML, an invalid or duplicated element '
           'anywhere, failing streams, failing uncertainties, rewritten contents, changed results, '
           'concurrent loads; at the end every intact input is loaded again. Non-trivial: a fault '
           'was injected or loads were concurrent.',
           'sequence of (loader, fault)', [SOURCE, RISK, READINI, LOGICTREE, 'ConfigParser, csv'],
           [FS, LXML, HAZARDLIB, RISKLIB, SHAPELY], 2400),
    C15=_p('A run draws 1-3 configurations (entries, relative and absolute paths, logic tree, '
           'sites) and 3-10 steps: parsing by any name from any current directory, rewriting, '
           'changing earlier results, failed parses, concurrent parses. Non-trivial: something '
           'was parsed before, or concurrently.',
           'sequence of (configuration, name, current directory)', [READINI, 'ConfigParser, csv'],
           [FS, LXML], 3000),
    C16=_p('A run draws weights (zeros, thirds, floats and decimals) or a logic tree, and random '
           'numbers biased to the borders of the cumulated weights and their neighbours. '
           'Non-trivial: a number at a border or a path of several branches.',
           'weights and objects, or the path', [LOGICTREE], [LXML, HAZARDLIB,
           'random number generator (adversarial)'], 4000),
    C17=_p('A run draws 1-3 logic trees and 4-43 steps: starting, advancing and abandoning '
           'iterations, reseeding and drawing from the global generator, loading in a new '
           'process, loading again, concurrent iterations. Non-trivial: iterations interleaved.',
           'trees, samples and realizations', [LOGICTREE, 'random'], [LXML, HAZARDLIB, FS], 2000),
    C18=_p('A run draws 1-3 source models, a source-model logic tree with filters and 1-5 '
           'realizations, processed one after the other, repeatedly, source by source '
           'interleaved, streamed from the parsers, or in threads. Non-trivial: several '
           'realizations.', 'way of processing, realizations', [LOGICTREE, SOURCE],
           [LXML, HAZARDLIB, SHAPELY, FS], 2400),
    C19=_p('A run draws collectors of 0-6 sources of five kinds, filters, splitting limits, block '
           'limits, consumption schedules (paused, interleaved, abandoned, restarted) and pool '
           'schedules, or a sequence to split into blocks. Non-trivial: something was split, '
           'interleaved or abandoned.', 'pieces, blocks and schedule',
           [SOURCE, GENERAL, PARALLEL], [HAZARDLIB, POOL, PS, SHAPELY], 3000),
    C20=_p('A run draws a collector and 3-12 operations: taking in sources, filtering, generating '
           'blocks completely or not, failures of the rupture count or of the mesh while blocks '
           'are generated, sorting collectors. Non-trivial: a block stream was abandoned or '
           'failed, or several operations followed one another.',
           'operations and outcomes', [SOURCE, GENERAL], [HAZARDLIB, SHAPELY], 3000),
    C21=_p('A run draws a record type with 1-4 unique constraints and 4-25 operations (append, '
           'insert, replace, delete, pop, remove, extend, lookups), some rejected, some failing '
           'midway; every step is compared with a list of records. Non-trivial: an operation '
           'was rejected or failed midway.',
           'constraints, operations and their outcomes', [RECORD], [], 4000),
    C22=_p('A run draws 1-3 table sets with foreign keys and streams of records that fail, stop, '
           'dangle or repeat at any point, interleaved with direct changes of the tables. '
           'Non-trivial: a stream failed or a record was rejected.',
           'tables, history of outcomes', [RECORD], [], 4000),
    C29=_p('A run draws 1-3 ground motion trees of 1-5 regions (both classes, three ways of loading, '
           'restricted to some of the regions, with unknown ones, enumerated or sampled), then '
           'iterations started, advanced, interleaved and abandoned, paths resolved in any order, '
           'results spoiled by the caller, threads, nonsensical paths and selections. Non-trivial: '
           'iterations were interleaved or threads ran.',
           'class, samples, branches per region and levels of the trees',
           [LOGICTREE], [LXML, HAZARDLIB], 3000),
    C30=_p('A run is 1-4 executions of the script, each a process with a console and an exit status, on '
           'generated models as NRML or CSV in directories and zip archives, with and without output '
           'archive and limit: complete conversions, invalid records, numbers that are none, mistakes '
           '(missing input, broken XML, headers, duplicates, dangling references), then system faults, '
           'a console that breaks and kills at any system call. Non-trivial: something was invalid, '
           'failed or was killed.',
           'kind of conversion, archives, limit, mistake or fault, outcome',
           [SCRIPT, CSVM, CONV, ZIP], [FS, NRML], 1600),
    C31=_p('A run draws 1-3 record types (of records.py, or made for the run, with subclasses, constraints '
           'and casts that may fail), records of them with valid, invalid and missing values, and 3-22 '
           'steps: assignments by name and position, further constraints, tables, comparisons, scans, '
           'results spoiled by the caller, threads that edit their own records; after each one contents, '
           'validity, errors and values are compared with lists of strings. Non-trivial: an assignment '
           'was rejected or threads ran.',
           'record types, numbers of records, tables, constraints and invalid records',
           [RECORD, 'openquake.commonlib.valid'], [], 2400),
    C32=_p('A run draws 1-3 prefixes with or without a header line in an archive of any kind, writes '
           'records with any text (commas, quotes, line breaks, invalid values) by one or two '
           'managers with the tables interleaved, and makes 4-19 steps: readers interleaved, resumed '
           'and abandoned, whole reads, tables with unique constraints, further and repeated writes by '
           'used managers, missing tables, wrong expectations of the header, other processes, short '
           'reads. Non-trivial: readers were interleaved.',
           'archive kind, headers, numbers of tables and of records',
           [CSVM, RECORD, ZIP], [FS], 2000),
    C27=_p('A run makes 1-2 projects - a source model logic tree, its source model files, a ground motion '
           'tree - and 4-12 steps: rules broken and restored one at a time or several at once, source models '
           'edited, removed, truncated and restored, trees truncated, validations of any of the trees '
           'between and after, with read faults, in threads, from any working directory, after callers '
           'changed loaded trees; verdict, place of the error and accepted tree are compared with the rules '
           'applied to the specification. Non-trivial: a rule or file was broken, a fault, or threads.',
           'sequence of edits and verdicts', [LOGICTREE], [FS, LXML, HAZARDLIB], 1300),
    C25=_p('A run makes 1-3 converters with different parameters and 1-5 NRML sources or ruptures of any kind, '
           'some with the same id or sharing a geometry, and makes 4-17 steps: conversions, some failing '
           'at any construction of a geometry, conversions of the same objects in threads, lazy streams of '
           'conversions, NRML objects edited, made inconvertible and repaired, results spoiled by the '
           'caller; results are compared with the specification, NRML objects and earlier results with '
           'what they were. Non-trivial: several converters, streams or threads.',
           'numbers of converters, kinds of sources, numbers of results and streams',
           [SOURCE], [HAZARDLIB, SHAPELY], 4000),
    C24=_p('A run builds trees of shared and unshared branch sets - weights of zero, repeated ids and fractions '
           'included - and makes steps: enumerations advanced in turns, suspended, abandoned and whole, in '
           'threads, trees grown, cut, refilled, reweighted and reordered in between, returned paths spoiled '
           'by the caller, branches looked up by id; paths, weights and order are compared with those of the '
           'tree as edited. Non-trivial: several enumerations at once or threads.',
           'sequence of edits and enumerations', [LOGICTREE], [HAZARDLIB, LXML], 2000),
    C28=_p('A run makes 1-2 projects with vulnerability files of any loss type, plain and retrofitted, and a '
           'fragility file, and makes 4-15 steps: files edited, replaced, broken, removed and repaired, risk '
           'models of any loss types, inputs and flags, with failing and short reads, lazy readers '
           'advanced in turns or abandoned, threads, results spoiled by the caller; models are compared '
           'with the contents of the files of the moment, earlier models with what they were. '
           'Non-trivial: a lazy reader, threads or a failed read.',
           'numbers of projects and models, kinds of models, numbers of loss types',
           [RISK], [FS, LXML, RISKLIB], 2400),
    C33=_p('A run makes table sets of 1-3 models of any kind - at once, through CSV, or record by '
           'record with several conversions in turns, some abandoned - and makes 3-14 steps: values '
           'edited, records replaced, removed and inserted with those that refer to them, models made '
           'of the table sets, two at a time, spoiled by the caller or used as sources again, data '
           'that make no function, failing system calls, threads with models of their own; the tables and models are '
           'compared with plain data read from the XML. Non-trivial: edits, streams or threads.',
           'kinds of models, numbers of edits, of table sets and of records',
           [CONV, CSVM], [FS, NRML, SCIENTIFIC], 1100),
)
