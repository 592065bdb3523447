"""Hand written text per property: T technique (goes to MANIFEST), O oracle, W why beyond the tests"""
D = {
"C01": dict(T="monitor of the built object against a row-list reference model, over 13 TicDat and 8 PanDat construction shapes",
 O="The reference is the row list that was encoded into the shape, plus the documented default per omitted field; rows, field names, order, dtype-visible extra columns, and unchanged arguments are compared. Misfits (wrong length, unknown table or field, bad key) must raise.",
 W="The tests build a handful of fixed schemas in four shapes; here shape, schema, defaults and row widths combine freely (square frames, single-field tables, a field called 'columns', ...)."),
"C02": dict(T="online model-based monitor: every edit is mirrored in plain dicts and lists and the whole table compared after each step",
 O="A dict/list model with the same documented row coercions; after each operation all keys, rows, row lengths, field names and order are compared, a rejected operation must leave everything as it was, and default rows must be fresh objects.",
 W="Histories of 20-60 operations reach states (a defaulted row edited, deleted, re-created) no single test holds."),
"C03": dict(T="attack monitor: every public mutator and in-place operator is called on frozen objects while a deep snapshot is watched",
 O="A snapshot (identity and value) taken at freezing; any difference afterwards, or a MUST_RAISE mutator that returns, is a violation. The list of mutators is read off the live types, so a method that a change adds is attacked too.",
 W="The guarantee quantifies over every operation; tests try assignment and append."),
"C04": dict(T="snapshot monitor across aliasing: random in-place edits of one side while the other side's snapshot is watched, both directions",
 O="Values of the copy against the original; then cell, row, index, dtype and memory-level edits (`.iloc`, `.values`) of one side must not move the exact snapshot of the other.",
 W="Sharing only shows when the right kind of edit follows the right kind of copy."),
"C05": dict(T="reference oracle: independent re-implementation of the data type rules judged cell by cell",
 O="ref.py decides each cell from the documented meaning of the type dictionary; report contents, bad-value sets, row identities, partial reports under max_failures and untouched data are compared; TicDat and PanDat are also compared with each other.",
 W="Cells are drawn on, just inside (nextafter) and outside every bound, with every combination of flags; tests hold a few cells."),
"C06": dict(T="reference oracle plus before/after snapshot of every cell",
 O="The expected table is the old one with exactly the failing, covered cells replaced; second call must change nothing; refused calls must change nothing.",
 W="Needs mixtures of covered/uncovered failing cells, defaults and explicit replacements, which tests do not combine."),
"C07": dict(T="reference oracle: brute force join of child rows against parent rows",
 O="For every declared key: nested-loop matching of the field combinations; report key, cardinality, native_pks / native_values and flags are compared.",
 W="Compound, permuted, shared-field, non-key and cyclic keys over a small value pool give partial matches that single-key tests do not."),
"C08": dict(T="reference oracle: greatest consistent subset computed by brute force fixpoint",
 O="Surviving rows, their order, values and index; no failures left; single-pass semantics with propagate=False.",
 W="Cascades through rings and long chains and rows failing several keys at once."),
"C09": dict(T="call-recording monitor on registered predicates, kwargs makers and convert_dat functions, with a reference report",
 O="The predicates log every call; exactly one call per row and predicate with the full row, the kwargs dict of its own maker called once with the right object; the report equals the hash-decided verdicts.",
 W="Shared makers, clones, raising predicates and converted data interact; tests use one at a time."),
"C10": dict(T="counting oracle over rows with repeated keys, for memory, constructor shapes and files",
 O="collections.Counter over the keys that were put in; handlers (assert, warn, ignore) are watched for raising / warning / keeping the last row.",
 W="All formats x all keep modes x handler settings."),
"C11": dict(T="reference oracle for parameters tables, and round trips through every format",
 O="A plain dict of declared parameters; exact report of bad rows; values and Python types after the round trip.",
 W="Each (type rule, value, format) combination behaves differently; tests sample three."),
"C12": dict(T="model-based monitor: everything a factory shows, plus its verdicts on random data, against a plain-data schema model",
 O="The declarations as plain data with the edit applied; all accessors compared; random data judged by the derived factory against ref.py.",
 W="Interplay of rule kinds (a compound key losing one field, tooltips of removed fields, cross-class clones)."),
"C13": dict(T="identity monitor: each parent's links compared by object identity with the child rows that match by value",
 O="Nested-loop matching; identity of the row objects; key residue; link names; also after reading from files, copying and freezing.",
 W="Several, permuted, compound and self referencing keys between the same tables."),
"C14": dict(T="inverse-mapping oracle: the copy is mapped back through renamings and compared with the original cell by cell",
 O="Entities and references recomputed from the foreign key graph; names are unique, carry the requested prepend; everything else identical; the original untouched.",
 W="More than ten same-prefix tables, mixed-type keys, chains of one-to-one children."),
"C15": dict(T="round-trip monitor with an independent JSON parse of the written file",
 O="Cell by cell comparison by position; the file is parsed with the json module and searched for every cell.",
 W="All cell kinds x three layouts x typed/untyped fields x file or string."),
"C16": dict(T="round-trip monitor with an independent csv parse of the written files",
 O="The documented typing rule per field decides what each written text must come back as.",
 W="Dialects, line breaks, quoting, header-less files, numeric-looking text."),
"C17": dict(T="round-trip monitor with independent sqlite3 inspection (PRAGMAs and raw rows)",
 O="table_info / foreign_key_list against the schema model; raw rows against the documented encoding; cells read back.",
 W="Names and values that need quoting, circular keys, defaults."),
"C18": dict(T="round-trip monitor with independent openpyxl / xlrd reading of the written workbooks, and hand-made workbooks",
 O="Cell by cell by position; which rows are kept when rows are offset, headers absent or blank rows trail.",
 W="Formula-like text, dates, offsets combined with blank rows."),
"C19": dict(T="round-trip and state monitor against a live PostgreSQL 16 server watched through a separate connection",
 O="The rows of every table before and after each call through psycopg2, the constraints in the catalog and by trying to break them; refused calls must leave all rows.",
 W="The repository's PostgreSQL tests need testing.postgresql and do not run here, so everything seen here is new."),
"C20": dict(T="round-trip monitor with independent readers (csv, sqlite3, openpyxl, json) of the written files",
 O="Frames compared by position, dtypes where declared; every writer option.",
 W="Mixed-content columns, arbitrary index, extra columns, chains of formats."),
"C21": dict(T="differential monitor: TicDat against PanDat, both against a brute force reference",
 O="Answers reduced to row positions; files cross-read.",
 W="The two implementations are separate code; tests never run the same data through both."),
"C22": dict(T="two-reader monitor: each file is read by a factory without flag (what is stored) and by one with the flag (what comes back)",
 O="A per-cell function of (value, flag, field type, role of the table).",
 W="Flag boundary values in key fields, parameters, keyless tables, with both readers."),
"C23": dict(T="snapshot and fault-injection monitor: exact before/after snapshots of inputs and files; RLIMIT_FSIZE cuts writes short at a random byte",
 O="Object identities, dtypes, index, bytes of every file of the scratch directory; a cut write must raise or leave a complete file.",
 W="Crash points are not sampled by tests at all."),
"C24": dict(T="differential oracle over sources written without ticdat, every cell distinct",
 O="A value in the wrong column or table is recognised by itself; ambiguous or incomplete sources must raise.",
 W="Spelling x order x company x format."),
"C25": dict(T="differential oracle: indexed answers against a linear scan, with and without gurobipy, over query histories",
 O="Linear scan / pandas .loc / row-by-row calls recorded by a tripwire function.",
 W="Histories with clears and edits of returned lists; unsorted indexes."),
"C26": dict(T="recording stand-ins for amplpy that keep (and validate) everything handed over",
 O="The rows of the data object against what the recorder got; a merge by hand for variables.",
 W="Renamings, exclusions, filters and several variables per table."),
"C27": dict(T="exhaustive-search oracle over small MIPs, differential over three solvers",
 O="Enumeration of the discrete variables with interval reasoning for the continuous ones gives the optimum; solution values are substituted back.",
 W="The tests solve two fixed models."),
"C28": dict(T="process-level monitor of standard_main: solve recorder, before/after hashes of every file, independent readers of outputs and reports",
 O="Solve is called exactly once with the rows the reader returns; the output holds the returned rows; the report equals the reference reports.",
 W="Command lines x formats x faults."),
"C29": dict(T="model-based monitor over interleaved declaration histories of several factories",
 O="Each factory's visible rules equal its own plain-data model after each step; after use every attempt raises and changes nothing.",
 W="Interleaving of factories and objects."),
"C30": dict(T="reference oracle: independent recursive definition of 'conforming', with random damage",
 O="The definition in c30.py judges the damaged object; verdict, message and unchanged object are compared; accepted objects are used.",
 W="The property is over every malformed object."),
"C31": dict(T="reference oracle per (declared type, format, cell kind) over sources written without ticdat",
 O="One decision function per format; cells that can not be converted must come back as they were.",
 W="The type of a field and the look of a cell are drawn independently."),
"C32": dict(T="stream monitor: scheduled interleaved passes compared with the source rows and an ordinary twin",
 O="Row sequences of each open pass; twin object without generator tables.",
 W="Interleaving, abandonment, threads, overwriting the source."),
"C34": dict(T="recording Progress objects attached to real solves; text oracles for log_table and ampl_format",
 O="Each reported interval must contain the optimum found by the same solver without listener; printed text re-parsed.",
 W="Callbacks before a first solution never occur in the tests."),
"C35": dict(T="acceptance monitor: named damage is applied to well-formed schemas and the constructor's verdict compared with it",
 O="A plain-data model of tables, fields, defaults and rules; damaged listings must raise, undamaged ones must give a factory equal to the model, whose empty data objects are good.",
 W="Every kind of damage in every position of random schemas, through both constructors and create_from_full_schema."),
"C36": dict(T="resource monitor: audit hook, descriptor count, directory snapshots and process-state snapshots around every operation",
 O="Before/after snapshots: descriptors (after a collection), the trees of the working, source and temporary directory, warning filters, pandas options, random states, environment, locale, csv dialects, handlers, threads; the audit hook's list of every file the interpreter wrote, created, removed or renamed and every process or connection it started, matched with the target; an exclusive lock taken on a database afterwards.",
 W="Random sequences of writes, reads, duplicate searches, refused writes and broken sources in every TicDat and PanDat format by absolute and relative path, in-memory conversions and checks."),
"C37": dict(T="schedule exploration by injected delays: line tracer that pauses threads at ticdat lines and records the interleaving, observations compared with the sequential run",
 O="The same seeded program of every thread, run alone first: every observation (result in comparable form, or error type and text) must be repeated in the concurrent run; threads must finish.",
 W="2-4 threads over every TicDat and PanDat format with own, shared and shared-but-unused factories and common source files; free-running or in lockstep, with yields, single long pauses per step, pauses at lines reached for the first time, and switch intervals from 1 us."),
"C38": dict(T="history monitor: differential observation of every step of a random history against a newly built factory on an equal object",
 O="The same operation by a factory built from the same specification a moment ago, on an object built from the rows the edited one holds now (or on the same bytes); results in comparable form, errors by type and words. What the results should be is decided by the other properties.",
 W="6-16 steps over checks, repairs, conversions, copies, renaming, freezing, clones, writes and reads (paths written over and over) with up to three living objects that are edited, dropped and replaced (with garbage collection, so that identities recur)."),
"C39": dict(T="differential monitor across processes: the same seeded programs run by interpreters with different hash seeds, time zones and working directories, their observation logs compared offline",
 O="Each process logs a canonical form of every result (or the error type); the logs must agree entry by entry, and the files of one process read by another must give what their writer read. The entries of a report may come in any order; tables, rows and files may not.",
 W="24 programs per batch (half over rules and operations, half over file formats, TicDat and PanDat), three processes writing and three more reading the files of their neighbour; hash seeds 0-3 and random ones, six time zones."),
}
