"""Single source for properties.jsonl (the text of every property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=["ticdat/" + f for f in files],
                               mechanism=[dict(name=a, where="ticdat/" + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "Every accepted input shape builds the same schema-conforming data object",
     "For any schema and any set of rows, building a TicDat from dicts of dicts, dicts of lists, dicts of single values, lists of rows, lists of dicts, key containers, DataFrames or Series gives the same tables, in which every row has exactly the schema's fields under the right names and every field missing from a dict-like row holds that field's default value. "
     "Likewise a PanDat built from DataFrames (any column order, keys as index or columns) or dict/list arguments has all schema fields in schema order, defaults filled in and extra columns kept. "
     "Input that cannot fit the schema (unknown table, unknown field, wrong key or row length) is rejected with an error instead of being stored.",
     ["inputs", "configurations"], "all schemas, row sets and accepted constructor shapes",
     "tests use a handful of fixed diet/netflow literals; they do not compare the shapes with each other over random schemas, defaults and odd values",
     ["ticdatfactory.py", "utils.py", "pandatfactory.py"],
     [("TicDat.__init__", "ticdatfactory.py"), ("td_row_factory", "utils.py"), ("PanDat.__init__", "pandatfactory.py")],
     ["factory.TicDat(...)", "factory.PanDat(...)"])
prop("C02", "Editing a table keeps every row schema-conforming, like a plain dict or list",
     "Under any sequence of edits (assigning rows in any accepted shape, creating a row by reading a missing key, field assignment, deletion, update, append, insert, slicing in and out) a TicDat table holds exactly what a plain dict or list model of the same edits holds. "
     "Every stored row has exactly the table's data fields with defaults filled in for fields missing from dict-like rows. "
     "An edit with the wrong key length, unknown field or wrong row length raises an error and leaves the table unchanged.",
     ["histories"], "all edit histories over any schema",
     "unit tests exercise single edits; the guarantee is about arbitrary histories and about the state after a rejected edit",
     ["ticdatfactory.py", "utils.py"],
     [("TicDatDict / TicDatDataList", "ticdatfactory.py"), ("TicDatDataRow", "utils.py")], ["dat.<table>"])
prop("C03", "A frozen data object can not be changed",
     "After a TicDat is frozen (freeze_me or any freeze_it=True path) no operation on the object, its tables or its rows - setting or deleting attributes, any dict, list or row mutator, editing through a foreign key link, reading a missing key - changes, adds or removes any data of a non-generic table; mutating attempts raise. "
     "Reading still works and returns what was there at freezing time. "
     "The read-only mappings a factory hands out (fields, defaults, types, parameters) can not be used to change the factory.",
     ["histories", "inputs"], "all mutation attempts on all frozen objects, on all paths that freeze",
     "tests try a few mutators on one table; any mutator missed on any container breaks the guarantee",
     ["utils.py", "ticdatfactory.py"],
     [("FreezeableDict, FrozenDict, freezable_factory", "utils.py"), ("_TicDat._freeze", "ticdatfactory.py")],
     ["dat after freeze_me"])
prop("C04", "Copies hold the same data and share no state with the original",
     "copy_tic_dat, copy_pan_dat, copy_to_pandas, copy_to_tic_dat and as_dict (also after pickling and rebuilding) give an object with exactly the data of the original, generic tables included. "
     "Afterwards no edit of the copy is visible in the original and no edit of the original is visible in the copy, and neither object was altered by copying.",
     ["inputs", "histories"], "all data objects and all edits after the copy",
     "tests compare a copy right after copying; sharing shows only under later edits in either direction, for each table kind",
     ["ticdatfactory.py", "pandatfactory.py"],
     [("copy_tic_dat, copy_to_pandas, as_dict", "ticdatfactory.py"), ("copy_pan_dat, copy_to_tic_dat", "pandatfactory.py")],
     ["the copy and the original"])
prop("C05", "Data type checks report exactly the cells that break their declared type",
     "For any schema, declared data types and data, find_data_type_failures reports exactly the (table, field, row) cells whose value violates the field's type (number range with inclusive or exclusive bounds, integrality, allowed strings, nullability, datetime), plus null primary key cells that were not declared nullable: nothing is missed and nothing valid is reported. "
     "TicDat and PanDat agree, max_failures=k yields min(k, total) of the same failures, and the data is not modified.",
     ["inputs", "configurations"], "all type declarations (and re-declarations) and all cell values, boundaries included",
     "tests check a few rules on a few values; bounds, integrality, null and string combinations are too many to sample by hand",
     ["utils.py", "ticdatfactory.py", "pandatfactory.py"],
     [("TypeDictionary.valid_data", "utils.py"), ("find_data_type_failures", "ticdatfactory.py"),
      ("find_data_type_failures", "pandatfactory.py")], ["find_data_type_failures return value"])
prop("C06", "Replacing data type failures changes exactly the failing cells, to valid values",
     "replace_data_type_failures puts the replacement value (explicit, else the field's default) into exactly the failing cells that it covers and leaves every other cell, key, row, column and the row order as they were; afterwards no covered field has failures and a second call changes nothing. "
     "TicDat never replaces primary keys; PanDat replaces a primary key field only when given a replacement value or default. "
     "If a needed replacement value is itself invalid the call raises and changes nothing.",
     ["inputs", "configurations"], "all schemas, rules, data and replacement maps",
     "tests replace in one or two tables and look at the failing cells; untouched cells and mixed replacement maps are not compared",
     ["ticdatfactory.py", "pandatfactory.py"],
     [("replace_data_type_failures", "ticdatfactory.py"), ("replace_data_type_failures", "pandatfactory.py")],
     ["the data object before and after"])
prop("C07", "Foreign key checks report exactly the child rows without a matching parent",
     "For any set of simple or compound foreign keys (to key or non-key fields, shared fields, self references, cycles, chains) and any data, find_foreign_key_failures reports for each foreign key exactly the native rows whose field combination occurs in no row of the foreign table, under the key that names that foreign key and its right cardinality, and nothing for the others. "
     "native_values are exactly the unmatched values, TicDat and PanDat agree, both verbosities agree, and max_failures=k yields min(k, total) of the same failures.",
     ["inputs", "configurations"], "all foreign key graphs and data",
     "tests use fixed schemas, mostly single-field keys in declaration order",
     ["ticdatfactory.py", "pandatfactory.py", "utils.py"],
     [("find_foreign_key_failures", "ticdatfactory.py"), ("_find_foreign_key_failure_rows", "pandatfactory.py"),
      ("ForeignKey", "utils.py")], ["find_foreign_key_failures return value"])
prop("C08", "Removing foreign key failures cascades to the largest consistent remainder",
     "remove_foreign_key_failures leaves no foreign key failure behind, removes a row only if that row lacks a parent or loses it through the cascade (so the remainder is the largest consistent one), and leaves every other row, value and table untouched. "
     "With propagate=False exactly the rows failing at the time of the call are removed. Adding implied foreign keys never changes which rows survive.",
     ["inputs", "configurations"], "all foreign key graphs (chains, diamonds, cycles, keyless tables) and data",
     "tests cover short cascades over fixed data; over-removal and cascade order need arbitrary graphs",
     ["ticdatfactory.py", "pandatfactory.py"],
     [("remove_foreign_key_failures, add_implied_foreign_keys", "ticdatfactory.py"),
      ("remove_foreign_key_failures", "pandatfactory.py")], ["the data object before and after"])
prop("C09", "Row predicates are evaluated on every row and failures reported exactly",
     "find_data_row_failures calls every registered predicate with each full row (key and data fields) of its table and reports exactly the rows it rejects, under the right table and predicate name, with the error message it returned for Error Message predicates. "
     "A kwargs maker runs once per call (on the converted data object if the factory was cloned with convert_dat) and its dict reaches each predicate call; exceptions and non-dict results become failures or propagate as exception_handling says. "
     "max_failures=k yields min(k, total) of the same failures, TicDat and PanDat agree, and the data is not modified.",
     ["inputs", "configurations", "fault_sequences"], "all predicate sets, rows, exceptions raised by predicates and makers",
     "tests use a couple of always-working predicates; combinations with makers, exceptions, messages and limits are not covered",
     ["ticdatfactory.py", "pandatfactory.py"],
     [("find_data_row_failures", "ticdatfactory.py"), ("find_data_row_failures", "pandatfactory.py")],
     ["calls seen by recorded predicates", "find_data_row_failures return value"])
prop("C10", "Duplicate rows are found exactly and never lost silently",
     "PanDatFactory.find_duplicates reports exactly the rows whose primary key repeats in their table, with the meaning of keep='first', 'last' or False, and nothing for unique or keyless tables. "
     "find_duplicates of each file reader (CSV, JSON, SQLite, Excel) maps exactly the repeated primary keys of each table to how many rows share them. "
     "Building a TicDat from rows with repeated keys (or reading one from JSON) raises an error when duplicates_ticdat_init is 'assert', prints a warning when 'warn', and is silent only when 'ignore'; the last row per key is then kept.",
     ["inputs", "configurations"], "all row multisets and key shapes, in each source",
     "tests use one duplicated row in a known table",
     ["pandatfactory.py", "ticdatfactory.py", "csvtd.py", "jsontd.py", "sqlitetd.py", "xls.py"],
     [("find_duplicates", "pandatfactory.py"), ("find_duplicates", "csvtd.py"), ("find_duplicates", "jsontd.py"),
      ("find_duplicates", "sqlitetd.py"), ("find_duplicates", "xls.py"), ("TicDat.__init__", "ticdatfactory.py")],
     ["find_duplicates return values", "TicDat construction"])
prop("C11", "Parameters: defaults complete the table, bad names or values are always reported",
     "create_full_parameters_dict returns the table's value for every parameter present and the declared default for every other one. "
     "find_data_row_failures reports exactly the parameters-table rows whose name was not declared or whose value breaks the declared type. "
     "Writing a parameters table to any supported file format and reading it back yields the same names and the same typed values (numbers, text that looks numeric, infinity, dates, null).",
     ["inputs", "configurations"], "all parameter declarations, values and file formats",
     "tests use a few parameters; the string round trip of each type through each format is not enumerated",
     ["ticdatfactory.py", "pandatfactory.py", "pandatio.py", "csvtd.py", "xls.py", "sqlitetd.py", "jsontd.py"],
     [("create_full_parameters_dict, _parameter_table_post_read_adjustment", "ticdatfactory.py"),
      ("_general_post_read_adjustment", "pandatfactory.py")], ["create_full_parameters_dict", "file round trips"])
prop("C12", "Schemas survive serialization, cloning and schema editing with all their rules",
     "create_from_full_schema applied to schema(include_ancillary_info=True), directly or through JSON, and clone() - also between TicDatFactory and PanDatFactory and restricted to some tables - give a factory with the same tables, fields, defaults, types, foreign keys, parameters, tooltips and flags (minus whatever belonged to removed tables), which judges data identically. "
     "clone_add_a_table, clone_add_a_column, clone_remove_a_column and clone_rename_a_column change exactly what they name, carry over all remaining rules, and never alter the original factory.",
     ["inputs", "configurations", "histories"], "all schemas and sequences of schema edits",
     "tests check a few schema attributes on fixed schemas; lost rules show only when all of them are compared",
     ["utils.py", "ticdatfactory.py", "pandatfactory.py"],
     [("clone_a_anchillary_info_schema, clone_*", "utils.py"), ("create_from_full_schema, clone", "ticdatfactory.py"),
      ("create_from_full_schema, clone", "pandatfactory.py")], ["schema(include_ancillary_info=True)"])
prop("C13", "Foreign key links reach exactly the matching child rows",
     "With foreign key links enabled, each parent row of a TicDat offers, under the child table's name, exactly the child rows whose foreign key matches it, as the very same row objects that the child table holds, keyed by the rest of the child's key (a single row for one-to-one links), and nothing for parents without children. "
     "This holds however the object was made (constructor, copy, file reader) and links never alter the table data.",
     ["inputs", "configurations"], "all linkable foreign key sets and data",
     "tests follow a few links in fixed data",
     ["ticdatfactory.py"], [("_try_make_foreign_links, _trigger_has_been_used", "ticdatfactory.py")],
     ["attributes of parent rows"])
prop("C14", "obfusimplify renames keys consistently and reversibly",
     "obfusimplify returns a copy that differs from the original only by an injective renaming of the single-field primary keys of entity tables and of every foreign key reference to them: mapping names back through renamings restores exactly the original data. "
     "Foreign keys still hold, skipped tables and other fields are untouched, requested prepends are used, each new name is its table's prepend followed by a number, and the original is not modified.",
     ["inputs", "configurations"], "all schemas without foreign key failures, prepends and skip lists",
     "tests check a few renamings; reversibility over arbitrary link structures is not tested",
     ["ticdatfactory.py", "pandatfactory.py", "utils.py"], [("obfusimplify", "ticdatfactory.py"),
                                                            ("obfusimplify", "pandatfactory.py")],
     ["obfusimplify result"])
prop("C15", "JSON round trip of a TicDat preserves the data",
     "For any TicDat whose cells are numbers, strings, booleans, None or (in datetime fields) datetimes, json.write_file followed by json.create_tic_dat gives a TicDat with the same tables, keys and values, in the plain, verbose and pandas layouts, keyless tables and row order included. "
     "A file another factory with the same tables wrote is read the same way, and written files are valid JSON containing every cell.",
     ["inputs", "configurations"], "all schemas and JSON-representable data",
     "tests round-trip a few fixed objects", ["jsontd.py"],
     [("write_file, create_tic_dat, make_json_dict", "jsontd.py")], ["json file, re-read object"])
prop("C16", "CSV round trip of a TicDat preserves the data up to CSV typing rules",
     "csv.write_directory followed by csv.create_tic_dat gives the same tables, keys and values for any data CSV can carry: numbers and text, with text containing commas, quotes, line breaks or non-ASCII characters intact, with or without headers and in any dialect. "
     "Text in a field declared text-only stays text even when it looks like a number, numbers in other fields come back as equal numbers, and an empty cell follows the documented default/None rule.",
     ["inputs", "configurations"], "all schemas, dialects and CSV-representable data",
     "tests round-trip simple fixed tables", ["csvtd.py"],
     [("write_directory, create_tic_dat, _read_cell", "csvtd.py")], ["csv files, re-read object"])
prop("C17", "SQLite database and SQL text round trips of a TicDat preserve the data",
     "sql.write_db_data then create_tic_dat, and sql.write_sql_file then create_tic_dat_from_sql (with or without schema), give a TicDat with the same tables, keys and values for numbers, strings, booleans as documented, None and datetimes in datetime fields, tables without primary keys included. "
     "The created database has the schema's primary keys, defaults and foreign keys and holds exactly the written rows.",
     ["inputs", "configurations"], "all schemas and SQLite-representable data",
     "tests round-trip fixed tables; odd strings, order of tables with foreign keys and keyless tables are hardly covered",
     ["sqlitetd.py"], [("write_db_data, write_sql_file, create_tic_dat, _ordered_tables", "sqlitetd.py")],
     ["sqlite file read with the sqlite3 module, re-read object"])
prop("C18", "Excel round trip of a TicDat preserves the data",
     "xls.write_file to .xls, .xlsx or .xlsm-readable form and xls.create_tic_dat give the same tables, keys and values for numbers, non-empty text, None and datetimes in datetime fields, with either sheet naming style. "
     "Row offsets, absent headers and blank trailing rows are handled as documented: exactly the data rows after the offset are read and only trailing all-empty rows are pruned.",
     ["inputs", "configurations"], "all schemas, both Excel formats, row offsets and data",
     "tests round-trip fixed tables", ["xls.py"],
     [("write_file, create_tic_dat, _OpenPyxlSheetWrapper", "xls.py")], ["workbook read with openpyxl/xlrd, re-read object"])
prop("C19", "PostgreSQL write and read preserve the data and respect existing rows",
     "For TicDat and PanDat, pgsql.write_schema then write_data then reading back gives the same data in every table, with the created tables enforcing the schema's primary and foreign keys. "
     "pre_existing_rows='delete' replaces the old rows of exactly the chosen tables and 'append' keeps them; with active_fld only active rows are read. "
     "A write refused up front (invalid object, unknown or malformed arguments, missing tables or fields, names or types PostgreSQL can not have) leaves the database as it was; column types, defaults and NOT NULL follow the declared types, and find_duplicates counts repeated keys.",
     ["inputs", "configurations", "fault_sequences"], "all schemas and data on a real PostgreSQL server",
     "tests write fixed data once into an empty schema", ["pgtd.py"],
     [("write_schema, write_data, create_tic_dat, create_pan_dat, _handle_prexisting_rows", "pgtd.py")],
     ["rows queried through psycopg2, re-read object"])
prop("C20", "PanDat file round trips preserve the data",
     "For each of JSON, CSV, SQLite and Excel (and each documented writer option), writing a PanDat and reading it back gives the same tables with the same rows in the same order and equal values, generic tables included where the format supports them, with columns in schema order and extra columns dropped. "
     "Fields declared text-only come back as text even when it looks numeric, and datetime fields come back as datetimes.",
     ["inputs", "configurations"], "all schemas, formats, writer options and representable data",
     "tests round-trip fixed tables with few typed fields", ["pandatio.py", "pandatfactory.py"],
     [("Json/Csv/Sql/XlsPanFactory", "pandatio.py"), ("_general_post_read_adjustment, _pre_write_adjustment", "pandatfactory.py")],
     ["re-read object"])
prop("C21", "TicDat and PanDat give the same answers for the same data",
     "For the same schema, rules and rows, TicDatFactory and PanDatFactory report the same data type failures, foreign key failures, row predicate failures and parameter values, and keep the same rows after foreign key removal. "
     "A file written by either one and read by the other (JSON pandas layout, CSV, SQLite, Excel) holds the same data, and copy_to_pandas / copy_to_tic_dat convert between them without loss.",
     ["inputs", "configurations"], "all schemas, rules and data expressible in both",
     "each factory is tested on its own; they are two implementations of one contract",
     ["ticdatfactory.py", "pandatfactory.py", "pandatio.py"],
     [("find_* functions", "ticdatfactory.py"), ("find_* functions", "pandatfactory.py")], ["both reports"])
prop("C22", "Infinity flagging is applied symmetrically and only where it should be",
     "With a numeric infinity_io_flag every written file or database holds the flag (negated) in place of (negative) infinity, and reading turns every number at or beyond the flag into infinity of the right sign; with None, infinity is written as null and read back as the infinity that the field's type allows, only in fields whose type allows that infinity and not null. "
     "This holds for every table of declared fields except parameters (a table declared with '*' gives its infinities back whatever the flag), with or without primary keys, for key and data fields and in every format; with 'N/A' nothing is converted, and the object being written is never altered.",
     ["inputs", "configurations"], "all flag settings, formats, table kinds and field types",
     "tests use one or two tables per format; keyless tables, key fields and flag-sized values are not covered",
     ["ticdatfactory.py", "pandatfactory.py", "csvtd.py", "sqlitetd.py", "xls.py", "jsontd.py", "pandatio.py", "pgtd.py"],
     [("_general_read_cell, _infinity_flag_write_cell, _none_as_infinity_bias", "ticdatfactory.py"),
      ("_pre_write_adjustment, _general_post_read_adjustment", "pandatfactory.py")],
     ["raw file contents", "re-read object"])
prop("C23", "Writers never change their input and never destroy existing files unasked",
     "No writer or reader of any format modifies the data object it is given or the factory's rules. "
     "With allow_overwrite=False an existing target file, table file or non-empty database table is left byte-for-byte (row-for-row) unchanged and the call raises; with allow_overwrite=True the result holds only the new data. "
     "A write that fails half way (an I/O error at any point) is reported by an exception and never by silent success.",
     ["inputs", "configurations", "crash_points", "fault_sequences"], "all writers, pre-existing targets and I/O failure points",
     "tests check that the error is raised for one file, not that nothing was touched, and inject no I/O faults",
     ["csvtd.py", "jsontd.py", "sqlitetd.py", "xls.py", "pandatio.py"],
     [("allow_overwrite checks", "csvtd.py"), ("write_file", "jsontd.py"), ("write_db_data", "sqlitetd.py"),
      ("write_file", "xls.py")], ["target bytes before/after", "data snapshot before/after"])
prop("C24", "Readers match tables and fields by name and refuse incomplete sources",
     "In every format a table is found under its name ignoring case, with spaces in place of any underscores; two equally good matches are refused. "
     "Where the source names its fields, they are matched by name whatever the column order (ignoring case for the TicDat csv, Excel and SQLite readers, literally for PanDat), extra columns and tables are ignored, a table that is entirely absent is read as empty, "
     "and a table lacking a schema field is refused - unless fill_missing_fields is set (PanDat), which fills in the default value of data fields. "
     "Sources that are damaged, absent or (headerless) have too few columns are refused, and so are Excel files for tables whose names agree up to case in their first 30 characters.",
     ["inputs", "configurations"], "all table and column name variants, orders, omissions and additions",
     "tests use a couple of renamed tables", ["csvtd.py", "xls.py", "sqlitetd.py", "jsontd.py", "pandatio.py", "utils.py"],
     [("all_underscore_replacements", "utils.py"), ("_get_table_names", "pandatio.py"), ("_get_sheets_and_fields", "xls.py"),
      ("_get_file_path", "csvtd.py"), ("_get_table_names", "sqlitetd.py")], ["re-read object or error"])
prop("C25", "Slicer, Sloc and faster_df_apply agree with their brute-force meaning",
     "Slicer.slice returns exactly the index tuples that match the given values ('*' matching anything), the same with or without gurobipy and across any sequence of slices and clears. "
     "Sloc returns what .loc returns, and an empty Series where .loc fails on an absent slice. "
     "faster_df_apply calls the function once per row in order and returns what DataFrame.apply(axis=1) returns, for any columns, dtypes and index.",
     ["inputs", "histories"], "all index sets, query sequences and DataFrames",
     "tests slice one or two index sets", ["utils.py"],
     [("Slicer, Sloc, faster_df_apply", "utils.py")], ["return values"])
prop("C26", "AMPL exchange transfers every row and value",
     "copy_to_ampl hands over, for each table with a primary key that was not excluded, every row with key and data fields under their (renamed) names and only omits fields explicitly dropped; set_ampl_data passes each of them, to the requested set, exactly once. "
     "copy_from_ampl_variables yields exactly the variable entries that pass the filter (non-zero by default), with all variables of one table merged by key. ampl_format substitutes exactly as str.format does for {{...}} fields.",
     ["inputs", "configurations"], "all schemas, renamings, exclusions and variable contents",
     "the AMPL tests need an AMPL installation and are skipped here", ["ticdatfactory.py", "pandatfactory.py", "utils.py"],
     [("copy_to_ampl, set_ampl_data, copy_from_ampl_variables", "ticdatfactory.py"), ("copy_to_ampl", "pandatfactory.py"),
      ("ampl_format", "utils.py")], ["a recording stand-in for amplpy"])
prop("C27", "The Model layer solves the same model to the same optimum on every solver",
     "A model built through ticdat.Model (bounds, variable types, linear constraints, indicator constraints, min or max objective) has the optimum that exhaustive search finds, on every installed solver (Gurobi, CPLEX, Xpress); optimize is truthy exactly when a feasible optimum exists. "
     "get_solution_value returns values that satisfy all constraints and give that objective, and get_mip_results brackets it.",
     ["programs", "inputs"], "all small mixed integer programs",
     "tests solve a few classic models", ["model.py"],
     [("add_var, add_constraint, set_objective, optimize, get_solution_value", "model.py")], ["solution values"])
prop("C28", "standard_main runs the whole pipeline faithfully",
     "For each input and output format standard_main reads the input data, calls solve with it exactly once, and writes exactly the solution returned to the output (nothing if solve returns nothing), honouring the command line options. "
     "With --errors the report file contains exactly the duplicate rows, data type failures, row predicate (and parameter) failures and foreign key failures of the input, and solve runs (and an output is written) only when there are none; duplicates in a TicDat input stop the run. Whatever else stops a run (help, bad options, missing or unreadable input, an exception in solve, a result that is no data object) leaves every file as it was. With a Foresta configuration the same input is uploaded once and the downloaded solution written.",
     ["inputs", "configurations"], "all command lines, formats and data",
     "tests run it on a few fixed files", ["utils.py"],
     [("standard_main, _integrity_solve", "utils.py")], ["files written, data seen by solve"])
prop("C29", "Factory rules are fixed once used, and factories never influence each other",
     "Once a factory has created a data object, every attempt to change its types, defaults, foreign keys or predicates, or to add a parameter, raises and leaves the rules as they were (only remove_parameter stays possible). "
     "Before that, any sequence of set, override and clear calls leaves exactly the last declared rules. "
     "Creating, using, cloning or changing one factory never changes another factory or data objects made by another factory.",
     ["histories", "configurations"], "all sequences of rule changes, uses and clones over several factories",
     "tests try a few calls after use", ["ticdatfactory.py", "pandatfactory.py"],
     [("_has_been_used checks", "ticdatfactory.py"), ("_has_been_used checks", "pandatfactory.py")],
     ["schema(include_ancillary_info=True)"])
prop("C30", "Data object validation accepts exactly the conforming objects",
     "good_tic_dat_object and good_pan_dat_object (and good_tic_dat_table) return True exactly for objects that have every table, of the right kind, whose rows have the right key lengths and field names, and False with a message through the handler for any other object, however it was damaged. "
     "They never modify the object; whatever they accept can be copied, checked and written without error.",
     ["inputs"], "all data objects, with every kind of damage",
     "tests check a few malformed tables", ["ticdatfactory.py", "pandatfactory.py"],
     [("good_tic_dat_object, good_tic_dat_table", "ticdatfactory.py"), ("good_pan_dat_object", "pandatfactory.py")],
     ["return value and messages"])
prop("C31", "Readers convert each cell by its field's declared type, and never otherwise",
     "In every file format a field declared datetime is read as datetimes wherever the content parses as one, a field declared text-only keeps its text verbatim, and a field that allows both numbers and text turns numeric text into numbers only where the format or the automunge setting documents it. "
     "Content that can not be converted is kept as is (and so remains visible to the data type check), never dropped or replaced.",
     ["inputs", "configurations"], "all type declarations, cell contents, formats and automunge settings",
     "tests check a few automunge cases in a few formats",
     ["ticdatfactory.py", "pandatfactory.py", "csvtd.py", "xls.py", "sqlitetd.py", "jsontd.py", "pandatio.py"],
     [("_general_read_cell", "ticdatfactory.py"), ("_general_post_read_adjustment, _dtypes_for_pandas_read", "pandatfactory.py"),
      ("_read_cell", "csvtd.py")], ["re-read object"])
prop("C32", "Generator tables stream the same rows as ordinary tables, every time",
     "A table declared as generator table is a callable whose every call yields a fresh pass over exactly the rows an ordinary table would hold, in source order, whether built from a list, from a generator function or read from CSV, SQLite or Excel, and writers write all of its rows. "
     "Interleaved or repeated passes do not disturb each other, and other tables are unaffected.",
     ["inputs", "histories", "schedules"], "all keyless tables, sources and interleavings of passes",
     "tests iterate once over a fixed generator table", ["ticdatfactory.py", "csvtd.py", "sqlitetd.py", "xls.py"],
     [("generatorfactory, set_generator_tables", "ticdatfactory.py"), ("_create_table", "csvtd.py"),
      ("_create_gen_obj", "sqlitetd.py"), ("_create_generator_obj", "xls.py")], ["rows yielded"])
prop("C33", "Microsoft Access round trip preserves the data",
     "mdb.write_file followed by mdb.create_tic_dat gives a TicDat with the same tables, keys and values, and existing rows are overwritten only with allow_overwrite=True.",
     ["inputs", "configurations"], "all schemas and data on an Access database",
     "the Access tests need an ODBC driver that is not installed", ["mdb.py"],
     [("write_file, create_tic_dat", "mdb.py")], ["re-read object"])
prop("C34", "Progress reports, logged tables and AMPL text show exactly what they are given",
     "A Progress object hooked to a Gurobi, CPLEX or Xpress solve receives, at any stage of any solve including before a solution is known, a theme and numeric lower and upper bounds that enclose the optimum; printing them is exact, and returning False from it stops the solve. "
     "LogFile.log_table writes header and rows in order up to the row limit, stating the true total; ampl_format replaces exactly the {{name}} entries and raises for unknown names. Senseless arguments are refused.",
     ["inputs", "schedules", "configurations"], "all solves on all solvers, all tables and texts",
     "tests call the Progress hooks on no solve without an incumbent, and log no table", ["utils.py"],
     [("Progress", "utils.py"), ("LogFile.log_table", "utils.py"), ("ampl_format", "utils.py")],
     ["calls of mip_progress", "stdout", "log file"])
prop("C35", "Factories are built from exactly the well-formed schemas",
     "TicDatFactory(...), PanDatFactory(...) and create_from_full_schema make a factory for every well-formed schema and raise for every other one: table names with blanks, a leading underscore or differing only in case, anything but '*' or two lists of field names, no fields at all, fields that are not text or repeat (also only up to case), and full schemas with missing or unknown entries or rules that name unknown tables or fields or carry illegal values. "
     "A factory that was made has exactly the given tables, with key and data fields in the given order, zero as the default of each data field and no other rules than the ones given; entries a full schema may leave out get their usual values, and the argument is not changed.",
     ["inputs", "configurations"], "all table listings and full schema dictionaries, well-formed or not",
     "tests refuse two or three malformed schemas", ["ticdatfactory.py", "pandatfactory.py", "utils.py"],
     [("TicDatFactory.__init__, create_from_full_schema", "ticdatfactory.py"), ("PanDatFactory.__init__, create_from_full_schema", "pandatfactory.py")],
     ["TicDatFactory(...)", "PanDatFactory(...)", "create_from_full_schema", "schema()"])

prop("C36", "Operations leave no open handles, stray files or changed process state",
     "Writing, reading and duplicate search in every format, in-memory conversion and checking leave nothing behind: no open file descriptor, no lock on a database file, no temporary file and no file or folder other than the target; reads change nothing on disk. "
     "A connection passed in stays open and usable. Working directory, environment, warning filters, pandas options, random state, locale, csv dialects, signal handlers, threads and the like are as before. "
     "This holds for successful operations as for refused writes and for reads of missing, damaged or foreign sources, by absolute or relative path.",
     ["inputs", "histories", "fault_sequences", "configurations"], "all sequences of operations on all formats, sound or broken sources",
     "tests never look at descriptors, directories or process-wide state", ["csvtd.py", "sqlitetd.py", "xls.py", "jsontd.py", "pandatio.py", "pgtd.py"],
     [("create_tic_dat, write_*, find_duplicates", "csvtd.py"), ("create_tic_dat, write_db_data", "sqlitetd.py"), ("create_tic_dat, write_file", "xls.py"), ("create_pan_dat, write_*", "pandatio.py")],
     ["audit events", "open descriptors", "directory trees", "process-wide state"])

prop("C37", "Threads working side by side see what each would see alone",
     "Threads that use ticdat at the same time - each with its own factory, or sharing one factory (even while it is used for the first time) and reading the same source files - get, for every read, write, duplicate search, integrity check, copy, conversion, renaming and freeze on their own data, "
     "exactly the result or the error they would get running alone, and finish.",
     ["schedules", "histories", "inputs"], "all interleavings of threads that share factories and sources but no data object and no target",
     "tests are single-threaded", ["ticdatfactory.py", "pandatfactory.py", "csvtd.py", "jsontd.py", "sqlitetd.py", "xls.py", "pandatio.py", "utils.py"],
     [("_none_as_infinity_bias_cache, _has_been_used", "ticdatfactory.py"), ("create_tic_dat, find_duplicates", "csvtd.py"), ("create_pan_dat", "pandatio.py"), ("find_duplicates", "utils.py")],
     ["thread switches at ticdat lines", "results and errors of each thread"])

prop("C38", "Results depend on arguments and rules, never on what was done before",
     "Every read, write, duplicate search, integrity check, repair, foreign key removal, copy, conversion, renaming, freeze and clone by a factory gives the result or the error that a newly built factory with the same rules gives for the same arguments - whatever the factory did before, however often the data object was edited or checked in between, "
     "whichever other objects came and went, and whatever the same path held earlier.",
     ["histories", "inputs"], "all histories of operations, edits and replacements of data objects and files",
     "tests use a factory for one scenario and throw it away", ["ticdatfactory.py", "pandatfactory.py", "csvtd.py", "jsontd.py", "sqlitetd.py", "xls.py", "pandatio.py", "utils.py"],
     [("find_data_type_failures, find_foreign_key_failures, _none_as_infinity_bias_cache", "ticdatfactory.py"), ("find_data_type_failures, find_foreign_key_failures", "pandatfactory.py"),
      ("create_tic_dat, write_directory", "csvtd.py"), ("create_pan_dat, write_file", "pandatio.py")],
     ["results and errors of each step", "the same step by a new factory"])

prop("C39", "Results do not depend on the process: hash seed, time zone, directory",
     "The same program - build rules and data, check, repair, remove, copy, convert, freeze, clone, write, read, search duplicates - gives the same results and error types (order included where the data has an order) in every process, whatever its hash seed, time zone and working directory, "
     "and a process reads the files another process wrote exactly as it reads its own. The names that obfusimplify invents are not covered.",
     ["environments", "inputs"], "all hash seeds, time zones and working directories, for all rules and data",
     "tests run in one process with whatever environment it has", ["ticdatfactory.py", "pandatfactory.py", "csvtd.py", "jsontd.py", "sqlitetd.py", "xls.py", "pandatio.py", "utils.py"],
     [("create_from_full_schema, TicDat, copy_to_pandas, clone", "ticdatfactory.py"), ("PanDat, clone, find_duplicates", "pandatfactory.py"),
      ("create_tic_dat, write_directory", "csvtd.py"), ("write_file, create_tic_dat", "jsontd.py"), ("write_db_data", "sqlitetd.py"), ("create_pan_dat, write_file", "pandatio.py")],
     ["observations of each process", "files exchanged"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
