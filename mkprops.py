#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the statements can be edited legibly).
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

p("C01", "Apply brings the live schema to the declared schema",
  "For every live database and every valid set of declared table definitions, after `apply` the server's tables, columns (type, length, sign, nullability, default, auto-increment, enum values, charset/collation where the declaration and the printed live definition both name one), indexes and foreign keys are the declared ones, tables that are not declared are gone, and a further `plan` is empty. "
  "Differences that the tool documents as equivalent (integer display width, table options, a charset or collation named on one side only, an index that differs only by carrying a constraint's name, numerically equal defaults) are not differences.",
  ["inputs", "histories"],
  "all pairs (live schema, declared schema) reachable by arbitrary edits: added/removed/changed columns, keys, constraints and tables in any combination, on MySQL 5.7, 8.0 and MariaDB style servers, and sequences of successive declarations",
  "The tests pin the SQL text for a few dozen hand-written single differences; nothing applies a plan to a server model and compares the resulting schema, nor combines differences.",
  ["mygrations/formats/mysql/mygrations/mygration.py", "mygrations/formats/mysql/definitions/table.py", "mygrations/core/definitions/columns/", "mygrations/formats/mysql/mygrations/operations/"],
  [("table diff", "definitions/table.py Table.to"), ("plan assembly", "mygration.py Mygration._process"), ("column equality", "columns/*.py is_really_the_same_as")],
  ["statements sent to the server connection", "server schema after apply"])

p("C02", "A database that already matches gets an empty plan",
  "If the live database already has the declared structure and tracked rows, `plan` and `apply` produce no statement at all, however the server chooses to print its definitions. "
  "That covers differences of representation only: keyword case, integer display widths, type synonyms, quoted or padded numeric defaults, implied charset/collation, explicit `DEFAULT NULL`, table options, auto-created or auto-named foreign key indexes, and numeric or textual row values.",
  ["inputs", "configurations"],
  "all declared schemas with rows, every representation of the same schema that MySQL 5.7, MySQL 8.0 and MariaDB print",
  "Known false positives have one regression test each (text collation, decimal default, display width, boolean); the space of type x attribute x server representation is not swept.",
  ["mygrations/core/definitions/columns/", "mygrations/formats/mysql/definitions/table.py", "mygrations/formats/mysql/db_reader/database.py", "mygrations/formats/mysql/file_reader/parsers/"],
  [("false positive suppression", "columns/*.py is_really_the_same_as; table.py index name matching"), ("synonyms", "parsers/type.py _normalize_type")],
  ["planned statements against a server that already has the declared schema"])

p("C03", "Every planned statement is accepted by the server in plan order",
  "Executing a plan statement by statement never violates a rule the server enforces even with foreign key checks off: no column, key, constraint or table is added twice or dropped when absent, no foreign key connects columns of different type, sign, length family, charset or collation after any statement, no column or index still needed by a foreign key is removed, and every statement is syntactically valid SQL. "
  "Foreign key checks are switched off before the first and on again after the last change.",
  ["inputs", "histories"],
  "all plans produced for arbitrary (live, declared) pairs, in particular type changes of columns in self-referencing, cyclic, chained, renamed and duplicated foreign keys spread over several tables",
  "The foreign key reordering is tested on about a dozen fixed schemas by comparing SQL text; no test runs the statements against the server's rules.",
  ["mygrations/formats/mysql/mygrations/mygration.py", "mygrations/formats/mysql/definitions/table.py", "mygrations/formats/mysql/mygrations/operations/"],
  [("FK drop/re-add around type changes", "mygration.py _find_fk_ops_for_column_type_changes"), ("FK ops split from other ops", "table.py Table.to(split_operations=True)"), ("checks bracket", "commands/plan.py build_commands")],
  ["each statement at the server connection, server state after it"])

p("C04", "An interrupted apply is recovered by running apply again",
  "If the server rejects a statement or the connection is lost at any point of an apply, the error reaches the caller, nothing after the failing statement is sent, and tracked row changes of that run are not committed. "
  "A following apply against whatever state the server was left in again succeeds and ends in the same schema and tracked rows as an uninterrupted run.",
  ["crash_points", "fault_sequences"],
  "every statement index (before and after it took effect), the commit itself, and repeated interruptions of the recovery runs, for arbitrary (live, declared) pairs",
  "No existing test injects a fault at all.",
  ["mygrations/drivers/pymysql/pymysql.py", "mygrations/core/commands/apply.py", "mygrations/formats/mysql/mygrations/mygration.py"],
  [("plan derived only from live state", "commands/plan.py build_commands"), ("single commit after the last statement", "drivers/pymysql/pymysql.py execute")],
  ["server event log with injected faults"])

p("C05", "Migration leaves everything it was not asked to change alone",
  "A plan only names tables, columns, keys, constraints and rows that differ between the live database and the declaration: a column present in both is never dropped or re-created, unchanged tables are never altered, and surviving rows keep the values of surviving unchanged columns. "
  "Rows of tables without declared rows are neither read nor modified, and in tables with declared rows exactly the missing rows are inserted, the undeclared rows deleted and the differing rows updated.",
  ["inputs", "histories"],
  "all (live, declared) pairs with arbitrary table contents, in which the set of differences is known by construction",
  "Tests check plans with one or two differences; absence of unrelated operations across combined changes, and preservation of stored data, is never checked.",
  ["mygrations/formats/mysql/definitions/table.py", "mygrations/formats/mysql/mygrations/row_mygration.py", "mygrations/core/commands/plan.py", "mygrations/formats/mysql/mygrations/mygration.py"],
  [("set differences by name", "core/definitions/table.py _differences"), ("row tracking", "commands/plan.py; row_mygration.py")],
  ["statements at the connection (including reads)", "server rows before and after"])

p("C06", "Fail closed: unusable definitions are reported and change nothing",
  "If any declared file cannot be understood in full, or its definitions are invalid (duplicate tables, columns, keys, constraints or row ids, rows for a missing table or column, wrong value counts, broken constraints, a CREATE TABLE without its terminating semicolon), `check` reports errors and `plan`/`apply` send no data- or schema-changing statement unless forced. "
  "No CREATE TABLE or INSERT in the input is ever silently lost or truncated, a live table that cannot be understood stops the run rather than being treated as absent, and every input terminates.",
  ["inputs", "programs"],
  "all texts: valid files damaged by token deletion, duplication, insertion, truncation or splicing, unsupported statements at every position, arbitrary garbage, over one or several files",
  "Tests cover a few specific errors one at a time; loss of a statement is only visible if the number of statements in the text is compared with what was understood.",
  ["mygrations/formats/mysql/file_reader/reader.py", "mygrations/formats/mysql/file_reader/database.py", "mygrations/core/definitions/database.py", "mygrations/core/definitions/table.py", "mygrations/core/commands/plan.py", "mygrations/formats/mysql/db_reader/database.py"],
  [("reader loop", "reader.py Reader.parse"), ("error aggregation", "core/definitions/database.py errors"), ("early exit", "commands/plan.py build_commands")],
  ["check's returned errors", "statements at the connection"])

p("C07", "What a file declares does not depend on how it is written",
  "Two texts that declare the same schema and rows are read as the same definitions: whitespace, line breaks, keyword case, backticks, comments of all three styles in any place between tokens, equivalent spellings of types and attributes, optional keywords, and the distribution of statements over strings, files and directories do not matter. "
  "Text inside quotes that looks like a comment, separator, keyword or bracket is data.",
  ["inputs"],
  "all declared schemas x all formatting variants x all file layouts",
  "Parser tests fix one layout per feature; combinations of comments, quoting and layouts (including comment text between two statements) are not covered.",
  ["mygrations/core/parse/", "mygrations/formats/mysql/file_reader/"],
  [("whitespace normalisation", "core/parse/parser.py parse"), ("rule engine", "core/parse/rule_*.py"), ("comment removal", "comment_parser.py, create_parser.py parse")],
  ["definitions obtained through the public database object", "planned statements"])

p("C08", "Row values reach the server exactly as declared",
  "Every value declared in an INSERT (quotes, backslashes, separators, brackets, comment markers, runs of spaces, unicode, empty strings, NULL, numbers) is stored in the server column exactly (inside a literal, `\\\\`, an escaped quote and a doubled quote stand for one character, every other backslash for itself), whether the row is inserted or updated, and reading it back yields no further change. "
  "NULL and the text 'NULL' are never confused, and no value can alter the structure of a generated statement.",
  ["inputs"],
  "all strings over a hostile alphabet in every literal syntax, at every column position, in INSERT and UPDATE, in multi-row and multi-statement files",
  "Two tests cover backslashes and plain values; hostile values and the UPDATE path are not covered.",
  ["mygrations/formats/mysql/file_reader/insert_parser.py", "mygrations/formats/mysql/file_reader/parsers/insert_values.py", "mygrations/core/parse/rule_delimited.py", "mygrations/formats/mysql/mygrations/operations/row_insert.py", "mygrations/formats/mysql/mygrations/operations/row_update.py"],
  [("literal scanning", "rule_delimited.py parse"), ("escaping", "row_insert.py/row_update.py __str__")],
  ["decoded literals in statements at the connection", "server rows"])

p("C09", "Schema problems are reported exactly when they exist",
  "A declared schema is reported as broken exactly when it breaks one of these rules: a foreign key needs an existing target table and column of equal type, declared length, sign, charset and collation (which may come from the table's options), an index led by the column on both sides, a nullable column for SET NULL, a known action and a database-wide unique name; an index names existing columns; there is at most one primary key and at most one auto-increment column, which leads the primary key; defaults, lengths, charsets, signs, auto-increment and value lists occur only where the column type allows them, and enum defaults are among the values. "
  "Every broken column, index, constraint and table is named even when others are broken too. "
  "The answer stays right after tables, columns, indexes or constraints are added, changed or removed in memory.",
  ["inputs", "histories"],
  "all schemas obtained from a valid one by breaking any combination of rules, and all edit sequences on the in-memory model",
  "One test per rule on one fixed schema; combinations, boundary conditions and cached answers after edits are not covered.",
  ["mygrations/core/definitions/database.py", "mygrations/core/definitions/table.py", "mygrations/core/definitions/columns/", "mygrations/core/definitions/index.py", "mygrations/core/definitions/constraint.py"],
  [("constraint check", "core/definitions/database.py find_constraint_errors"), ("table check", "core/definitions/table.py _find_all_errors"), ("column checks", "columns/*.py _check_for_schema_errors_and_warnings")],
  ["error lists of the database and table objects"])

p("C10", "A rendered CREATE TABLE means the same as its definition",
  "For every supported table definition, the CREATE TABLE text the tool renders (compact or multi-line) is valid SQL that declares the same columns in order with the same attributes, the same indexes, foreign keys and options, and reading it back gives a definition without differences in either direction. "
  "Column, index and constraint fragments used in ALTER statements declare the same as in CREATE.",
  ["inputs"],
  "all column types x length x sign x null x default x charset/collation x enum values, all index kinds and constraint actions",
  "Rendering is compared with fixed strings for a handful of columns.",
  ["mygrations/formats/mysql/mygrations/operations/create_table.py", "mygrations/core/definitions/columns/", "mygrations/core/definitions/index.py", "mygrations/core/definitions/constraint.py"],
  [("column rendering", "columns/*.py __str__"), ("table rendering", "create_table.py __str__")],
  ["rendered text through an independent SQL reader and through the tool's own reader"])

p("C11", "In-memory edits agree with definitions built from scratch",
  "Applying to a table object the operations obtained from comparing it with another leaves no difference between the two, and equals the definition the server would have after executing the same operations. "
  "After any sequence of add/change/remove of columns, indexes, constraints and tables, every question answered by the object (columns in order, indexes, whether a column is indexed, unfulfilled foreign keys, errors, rendered SQL) is answered as by an object built from scratch with the same content; invalid edits are refused and leave the object unchanged.",
  ["histories", "inputs"],
  "all edit sequences over the public edit operations interleaved with queries",
  "Unit tests apply single edits to fresh objects; stale caches need a query, an edit and another query.",
  ["mygrations/core/definitions/table.py", "mygrations/core/definitions/database.py", "mygrations/core/operations/", "mygrations/formats/mysql/mygrations/operations/"],
  [("edit operations", "core/definitions/table.py add_*/change_*/remove_*"), ("caches", "core/definitions/table.py _indexed_columns; database.py error caches")],
  ["public getters of table and database objects after each step"])

p("C12", "Plan is a read-only, deterministic preview of what apply executes",
  "`check` never contacts the server and `plan` sends only reading statements; the list `plan` returns is exactly the list `apply` then sends, in order, each once, with one commit after the last, and exactly what both print and return. "
  "The result is the same for every order in which files or live tables are listed up to the order of independent statements, for every hash seed, and whichever way connection and files are supplied, and depends only on the files and the live database at that moment, not on commands run before in the same process.",
  ["inputs", "configurations", "schedules"],
  "all (live, declared) pairs, file orders, server listing orders, hash seeds, and ways to supply files (string, list, file, directory) and connection (object, driver, configuration)",
  "Tests call plan or apply once on one input with a mock; equality of the two and order independence are not tested.",
  ["mygrations/core/commands/plan.py", "mygrations/core/commands/apply.py", "mygrations/core/commands/check.py", "mygrations/drivers/pymysql/pymysql.py"],
  [("shared plan builder", "commands/plan.py build_commands"), ("execution", "drivers/pymysql/pymysql.py execute")],
  ["statements and commits at the connection", "returned and printed lists"])

p("C13", "Configuration and credentials are read as written",
  "Every key and value written in the supported configuration syntax (`key=value` or `key: value`, optional single or double quotes, escaped quotes, trailing comments and semicolons, blank lines, JSON) is read back exactly, and malformed lines raise an error instead of yielding a wrong value. "
  "The configuration file used is the nearest one from the working directory upward, paths in it are relative to it, and the credentials used to connect are the four values the configuration designates.",
  ["inputs", "configurations"],
  "all keys and values over a hostile alphabet in every quoting style, all directory depths and placements of configuration files",
  "Parser tests use a handful of values; path resolution and credentials are not tested at all.",
  ["mygrations/helpers/dotenv.py", "mygrations/helpers/db_credentials.py", "mygrations/core/commands/base.py"],
  [("line parser", "helpers/dotenv.py parse_line"), ("path search", "commands/base.py _resolve_and_check_config_file_path")],
  ["values of the parsed dictionary", "arguments of the connect call"])

p("C14", "Exported definitions reproduce the live database",
  "`plan_export` lists exactly the tables whose live structure or tracked rows differ from the files, and replacing those tables' files by its output makes the files describe the live database, so that a plan is then empty; it never modifies the server. "
  "Every command offered on the command line runs, and reports what it does.",
  ["inputs"],
  "all (live, declared) pairs",
  "No test runs the export or version commands.",
  ["mygrations/core/commands/plan_export.py", "mygrations/core/commands/version.py", "mygrations/core/commands/__init__.py"],
  [("reverse diff", "commands/plan_export.py")],
  ["returned text of the command", "plan after substitution"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
