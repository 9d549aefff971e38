#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is edited here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))
S, PL, M, PM, C, F, MA, CM, SO = ("subsetter/sampler.py", "subsetter/planner.py", "subsetter/metadata.py",
    "subsetter/plan_model.py", "subsetter/common.py", "subsetter/filters.py", "subsetter/__main__.py",
    "subsetter/config_model.py", "subsetter/solver.py")
live = "The live tests run seven hand-written datasets of at most a dozen rows, once, with deterministic targets, no concurrent client and no failure"

p("C01", "A completed sample is referentially closed",
  "After a run that reports success, every non-null foreign key value (declared in the source schema or added as an extra key in the planner configuration, and not explicitly ignored) that leads from a sampled row to another sampled table resolves to a row that was output too. This holds whatever the random target selection draws, in whatever order the databases return rows and catalogue entries, and even when other clients keep inserting rows into (or changing non-key columns of) source tables that are not sampled as a whole (passthrough tables and targets with 'all' are) while the run is in progress at the default isolation level.",
  ["inputs", "configurations", "schedules"], "all acyclic schemas, planner configurations, random draws, row orders and interleavings of appending source clients with the run's statements",
  live + "; no test draws a random target or interleaves a writer.",
  [PL, SO, PM, S, M], [("direction-consistent ordering of tables", "subsetter/solver.py:order_graph"), ("joins only against already-sampled tables, which are materialised once", "subsetter/planner.py:_plan_table; subsetter/sampler.py:_materialize_tables"), ("copy reads the materialised table when there is one", "subsetter/sampler.py:_copy_results")],
  ["committed rows of the destination after the run"], [("temp_tables", "materialised samples on the source connection", "subsetter/metadata.py:DatabaseMetadata")])
p("C02", "Each table receives exactly the rows its configuration calls for",
  "After a successful run every sampled table holds exactly the rows its configuration calls for, each exactly once and with every unfiltered column unchanged: passthrough tables in full; target tables the rows meeting all target filters and table constraints plus the rows other targets' samples depend on; any other table either all rows whose references to already-sampled tables resolve and which meet its configured constraints, or exactly the rows that already-sampled rows reference. Tables that are neither passthrough nor related to a target receive nothing, and the result does not depend on row order, catalogue order or batch boundaries; a run that meets no fault succeeds.",
  ["inputs", "configurations", "schedules"], "all acyclic schemas and data, planner configurations, row orders, catalogue orders and batch sizes, on each supported dialect",
  live + "; no multi-target, union, constraint, composite-key or batch-boundary case is run.",
  [PL, SO, PM, S, M], [("intersection / union queries", "subsetter/planner.py:_plan_table; subsetter/plan_model.py:SQLStatementSelect.build"), ("plan simplification", "subsetter/plan_model.py:SQLStatementUnion.simplify"), ("batched copy", "subsetter/sampler.py:DatabaseOutput.output_result_set")],
  ["committed rows of the destination after the run", "the plan"])
p("C03", "Snapshot isolation makes the sample one committed source state",
  "When the source is configured with an isolation level that gives a transaction-wide snapshot (REPEATABLE READ or SERIALIZABLE on PostgreSQL), all data in the output of a successful run comes from one single committed state of the source that existed during the run, however other clients insert, update and delete source rows between any two of the run's statements.",
  ["schedules", "inputs"], "all interleavings of committing source writers with the run's statements",
  "No test has a second client on the source; the tests finish before anything could change.",
  [S, C], [("one source connection, one transaction, for materialisation and copying", "subsetter/sampler.py:Sampler.sample"), ("isolation level applied to the engine", "subsetter/common.py:DatabaseConfig.database_engine")],
  ["committed rows of the destination compared with each committed source state of the run"])
p("C04", "The destination is referentially intact at every commit",
  "At every moment of a run - while truncating, between tables, between batches, after a crash or lost connection at any point - the committed contents of the destination contain no row whose declared foreign key to another destination table fails to resolve, provided it held before the run and, for a sampled table's own keys, the planner knows the same key; in particular the run never needs foreign key enforcement to be off.",
  ["crash_points", "fault_sequences", "inputs", "configurations"], "every commit point of every run, crash at any statement, any schema, truncate/create/merge/conflict settings",
  "Tests look at the destination only after a complete, failure-free run.",
  [S, M, SO], [("insert in topological order of destination keys", "subsetter/sampler.py:DatabaseOutput.insert_order"), ("truncate in reverse topological order including referencing tables", "subsetter/sampler.py:DatabaseOutput.truncate")],
  ["committed destination state after every commit"])
p("C05", "Success is reported only when the output is complete",
  "If any statement, fetch, commit, connection or write of the run fails, or the outcome of a commit is unknown, the run ends either with an error (exception from the API, non-zero exit status from the command line) or with output identical to that of a failure-free run. It never reports success with rows missing, duplicated or altered, and a planned table that cannot be written is an error.",
  ["fault_sequences", "crash_points", "inputs"], "every placement of one or more failures at any database or file operation",
  "No test injects a failure of any kind.",
  [S, MA], [("exceptions propagate", "subsetter/sampler.py:DatabaseOutput.output_result_set"), ("exit status", "subsetter/__main__.py:main"), ("last partial batch is flushed", "subsetter/sampler.py:DatabaseOutput.output_result_set")],
  ["exit status", "committed destination rows", "output files"])
p("C06", "Re-running after interruptions gives the uninterrupted result",
  "After any number of runs that were killed or failed at arbitrary points, one failure-free run with the same configuration and an unchanged source leaves the destination with the same rows as a single uninterrupted run, when it is started with truncate, or with the skip or replace conflict strategy into an initially empty destination (tables with a primary key), or writes to an output directory.",
  ["histories", "crash_points", "fault_sequences"], "all sequences of interrupted runs followed by a complete one",
  "Tests never interrupt a run and never rerun one except once in merge mode, without looking at the result.",
  [S], [("truncate covers referencing tables", "subsetter/sampler.py:DatabaseOutput.truncate"), ("conflict-tolerant inserts", "subsetter/sampler.py:ConflictInsert"), ("files rewritten from scratch", "subsetter/sampler.py:DirectoryOutput.output_result_set")],
  ["committed destination rows / files after the last run"])
p("C07", "The source database is never modified",
  "Planning, sampling and subsetting, whether they succeed, fail or are killed, never change any row or persistent object of the source schemas, and leave nothing behind on the source that another session can see.",
  ["inputs", "configurations", "fault_sequences", "crash_points"], "all configurations, failures and kill points",
  "No test compares the source before and after a run, and none fails or kills one.",
  [S, M, PL], [("materialisation goes to session-private temporary tables with non-clashing names", "subsetter/sampler.py:TempTableCreator")],
  ["rows and catalogue of the source before and after every run"])
p("C08", "Merge never alters existing destination rows",
  "In merge mode no pre-existing destination row is ever changed or removed and no new row takes an existing key - through any number of successive merges, at every intermediate commit, and when a merge fails or is killed; passthrough tables only gain rows whose primary key was not present.",
  ["histories", "crash_points", "inputs"], "all prior destination contents, all sequences of merges, every commit point",
  "The tests run one merge after each dataset and assert nothing about its result.",
  [S], [("offset from the largest existing key", "subsetter/sampler.py:DatabaseOutput.prepare"), ("skip strategy for passthrough", "subsetter/sampler.py:DatabaseOutput.output_result_set")],
  ["committed destination rows after every commit"])
p("C09", "Each merge adds one complete, correctly linked copy of the sample",
  "Each successful merge adds, for every non-passthrough table with a single-column integer key, exactly the sampled rows with their key shifted by one constant per table past every existing key, all other columns unchanged, and with every foreign key to a merged table shifted consistently so that it points to the newly added copy of the row it pointed to in the source; foreign keys to passthrough tables are unchanged (keys are non-negative, and not themselves references to a passthrough table).",
  ["histories", "inputs", "configurations"], "all prior contents and sequences of merges, key chains included",
  "The tests run one merge after each dataset and assert nothing about its result.",
  [S], [("offsets for keys and foreign keys", "subsetter/sampler.py:DatabaseOutput.prepare")],
  ["committed destination rows after each merge"])
p("C10", "Compaction renumbers keys densely and keeps every link",
  "With compaction enabled, a compacted key column of a table with N sampled rows takes exactly the values start_key .. start_key+N-1 in primary key order, every foreign key to a compacted column follows the row it pointed to (null stays null), passthrough tables keep their keys, and apart from that relabelling the output equals the uncompacted sample - including together with random targets, multiplicity or merge, and while other clients append to the source.",
  ["inputs", "configurations", "schedules"], "all schemas, configurations, row orders and random draws",
  "Two fixed datasets are compacted, with single-column keys to one parent and deterministic targets.",
  [S], [("row_number materialised once per table", "subsetter/sampler.py:_materialize_tables"), ("joins to compacted parents", "subsetter/sampler.py:_copy_results"), ("which tables must be materialised", "subsetter/sampler.py:_materialization_order")],
  ["committed destination rows"])
p("C11", "Multiplicity outputs disjoint, internally linked copies",
  "With multiplicity m every sampled row of a multiplied table is output exactly m times, copy i carrying its multiplied key columns mapped by key*m+i, and every foreign key to a multiplied column is mapped the same way so that each copy's references stay within that copy; passthrough and ignored tables are output once and references to them are unchanged, and a configuration for which this is impossible is rejected (or, where a further unique key does not distinguish the copies, fails with the database's error).",
  ["inputs", "configurations", "schedules"], "all schemas, m, ignore/extra-column settings, batch boundaries between copies",
  "No test enables multiplicity.",
  [S], [("closure of multiplied columns over foreign keys", "subsetter/sampler.py:_get_multiplied_columns"), ("key mapping", "subsetter/sampler.py:_multiply_column")],
  ["committed destination rows", "output files"])
p("C12", "Conflict strategies decide exactly what happens to existing rows",
  "When a sampled row of a table with a primary key meets an existing destination row with the same key: with 'error' the run fails and the existing row is unchanged; with 'skip' the existing row is unchanged and every non-conflicting row is inserted; with 'replace' the existing row's output columns take the sampled values and columns that are not output keep theirs. Rows with other keys are untouched, and this holds across repeated and interrupted runs and any batch boundaries.",
  ["histories", "inputs", "configurations", "crash_points"], "all prior contents, strategies, dialects, run sequences and batch boundaries",
  "No test uses a conflict strategy.",
  [S], [("dialect-specific upsert", "subsetter/sampler.py:ConflictInsert")],
  ["exit status", "committed destination rows"])
p("C13", "Truncate clears the output tables and their dependants, nothing else",
  "A run with truncate removes all prior rows from the tables it is about to fill and from destination tables that directly or indirectly reference them, so that no prior row survives in them after success; it never removes or changes a row of any other destination table, even if it fails or is killed; without truncate no existing row is removed.",
  ["inputs", "configurations", "crash_points"], "all destination schemas (extra referencing and unrelated tables), prior contents and kill points",
  "No test truncates.",
  [S, M], [("closure over referencing tables", "subsetter/metadata.py:DatabaseMetadata.from_engine"), ("delete loop", "subsetter/sampler.py:DatabaseOutput.truncate")],
  ["committed destination rows"])
p("C14", "PostgreSQL sequences end past every key",
  "After a successful run into PostgreSQL, the next value generated for an auto-increment key column of any written table is greater than every key present in that table, whatever the destination held before, whatever the sequence had been advanced to, and however many runs (also through one reused connection) preceded, provided sequences were past their own tables' keys before; a run never moves a sequence backwards.",
  ["histories", "inputs", "configurations"], "all prior contents and sequence positions, all run sequences, merge/compaction/multiplicity/conflict settings",
  "No test inserts after sampling or looks at a sequence.",
  [S], [("sequence update after the last batch", "subsetter/sampler.py:_autoincrement_update")],
  ["sequence state and rows of the destination after each run"])
p("C15", "Filtered values never reach the output",
  "No original value of a column that a filter replaces, nulls or omits is ever committed to the destination or written to an output file - in any batch, copy, table kind or output mode, nor at any moment of a run that fails or is killed - and the replacement is one the filter's configuration allows; columns without filters are unaffected.",
  ["inputs", "configurations", "crash_points", "schedules"], "all filter chains, output modes, transformation settings, random draws and kill points",
  "The filter tests call single filter objects directly on one row; no sampling test configures a filter.",
  [F, S], [("filters applied to every row before buffering", "subsetter/sampler.py:_copy_results; output_result_set"), ("column bookkeeping through the chain", "subsetter/filters.py:FilterViewChain")],
  ["every committed destination state", "every byte written to an output file"])
p("C16", "Directory output is complete on success and never silently short",
  "With directory output, a run that reports success leaves one file per sampled table holding exactly one valid JSON object per output row with the output columns; if creating, writing or closing a file fails or a write is cut short at any point, the run reports failure or the files are complete anyway; files left by a killed run hold only correct rows apart from a possibly cut last line.",
  ["fault_sequences", "crash_points", "inputs"], "every placement of open/write/close failures, short writes and kills",
  "No test uses directory output.",
  [S], [("one file per table, rewritten", "subsetter/sampler.py:DirectoryOutput.output_result_set")],
  ["bytes in the output files", "exit status"])
p("C17", "The plan depends only on the schema and the configuration",
  "Planning the same schema with the same configuration always gives the same plan - the same tables and the same query for each - no matter the order in which the catalogue lists schemas, tables and keys, the interpreter's hash randomisation and set iteration order, earlier runs in the same process, or the data in the tables.",
  ["schedules", "configurations", "inputs"], "all catalogue orders, hash seeds and set iteration orders for all schemas and configurations",
  "Tests run each plan once, under one hash seed and one catalogue order.",
  [PL, SO, M], [("canonical sort of tables and keys", "subsetter/solver.py:toposort_reachable; subsetter/planner.py:_plan_table")],
  ["the plan document"])
p("C18", "Plan-then-sample equals subset, and a damaged plan file is not passed off",
  "Writing a plan to a file or standard output and sampling from it gives the same output as the one-step subset command, whether the configuration is one file, several that are merged recursively (the later value wins), or standard input; if the plan file cannot be written completely the plan command exits non-zero, and sampling from an unreadable or malformed plan or configuration (not YAML, or against its schema) exits non-zero without touching the destination.",
  ["inputs", "configurations", "fault_sequences"], "all plans, every placement of file failures while writing or reading the plan",
  "No test goes through the command line or a plan file.",
  [MA, PM], [("YAML dump and load of the plan model", "subsetter/__main__.py:_main_plan; _main_sample")],
  ["exit status", "plan file", "committed destination rows"])
p("C19", "Idle connection loss is invisible and every session is fully set up",
  "A connection the server dropped while it lay idle between the run's operations is replaced without the run failing or its result changing, and every session - first or replacement, source or destination - has executed all configured session statements, has its configured databases attached and its configured isolation level before it runs any statement of the run.",
  ["fault_sequences", "schedules", "configurations"], "every idle point at which the server closes the connection, including server-side idle time-outs in simulated time",
  "No test drops a connection or configures session statements.",
  [C, S], [("pre-ping and connect listener", "subsetter/common.py:DatabaseConfig.database_engine")],
  ["session log of the simulated server", "exit status", "committed destination rows"])
p("C20", "Rows are streamed in bounded batches",
  "The number of rows fetched from the source and not yet handed to the destination, or held in client memory by an unstreamed result, stays below a bound that depends only on the fixed batch sizes and never on the size of the table, for every output mode, transformation and schedule of source and destination speeds.",
  ["inputs", "configurations", "schedules"], "all table sizes, outputs and transformations",
  "The test tables are smaller than one batch.",
  [S], [("streaming cursor and yield_per", "subsetter/sampler.py:_copy_results"), ("bounded destination buffer", "subsetter/sampler.py:DatabaseOutput.output_result_set")],
  ["rows in flight at every fetch and execute"])
p("C21", "Random targets have the requested size and no bias",
  "A target with an amount yields exactly min(amount, matching rows) distinct matching rows chosen uniformly (plus any rows other targets depend on); a target with a percentage includes each matching row independently with that probability, on every dialect; and the one selection drawn in a run is used consistently for every dependent table.",
  ["schedules", "inputs", "configurations"], "all outcomes of the database's random function, all dialects, sizes and filters",
  "No test uses amount or percent: the outcome is random.",
  [PL, PM, S], [("ORDER BY random() LIMIT n / random() < p", "subsetter/plan_model.py:SQLStatementSelect.build; SQLWhereClauseRandom.build")],
  ["committed rows compared with source rows over many draws"])
p("C22", "A rejected configuration leaves the destination untouched",
  "When a run is refused because of its configuration - unknown filter columns or plugins, colliding remaps, impossible compaction or multiplicity, destination tables that are missing or lack columns to write, unknown targets, foreign key cycles, references from selected to ignored tables, plans that are malformed - it fails with an error before any existing destination row is removed or any row is written.",
  ["configurations", "inputs", "histories"], "all such configurations, with truncate and create, over any prior destination contents",
  "No test runs a rejected configuration end to end.",
  [S, PL, F], [("validation before create/truncate", "subsetter/sampler.py:Sampler.sample")],
  ["exit status", "committed destination rows"])
p("C23", "Create adds exactly the missing tables, faithfully",
  "With create, every planned table missing from the destination is created with the source's columns, nullability, primary key, unique constraints, indexes and foreign keys to other planned tables (remapped), before any row is written; existing destination tables and their rows are never altered; without create no table is created. If the run fails or is killed meanwhile a repeated run still completes (see the recorded finding for secondary indexes on databases that commit each DDL statement).",
  ["inputs", "configurations", "crash_points"], "all schemas, any subset of tables already present, kills at any point of table creation",
  "Tests create into empty destinations only and compare only rows.",
  [S], [("table copy", "subsetter/sampler.py:DatabaseOutput.create")],
  ["destination catalogue and rows"])
p("C24", "Rows are written only to the tables they are mapped to",
  "The run writes rows of a sampled table only to the destination table its name is remapped to (rules applied in order), never to any other table or schema, also when source and destination share one server, when names differ only in case or contain special characters, and when a run fails or is killed; two tables mapped to one name are refused.",
  ["configurations", "inputs", "crash_points"], "all remap rule lists, name shapes and server layouts",
  "Tests use one suffix-adding rule on plain names.",
  [S], [("remap", "subsetter/sampler.py:DatabaseOutput._remap_table")],
  ["every write statement and committed destination state"])
p("C25", "A failure-free run on a supported schema completes on every dialect",
  "For every schema without foreign key cycles and every valid configuration, planning and sampling complete without error, within a number of statements linear in the schema size and batch count, on SQLite, PostgreSQL and MySQL sources and destinations alike - including their restrictions, such as MySQL's refusal to open a temporary table twice in one statement or to index some column types; the same holds for the first run after faults have stopped.",
  ["inputs", "configurations", "schedules", "fault_sequences"], "all supported schemas, configurations, dialect pairs; after any fault history",
  live + ", so few shapes of multiple reference, union and dialect pair are reached.",
  [S, PM, M, PL], [("temp table copies per reference", "subsetter/metadata.py:sql_build_context; subsetter/sampler.py:_materialization_order"), ("dialect-neutral query building", "subsetter/plan_model.py")],
  ["exit status", "statement count"])
p("C26", "The ordering solver satisfies its documented order conditions",
  "For every foreign key graph the computed order visits exactly the weakly reachable tables, each related to earlier ones in one direction only, and reports a cycle exactly when a forward cycle prevents this.",
  ["inputs"], "all finite graphs", "The fuzz test samples 1000 acyclic graphs from one seed; cycles are tested on three graphs.",
  [SO], [("order_graph", "subsetter/solver.py")], ["return value"])
p("C27", "Plan simplification preserves meaning",
  "Simplifying a query of the plan never changes the set of rows it selects on any database.",
  ["programs", "inputs"], "all plan syntax trees and databases", "Only the trees of seven plans are simplified in tests.",
  [PM], [("simplify methods", "subsetter/plan_model.py")], ["selected rows"])
p("C28", "Multiplexed filters apply the first condition that holds, per row",
  "A multiplexed filter looks at the row's column as the filters before it in the chain left it, applies the filter of the first condition that holds for that value - =, !=, in, not in, is / is not null, <, >, <=, >= and shell-style 'matches' - and otherwise leaves the row as it is. Null satisfies none of <, >, <=, >= and matches and never makes the run fail. Every row of the output is the result of this choice for its own value, in every batch, copy, table and output mode, also in the rows a failed or killed run leaves behind.",
  ["inputs", "configurations", "crash_points"], "all values, operators, condition lists and filter chains; kills and failures at any point", "No test uses multiplex.",
  [F, S], [("condition match and choice of filter", "subsetter/filters.py:MultiplexCondition.match; FilterMultiplex.filter_view")], ["every committed destination row", "output files"])
p("C29", "A run connects only where, as whom, and as safely as its settings say",
  "Every connection of a run - first, pooled or replacement - goes to the host and port its settings name, through that dialect's driver, with the configured user, password and (PostgreSQL) database. Each setting comes from the configuration if given there, else from the SUBSET_SOURCE_ or SUBSET_DESTINATION_ environment variable of that role, else from the default (localhost, 3306 or 5432, mysql). When TLS is required no connection is made without it; a server without TLS, with a certificate no trusted authority signed (verify cert or identity) or for another host (verify identity) is refused and nothing is sent to it, also when it takes the real server's place in the middle of a run; every server that satisfies the level is accepted and the client certificate, if any, is presented.",
  ["configurations", "fault_sequences", "schedules"], "all combinations of configuration, environment and server identities; servers exchanged at any reconnection", "No test sets connection environment variables or TLS, or has more than one server.",
  [C], [("settings and environment", "subsetter/common.py:database_url"), ("TLS options", "subsetter/common.py:DatabaseConfig.SSLConfig.get_connect_args"), ("engine", "subsetter/common.py:DatabaseConfig.database_engine")], ["every connection attempt at the simulated network", "exit status"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
