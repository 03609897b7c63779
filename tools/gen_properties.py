#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PARSER = "src/datafusion/parser.rs"
p("C01", "Multi-statement scripts split into exactly their statements",
  "A script of statements separated by semicolons is parsed into exactly those statements, in order, each meaning what it means when submitted alone, whatever mixture of Seafowl-specific and standard statements, comments, literals, blank statements and letter case it has. Text missing a separator, or with a malformed statement in it, is rejected as a whole with an error, and no text of any kind crashes the parser.",
  ["inputs"], "All statement sequences, separators, whitespace, comments and letter case, and all byte strings near them.",
  "Tests parse a handful of fixed statements, mostly one at a time; the property ranges over every sequence and every text.",
  [PARSER], [("statement loop and delimiter check", PARSER + ":parse_sql_with_dialect"), ("keyword dispatch", PARSER + ":parse_statement")],
  ["parsed statements", "SQL text of the parsed statements"])
p("C02", "Every clause written in Seafowl DDL arrives in the parsed statement",
  "For CREATE EXTERNAL TABLE, COPY TO, CONVERT, VACUUM, TRUNCATE and CREATE FUNCTION, every clause the user writes (names, columns, types, format, location, options, ordering, partitioning, flags, function body) arrives unchanged in the parsed statement, in whatever legal order and letter case the clauses are written. A clause written twice, a missing mandatory clause or a contradictory combination is rejected instead of being silently dropped or merged.",
  ["inputs"], "All clause subsets, orders, duplicates and spellings of each Seafowl-specific statement.",
  "Tests pin a few literal statements; they do not combine clauses, reorder or duplicate them, or use quoted names and unusual literals.",
  [PARSER], [("clause builder with duplicate detection", PARSER + ":parse_create_external_table"), ("COPY builder", PARSER + ":parse_copy"), ("CONVERT/VACUUM/TRUNCATE", PARSER + ":parse_convert, parse_vacuum, parse_truncate"), ("CREATE FUNCTION", PARSER + ":parse_create_function")],
  ["fields of the parsed statement"])
p("C03", "Column definitions map to exactly the Arrow schema they declare",
  "The Arrow schema built for declared SQL columns has one field per column, in order, with the normalised name (unquoted lower-cased, quoted verbatim), nullable unless NOT NULL is declared, and the Arrow type documented for the declared SQL type, with the declared precision and scale. A type that cannot be represented, or a precision or scale outside the legal range, is rejected instead of being mapped to a different type.",
  ["inputs"], "All column lists over all SQL data types with all parameters, names, quoting and column options.",
  "Tests cover single types with one or two decimal settings; the mapping has to hold for each type, parameter and option combination.",
  ["src/datafusion/utils.rs"], [("type conversion", "src/datafusion/utils.rs:convert_simple_data_type"), ("decimal bounds", "src/datafusion/utils.rs:make_decimal_type"), ("field building", "src/datafusion/utils.rs:build_schema")],
  ["Arrow schema of the new table"])
p("C04", "Command plan nodes keep their identity through plan rewriting",
  "A plan for a Seafowl command (create, rename, convert, vacuum, truncate, create/drop function) goes through plan cloning, rewriting and optimisation unchanged: same operation, same arguments, same inputs and same output schema. Two such plans compare equal exactly when they describe the same operation with the same arguments, and equal plans hash equal.",
  ["inputs"], "All pairs of command plans and all plan rewrites that do not touch them.",
  "No test compares or rewrites these nodes; the optimiser relies on their equality and rebuild laws for any pair.",
  ["src/nodes.rs"], [("user-defined logical node", "src/nodes.rs:SeafowlExtensionNode"), ("rebuild", "src/nodes.rs:with_exprs_and_inputs"), ("equality and hash", "src/nodes.rs:dyn_eq, dyn_hash")],
  ["optimised plan", "plan comparison and EXPLAIN text"])
p("C05", "Time travel rewriting redirects exactly the versioned table references",
  "Rewriting a query with time travel replaces each table reference that carries a version, wherever it occurs in the query, by a reference to that table at that version, records exactly that (fully qualified table, version) pair, and leaves everything else of the query as written; names keep their identity, including quoted and mixed-case ones. A version string denotes the instant its text says (all accepted formats, offset applied), and anything else is rejected.",
  ["inputs"], "All queries with any number of versioned and plain references at any nesting, all name quotings, all version strings.",
  "Tests rewrite two or three fixed queries and parse a handful of timestamps.",
  ["src/version.rs", "src/context/logical.rs"], [("AST visitor", "src/version.rs:TableVersionProcessor::pre_visit_table_factor"), ("timestamp formats", "src/version.rs:version_to_datetime")],
  ["rewritten query text", "recorded table versions", "parsed instants"])
WASM = "src/wasm_udf/wasm.rs"
p("C06", "A native WASM UDF is the guest function applied row by row",
  "Calling a native WASM function on any batch of arguments, whichever of them are columns or constants and wherever NULLs are, returns an array with one result per row where row i is the guest function applied to row i of the arguments, with a NULL result for a row with a NULL argument, for every supported argument and result type and arity. Declared types that do not match the module, or are unsupported, give an error.",
  ["inputs", "programs"], "All supported signatures, guest functions, batch lengths, column/constant mixes and null patterns.",
  "Tests run two fixed modules over three-row batches.",
  [WASM, "src/wasm_udf/data_types.rs"], [("row loop", WASM + ":make_scalar_function_from_wasm"), ("argument alignment", WASM + ":columnar_values_to_array"), ("type mapping", "src/wasm_udf/data_types.rs:get_wasm_type")],
  ["result array of a SQL function call"])
p("C07", "A MessagePack WASM UDF sees and returns exactly the SQL values",
  "For every supported SQL type, the value a MessagePack WASM function receives for a row is the SQL value of that row (including NULL, extreme numbers, decimals with any sign, dates, timestamps and any text), and the value it returns arrives in SQL unchanged; an identity function is the identity on columns and constants alike. A value the declared result type cannot hold is an error, not a different value.",
  ["inputs", "programs"], "All argument lists over all supported types and values, batch lengths and null patterns.",
  "Tests call one fixed guest with a few values per type, and cover no negative or large decimals, extremes or mixed constants.",
  [WASM], [("encoding", WASM + ":messagepack_encode_input_value"), ("decoding", WASM + ":messagepack_decode_results"), ("guest memory protocol", WASM + ":write_udf_input, read_udf_output")],
  ["bytes seen by the guest", "result array"])
p("C08", "No WASM module, however hostile, can crash the server",
  "Whatever bytes are registered as a WASM function, and whatever its exported functions do (wrong signatures, traps, missing exports, out-of-range or negative pointers and sizes, malformed or oversized results), creating and calling the function yields either a result or an error, and never a crash of the calling process or corruption of later calls.",
  ["inputs", "programs"], "All modules: arbitrary bytes, wrong export sets, and guests returning arbitrary pointers, sizes and payloads.",
  "Tests use well-behaved guests plus one or two erroring ones.",
  [WASM], [("instance setup", WASM + ":WasmMessagePackUDFInstance::new"), ("pointer handling", WASM + ":read_udf_output, write_udf_input"), ("function lookup", WASM + ":get_wasm_module_exported_fn")],
  ["error or result of a SQL function call"])
DT = "src/wasm_udf/data_types.rs"
p("C09", "Function definitions survive storage and reload unchanged",
  "A function definition accepted from the user is stored and later read back with the same entrypoint, language, argument types, return type, volatility and data, so that a function works the same after a restart as when it was created. Definition documents are accepted in any letter case the documentation allows and rejected when they are malformed, incomplete or name unknown types, languages or volatilities.",
  ["inputs"], "All definition documents: all types, argument lists, volatilities, languages, payloads and spellings.",
  "Tests store one function and read it back.",
  [DT, "src/repository/default.rs", "src/catalog/repository.rs"], [("serialised details", DT + ":CreateFunctionDetails"), ("storage", "src/repository/default.rs:create_function, get_all_functions_in_database")],
  ["functions listed by the catalog after reload"])
REPO = "src/repository/default.rs"
p("C10", "The catalog behaves like a map from names to objects",
  "After any history of creating, renaming, moving, dropping and listing databases, schemas, tables and functions, the catalog contains exactly the objects that the history leaves, each with the columns, types and identity it was created with, and lookups find exactly the object with that exact name in that database and schema. Names are unique within their parent, dropping a parent drops what is inside it and nothing else, and an operation on a missing or duplicate name reports that specific error and changes nothing.",
  ["histories"], "All operation histories over several databases, schemas, tables and functions with colliding and unusual names and column lists.",
  "Tests run one fixed happy-path history per backend plus a few single errors.",
  [REPO, "src/repository/interface.rs", "src/repository/sqlite.rs", "migrations"], [("queries", REPO + ":implement_repository!"), ("error interpretation", "src/repository/sqlite.rs:interpret_error"), ("unique and foreign-key constraints", "migrations/sqlite")],
  ["repository lookups and listings", "typed errors"], state=[("catalog tables", "databases, collections, tables, columns, functions", "migrations/sqlite")])
p("C11", "Table version history is append-only, ordered and attributed",
  "Each new version of a table is recorded with its own identifier, its own schema and number, belongs to exactly that table, and leaves older versions as they were; the table's current schema is that of its newest version, and the history lists every version of every requested table, and no other, with each table's versions in creation order. Deleting old versions of one table keeps its newest version and every version of every other table.",
  ["histories"], "All histories of version creation, schema change, deletion of old versions, rename and drop over several tables.",
  "Tests create two versions of one table and check them once.",
  [REPO], [("version rows", REPO + ":create_new_version, get_all_versions, delete_old_versions"), ("latest version", REPO + ":get_table, list_collections")],
  ["version listing", "columns of the current version"])
p("C12", "The cleanup queue of dropped tables keeps every entry until it is removed",
  "The list of dropped tables awaiting cleanup holds exactly the entries put into it and not yet removed, each with its names, identity and drop time: setting the cleanup status changes the status of the entry addressed and nothing else, removing an entry removes only that one, and listing for one database shows exactly that database's entries, whatever other tables, schemas or databases, of the same or similar names, are created, renamed or dropped meanwhile.",
  ["histories"], "All histories of queued entries, status updates, removals and other catalog operations, over tables of the same and of similar names.",
  "Tests look at no more than one entry, and never with other catalog operations in between.",
  [REPO, "migrations/sqlite"], [("status bookkeeping", REPO + ":get_dropped_tables, update_dropped_table, delete_dropped_table")],
  ["list of dropped tables"])
p("C13", "A failed catalog operation leaves no trace; a reported one survives",
  "If a catalog operation reports an error, whatever the step of it at which the storage fails, the catalog afterwards is exactly what it was before. If it reports success, its effect is there, complete, for every later connection and after the process and its connections are dropped and the database is reopened.",
  ["fault_sequences", "crash_points", "histories"], "Every catalog operation with a storage fault at every statement it issues, in any catalog state, and reopening at any point of a history.",
  "Tests never inject a storage fault inside an operation and never reopen a database.",
  [REPO, "src/repository/sqlite.rs"], [("transactions", REPO + ":create_table, create_new_version"), ("migration on open", "src/repository/sqlite.rs:try_new")],
  ["full catalog contents before and after"])
p("C14", "Concurrent catalog users see consistent, isolated effects",
  "Catalog operations issued concurrently through one or several connections have the effects of some sequential order of the operations that reported success, never lose, duplicate or mix up objects, and fail only with errors that order explains. A catalog opened read-only answers every read as the writable one does and rejects every write without changing anything.",
  ["schedules", "histories", "configurations"], "All interleavings of small concurrent histories over shared names, across connections, and all read-only sessions.",
  "Tests are sequential over one connection.",
  ["src/repository/sqlite.rs", REPO], [("connection pool and journal mode", "src/repository/sqlite.rs:try_new, try_new_read_only"), ("unique constraints", "migrations/sqlite")],
  ["operation results and final catalog contents"])
FP = "datafusion_remote_tables/src/filter_pushdown.rs"
p("C15", "Filters pushed down to SQLite select exactly the same rows",
  "When a query filter over a remote SQLite table is translated into SQL, executing that SQL in SQLite keeps exactly the rows for which the original filter is true, for any nesting of operators, any column name and any literal. A filter that cannot be expressed faithfully is refused (and evaluated locally) rather than translated into something else.",
  ["inputs"], "All filter expressions over all operators, nestings, column names and literal values, and all rows.",
  "Tests compare the text of about a dozen fixed expressions; none is executed.",
  [FP], [("expression visitor", FP + ":FilterPushdownVisitor"), ("literals", FP + ":scalar_value_to_sql"), ("operators", FP + ":SQLiteFilterPushdown::op_to_sql"), ("identifiers", FP + ":quote_identifier_double_quotes")],
  ["rows selected by the generated SQL"])
p("C16", "Filters pushed down to Postgres and MySQL keep their meaning",
  "When a query filter over a remote Postgres or MySQL table is translated, the SQL text, read with that database's own grammar, precedence, quoting and literal rules, denotes the same condition as the original filter. A filter that cannot be expressed faithfully in that dialect is refused rather than translated into something else, and no column name or literal can escape its quoting.",
  ["inputs"], "All filter expressions over all operators, nestings, column names and literal values, for both dialects.",
  "Tests compare the text of about a dozen fixed expressions.",
  [FP], [("expression visitor", FP + ":FilterPushdownVisitor"), ("dialects", FP + ":PostgresFilterPushdown, MySQLFilterPushdown"), ("identifiers", FP + ":quote_identifier_double_quotes, quote_identifier_backticks")],
  ["generated SQL parsed back and evaluated"])
OSF = "object_store_factory/src/"
p("C17", "Storage settings and locations select exactly the storage they name",
  "The store built from a storage configuration, or from a location URL with options and environment variables, uses exactly the bucket or directory, the (decoded) path prefix, endpoint, region, credentials and flags that were named, explicit options winning over the environment. Configurations read from JSON, TOML, statement options or an option map carry exactly the values given, local and GCS configurations survive conversion to their option map and back, and the S3 one names every setting. Settings that are unknown, contradictory or unusable are refused with an error, never ignored or answered with a crash.",
  ["inputs", "configurations"], "All local, S3 and GCS configurations, location URLs, option maps, key spellings and environments.",
  "Tests convert a few fixed configurations in one direction; none looks at what a built store really asks for.",
  [OSF + "lib.rs", OSF + "google.rs", OSF + "aws.rs", OSF + "local.rs"], [("GCS", OSF + "google.rs:from_hashmap, to_hashmap, map_options_into_google_config_keys, add_google_cloud_storage_environment_variables"), ("S3", OSF + "aws.rs:from_hashmap, from_bucket_and_options, to_hashmap, build_amazon_s3, add_amazon_s3_environment_variables, s3_opts_to_file_io_props"), ("local", OSF + "local.rs:from_hashmap, to_hashmap, build_local_storage"), ("locations", OSF + "lib.rs:build_object_store_from_opts")],
  ["configuration values", "requests sent by the built store", "files written through the built store"])
p("C18", "Callers of the HTTP API read and change only what their token allows",
  "With read and write access each set to any, off or a password, no request, whatever its token, endpoint and statements, changes anything (tables, schemas, databases, files, settings) without write access, or returns rows of a table without read access; the cached GET endpoint changes nothing for anyone and reads nothing when read access is off. Write access by password includes read access. A malformed or unknown token is refused. Whoever has the right isn't turned away. Health probes need no token.",
  ["inputs", "histories"], "All access settings and passwords, Authorization headers, endpoints, statements and lists of statements, including those that hide a write in a read.",
  "Tests try about ten fixed header and statement pairs.",
  ["src/frontend/http.rs", "src/auth.rs", "src/context/logical.rs"],
  [("policies and tokens", "src/auth.rs:AccessPolicy, token_to_principal"), ("which plans are reads and writes", "src/frontend/http.rs:uncached_read_write_query, src/context/logical.rs:is_read_only, is_statement_read_only"), ("header parsing", "src/frontend/http.rs:with_auth")],
  ["HTTP status and body", "tables, schemas, databases, settings and files before and after"])

p("C19", "Memory accounting is transparent and always balances",
  "Wrapping a memory pool with metrics changes no decision of the pool: every grow, shrink and try-grow has the same outcome and the same reserved total as without the wrapper, for any sequence of operations by any number of consumers. After everything is released, the reserved total is zero, and the exported figures (bytes granted, refused, freed and currently reserved) equal the sums over the calls made, also with consumers on several threads.",
  ["histories"], "All sequences of register, grow, shrink, try-grow, split, free and drop over several consumers and pool kinds and limits.",
  "No test exercises the wrapper.",
  ["src/memory_pool.rs"], [("delegation", "src/memory_pool.rs:MemoryPoolMetrics")],
  ["reserved bytes", "try_grow results", "exported counters"])
p("C20", "The shell recognises complete input and commands exactly",
  "The interactive shell takes input as complete exactly when, ignoring trailing blanks, it ends with a semicolon or starts with a backslash, and otherwise keeps reading. Each complete input is run exactly once, in order and as typed, and its results or its error shown; an error does not end the session. Each documented command spelling is recognised as that command with the argument as typed, the help lists every command, and any other text after a backslash is rejected rather than taken for a command.",
  ["inputs"], "All input texts and all command spellings and arguments.",
  "No test covers the shell.",
  ["src/cli/mod.rs", "src/cli/commands.rs", "src/cli/helper.rs"], [("loop", "src/cli/mod.rs:command_loop, exec_and_print"), ("validator", "src/cli/helper.rs:validate_input"), ("command parsing", "src/cli/commands.rs:from_str")],
  ["queries run", "text printed", "parsed command"])
p("C21", "A local fast upload moves the file's exact bytes to its target",
  "Uploading a finished temporary file into a local store leaves the target holding exactly the bytes of the source and the source gone, creating missing parent directories and replacing an older target, also when source and target are on different file systems. A failed upload reports an error and loses no data: the source or the target still holds the full content.",
  ["inputs", "fault_sequences"], "All file contents, target paths (nested, existing, conflicting with a file or directory) and file system placements.",
  "No test covers the upload helper.",
  ["src/object_store/utils.rs"], [("rename with copy fallback", "src/object_store/utils.rs:fast_upload")],
  ["bytes at source and target"])

p("C22", "Histories of SQL statements leave every table with the rows SQL gives it",
  "After any history of CREATE TABLE [AS], INSERT, UPDATE, DELETE, TRUNCATE, ALTER TABLE RENAME, DROP, VACUUM and CREATE/DROP SCHEMA, over any expressions and NULLs, names and partition sizes, every table holds exactly the rows that SQL's semantics give it, and the listings in information_schema and system.table_versions agree. A statement that fails changes nothing; one interrupted by a storage failure leaves the old or the new state. table('timestamp') reads what the table held then. Restarted and concurrent instances see the same tables. Dropping a table removes its files.",
  ["histories", "inputs", "fault_sequences"], "All statement histories, predicates and assignments, row values, names, default schemas, partition sizes, instances and restarts, and storage failures at any operation.",
  "Tests run a few fixed statements on fixed rows; the property ranges over all histories, three-valued predicates and failure points.",
  ["src/context/physical.rs", "src/context/delta.rs", "src/context/logical.rs", "src/context/mod.rs", "src/catalog/repository.rs", "src/catalog/metastore.rs", "src/provider.rs", "src/system_tables.rs", "src/delta_rs/"],
  [("physical execution of DDL and DML", "src/context/physical.rs:create_physical_plan"), ("writing partitions and commits", "src/context/delta.rs:plan_to_delta_adds"), ("CASE projection of UPDATE", "src/provider.rs:project_expressions"), ("time travel", "src/version/mod.rs and src/context/delta.rs")],
  ["rows of every table", "information_schema", "system.table_versions", "objects in storage"])
p("C23", "Tables on record as dropped are cleaned up or stay on record",
  "Cleaning up a database (periodically or by VACUUM DATABASE) removes every object of each table recorded as dropped, and then its record. If listing or deleting fails, the record stays, as RETRY after the first failure and as FAILED after the next, and FAILED ones are left alone. Other databases' records and the files of live tables are never touched.",
  ["histories", "fault_sequences"], "All histories of tables created, dropped and cleaned up over several databases, with failures of listing and deleting at any point.",
  "No test makes a cleanup fail.",
  ["src/utils.rs", "src/object_store/wrapped.rs"], [("cleanup", "src/utils.rs:gc_databases"), ("deletion by prefix", "src/object_store/wrapped.rs:delete_in_prefix")],
  ["system.dropped_tables", "objects in storage"])

p("C24", "Synced changes leave every table as the source's transactions did",
  "Feeding the data-sync writer change messages of any origins, tables, keys, column subsets (values, changed flags) and transaction boundaries, flushed at any moments, leaves each table with exactly the rows that applying the messages in order gives, batching and squashing notwithstanding. The durable sequence reported for an origin never covers a transaction not entirely stored, and covers it once it is. A failed flush loses nothing and can be repeated; a restarted writer resumes from what the tables record, so that sending again what wasn't durable gives the same rows.",
  ["histories", "inputs", "fault_sequences", "crash_points"], "All message histories over several origins and tables, keys, column sets and flush moments, with storage failures and restarts at any point.",
  "Tests run a handful of fixed message sequences.",
  ["src/sync/writer.rs", "src/sync/planner.rs", "src/sync/schema/", "src/sync/utils.rs"],
  [("queueing, flushing and durable sequences", "src/sync/writer.rs:SeafowlDataSyncWriter"), ("squashing", "src/sync/utils.rs:squash_batches"), ("normalising, merging and applying", "src/sync/planner.rs:SeafowlSyncPlanner"), ("schemas", "src/sync/schema/")],
  ["rows of every table", "durable and in-memory sequence numbers"])
p("C25", "Reads through the object store cache give the store's bytes",
  "Any sequence of range reads through the cache, sequential or concurrent, with any chunk size, capacity, time to live and alignment, under eviction, lost cache files, an unwritable cache directory and failing downloads, returns exactly the bytes the store holds for the range, cut off at the object's end, or an error if the store failed; never other bytes, fewer bytes, or a crash. While a chunk is cached it isn't downloaded again, and no more than the chunks around the range is downloaded.",
  ["inputs", "histories", "schedules", "fault_sequences"], "All objects, ranges, chunk sizes, capacities, lifetimes, interleavings of readers, and losses of cache files.",
  "Tests read a few fixed ranges of one body.",
  ["src/object_store/cache.rs"], [("chunked reads", "src/object_store/cache.rs:get_range, get_chunk_range"), ("writing of cache files", "src/object_store/cache.rs:write_file, cache_chunk_data"), ("eviction", "src/object_store/cache.rs:on_evict")],
  ["bytes read", "ranges requested from the store"])
p("C26", "The HTTP API returns every result in full and caches none past a change",
  "The rows a query yields come back over HTTP (POST, and cached GET with the query in the path, header or body) exactly, as JSON lines that parse to the same values, with the same columns. Asking again with the returned ETag gives 304 only if no table it reads, in subqueries and CTEs too, has changed; a query over tables without versions carries no ETag. Uploading a CSV or Parquet file creates the table or appends to it exactly the file's rows, or fails and leaves the tables as they were.",
  ["inputs", "histories"], "All result types and values, queries over any tables, CTEs and subqueries, interleaved with writes, and uploads of any rows, formats, headers, names and damaged files.",
  "Tests request a handful of fixed queries and upload three fixed files.",
  ["src/frontend/http.rs", "src/frontend/http_utils.rs", "src/context/physical.rs"],
  [("ETag of a plan", "src/frontend/http.rs:plan_to_etag"), ("rendering of results", "src/frontend/http.rs:plan_to_response, http_utils"), ("uploads", "src/frontend/http.rs:upload and src/context/physical.rs:file_to_table")],
  ["status, headers and body", "rows of every table"])

p("C27", "Tables over HTTP hold exactly the bytes their URL names",
  "An external table at any http(s) URL is read by requesting exactly the resource the URL denotes (path, query string and percent-encoding unchanged), and its rows are those of the file there. Whatever the server does - ignores ranges, closes early, sends or labels another part, gives no total size, redirects, fails, changes nothing - a read gives exactly the file's bytes for the range asked for or fails; never other bytes, fewer bytes, or a crash, with the cache or without.",
  ["inputs", "fault_sequences", "histories"], "All locations, files, ranges and ways in which servers answer.",
  "Tests use a mock server that honours ranges, at two plain paths.",
  ["src/object_store/http.rs", "src/object_store/cache.rs"],
  [("the URL of a location", "src/object_store/http.rs:try_prepare_http_url, get_uri"), ("ranges and sizes", "src/object_store/http.rs:HttpObjectStore::get_opts, head"), ("tables", "src/context/logical.rs:plan_query CREATE EXTERNAL TABLE")],
  ["request lines the server receives", "bytes read", "rows selected"])
p("C28", "The server runs with the settings its file and environment give",
  "Every setting takes the value of its environment variable if there is one, else that of the TOML file, else its documented default; settings that cannot be read, or with which the server cannot work (fleeting catalog with lasting storage or the reverse, S3 without region and endpoint, less than 64 MiB, empty partitions or cache chunks) are refused with an error, never a crash, and all others are accepted. A server started with accepted settings keeps to them: its queries' memory limit, its partition size, its cache.",
  ["inputs"], "All combinations of settings, places, spellings and values.",
  "Tests load a dozen fixed files.",
  ["src/config/schema.rs", "src/config/context.rs", "object_store_factory/src/"],
  [("reading of settings", "src/config/schema.rs:load_config"), ("refusals", "src/config/schema.rs:validate_config"), ("what is made of them", "src/config/context.rs:build_context")],
  ["the loaded configuration", "memory limit", "files per insert"])

p("C29", "Catalogs of earlier releases open with everything they hold",
  "A SQLite catalog in any layout released so far, with any databases, schemas, tables, versions, columns in the old or the new form, functions and cleanup queue, opens in this version with all of them unchanged, and is from then on a catalog like any other, also when reopened or read only.",
  ["inputs", "histories"], "All contents in all released layouts, and histories that follow.",
  "Tests only ever open catalogs made by the version under test.",
  ["src/repository/default.rs", "src/repository/sqlite.rs", "migrations/sqlite/"],
  [("upgrade", "src/repository/default.rs:setup"), ("layouts", "migrations/sqlite/")],
  ["full listing of the catalog"])

p("C30", "Flight SQL tickets give exact results; every other message gets a status",
  "A statement sent over Arrow Flight SQL has its effect exactly once, whether or not its result is fetched. Its ticket gives, once, the rows and schema of the statement as of when it was sent, in the schema named by the search-path header, whatever other statements and clients do meanwhile; a failure while rows are computed ends the stream with an error. A statement with an inlined catalog sees exactly that catalog's tables at their locations. Sync messages are answered with the origin's true in-memory and durable sequence numbers, exactly the first answer of a server is flagged, and refused messages change nothing. Any other message is refused with a status and disturbs neither connection nor state.",
  ["histories", "inputs"], "All histories of statements, tickets, inlined catalogs, sync messages and arbitrary protocol messages, from several connections.",
  "Tests send a few fixed queries and sync messages in fixed orders.",
  ["src/frontend/flight/handler.rs", "src/frontend/flight/sql.rs", "src/frontend/flight/mod.rs", "src/catalog/memory.rs", "src/catalog/metastore.rs"],
  [("tickets", "src/frontend/flight/handler.rs:query_to_stream"), ("sync messages", "src/frontend/flight/handler.rs:process_sync_cmd"), ("protocol", "src/frontend/flight/sql.rs")],
  ["schemas and rows received", "status codes", "sync responses", "contents of tables"])

p("C31", "Remote and inlined catalogs give exactly the listed tables, unchanged",
  "With a catalog served over gRPC, or sent along with a statement, every statement sees exactly the tables listed at that moment for its own database: each under its schema and name (whatever characters are in them), with exactly the contents of the Delta table at its store's location and path, however the location is written (trailing slash, percent-encoding) and whether or not it lies within the server's own storage; no other table, and nothing from an earlier listing or another database. While the catalog can't be reached, lists something broken (an unknown store or format, a location that is none, no store where the server has none of its own), or has no such database, statements are refused. Statements that would change such a catalog are refused and leave the listed tables with their data.",
  ["histories", "inputs"], "All listings, storage locations and options, and histories of statements, listing changes and outages.",
  "Tests list a few fixed tables from a fixed catalog, which doesn't change or fail.",
  ["src/catalog/metastore.rs", "src/catalog/external.rs", "src/catalog/memory.rs", "src/object_store/factory.rs", "clade/src/lib.rs"],
  [("listing to schemas", "src/catalog/metastore.rs:build_catalog"), ("stores", "src/object_store/factory.rs:get_log_store_for_table"), ("remote catalog", "src/catalog/external.rs")],
  ["rows of queries over listed tables", "information_schema.tables", "refusals", "databases asked of the catalog"])

p("C32", "Clients that work at the same time don't disturb each other",
  "Requests that reach one server at the same time, over HTTP, Flight SQL or further contexts, each take effect completely and once, as if one after the other: statements on a table nobody else uses succeed and give exactly its rows, whatever others do; every insert into a shared table is there once, whole, for every query sent after it ended, and no query sees a part of it; a delete removes its rows or is refused without effect; of several creations of one name exactly one succeeds; the version history lists each write once.",
  ["schedules", "histories"], "All histories of up to eight concurrent clients over every frontend, and all schedules of them.",
  "Tests send one statement at a time.",
  ["src/context/mod.rs", "src/context/delta.rs", "src/context/physical.rs", "src/frontend/http.rs", "src/frontend/flight/handler.rs", "src/provider.rs"],
  [("catalog per request", "src/context/mod.rs:scope_to"), ("reload", "src/context/mod.rs:reload_schema"), ("create", "src/context/delta.rs:create_delta_table"), ("commit", "src/context/delta.rs:commit_delta_table")],
  ["answers to each client", "rows of own and shared tables", "system.table_versions"])
p("C33", "Functions exist from CREATE to DROP, under their name, in their database",
  "After CREATE [OR REPLACE] FUNCTION is answered, every later call of the function in that database, by any spelling that denotes its name, in any request and after a restart, runs exactly that definition, until it is replaced or dropped; then the new definition, the built-in function of that name, or no function. CREATE of an existing name, DROP of a missing one and definitions that cannot be called are refused and change nothing. Functions of other databases are neither seen nor touched.",
  ["histories"], "All histories of creating, replacing, dropping and calling functions over names, spellings, databases and restarts.",
  "Tests create, replace and drop one lower-case name in one context.",
  ["src/context/logical.rs", "src/context/physical.rs", "src/context/mod.rs", "src/catalog/metastore.rs", "src/repository/sqlite.rs", "src/frontend/http.rs"],
  [("registration", "src/context/mod.rs:register_function"), ("reload", "src/catalog/metastore.rs:build_functions"), ("names", "src/context/logical.rs:function_name")],
  ["results and refusals of calls over HTTP"])

out = "/verif/properties.jsonl"
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
