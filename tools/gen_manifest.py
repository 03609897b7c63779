#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in harness/checks/src/bin is claimed."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
PBT = "generated inputs against a reference model (property-based testing, shrinking)"
T = {
 "C01": ("grammar-based generation of scripts, differential against statement-alone parsing; token-soup fuzzing", "exploration", "Seeded sampling of the script grammar and of malformed text; trusts sqlparser for standard statements."),
 "C02": ("structure-aware generation of DDL with its expected AST", "exploration", "Seeded sampling of clause orders, cases, quotings and contradictions; every field of the parsed statement compared."),
 "C03": ("generated column lists against a reference type table", "exploration", "Sampled column lists over all type spellings; precision/scale pairs over the whole u64 range with edge bias."),
 "C04": ("metamorphic: generated command plans through rebuild, rewrite, optimiser; equality/hash laws on generated pairs", "exploration", "Sampled nodes and near-identical pairs; the real DataFusion optimiser is run."),
 "C05": ("generated queries with their expected rewriting; timestamps rendered from known instants", "exploration", "Sampled query shapes with references at every position; trusts sqlparser's parse and Display for the rest of the query."),
 "C06": ("generated WebAssembly functions run by the UDF, differential against an independent interpreter", "exploration", "Sampled signatures, functions, null patterns, batch sizes; trusts wasmtime."),
 "C07": ("generated guests and values; round-trip and byte-level differential of MessagePack exchange", "exploration", "Sampled values of every supported type with edge bias, through guests that check the host's side of the protocol."),
 "C08": ("structure-aware fuzzing of WASM modules in a supervised process", "exploration", "Sampled hostile modules; crash, panic, runaway allocation or corrupted later call is a violation."),
 "C09": ("round-trip of generated function definitions through documents and the catalog", "exploration", "Sampled definitions, spellings and malformed documents; storage through the real SQLite catalog, reopened."),
 "C10": ("stateful model-based testing of the catalog against a reference model", "exploration", "Sampled histories with full-state comparison; trusts SQLite."),
 "C11": ("stateful model-based testing of table versions, with clock faults", "exploration", "Sampled histories over several tables, full version listings compared after every step."),
 "C12": ("stateful model-based testing of the cleanup queue", "exploration", "Sampled histories over several databases and similar names."),
 "C13": ("generated histories with storage faults, cancellation and crash snapshots at every statement", "fault_enumeration", "For every sampled operation, every statement is made to fail once and every intermediate on-disk state is reopened."),
 "C14": ("generated concurrent histories checked by linearisation search; read-only differential", "exploration", "Sampled schedules of small concurrent histories over several connections; every outcome explained by some sequential order."),
 "C15": ("generated filters and rows: differential between DataFusion evaluation and the SQL executed in SQLite", "exploration", "Sampled expression trees, names, literals and rows, executed in real SQLite."),
 "C16": ("generated filters translated, parsed back with the dialect's own lexical and precedence rules and evaluated", "exploration", "An independent parser and evaluator of the emitted SQL stand in for the Postgres and MySQL servers, which are not available."),
 "C17": ("generated storage configurations against a reference model; requests of the built stores observed on a loopback server", "exploration", "Sampled configurations, locations, options and environments; region detection needs the network and is not exercised."),
 "C18": ("generated requests (tokens, endpoints, statements) against a reference model of the rights and the state before and after", "exploration", "Sampled requests through the real HTTP filters in process; statements come from templates known to read or write."),
 "C19": ("stateful differential of the wrapped and the bare memory pool", "exploration", "Sampled operation sequences over all pool kinds, also concurrent."),
 "C20": ("generated sessions fed to the real shell process, against a reference reading of the session", "exploration", "Sampled sessions around every documented spelling; the context is a stand-in (plain DataFusion)."),
 "C21": ("generated uploads with faults against the expected file contents", "exploration", "Sampled contents, layouts, file systems and failures, in scratch directories only."),
 "C22": ("stateful model-based testing of SQL histories against a reference model, with storage faults", "exploration", "Sampled histories; the whole of Seafowl runs, over a stand-in for the deltalake crate (which is not available offline) and a SQLite catalog."),
 "C23": ("stateful model-based testing of cleanups with storage faults", "exploration", "Sampled histories and faults over a local object store and a SQLite catalog."),
 "C24": ("stateful model-based testing of sync histories against a reference model, with storage faults and restarts", "exploration", "Sampled histories; the writer and planner run in a whole Seafowl context over a stand-in for the deltalake crate."),
 "C25": ("generated read histories and multi-threaded reader crowds compared with the store's bytes", "exploration", "Sampled histories over an in-memory store that fails and lags on demand; thread schedules are the operating system's."),
 "C26": ("stateful model-based testing of requests, conditional requests and uploads", "exploration", "Sampled histories through the real HTTP filters in process, over a stand-in for the deltalake crate."),
 "C29": ("generated catalogs in released layouts, opened and compared with a reference model, then stateful model-based testing", "exploration", "Sampled contents in each released SQLite layout; the Postgres migrations cannot run here."),
 "C30": ("stateful model-based testing of a server over the loopback network with arrow-flight's client, and generated arbitrary protocol messages", "exploration", "Sampled histories of up to 25 requests from two connections; Delta tables go through the stand-in for deltalake; streams on which arrow-flight or arrow-ipc themselves panic are not sent."),
 "C31": ("stateful model-based testing against a generated, changing and failing catalog served over loopback gRPC, and inlined catalogs", "exploration", "Sampled listings and histories; storages are directories; Delta tables go through the stand-in for deltalake."),
 "C32": ("stateful model-based testing of concurrent clients over several frontends on a multi-threaded server", "exploration", "Sampled histories; schedules are the operating system's; Delta tables go through the stand-in for deltalake."),
 "C33": ("stateful model-based testing of function histories over HTTP, with restarts", "exploration", "Sampled histories over names, spellings and two databases; SQLite catalog."),
 "C27": ("generated locations, files, reads and server faults against the file's bytes, over a loopback HTTP server", "exploration", "Sampled locations and answers, from a generated server on the loopback interface; whole SELECTs are compared with the same file on disk."),
 "C28": ("generated settings rendered to TOML and environment variables, against a model of the documented settings", "exploration", "Sampled combinations over every setting; started contexts are measured for memory limit and partition size."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if any(os.path.exists(os.path.join(root, "harness", c, "src/bin", i.lower() + ".rs")) for c in ("checks", "checks_full")):
        t = T[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t[0], "level": t[1], "level_note": t[2]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Checks build the harness crates in /verif/harness, which compile /repo's sources in place; the one hook opens the sync writer to C24."}
m["hooks"] = {"guard": "verif_hooks", "enable": "harness/sut_full/build.rs passes --cfg verif_hooks when it compiles /repo's sources",
              "source_commits": ["801d3c8"]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
