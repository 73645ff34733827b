#!/usr/bin/env python3
"""Write MANIFEST.json from the property list and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
build = "deterministic simulation with fault injection: the real compiler on a simulated machine, seeded search over builds, schedules and disk faults"
note = "Search, not enumeration: a seeded sample of histories of generated projects and of the repository's own library; quick runs thousands of simulated builds."
checks = {i: (build, note) for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08")}
web = "deterministic simulation with fault injection: the real web server in a bubble of simulated time, seeded search over client behaviour, disk latency and disk faults"
checks["C09"] = (web, "Search, not enumeration: seeded scripts of client connections against a simulated network, disk and clock; one address family, no TLS, no links in the served folder.")
run = "deterministic simulation with fault injection: generated programs in the real generated runtimes on a simulated scheduler, seeded search over programs, completion orders and failures of asynchronous calls"
rnote = "Search, not enumeration: seeded programs of a fragment of the language (asynchronous calls, lets, lists, maps, structures, lambdas), %s; calls that use the result of other calls only in JavaScript, the one target that compiles them."
checks["C11"] = (run, rnote % "in JavaScript, Java and C++")
checks["C12"] = (run, rnote % "in JavaScript, Java and C++")
checks["C13"] = (run, rnote % "in JavaScript, Java and C++")
checks["C14"] = (run, "Search, not enumeration: seeded programs of a fragment of the language in C++ under the address sanitizer with allocation counting; results are waited for or abandoned; outright failures (exceptions) are not injected.")
checks["C15"] = (run, rnote % "in JavaScript, Java and C++")
lib = "deterministic simulation with fault injection: the real generated %s on a simulated scheduler, seeded search over %s"
checks["C16"] = (lib % ("test runner", "trees of tests, completion orders and failures of their asynchronous results"), "Search, not enumeration: seeded trees of up to four members per group in JavaScript, Java and C++, at each of the runner's seven entry points; asynchronous results are compared by equality, the only comparison the runner makes for them.")
checks["C18"] = (lib % ("state library", "programs of state operations and completion orders of the asynchronous calls between them"), "Search, not enumeration: seeded programs that write, overwrite, remove and read texts, lists and maps of texts under a few names in JavaScript, Java and C++; up to five programs share one state.")
checks["C17"] = (lib % ("file library", "programs of file operations, disk contents and disk faults") , "Search, not enumeration: seeded programs that write, read and look for files on a simulated disk, in Java and C++ (the JavaScript file functions are empty); up to four programs share the disk; crashes of the whole program between operations are not simulated, the library promises nothing about them.")
checks["C24"] = (lib % ("user interface library", "first pages, programs that change them, user events and completion orders of asynchronous calls"), "Search, not enumeration: seeded programs that add, remove, replace, hide, show and select elements of pages up to three levels deep in JavaScript (the only language with a page); up to five programs share one page; the document itself (elements, HTML parser, event dispatch) is a simulated one; layout measures and style sheets are not compared.")
checks["C25"] = (lib % ("event handling of pages", "first pages, programs that change them, user events and completion orders of asynchronous handlers"), "Search, not enumeration: seeded programs as for C24 with click and change events on elements with synchronous and asynchronous handlers, in JavaScript on a simulated document.")
checks["C19"] = (lib % ("permission checks", "programs, users' permissions, and completion orders of asynchronous calls"), "Search, not enumeration: seeded programs calling six guarded functions for up to four users at once, in JavaScript, Java and C++; guarded functions that are themselves asynchronous do not compile in Java and C++ and are left out.")
na = {
    "C20": "Resolution is a pure function of the source text inside one sequential compiler pass: no concurrency, time, I/O or fault can influence it beyond what C01 and C04 already check, so simulated schedules and faults decide nothing about it.",
    "C21": "A statement about programs without asynchronous calls, time or I/O: there is no schedule or fault to simulate. The asynchronous programs, compared across languages, are covered by C11.",
    "C22": "Printing and reading are pure functions of one value: no concurrency, time or I/O is involved.",
    "C23": "No C#, Kotlin or Swift toolchain is available, so the generated code of these languages cannot be executed under a simulator. C01 to C08 do cover how their files are written.",
}
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": checks[i][0], "level": "exploration", "level_note": checks[i][1]})
    elif i in na:
        m["not_applicable"].append({"property": i, "reason": na[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "No check is claimed for this property."})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
