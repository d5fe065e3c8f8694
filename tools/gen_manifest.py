#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {
 "C01": ("reference monitor and glibc oracle", "Random and small-exhaustive integer directives compared with an independent renderer, itself compared with glibc printf in the same run. Trusts the renderer where glibc has no counterpart (8-bit promotion to the argument's own size, big integers)."),
 "C02": ("reference monitor on every output", "Random and boundary doubles and floats compared with exact decimal rounding of the shortest decimal. Trusts JDK 21's Double.toString for the shortest decimal (decided separately by C06)."),
 "C03": ("reference monitor on every output", "As C02 for g and G, half of the cases within a few units of a notation switch. With '#' in scientific notation only value, notation and padding are decided."),
 "C04": ("reference monitor and equal-value pairs", "Random decimals and big integers of up to thousands of digits and any scale compared with exact digit-string rounding."),
 "C05": ("reference monitor and read-back", "Every binary exponent with structured significands at every precision, plus random cases, compared with exact binary rounding; unrounded outputs are read back."),
 "C06": ("exact-interval monitor of printed digits", "Exact integer arithmetic decides identification, minimality and closeness for every printed double; no other float printer is trusted."),
 "C07": ("reference monitor on every output", "Texts of all threshold lengths and kinds, arrays and characters compared with the string model."),
 "C08": ("metamorphic monitor over groups of calls", "Relates outputs of the same directive at different widths; needs no renderer."),
 "C09": ("independent recogniser as monitor", "Generated, mutated and very long format strings; acceptance, exception kind, index and literal output decided by a separately written recogniser."),
 "C10": ("reference monitor over directive programs", "Random directive sequences with recording and booby-trapped arguments, lists short, exact and long."),
 "C11": ("differential monitor over entry points and sinks", "One case through every entry point and many destinations with event logs."),
 "C12": ("fault injection at every write and callback", "For each generated case every write index and every argument callback fails once with each of several errors; prefix, cause, silence afterwards and reuse are decided."),
 "C13": ("controlled scheduling with bytecode instrumentation", "Library bytecode is instrumented at load time with scheduling points; a cooperative scheduler runs thousands of distinct interleavings of shared formatters, argument lists and texts; each result is compared with the call run alone. Free-running stress in addition. Explores sequentially consistent interleavings plus what the hardware shows in the stress part."),
 "C14": ("history monitor against a memoryless model", "Random histories of calls, failures, re-configurations and nested calls; every result compared with the reference."),
 "C15": ("allocation, heap and reachability monitors", "Per-thread allocation counters, live heap after collection and weak references under mixed-size histories; bounds are linear with generous constants."),
 "C16": ("model-based monitor over rope programs", "Random programs over the rope operations; all observers of all values compared with strings."),
 "C17": ("model-based monitor over argument lists", "Random build/read/format programs compared with a list model including identity."),
 "C18": ("reference monitor over temporals and zones", "Temporal values of all kinds, patterns and system zones compared with java.time and with an independent civil-date computation."),
 "C19": ("cross-JVM differential monitor", "One deterministic workload in child JVMs over five JDKs, locales, zones, encodings and compilation modes; every output compared with the reference and with the other JVMs."),
 "C20": ("rule-table monitor over the type x conversion matrix", "Every argument type with every conversion and in dynamic positions; values and refusals decided by a rule table."),
 "C21": ("step metering by bytecode instrumentation", "A copy of the library's bytecode counts entered methods, backward jumps and bulk platform work; every compilation, list operation and call is held to a linear bound with a tenfold margin over what the present code needs. Work inside the platform's big-number arithmetic is not counted."),
 "C22": ("history monitor with misuse and message oracle", "Misuse mixed into histories of correct calls, with booby-trapped arguments and watched destinations; messages of all refusals read and judged."),
 "C23": ("recording proxies and fault injection", "Argument lists, iterators and handlers are recording proxies; questions, order and output are judged, also with a failure at each element."),
 "C24": ("model-based monitor over settings and directives", "Random histories of settings, each value observed after every step; directives driven by themselves with counted arguments and compared with the reference."),
 "C25": ("reference monitor over number forms", "Every answer of integer and float forms, asked in random order, compared with exact arithmetic; texts handed out are read again. Trusts JDK 21's Double.toString for the text form of doubles (decided by C06 for the digits)."),
}
checks, na = [], []
levels = {"C12": "fault_enumeration"}
for l in open(B + "/properties.jsonl"):
    i = json.loads(l)["id"]
    have = any(os.path.exists(f"{B}/harness/{d}/fpv/Check{i}.java") for d in ("core", "rope", "race", "custom", "settings", "forms"))
    if have:
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                       "technique": N[i][0], "level": levels.get(i, "exploration"), "level_note": N[i][1],
                       "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": "The check is not finished yet."})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "All checks run the freshly compiled classes of /repo; no hooks in /repo are needed. See DESIGN.md."},
          open(B + "/MANIFEST.json", "w"), indent=1)
