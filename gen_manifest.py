#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
BASE = ("Held on the executions the evidence file counts; no claim about inputs this workload does not produce. ")
T = {
 "P01": ("runtime monitoring: totality monitor (panic, step, nil and position checks) on the real parser under fuzzed workloads",
         BASE + "Trusted: the step counting instrumentation and the Go runtime."),
 "P02": ("runtime monitoring: logical step counters in every loop and function, growth of the count per input family",
         BASE + "Steps are counted by instrumentation of functions and loops, not by time; library calls count through the loops they are in."),
 "P03": ("runtime monitoring: every block sequence up to a length and long random ones, against an independent block model",
         BASE + "Trusted: the model of Vim's block rules in props_block.go."),
 "P04": ("runtime monitoring: positions predicted by the generating model, compared with every observed node",
         BASE + "Trusted: the generator's own model of where a token begins."),
 "P05": ("runtime monitoring: marked error templates and metamorphic relations between observed errors",
         BASE + "Trusted: the table of error kinds with their marks."),
 "P06": ("runtime monitoring: observed trees compared with the tree each expression was generated from",
         BASE + "Trusted: the generator's table of precedences, written from Vim's documentation."),
 "P07": ("runtime monitoring: observed statements compared with the model each script was generated from",
         BASE + "Trusted: the generator's model of the commands."),
 "P08": ("runtime monitoring: observed extra arguments compared with those each command was generated with",
         BASE + "Trusted: the generator's model of modifiers, ranges and options."),
 "P09": ("runtime monitoring: live differential run against autoload/vimlparser.vim inside Vim",
         BASE + "Trusted: Vim 9.1 as the interpreter of the reference. Scripts are UTF-8 without combining characters, NUL and carriage return."),
 "P10": ("runtime monitoring: differential run of the committed parser and the one translated from the reference during the check",
         BASE + "Trusted: Vim 9.1 running the repository's generator."),
 "P11": ("runtime monitoring: metamorphic relation between observed parses of the same characters in different layouts",
         BASE + "Trusted: the model of line joining in src.go."),
 "P12": ("runtime monitoring: every prefix of every command in both modes and in random histories against a resolution model",
         BASE + "Trusted: the frozen command table data/cmds.txt and the model of abbreviations."),
 "P13": ("runtime monitoring: recorded visitor call traces checked against a reflective walk of the AST",
         BASE + "Trusted: reflection over the exported fields as the definition of a child."),
 "P14": ("runtime monitoring: before/after snapshots of ASTs, repeated compilations and fault injecting writers",
         BASE + "Writer faults are injected at every write call of small scripts."),
 "P15": ("runtime monitoring: observed output compared with an independent renderer of the S-expression format",
         BASE + "Trusted: the renderer in sexpr.go, written from the reference compiler's format."),
 "P16": ("Go race detector and result monitor over concurrent and repeated use, with random yields injected",
         BASE + "The race detector reports only races between accesses that happened in a run."),
 "P17": ("runtime monitoring: print, parse, print round trips of generated and hand-built trees",
         BASE + "Trusted: the parser (monitored by P06) as the reader of printed text."),
 "P18": ("runtime monitoring: the built command run as a process and compared with a model made from the library",
         BASE + "Trusted: the library's own results, which the other properties monitor."),
 "P19": ("runtime monitoring: fault injecting and chunking readers around the same bytes",
         BASE + "Read faults are injected at every offset of small inputs."),
 "P20": ("runtime monitoring: decoded JSON compared with a reflective walk of the AST",
         BASE + "Trusted: encoding/json as decoder."),
 "P21": ("runtime monitoring: every observed node's text compared with the source bytes at its position, and accounting of lines",
         BASE + "Trusted: the model of line joining in src.go."),
 "P22": ("runtime monitoring: differential run of the public compiler and the one translated into package go",
         BASE + "Trusted: the agreement of two translations; P15 judges the public one by an independent renderer."),
 "P23": ("runtime monitoring: metamorphic relation between observed parses of scripts alone and put into each other",
         BASE + "Complete scripts are told by the parser itself, cross-checked: a script without script lines or heredocs must be complete."),
 "P24": ("runtime monitoring: live heap after garbage collection while results are held and after batches of them are dropped",
         BASE + "Memory is measured by runtime.MemStats after collections; leaks smaller than 12 bytes per parse are below the threshold."),
 "P25": ("runtime monitoring: observed values of the helpers compared with those Vim gives for the same calls",
         BASE + "Trusted: Vim 9.1. Combining characters are left out, and for the flags of commands all beyond ASCII."),
 "P26": ("runtime monitoring: Vim runs generated programs and what their observed AST says, effects compared",
         BASE + "Trusted: Vim 9.1 and the renderer of ASTs in vimtext.go, which puts every operand in parentheses."),
}
DONE = set(open(os.path.join(here, "claimed.txt")).read().split())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in DONE:
        t, n = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
m["notes"] = "No hooks are committed in /repo: the checks instrument a copy of its sources through go build -overlay (harness/instr)."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
