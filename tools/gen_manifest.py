#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the texts below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASAN = 'ASan+UBSan build'
T = {   # property -> (technique, level_note)
 'C01': ('sanitizer-instrumented runs (ASan+UBSan) of every command and of the front end under generated, mutated and truncated BUILD files', 'Exploration: thousands of hostile inputs per run; crash/UB/hang oracle is the sanitizer runtime, plus resource bounds. Trusts gcc sanitizers and the dependency shims (absl, re2 as installed).'),
 'C02': ('ASan/UBSan runs of arena and arena containers with online monitors for alignment, disjointness and content stability against std containers', 'Exploration over random operation histories. Trusts gcc sanitizers.'),
 'C03': ('runtime monitor over scanner token streams (tiling, re-scan and reference lexer oracles) on generated sources, sanitized build', 'Exploration against an independent reference lexer. Trusts the reference.'),
 'C04': ('runtime monitor over recorded line/column answers for all token and random positions, compared to an independent reference', 'Exploration; reference is a linear scan for newlines.'),
 'C05': ('runtime monitor over rendered source ranges, compared with independently computed and re-parsed positions', 'Exploration; assumes ranges do not end at column zero of a later line.'),
 'C06': ('offline checker: print/re-parse round trip of generated programs compared as canonical trees, sanitized build', 'Exploration over a grammar-based generator.'),
 'C07': ('offline checker: recorded AST of generated programs against the tree the generator wrote', 'Exploration over a grammar-based generator; see properties for the operator chains left out.'),
 'C08': ('runtime monitor: range-map lookups against a brute force reference, sanitized build', 'Exploration over random insert/lookup histories.'),
 'C09': ('runtime monitor: recorded label parses/prints against a reference model, sanitized build', 'Exploration over generated labels.'),
 'C10': ('runtime monitor: pattern and visibility matching against a reference model, in the library and end to end', 'Exploration over generated pattern/target pairs.'),
 'C11': ('runtime monitor: glob expansions of the real tool on real directory trees against a reference matcher', 'Exploration over generated trees and patterns.'),
 'C12': ('runtime monitor: recorded file collection and reads on generated trees (symlinks, loops, special files) against a reference', 'Exploration over generated file systems.'),
 'C13': ('offline checker: elaborated program against a reference evaluator', 'Exploration over generated programs.'),
 'C14': ('offline checker: extracted targets against the ones the generator declared', 'Exploration over generated programs.'),
 'C15': ('offline checker: recorded dependency relations against the generator\'s graph', 'Exploration over generated workspaces.'),
 'C16': ('offline checker: header ownership reported by the tool against the generator\'s model', 'Exploration over generated workspaces.'),
 'C17': ('end-to-end runs of dwyu on generated workspaces, its edits applied and judged by a reference model', 'Exploration over generated workspaces.'),
 'C18': ('end-to-end runs of canonicalize, edits applied; identity, convergence and minimality monitors', 'Exploration over generated workspaces.'),
 'C19': ('offline checker: all table formats of the same command parsed back and compared', 'Exploration over generated tables.'),
 'C20': ('end-to-end monitor of exit codes, outputs and side effects over generated command lines', 'Exploration over generated command lines.'),
 'C21': ('end-to-end monitor of external repository resolution on generated output bases', 'Exploration over generated external projects.'),
 'C22': ('offline checker: compilation database parsed as JSON and compared with the generator\'s sources', 'Exploration over generated workspaces.'),
 'C23': ('ThreadSanitizer and injected delays/faults; results compared with the serial run', 'Exploration of schedules as they occur under stress.'),
 'C24': ('history monitor: real run-clang-tidy-cached against a stub clang-tidy that logs every call; cached reports compared with from-scratch reports over edit histories', 'Exploration over random edit histories. Trusts the stub clang-tidy.'),
 'C25': ('offline checker over the log of clang-tidy invocations during edit histories (exactly-once per out-of-date file)', 'Exploration over random edit histories. Trusts the stub clang-tidy.'),
 'C26': ('offline checker: report of the real run-clang-tidy-cached against what the stub clang-tidy is known to have printed', 'Exploration over generated projects and findings.'),
 'C27': ('fault injection (kills, crashes, signals, concurrent runs) under ASan/TSan with a later-run oracle', 'Exploration of fault points and schedules as they occur.'),
 'C30': ('end-to-end monitor of print on pipes and terminals against generated packages with known targets', 'Exploration over generated packages and command lines.'),
 'C31': ('monitor of the diagnostic stream against problems planted at known places of generated projects', 'Exploration over generated projects with up to ten of eighteen kinds of problems, at all verbosities.'),
 'C32': ('metamorphic monitor: results of all commands compared between runs on equivalent forms of generated projects', 'Exploration over generated projects in eleven relations; order of results is not compared.'),
 'C29': ('sanitizer-instrumented end-to-end runs on hostile project layouts and file system states', 'Exploration; as unprivileged user or in scratch directories only.'),
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    script = 'checks/%s.py' % i.lower()
    if os.path.exists(os.path.join(V, script)):
        t, n = T[i]
        checks.append({'property': i, 'quick_cmd': 'python3 ' + script,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 ' + script,
                       'technique': t, 'level': 'exploration',
                       'level_note': n})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks in /repo: the checks run the real binaries and public '
              'headers, built with sanitizers by vlib/build.py.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
