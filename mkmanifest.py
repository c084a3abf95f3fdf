#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
N = {
 'C01': ('differential runtime monitor: real shells as oracle for parsed words', 'Each generated line is split by sh and bash; the parse result must account for exactly those words. Trusts the shells and the option reference (optspec.json, itself probed by C03). Sampling, not exhaustive, over word lists; every spelling of every described command occurs.'),
 'C02': ('metamorphic runtime monitor: equivalent spellings must give equal structural dumps', 'All single flags/options and all pairs per command, random longer lists, several random spellings each; alias groups from optspec.json.'),
 'C03': ('differential runtime monitor: the real tools probed and run as oracle for the option data', 'Every documented or listed spelling is probed on the installed GNU tool; canonical re-rendering is run against the original words. awk and col only by table (gawk, col not installed).'),
 'C04': ('runtime monitor with list model over applied invocations', 'Word-by-word comparison of applied with parsed invocations for all commands x flag singles/pairs x operand shapes, plus random typing histories.'),
 'C05': ('runtime monitor: inotify and stdin observation of real tool runs, plus reference model', 'Reads observed on the installed tools must be declared; reference model covers the shapes that are not run. Recorded findings excluded.'),
 'C06': ('runtime monitor: directory snapshots, inotify and captured stdout of real tool runs, plus reference model', 'Writes observed on the installed tools must be declared; reference model covers the shapes that are not run. Recorded findings excluded.'),
 'C07': ('runtime monitor: observed reads/writes of successful real runs must confirm each declared stream, plus reference model', 'Only successful runs confirm; invocations that may stop early are judged by the model alone.'),
 'C08': ('runtime monitor with hostile inputs: exceptions and unexpected (non-)refusal against a reference model', 'Arbitrary word lists, unknown commands, unsupported shapes; the model decides which must be refused.'),
 'C09': ('runtime monitor: real execution of mappers and aggregators on cut inputs vs. sequential run', 'Byte comparison with the real sequential output for all cuts of small texts and random multi-cuts and associations. custom/bigram commands through models.'),
 'C10': ('runtime monitor: real execution of mappers and aggregators on dealt-out inputs vs. sequential run', 'As C09 for round-robin dealings with random worker assignments and orders.'),
 'C11': ('runtime monitor: built mappers and aggregators against a reference construction', 'All parallelizable commands x flag singles/pairs and random specifications; streams compared word by word with the access map.'),
 'C12': ('runtime monitor over call histories, threads and processes: deep dumps before/after and across recomputations', 'Same command lines recomputed after vandalizing earlier results, in other orders, from 8 threads with microsecond switching, in processes with other hash seeds; dumps of every argument around every call.'),
 'C13': ('runtime monitor: claims of parallelizers against what building their parts yields', 'Stated and inferred parallelizers of all parallelizable commands and combinations of implemented and unimplemented parts.'),
 'C14': ('runtime monitor: offered parallelizers against a reference table', 'All flag singles/pairs of each parallelizable command; only must-offer cases are judged.'),
 'C15': ('runtime monitor: random operation histories against an executable list model', 'Every operation followed by a full state comparison with the model.'),
 'C16': ('runtime monitor: random read/append histories and all constructor combinations against a list model', 'All splitter x aggregator x mapper x info combinations; random histories of readings and changes.'),
 'C17': ('runtime monitor: transformers and chains against a list model', 'Random lists and nested chains; inputs dumped before and after.'),
 'C18': ('runtime monitor: the real command line tool as an unprivileged process, report and file system compared', 'Library answers as oracle for the report; full before/after snapshot of the scratch directory as oracle for files.'),
 'C19': ('runtime monitor: aliasing histories with deep snapshots and an equality oracle over descriptions', 'Values built from random descriptions: equal exactly if the descriptions are; derived invocations watched while others are changed.'),
 'C20': ('runtime monitor: random added commands in a copy of the package against an interpretation of their generators', 'Generator programs over all interface helpers and operations; answers of a new process compared with a model interpreter over the reference classification.'),
 'C21': ('runtime monitor: the real converter script on generated manual pages against the tables they were made from', 'Pages in the documented patterns only; --help texts of installed tools for well-formedness; generated data added to a copy of the package and used for parsing.'),
 'C22': ('runtime monitor: mappers executed on chunks with the real tools, results combined by reference implementations of the announced kind of aggregator vs. sequential run; functional-dependency monitor for placeholders', 'uniq and tr invocations on small texts at every line boundary; nothing is known beyond what was executed.'),
 'C23': ('runtime monitor: new processes using a built and installed package in many configurations against the source tree, with snapshots of the installation', 'Ways of installing: directory, odd names, symbolic links, read-only as another user, compiled, relative path; interpreter options -O, -OO, -S, -X dev; every module first once per run.'),
}
here = os.path.dirname(os.path.abspath(__file__))
checks = [{'property': k, 'quick_cmd': f'python3 -B check.py {k} --tier quick', 'thorough_cmd': f'python3 -B check.py {k} --tier thorough',
           'technique': t, 'level': 'exploration', 'level_note': n} for k, (t, n) in N.items()]
json.dump({'version': 1, 'setup_cmd': 'python3 -B setup_check.py', 'checks': checks, 'not_applicable': [],
           'notes': 'Pure Python, nothing to build: every check imports /repo at run time. No hooks in /repo.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
