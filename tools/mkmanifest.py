#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'lib'))
import props, extra
T = 'TLA+ specification explored by TLC (property invariants); every behaviour replayed into the real code'
NOTE = {
 'C09': 'well-formedness invariant over all explored behaviours; outputs of the real code, hostile input and all configurations included, judged by an acceptor in TLA+ (Output.tla)',
 'C15': 'Replacer.tla explored by TLC over all short documents; each behaviour replayed through the replacer of the command line tool',
 'C16': 'Cli.tla explored by TLC over invocations, files and faults; each behaviour replayed with the real binary in a scratch directory',
 'C17': 'Emit.tla gives the bytes which each option adds to the output; compared byte by byte',
 'C18': 'ErrorText.tla gives the range, the message and the HTML rendering of every error of the explored behaviours',
 'C21': 'histories of concurrent calls recorded from the Python extension, checked for a sequential explanation by TLC (Shared.tla)',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf8')]
checks = [{'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
           'technique': T, 'level': 'model_checking',
           'level_note': NOTE.get(i, 'exhaustive within the bounds of the scopes in lib/props.py (class %s), random sessions beyond them; a TLA+ prediction is compared with the real output through the projection of the property' % i)}
          for i in ids if i in props.ALL]
na = [{'property': i, 'reason': 'its check is still being built'} for i in ids if i not in props.ALL]
json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the checks use its public interfaces. Known and repaired findings: known-findings.json.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
