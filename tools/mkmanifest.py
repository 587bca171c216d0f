"""Writes MANIFEST.json from properties.jsonl (run by hand after changes)."""
import json
import os

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HOW = {
    'C12': 'runtime monitoring: differential checking of two instrumented runs',
    'C13': 'AddressSanitizer/UBSan build, reference-count and allocation '
           'monitors under fault injection',
    'C20': 'runtime monitoring with injected aborts, evictions, restarts and '
           'cut files; snapshot oracle',
    'C21': 'runtime monitoring of interleaved and threaded transactions; '
           'offline serializability checker over the commit history',
    'C29': 'runtime monitoring with injected failures of database loads and '
           'stores; reference-model oracle',
    'C32': 'runtime monitoring of overlapping transactions; conflict monitor '
           'and reference-model oracle',
    'C22': 'runtime monitoring with fault injection; reference-model oracle',
}
NOTE = {
    'C13': 'Memory errors and leaks are judged by sanitizers and counters on '
           'the executed calls only; trusts gcc sanitizer runtimes and CPython.',
    'C21': 'Interleavings are sampled, at commit granularity and with free '
           'running threads; trusts ZODB and BTrees conflict resolution.',
}
props = [json.loads(x) for x in open('properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    checks.append({
        'property': i,
        'quick_cmd': f'bin/check {i} --tier quick',
        'thorough_cmd': f'bin/check {i} --tier thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': HOW.get(i, 'runtime monitoring of generated workloads; '
                             'online reference-model oracle'),
        'level': 'exploration',
        'level_note': NOTE.get(i, 'Holds on the executions counted in the '
                               'evidence file; trusts the reference model in '
                               'vf/, CPython, BTrees, persistent and ZODB.'),
    })
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
           'not_applicable': [],
           'notes': 'No hooks: everything is observed through the public API, '
                    'ZODB and sanitizers.'},
          open('MANIFEST.json', 'w'), indent=1)
