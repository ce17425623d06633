#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPL = 'explicit-state exploration of the real code'
TECH = {
    'C01': EXPL + ' to a fixpoint over operation histories and RNG answers, in lockstep with a multiset model',
    'C02': EXPL + ' over request histories and RNG answers; exhaustive reachability per call',
    'C03': 'exhaustive enumeration of RNG answers (exact laws as fractions) after every short setting history',
    'C04': 'exhaustive enumeration of RNG answers over all (n, k) and weightings; bounded sizes under answer patterns',
    'C05': 'stateless exploration of all request histories up to a depth, in lockstep with twin instances',
    'C06': 'stateless exploration of all operation sequences up to a depth against a position model',
    'C07': 'exploration of histories x RNG functions (uninterpreted RNG) against newly built instances',
    'C08': 'exploration of all interleavings of operations on two instances against solo runs',
    'C09': 'stateless exploration of request histories over recording child stubs against a stream model',
    'C10': 'stateless exploration of request and rebinding histories over recording sources and functions',
    'C11': 'stateless exploration of field call histories over scripted gates and repeats against a field model',
    'C12': 'stateless exploration of schema modification histories against an ordered-map model',
    'C13': 'stateless exploration of document histories over all small schemas against a document model',
    'C14': 'exhaustive enumeration of ranges x sequence operations (nested slices included) against tuples',
    'C15': 'exhaustive enumeration of range arguments against step-by-step construction',
    'C16': 'stateless exploration of container operation and broadcast histories against plain list and dict',
    'C17': 'exhaustive enumeration of RNG answers: reported counts against the set of reachable outputs',
    'C18': 'exploration of every refused operation at every point of bounded histories against an untouched twin',
    'C19': 'exhaustive enumeration of bounded range lists against a list built code point by code point',
    'C20': 'fault injection: exhaustive enumeration of fault positions, repetitions and types in user code',
    'C21': 'exhaustive enumeration of bounded parameter grids against decimal arithmetic; emission in lockstep with a model',
    'C22': EXPL + ' to a fixpoint over setting histories and RNG answers; exact laws against new emitters',
    'C23': 'stateless exploration of operation histories over all compositions of mixins, in lockstep with a model of independent generators',
    'C24': 'exploration of histories x RNG functions (uninterpreted RNG) over all kinds of sequences, against a twin built from lists',
    'C25': 'exhaustive enumeration of access histories and import orders; request histories against stream models',
}
NOTE = ('Every execution within the stated bounds is run on the code in /repo itself (no separate model to keep bound to '
        'it); the reference it is compared with is written from the documentation. Trusts CPython, its random module on '
        'top of the controlled primitive draws, and the explorer in mc/. Bounds per scenario: DESIGN.md and the evidence file.')


def main():
    checks = []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        pid = json.loads(line)['id']
        checks.append({
            'property': pid, 'quick_cmd': './check %s quick' % pid,
            'thorough_cmd': './check %s thorough' % pid,
            'technique': 'model checking: ' + TECH[pid],
            'level': 'model_checking', 'level_note': NOTE})
    out = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
           'checks': checks, 'not_applicable': [],
           'notes': 'No hooks: all randomness is controlled by replacing '
                    'random.Random before fauxdoc is imported.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
