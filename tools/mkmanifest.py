#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification checked with TLC, bound to the code by %s'
AUTO = 'replaying the exported transition relation on the real code'
TRACE = 'TLC validation of traces recorded from the real code'
ROWS = 'replaying rows exported from the specification on the real code'
NOTE = {
 'P01': (ROWS + ' and ' + TRACE, 'Exhaustive for small lists of boxes; sampled beyond. Queries are not inverted; infinite queries are not combined with empty boxes.'),
 'P02': (ROWS + ' and ' + TRACE, 'Exhaustive for small lists of boxes; sampled beyond.'),
 'P03': (ROWS + ' and ' + TRACE, 'Exhaustive for small lists of boxes; sampled beyond, including exact sizes up to the integer limit (64-bit int).'),
 'P04': ('an exported automaton and ' + TRACE, 'Sampled cells (tens of millions in the thorough tier); centres lie well inside a cell, so that rounding never decides.'),
 'P05': (TRACE, 'Sampled declarations, features and histories, each validated as a whole by TLC; the small models are exhaustive.'),
 'P08': (AUTO + ' and ' + TRACE, 'Exhaustive for declarations of at most 3 features and bounded call histories; sampled beyond.'),
 'P09': (AUTO + ' and ' + TRACE, 'Exhaustive over failure positions for short histories on small declarations; sampled beyond.'),
 'P06': (TRACE, 'The expected matches come from FileReader.tla/Geometry.tla evaluated by TLC on the logged coordinates; sampled files and histories, exhaustive only in the small model.'),
 'P07': (AUTO + ' and ' + TRACE, 'Exhaustive for files of at most 3 features and bounded call histories; sampled beyond. Trusts the independent file encoder of the harness.'),
 'P10': (AUTO + ' and ' + TRACE, 'Exhaustive over cut positions and failing operations of small files and short histories; sampled beyond.'),
 'P11': (AUTO + ' and ' + TRACE, 'Exhaustive over short histories for each delivery mode on small files; sampled beyond.'),
 'P12': (ROWS + ', ' + AUTO + ' and ' + TRACE, 'Exhaustive for small indexes with hostile pointers, for every change of one byte of five small files, and for damage of one or two fields; sampled beyond. Accessors of the returned tables are not part of it.'),
 'P13': (ROWS + ' and ' + TRACE, 'Exhaustive for 8 and 16-bit values and for every byte position of wider ones; sampled sequences. One known finding (ReadInt) is tolerated in exactly its form.'),
 'P14': (ROWS + ' and ' + TRACE, 'Exhaustive for schemas of up to two columns and two values with every truncation; sampled beyond. One known finding (ReadInt) is tolerated in exactly its form.'),
 'P15': ('replaying exported schedules on the real code, ' + TRACE + ' and the race detector', 'Exhaustive for schedules of two clients with at most five uninterrupted runs at the level of stream operations (a sample of them per pair of clients in the quick tier); parallel runs are sampled.'),
 'P16': (ROWS + ' and ' + TRACE, 'Exhaustive near the right signature; sampled headers. Damaged tables whose count and node size can still be read may be accepted or refused.'),
 'P18': (ROWS + ' and ' + TRACE, 'Exhaustive over presence patterns of no, one, two, all and all but one field, and over single byte changes of a few headers and features; sampled features. How a text is laid out is not part of it, only what it must show. One known finding (ReadInt) is tolerated in exactly its form.'),
 'P17': (ROWS + ' and ' + TRACE, 'Exhaustive over the order types of two boxes with five coordinate values; whether the empty box meets the unbounded one is left open.'),
 'P19': (ROWS + ' and ' + TRACE, 'Exhaustive over small trees and nine queries each for the streaming search; sampled sessions and files for the reader. Reading less than the bound is allowed.'),
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1,
     'setup_cmd': 'sh bin/setup.sh',
     'checks': [{'property': i, 'quick_cmd': 'python3 bin/check.py %s quick' % i, 'thorough_cmd': 'python3 bin/check.py %s thorough' % i,
                 'technique': T % NOTE[i][0], 'level': 'model_checking', 'level_note': NOTE[i][1]} for i in ids if i in NOTE],
     'not_applicable': [{'property': i, 'reason': 'check not built yet'} for i in ids if i not in NOTE],
     'notes': 'No hooks: the checks drive the public API only. TLA+/TLC; see DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
