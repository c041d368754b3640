#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
HOW = {
 'C01': 'TLC behaviours of Codec.tla and Prims cases replayed on the runtime and generated code',
 'C02': 'TLC-enumerated range boundaries and oversized headers replayed on the runtime and generated code',
 'C03': 'TLC behaviours with damaged and arbitrary streams replayed on the generated decoders',
 'C04': 'bit sizes prescribed by the TLA+ encoder compared with the reported sizes',
 'C05': 'TLC behaviours encode/decode/re-encode over all schema groups replayed on generated code',
 'C06': 'TLC behaviours of array schemas replayed on generated code and the runtime array type',
 'C07': 'TLC-checked delta packing model; its sequences replayed on the runtime array type',
 'C08': 'TLC behaviours of packed compound schemas replayed on generated code',
 'C09': 'TLC behaviours of struct layout schemas replayed on generated code',
 'C10': 'TLC behaviours of choice and union schemas replayed on generated code',
 'C11': 'TLC behaviours of parameterised schemas replayed on generated code',
 'C12': 'TLC evaluation of enums, bitmasks and constants replayed on generated code',
 'C13': 'TLA+ expression semantics evaluated by TLC, replayed on generated expressions and functions',
 'C14': 'TLA+ name resolution evaluated by TLC, replayed on code generated for many packages',
 'C15': 'TLA+ template substitution evaluated by TLC, replayed on code generated for instances',
 'C16': 'TLC-checked model of generated modules compared with repeated generations and compilation',
 'C17': 'TLC-enumerated call sequences (Session.tla) replayed through all entry points',
 'C18': 'TLC-enumerated call sequences on used, failed and shared objects (Session.tla) replayed',
}
NOTE = {}
BASE = ('The TLA+ specification is model-checked by TLC within the bounds stated in DESIGN.md, and every behaviour TLC generates is '
        'replayed step by step on the code generated and built from the current tree. Assumes the specification states the format '
        'correctly and that the harness moves values faithfully; covers the committed schema groups and the sampled objects, not all schemas.')
m = {'version': 1, 'setup_cmd': 'python3 tools/run.py setup',
     'checks': [{'property': p, 'quick_cmd': 'python3 tools/run.py check %s' % p,
                 'thorough_cmd': 'python3 tools/run.py check %s --tier thorough' % p,
                 'technique': 'TLA+ / TLC model-based: ' + HOW[p], 'level': 'model_checking',
                 'level_note': NOTE.get(p, BASE)} for p in sorted(HOW)],
     'not_applicable': []}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
