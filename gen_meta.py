#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta.py and checks.py"""
import json, os, sys
sys.dont_write_bytecode = True
import meta, checks
V = os.path.dirname(os.path.abspath(__file__))
HOOK = '60b24e8'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in meta.PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': p['hook']}}) + '\n')
claimed = [p for p in meta.PROPS if p['id'] in checks.CHECKS]
json.dump({
    'version': 1,
    'setup_cmd': 'true',
    'hooks': {'guard': 'VF_INLINE_BUF_SIZE', 'enable': '-DVF_INLINE_BUF_SIZE=(INLINE_BUF_PADDING+n), set by run.py for the jobs of P28 that need a small buffer',
              'source_commits': [os.popen('git -C /repo rev-parse ' + HOOK).read().strip()]},
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
        'technique': 'bounded symbolic execution of the real C code with CBMC (SAT), unwinding assertions, counterexamples replayed natively under AddressSanitizer',
        'level': 'other',
        'level_note': p['note'],
    } for p in claimed],
    'not_applicable': [{'property': p['id'], 'reason': 'check not finished yet'} for p in meta.PROPS if p['id'] not in checks.CHECKS],
    'notes': 'All checks share run.py; see DESIGN.md.',
}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
