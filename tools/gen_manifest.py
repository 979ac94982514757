#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE, HOOK_COMMITS
TECH = 'model checking: bounded exhaustive exploration of the real code'
m = dict(version=1, setup_cmd='python3 run.py build',
         hooks=dict(guard='FL2_MODEL_CHECK', enable='run.py compiles the library with -DFL2_MODEL_CHECK for its variants small, smallf and sched; the variants asan, fast and fastc use the unmodified constants',
                    source_commits=HOOK_COMMITS),
         checks=[dict(property=i, quick_cmd='VERIF_TIER=quick python3 run.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 run.py ' + i,
                      technique=c.get('technique', TECH), level=c['level'], level_note=c['note'], evidence_file='evidence/%s.json' % i) for i, c in sorted(CHECKS.items())],
         not_applicable=NOT_APPLICABLE)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
