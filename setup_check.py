#!/usr/bin/env python3
"""setup_cmd: every check builds its harness from /repo when it runs, so setup only confirms the toolchain and parses the driver."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
json.load(open(os.path.join(HERE, 'known_findings.json')))
for c in checks.CHECKS.values():
    for u in c['units']:
        assert os.path.exists(os.path.join(HERE, 'harness', u['src'])), u
subprocess.check_call(['g++', '--version'], stdout=subprocess.DEVNULL)
print('ready: %d checks' % len(checks.CHECKS))
