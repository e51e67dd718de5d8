"""Defects of the library that are known and not repaired (see KNOWN_FINDINGS.md)."""
import json
import os
import subprocess

import runner

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [json.loads(x) for x in open(os.path.join(ROOT, 'known_findings.jsonl')) if x.strip().startswith('{')]


def fails(f):
    """does the recorded case still fail? (a small program that ends with 1 if it does)"""
    for b in ('lxml', 'std'):
        pr = subprocess.run([runner.PY, '-c', f['case']], env=runner.env_for(b), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        if pr.returncode == 1:
            return True
    return False
