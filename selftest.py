#!/usr/bin/env python3
"""Cross-check of the verifier itself: the project's own test suite is run on
the instrumented source with an engine active, so that the container models,
the hooks and the control flow of the proof stand in for CPython's. Exit 0 when
every stable test passes that can run so: not the ones that hand a model to the C
JSON encoder, or that take too long (deep copies of the class graph of all
tests). Takes about five minutes.

  python3-vt selftest.py
"""
import json
import os
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PVC_REPO', '/repo')


def main():
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    with tempfile.TemporaryDirectory() as t:
        x = os.path.join(t, 'o.xml')
        env = dict(os.environ, TZ='UTC', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPATH=f'{HERE}/tools/selfplug:{REPO}/tests')
        subprocess.run(['python3-vt', '-m', 'pytest', '-q', '-p', 'pvcself', '-p', 'no:cacheprovider',
                        f'--junitxml={x}', 'tests'], cwd=REPO, env=env, capture_output=True, text=True)
        bad, notrun, ok = [], [], 0
        for c in ET.parse(x).getroot().iter('testcase'):
            n = c.get('classname', '') + '::' + c.get('name', '')
            f = [e for e in c if e.tag in ('failure', 'error')]
            if not f:
                ok += 1
            elif any('TooLong' in (e.text or '') or 'JSON serializable' in (e.text or '') for e in f):
                notrun.append(n)
            elif n in stable:
                bad.append(n)
    print(f'{ok} passed, {len(notrun)} could not be run, {len(bad)} stable tests failed')
    for b in bad:
        print('  ', b)
    return 1 if bad or ok < 950 else 0


if __name__ == '__main__':
    sys.exit(main())
