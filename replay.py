#!/usr/bin/env python3
"""Re-run one recorded counterexample on a native build of the current tree: replay.py FILE.json"""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
r = json.load(open(sys.argv[1]))
h = check.Harness(os.path.join(check.VERIF, r['harness']))
os.makedirs(os.path.join(check.CACHE, 'obj'), exist_ok=True)
work = tempfile.mkdtemp(prefix='replay-')
try:
    srcs = [os.path.join(check.REPO, s) for s in h.src if os.path.exists(os.path.join(check.REPO, s))]
    n = check.Native(h, srcs, check.include_dirs(), work)
    rc, so, se, mf = n.run('asan' if r['kind'] != 'assert' else 'plain', r['entry'], r['inputs'], {'tier': 0})
    print(so + se)
    print('exit', rc)
finally:
    shutil.rmtree(work, ignore_errors=True)
