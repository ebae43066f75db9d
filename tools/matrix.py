#!/usr/bin/env python3
"""matrix.py [--all] [ID...]: run the checks against the planted bugs, each in a scratch copy of
/repo, and write which check catches which bug into DESIGN.md. By default only the check of the
bug's own property is run, --all runs all of them."""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid, pids):
    d = os.path.join(ROOT, 'seeded', sid)
    work = tempfile.mkdtemp(prefix='matrix_')
    try:
        copy = os.path.join(work, 'repo')
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=copy, check=True)
        out = {}
        for pid in pids:
            r = subprocess.run([sys.executable, os.path.join(ROOT, 'run.py'), pid, 'quick',
                                f'--repo={copy}'], capture_output=True, text=True,
                               env={**os.environ, 'VERIF_EVIDENCE': work})
            out[pid] = r.returncode
        return sid, out
    finally:
        shutil.rmtree(work)


def main():
    args = sys.argv[1:]
    every = '--all' in args
    ids = [a for a in args if not a.startswith('-')]
    metas = {os.path.basename(os.path.dirname(f)): json.load(open(f))
             for f in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json')))}
    pids = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    found = {}
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for sid, out in ex.map(lambda s: one(s, pids if every else [metas[s]['property']]),
                               [s for s in metas if not ids or s in ids]):
            found[sid] = out
            print(sid, {k: v for k, v in out.items() if v}, flush=True)
    if ids:
        return
    rows = ['| planted bug | property | what it needs | caught by |', '|---|---|---|---|']
    for sid, out in sorted(found.items(), key=lambda x: (metas[x[0]]['property'], x[0])):
        m = metas[sid]
        by = ', '.join(k for k, v in sorted(out.items()) if v == 1) or '**nothing**'
        rows.append(f"| {sid} | {m['property']} | {m['needs']} | {by} |")
    f = os.path.join(ROOT, 'DESIGN.md')
    s = open(f).read()
    a, b = s.index('<!-- matrix -->\n') + 16, s.index('<!-- end -->')
    open(f, 'w').write(s[:a] + '\n'.join(rows) + '\n' + s[b:])


main()
