#!/usr/bin/env python3
"""mkseed.py SPEC.py : build, verify and store a planted bug.

SPEC.py defines id, prop, needs, breaks, edits=[(file, old, new)], demo (python text)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHELL = '''#!/bin/bash
# run with cwd = the repository: exit 0 when the behaviour is right
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, timeout=timeout,
                          shell=isinstance(cmd, str), capture_output=True, text=True)


def tests(copy):
    out = os.path.join(copy, '..', 'junit.xml')
    sh(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--timeout=300',
        '--tb=no', '--disable-warnings', '-o', 'junit_family=xunit2', f'--junitxml={out}'], cwd=copy,
       env={'PYTHONPATH': os.path.join(copy, 'src'), 'PYTHONDONTWRITEBYTECODE': '1', 'HOME': '/root',
            'PYTHONHASHSEED': '0', 'SIOTLS_INTEGRATION': '1'})
    bad, n = [], 0
    for tc in ET.parse(out).iter('testcase'):
        n += 1
        if any(c.tag in ('failure', 'error', 'skipped') for c in tc):
            bad.append(f"{tc.get('classname')}.{tc.get('name')}")
    return n, bad


def main():
    spec = runpy.run_path(sys.argv[1])
    sid = spec['id']
    work = f'/tmp/seed_{sid}'
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    copy = os.path.join(work, 'repo')
    try:
        sh(['cp', '-a', '/repo', copy])
        for f, old, new in spec['edits']:
            p = os.path.join(copy, 'src/siotls', f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], cwd=copy).stdout
        # lines taken out must be lines of the original repository
        base = sh("git rev-list --max-parents=0 HEAD", cwd=copy).stdout.strip()
        own = 0
        cur = None
        for ln in sh(['git', 'diff', '-U0'], cwd=copy).stdout.splitlines():
            if ln.startswith('--- a/'):
                cur = ln[6:]
            elif ln.startswith('@@'):
                a, _, n = ln.split()[1][1:].partition(',')
                n = int(n or 1)
                if n:
                    bl = sh(['git', 'blame', '-l', '-s', '-L', f'{a},+{n}', 'HEAD', '--', cur],
                            cwd=copy).stdout
                    own += sum(1 for x in bl.splitlines() if not x.lstrip('^').startswith(base[:39]))
        dst = os.path.join(ROOT, 'seeded', sid)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        open(os.path.join(dst, 'demo.sh'), 'w').write(SHELL)
        os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
        open(os.path.join(dst, 'demo.py'), 'w').write(spec['demo'].lstrip())
        shutil.copy(os.path.join(ROOT, 'tools/demo/lib.py'), dst)
        json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        good = sh(['bash', os.path.join(dst, 'demo.sh')], cwd='/repo', timeout=300)
        bad = sh(['bash', os.path.join(dst, 'demo.sh')], cwd=copy, timeout=300)
        print(sid, 'demo good', good.returncode, 'bad', bad.returncode,
              (bad.stderr.strip().splitlines() or [''])[-1][:150], '| own lines changed:', own)
        if good.returncode:
            print(good.stderr[-800:])
        if '--notest' not in sys.argv:
            n, failed = tests(copy)
            st = json.load(open('/opt/vp/BASELINE.json'))['stable']
            print('   tests', n, 'failed', [x for x in failed if any(x.split('.')[-1] in y for y in st)][:5])
        pids = [spec['prop'], *spec.get('also', [])] if '--all' not in sys.argv else [
            f[:3].upper() for f in sorted(os.listdir(os.path.join(ROOT, 'checks'))) if f[0] == 'p']
        for pid in pids:
            r = sh([sys.executable, os.path.join(ROOT, 'run.py'), pid, 'quick', f'--repo={copy}'])
            ls = r.stdout.strip().splitlines()
            print('   ', pid, 'exit', r.returncode, (ls[0][:230] if ls else r.stderr[-300:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
