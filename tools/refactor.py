#!/usr/bin/env python3
"""Behaviour-preserving edits of pkeir/cest, on which every check must stay quiet.

usage: refactor.py [NAME-SUBSTRING...]   (CHECKS=C01,C22 restricts the checks,
                                          EDITS=file takes another list of edits)

The edits (refactorings.py) are packed into as few batches as possible, edits
of one batch not getting in each other's way; each batch is applied to a copy
of /repo's headers under /tmp and all checks are run on it (CEST_REPO).  With
EACH=1 every edit is a batch of its own, checked by the checks of its file."""
import os, shutil, subprocess, sys, concurrent.futures as cf
I = 'include/cest/'
R = []
def edit(name, file, *pairs, checks=None):
    R.append((name, file, pairs, checks))
here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, 'refactorings.py')).read())
if 'EDITS' in os.environ:
    R.clear()
    exec(open(os.environ['EDITS']).read())
R = [j for j in R if len(sys.argv) == 1 or any(a in j[0] for a in sys.argv[1:])]
only = os.environ.get('CHECKS')

batches = []    # [names, {file: text}, checks]
for name, file, pairs, checks in R:
    for b in batches + [None]:
        if b is None:
            batches.append(b := [[], {}, set()])
        elif os.environ.get('EACH'):
            continue
        s0 = s = b[1].get(file) or open('/repo/' + I + file).read()
        if all(old in open('/repo/' + I + file).read() for old, _ in pairs) and not all(old in s for old, _ in pairs):
            continue
        for old, new in pairs:
            assert old in s, (name, old)
            s = s.replace(old, new)
        b[0].append(name)
        b[1][file] = s
        b[2] |= set(checks or BY_FILE[file])
        break

def run(b):
    names, files, checks = b
    d = '/tmp/refac-' + names[0]
    shutil.rmtree(d, ignore_errors=True)
    v = d + '/verif'
    os.makedirs(v + '/evidence')
    subprocess.check_call(['cp', '-a', '/repo/include', d + '/'])
    for x in ('check.py', 'lib', 'spec', 'harness', 'known_findings.txt', 'MANIFEST.json', 'properties.jsonl'):
        subprocess.check_call(['cp', '-a', '/verif/' + x, v + '/'])
    for f, s in files.items():
        open(d + '/' + I + f, 'w').write(s)
    out = []
    for c in only.split(',') if only else sorted(checks):
        r = subprocess.run([sys.executable, 'check.py', c], cwd=v, capture_output=True, text=True,
                           env=dict(os.environ, CEST_REPO=d))
        if r.returncode:
            out.append('%s exit %d: %s' % (c, r.returncode, (r.stdout + r.stderr)[-900:]))
    shutil.rmtree(d, ignore_errors=True)
    return names, out

with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
    for f in cf.as_completed([ex.submit(run, b) for b in batches]):
        names, out = f.result()
        print(('ALARM ' if out else 'quiet ') + ' '.join(names), flush=True)
        for o in out:
            print('   ' + o.replace('\n', '\n      '), flush=True)
