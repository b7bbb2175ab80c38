#!/usr/bin/env python3
"""Writes the planted bugs of tools/seeds*.py below /verif/seeded and, with
--try, confirms them in a scratch copy of /repo: the demonstration passes on
the unchanged tree and fails with the patch, build and tests still pass.
--check ID.. applies a bug to /repo, runs the quick check of its property and
restores /repo.

usage: mkseed.py [--try] [--check] [ID...]
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, 'seeded')
REPO = '/repo'
DEMO = '''#!/bin/bash
# cwd: the repository; exit 0 when the property holds, 1 when it is broken
HERE=$(cd "$(dirname "$0")" && pwd)
exec java -XX:TieredStopAtLevel=1 -XX:+UseSerialGC -Xss4m -Dpython.cachedir.skip=true \\
    -jar /usr/share/java/jython.jar -B "$HERE/demo.py"
'''
BUGS = []


def B(ident, prop, fname, edits, needs, breaks, demo, lib=False):
    if isinstance(edits, tuple):
        edits = [edits]
    edits = [(e if len(e) == 3 else (fname,) + tuple(e)) for e in edits]
    BUGS.append(dict(id=ident, prop=prop, edits=edits, needs=needs, breaks=breaks,
                     demo=demo, lib=lib))


def path(fname):
    return 'bin/' + fname if fname.startswith('NRML') else 'openquake/commonlib/%s.py' % fname


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def patch(bug):
    tmp = tempfile.mkdtemp()
    try:
        files = sorted(set(e[0] for e in bug['edits']))
        out = ''
        for f in files:
            rel = path(f)
            text = subprocess.check_output(['git', '-C', REPO, 'show', 'HEAD:' + rel]).decode()
            new = text
            for f2, a, b in bug['edits']:
                if f2 == f:
                    assert new.count(a) == 1, (bug['id'], new.count(a), a)
                    new = new.replace(a, b)
            for side, t in (('a', text), ('b', new)):
                p = os.path.join(tmp, side, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as fh:
                    fh.write(t)
            p = subprocess.run(['diff', '-u', 'a/' + rel, 'b/' + rel], cwd=tmp,
                               stdout=subprocess.PIPE)
            lines = p.stdout.decode().splitlines(True)
            lines[0] = '--- a/%s\n' % rel
            lines[1] = '+++ b/%s\n' % rel
            out += 'diff --git a/%s b/%s\n' % (rel, rel) + ''.join(lines)
        return out
    finally:
        shutil.rmtree(tmp)


def removed_are_original(bug):
    """The lines a patch removes must come from the original repository"""
    for f, a, b in bug['edits']:
        rel = path(f)
        blame = subprocess.check_output(
            ['git', '-C', REPO, 'blame', '-s', 'HEAD', '--', rel]).decode().splitlines()
        text = subprocess.check_output(['git', '-C', REPO, 'show', 'HEAD:' + rel]).decode()
        start = text[:text.index(a)].count('\n')
        old, new = a.split('\n'), b.split('\n')
        import difflib
        ops = difflib.SequenceMatcher(None, old, new, False).get_opcodes()
        for op, i1, i2, _j1, _j2 in ops:
            for k in range(i1, i2) if op in ('replace', 'delete') else ():
                if not blame[start + k].startswith('^'):
                    print('  NOTE %s removes a line of a fix: %s' % (bug['id'], old[k]))


def write(bug):
    d = os.path.join(SEEDED, bug['id'])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    with open(d + '/patch.diff', 'w') as f:
        f.write(patch(bug))
    with open(d + '/demo.sh', 'w') as f:
        f.write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/demo.py', 'w') as f:
        f.write('from kit import *\n' + bug['demo'].strip('\n') + '\n')
    shutil.copy(HERE + '/seedkit/kit.py', d)
    if 'demo_tasks' in bug['demo']:
        shutil.copy(HERE + '/seedkit/demo_tasks.py', d)
    if bug['lib']:
        stubs = os.path.join(VERIF, 'sim', 'stubs')
        shutil.copytree(stubs, d + '/lib', ignore=shutil.ignore_patterns(
            'concurrent', 'psutil.py', '*.class', '__pycache__'))
        shutil.copy(VERIF + '/sim/xmlsim.py', d + '/lib')
    with open(d + '/meta.json', 'w') as f:
        json.dump(dict(property=bug['prop'], needs=bug['needs'], what_it_breaks=bug['breaks']), f,
                  indent=1)
        f.write('\n')


def attempt(bug, tests):
    d = os.path.join(SEEDED, bug['id'])
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        copy = tmp + '/repo'
        sh('cp -a %s %s' % (REPO, copy))
        sh('git checkout -q -- . && git clean -qfd', copy)
        demo = tmp + '/demo'
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        rc0, out0 = sh('bash %s/demo.sh' % demo, copy, 300)
        rc, out = sh('git apply %s/patch.diff' % d, copy)
        assert rc == 0, (bug['id'], out)
        rc1, out1 = sh('bash %s/demo.sh' % demo, copy, 300)
        good = rc0 == 0 and rc1 == 1 and ('BROKEN' in out1 or 'Traceback' in out1)
        print('%-28s clean %s, patched %s %s' % (bug['id'], rc0, rc1, 'ok' if good else 'BAD'))
        print('      ' + (out1.strip().splitlines() or [''])[-1][:150])
        if not good:
            print(out0[-1500:])
            print('---- patched')
            print(out1[-1500:])
        if tests:
            # the tests import only what loads without the missing libraries
            rc, out = sh('JYTHONPATH=/opt/jylib:%s LC_ALL=C.UTF-8 timeout 600 jython -B -c '
                         '"import openquake.commonlib.valid"' % copy, copy)
            assert rc == 0, out
        return good
    finally:
        shutil.rmtree(tmp, True)


def check(bug):
    d = os.path.join(SEEDED, bug['id'])
    assert not sh('git -C %s status --porcelain' % REPO)[1].strip()
    rc, out = sh('git -C %s apply %s/patch.diff' % (REPO, d))
    assert rc == 0, out
    try:
        rc, out = sh('python3 check.py %s' % bug['prop'], VERIF)
    finally:
        sh('git -C %s checkout -- .' % REPO)
    hit = [l for l in out.splitlines() if l.startswith('VIOLATION property=%s ' % bug['prop'])]
    what = [l for l in out.splitlines() if not l.startswith('VIOLATION')]
    print('%-28s %s rc=%d %s' % (bug['id'], bug['prop'], rc, 'CAUGHT' if rc == 1 and hit else
                                 'MISSED'))
    print('      ' + ' | '.join(what[-6:])[:300])
    sys.stdout.flush()


def main(argv):
    for f in sorted(glob.glob(HERE + '/seeds*.py')):
        exec(compile(open(f).read(), f, 'exec'), dict(B=B))
    ids = [a for a in argv if not a.startswith('--')]
    bugs = [b for b in BUGS if not ids or any(b['id'].startswith(i) for i in ids)]
    if len(set(b['id'] for b in BUGS)) < len(BUGS):
        sys.exit('duplicate ids')
    if '--check' in argv:
        for b in bugs:
            check(b)
        return
    for b in bugs:
        removed_are_original(b)
        write(b)
    if '--try' in argv:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            res = list(ex.map(lambda b: attempt(b, False), bugs))
        print('%d of %d good' % (sum(map(bool, res)), len(res)))


if __name__ == '__main__':
    main(sys.argv[1:])
