#!/usr/bin/env python3
"""mkseed.py ID PROP 'needs' 'what it breaks' EDITS.json MAIN.go
Makes seeded/ID from textual edits of /repo and a demonstration program, and confirms both in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(sid, prop, needs, breaks, edits, main, tests=True):
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    kit = os.path.join(V, 'tools', 'seedkit')
    for f in os.listdir(kit):
        shutil.copy(os.path.join(kit, f), os.path.join(d, f))
    open(os.path.join(d, 'main.go.txt'), 'w').write(main)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        r = os.path.join(t, 'repo')
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        demo = os.path.join(d, 'demo.sh')
        p = subprocess.run([demo], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        base = p.returncode
        if base != 0:
            print(sid, 'demo fails on unchanged tree:', p.stdout.decode()[-1500:])
        for f, a, b in edits:
            q = os.path.join(r, f)
            s = open(q).read()
            assert s.count(a) == 1, (sid, f, a, s.count(a))
            open(q, 'w').write(s.replace(a, b))
        diff = subprocess.run(['git', '-C', r, 'diff'], stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        p = subprocess.run([demo], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        msg = p.stdout.decode()[-300:].strip()
        ok = base == 0 and p.returncode not in (0, 3)
        tt = ''
        if tests:
            env = dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off')
            pk = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; cd %s; go build $PKGS && go test -vet=off -count=1 $TEST_PKGS' % r], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            tt = 'tests %s' % ('pass' if pk.returncode == 0 else 'FAIL ' + pk.stdout.decode()[-800:])
        print(sid, 'OK' if ok else 'BAD', 'patched exit', p.returncode, msg.replace('\n', ' | ')[:200], tt)
        return ok
    finally:
        shutil.rmtree(t, ignore_errors=True)
