#!/usr/bin/env python3
"""Turns the definitions of tools/bugs.py into /verif/seeded/<id>/ after confirming
each one in a scratch copy of /repo: it builds, the stable tests pass, the
demonstration succeeds without it and fails with it.

usage: plant.py [id ...]      (default: every bug without a folder yet)
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
SEEDED = os.path.join(HERE, '..', 'seeded')
S = os.environ.get('SCRATCH', '/tmp/scratch')
STABLE = {k.split('::', 1)[1] for k in json.load(open('/opt/vp/BASELINE.json'))['stable']}
PRELUDE = open(os.path.join(HERE, 'demo_prelude.rs')).read()
DEMO = open(os.path.join(HERE, 'demo.sh')).read()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=S + '/target', CARGO_TERM_COLOR='never', DEMO_TARGET=S + '/demo-target')


def sh(cmd, cwd=S, timeout=600, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout + p.stderr


def edit(path, old, new, count=1):
    b = open(path, newline='').read()
    crlf = '\r\n' in b
    t = b.replace('\r\n', '\n')
    if t.count(old) != count:
        raise ValueError(f'{path}: {t.count(old)} occurrences of {old!r}')
    t = t.replace(old, new)
    open(path, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)


def fresh():
    if os.path.exists(S):
        shutil.rmtree(S)
    shutil.copytree('/repo', S, symlinks=True)


def main():
    want = sys.argv[1:]
    todo = [b for b in BUGS if (b['id'] in want if want else not os.path.exists(os.path.join(SEEDED, b['id'])))]
    fresh()
    ok = []
    for b in todo:
        sh('git checkout -q -- .')
        d = tempfile.mkdtemp(prefix='plant-')
        open(d + '/main.rs', 'w').write(PRELUDE + '\nfn main() {\n' + b['demo'].strip('\n') + '\n}\n')
        open(d + '/demo.sh', 'w').write(DEMO)
        rc, out = sh(f'bash {d}/demo.sh')
        if rc != 0:
            print('FAIL', b['id'], 'demo fails on the unchanged tree\n', out[-3000:]); continue
        try:
            for e in b['edits']:
                edit(os.path.join(S, e[0]), e[1], e[2], *e[3:])
        except ValueError as e:
            print('FAIL', b['id'], e); continue
        rc, out = sh('cargo build --offline 2>&1')
        if rc != 0:
            print('FAIL', b['id'], 'does not build\n', '\n'.join(l for l in out.split('\n') if True)[-3500:]); continue
        rc, out = sh('cargo test --workspace --offline 2>&1')
        passed = set(re.findall(r'^test (\S+) \.\.\. ok', out, re.M))
        missing = STABLE - passed
        if missing:
            print('FAIL', b['id'], 'tests fail:', missing); continue
        rc, out = sh(f'bash {d}/demo.sh')
        if rc == 0:
            print('FAIL', b['id'], 'demo passes with the change'); continue
        if 'error: could not compile' in out or 'error[E' in out:
            print('FAIL', b['id'], 'demo does not compile', out[-2000:]); continue
        # only lines of the original repository may go
        diff = subprocess.run('git diff', cwd=S, shell=True, capture_output=True).stdout
        t = os.path.join(SEEDED, b['id'])
        if os.path.exists(t):
            shutil.rmtree(t)
        os.makedirs(t)
        open(t + '/patch.diff', 'wb').write(diff)
        shutil.copy(d + '/main.rs', t + '/main.rs'); shutil.copy(d + '/demo.sh', t + '/demo.sh')
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(t + '/meta.json', 'w'), indent=1)
        ok.append(b['id']); print('ok', b['id'], flush=True)
    sh('git checkout -q -- .')
    print(len(ok), 'planted')


main()
