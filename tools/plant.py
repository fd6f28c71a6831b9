#!/usr/bin/env python3
"""Plants bugs: plant.py FILE [id...]. FILE defines bugs with bug(id, property, needs, breaks, edits, cases, demo=None).
Each is applied to /repo, built, tested and demonstrated, and undone. Kept in /verif/seeded/<id> when it qualifies."""
import json, os, re, shutil, subprocess, sys

ROOT = '/verif/seeded'
BASE = '6c22a16'
BUGS = []


def bug(id, prop, needs, breaks, edits, cases=None, demo=None):
    BUGS.append((id, prop, needs, breaks, edits, cases, demo))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def base_lines(path, lines):
    """True if at least one of the (1-based) line numbers stems from the original repository"""
    out = sh(f'git -C /repo blame -l -s HEAD -- {path}').stdout.split('\n')
    old = set(sh(f'git -C /repo rev-list {BASE}').stdout.split())
    r = []
    for n in lines:
        h = out[n - 1].split()[0]
        r.append(h.lstrip('^') in old or any(o.startswith(h.lstrip('^')) for o in old))
    return r


def plant(b, runcheck):
    id, prop, needs, breaks, edits, cases, demo = b
    d = f'{ROOT}/{id}'
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo not clean'
    tmp = f'/tmp/plant.{id}'
    os.makedirs(tmp, exist_ok=True)
    try:
        if demo:
            for name, content in demo.items():
                open(f'{tmp}/{name}', 'w').write(content)
                if name.endswith('.sh'):
                    os.chmod(f'{tmp}/{name}', 0o755)
        else:
            shutil.copy('/verif/tools/demo/demo.go', tmp)
            shutil.copy('/verif/tools/demo/demo.sh', tmp)
            os.chmod(f'{tmp}/demo.sh', 0o755)
            ks = []
            for c in cases:
                k = {'mode': c[0], 'opts': c[1].split(), 'src': c[2], 'want': ''}
                if len(c) > 3:
                    k['repeat'] = c[3]
                ks.append(k)
            json.dump(ks, open(f'{tmp}/cases.json', 'w'))
            o = sh(f'. /opt/vp/env.sh; go run {tmp}/demo.go {tmp}/cases.json -gen', cwd='/repo').stdout
            print(o[:3000])
        r = sh(f'bash {tmp}/demo.sh', cwd='/repo')
        if r.returncode != 0:
            print(id, 'DEMO FAILS ON UNCHANGED TREE', r.stdout[:2000])
            return False
        for (f, old, new) in edits:
            p = f'/repo/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'EDIT MATCHES', s.count(old), 'TIMES:', f, old[:80])
                return False
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        # which lines of HEAD are changed
        touched = {}
        f = None
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                f = l[6:]
            m = re.match(r'@@ -(\d+)', l)
            if m:
                n = int(m.group(1))
                continue
            if f and l.startswith('-') and not l.startswith('---'):
                touched.setdefault(f, []).append(n)
                n += 1
            elif f and l.startswith(' '):
                n += 1
        bl = [x for f, ls in touched.items() for x in base_lines(f, ls)]
        if not bl or not all(bl):
            print(id, 'NOTE: original lines changed:', bl)
            if not any(bl):
                return False
        r = sh('bash /opt/vp/build.sh', cwd='/repo')
        if r.returncode != 0:
            print(id, 'DOES NOT BUILD', r.stdout[-1500:])
            return False
        sh(f'bash /opt/vp/test.sh {tmp}/t.json', cwd='/repo')
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(json.load(open(f'{tmp}/t.json'))['passed'])
        os.remove(f'{tmp}/t.json')
        missing = [t for t in base if t not in passed]
        if missing:
            print(id, 'BREAKS TESTS', missing[:5])
            return False
        r = sh(f'bash {tmp}/demo.sh', cwd='/repo')
        if r.returncode == 0:
            print(id, 'DEMO PASSES WITH PATCH')
            return False
        print(id, 'demo:', r.stdout[:700])
        if os.path.isdir(d):
            shutil.rmtree(d)
        shutil.copytree(tmp, d)
        open(f'{d}/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
        if runcheck:
            r = sh(f'./run.sh {prop}', cwd='/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            print(id, 'CHECK', prop, 'exit', r.returncode, v[:1], 'CAUGHT' if r.returncode == 1 and v else 'MISSED')
            if not v:
                print(r.stdout[-600:])
        return True
    finally:
        sh('git -C /repo checkout -- .')
        shutil.rmtree(tmp)


if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    want = [a for a in sys.argv[2:] if not a.startswith('-')]
    for b in BUGS:
        if not want or b[0] in want:
            print('=====', b[0])
            plant(b, '-n' not in sys.argv)
