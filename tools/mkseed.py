"""Plant a bug: edit /repo, confirm it (stable tests pass, demo fails only with it), save it
under /verif/seeded/<id>/, restore /repo.  Used by hand: python3-vt -m tools.mkseed FILE
FILE is python setting: id, prop, needs, breaks, edits=[(path,old,new)], demo (dictu text)
[, args, demo_sh].  The expected output is what the unchanged tree prints."""
import json, os, re, subprocess, sys, glob

R = '/repo'
DEMO = '''#!/bin/bash
# exit 0 when the demonstration program prints what it should
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -r "$t"' EXIT
timeout 120 ./dictu %s"$d/demo.du" >"$t/out" 2>"$t/err"; rc=$?
{ grep -av '^Total bytes lost: [0-9-]*$' "$t/out"; echo "exit $rc"; } >"$t/got"
cmp "$t/got" "$d/expected.txt" || { diff "$t/got" "$d/expected.txt" | head -5; exit 1; }
exit 0
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)

def main(f):
    g = {}
    exec(open(f).read(), g)
    d = '/verif/seeded/' + g['id']
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    os.makedirs(d, exist_ok=True)
    ok = False
    try:
        sh('bash /opt/vp/build.sh')
        if 'demo_sh' in g:
            open(d + '/demo.sh', 'w').write(g['demo_sh'])
        else:
            open(d + '/demo.sh', 'w').write(DEMO % g.get('args', ''))
        for n, t in g.get('files', {}).items():
            open(d + '/' + n, 'w').write(t)
        if 'demo' in g:
            open(d + '/demo.du', 'w').write(g['demo'])
        if 'demo_sh' not in g:
            p = sh('timeout 120 ./dictu %s%s/demo.du' % (g.get('args', ''), d), cwd=R)
            out = re.sub(r'(?m)^Total bytes lost: [0-9-]*\n', '', p.stdout)
            open(d + '/expected.txt', 'w').write(out + 'exit %d\n' % p.returncode)
            print('--- unchanged output:'); print(out[-1500:], p.stderr[-500:], p.returncode)
            if g.get('expect') is not None:
                assert out.strip() == g['expect'].strip(), 'unexpected output on unchanged tree'
        p = sh('bash %s/demo.sh' % d, cwd=R); assert p.returncode == 0, ('demo clean', p.stdout, p.stderr)
        base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
        for path, old, new in g['edits']:
            s = open(R + '/' + path).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(R + '/' + path, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        # every removed line must come from the base commit
        for path in sorted({e[0] for e in g['edits']}):
            hunks = sh('git -C /repo diff -U0 ' + path).stdout
            for m in re.finditer(r'(?m)^@@ -(\d+)(?:,(\d+))? ', hunks):
                a, n = int(m[1]), int(m[2] or 1)
                if n == 0:
                    print('NOTE: pure insertion after', path, a)
                    a, n = max(1, a), 1
                bl = sh('git -C /repo blame -s -L %d,+%d HEAD -- %s' % (a, n, path)).stdout
                for l in bl.splitlines():
                    if not l.startswith('^'):
                        print('WARNING not an original line:', l)
        p = sh('bash /opt/vp/build.sh')
        assert p.returncode == 0, p.stdout[-2000:]
        p = sh('bash %s/demo.sh' % d, cwd=R)
        print('--- demo with the change:', p.returncode, p.stdout[-800:], p.stderr[-300:])
        assert p.returncode != 0, 'demo does not see it'
        p = sh('bash /opt/vp/test.sh /tmp/seed.json'); r = json.load(open('/tmp/seed.json'))
        b = json.load(open('/opt/vp/BASELINE.json'))
        stable = b if isinstance(b, list) else (b.get('stable') or b.get('passed') or b.get('tests'))
        bad = sorted(set(stable) - set(r['passed']))
        assert not bad, ('stable tests fail', bad[:5])
        json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        ok = True
        print('KEPT', g['id'])
        chk = sys.argv[2:] or []
        for c in chk:
            p = sh('./run.sh %s quick' % c, cwd='/verif')
            print('CHECK', c, p.returncode, p.stdout[-600:])
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
        if not ok:
            sh('rm -r ' + d)

main(sys.argv[1])
