#!/usr/bin/env python3
"""mkseed.py SPEC.py [--notests]: build and confirm a planted change in a scratch copy of /repo.
SPEC.py defines: id, prop, pkg, edits=[(file, old, new)], demo (Go test source), needs, breaks."""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
notests = '--notests' in sys.argv
out = '/verif/seeded/' + spec['id']
work = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
repo = work + '/repo'
DEMO = '''#!/bin/bash
# Run with cwd = repository root: exit 0 when the behaviour is right, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
pkg=%s
{
  echo '{"Replace":{'
  for f in "$PWD/$pkg"/*_test.go; do [ -e "$f" ] && echo "\\"$f\\": \\"\\","; done
  echo "\\"$PWD/$pkg/zz_demo_test.go\\": \\"$here/demo_test.go.txt\\""
  echo '}}'
} >"$tmp/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestDemo$' "./$pkg"
'''
DEMO_PG = '''#!/bin/bash
# Run with cwd = repository root: exit 0 when the behaviour is right, nonzero otherwise.
# Uses a throwaway PostgreSQL, reachable only through a socket in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
PGBIN=$(ls -d /usr/lib/postgresql/*/bin | tail -1)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
chmod 755 "$tmp"
mkdir "$tmp/pg" && chown postgres: "$tmp/pg"
aspg() { (cd / && exec setpriv --reuid=postgres --regid=postgres --init-groups "$@"); }
trap 'aspg "$PGBIN/pg_ctl" -D "$tmp/pg/data" -m immediate -w stop >/dev/null 2>&1; rm -rf "$tmp"' EXIT
aspg "$PGBIN/initdb" -D "$tmp/pg/data" -U postgres -A trust -E UTF8 --locale=C.UTF-8 --no-sync >"$tmp/initdb.log" 2>&1 || cat "$tmp/initdb.log" >&2
aspg "$PGBIN/pg_ctl" -D "$tmp/pg/data" -l "$tmp/pg/server.log" -w -t 60 \\
    -o "-k $tmp/pg -c listen_addresses= -c fsync=off -c synchronous_commit=off -c full_page_writes=off -c max_connections=500" \\
    start >"$tmp/start.log" 2>&1 || cat "$tmp/start.log" "$tmp/pg/server.log" >&2
"$PGBIN/createdb" -h "$tmp/pg" -U postgres syncv3
export POSTGRES_HOST="$tmp/pg" POSTGRES_USER=postgres POSTGRES_DB=syncv3 SYNCV3_SECRET=itsasecret PGHOST="$tmp/pg" PGUSER=postgres
pkg=%s
echo "{\\"Replace\\":{\\"$PWD/$pkg/zz_demo_test.go\\": \\"$here/demo_test.go.txt\\"}}" >"$tmp/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestDemo$' "./$pkg" 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
'''
def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
try:
    subprocess.check_call(['cp', '-a', '/repo', repo])
    run(['git', 'checkout', '-q', '--', '.'], cwd=repo)
    os.makedirs(work + '/d')
    open(work + '/d/demo.sh', 'w').write(spec.get('demo_sh') or (DEMO_PG if spec.get('pg') else DEMO) % spec['pkg'])
    open(work + '/d/demo_test.go.txt', 'w').write(spec['demo'])
    r = run(['bash', work + '/d/demo.sh'], cwd=repo)
    if r.returncode != 0:
        print('DEMO FAILS ON CLEAN\n', r.stdout[-3000:]); sys.exit(1)
    for f, old, new in spec['edits']:
        s = open(repo + '/' + f).read()
        if s.count(old) < 1: print('NOT FOUND', f, old); sys.exit(1)
        open(repo + '/' + f, 'w').write(s.replace(old, new, 1))
    r = run(['git', 'diff'], cwd=repo)
    patch = r.stdout
    r = run(['bash', '-c', '. /opt/vp/env.sh; go build ./...'], cwd=repo)
    if r.returncode: print('BUILD', r.stdout); sys.exit(1)
    r = run(['bash', work + '/d/demo.sh'], cwd=repo)
    if r.returncode == 0: print('DEMO PASSES ON PATCHED'); sys.exit(1)
    print('demo ok:', [l for l in r.stdout.splitlines() if 'zz_demo' in l or 'panic' in l][:2])
    if not notests:
        t = open('/opt/vp/test.sh').read().replace('cd /repo ', 'cd %s ' % repo)
        open(work + '/test.sh', 'w').write(t)
        run(['bash', work + '/test.sh', work + '/t.json'])
        b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open(work + '/t.json'))
        key = 'stable' if 'stable' in b else 'passed'
        base = set(b.get('stable') or b.get('passed') or b.get('stable_pass'))
        missing = base - set(t['passed'])
        if missing: print('TESTS FAIL:', sorted(missing)[:6]); sys.exit(1)
        print('tests pass', len(base))
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + '/patch.diff', 'w').write(patch)
    for f in ('demo.sh', 'demo_test.go.txt'): shutil.copy(work + '/d/' + f, out)
    json.dump(dict(property=spec['prop'], needs=spec['needs'], what_it_breaks=spec['breaks']), open(out + '/meta.json', 'w'), indent=1)
    print('SEEDED', spec['id'])
finally:
    shutil.rmtree(work, ignore_errors=True)
