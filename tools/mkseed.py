"""mkseed.mk(id, property, edits, demo files, needs, breaks): write /verif/seeded/<id>/ from edits to /repo's HEAD."""
import os, subprocess, json, tempfile, shutil
RUN = '''#!/bin/bash
# run in the repository after the build: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
%s -O1 -w -DHAVE_CONFIG_H -I"$repo" -I"$repo/include" "$here/%s" -o "$t/demo" %s -L"$repo/.libs" %s -Wl,-rpath,"$repo/.libs" -lpthread -lm || exit 9
cd "$t" && LD_LIBRARY_PATH="$repo/.libs" timeout %d ./demo
'''
def mk(bid, prop, edits, demo, needs, breaks, cxx=False, libs="-lamino", flags="", extra={}, timeout=120, sh=None):
    d = '/verif/seeded/' + bid
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        files = sorted({f for f, _, _ in edits})
        for f in files:
            for side in 'ab':
                os.makedirs(os.path.dirname('%s/%s/%s' % (t, side, f)), exist_ok=True)
                open('%s/%s/%s' % (t, side, f), 'w').write(subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f], text=True))
        for f, a, b in edits:
            p = '%s/b/%s' % (t, f)
            s = open(p).read()
            assert s.count(a) == 1, (bid, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, stdout=subprocess.PIPE, text=True)
        open(d + '/patch.diff', 'w').write(r.stdout)
    finally:
        shutil.rmtree(t)
    name = 'demo.cpp' if cxx else 'demo.c'
    if demo is not None:
        open(d + '/' + name, 'w').write(demo)
        open(d + '/demo.sh', 'w').write(RUN % ('g++' if cxx else 'gcc -std=gnu11', name, flags, libs, timeout))
    if sh: open(d + '/demo.sh', 'w').write(sh)
    os.chmod(d + '/demo.sh', 0o755)
    for k, v in extra.items():
        open(d + '/' + k, 'w').write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    if subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff']).returncode: print(bid, 'DOES NOT APPLY')
