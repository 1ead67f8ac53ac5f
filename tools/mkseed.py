#!/usr/bin/env python3
"""Helper used by hand to plant and confirm a bug (not used by any check).

seed(id, property, [(file, old, new), ...], needs, breaks, demo_cc, mods)
makes the patch in a scratch worktree, confirms the demonstration, the build and the tests,
runs the property's quick check against it (GC_REPO) and prints the outcome; vcheck --bug
confirms the build and the tests."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
LUA = 'src_lua_interface/lua-5.4.6/src'


def sh(cmd, cwd=None, timeout=1800):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def demo_sh(mods):
    src = 'src/*.cc' + ''.join(' src_%s_interface/*.cc' % m for m in mods if m != 'core')
    pre, post = '', ''
    if 'lua' in mods:
        pre = 'L=%s\nmkdir "$t/l"\nfor f in $L/*.c; do case "$f" in */lua.c|*/luac.c) ;; *) cp "$f" "$t/l/";; esac; done\n( cd "$t/l" && gcc -O1 -w -DLUA_USE_LINUX -I"$OLDPWD/$L" -c *.c ) || exit 2\n' % LUA
        post = ' "$t"/l/*.o -ldl -lm'
    return ('#!/bin/bash\n# run with cwd = the repository; exit 0 iff the behaviour is right\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\n'
            'trap \'rm -rf "$t"\' EXIT\n' + pre +
            'g++ -std=c++17 -O0 -w -Iinclude -Isrc_json_interface -Isrc_yaml_interface -I%s %s "$d/demo.cc" -o "$t/demo"%s || exit 2\n'
            'cd "$t" && timeout 60 ./demo\n' % (LUA, src, post))


HEAD = '''#include "GenericContainer/GenericContainer.hh"
#include <iostream>
#include <sstream>
#include <limits>
#include <cmath>
using namespace GC_namespace;
using namespace std;
#define CHECK(C) do { if ( !(C) ) { cerr << "FAILED: " #C << endl; return 1; } } while (0)
'''


def check(prop, tier='quick', repo=None):
    r = sh(('GC_REPO=%s ' % repo if repo else '') + 'python3 check.py %s %s' % (prop, tier), V)
    t = r.stdout.decode('utf8', 'replace')
    hit = r.returncode == 1 and ('VIOLATION property=%s ' % prop) in t
    return hit, r.returncode, t


def worktree():
    wt = '/tmp/seedwt'
    sh('git -C %s worktree remove --force %s' % (REPO, wt)); shutil.rmtree(wt, ignore_errors=True); sh('git -C %s worktree prune' % REPO)
    r = sh('git clone -q %s %s' % (REPO, wt)); assert r.returncode == 0, r.stdout
    for l in ('src_lua_interface/lua-5.4.6',):   # ignored files a clone lacks
        if not os.path.exists(wt + '/' + l) and os.path.exists(REPO + '/' + l):
            os.symlink(REPO + '/' + l, wt + '/' + l)
    return wt


def rerun(id, props):
    d = "%s/seeded/%s" % (V, id)
    wt = worktree()
    r = sh("git -C %s apply %s/patch.diff" % (wt, d)); assert r.returncode == 0, r.stdout
    for p in props:
        hit, rc, t = check(p, repo=wt)
        print(id, p, "CAUGHT" if hit else "MISSED", rc, flush=True)
        if rc == 2: print(t[-1500:])


def seed(id, prop, edits, needs, breaks, demo, mods=('core',), also=(), keep=True):
    wt = worktree()
    for f, old, new in edits:
        s = open(wt + '/' + f, encoding='utf8').read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(wt + '/' + f, 'w', encoding='utf8').write(s.replace(old, new))
    diff = sh('git diff', wt).stdout
    import re
    f, new = None, False
    for l in sh('git diff -U0', wt).stdout.decode().split('\n'):   # only lines of the original repository may change
        if l.startswith('--- a/'): f = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m and m.group(2) != '0':
            n = int(m.group(2) or 1)
            bl = sh('git blame -s -L %d,+%d HEAD -- %s' % (int(m.group(1)), n, f), wt).stdout.decode()
            if any(not x.startswith('^') for x in bl.strip().split('\n')): print('NOT ORIGINAL', bl); new = True
    d = '%s/seeded/%s' % (V, id)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.cc', 'w').write(HEAD + demo)
    open(d + '/demo.sh', 'w').write(demo_sh(mods)); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, REPO); b = sh('bash %s/demo.sh' % d, wt)
    out = ['demo ok=%d bad=%d' % (a.returncode, b.returncode)]
    if a.returncode or not b.returncode or b.returncode == 2:
        print(a.stdout.decode()[-1500:], b.stdout.decode()[-1500:])
    for p in (prop,) + tuple(also):
        hit, rc, t = check(p, repo=wt)
        out.append('%s:%s(rc %d)' % (p, 'CAUGHT' if hit else 'MISSED', rc))
        if rc == 2: print(t[-1500:])
    good = not new and a.returncode == 0 and b.returncode not in (0, 2)
    print(id, prop, 'VALID' if good else 'INVALID', '; '.join(out), flush=True)
    if not good and not keep:
        shutil.rmtree(d)
