#!/usr/bin/env python3
"""mkseed.py: helper that writes seeded/<id>/ from a textual replacement and a C demo."""
import os, subprocess, json, shutil, tempfile, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0 if the behaviour is right. Builds the demonstration against ./src in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -std=gnu11 -O1 -g -w %s -fsanitize=address,undefined -fno-sanitize-recover=all -Isrc "$here/demo.c" src/mpack/*.c -lm -o "$t/demo" || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=%d timeout 120 ./demo
'''
def seed(id, prop, needs, breaks, edits, demo, defs='-DMPACK_EXTENSIONS=1 -DMPACK_COMPATIBILITY=1', leaks=0):
    w = tempfile.mkdtemp(prefix='mkseed'); subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x' % (w, w), shell=True)
        for f, a, b in edits:
            p = os.path.join(w, 'src/mpack', f); s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        d = subprocess.check_output(['git', 'diff'], cwd=w).decode()
    finally: shutil.rmtree(w)
    o = os.path.join(V, 'seeded', id); os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    open(o + '/demo.sh', 'w').write(DEMO_SH % (defs, leaks)); open(o + '/demo.c', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
