#!/usr/bin/env python3
"""tools/mkbug.py: library used to write seeded/<id> from an edit of /repo's files.
bug(id, prop, [(file, old, new)], needs, breaks, demo, files)"""
import json, os, subprocess, tempfile, shutil
V = "/verif/seeded"
HEAD_SH = '''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 99
trap 'rm -rf "$work"' EXIT
'''


def bug(id, prop, edits, needs, breaks, demo, files=None):
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkbug", dir="/tmp")
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % w, shell=True)
    subprocess.check_call("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % w, shell=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"])
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    shutil.rmtree(w)
    open(os.path.join(d, "demo.sh"), "w").write(HEAD_SH + demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for name, text in (files or {}).items():
        open(os.path.join(d, name), "w").write(text)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
