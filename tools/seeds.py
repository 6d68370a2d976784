#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the definitions below.   seeds.py [ID...]
Each seed: property, edits [(file, old, new)], needs, breaks, deps of the demo, body of the demo's main()."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# exit 0 if the property holds for the input in main.rs; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[workspace]
T
cd "$tmp" || exit 99
export CARGO_TARGET_DIR="$tmp/target"
cargo build --offline -q 2> "$tmp/log" || { cat "$tmp/log"; exit 98; }
mkdir "$tmp/scratch" && cd "$tmp/scratch" || exit 97
timeout 120 "$tmp/target/debug/demo"
'''
PYDEMO = '''#!/bin/bash
# exit 0 if the property holds for the input in main.py; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
for py in /opt/vp/venv/bin/python /opt/veriftools/pyvenv/bin/python python3; do
    "$py" -c "import numpy" 2> /dev/null && break
done
export PYO3_PYTHON=$py PYTHONDONTWRITEBYTECODE=1 CARGO_TARGET_DIR="$tmp/target"
cargo build --offline -q -p d10-python 2> "$tmp/log" || { cat "$tmp/log"; exit 98; }
mkdir "$tmp/scratch" && cp "$tmp/target/debug/libd10.so" "$tmp/scratch/d10.so" && cd "$tmp/scratch" || exit 97
PYTHONPATH="$tmp/scratch" timeout 120 "$py" "$here/main.py"
'''
SEEDS = {}


def seed(id, prop, edits, needs, breaks, body, deps=("d10-core", "d10-ops"), pre="", python=False):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, body=body, deps=deps, pre=pre, python=python)


exec(open(os.path.join(ROOT, "tools", "seed_defs.py")).read())


def main():
    ids = sys.argv[1:] or list(SEEDS)
    for i in ids:
        s = SEEDS[i]
        d = os.path.join(ROOT, "seeded", i)
        shutil.rmtree(W, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(W)
        subprocess.run("git -C /repo archive HEAD | tar x -C " + W, shell=True, check=True)
        subprocess.run("cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=n commit -qm b" % W, shell=True, check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(W, f)
            t = open(p).read()
            assert t.count(old) == 1, (i, f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        deps = "\n".join('%s = { path = "$repo/%s" }' % (x, x) for x in s["deps"] if x != "d10-cli")
        if "d10-cli" in s["deps"]:
            deps += '\n[[bin]]\nname = "demo"\npath = "src/main.rs"\n[[bin]]\nname = "d10"\npath = "$repo/d10-cli/src/main.rs"'
        p = os.path.join(d, "demo.sh")
        open(p, "w").write(PYDEMO if s["python"] else DEMO % deps)
        os.chmod(p, 0o755)
        if s["python"]:
            open(os.path.join(d, "main.py"), "w").write(s["body"].lstrip("\n"))
        else:
            open(os.path.join(d, "main.rs"), "w").write(s["pre"] + "fn main() {\n" + s["body"] + "}\n")
        print(i)
    shutil.rmtree(W, ignore_errors=True)


main()
