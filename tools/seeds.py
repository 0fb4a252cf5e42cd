#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ from the table below and checks each one (applies, builds, passes the stable
tests, demonstration passes without and fails with it).   seeds.py make ID.. | verify ID.. | catch ID.. | list"""
import json, os, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
PRE = r'''#include <bpptree/bpptree.hpp>
#include <bpptree/ordered.hpp>
#include <bpptree/indexed.hpp>
#include <bpptree/summed.hpp>
#include <bpptree/min.hpp>
#include <bpptree/max.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
using namespace bpptree;
#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\n", __LINE__, #c); std::exit(1); } } while (0)
'''


def seed(id, prop, edits, needs, breaks, demo, flags="-fsanitize=address,undefined -fno-sanitize-recover=all", pre=PRE, env="ASAN_OPTIONS=detect_leaks=1"):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, pre=pre, env=env)


D = "include/bpptree/detail/"
exec(open(os.path.join(VERIF, "tools", "seed_table.py")).read())


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(i):
    s = SEEDS[i]
    d = os.path.join(VERIF, "seeded", i)
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="seed_")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % (wt, wt))
        for f, old, new in s["edits"]:
            p = os.path.join(wt, f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert t.count(old) == 1, (i, f, t.count(old))
            open(p, "w", newline="").write(t.replace(old, new))
        r = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(r)
    finally:
        shutil.rmtree(wt)
    open(os.path.join(d, "demo.cpp"), "w").write(s["pre"] + s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# run with cwd = the repository; exit 0 where the property holds, 1 where it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -g -w %s -I include "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && %s timeout 120 ./demo
''' % (s["flags"], s["env"]))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def verify(i, tests=True):
    wt = tempfile.mkdtemp(prefix="seedv_")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q" % (wt, wt))
        demo = os.path.join(VERIF, "seeded", i, "demo.sh")
        a = sh("bash %s" % demo, cwd=wt)
        r = sh("git apply %s" % os.path.join(VERIF, "seeded", i, "patch.diff"), cwd=wt)
        if r.returncode:
            print(i, "does not apply", r.stdout); return False
        b = sh("bash %s" % demo, cwd=wt)
        print(i, "demo clean rc", a.returncode, "patched rc", b.returncode, (a.stdout[-300:] if a.returncode else ""), b.stdout.strip().split("\n")[0][:150] if b.stdout.strip() else "")
        ok = a.returncode == 0 and b.returncode not in (0, 3)
        if ok and tests:
            r = sh("export CC=gcc CXX=g++; cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest >/dev/null && ninja -C _b btree_test >/dev/null && ctest --test-dir _b -j8 --timeout 180 | tail -6", cwd=wt)
            ok = "100% tests passed" in r.stdout
            if not ok:
                print(i, "TESTS:", r.stdout[-500:])
        print(i, "OK" if ok else "BAD")
        return ok
    finally:
        shutil.rmtree(wt)


def catch(i):
    p = os.path.join(VERIF, "seeded", i, "patch.diff")
    prop = json.load(open(os.path.join(VERIF, "seeded", i, "meta.json")))["property"]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    r = sh("git -C /repo apply %s" % p)
    try:
        r = sh("timeout 900 python3 check.py %s" % prop, cwd=VERIF)
    finally:
        sh("git -C /repo checkout -- .")
    v = [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "failed", "undecided", "not "))]
    print(i, prop, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, r.stdout.strip().split("\n")[-1][-90:], *[x[:220] for x in v[:3]], sep="\n   ")


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:] or list(SEEDS)
    for i in ids:
        if cmd == "make":
            make(i)
        elif cmd == "verify":
            verify(i)
        elif cmd == "demo":
            verify(i, False)
        elif cmd == "catch":
            catch(i)
        elif cmd == "list":
            print(i, SEEDS[i]["prop"])
