#!/usr/bin/env python3
"""Makes and tries planted bugs: mkseeds.py SEEDS.py [NAME...].

SEEDS.py defines a list S of dicts: id, property, needs, what, edits [(file, old, new)...], demo (body of main in Go, with
helpers), imports, race (bool), and optionally test (path of an in-package test file placed by an overlay).
Each is made in a scratch copy of /repo, has to build, to pass the tests, and its demonstration must tell it from the
unchanged tree; then it is written to /verif/seeded/ID. Nothing is changed in /repo.
"""
import json, os, re, shutil, subprocess, sys, tempfile

ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off")
DEMO_SH = r'''#!/bin/bash
# Exits 0 when the behaviour is right, 1 when it is not. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
tmp=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
'''
PROG = DEMO_SH + r'''cp "$here/main.go.txt" "$tmp/main.go" && cp "$repo/go.sum" "$tmp/go.sum" || exit 2
sed -e 's,^module .*,module demo,' "$repo/go.mod" > "$tmp/go.mod"
printf '\nrequire github.com/fredbi/go-typeset v0.0.0\nreplace github.com/fredbi/go-typeset => %%s\n' "$repo" >> "$tmp/go.mod"
cd "$tmp" && go build %(flags)s -o demo . || exit 2
DEMO_REPO="$repo" GORACE="halt_on_error=1 exitcode=66" timeout 120 ./demo
'''
TEST = DEMO_SH + r'''printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$repo" "$here" > "$tmp/overlay.json"
timeout 200 go test -count=1 -vet=off -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
HELP = '''
func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("WRONG: "+format+"\\n", args...)
		os.Exit(1)
	}
}

func strs(in [][]rune) []string {
	out := make([]string, 0, len(in))
	for _, r := range in {
		out = append(out, string(r))
	}
	return out
}

func joined(in [][]rune) string { return strings.Join(strs(in), "~") }
'''
P = "github.com/fredbi/go-typeset/"
ALIAS = {"flag": ("flag", ""), "width": (P + "terminal/runes", "width"), "runesio": (P + "terminal/runes/runesio", ""), "ansi": (P + "terminal/ansi", ""),
         "linebreak": (P + "linebreak", ""), "attributes": (P + "attributes", ""), "hyphenator": (P + "wordbreak/hyphenator", ""),
         "punctuator": (P + "wordbreak/punctuator", ""), "tokenizer": (P + "wordbreak/tokenizer", ""), "language": ("golang.org/x/text/language", ""),
         "sync": ("sync", ""), "strconv": ("strconv", ""), "io": ("io", ""), "errors": ("errors", ""), "bytes": ("bytes", ""), "time": ("time", ""),
         "unicode": ("unicode", ""), "regexp": ("regexp", ""), "math": ("math", ""), "reflect": ("reflect", ""), "runtime": ("runtime", ""), "exec": ("os/exec", ""), "syscall": ("syscall", "")}


def run(cmd, cwd, env=ENV, timeout=400):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = None
    for k in ("stable", "stable_pass", "passed", "tests"):
        if k in base:
            stable = set(base[k])
            break
    for s in ns["S"]:
        if want and s["id"] not in want:
            continue
        print("==", s["id"], s["property"], flush=True)
        wt = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
        repo = wt + "/repo"
        try:
            subprocess.check_call(["cp", "-a", "/repo", repo])
            bad = False
            for f, old, new in s["edits"]:
                p = repo + "/" + f
                t = open(p).read()
                if t.count(old) != 1:
                    print("   edit matches", t.count(old), "times:", repr(old)[:80])
                    bad = True
                    break
                open(p, "w").write(t.replace(old, new))
            if bad:
                continue
            rc, out = run(["gofmt", "-l"] + sorted({e[0] for e in s["edits"]}), repo)
            if out.strip():
                run(["gofmt", "-w"] + out.split(), repo)
            _, patch = run(["git", "diff"], repo)
            rc, out = run(["go", "vet", "./..."], repo)
            if rc:
                print("   vet:", out[-600:])
            rc, out = run(["go", "test", "-vet=off", "-count=1", "-json", "./..."], repo)
            failed = [json.loads(l) for l in out.splitlines() if l.startswith("{") and '"fail"' in l]
            failed = [f"{x.get('Package')}::{x.get('Test')}" for x in failed if x.get("Action") == "fail"]
            if failed:
                print("   TESTS FAIL:", failed[:5])
                continue
            d = "/verif/seeded/" + s["id"]
            if os.path.isdir(d):
                shutil.rmtree(d)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(patch)
            if "test" in s:
                open(d + "/demo_test.go.txt", "w").write(s["demo"])
                open(d + "/demo.sh", "w").write(TEST % {"pkg": s["test"]})
            else:
                body = s["demo"]
                head = s.get("head", "")
                imps = ["fmt", "os", "strings"]
                lines = ['\t"fmt"', '\t"os"', '\t"strings"']
                for k, (path, alias) in ALIAS.items():
                    if re.search(r"\b%s\." % k, body + head):
                        lines.append(f'\t{alias} "{path}"' if alias else f'\t"{path}"')
                src = "package main\n\nimport (\n" + "\n".join(lines) + "\n)\n" + HELP + head + "\nfunc main() {\n" + body + "\n}\n"
                p = subprocess.run(["gofmt"], input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV)
                if p.returncode:
                    print("   demo:", p.stderr)
                open(d + "/main.go.txt", "w").write(p.stdout or src)
                open(d + "/demo.sh", "w").write(PROG % {"flags": "-race" if s.get("race") else ""})
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
            r0, o0 = run(["bash", d + "/demo.sh"], "/repo")
            r1, o1 = run(["bash", d + "/demo.sh"], repo)
            ok = r0 == 0 and r1 not in (0, 2)
            print("   demo:", r0, r1, "OK" if ok else "BAD", (o0 if r0 else o1).strip()[-160:].replace("\n", " | "))
            if not ok:
                shutil.rmtree(d)
        finally:
            shutil.rmtree(wt)


main()
