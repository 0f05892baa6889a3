#!/usr/bin/env python3
"""Makes seeded/<id>/ from a description: mkseed.py FILE, see tools/seeds/*.
The file has sections separated by lines '### name': meta (json), edit blocks
'### edit path' with <<<< old ==== new >>>>, and '### test' with the body of an
in-package test file (or '### test path/pkgdir')."""
import sys, os, re, json, subprocess, shutil, tempfile
root = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
DEMO = '''#!/bin/bash
# exit 0: the property holds; non-zero: it is broken
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/@PKG@/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" >"$t/o.json"
cp go.mod go.sum "$t/"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -modfile "$t/go.mod" -run 'TestDemo' ./@PKG@
'''
def run(f):
    name = os.path.basename(f)
    secs = re.split(r'^### ', open(f).read(), flags=re.M)
    w = tempfile.mkdtemp()
    wt = os.path.join(w, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    try:
        meta = test = None; pkg = "."
        for s in secs[1:]:
            head, body = s.split("\n", 1)
            k = head.split()
            if k[0] == "meta": meta = json.loads(body)
            elif k[0] == "test":
                test = body; pkg = k[1] if len(k) > 1 else "."
            elif k[0] == "edit":
                p = os.path.join(wt, k[1]); t = open(p).read()
                for m in re.finditer(r'^<<<<\n(.*?)^====\n(.*?)^>>>>\n', body, flags=re.M | re.S):
                    assert t.count(m.group(1)) == 1, (name, t.count(m.group(1)), m.group(1))
                    t = t.replace(m.group(1), m.group(2))
                open(p, "w").write(t)
        out = os.path.join(root, "seeded", name)
        os.makedirs(out, exist_ok=True)
        d = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
        assert d, name
        open(f"{out}/patch.diff", "w").write(d)
        json.dump(meta, open(f"{out}/meta.json", "w"), indent=1)
        open(f"{out}/demo.sh", "w").write(DEMO.replace("@PKG@", pkg)); os.chmod(f"{out}/demo.sh", 0o755)
        open(f"{out}/demo_test.go", "w").write(test)
        env = dict(os.environ, GOFLAGS="-mod=mod")
        sh = lambda c, cwd: subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + c], cwd=cwd, capture_output=True, text=True)
        r = sh("go build ./... && go vet ./... >/dev/null 2>&1; go test ./... 2>&1", wt)
        ok_tests = "FAIL" not in r.stdout and r.returncode == 0
        bad = sh(f"bash {out}/demo.sh", wt)
        good = sh(f"git stash -q && bash {out}/demo.sh; r=$?; git stash drop -q; exit $r", wt)
        st = "OK" if ok_tests and bad.returncode != 0 and good.returncode == 0 and "build failed" not in bad.stdout else "PROBLEM"
        print(f"{name}: {st} tests={ok_tests} demo(patched)={bad.returncode} demo(clean)={good.returncode}")
        if st != "OK":
            print(r.stdout[-1500:], r.stderr[-800:], "\n--patched\n", bad.stdout[-1500:], bad.stderr[-500:], "\n--clean\n", good.stdout[-1500:], good.stderr[-500:])
    finally:
        pass
        shutil.rmtree(w, ignore_errors=True)
for f in sys.argv[1:]: run(f)
