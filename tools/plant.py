#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes seeded/<id>/ from edits, after confirming in a scratch copy of /repo that the
change applies, builds, passes the tests, and that its demonstration fails with it and passes without it.
plant.py --run [ID...]: runs the check of each planted bug's property against a scratch copy with the bug."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
DEMO = """#!/bin/bash
# Run in the repository: exit 0 if it behaves, nonzero if it does not.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
dir=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/PKG/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$dir" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s FLAGS-overlay "$tmp/overlay.json" -run '^TestDemo$' ./PKG
"""
HEAD = {
    ".": 'package svg_test\n\nimport (\n\t"strings"\n\t"testing"\n%s\n\tsvg "github.com/lafriks/go-svg"\n)\n\n',
    "renderer": 'package renderer_test\n\nimport (\n\t"strings"\n\t"testing"\n%s\n\tsvg "github.com/lafriks/go-svg"\n\t"github.com/lafriks/go-svg/renderer"\n)\n\n',
    "renderer/draw2d": 'package draw2d_test\n\nimport (\n\t"image"\n\t"strings"\n\t"testing"\n%s\n\tsvg "github.com/lafriks/go-svg"\n\trdr "github.com/lafriks/go-svg/renderer/draw2d"\n\t"github.com/llgcode/draw2d/draw2dimg"\n)\n\n',
    "renderer/gg": 'package gg_test\n\nimport (\n\t"image"\n\t"strings"\n\t"testing"\n%s\n\t"github.com/fogleman/gg"\n\tsvg "github.com/lafriks/go-svg"\n\trdr "github.com/lafriks/go-svg/renderer/gg"\n)\n\n',
    "renderer/rasterx": 'package rasterx_test\n\nimport (\n\t"image"\n\t"strings"\n\t"testing"\n%s\n\tsvg "github.com/lafriks/go-svg"\n\trdr "github.com/lafriks/go-svg/renderer/rasterx"\n\t"github.com/srwiley/rasterx"\n)\n\n',
}
PARSE = '''func parse(t *testing.T, s string) *svg.Svg {
	t.Helper()
	v, err := svg.Parse(strings.NewReader(s), svg.StrictErrorMode)
	if err != nil {
		t.Fatalf("%v in %s", err, s)
	}
	return v
}

'''
DRAW = {
    "renderer/draw2d": '''func newDrawing(w, h int) (*image.RGBA, func(*svg.Svg)) {
	im := image.NewRGBA(image.Rect(0, 0, w, h))
	gc := draw2dimg.NewGraphicContext(im)
	return im, func(s *svg.Svg) { rdr.Draw(gc, s) }
}

''',
    "renderer/gg": '''func newDrawing(w, h int) (*image.RGBA, func(*svg.Svg)) {
	im := image.NewRGBA(image.Rect(0, 0, w, h))
	gc := gg.NewContextForRGBA(im)
	return im, func(s *svg.Svg) {
		if err := rdr.Draw(gc, s); err != nil {
			panic(err)
		}
	}
}

''',
    "renderer/rasterx": '''func newDrawing(w, h int) (*image.RGBA, func(*svg.Svg)) {
	im := image.NewRGBA(image.Rect(0, 0, w, h))
	gc := rasterx.NewDasher(w, h, rasterx.NewScannerGV(w, h, im, im.Bounds()))
	return im, func(s *svg.Svg) { rdr.Draw(gc, s) }
}

''',
}


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, errors="replace", **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="plant-")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    return d, r


def tests(repo):
    r = sh(["go", "test", "-vet=off", "-count=1", "./..."], repo)
    return r.returncode == 0, r.stdout + r.stderr


def plant(m):
    d, repo = scratch()
    try:
        for f, old, new in m["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            n = m.get("nth")
            if s.count(old) != 1:
                return f"{f}: {old!r} occurs {s.count(old)} times"
            open(p, "w").write(s.replace(old, new))
        if sh(["gofmt", "-l", "."], repo).stdout.strip():
            return "not gofmt'd: " + sh(["gofmt", "-d", "."], repo).stdout
        diff = sh(["git", "diff"], repo).stdout
        # changed lines must belong to the original repository
        own = [l for l in removed_lines(repo)]
        b = sh(["go", "build", "./..."], repo)
        if b.returncode:
            return "does not build: " + b.stderr
        ok, out = tests(repo)
        if not ok:
            return "tests fail: " + out[-1500:]
        out = os.path.join(d, "demo")
        os.makedirs(out)
        pkg = m.get("pkg", ".")
        imp = "".join(f'\t"{i}"\n' for i in m.get("imports", []))
        code = HEAD[pkg] % imp + PARSE + DRAW.get(pkg, "") + m["demo"].strip() + "\n"
        open(os.path.join(out, "demo_test.go"), "w").write(code)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO.replace("/PKG", "" if pkg == "." else "/" + pkg).replace("./PKG", "./" + pkg)
                                                       .replace("FLAGS", "-race " if m.get("race") else ""))
        if sh(["gofmt", "-l", out], d).stdout.strip():
            sh(["gofmt", "-w", out], d)
        r1 = sh(["bash", os.path.join(out, "demo.sh")], repo)
        r0 = sh(["bash", os.path.join(out, "demo.sh")], "/repo")
        if r0.returncode != 0:
            return "demo fails on the unchanged tree: " + (r0.stdout + r0.stderr)[-1500:]
        if r1.returncode == 0:
            return "demo passes with the change"
        if "FAIL" not in r1.stdout or "build failed" in r1.stdout:
            return "demo: " + r1.stdout + r1.stderr
        dst = os.path.join(SEEDED, m["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        json.dump(dict(property=m["prop"], needs=m["needs"], what_it_breaks=m["breaks"]), open(os.path.join(dst, "meta.json"), "w"), indent=1)
        if own:
            return "PLANTED, but changes lines of fix commits: " + "; ".join(own)
        return ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def removed_lines(repo):
    """Lines the change removes that a fix commit had added."""
    own = []
    diff = sh(["git", "diff", "-U0"], repo).stdout
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        if l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if n == 0:
                continue
            b = sh(["git", "blame", "-s", "-l", "-L", f"{start},+{n}", "HEAD", "--", f], repo).stdout
            base = set(sh(["git", "rev-list", "a2a6847"], repo).stdout.split())
            for x in b.splitlines():
                h = x.split()[0].lstrip("^")
                if not any(y.startswith(h) for y in base):
                    own.append(x[x.find(")") + 1:].strip())
    return own


def run(ids, pids=None, keep=False):
    for i in ids:
        src = os.path.join(SEEDED, i)
        meta = json.load(open(os.path.join(src, "meta.json")))
        d, repo = scratch()
        try:
            r = sh(["git", "apply", os.path.join(src, "patch.diff")], repo)
            if r.returncode:
                print(i, "does not apply:", r.stderr)
                continue
            for pid in pids or [meta["property"]]:
                e = dict(ENV, VERIF_DEV_REPO=repo)
                r = subprocess.run(["python3", os.path.join(HERE, "check.py"), pid], cwd=HERE, env=e, capture_output=True, text=True)
                hit = f"VIOLATION property={pid} " in r.stdout
                print(f"{i:28s} {pid} exit {r.returncode} {'caught' if hit else 'MISSED' if r.returncode == 0 else 'ERROR'}", flush=True)
                if not hit and r.returncode:
                    print(r.stdout[-800:], r.stderr[-800:])
        finally:
            shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == "--run":
        pids = None
        if "--prop" in a:
            k = a.index("--prop")
            pids = a[k + 1].split(",")
            a = a[:k] + a[k + 2:]
        run(a[1:] or sorted(os.listdir(SEEDED)), pids)
        return
    g = {}
    exec(open(a[0]).read(), g)
    for m in g["BUGS"]:
        if a[1:] and m["id"] not in a[1:]:
            continue
        print(m["id"], plant(m) or "ok", flush=True)


main()
