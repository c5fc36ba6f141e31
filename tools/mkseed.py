#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID..]: turns a list of planted bugs into /verif/seeded/<id>/ after confirming each of them
(demo passes on the tree, fails with the patch) in a scratch worktree. Not used by any check."""
import sys, os, subprocess, shutil, json, tarfile, io, concurrent.futures as cf
REPO = os.environ.get("SEED_REPO", "/repo")
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T); WS = os.path.join(V, "ws")
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def kit(out, deps, root=False):
    sys.path.insert(0, WS)
    base = ["codec","scale-info","sp-std","sp-core","sp-runtime","sp-io","sp-arithmetic","frame-support","frame-system","log"]
    isreal = lambda d: os.path.isdir(os.path.join(WS, "real", d))
    dl = "\n".join(f'{d} = {{ path = "../{"real" if isreal(d) else "alias"}/{d}" }}' for d in base + ["seed-primitives","seed-pallet-common"] + deps)
    m = f'[package]\nname = "demo"\nversion = "0.0.1"\nedition = "2021"\n[[bin]]\nname = "demo"\npath = "main.rs"\n[dependencies]\nvstub = {{ path = "../stub/vstub" }}\nvmacros = {{ path = "../stub/vmacros" }}\nhrt = {{ path = "../stub/hrt" }}\n{dl}\n'
    top = open(os.path.join(WS, "Cargo.toml")).read()
    top = "\n".join(l for l in top.split("\n") if '"h/' not in l).replace("members = [", 'members = [\n  "demo",')
    with tarfile.open(out, "w:gz") as t:
        flt = lambda ti: None if "/target" in ti.name or ti.name.endswith("Cargo.lock") else (setattr(ti, "mtime", 0) or ti)
        for d in ("stub", "alias", "real"): t.add(os.path.join(WS, d), d, filter=flt)
        def put(n, s):
            ti = tarfile.TarInfo(n); b = s.encode(); ti.size = len(b); t.addfile(ti, io.BytesIO(b))
        put("Cargo.toml", top); put("demo/Cargo.toml", m)
        put("demo/main.rs", "#![allow(warnings)]\nmod nat;\ninclude!(\"demo.rs\");\nfn main() { demo() }\n" if root else "#![allow(warnings)]\nmod nat;\n#[path = \"demo.rs\"]\nmod demo;\nfn main() { demo::demo() }\n")
        put("demo/nat.rs", open(os.path.join(T, "kit/nat.rs")).read()); put("demo/w256.rs", open(os.path.join(V, "symx/src/w256.rs")).read())
        t.add(os.path.join(WS, "Cargo.lock"), "Cargo.lock", filter=lambda ti: (setattr(ti, "mtime", 0) or ti))
def one(b):
    i = b["id"]; wt = f"/tmp/wt_{i}"; out = f"/tmp/seed_{i}"
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    sh("git", "-C", REPO, "worktree", "remove", "--force", wt); shutil.rmtree(wt, ignore_errors=True)
    r = sh("git", "-C", REPO, "worktree", "add", "--detach", "-f", wt, "HEAD"); assert r.returncode == 0, r.stderr
    try:
        kit(f"{out}/kit.tgz", b["deps"], "vmacros::items!" in b["demo"])
        open(f"{out}/demo.rs", "w").write(b["demo"].lstrip("\n")); shutil.copy(os.path.join(T, "kit/demo.sh"), f"{out}/demo.sh")
        a = sh("bash", f"{out}/demo.sh", cwd=wt)
        if a.returncode: return i, "FAILS ON CLEAN TREE: " + a.stdout[-300:] + a.stderr[:1500]
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1: return i, f"edit matches {s.count(old)} times in {f}: {old[:80]}"
            open(p, "w").write(s.replace(old, new))
        d = sh("git", "-C", wt, "diff").stdout; open(f"{out}/patch.diff", "w").write(d)
        a = sh("bash", f"{out}/demo.sh", cwd=wt)
        if a.returncode == 0: return i, "PASSES WITH THE PATCH"
        if a.returncode == 9: return i, "DOES NOT BUILD: " + a.stdout[-1500:]
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
        dst = os.path.join(V, "seeded", i); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
        return i, "kept: " + (a.stderr.strip().split("\n")[1:2] or [a.stderr[-200:]])[0]
    finally:
        sh("git", "-C", REPO, "worktree", "remove", "--force", wt); shutil.rmtree(out, ignore_errors=True)
ns = {}
exec(open(sys.argv[1]).read(), ns)
todo = [b for b in ns["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
with cf.ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(one, todo): print(i, r, flush=True)
