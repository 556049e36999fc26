#!/usr/bin/env python3
"""Confirm the planted bugs listed in tools/bugs.py and write them to seeded/.
usage: mkseed.py [ID...]   (without arguments: those not yet written)"""
import os, subprocess, sys, json, shutil, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + "/tools/demo"
WT = "/tmp/seedwt"
spec = importlib.util.spec_from_file_location("bugs", V + "/tools/bugs.py")
bugs = importlib.util.module_from_spec(spec); spec.loader.exec_module(bugs)
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="")
stable = [t.split("::")[-1].split(" #")[0] for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]]

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, env=env, **k)

def main():
    want = sys.argv[1:] or [b["id"] for b in bugs.BUGS if not os.path.exists(f"{V}/seeded/{b['id']}/patch.diff")]
    shutil.rmtree(WT, ignore_errors=True)
    sh(f"cp -a /repo {WT}")
    for b in bugs.BUGS:
        if b["id"] not in want: continue
        out = f"{V}/seeded/{b['id']}"
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        for f in (["iso.rs", "qrenc.rs"] if "qrenc" in b["main"] else []):
            shutil.copy(f"{D}/{f}", out)
        open(out + "/main.rs", "w").write(b["main"])
        shutil.copy(D + "/run.sh", out + "/demo.sh"); os.chmod(out + "/demo.sh", 0o755)
        sh(f"git -C {WT} checkout -- .")
        bad = None
        for f, old, new in b["edits"]:
            s = open(f"{WT}/{f}").read()
            n = s.count(old)
            if n != 1: bad = f"{f}: {n} matches for {old!r}"; break
            open(f"{WT}/{f}", "w").write(s.replace(old, new))
        if not bad:
            open(out + "/patch.diff", "w").write(sh(f"git -C {WT} diff").stdout)
            t = sh(f"cd {WT} && cargo test --workspace --no-fail-fast --offline -- --test-threads 8")
            if t.returncode != 0: bad = "tests: " + "\n".join(l for l in (t.stdout + t.stderr).splitlines() if "FAILED" in l or l.startswith("error") or "panicked" in l)[:600]
            else:
                c = sh(f"cd {WT} && cargo check --features debug-images --offline")
                if c.returncode: bad = "debug-images build"
        if not bad:
            r = sh(f"cd {WT} && bash {out}/demo.sh")
            if r.returncode == 0: bad = "demo does not fail with the change"
            else:
                why = (r.stdout + r.stderr)[-300:]
                if r.returncode in (3, 4): bad = "demo does not build: " + why
            r = sh(f"cd /repo && bash {out}/demo.sh")
            if r.returncode != 0: bad = "demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-500:]
        if bad:
            print("BAD", b["id"], bad); shutil.rmtree(out); continue
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print("ok", b["id"], why.strip().splitlines()[:1] and [l for l in why.strip().splitlines() if "note" not in l][-1][:150])
    shutil.rmtree(WT, ignore_errors=True)
main()
