"""Plant the bugs of seeds.py: build each patch in a scratch copy of /repo, confirm it (builds, the
stable tests pass, the demonstration passes without it and fails with it), write /verif/seeded/<id>/.
usage: mkseed.py [id ...]   (all that are missing, by default)"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
import seeds
W = "/tmp/seedwork"
SRC = "anothertls/src/"

def sh(cmd, cwd, t=600, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=env)
    return r.returncode, r.stdout + r.stderr

def stable(wt):
    rc, out = sh("CARGO_TARGET_DIR=%s/target CARGO_NET_OFFLINE=true cargo test --workspace --no-fail-fast --offline -- --test-threads 8" % wt, wt)
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("stable") or base.get("passed") or base.get("tests") or base
    if isinstance(names, dict): names = list(names)
    ok = {l.split()[1] for l in out.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok")}
    miss = [n for n in names if n.split("::", 1)[-1] not in ok and n not in ok and not any(n.endswith(o) for o in ok)]
    return miss, out

def main():
    ids = sys.argv[1:]
    todo = [s for s in seeds.SEEDS if (s["id"] in ids if ids else not os.path.exists("/verif/seeded/%s/patch.diff" % s["id"]))]
    shutil.rmtree(W, ignore_errors=True)
    wt = W + "/repo"
    os.makedirs(W)
    sh("cp -a /repo %s" % wt, "/")
    bad = 0
    for s in todo:
        sh("git checkout -q -- . && git clean -fdq -e target", wt)
        for f, old, new in s["subs"]:
            p = wt + "/" + SRC + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "SUB", f, t.count(old), repr(old[:60])); bad += 1; break
            # the changed lines must be the original repository's
            open(p, "w").write(t.replace(old, new))
        else:
            rc, diff = sh("git diff", wt)
            rc, bl = sh("git diff -U0 | grep -E '^@@|^---' ", wt)
            own = []
            cur = None
            for l in bl.splitlines():
                if l.startswith("---"): cur = l[6:]
                else:
                    a = l.split()[1][1:].split(",")
                    n = int(a[1]) if len(a) > 1 else 1
                    if n:
                        _, b = sh("git blame -s -L %s,+%d HEAD -- %s" % (a[0], n, cur), wt)
                        own += [x for x in b.splitlines() if not x.startswith("^")]
            if own: print(s["id"], "NOTE changes lines of ours:", *own, sep="\n   ")
            d = "/verif/seeded/" + s["id"]
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            T = os.path.dirname(os.path.abspath(__file__)) + "/demo/"
            open(d + "/patch.diff", "w").write(diff)
            shutil.copy(T + "demo.sh", d)
            src = s["demo"]
            if src.endswith(".rs"): shutil.copy(T + src, d + "/demo.rs")
            else: open(d + "/demo.rs", "w").write(src)
            if "mod evil" in open(d + "/demo.rs").read():
                shutil.copy(T + "evil.rs", d)
                for x in os.listdir(T + "pem"): shutil.copy(T + "pem/" + x, d)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            miss, out = stable(wt)
            if miss: print(s["id"], "TESTS", miss[:5], out[-800:] if len(miss) > 10 else ""); bad += 1; shutil.rmtree(d); continue
            rc1, o1 = sh("bash %s/demo.sh" % d, wt)
            sh("git checkout -q -- .", wt)
            rc0, o0 = sh("bash %s/demo.sh" % d, wt)
            if rc0 or not rc1:
                print(s["id"], "DEMO clean", rc0, "patched", rc1, (o0[-600:] if rc0 else o1[-300:])); bad += 1; shutil.rmtree(d); continue
            print(s["id"], "ok:", [l for l in o1.splitlines() if "FAIL" in l or "panicked" in l][:1] or o1[-120:])
    shutil.rmtree(W, ignore_errors=True)
    sys.exit(bad > 0)
main()
