#!/usr/bin/env python3
"""mkseed.py <id>...: plant seeded/<id> in a scratch copy and confirm it: applies, builds,
passes the stable tests, demo quiet without and loud with it.  The demo's support files
are copied beside it.  With --check also runs the quick check against it in /repo."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedw"
def sh(c, cwd=W, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
def fresh():
    if not os.path.isdir(W):
        sh(f"cp -a /repo {W}", "/tmp")
    sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD")
def build():
    e = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
    r = sh("cargo build --workspace --locked --offline 2>&1 && cargo test --workspace --exclude ibcx-pool --exclude ibcx-tests --lib --bins --tests --no-fail-fast --locked --offline -- --test-threads 8 2>&1", env=e)
    return r
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    confirm = "--only-check" not in sys.argv
    for i in ids:
        d = os.path.join(ROOT, "seeded", i)
        patch = os.path.join(d, "patch.diff")
        if confirm:
            kit = os.path.join(ROOT, "tools", "demokit")
            if os.path.exists(os.path.join(d, "demo.js")):
                shutil.copy(os.path.join(kit, "sdk-demo.sh"), os.path.join(d, "demo.sh"))
                shutil.copy(os.path.join(kit, "sdkkit.js"), d)
            else:
                for f in ("demo.sh", "kit.rs", "crate.tpl"):
                    shutil.copy(os.path.join(kit, f), d)
                shutil.copy(os.path.join(ROOT, "harness", "src", "weighted.rs"), d)
                t = open(os.path.join(ROOT, "harness", "src", "chain.rs")).read().replace("crate::wire::note", "quiet")
                t += "\n#[allow(clippy::too_many_arguments)]\nfn quiet(_: Code, _: &str, _: &str, _: &str, _: &[Coin], _: &serde_json::Value, _: Option<&serde_json::Value>) {}\n"
                open(os.path.join(d, "chain.rs"), "w").write(t)
            fresh()
            r = sh(f"bash {d}/demo.sh")
            if r.returncode != 0:
                print(i, "DEMO FAILS ON CLEAN TREE\n", r.stdout[-500:]); continue
            r = sh(f"git apply {patch}")
            if r.returncode != 0:
                print(i, "PATCH DOES NOT APPLY\n", r.stdout[-400:]); continue
            r = build()
            if r.returncode != 0:
                print(i, "BUILD/TESTS FAIL\n", r.stdout[-500:]); sh("git checkout -q -- ."); continue
            r = sh(f"bash {d}/demo.sh")
            print(i, "demo with patch:", r.returncode, r.stdout.strip().splitlines()[-1][:200] if r.stdout.strip() else "")
            if r.returncode == 0:
                print(i, "DEMO QUIET WITH PATCH")
            sh("git checkout -q -- .")
        if "--check" in sys.argv or not confirm:
            p = json.load(open(os.path.join(d, "meta.json")))["property"]
            r = sh(f"git apply {patch}", "/repo")
            try:
                ps = [p] if "--all" not in sys.argv else [x["id"] for x in json.load(open(ROOT + "/MANIFEST.json"))["checks"]] if False else [p]
                for q in ps:
                    r = sh(f"python3 tools/check.py {q} quick", ROOT)
                    print(i, q, "CAUGHT" if r.returncode == 1 and f"VIOLATION property={q}" in r.stdout else f"MISSED rc={r.returncode}", "|", " ".join(r.stdout.strip().splitlines()[:2])[:260])
            finally:
                sh("git checkout -q -- .", "/repo")
main()
