"""Shared by setup.sh and check.py: build the replayer, generate behaviours, replay."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")
CORPUS = os.path.join(TARGET, "corpus")
SPEC = os.path.join(ROOT, "spec")
BIN = os.path.join(TARGET, "debug", "ibcx-mbt")
CORES = os.cpu_count() or 4

# model -> main module, behaviour families (init/step suffix -> share), steps per behaviour
MODELS = {
    "core": {"spec": "coregen.qnt", "profiles": {"Tokens": 6, "Fees": 6, "Gov": 5, "Reb": 9, "End": 5, "": 4}, "steps": 60},
    "airdrop": {"spec": "airdropgen.qnt", "profiles": {"": 4, "Deep": 3, "Wide": 2}, "steps": 50},
    "pool": {"spec": "poolgen.qnt", "profiles": {"": 6, "Math": 2}, "steps": 40},
    "peri": {"spec": "perigen.qnt", "profiles": {"": 14}, "steps": 50},
    "pages": {"spec": "pagesgen.qnt", "profiles": {"": 5}, "steps": 60},
    "sdk": {"spec": "sdkgen.qnt", "profiles": {"": 4}, "steps": 60},
    "upgrade": {"spec": "upgradegen.qnt", "profiles": {"": 6}, "steps": 60},
}
CHUNK = 60            # behaviours per simulator process
TIER = {"quick": 1, "thorough": 8}


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=TARGET, CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
    return e


class Lock:
    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, ".verif-lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tree_hash(paths, exts):
    h = hashlib.sha256()
    files = []
    for p in paths:
        if os.path.isfile(p):
            files.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            files += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def build():
    """cargo decides by time stamps; the contents decide here"""
    stamp = os.path.join(TARGET, ".repo-hash")
    now = tree_hash([os.path.join(REPO, x) for x in ("contracts", "packages", "Cargo.toml", "Cargo.lock")], (".rs", ".toml", ".lock"))
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if now != old:
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("ibcx"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if os.path.exists(stamp):
            os.remove(stamp)
    # without the packages' functions (called directly by the pool behaviours) everything
    # that goes through the contracts' entry points can still be decided
    for opts in ([], ["--no-default-features"]):
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"] + opts, cwd=os.path.join(ROOT, "harness"), env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
    if p.returncode != 0 or not os.path.exists(BIN):
        raise ToolError("the replayer does not build:\n" + p.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(now)


def spec_files(name):
    """a specification and what it imports"""
    seen, todo = [], [name]
    while todo:
        f = os.path.join(SPEC, todo.pop())
        if f not in seen:
            seen.append(f)
            todo += [x + ".qnt" for x in re.findall(r'from\s+"\./(\w+)"', open(f).read())]
    return sorted(seen)


def spec_hash(model):
    """of everything that determines the behaviours of a model"""
    h = hashlib.sha256(json.dumps([MODELS[model], CHUNK, TIER]).encode())
    for f in spec_files(MODELS[model]["spec"]) + [os.path.join(ROOT, "harness", "src", "itf.rs")]:
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:12]


def job(model, prof, n, steps, seed, out):
    scratch = tempfile.mkdtemp(prefix="itf-", dir=TARGET)
    try:
        cmd = ["quint", "run", "--backend=typescript", os.path.join(SPEC, MODELS[model]["spec"]),
               f"--init=init{prof}", f"--step=step{prof}", "--invariant=inv", f"--max-samples={n}", f"--n-traces={n}",
               f"--max-steps={steps}", f"--seed={seed}", "--verbosity=1",
               "--out-itf", os.path.join(scratch, f"{prof or 'All'}{seed}_{{seq}}.itf.json")]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=scratch)
        files = sorted(os.path.join(scratch, f) for f in os.listdir(scratch) if f.endswith(".itf.json"))
        if p.returncode != 0 or not files:
            raise ToolError(f"simulating {model} {prof} seed {seed} failed (a broken invariant of the specification, or a tool error):\n{p.stdout[-1500:]}")
        tmp = out + ".part"
        q = subprocess.run([BIN, "pack", model, tmp] + files, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode != 0:
            raise ToolError("packing failed: " + q.stdout[-1500:])
        os.rename(tmp, out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def corpora(models, tier, seed, budget=None):
    """files of packed behaviours of the given models, generated when missing; on a slow machine no
    new simulator is started after `budget` seconds and what there is by then has to do"""
    started = time.time()
    out, todo = {}, []
    for m in models:
        d = os.path.join(CORPUS, m + "-" + spec_hash(m))
        os.makedirs(d, exist_ok=True)
        for x in os.listdir(CORPUS):
            if x != os.path.basename(d) and x.split("-")[0] == m:
                shutil.rmtree(os.path.join(CORPUS, x), ignore_errors=True)
        out[m] = []
        cfg = MODELS[m]
        k = 0
        for prof, share in cfg["profiles"].items():
            for i in range(share * TIER[tier]):
                k += 1
                f = os.path.join(d, f"{m}-{prof or 'All'}-{seed}-{i}.jsonl")
                out[m].append(f)
                if not os.path.exists(f):
                    # half of the extra thorough behaviours are three times as long
                    long = i >= share and i % 2 == 1
                    n, steps = (CHUNK // 3, cfg["steps"] * 3) if long else (cfg.get("chunk", CHUNK), cfg["steps"])
                    todo.append((m, prof, n, steps, (seed * 7919 + k * 31 + i * 104729) % (2**31), f, i))

    def one(*t):
        if t[-1] == 0 or budget is None or time.time() - started < budget:
            job(*t[:-1])
    if todo:
        # the first of every family before the second of any
        todo.sort(key=lambda t: t[-1])
        with ThreadPoolExecutor(CORES) as ex:
            for r in [ex.submit(one, *t) for t in todo]:
                r.result()
    return {m: [f for f in fs if os.path.exists(f)] for m, fs in out.items()}


# exhaustive small instances of the specifications (spec/small overlays constants), checked by TLC
SMALL = {
    "core": [("coresmall", "initFees", "stepFees"), ("coresmall", "initReb", "stepReb")],
    "airdrop": [("airdropsmall", "init", "step")],
}


def exhaustive(model, limit=840):
    """TLC on the small instances: every reachable state has the invariants.  Cached by content."""
    done = []
    for mod, init, step in SMALL.get(model, []):
        h = hashlib.sha256((mod + init + step).encode())
        scratch = tempfile.mkdtemp(prefix="small-", dir=TARGET)
        try:
            for d in (SPEC, os.path.join(SPEC, "small")):
                for f in sorted(os.listdir(d)):
                    if f.endswith(".qnt"):
                        shutil.copyfile(os.path.join(d, f), os.path.join(scratch, f))
            seen, todo = set(), [mod]
            while todo:
                f = todo.pop()
                if f not in seen:
                    seen.add(f)
                    todo += re.findall(r'from\s+"\./(\w+)"', open(os.path.join(scratch, f + ".qnt")).read())
            for f in sorted(seen):
                h.update(open(os.path.join(scratch, f + ".qnt"), "rb").read())
            stamp = os.path.join(TARGET, f"tlc-{init}-{h.hexdigest()[:12]}.json")
            if not os.path.exists(stamp):
                port = 20000 + int(h.hexdigest()[:4], 16) % 30000
                cmd = ["timeout", "-k", "10", str(limit), "quint", "verify", "--backend=tlc", f"--server-endpoint=localhost:{port}",
                       f"--init={init}", f"--step={step}", "--invariant=inv", mod + ".qnt"]
                p = subprocess.run(cmd, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", p.stdout)
                if p.returncode in (124, 137):
                    done.append({"instance": mod + "." + init, "complete": False, "progress": p.stdout[-300:]})
                    continue
                if p.returncode != 0 or not m or m[-1][2] != "0":
                    raise ToolError(f"the small instance {mod} {init} of the specification fails:\n" + p.stdout[-3000:])
                with open(stamp, "w") as f:
                    json.dump({"instance": mod + "." + init, "complete": True, "generated": int(m[-1][0]), "states": int(m[-1][1])}, f)
            done.append(json.load(open(stamp)))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return done


def replay(files, extra=(), quick=True, wire=None):
    rep = tempfile.mktemp(prefix="report-", suffix=".json", dir=TARGET)
    try:
        e = dict(os.environ, MBT_LIMIT="600" if quick else "100000")
        if wire:
            e["MBT_WIRE"] = wire
        p = subprocess.run([BIN, "replay", rep, *extra] + files, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=e)
        if p.returncode != 0 or not os.path.exists(rep):
            raise ToolError("replay failed: " + p.stderr[-2000:])
        with open(rep) as f:
            return json.load(f)
    finally:
        if os.path.exists(rep):
            os.remove(rep)


def through_sdk(files, sessions, quick):
    """the requests of the behaviours (and of the sessions with the SDK), put to the TypeScript SDK: (report of the replay, alarms by property, counts)"""
    d = tempfile.mkdtemp(prefix="sdk-", dir=TARGET)
    try:
        wire, made, rep, verdict = (os.path.join(d, x) for x in ("wire.jsonl", "made.jsonl", "report.json", "verdict.json"))
        r = replay(files, ["--only", "none"], quick, wire)
        p = subprocess.run(["node", os.path.join(ROOT, "tools", "sdk", "drive.js"), wire, made, rep, *sessions], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(rep):
            raise ToolError("the SDK driver failed: " + p.stdout[-2000:])
        s = json.load(open(rep))
        if s.get("error"):
            raise ToolError("the SDK driver failed: " + s["error"][:2000])
        p = subprocess.run([BIN, "judge", verdict, made], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("judging failed: " + p.stdout[-2000:])
        v = json.load(open(verdict))
        def alarm(pid, what, asked, more):
            return {"properties": [pid], "trace": "request", "step": 0, "what": what, "messages": [json.dumps(asked), more]}
        out = {"N01": [alarm("N01", w["what"], w["asked"], w.get("more")) for w in s["wrong"]]
                      + [alarm("N01", f"{x['made']['via']}: asked {json.dumps(x['asked']['msg'])[:300]}, sent {json.dumps(x['made'])[:300]}, understood as {x['understood'][:200]}", x["asked"], x["should_be"]) for x in v["different"]],
               "N02": [alarm("N02", w["what"] + ": " + (w.get("more") or ""), w["asked"], w.get("more")) for w in s["types"]]}
        counts = {"N01": v["compared"] + s["answers"], "N02": s["typed"]}
        samples = [l[:500] for l in open(wire).read().splitlines()[:: max(1, s["requests"] // 4)]][:5]
        return r, out, counts, {"requests": s["requests"], "sessions": s["sessions"], "session_steps": s["steps"], "samples": samples, "without a method in the SDK": s["skipped"]}
    finally:
        shutil.rmtree(d, ignore_errors=True)
