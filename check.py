#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property by symbolic execution of keride's
compiled code.

1. keride (at /repo, hooks on) and this property's harnesses are compiled to LLVM IR, with the
   cryptographic and randomness crates replaced by ideal stand-ins; the same sources are also
   compiled to an ordinary executable for replay.
2. The symbolic executor runs every job (harness + parameters) over all values of its inputs.
3. Every counterexample is replayed natively; only a reproduced one is reported.
4. Sampled paths are replayed natively too: outcome and observed bytes have to agree.
"""
import fcntl, json, os, shutil, subprocess, sys, time, glob, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KERIDE_REPO", "/repo")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
BIN = f"/root/.rustup/toolchains/{TOOLCHAIN}/lib/rustlib/x86_64-unknown-linux-gnu/bin"
TGT = os.path.join(V, ".target")
sys.path.insert(0, V)


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO") and k not in ("RUSTFLAGS", "RUSTC_WRAPPER")}
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", CARGO_TERM_COLOR="never")
    for k in ("CARGO_HOME",):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(kw)
    return e


class Broken(Exception):
    pass


def sh(cmd, cwd, e, what, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise Broken(f"{what} failed:\n" + r.stdout.decode(errors="replace")[-4000:])
    return r.stdout.decode(errors="replace")


def fresh(tgt, profile):
    """cargo's time stamps are not trusted: keride and the harness are always compiled again"""
    for pat in ("keride-*", "kh-*"):
        for d in glob.glob(f"{tgt}/{profile}/.fingerprint/{pat}"):
            shutil.rmtree(d, ignore_errors=True)


def build_engine():
    t = f"{TGT}/engine"
    sh(["cargo", "build", "--release", "--offline", "-q"], f"{V}/engine", env(CARGO_TARGET_DIR=t), "building the executor")
    return f"{t}/release/symex"


def build_sym(features, out):
    t = f"{TGT}/sym"
    fresh(t, "release")
    for f in glob.glob(f"{t}/release/deps/kh.kh.*"):
        os.remove(f)
    e = env(CARGO_TARGET_DIR=t, RUSTFLAGS="--cfg keride_verif --cfg symex -C no-vectorize-loops -C no-vectorize-slp -A warnings")
    sh(["cargo", "rustc", "--release", "--offline", "-q", "--lib", "--crate-type", "cdylib", "--features", features, "--", "-C", "save-temps"],
       f"{V}/harness", e, "compiling keride and harnesses to LLVM IR")
    bc = [f for f in glob.glob(f"{t}/release/deps/kh.kh.*-cgu.0.rcgu.bc")]
    if len(bc) != 1:
        raise Broken(f"expected one bitcode module, found {bc}")
    sh([f"{BIN}/llvm-dis", bc[0], "-o", out], V, env(), "llvm-dis")
    return out


def build_native(features):
    t = f"{TGT}/nat"
    fresh(t, "debug")
    e = env(CARGO_TARGET_DIR=t, RUSTFLAGS="--cfg keride_verif -A warnings")
    sh(["cargo", "build", "--offline", "-q", "--bin", "kh-replay", "--features", features], f"{V}/harness", e, "compiling the replay program")
    return f"{t}/debug/kh-replay"


def replay_file(path, entry, params, inputs):
    with open(path, "w") as f:
        f.write(f"E\t{entry}\n")
        for k, v in params.items():
            if not k.startswith("_"):
                f.write(f"P\t{k}\t{v}\n")
        for n, h in inputs:
            f.write(f"I\t{n}\t{h}\n")


def native(exe, path, timeout=120):
    entry = open(path).readline().split("\t")[1].strip()
    try:
        r = subprocess.run([exe, entry, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env())
    except subprocess.TimeoutExpired:
        return "HANG", {}, ""
    out = r.stdout.decode(errors="replace").splitlines()
    obs = [tuple(l.split(" ")[1:3]) for l in out if l.startswith("OBS ")]
    last = out[-1] if out else ""
    if r.returncode == 0 and last == "OK":
        return "ok", obs, last
    if r.returncode == 1 and last.startswith("FAIL "):
        return "fail", obs, last[5:]
    if r.returncode == 3 and last.startswith("PANIC "):
        return "panic", obs, last[6:]
    if r.returncode < 0:
        return "crash", obs, f"signal {-r.returncode}"
    return "other", obs, last + r.stderr.decode(errors="replace")[-500:]


def known_findings():
    out = []
    p = f"{V}/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: "):
                out.append(l[len("KNOWN-FINDING: "):])
    return out


def short(job, v):
    ins = " ".join(f"{n.lstrip('?')}={h}" for n, h in v["inputs"] if not n.startswith("orc:"))
    return f"{job['entry']} {v['kind']} '{v['label']}' with {ins}"[:600]


def main():
    import props
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = props.PROPS[prop]
    jobs = P["jobs"](tier)
    assert len({j["name"] for j in jobs}) == len(jobs), "job names are not unique"
    os.makedirs(TGT, exist_ok=True)
    lock = open(f"{TGT}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    work = f"{TGT}/work/{prop}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rdir = f"{V}/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(f"{rdir}/{prop}-*"):
        os.remove(f)
    feats = P["features"]
    with cf.ThreadPoolExecutor(3) as ex:
        fe, fs, fn = ex.submit(build_engine), ex.submit(build_sym, feats, f"{work}/m.ll"), ex.submit(build_native, feats)
        eng, mod, exe = fe.result(), fs.result(), fn.result()
    tb = time.time()
    st = subprocess.run([eng, "selftest", "400" if tier == "quick" else "20000", str(seed)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if st.returncode != 0:
        raise Broken("term layer self-test failed: " + st.stdout.decode(errors="replace"))
    with open(f"{work}/jobs", "w") as f:
        for j in jobs:
            f.write(f"{j['name']} {j['entry']} {j['secs']} {j['paths']} " + " ".join(f"{k}={v}" for k, v in j["params"].items()) + "\n")
    known = [k for k in known_findings() if k.startswith(f"property={prop} ")]
    par = int(os.environ.get("VERIF_JOBS", "8"))
    r = subprocess.run([eng, mod, f"{work}/jobs", f"{work}/out", "-j", str(par), "--mem", str(P.get("mem", 6000))] + ([] if known else ["--stop"]),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ts = time.time()
    log = r.stdout.decode(errors="replace")
    problems, viols, hits = [], [], []
    tot = dict(paths=0, insts=0, branches=0, forks=0, asserts=0, asserts_folded=0, asserts_z3=0, panics=0, infeasible=0)
    z = dict(queries=0, sat=0, unsat=0, unknown=0, secs=0.0)
    fns, reach, samples, perjob = set(), {}, [], []
    validated, todo = 0, []
    zver = ""
    for j in jobs:
        p = f"{work}/out/{j['name']}.json"
        if not os.path.exists(p):
            problems.append(f"job {j['name']} gave no result: {log[-300:]}")
            continue
        d = json.load(open(p))
        for k in tot:
            tot[k] += d[k]
        for k in z:
            z[k] += d["z3"][k]
        zver = d["z3"]["version"]
        fns.update(f for f in d["functions"] if "keride" in f)
        for k, v in d["reach"].items():
            reach[k] = reach.get(k, 0) + v
        for e in d["errors"]:
            problems.append(f"job {j['name']}: {e}")
        if not d["complete"]:
            problems.append(f"job {j['name']}: not explored to the end within its bounds ({d['paths']} paths, {d['wall_s']} s)")
        for lab in j["reach"]:
            if not d["reach"].get(lab):
                problems.append(f"job {j['name']}: no execution reaches '{lab}'")
        perjob.append({"job": j["name"], "entry": j["entry"], "params": {k: v for k, v in j["params"].items() if not k.startswith("_")},
                       "paths": d["paths"], "asserts": d["asserts"], "z3_queries": d["z3"]["queries"], "wall_s": d["wall_s"], "complete": d["complete"]})
        for i, v in enumerate(d["violations"]):
            todo.append((j, v, f"{rdir}/{prop}-{j['name']}-{i}.txt", True))
        for i, s in enumerate(d["samples"]):
            todo.append((j, s, f"{work}/s-{j['name']}-{i}.txt", False))

    def one(t):
        j, v, path, isv = t
        replay_file(path, j["entry"], j["params"], v["inputs"])
        return t, native(exe, path)

    with cf.ThreadPoolExecutor(8) as ex:
        for (j, v, path, isv), (kind, obs, msg) in ex.map(one, todo):
            if isv:
                if kind == v["kind"] or (v["kind"] == "panic" and kind in ("panic", "crash", "HANG")):
                    what = short(j, v)
                    k = [x for x in known if x.split(" | ")[0].split(" ", 1)[1] in what]
                    (hits if k else viols).append((what, msg, path, k))
                else:
                    problems.append(f"counterexample did not reproduce natively ({kind} {msg}): {short(j, v)}")
            else:
                want = [(n, h) for n, h in v["observed"]]
                if kind != v["outcome"]:
                    problems.append(f"sampled path of {j['name']} ends '{v['outcome']}' symbolically but '{kind} {msg}' natively ({path})")
                elif [(n, h) for n, h in obs] != want:
                    problems.append(f"sampled path of {j['name']} observes different bytes natively ({path})")
                else:
                    validated += 1
                    if len(samples) < 8:
                        samples.append({"job": j["name"], "outcome": kind, "inputs": [[n, h[:160]] for n, h in v["inputs"]][:12], "notes": v["notes"][:4]})
    seen = set()
    for what, msg, path, k in hits:
        for x in k:
            if x not in seen:
                seen.add(x)
                print(f"KNOWN-FINDING: {x}")
    labs = set()
    for what, msg, path, k in viols:
        lab = what.split(" with ")[0]
        if lab in labs:
            continue
        labs.add(lab)
        print(f"VIOLATION property={prop} replay={path} {what} [{msg}]")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["insts"], "traces_validated_against_impl": validated, "samples": samples,
            "what": "states = complete symbolic execution paths (each stands for every input value satisfying its path condition); transitions = IR instructions executed symbolically",
            "bounds": P["bounds"], "outside_bounds": P["outside"],
            "functions_encoded": sorted(fns), "functions_encoded_count": len(fns),
            "engine": tot, "solver": dict(z, version=zver, secs=round(z["secs"], 2)), "reach": reach, "jobs": perjob,
            "build_s": round(tb - t0, 1), "symbolic_execution_s": round(ts - tb, 1), "selftest": st.stdout.decode(errors="replace").strip(),
        },
        "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1), "violations": len(labs),
    }
    os.makedirs(f"{V}/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(jobs)} jobs, {tot['paths']} paths, {tot['asserts']} assertions, {z['queries']} solver queries "
          f"({z['secs']:.1f} s), {validated} sampled paths agree natively; build {tb - t0:.0f} s, execution {ts - tb:.0f} s")
    if labs:
        return 1
    if problems:
        for p in problems[:20]:
            print("ERROR", p)
        return 2
    if not validated:
        print("ERROR no path validated")
        return 2
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1:] == ["--setup"]:
            os.makedirs(TGT, exist_ok=True)
            print(sh([build_engine(), "selftest", "2000", "1"], V, env(), "self-test of the term layer"))
            sys.exit(0)
        rc = main()
    except Broken as e:
        print("ERROR", e)
        rc = 2
    sys.exit(rc)
