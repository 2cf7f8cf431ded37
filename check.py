#!/usr/bin/env python3
"""Runs the model checking machinery for one property.

usage: check.py ID              run the check (VERIF_TIER=quick|thorough)
       check.py replay FILE     re-execute one recorded counterexample
"""
import json, os, re, shutil, signal, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(ROOT, "target")
REPO = "/repo"
SLOT = 4096
SHARE = 1

# variant -> how a harness binary is built
VARIANTS = {
    "json": dict(crate="json"),
    "json-speedups": dict(crate="json", features="speedups"),
    "drv": dict(crate="drv"),
    "types": dict(crate="types"),
    "prim": dict(crate="prim"),
    "state": dict(crate="state"),
    "wrap": dict(crate="wrap"),
    "trace": dict(crate="trace"),
    "drv-asan": dict(crate="drv", features="asan", asan=True),
}

# generated harnesses, see mc/derive_gen.py
GENERATED = ["gen-decl", "gen-flat", "gen-names"]

# property -> variants that together decide it
CHECKS = {
    "C01": ["json"],
    "C02": ["json"],
    "C03": ["json", "json-speedups"],
    "C04": ["json", "json-speedups"],
    "C05": ["prim"],
    "C06": ["types"],
    "C07": ["gen-decl", "gen-flat"],
    "C08": ["gen-decl", "gen-flat"],
    "C09": ["gen-names"],
    "C10": ["drv"],
    "C11": ["drv"],
    "C12": ["drv"],
    "C13": ["drv"],
    "C14": ["drv"],
    "C15": ["drv", "drv-asan"],
    "C16": ["drv", "drv-asan"],
    "C17": ["trace"],
    "C18": ["trace"],
    "C19": ["trace"],
    "C20": ["trace"],
    "C21": ["trace"],
    "C22": ["state"],
    "C23": ["wrap"],
    "C24": ["types"],
    "C25": ["gen-decl", "gen-flat"],
    "C26": ["types"],
    "C27": ["gen-flat"],
    "C28": ["prim"],
    "C30": ["prim"],
    "C29": ["gen-reject"],
}

sys.path.insert(0, os.path.join(ROOT, "mc"))


def env_for(v):
    e = dict(os.environ)
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_NET_OFFLINE"] = "true"
    flags = "-Awarnings"
    if v.get("asan"):
        flags += " -Zsanitizer=address"
    e["RUSTFLAGS"] = flags
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return e


def build(name):
    v = VARIANTS[name]
    crate = os.path.join(ROOT, "mc", v["crate"])
    tdir = os.path.join(TARGET, name)
    cmd = ["cargo"]
    if v.get("asan"):
        cmd.append("+nightly")
    cmd += ["build", "--release", "--offline", "-q", "--manifest-path", os.path.join(crate, "Cargo.toml"), "--target-dir", tdir]
    out = os.path.join(tdir, "release", v["crate"])
    if v.get("asan"):
        # an explicit target keeps build scripts and proc macros uninstrumented
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        out = os.path.join(tdir, "x86_64-unknown-linux-gnu", "release", v["crate"])
    if v.get("features"):
        cmd += ["--features", v["features"]]
    t = time.time()
    r = subprocess.run(cmd, env=env_for(v), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("ERROR: cannot build harness %s" % name)
        sys.exit(2)
    print("built %s in %.1fs" % (name, time.time() - t), flush=True)
    return out


def run_env(v):
    e = dict(os.environ)
    # seconds for all variants of a check together
    e["VERIF_BUDGET"] = str((2400 if os.environ.get("VERIF_TIER") == "thorough" else 560) // SHARE)
    if v.get("asan"):
        e["MC_NO_RLIMIT"] = "1"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=1:hard_rss_limit_mb=12000:detect_stack_use_after_return=0"
    return e


def single(binary, v, prop, section, choices, timeout=90):
    """Runs one recorded execution alone. Returns (failed, text)."""
    cmd = [binary, prop, os.devnull, "--replay", section, ",".join(map(str, choices))]
    try:
        r = subprocess.run(cmd, env=run_env(v), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "does not terminate within %ds" % timeout
    text = r.stdout.decode("utf-8", "replace")
    if r.returncode == 0:
        return False, text
    if r.returncode == 1:
        return True, text
    err = r.stderr.decode("utf-8", "replace")
    m = re.search(r"(AddressSanitizer: \S+)", err)
    what = "killed by signal %d" % -r.returncode if r.returncode < 0 else "exit code %d" % r.returncode
    if m:
        what = m.group(1) + " (" + what + ")"
    if r.returncode == 2:
        return None, err
    return True, text + what + "\n" + err[-3000:]


def empty(violations, notes=()):
    return dict(states=0, transitions=0, executions=0, capped=True, wall=0.0, notes=list(notes), sections=[], violations=violations)


def refused(name, msgs):
    """Declarations that have to compile do not."""
    return empty([dict(section="declarations", choices=[], key="", variant=name, msg="does not compile: " + m) for m in msgs[:10]])


def run_variant(prop, name, workdir):
    if name == "gen-reject":
        import derive_gen
        res = derive_gen.check_reject()
        for x in res["violations"]:
            x["variant"] = name
        return res
    if name in GENERATED:
        import derive_gen
        v = {}
        try:
            binary = derive_gen.build_variant(name)
        except derive_gen.Refused as e:
            return refused(name, e.msgs)
    else:
        v = VARIANTS[name]
        binary = build(name)
    out = os.path.join(workdir, name + ".json")
    slots = os.path.join(workdir, name + ".slots")
    r = subprocess.run([binary, prop, out, "--slots", slots], env=run_env(v), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    err = r.stderr.decode("utf-8", "replace")
    print(r.stdout.decode("utf-8", "replace")[-3000:], end="")
    print(err[-6000:], end="", flush=True)
    if r.returncode in (0, 1) and os.path.exists(out):
        res = json.load(open(out))
        for x in res["violations"]:
            x["variant"] = name
        return res
    # the process died: find the executions that were running and re-run them alone
    print("harness %s ended with %s, looking for the execution" % (name, r.returncode), flush=True)
    names = open(slots + ".names").read().split("\n") if os.path.exists(slots + ".names") else []
    data = open(slots, "rb").read()
    found = []
    for t in range(len(data) // SLOT):
        active, sec, n = struct.unpack_from("<III", data, t * SLOT)
        if not active:
            continue
        choices = list(struct.unpack_from("<%dI" % n, data, t * SLOT + 12))
        section = names[sec]
        failed, text = single(binary, v, prop, section, choices)
        if failed:
            found.append(dict(section=section, choices=choices, key="", variant=name,
                              msg="process died: " + text.strip()[-1500:]))
            if len(found) >= 3:
                break
    if not found:
        print("ERROR: harness %s died (%s) and the failure does not reproduce" % (name, r.returncode))
        sys.exit(2)
    return empty(found, ["process died"])


def findings():
    known = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def finish(prop, results, t0):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = findings()
    bad, hit = [], []
    for name, res in results:
        for x in res["violations"]:
            k = [f for f in known if f[0] == prop and x.get("key") and f[1] == x["key"]]
            if k:
                if k[0] not in hit:
                    hit.append(k[0])
            else:
                bad.append(x)
    samples = []
    sections = []
    for name, res in results:
        for s in res["sections"]:
            sections.append(dict(harness=name, name=s["name"], bounds=s["bounds"], executions=s["executions"],
                                 states=s["states"], transitions=s["transitions"], completed=not s["capped"],
                                 outcomes=s["outcomes"], wall_s=s["wall"]))
            for t in s["samples"][:3]:
                samples.append("%s/%s: %s" % (name, s["name"], t))
    capped = [s["name"] for s in sections if not s["completed"]]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(r["states"] for _, r in results),
            transitions=sum(r["transitions"] for _, r in results),
            traces_validated_against_impl=sum(r["executions"] for _, r in results),
            samples=samples[:60],
            sections=sections,
            exhaustive=not capped and all(not r["capped"] for _, r in results),
            sections_cut_short=capped,
            rule="every execution is one complete choice sequence run on the real code and compared step by step with the reference model; states are distinct reference model states, counted per harness",
        ),
        assumptions=["bounds per section as listed", "reference models in /verif/mc", "rustc, std and the host"],
        wall_s=round(time.time() - t0, 2),
        violations=len(bad),
    )
    notes = [n for _, r in results for n in r["notes"]]
    if notes:
        ev["coverage"]["notes"] = notes
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for p, key, what in hit:
        print("KNOWN-FINDING: property=%s %s" % (p, what))
    if bad:
        rdir = os.path.join(ROOT, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, x in enumerate(bad[:5]):
            path = os.path.join(rdir, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, **x), f, indent=1, ensure_ascii=False)
                f.write("\n")
            print("  [%s %s] %s" % (x["variant"], x["section"], x["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    c = ev["coverage"]
    print("OK property=%s states=%d transitions=%d executions=%d wall=%.1fs%s" % (
        prop, c["states"], c["transitions"], c["traces_validated_against_impl"], ev["wall_s"],
        "" if c["exhaustive"] else " (sections cut short: %s)" % ", ".join(capped)))
    sys.exit(0)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        x = json.load(open(sys.argv[2]))
        os.environ["VERIF_TIER"] = x.get("tier", "quick")
        if x["variant"] == "gen-reject":
            import derive_gen
            bad = derive_gen.check_reject(x["case"])["violations"]
            print("\n".join(y["msg"] for y in bad) or "judged as expected")
            sys.exit(1 if bad else 0)
        if x["variant"] in GENERATED:
            import derive_gen
            try:
                binary, v = derive_gen.build_variant(x["variant"]), {}
            except derive_gen.Refused as e:
                print("\n".join(e.msgs[:10]))
                sys.exit(1)
            if x["section"] == "declarations":
                print("all declarations compile")
                sys.exit(0)
        else:
            binary, v = build(x["variant"]), VARIANTS[x["variant"]]
        failed, text = single(binary, v, x["property"], x["section"], x["choices"])
        print(text)
        sys.exit(1 if failed else 0)
    if sys.argv[1] == "setup":
        # only shows that the toolchain works, every check builds what it needs
        build("json")
        return
    global SHARE
    prop = sys.argv[1]
    SHARE = len(CHECKS[prop])
    t0 = time.time()
    work = os.path.join(TARGET, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    try:
        results = []
        for name in CHECKS[prop]:
            results.append((name, run_variant(prop, name, work)))
        finish(prop, results, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
