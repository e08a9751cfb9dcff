"""Engine F: the library on simulated machines without operating system and standard library. Miri interprets the
real source for targets that have only core and alloc; its seed decides addresses and, through them, the histories."""
import glob, hashlib, json, os, re, shutil, subprocess, time
import mir

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, "work")
REPLAYS = os.path.join(HERE, "replays")
# 32 bit, 32 bit big endian, 64 bit
TARGETS = ["thumbv7em-none-eabihf", "armebv7r-none-eabi", "aarch64-unknown-none"]
FLAGS = mir.BASE + ["-Zmiri-ignore-leaks"]
REAL = ("real: source of laby, laby_common, itoap (without its default features), ryu, core and alloc as interpreted "
        "MIR, laby_macros; stub: processor and memory are Miri's seeded ones, the allocator hands out its memory, "
        "the panic handler reports")


def crate(root, own_itoap):
    """A copy of the crate; with its own itoap, which does not ask for std."""
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "bare"), root, ignore=shutil.ignore_patterns("target"))
    if not own_itoap:
        return
    m = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1", "--manifest-path", root + "/Cargo.toml"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if m.returncode:
        raise mir.NoMachine("cargo metadata: " + m.stderr[-500:])
    p = [p for p in json.loads(m.stdout)["packages"] if p["name"] == "itoap"]
    if not p:
        return
    shutil.copytree(os.path.dirname(p[0]["manifest_path"]), root + "/itoap", ignore=shutil.ignore_patterns(".cargo*"))
    t = open(root + "/itoap/Cargo.toml").read()
    t = re.sub(r"^default = .*$", "default = []", t, flags=re.M)
    t = re.sub(r"^\[dev-dependencies.*?(?=^\[(?!dev-dep))", "", t, flags=re.M | re.S)
    open(root + "/itoap/Cargo.toml", "w").write(t)
    with open(root + "/Cargo.toml", "a") as f:
        f.write("\n[patch.crates-io]\nitoap = { path = \"itoap\" }\n")


def start(home, root, target, decl, args, flags, timeout):
    e = mir.env(home, target)
    e.pop("RUSTFLAGS", None)
    e["MIRIFLAGS"] = " ".join(FLAGS + flags)
    e["CARGO_TARGET_DIR"] = os.path.join(home, "target-bare")
    cmd = ["cargo", "+nightly", "miri", "run", "--release", "--offline", "-q", "--target", target]
    if decl:
        cmd += ["--features", "decl_macro"]
    try:
        r = subprocess.run(cmd + ["--"] + args, cwd=root, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")


def unbuilt(text):
    """Why it does not build, and in which crate."""
    m = re.search(r"^error(?:\[E\d+\])?: (.*)$", text, re.M)
    c = re.search(r"could not compile `([^`]*)`", text)
    if not m or not c:
        return None
    return "%s, in %s" % (m.group(1), c.group(1))


def judge(code, text):
    if code == 0:
        return None
    m = re.search(r"^@violation (\S+) (.*)$", text, re.M)
    if m:
        return m.group(1), m.group(2)
    m = re.search(r"^error: (?!aborting|process didn't|test failed)(.*)$", text, re.M)
    if m:
        for rx, cls, _ in mir.TELLS:
            if re.search(rx, m.group(1)) and cls:
                return cls, m.group(1)[:300]
    return "foreign", m.group(1)[:300] if m else "ended with %s" % code


def path(name):
    os.makedirs(REPLAYS, exist_ok=True)
    return os.path.join(REPLAYS, name)


def save(name, target, decl, own, cls, msg, seed="", keep=""):
    p = path(name)
    with open(p, "w") as f:
        f.write("laby-bare-replay 1\nbare-target %s\nbare-decl %d\nbare-own %d\nbare-class %s\nbare-history %s\nbare-steps %s\n# %s\n"
                % (target, decl, own, cls, seed, keep, msg.replace("\n", " ")))
    return p


def run(engine, prop, tier, seed, budget):
    t0 = time.time()
    res = {"evaluations": 0, "distinct": 0, "states": 0, "search_s": 0.0, "samples": [], "faults": {},
           "detail": {"seed": seed, "not_run": {}, "machine_seeds": 0, "foreign": 0, "repeat_identical": None},
           "real_and_stub": REAL, "violations": []}
    targets = TARGETS if tier != "quick" else TARGETS[:2]
    plain, patched = os.path.join(WORK, "bare-plain"), os.path.join(WORK, "bare-own")
    try:
        home, note = mir.machines(targets)
        crate(plain, False)
        crate(patched, True)
    except (mir.NoMachine, OSError) as e:
        res["detail"]["not_run"] = {"all": str(e)}
        return res
    res["detail"]["not_run"] = note
    targets = [t for t in targets if t not in note]
    worlds = [(t, d) for i, t in enumerate(targets) for d in ((1, 0), (0, 1))[i % 2]]
    if targets:
        # as it is
        t = targets[0]
        code, out = start(home, plain, t, 0, ["0"], [], 600)
        why = unbuilt(out)
        if why:
            msg = "the library does not build for %s: %s" % (t, why)
            res["violations"].append({"class": "does-not-build", "msg": msg,
                                      "replay": save("%s-bare-build-%d.replay" % (prop, seed), t, 0, 0, "does-not-build", msg)})
    start_s = time.time()
    limit = 30 if tier == "quick" else max(60, budget - (start_s - t0))
    base = seed * 1000000 % 4000000000
    hashes, k, first = set(), 0, None
    while worlds and time.time() - start_s < limit:
        t, decl = worlds[k % len(worlds)]
        lo = base + k * 64
        per = 16 if k < len(worlds) else 48
        k += 1
        flags = ["-Zmiri-many-seeds=%d..%d" % (lo, lo + per), "-Zmiri-many-seeds-keep-going"]
        code, out = start(home, patched, t, decl, ["6"], flags, 600)
        ran = re.findall(r"^@ran (\S+) (\S+) 0$", out, re.M)
        first = first or (t, decl, flags, sorted(ran))
        why = unbuilt(out) if code and not ran and "Trying seed" not in out else None
        if why:
            msg = "the library does not build for %s%s, even with dependencies that do: %s" % (t, " with decl_macro" if decl else "", why)
            res["violations"].append({"class": "does-not-build", "msg": msg,
                                      "replay": save("%s-bare-%d.replay" % (prop, seed), t, decl, 1, "does-not-build", msg)})
            break
        res["detail"]["machine_seeds"] += out.count("Trying seed")
        res["evaluations"] += len(ran)
        res["states"] += sum(int(n, 16) for _, n in ran)
        hashes |= {(t, decl, h) for h, _ in ran}
        if code in (0, None):
            continue
        bad = sorted({int(x) for x in re.findall(r"[Ss]eed:? (\d+) (?:failed|exited)", out)} | {int(x) for x in re.findall(r"FAILING SEED: (\d+)", out)})
        v = None
        for s in bad[:4]:
            code, out = start(home, patched, t, decl, ["6"], ["-Zmiri-seed=%d" % s], 120)
            j = judge(code, out) if code is not None else None
            if j and j[0] != "foreign":
                v = settle(home, patched, t, decl, out, j, prop, seed)
                break
            if j:
                res["detail"]["foreign"] += 1
        if v:
            res["violations"].append(v)
            break
    res["search_s"] = time.time() - start_s
    res["distinct"] = len(hashes)
    if first and tier == "quick":
        t, decl, flags, ran = first
        code, out = start(home, patched, t, decl, ["6"], flags, 600)
        res["detail"]["repeat_identical"] = sorted(re.findall(r"^@ran (\S+) (\S+) 0$", out, re.M)) == ran
    res["detail"]["worlds"] = ["%s%s" % (t, " decl_macro" if d else "") for t, d in worlds]
    return res


def settle(home, root, t, decl, out, j, prop, seed):
    """The history that fails, with as few steps as still fail in the same way."""
    cls, msg = j
    begun = re.findall(r"^@history (\S+) (\d+)$", out, re.M)
    h, n = begun[-1] if begun else ("0", 0)
    keep = list(range(int(n)))

    def fails(k):
        code, out = start(home, root, t, decl, ["0", h, ",".join(map(str, k)) + ","], ["-Zmiri-seed=0"], 60)
        x = judge(code, out) if code is not None else None
        return x if x and x[0] == cls else None

    end = time.time() + 60
    best = fails(keep)
    if best:
        size = max(1, len(keep) // 2)
        while size and time.time() < end:
            i = 0
            while i < len(keep) and time.time() < end:
                c = keep[:i] + keep[i + size:]
                f = fails(c)
                if f:
                    keep, best = c, f
                else:
                    i += size
            size //= 2
        msg = best[1]
    msg = "on %s%s: %s" % (t, " with decl_macro" if decl else "", msg)
    return {"class": cls, "msg": msg, "replay": save("%s-bare-%d.replay" % (prop, seed), t, decl, 1, cls, msg, h, ",".join(map(str, keep)) + ",")}


def replay(p):
    f = {k: v for k, v in re.findall(r"^bare-(\w+) ?(.*)$", open(p).read(), re.M)}
    root = os.path.join(WORK, "bare-replay")
    try:
        home, note = mir.machines([f["target"]])
        crate(root, f["own"] == "1")
    except mir.NoMachine as e:
        note = {f["target"]: str(e)}
    if note:
        print("cannot build the machine: %s" % note)
        return 2
    args = ["0"] if not f["history"] else ["0", f["history"], f["steps"]]
    code, out = start(home, root, f["target"], f["decl"] == "1", args, ["-Zmiri-seed=0"], 600)
    why = unbuilt(out) if code and "@history" not in out else None
    j = ("does-not-build", why) if why else judge(code, out)
    if j and j[0] == f["class"]:
        print("%s: %s" % j)
        print("VIOLATION property=C19 replay=%s" % p)
        return 1
    print("no violation%s" % (": %s" % (j,) if j else ""))
    return 0
