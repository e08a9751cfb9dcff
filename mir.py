"""Engine E: the library inside a simulated abstract machine. Miri interprets the real source; its seed
decides addresses, thread interleavings, which write a load sees and spurious failures, and the case."""
import hashlib, json, os, re, shutil, subprocess, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, "work")
CRATE = os.path.join(HERE, "mir")
REPLAYS = os.path.join(HERE, "replays")
X86, I686, S390 = "x86_64-unknown-linux-gnu", "i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"
TARGETS = {"C01": [X86, S390], "C02": [X86], "C04": [X86, I686], "C05": [I686], "C06": [I686], "C12": [S390]}
ALL = [X86, I686, S390]
CASES = {"C02": 3}
REAL = (
    "real: source of laby, laby_common, itoap, ryu, raw-cpuid and std as interpreted MIR, vector intrinsics included; "
    "stub: processor, memory, threads and weak memory order are Miri's seeded ones (x86-64, 32-bit x86, big-endian "
    "s390x), CPUID/XGETBV answers, allocator refusals, user callbacks"
)
BASE = ["-Zmiri-permissive-provenance", "-Zmiri-disable-stacked-borrows", "-Zmiri-disable-validation",
        "-Zmiri-deterministic-floats"]
# how hard the machine shakes
MOODS = [
    [],
    ["-Zmiri-preemption-rate=0.1", "-Zmiri-address-reuse-cross-thread-rate=0"],
    ["-Zmiri-preemption-rate=0.5", "-Zmiri-compare-exchange-weak-failure-rate=0.5"],
    ["-Zmiri-preemption-rate=0.002", "-Zmiri-address-reuse-rate=0"],
]
# what the machine objects to -> (class, properties it breaks)
MEM = ("C01", "C02", "C04", "C06", "C12")
TELLS = [
    (r"Data race detected", "data-race", ("C02",)),
    (r"pointer arithmetic", None, ()),
    (r"is unaligned|alignment", None, ()),
    (r"uninitialized|uninitialised", "heap-uninitialised", ("C04",)),
    (r"incorrect layout on deallocation|deallocating", "bad-free", ("C02", "C04", "C06")),
    (r"memory access failed|has been freed|is dangling|out-of-bounds|null pointer|not dereferenceable|no provenance",
     "heap-access", MEM),
    (r"memory leaked", "leak", ("C02", "C04", "C06")),
    (r"aborted execution|entering unreachable code", "crash", tuple(TARGETS)),
    (r"deadlock", "no-progress", ("C01", "C02", "C05", "C06", "C12")),
]


def env(home, target):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "LD_PRELOAD", "RUSTC_BOOTSTRAP", "MIRIFLAGS",
              "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET", "RUST_BACKTRACE"):
        e.pop(k, None)
    e.update(MIRI_SYSROOT=os.path.join(home, "sysroot-" + target), CARGO_TARGET_DIR=os.path.join(home, "target"),
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", MIRI_LIB_SRC=os.path.join(home, "library"))
    if not target.startswith("s390x"):
        e["RUSTFLAGS"] = "-Ctarget-feature=+avx2,+xsave"
    return e


class NoMachine(Exception):
    pass


def patch(lib):
    """The processor's identity comes from the simulator."""
    d = os.path.join(lib, "stdarch/crates/core_arch/src/x86")
    p = os.path.join(d, "cpuid.rs")
    s = open(p).read()
    i, j = s.index("    let eax;\n"), s.index("    CpuidResult { eax, ebx, ecx, edx }")
    s = s[:i] + """    unsafe extern "Rust" {
        fn sim_cpuid(leaf: u32, sub_leaf: u32) -> [u32; 4];
    }
    let [eax, ebx, ecx, edx] = unsafe { sim_cpuid(leaf, sub_leaf) };
""" + s[j:]
    open(p, "w").write(s)
    p = os.path.join(d, "xsave.rs")
    s = open(p).read()
    t = s.replace("    xgetbv(xcr_no) as u64", """    unsafe extern "Rust" {
        fn sim_xgetbv(v: u32) -> i64;
    }
    sim_xgetbv(xcr_no) as u64""")
    if s == t:
        raise ValueError("_xgetbv is not where it was")
    open(p, "w").write(t)


def machines(targets):
    """Build the machines' standard libraries, each once. Returns their home."""
    v = subprocess.run(["cargo", "+nightly", "-Vv"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if v.returncode or root.returncode:
        raise NoMachine("no nightly toolchain: " + v.stdout[-300:] + root.stderr[-300:])
    key = hashlib.sha1((v.stdout + open(os.path.abspath(__file__)).read().split("def patch")[1].split("def machines")[0]).encode()).hexdigest()[:12]
    home = os.path.join(WORK, "miri", key)
    os.makedirs(home, exist_ok=True)
    lib = os.path.join(home, "library")
    try:
        if not os.path.exists(os.path.join(home, "patched")):
            shutil.rmtree(lib, ignore_errors=True)
            shutil.copytree(os.path.join(root.stdout.strip(), "lib/rustlib/src/rust/library"), lib, symlinks=True)
            patch(lib)
            open(os.path.join(home, "patched"), "w").close()
    except (OSError, ValueError) as e:
        raise NoMachine("cannot prepare the library source: %s" % e)
    out = {}

    def one(t):
        mark = os.path.join(home, "sysroot-%s.done" % t)
        if os.path.exists(mark):
            return
        e = env(home, t)
        e.pop("RUSTFLAGS", None)
        e.pop("CARGO_TARGET_DIR", None)
        r = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", t, "--offline"], env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            out[t] = r.stdout[-1500:]
        else:
            open(mark, "w").close()

    ts = [threading.Thread(target=one, args=(t,)) for t in targets]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return home, out


def run_machine(home, target, args, flags, timeout):
    e = env(home, target)
    e["MIRIFLAGS"] = " ".join(BASE + flags)
    try:
        r = subprocess.run(["cargo", "+nightly", "miri", "run", "--release", "--offline", "--locked", "-q", "--target", target, "--"] + args,
                           cwd=CRATE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")


def judge(prop, code, text):
    """(class, message) of a violation of this property, ("foreign", message) or None."""
    if code == 0:
        return None
    m = re.search(r"^@violation (\S+) (.*)$", text, re.M)
    if m:
        return m.group(1), m.group(2)
    m = re.search(r"^error: (?!aborting|process didn't|test failed)(.*)$", text, re.M)
    if not m:
        return "foreign", "ended with %s" % code
    if "unsupported operation" in m.group(1) or "compiler unexpectedly panicked" in text:
        return "foreign", m.group(1)
    what = m.group(1)
    at = []
    for l in re.findall(r"(?:-->|at) (\S*laby\S*\.rs:\d+)", text[m.start():]):
        l = re.sub(r".*/(laby)", r"\1", l)
        if l not in at:
            at.append(l)
    where = " at " + ", ".join(at[:3]) if at else ""
    for rx, cls, props in TELLS:
        if re.search(rx, what):
            if cls and prop in props:
                return cls, what[:300] + where
            return "foreign", what[:300] + where
    return "foreign", what[:300] + where


def arg(text):
    return text.replace("\\", "\\b").replace("|", "\\p").replace("\n", "|")


def fails(home, prop, target, text, flags, cls, seeds):
    """A seed for which the history fails in the same way."""
    for s in seeds:
        code, out = run_machine(home, target, ["replay", arg(text)], flags + ["-Zmiri-seed=%d" % s], 60)
        j = judge(prop, code, out) if code is not None else None
        if j and j[0] == cls:
            return s, j
    return None


def split(text):
    head, cases = [], []
    cur = None
    for l in text.splitlines():
        if l.startswith("case "):
            cur = []
            cases.append(cur)
        (head if cur is None else cur).append(l)
    return head, cases


def join(head, cases):
    return "\n".join(head + [l for c in cases for l in c]) + "\n"


def minimise(home, prop, target, text, flags, cls, seed):
    """Fewer cases, then fewer operations and faults, then shorter text; each step must fail in the same way."""
    end = time.time() + 100
    tries = [seed] if prop != "C02" else [seed, seed + 1, seed + 2, seed + 3]
    best = (text, seed)

    def attempt(head, cases):
        nonlocal best
        if time.time() > end:
            return False
        t = join(head, cases)
        r = fails(home, prop, target, t, flags, cls, tries)
        if r:
            best = (t, r[0])
            return True
        return False

    head, cases = split(text)
    if len(cases) > 1 and attempt(head, cases[-1:]):
        cases = cases[-1:]
    for k in range(len(cases) - 1, -1, -1):
        n = max(1, (len(cases[k]) - 2) // 2)
        while n:
            i = 1
            while i < len(cases[k]) - 1 and time.time() < end:
                j = min(i + n, len(cases[k]) - 1)
                if all(x.startswith(("op ", "fault ", "cfg hops")) for x in cases[k][i:j]):
                    c = cases[k][:i] + cases[k][j:]
                    if attempt(head, cases[:k] + [c] + cases[k + 1:]):
                        cases[k] = c
                        continue
                i = j
            n //= 2
    return best


def run(engine, prop, tier, seed, budget):
    t0 = time.time()
    targets = TARGETS[prop] if tier == "quick" else ALL
    note = {}
    try:
        home, note = machines(targets)
    except NoMachine as e:
        home, targets, note = None, [], {"all": str(e)}
    targets = [t for t in targets if t not in note]
    res = {"evaluations": 0, "distinct": 0, "states": 0, "search_s": 0.0, "samples": [], "faults": {},
           "detail": {"seed": seed, "not_run": note, "targets": targets, "machine_seeds": 0, "foreign": 0, "foreign_kinds": {},
                      "repeat_identical": None, "build_s": round(time.time() - t0, 1), "flags": BASE},
           "real_and_stub": REAL, "violations": []}
    hashes, states = set(), set()
    n = CASES.get(prop, 4)
    base = seed * 1000000 % 4000000000
    limit = {"quick": 45, "thorough": budget}[tier]
    start = time.time()
    rounds = 0
    first = {}
    while targets and time.time() - start < limit and not res["violations"]:
        t = targets[rounds % len(targets)]
        mood = MOODS[rounds // len(targets) % len(MOODS)] if prop == "C02" else MOODS[rounds // len(targets) % 2]
        lo = base + rounds * 64
        per = 16 if rounds < len(targets) else 48
        flags = mood + ["-Zmiri-many-seeds=%d..%d" % (lo, lo + per), "-Zmiri-many-seeds-keep-going"]
        code, out = run_machine(home, t, [prop, str(n)], flags, 600)
        rounds += 1
        ran = re.findall(r"^@ran (\S+) (\S+) (\d)$", out, re.M)
        if not ran and code not in (0, None) and "Trying seed" not in out:
            # the library does not build for this machine, or the machine does not start
            note[t] = out[-600:]
            targets = [x for x in targets if x != t]
            continue
        res["detail"]["machine_seeds"] += out.count("Trying seed")
        res["evaluations"] += len(ran)
        for h, s, f in ran:
            hashes.add((t, h))
            states.add((t, s))
            res["detail"]["foreign"] += int(f)
        for l in re.findall(r"^@counts (.*)$", out, re.M):
            for kv in l.split():
                k, v = kv.split("=")
                res["faults"][k] = res["faults"].get(k, 0) + int(v)
        first.setdefault(t, (flags, sorted(ran)))
        if code in (0, None):
            continue
        bad = sorted({int(x) for x in re.findall(r"[Ss]eed:? (\d+) (?:failed|exited)", out)} | {int(x) for x in re.findall(r"FAILING SEED: (\d+)", out)})
        for s in bad[:6]:
            one = mood + ["-Zmiri-seed=%d" % s]
            code, out = run_machine(home, t, [prop, str(n), "print"], one, 120)
            j = judge(prop, code, out) if code is not None else None
            if j is None:
                continue
            if j[0] == "foreign":
                res["detail"]["foreign"] += 1
                k = res["detail"]["foreign_kinds"]
                k[j[1][:120]] = k.get(j[1][:120], 0) + 1
                continue
            res["violations"].append(settle(home, prop, t, s, n, mood, j, out, seed))
            break
    res["search_s"] = time.time() - start
    res["distinct"], res["states"] = len(hashes), len(states)
    if targets and tier == "quick" and first and not res["violations"]:
        t, (flags, ran) = sorted(first.items())[0]
        code, out = run_machine(home, t, [prop, str(n)], flags, 120)
        res["detail"]["repeat_identical"] = sorted(re.findall(r"^@ran (\S+) (\S+) (\d)$", out, re.M)) == ran
    res["detail"]["targets"] = targets
    return res


def settle(home, prop, target, s, n, mood, j, out, seed):
    """Turn a failing seed into a replay file."""
    cls, msg = j
    heads, text = None, ""
    for l in re.findall(r"^@case (.*)$", out, re.M):
        head, cases = split(l.replace("|", "\n").replace("\\p", "|").replace("\\b", "\\"))
        if heads is None:
            heads = head
        text = join(heads, (split(text)[1] if text else []) + cases)
    mode, ms = "generate", s
    if text:
        r = fails(home, prop, target, text, mood, cls, range(s, s + (16 if prop == "C02" else 1)))
        if r:
            mode = "replay"
            text, ms = minimise(home, prop, target, text, mood, cls, r[0])
            again = fails(home, prop, target, text, mood, cls, [ms])
            msg = again[1][1] if again else msg
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-mir-%d.replay" % (prop, seed))
    with open(path, "w") as f:
        f.write("laby-mir-replay 1\nmir-property %s\nmir-target %s\nmir-seed %d\nmir-flags %s\nmir-mode %s %d\nmir-class %s\n# %s\n%s"
                % (prop, target, ms, " ".join(mood), mode, n, cls, msg.replace("\n", " "), text))
    return {"class": cls, "msg": "on %s: %s" % (target.split("-")[0], msg), "replay": path}


def replay(path):
    t = open(path).read()
    f = {k: v for k, v in re.findall(r"^mir-(\w+) ?(.*)$", t, re.M)}
    prop, target, flags = f["property"], f["target"], f["flags"].split() + ["-Zmiri-seed=" + f["seed"]]
    try:
        home, note = machines([target])
    except NoMachine as e:
        note = {target: str(e)}
    if note:
        print("cannot build the machine: %s" % note)
        return 2
    mode, n = f["mode"].split()
    body = "\n".join(l for l in t.splitlines() if not l.startswith(("mir-", "laby-mir", "#"))) + "\n"
    code, out = run_machine(home, target, ["replay", arg(body)] if mode == "replay" else [prop, n], flags, 600)
    j = judge(prop, code, out)
    if j and j[0] != "foreign":
        print("%s: %s" % j)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no violation%s" % (": " + j[1] if j else ""))
    return 0
