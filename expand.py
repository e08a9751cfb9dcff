"""Engine D: the compiler as the system under test. rustc and the procedural macros in it run in a simulated world
(entropy, clocks, process identity, address layout, environment, directory, what is expanded before), and the code
every template expands to is compared with the code it expands to in the first world."""
import ctypes, hashlib, json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import gen

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, "work")
REPLAYS = os.path.join(HERE, "replays")
PROGRAMS = {"quick": 360, "thorough": 720}
WORLDS = {"quick": 420, "thorough": 4000}
GROUP = 60
REAL = ("real: rustc's macro expansion, laby_macros with syn, quote and proc-macro2 as compiled. stub: the compiler's "
        "entropy (getrandom), clocks, process id, address layout, environment variables, directory and the order and "
        "company in which templates are expanded")
LIBC = ctypes.CDLL(None)


def trouble(m):
    import check
    return check.Trouble(m)


class Compiler:
    def __init__(self):
        import check
        self.ext = {}
        r = subprocess.run(["cargo", "build", "--offline", "--release", "--locked", "--message-format=json"],
                           cwd=os.path.join(HERE, "tmpl"), env=check.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise trouble("build of tmpl failed:\n" + r.stderr[-4000:])
        for l in r.stdout.splitlines():
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("laby", "tmpl"):
                for f in m["filenames"]:
                    if f.endswith(".rlib"):
                        self.ext[m["target"]["name"]] = f
        self.deps = os.path.join(check.TARGET, "release", "deps")
        self.rustc = subprocess.run(["rustc", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip() + "/bin/rustc"
        self.shim = os.path.join(WORK, "shim.so")
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", self.shim, os.path.join(HERE, "expand", "shim.c")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise trouble("shim: " + r.stdout)

    def expand(self, d, progs, world):
        """`progs`: texts in order. -> (their expansions in the same order, counters); d is a directory of its own."""
        sub = os.path.join(d, *world["dir"])
        os.makedirs(sub, exist_ok=True)
        t = "#![allow(warnings)]\n"
        for i, p in enumerate(progs):
            if world["pad"] and not any(m.group(0).startswith(QUOTES) and "\n" in m.group(0) for m in TOKEN.finditer(p)):
                p = "\n" * (world["pad"] % 5) + "".join(" " * world["pad"] + l for l in p.splitlines(True))
            t += "mod sim_%d {\n%s}\n" % (i, p)
        src = os.path.join(sub, "lib.rs")
        open(src, "w").write(t)
        # what a macro would look at to learn what laby is called here
        open(os.path.join(sub, "Cargo.toml"), "w").write('[package]\nname = "%s"\n[dependencies]\nhtml = { package = "laby", version = "*" }\n' % world["crate"])
        rep = os.path.join(d, "report")
        if os.path.exists(rep):
            os.remove(rep)
        e = {"PATH": "/usr/bin:/bin", "RUSTC_BOOTSTRAP": "1", "LD_PRELOAD": self.shim, "SIM_REPORT": rep,
             "SIM_WORLD": ",".join(str(x) for x in world["shim"])}
        e.update(world["env"])
        cmd = [self.rustc, "--edition", "2024", "--crate-type", "lib", "--crate-name", world["crate"], src if world["abs"] else "lib.rs",
               "-Zunpretty=expanded", "-L", "dependency=" + self.deps]
        for n, f in sorted(self.ext.items()):
            cmd += ["--extern", "%s=%s" % (n, f)]
        if world["cross"]:
            cmd += ["-Zproc-macro-execution-strategy=cross-thread"]
        # addresses are the world's to decide
        r = subprocess.run(cmd, cwd=sub, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           preexec_fn=lambda: LIBC.personality(0x0040000))
        parts = re.split(r"^mod sim_(\d+) \{\n", r.stdout, flags=re.M)
        if r.returncode or len(parts) != 1 + 2 * len(progs):
            return None, (r.stderr or r.stdout)[-3000:]
        out = [None] * len(progs)
        for n, b in zip(parts[1::2], parts[2::2]):
            b = b[:b.rindex("\n}")]
            out[int(n)] = tokens(b)
        cnt = [int(x) for x in open(rep).read().split()] if os.path.exists(rep) else [0] * 6
        return out, cnt


QUOTES = ('"', "b\"", "r\"", "r#", "br", "'", "b'", "c\"")
TOKEN = re.compile(r"""(b?r(#*)".*?"\2|b?"(?:[^"\\]|\\.)*"|b?'(?:[^'\\]|\\.[^']*)')|\w+|\s+|.""", re.S)


def tokens(t):
    """The code without its layout, a token per line. (Where the pretty printer breaks lines depends on what came before.)"""
    o = [m.group(0) for m in TOKEN.finditer(t) if not m.group(0).isspace()]
    # nor is it the template's doing whether the last entry on a broken line gets a comma
    return "\n".join(x for x, y in zip(o, o[1:] + [""]) if x != "," or y != "}")


FIRST = {"shim": [1, 0, 0, 1000000000, 1000, 4242, 0, 0, 4], "env": {}, "dir": [], "crate": "exp", "abs": 0, "cross": 0, "pad": 0}


def draw(r):
    """A world."""
    env = {}
    for k, vs in (("HOME", ["/nonexistent", "/h"]), ("USER", ["u", "root"]), ("TZ", ["UTC", "Asia/Tokyo"]), ("LANG", ["C", "tr_TR.UTF-8"]),
                  ("HOSTNAME", ["a", "b"]), ("CARGO_PKG_NAME", ["x", "y"]), ("CARGO_MANIFEST_DIR", ["/x", "."]), ("OUT_DIR", ["/o1", "/o2"]),
                  ("NOISE", ["n" * r.randrange(5000)])):
        if r.random() < .4:
            env[k] = r.choice(vs)
    return {
        "shim": [r.getrandbits(63), int(r.random() < .3), r.choice([0, 0, 1, 3]), r.choice([0, 1, 1 << 31, 1 << 33, r.randrange(1 << 32)]),
                 r.choice([0, 1, 1000, 10**9, 86400 * 10**9, -10**6]), r.randrange(2, 1 << 22), r.choice([0, 1, r.randrange(1 << 20), r.randrange(1 << 26)]),
                 int(r.random() < .4), r.choice([1, 2, 4, 64])],
        "env": env, "dir": r.sample(["a", "bc", "déf", "x y"], r.randrange(3)), "crate": r.choice(["exp", "other", "z9"]),
        "abs": int(r.random() < .5), "cross": int(r.random() < .3), "pad": r.choice([0, 0, 1, 7, 120]),
    }


def company(r, n):
    """Which of n programs are expanded, in which order, some of them again."""
    k = r.choice([1, 2, n // 3, n, n, n])
    o = r.sample(range(n), max(1, k))
    if r.random() < .5:
        o += [r.choice(o) for _ in range(r.choice([1, 3, 10]))]
    if r.random() < .2:
        o.sort(reverse=True)
    return o


def digest(t):
    return hashlib.sha1(t.encode()).hexdigest()


def body(p):
    return gen.source(p).replace("#![allow(warnings)]\n", "")


def first_difference(a, b):
    x, y = a.splitlines(), b.splitlines()
    for i in range(max(len(x), len(y))):
        p, q = (x[i].strip() if i < len(x) else ""), (y[i].strip() if i < len(y) else "")
        if p != q:
            return "after `%s` it reads `%s` and `%s`" % (" ".join(x[max(0, i - 6):i]), " ".join(x[i:i + 8]), " ".join(y[i:i + 8]))
    return "the same"


def run(engine, prop, tier, seed, budget):
    t0 = time.time()
    c = Compiler()
    root = os.path.join(WORK, "expand")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    os.makedirs(REPLAYS, exist_ok=True)
    progs = gen.programs(prop, seed, PROGRAMS[tier])
    texts = [body(p) for p in progs]
    groups = [list(range(k, min(k + GROUP, len(progs)))) for k in range(0, len(progs), GROUP)]
    base = {}
    totals = [0] * 6

    def one(job):
        k, g, world, order = job
        d = os.path.join(root, "w%d" % k)
        got = c.expand(d, [texts[g[i]] for i in order], world)
        shutil.rmtree(d, ignore_errors=True)
        return job, got

    pool = ThreadPoolExecutor(max_workers=8)
    t1 = time.time()
    for job, (got, cnt) in pool.map(one, [(k, g, FIRST, range(len(g))) for k, g in enumerate(groups)]):
        if got is None:
            raise trouble("templates do not expand:\n" + str(cnt))
        for i, t in zip(job[3], got):
            base[job[1][i]] = t
    evals, distinct, worlds, viol, digests, states = len(base), set(), 0, [], [], set()
    jobs = []
    for k in range(WORLDS[tier]):
        r = random.Random("world/%s/%d/%d" % (prop, seed, k))
        g = groups[k % len(groups)]
        jobs.append((100 + k, g, draw(r), company(r, len(g))))
    bad = None
    cut = False
    for at in range(0, len(jobs), 64):
        if time.time() - t0 > budget:
            cut = True
            break
        for job, (got, cnt) in pool.map(one, jobs[at:at + 64]):
            if got is None:
                raise trouble("templates do not expand in another world:\n" + str(cnt))
            worlds += 1
            totals = [a + b for a, b in zip(totals, cnt)]
            digests.append(digest("".join(got)))
            w = digest(json.dumps([job[2], list(job[3])]))
            states.add(w)
            for n, (i, t) in enumerate(zip(job[3], got)):
                evals += 1
                distinct.add((digest(texts[job[1][i]]), w, n))
                if t != base[job[1][i]] and bad is None:
                    bad = (job, n)
        if bad:
            break
    # the same worlds again: what happens in a world is repeatable
    same = True
    for job, (got, cnt) in pool.map(one, jobs[:16]):
        if got is not None and job[0] - 100 < len(digests):
            same &= digest("".join(got)) == digests[job[0] - 100]
    if bad:
        (k, g, world, order), n = bad
        viol.append(settle(c, prop, seed, [progs[g[i]] for i in range(len(g))], world, list(order), n, tier))
    shutil.rmtree(root, ignore_errors=True)
    sec = time.time() - t1
    return {
        "evaluations": evals, "distinct": len(distinct), "states": len(states), "search_s": sec,
        "samples": ["world %s, templates in the order %s" % (json.dumps(j[2]), list(j[3])[:20]) for j in jobs[:2]],
        "faults": {"compilations": worlds + len(groups), "expansions_compared": evals, "entropy_requests_served": totals[0],
                   "short_entropy_reads": totals[1], "interrupted_entropy_reads": totals[2], "clock_readings_served": totals[3],
                   "process_ids_served": totals[4], "environment_variables_invented": totals[5], "reordered_or_partial_compilations": worlds},
        "detail": {"seed": seed, "worlds": worlds, "templates": len(progs), "repeat_identical": same, "cut_short": cut,
                   "digest": digest("".join(digests))[:16]},
        "real_and_stub": REAL, "violations": viol,
    }


def settle(c, prop, seed, progs, world, order, n, tier):
    """Make the two worlds, their company and the template smaller."""
    end = time.time() + (60 if tier == "quick" else 200)
    root = os.path.join(WORK, "expand", "shrink")
    k = order[n]

    def differ(progs, a_order, a, b_order, b, at, b_at):
        x, cx = c.expand(root + "a", [body(progs[i]) for i in a_order], a)
        y, cy = c.expand(root + "b", [body(progs[i]) for i in b_order], b)
        if x is None or y is None or time.time() > end:
            return None
        return first_difference(x[at], y[b_at]) if x[at] != y[b_at] else None

    a, a_order, at = FIRST, list(range(len(progs))), k
    msg = differ(progs, a_order, a, order, world, at, n)
    cls = "expansion-differs"
    if msg is None:
        cls, msg = "expansion-differs", "a template expanded otherwise in another world, though not when both were repeated"
    else:
        m = differ(progs, [k], a, order, world, 0, n)
        if m:
            a_order, at, msg = [k], 0, m
        m = differ(progs, a_order, a, [k], world, at, 0)
        if m:
            order, n, msg = [k], 0, m
        # company of either
        for which in (0, 1):
            chunk = 32
            while chunk:
                i = 0
                cur = [order, a_order][which]
                while i < len(cur):
                    pos = [n, at][which]
                    cut = [j for j in range(len(cur)) if not (i <= j < i + chunk) or j == pos]
                    if len(cut) == len(cur):
                        i += chunk
                        continue
                    new, p2 = [cur[j] for j in cut], cut.index(pos)
                    m = differ(progs, a_order, a, new, world, at, p2) if which == 0 else differ(progs, new, a, order, world, p2, n)
                    if m:
                        msg = m
                        cur = new
                        if which == 0:
                            order, n = new, p2
                        else:
                            a_order, at = new, p2
                    else:
                        i += chunk
                chunk //= 2
        for key in list(world):
            for idx in range(len(world[key])) if key == "shim" else [None]:
                w = json.loads(json.dumps(world))
                if idx is None:
                    w[key] = FIRST[key]
                else:
                    w[key][idx] = FIRST[key][idx]
                if w != world:
                    m = differ(progs, a_order, a, order, w, at, n)
                    if m:
                        world, msg = w, m
        while time.time() < end:
            for cand in gen.reductions(progs[k])[:150]:
                p2 = list(progs)
                p2[k] = gen.fix9999(cand)
                m = differ(p2, a_order, a, order, world, at, n)
                if m:
                    progs, msg = p2, m
                    break
                if time.time() > end:
                    break
            else:
                break
    path = os.path.join(REPLAYS, "%s-%d.gen" % (prop, seed))
    used = sorted(set(order) | set(a_order))
    rec = {"programs": [progs[i] for i in used], "a": a, "a_order": [used.index(i) for i in a_order], "a_at": at,
           "b": world, "b_order": [used.index(i) for i in order], "b_at": n}
    with open(path, "w") as f:
        f.write("laby-expand-replay 1\nproperty %s\nviolation %s: %s\nworlds %s\n" % (prop, cls, msg, json.dumps(rec)))
        f.write("".join("# " + l + "\n" for l in body(progs[k]).splitlines()))
    return {"class": cls, "msg": "the same template expands to different code: " + msg, "replay": path}


def replay(path):
    rec = json.loads(re.search(r"^worlds (.*)$", open(path).read(), re.M).group(1))
    c = Compiler()
    root = os.path.join(WORK, "expand-replay")
    t = [body(p) for p in rec["programs"]]
    print(t[rec["a_order"][rec["a_at"]]])
    out = []
    for k in "ab":
        got, m = c.expand(root + k, [t[i] for i in rec[k + "_order"]], rec[k])
        shutil.rmtree(root + k, ignore_errors=True)
        if got is None:
            raise trouble(m)
        print("world %s: %s, templates %s" % (k, json.dumps(rec[k]), rec[k + "_order"]))
        out.append(got[rec[k + "_at"]])
    if out[0] == out[1]:
        print("no violation")
        return 0
    print("expansion-differs: " + first_difference(*out))
    return 1
