"""Engine G: the author of the templates as the faulty party. Mistakes are injected into generated templates, rustc and
the macros compile them in simulated worlds (as in Engine D), and every template with a mistake must be rejected."""
import hashlib, json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import gen
from expand import Compiler, FIRST, LIBC, REPLAYS, WORK, draw

PROGRAMS = {"quick": 480, "thorough": 1600}
WORLDS = {"quick": 2, "thorough": 6}
GROUP = 48
REAL = ("real: rustc up to metadata, laby_macros with syn, quote and proc-macro2 as compiled, laby's macros. stub: the "
        "author's source, and the compiler's entropy, clocks, process id, address layout, environment and directory")


# -- mistakes ----------------------------------------------------------------------------------------

def some_value(r, n):
    return r.choice([["s", n], ["p", n], ["n", n], ["lit", '"x"', "x"], ["lit", "7", "7"], ["lit", '""', ""], ["unit"], ["o", n],
                     ["frag", "d", "(", [["s", n]]], ["el", "d", "(", "span", 0, [], [["s", n]], "k", False],
                     ["same", "par", ["lit", '"x"', "x"]]])


def lhs(r):
    return r.choice(["id", "class", "_x", '"id"', "(\"a\")", "href"])


def mistakes(p, r):
    """[(kind, template with it)], one for every place and kind."""
    out = []
    n, live = 8000, set()

    def copy():
        return json.loads(json.dumps(p))

    def at(q, path):
        for i in path:
            q = q[i]
        return q

    def add(kind, path, change):
        q = copy()
        if change(at(q, path)) is not False:
            out.append((kind, q))

    def insert(v):
        def f(x):
            if x[0] == "call":
                # an argument
                x[3].insert(r.randint(0, len(x[3])), ["r", v])
                return
            i = 3 if x[0] in ("frag", "classes", "call") else 6
            j = r.randint(0, len(x[i]))
            x[i].insert(j, v)
            if x[0] == "el":
                m = [k for k, c in enumerate(x[7]) if c == "k"] + [len(x[7])]
                x[7] = x[7][:m[j]] + "k" + x[7][m[j]:]
        return f

    def walk(x, path):
        if not isinstance(x, list):
            return
        if x and isinstance(x[0], str):
            k = x[0]
            if k == "el" and x[4]:
                add("child in a void element", path, insert(some_value(r, n)))
            if k in ("el", "frag", "classes", "call"):
                name = ['bool!(true) = "x"', 'bool![b_(8001, 0)] = "x"']
                kid = ["bool!(true)", "bool![b_(8001, 0)]", "{ bool!(true) }"]
                add("boolean attribute out of place", path, insert(["wrong", r.choice(name if k == "el" and x[4] else kid + name if k == "el" else kid)]))
            if k in ("el", "frag", "classes") and not (k == "el" and x[4]) or k == "call" and any(q[1] == "rest" for q in p["comps"][x[1]][1]):
                # what is compiled conditionally is, at best, there regardless
                v = r.choice([some_value(r, n), ["el", "d", "(", "span", 0, [], [["s", n]], "k", False], ["frag", "d", "(", [["s", n]]], ["el", "d", "(", "br", 1, [], [], "", False]])
                add("child under an attribute", path, insert(["wrong", r.choice(["#[cfg(any())]", "#[cfg(not(all()))]", "#[cfg_attr(all(), cfg(any()))]"]) + " %s", v]))
            if k == "el":
                off = "#[cfg(any())] "
                add("attribute under an attribute", path, insert(r.choice([["wrong", off + lhs(r) + " = %s", some_value(r, n)], ["wrong", lhs(r) + " = " + off + "%s", some_value(r, n)],
                    ["wrong", lhs(r) + " = " + off + r.choice(["bool!(b_(8001, 0))", "bool!(true)"])], ["wrong", off + lhs(r) + " = bool!(true)"]])))
                add("boolean attribute of no boolean", path, insert(r.choice([["wrong", lhs(r) + " = bool!(%s)", r.choice([["s", n], ["lit", "1", "1"], ["lit", '"true"', "x"], ["unit"]])],
                    ["wrong", lhs(r) + " = bool!()"], ["wrong", lhs(r) + " = bool!(true, true)"], ["wrong", lhs(r) + " = bool!(b_(8001, 0) true)"]])))
            if k in ("frag", "classes"):
                # the several arguments of render! are no fragment's
                if not (p["multi"] and path == ["root"]):
                    add("attribute in a fragment", path, insert(["wrong", lhs(r) + " = %s", some_value(r, n)]))
                    if r.random() < .3:
                        add("boolean attribute in a fragment", path, insert(["wrong", lhs(r) + " = bool!(%s)", ["lit", "true", "true"]]))
            if k == "match" and r.random() < .3 or k == "if" and r.random() < .3:
                def nonsense(y):
                    y[:] = ["wrong", r.choice(["frag_match!(%s)", "frag_match!({ %s })", "frag_match!(match 1 { _ => 2 } %s)", "frag_match!(while true { %s })"]), ["s", n]]
                add("no match or if", path, nonsense)
            if k == "call":
                params = p["comps"][x[1]][1]
                names = [q[0] for q in params]
                v = some_value(r, n)
                bad = r.choice(["nosuch", "_", "x0", "Data"] + [q + "_" for q in names] + [q.upper() for q in names])
                if bad not in names:
                    add("unknown argument", path, insert(["wrong", bad + " = %s", v]))
                for q in params:
                    if q[1] == "rest":
                        add("rest parameter by name", path, insert(["wrong", q[0] + " = %s", v]))
                    elif q[2] is None:
                        def drop(y, q=q):
                            y[3] = [a for a in y[3] if not (a[0] == "n" and a[1] == q[0])]
                        add("missing argument", path, drop)
                some = r.choice(names) if names else "a"
                form = r.choice(['"NAME" = %s', "NAME.x = %s", "NAME() = %s", "NAME::x = %s", "NAME[0] = %s", "*NAME = %s", "(NAME, _) = %s"])
                add("malformed argument", path, insert(["wrong", form.replace("NAME", some), v]))
                if not any(q[1] == "rest" for q in params):
                    add("argument without a name", path, lambda y, v=v: y[3].insert(r.randint(0, len(y[3])), ["r", v]))
        if x and x[0] == "call":
            live.add(x[1])
            # a superseded argument is not part of the template
            for i, a in enumerate(x[3]):
                if a[0] != "n" or not any(b[0] == "n" and b[1] == a[1] for b in x[3][i + 1:]):
                    walk(a, path + [3, i])
            return
        for i in range(len(x)):
            if isinstance(x[i], list):
                walk(x[i], path + [i])

    walk(p["root"], ["root"])
    for c in range(len(p["comps"])):
        walk(p["comps"][c][2], ["comps", c, 2])
    for c in range(len(p["comps"])):
        called = c in live
        if called and any(q[1] == "rest" for q in p["comps"][c][1]):
            add("second rest parameter", ["comps", c, 1], lambda y: y.insert(r.randint(0, len(y)), ["more_", "rest", None, None]))
        if called:
            add("parameter without a name", ["comps", c, 1], lambda y: y.insert(r.randint(0, len(y)), [r.choice(["(_a, _b): (P, P)", "_: P", "[_a]: [P; 1]"]), "wrong", None, None]))
        add("component that is no function", ["comps", c, 3], lambda y: y.update(args="]\n%s\n#[laby" % r.choice(["pub struct W;", "pub const W: u8 = 1;", "pub mod w {}", "pub use laby::div as w;"])))
        add("attribute with arguments", ["comps", c, 3], lambda y: y.update(args=r.choice(["(x)", "(default)", "(name = \"y\")"])))
    return out


def body(p):
    return gen.source(p).replace("#![allow(warnings)]\n", "")


# -- compiling ---------------------------------------------------------------------------------------

def rejected(c, d, texts, world):
    """Which of the programs have an error of their own: dict number -> message; and whether all of it compiled."""
    sub = os.path.join(d, *world["dir"])
    os.makedirs(sub, exist_ok=True)
    t, starts = "#![allow(warnings)]\n", []
    for i, p in enumerate(texts):
        starts.append(t.count("\n") + 1)
        t += "mod sim_%d {\n%s}\n" % (i, p)
    starts.append(t.count("\n") + 1)
    open(os.path.join(sub, "lib.rs"), "w").write(t)
    e = {"PATH": "/usr/bin:/bin", "RUSTC_BOOTSTRAP": "1", "LD_PRELOAD": c.shim, "SIM_REPORT": os.path.join(d, "report"),
         "SIM_WORLD": ",".join(str(x) for x in world["shim"])}
    e.update(world["env"])
    cmd = [c.rustc, "--edition", "2021", "--crate-type", "lib", "--crate-name", world["crate"], "lib.rs", "--emit=metadata",
           "-o", os.path.join(d, "out.rmeta"), "--error-format=json", "-L", "dependency=" + c.deps]
    for n, f in sorted(c.ext.items()):
        cmd += ["--extern", "%s=%s" % (n, f)]
    if world["cross"]:
        cmd += ["-Zproc-macro-execution-strategy=cross-thread"]
    r = subprocess.run(cmd, cwd=sub, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       preexec_fn=lambda: LIBC.personality(0x0040000))
    who = {}
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") not in ("error", "error: internal compiler error"):
            continue
        lines = set()

        def spans(s):
            if s["file_name"].endswith("lib.rs") and not s["file_name"].startswith("/"):
                lines.add(s["line_start"])
            if s.get("expansion"):
                spans(s["expansion"]["span"])
        for s in m["spans"] + [s for k in m.get("children", []) for s in k["spans"]]:
            spans(s)
        for n in lines:
            i = max(k for k in range(len(starts)) if starts[k] <= n)
            who.setdefault(i, m["message"])
    return who, r.returncode == 0, r.stderr


def accepted(c, d, texts, world):
    """Which programs are accepted: those without an error once those with one are gone."""
    left, errors = list(range(len(texts))), {}
    while left:
        who, ok, err = rejected(c, d, [texts[i] for i in left], world)
        if ok:
            return left, errors
        if not who:
            import check
            raise check.Trouble("errors that belong to no template:\n" + err[-2000:])
        errors.update({left[i]: m for i, m in who.items()})
        left = [i for k, i in enumerate(left) if k not in who]
    return left, errors


def run(engine, prop, tier, seed, budget):
    t0 = time.time()
    c = Compiler()
    root = os.path.join(WORK, "author")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    os.makedirs(REPLAYS, exist_ok=True)
    progs = gen.programs(prop, seed, PROGRAMS[tier])
    cases, kinds = [], {}
    for i, p in enumerate(progs):
        r = random.Random("author/%s/%d/%d" % (prop, seed, i))
        m = mistakes(p, r)
        # one of every kind the template has room for
        by = {}
        for k, q in m:
            by.setdefault(k, []).append(q)
        for k in sorted(by):
            cases.append((i, k, r.choice(by[k])))
            kinds[k] = kinds.get(k, 0) + 1
    texts = [body(q) for _, _, q in cases]

    def one(job):
        k, g, world = job
        d = os.path.join(root, "w%d" % k)
        a, errs = accepted(c, d, [texts[i] for i in g], world)
        shutil.rmtree(d, ignore_errors=True)
        return job, a, errs

    jobs = []
    for w in range(WORLDS[tier]):
        # order and company of expansion differ from world to world
        deal = list(range(len(cases)))
        random.Random("deal/%d/%d" % (seed, w)).shuffle(deal)
        for g in [deal[k:k + GROUP] for k in range(0, len(deal), GROUP)]:
            r = random.Random("author-world/%d/%d" % (seed, len(jobs)))
            jobs.append((len(jobs), g, FIRST if w == 0 else draw(r)))
    pool = ThreadPoolExecutor(max_workers=8)
    t1 = time.time()
    evals, states, said, bad, digests, worlds, cut = 0, set(), {}, None, [], 0, False
    seen = set()
    for at in range(0, len(jobs), 32):
        if time.time() - t0 > budget:
            cut = True
            break
        for job, a, errs in pool.map(one, jobs[at:at + 32]):
            worlds += 1
            w = hashlib.sha1(json.dumps(job[2]).encode()).hexdigest()
            evals += len(job[1])
            seen |= {(w, hashlib.sha1(texts[i].encode()).hexdigest()) for i in job[1]}
            states.add(w)
            digests.append(hashlib.sha1(json.dumps([a, sorted(errs.items())]).encode()).hexdigest())
            for m in errs.values():
                m = re.sub(r"`[^`]*`|: .*", "", m)
                said[m] = said.get(m, 0) + 1
            for i in a:
                if bad is None or len(texts[job[1][i]]) < len(texts[bad[0]]):
                    bad = (job[1][i], job[2])
        if bad:
            break
    same = True
    for job, a, errs in pool.map(one, jobs[:8]):
        same &= hashlib.sha1(json.dumps([a, sorted(errs.items())]).encode()).hexdigest() == digests[job[0]]
    # the templates without the mistakes
    used = sorted({i for i, _, _ in cases})
    good = [[body(progs[i]) for i in used[k:k + GROUP]] for k in range(0, len(used), GROUP)]
    ok = sum(len(a) for a, _ in pool.map(lambda j: accepted(c, os.path.join(root, "g%d" % j[0]), j[1], FIRST), list(enumerate(good))[:4 if tier == "quick" else None]))
    viol = []
    if bad:
        viol.append(settle(c, root, prop, seed, progs[cases[bad[0]][0]], cases[bad[0]][1], cases[bad[0]][2], bad[1]))
    shutil.rmtree(root, ignore_errors=True)
    return {
        "evaluations": evals, "distinct": len(seen), "states": len(states), "search_s": time.time() - t1,
        "samples": ["%s:\n%s" % (cases[i][1], texts[i]) for i in range(min(3, len(cases)))],
        "faults": dict({"compilations": worlds}, **{k.replace(" ", "_"): n for k, n in kinds.items()}),
        "detail": {"seed": seed, "templates": len(progs), "mistakes": len(cases), "worlds": worlds, "repeat_identical": same, "cut_short": cut,
                   "accepted_without_mistakes": ok, "messages": dict(sorted(said.items(), key=lambda x: -x[1])[:20])},
        "real_and_stub": REAL, "violations": viol,
    }


def settle(c, root, prop, seed, p, kind, bad, world):
    """The smallest template with such a mistake that is still accepted."""
    end = time.time() + 30
    d = os.path.join(root, "shrink")
    if accepted(c, d, [body(bad)], FIRST)[0]:
        world = FIRST
    while time.time() < end:
        found = None
        cand = []
        for q in gen.reductions(p)[:80]:
            q = gen.fix9999(q)
            r = random.Random("shrink")
            cand += [(q, m) for k, m in mistakes(q, r) if k == kind][:2]
        for at in range(0, len(cand), 40):
            part = cand[at:at + 40]
            a, _ = accepted(c, d, [body(m) for _, m in part], world)
            if a:
                found = part[a[0]]
                break
            if time.time() > end:
                break
        if not found:
            break
        p, bad = found
    path = os.path.join(REPLAYS, "%s-%d.author" % (prop, seed))
    text = body(bad)
    with open(path, "w") as f:
        f.write("laby-author-replay 1\nproperty %s\nmistake %s\nworld %s\nsource\n%s" % (prop, kind, json.dumps(world), text))
    return {"class": "misuse-accepted", "msg": "%s: accepted: %s" % (kind, " ".join(text.split())[:600]), "replay": path}


def replay(path):
    t = open(path).read()
    kind = re.search(r"^mistake (.*)$", t, re.M).group(1)
    world = json.loads(re.search(r"^world (.*)$", t, re.M).group(1))
    text = t[t.index("\nsource\n") + 8:]
    print(text)
    root = os.path.join(WORK, "author-replay")
    c = Compiler()
    a, errs = accepted(c, root, [text], world)
    shutil.rmtree(root, ignore_errors=True)
    if a:
        print("misuse-accepted: " + kind)
        print("VIOLATION property=%s replay=%s" % (re.search(r"^property (\S+)", t, re.M).group(1), path))
        return 1
    print("rejected: %s" % errs[0])
    return 0
