"""Engine C: random template programs, compiled with the real macros and run in the simulator."""
import hashlib, json, os, random, re, shutil, struct, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, "work")
REPLAYS = os.path.join(HERE, "replays")

NORMAL = """a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data
datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header
hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option
output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary
sup table tbody td template textarea tfoot th thead time title tr u ul var video""".split()
VOID = "area base br col embed hr img input link meta param source track wbr".split()

ATTR_IDENT = "id href class title lang dir name value src alt rel x t1 buffer self_ enabled data r#type r#for r#async r#id".split()
ATTR_LIT = [('"data-x"', "data-x"), ('"aria-label"', "aria-label"), ('"http-equiv"', "http-equiv"), ('"@click"', "@click"),
            ('"a<b"', "a&lt;b"), ('"x&\\"y"', "x&amp;&quot;y"), ("'c'", "c"), ('("type")', "type"), ('{ "for" }', "for"),
            ('"é漢"', "é漢"), ('r"q\'"', "q&#39;")]

# in a format string, and as an argument of one
PIECES = [("x", "x"), ("<", "&lt;"), ("&'", "&amp;&#39;"), ("{{", "{"), ("a > b & \"c\"", "a &gt; b &amp; &quot;c&quot;"), ("<script>alert('1')</script>", "&lt;script&gt;alert(&#39;1&#39;)&lt;/script&gt;"), ("}} é漢", "} é漢")]
ARGS = [('"<"', "&lt;"), ("'&'", "&amp;"), ("7", "7"), ("true", "true"), ("1.5", "1.5"), ('"\'quoted\' text of some length"', "&#39;quoted&#39; text of some length"), ("-3", "-3"), ('"plain"', "plain")]
# literals that mean the same wherever they stand: (token, rendered)
LIT_ANY = [('"plain"', "plain"), ('""', ""), ('"a<b>&\'\\"c"', "a&lt;b&gt;&amp;&#39;&quot;c"), ('r#"raw "q" <"#', "raw &quot;q&quot; &lt;"),
           ('"\\u{e9}\\n\\t漢😀"', "\u00e9\n\t漢😀"), ("'x'", "x"), ("'<'", "&lt;"), ("'\\''", "&#39;"), ("'\\u{10ffff}'", "\U0010ffff"),
           ("0", "0"), ("42", "42"), ("2147483647", "2147483647"), ("255u8", "255"), ("1_000u16", "1000"), ("0xffi64", "255"),
           ("0b1010", "10"), ("0o17", "15"), ("18446744073709551615u64", "18446744073709551615"),
           ("340282366920938463463374607431768211455u128", "340282366920938463463374607431768211455"),
             ("7usize", "7"), ("5isize", "5"), ("00042", "42"), ("0x1F32", "7986"), ("0xffu8", "255"), ("0o7_7", "63"), ("'\\\"'", "&quot;"), ("'>'", "&gt;"),
           ("'&'", "&amp;"), ('"\\x41\\\\"', "A\\"), ('r"\\n<"', "\\n&lt;"), ('"two\nlines >"', "two\nlines &gt;"), ('"con\\\n     tinued"', "continued"),
           ("1_000.5", "1000.5"), ("1E3f32", "1000.0"), ("1e100", "1e100"), ("0.00001", "0.00001"), ("0.", "0.0"), ("b'\\''", "39"), ("b'<'", "60"),
           ('"it\'s \\"quoted\\""', "it&#39;s &quot;quoted&quot;"),
           ("1.5", "1.5"), ("0.1", "0.1"), ("2.50", "2.5"), ("1e3", "1000.0"), ("1e16", "1e16"), ("1.5e300", "1.5e300"),
           ("1e-7", "1e-7"), ("0.0", "0.0"), ("3.0f64", "3.0"), ("1.5f32", "1.5"), ("0.1f32", "0.1"), ("1_0.5", "10.5"),
           ("true", "true"), ("false", "false"), ("b'a'", "97"), ("b'\\xff'", "255"),
           ("5f64", "5.0"), ("16777217f32", "16777216.0"), ("0.30000001192092896f32", "0.3"), ("1f32", "1.0"), ("123456789.0f32", "123456790.0"),
           ('"sixteen bytes!!!"', "sixteen bytes!!!"), ('"a text of thirty-two or so bytes < & done"', "a text of thirty-two or so bytes &lt; &amp; done")]
# only literals can be written like this
LIT_MACRO = [("3000000000", "3000000000"), ("99999999999999999999999999", "99999999999999999999999999"),
             ('("par<en")', "par&lt;en"), ('{ "block&" }', "block&amp;"), ('(("deep"))', "deep"), ("(5)", "5"), ("{ 'q' }", "q"), ("{ (1) }", "1"), ("({ 2.50 })", "2.5"), ('{{ "<<" }}', "&lt;&lt;"), ("(b'a')", "97"), ("(true)", "true")]
# constant expressions that are not literals
EXPRS = [("-5", "-5"), ("-1.5", "-1.5"), ("-0.0", "-0.0"), ("(1 + 2)", "3"), ("KSTR", "k&lt;&amp;&gt;"), ("::core::stringify!(a)", "a"),
         ("::core::concat!(\"a\", '<', 1)", "a&lt;1"), ("::core::option::Option::Some(\"s&\")", "s&amp;"), ("i128::MIN", str(-2**127)),
         ("&\"amp&\"[..]", "amp&amp;"), ("f64::NAN", "NaN"), ("-f32::INFINITY", "-inf"), ("!false", "true"), ("0.3f32", "0.3"),
         ("DocType::HTML5", "<!DOCTYPE html>"), ("Some(Some(1u8))", "1"),
         ("-0", "0"), ("-0.0f32", "-0.0"), ("-128i8", "-128"), ("-(5)", "-5"), ("- -5", "5"), ("!0u8", "255"), ('{ "x"; }', ""), ("{ 5; }", ""), ("{ true; 'x'; }", ""),
         ('{ "x"; "y" }', "y"), ("{ let _ = 1; \"x<\" }", "x&lt;"), ("{}", ""), ("{ (); }", ""), ('unsafe { "u" }', "u"), ("'l: { break 'l \"b>\" }", "b&gt;"),
         ('loop { break "l" }', "l"), ('("a", "b").1', "b"), ('["a", "<"][1]', "&lt;"), ('"a&" as &str', "a&amp;"), ("1 as f64", "1.0"), ("60u8 as char", "&lt;"),
         ("0.1f32 as f64", "0.10000000149011612"), ('b"x"[0]', "120"), ("(|| \"c&\")()", "c&amp;"), ('match 1 { _ => "m" }', "m"),
         ('if let Some(x) = Some("q") { x } else { "" }', "q"), ("(5,).0", "5"), ('"abc".len() as u8', "3"), ("1 .max(2)", "2"), ("1 == 1", "true"), ("true && false", "false"),
         ("1 + 2 * 3", "7"), ("u8::MAX", "255"), ("char::MAX", "\U0010ffff"), ("f32::MAX", "3.4028235e38"), ("i64::MIN", str(-2**63)), ("'a'.to_ascii_uppercase()", "A"),
         ("{ #[allow(unused)] let x = 1; \"at\" }", "at"), ("Option::<u8>::None", ""), ("(\"tuple\", 1).0", "tuple"), ("if true { \"y\" } else { \"n\" }", "y")]

# conditions that are no variables: (source, what it is)
CONDS = [("!false", True), ("!true", False), ("(true)", True), ("(false)", False), ("({ false })", False), ("({ true })", True), ("true && false", False),
         ("false || true", True), ("1 < 2", True), ("(|| false)()", False), ("!(true)", False), ("KSTR.is_empty()", False), ("bool::default()", False),
         ("matches!(1, 1 | 2)", True), ("true == false", False), ("false == false", True)]

PARAM_NAMES = "a b title class buffer t1 value x children data item text enabled name T1 __variant_1 __variant_2 buf r#type r#for".split()
# how components are called, now and then
COMP_NAMES = "call T1 t1 buffer x _div __variant_1 r#match inner r#type P2 page_ div_ new render_ macro_ laby_ core_".split()

# what each property's programs are made of
FOCUS = {
    "C07": dict(kids=dict(p=5, s=4, o=2, c=2, n=2, b=1, w=0, g=1, lit=4, ex=1, raw=2, d=1, fa=1, el=8, frag=2, classes=1, iter=2, match=2, call=2, var=2, same=2, let=1, unit=1),
                attrs=(5, 2, 3)),
    "C08": dict(kids=dict(p=3, s=4, o=2, c=2, n=2, l=1, b=1, w=1, g=1, lit=7, ex=3, raw=2, d=1, fa=1, el=12, frag=3, classes=2, iter=1, match=1, call=1, var=2, same=4, let=2, unit=1),
                attrs=(6, 3, 2)),
    "C09": dict(kids=dict(p=9, s=2, o=3, n=1, d=2, lit=1, ex=1, unit=1, raw=1, fa=1, el=8, frag=2, classes=1, iter=1, match=1, call=3, var=3, same=4, let=2),
                attrs=(8, 2, 3)),
    "C10": dict(kids=dict(p=5, s=2, lit=2, el=3, frag=1, iter=9, match=1, var=1), attrs=(2, 1, 0), tags=["div", "span", "li"]),
    "C13": dict(kids=dict(unit=1, p=8, s=3, o=2, n=1, lit=2, ex=1, el=2, frag=1, call=9, var=12, same=3, let=1, iter=1, match=1), attrs=(2, 1, 0), tags=["div", "span"]),
    "C14": dict(kids=dict(p=8, s=2, o=2, lit=2, ex=1, el=2, frag=1, match=14, var=5, same=1, iter=1, unit=1), attrs=(2, 0, 0), tags=["div", "span"]),
    "C15": dict(kids=dict(p=3, s=1, lit=1, el=10), attrs=(3, 1, 9), tags=["div", "span", "input", "br", "option", "video"]),
    "C16": dict(kids=dict(p=4, s=2, o=1, n=1, lit=4, ex=2, raw=1, d=1, el=9, frag=2, classes=2, iter=2, match=4, call=7, var=8, same=2, let=1), attrs=(5, 2, 2)),
    "C17": dict(kids=dict(p=2, s=6, o=2, c=3, w=3, g=3, lit=2, raw=2, d=4, fa=3, el=6, frag=2, classes=3, iter=2, match=2, call=3, var=3, same=3, let=1),
                attrs=(7, 4, 2)),
}
# expressions that do more than have a value
FOCUS["C20"] = dict(kids=dict(p=6, s=2, o=2, g=1, n=1, d=1, lit=1, raw=1, el=7, frag=2, classes=1, iter=1, match=4, call=4, var=3, same=2, let=2, unit=1,
                              tq=3, tr=3, cnt=3, lref=2, aw=7, rr=3), attrs=(6, 3, 2))
CALLER = ("tq", "tr", "cnt", "lref", "aw", "awc", "awh", "calla")
FOCUS["C18"] = dict(FOCUS["C16"], kids=dict(FOCUS["C16"]["kids"], unit=1, fa=1))
FOCUS["C19"] = dict(FOCUS["C13"], kids=dict(FOCUS["C13"]["kids"], fa=1, raw=1, d=1, g=1, w=1, classes=1, el=3), attrs=(3, 1, 1))
# templates per round
COUNT = {"quick": 960, "thorough": 1600}
# how many of them are large in some way
LARGE = .08
DEEP = 50


# how a program is built: Macros 2.0?, where its components live
ENVS = [["", "here"], ["decl", "here"], ["decl", "path"], ["decl", "crate"]]


# where names of the standard library are taken at times
HOSTILE = "C07 C08 C09 C10 C13 C14 C15 C17 C20".split()


class Gen:
    def __init__(self, prop, seed, index, tags):
        self.key = "%s/%d/%d" % (prop, seed, index)
        self.r = random.Random(self.key)
        self.f = FOCUS[prop]
        self.prop = prop
        self.tags = tags
        self.next = 1
        self.comps = []
        self.pfx = "c%d_" % index
        self.pool, self.conds, self.closed = {}, [], []
        self.reuse = self.r.random() < .7
        self.q = random.Random("more/" + self.key)
        self.ed = random.Random("edition/" + self.key).choice(["2018", "2024", "2024", "2024"] + ["2021"] * 5)
        self.names = set()
        self.macros = 0
        self.chains = self.ed == "2024" and prop != "C18"
        self.rules = True
        # a function that is suspended, or one that is not
        self.task = ("async" if self.q.random() < .75 else "sync") if prop == "C20" else None
        self.loc = []

    def id(self):
        self.next += 1
        return self.next - 1

    def hole(self, k):
        """A hole: mostly a new one, at times one that is there already, so that the same tokens stand in several places."""
        have = self.pool.setdefault(k, [])
        if have and self.reuse and self.r.random() < (.25 if k == "b" else .12):
            return self.r.choice(have)
        i = self.id()
        have.append(i)
        return i

    def pick(self, w):
        ks = [k for k in w if w[k] > 0]
        return self.r.choices(ks, [w[k] for k in ks])[0]

    def tag(self):
        r = self.r
        if "tags" in self.f:
            t = r.choice(self.f["tags"])
        else:
            t = self.tags()
        return t, t in VOID

    # ctx: vars (list or None), fa, depth, ixs (nesting of iterators), lit: macro literals allowed
    def value(self, c, kinds=None):
        if self.reuse and self.closed and self.r.random() < .06:
            x, n = self.r.choice(self.closed)
            t = json.dumps(x)
            if n <= self.budget and not ('"iter"' in t and c["ix"]) and (c.get("top") or not any('"%s"' % k in t for k in CALLER)) and (kinds is None or x[0] in kinds) and (c["fa"] or '"fa"' not in t) and (c.get("tmp") or '"gb"' not in t) and (self.chains or '"chain"' not in t) and (self.rules or '"mr"' not in t) \
                    and (c["lit"] or x[0] != "lit" or x in [["lit"] + list(l) for l in LIT_ANY]):
                self.budget -= n
                return json.loads(t)
        b = self.budget
        x = self.value1(c, kinds)
        t = json.dumps(x)
        if len(t) < 300 and '"var"' not in t and '"let"' not in t:
            self.closed.append((x, b - self.budget))
        if x[0] in ("el", "frag", "classes", "call") and '"fa"' not in t and '"gb"' not in t and self.rules and self.macros < 3 and self.q.random() < .06:
            self.macros += 1
            return ["mr", self.q.randrange(4), x]
        return x

    def value1(self, c, kinds=None):
        r = self.r
        w = dict(kinds or self.f["kids"])
        if not c["vars"]:
            w.pop("var", None)
        if not c["fa"]:
            w.pop("fa", None)
        if c["ix"] >= 2:
            w.pop("iter", None)
        if not self.comps:
            w.pop("call", None)
        if not c.get("top"):
            for k in CALLER:
                w.pop(k, None)
        if self.task != "async":
            w.pop("aw", None)
        if c["depth"] <= 0 or self.budget <= 0:
            for k in ("el", "frag", "classes", "iter", "match", "call", "same", "let", "fa", "aw", "tr", "rr"):
                w.pop(k, None)
        if not any(w.values()):
            w = dict(p=1)
        self.budget -= 1
        k = self.pick(w)
        d = dict(c, depth=c["depth"] - 1)
        if k in ("p", "s", "o", "c", "n", "l", "b", "w", "g", "raw", "d"):
            if k in ("s", "g") and c.get("tmp") and self.q.random() < .2:
                # what borrows from a value that is dropped at the end of the statement
                return ["gb", self.hole("g"), self.q.randrange(3)]
            x = [k, self.hole(k)]
            if k in ("raw", "d") and self.task == "async" and c.get("top") and self.q.random() < .5:
                x.append(["awh", self.hole("aw")])
            return x
        if k == "rr":
            # a document of its own within
            vs = [["p", self.hole("p")]] + [self.value(dict(d, lit=False, fa=False, tmp=True)) for _ in range(self.q.choice([0, 0, 1, 2]))]
            return ["rr", self.q.randrange(3), vs]
        if k == "tq":
            return ["tq", self.hole("tq")]
        if k == "cnt":
            return ["cnt", self.hole("cnt")]
        if k == "lref":
            if not self.loc or r.random() < .4:
                self.loc.append(self.id())
            return ["lref", r.choice(self.loc)]
        if k == "tr":
            return ["tr", r.randrange(3), ["b", self.hole("b")], self.value(dict(d, lit=False, tmp=False))]
        if k == "aw":
            return ["aw", self.hole("aw"), self.value(dict(d, lit=False))]
        if k == "unit":
            return ["unit"]
        if k == "lit":
            return ["lit"] + list(r.choice(LIT_ANY + LIT_MACRO if c["lit"] else LIT_ANY))
        if k == "ex":
            return ["lit"] + list(r.choice(EXPRS))
        if k == "fa":
            parts = []
            for _ in range(r.randint(1, 3)):
                if r.random() < .5:
                    parts.append(["lit"] + list(r.choice([("x", "x"), ("<", "&lt;"), ("&'", "&amp;&#39;"), ("{{", "{")])))
                h = r.choice("snds")
                parts.append([h, self.hole(h)])
            q = self.q
            if q.random() < .15:
                # nothing but the program's own text
                parts = [["lit"] + list(q.choice(PIECES)) for _ in range(q.randint(1, 3))]
            elif q.random() < .25:
                parts.insert(q.randrange(len(parts) + 1), ["la"] + list(q.choice(ARGS)))
            for _ in range(q.choice([0, 0, 0, 1, 2])):
                at = [i for i, p in enumerate(parts) if p[0] not in ("lit", "rep")]
                if at:
                    # an argument once more
                    parts.append(["rep", q.choice(at)])
            return ["fa", parts]
        if k == "var":
            v = c["vars"].pop(r.randrange(len(c["vars"])))
            return ["var", v]
        if k == "el":
            return self.el(d)
        if k in ("frag", "classes"):
            kk = None
            if k == "classes":
                kk = dict(p=2, s=4, o=1, g=1, c=1, lit=4, n=1, match=1, var=1, classes=1, frag=1)
            return [k, r.choice("dddq"), r.choice("([{"), [self.value(dict(d, lit=True), kk) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]]
        if k == "same":
            st = r.choice(["blk", "par", "some", "pblk", "stm", "stm"])
            if st in ("blk", "pblk", "stm"):
                d = dict(d, fa=False, tmp=False)
            d["lit"] = False
            if st == "stm":
                h = self.hole("p")
                return ["stm", h, ["unit"] if r.random() < .2 else self.value(d)]
            return ["same", st, self.value(d)]
        if k == "let":
            v = r.choice(["x", "t1", "buffer", "tmp", "_div", "self_", "__variant_1", "__variant_2", "buf"]) + (r.choice(["", "_", "9"]))
            if v in self.scope or c["vars"] is None:
                return ["p", self.hole("p")]
            self.scope.add(v)
            e = dict(d, fa=False, lit=False, tmp=False)
            b = self.value(e)
            vs = c["vars"]
            vs.append(v)
            body = self.el(e)
            if v in vs:
                vs.remove(v)
            return ["let", v, b, body]
        if k == "iter":
            i = self.id()
            delim = r.choice([None, None, ["lit", '", "', ", "], ["lit", '"<br>"', "<br>"], ["lit", '""', ""], ["s", -1], ["lines"], ["lit", "String::from(\"<\")", "<"]])
            if delim and delim[0] == "s":
                delim = ["s", self.id()]
            body = self.value(dict(d, vars=None, fa=False, tmp=False, ix=c["ix"] + 1, lit=False, top=False))
            x = ["iter", i, delim, body]
            if self.task == "async" and c.get("top") and self.q.random() < .4:
                x.append(["awh", self.hole("aw")])
            return x
        if k == "match":
            return self.match(dict(d, fa=False, lit=False, tmp=False))
        if k == "call":
            return self.call(d)
        raise Exception(k)

    def cond(self, deep=2):
        if self.reuse and self.conds and self.r.random() < .15:
            x = self.r.choice(self.conds)
            if (deep or x[0] == "b") and (self.topnow or '"awc"' not in json.dumps(x)):
                return json.loads(json.dumps(x))
        x = self.cond1(deep)
        self.conds.append(x)
        return x

    def cond1(self, deep):
        r = self.r
        k = r.random()
        if self.topnow and deep and self.task == "async" and r.random() < .25:
            return ["awc", self.hole("aw"), self.cond(deep - 1)]
        if r.random() < .06:
            return ["const"] + list(r.choice(CONDS))
        if deep == 0 or k < .6:
            return ["b", self.hole("b")]
        if k < .72:
            return ["not", self.cond(deep - 1)]
        if k < .82:
            return ["and", self.cond(deep - 1), self.cond(deep - 1)]
        if k < .92:
            return ["or", self.cond(deep - 1), self.cond(deep - 1)]
        return ["eq", ["n", self.hole("n")], r.randint(0, 2)]

    def branches(self, c, n, extra=()):
        """Values of which only one is evaluated: all may use the same variables."""
        have = c["vars"]
        out, left = [], None
        for i in range(n):
            vs = None if have is None else list(have)
            e = (extra[i] if i < len(extra) else None) or []
            e = [e] if isinstance(e, str) else e
            if e:
                vs = (vs or []) + e
            out.append(self.value(dict(c, vars=vs)))
            if self.ed != "2024" and n > 1 and self.q.random() < .04:
                # never comes back
                if '"var"' not in json.dumps(out[-1]) or not vs:
                    out[-1] = ["never", self.id()]
            rest = set(vs or []) - set(e)
            left = rest if left is None else left & rest
        if have is not None:
            have[:] = [v for v in have if v in left]
        return out

    def fresh(self):
        v = "v%d" % self.id()
        if self.q.random() < .1:
            # what the macros may have named their own
            w = self.q.choice(["__variant_1", "__variant_2", "__variant_3", "buffer", "buf", "t2", "frag", "value"])
            if w not in self.scope:
                self.scope.add(w)
                return w
        return v

    def lets(self, deep=2):
        """A condition that binds on its way, and what it binds."""
        v = self.fresh()
        one = ["iflet", ["o", self.hole("o")], v]
        if not self.chains or self.q.random() < .2:
            return one, [v]
        parts, vs = [one], [v]
        for _ in range(self.q.randint(1, 2)):
            if self.q.random() < .3:
                vs.append(self.fresh())
                parts.append(["iflet", ["o", self.hole("o")], vs[-1]])
            else:
                parts.append(self.cond(deep - 1))
        self.q.shuffle(parts)
        return ["chain"] + parts, vs

    def guard(self):
        """What a guard asks, and what it binds."""
        if self.q.random() < .2:
            return self.lets(1)
        return self.cond(1), []

    def match(self, c):
        r = self.r
        self.topnow = c.get("top")
        if r.random() < .5:
            n = r.randint(1, 4)
            conds, extra = [], []
            for _ in range(n):
                if r.random() < .25:
                    x, vs = self.lets()
                    conds.append(x)
                    extra.append(vs)
                else:
                    conds.append(self.cond())
                    extra.append(None)
            els = r.random() < .6
            vs = self.branches(c, n + els, extra)
            return ["if", [[a, b] for a, b in zip(conds, vs)], vs[n] if els else None]
        if r.random() < .35:
            arms, extra = [], []
            pats = []
            while r.random() < .4 and len(pats) < 3:
                g, vs = self.guard()
                if r.random() < .6:
                    v = self.fresh()
                    pats.append((["some", v], g))
                    extra.append([v] + vs)
                else:
                    pats.append((["none"], g))
                    extra.append(vs)
            v = self.fresh()
            pats.append((["some", v], None))
            extra.append(v)
            pats.append((["none"] if r.random() < .7 else ["any"], None))
            extra.append(None)
            if r.random() < .3 and len(pats) == 2 and pats[1][0] == ["none"]:
                pats.reverse()
                extra.reverse()
            vs = self.branches(c, len(pats), extra)
            return ["match", ["o", self.hole("o")], [[p, g, b] for (p, g), b in zip(pats, vs)]]
        pats, extra = [], []
        for _ in range(r.randint(0, 5)):
            g, vs = self.guard() if r.random() < .35 else (None, [])
            if g and r.random() < .3:
                v = self.fresh()
                pats.append((["bind", v], g))
                extra.append([v] + vs)
            else:
                pats.append((["in"] + sorted(r.sample(range(6), r.choice([1, 1, 2, 3]))), g))
                extra.append(vs)
        if r.random() < .3:
            v = self.fresh()
            pats.append((["bind", v], None))
            extra.append(v)
        else:
            pats.append((["any"], None))
            extra.append(None)
        vs = self.branches(c, len(pats), extra)
        return ["match", ["m", self.hole("m")], [[p, g, b] for (p, g), b in zip(pats, vs)]]

    def name(self, c):
        r = self.r
        k = r.random()
        wi, wl, wc = 5, 3, 3 if self.prop in ("C15", "C17", "C09") else 1
        k = r.choices("ilc", [wi, wl, wc])[0]
        if k == "i":
            n = r.choice(ATTR_IDENT)
            return ["ident", n]
        if k == "l":
            return ["lit"] + list(r.choice(ATTR_LIT))
        v = self.value(dict(c, lit=False, depth=min(c["depth"], 1)), dict(p=3, s=4, o=1, c=1, g=1, n=1, var=1, same=1, match=1))
        return v

    def el(self, c):
        r = self.r
        tag, void = self.tag()
        wa = self.f["attrs"]
        attrs = []
        n = r.choice([0, 0, 1, 1, 2, 3, 4]) if sum(wa[1:]) < 5 or self.prop == "C08" else r.choice([0, 1, 2, 3, 4, 5])
        d = dict(c, lit=True)
        for _ in range(n):
            if r.choices([0, 1], [wa[0] + wa[1], wa[2]])[0]:
                # what names an attribute that is never there need not be evaluated: nothing else may look like it
                k = r.random()
                keep = self.reuse
                self.reuse = keep and k >= .25
                nm = self.name(d)
                self.reuse = keep
                self.topnow = c.get("top")
                cond = [["true"], ["false"]][k < .12] if k < .25 else self.cond()
                if json.dumps(cond).count("false"):
                    nm = fresh(nm, self)
                attrs.append(["bat", nm, cond])
            else:
                vw = dict(self.f["kids"])
                vw["classes"] = 2 + vw.get("classes", 0)
                for k in ("el", "iter", "call"):
                    vw[k] = min(vw.get(k, 0), 1)
                attrs.append(["at", self.name(d), self.value(d, vw)])
        kids = [] if void else [self.value(d) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
        merge = ["a"] * len(attrs) + ["k"] * len(kids)
        if r.random() < .5:
            r.shuffle(merge)
        return ["el", r.choice("ddddq"), r.choice("(((([{"), tag, int(void), attrs, kids, "".join(merge), r.random() < .2]

    TYPED = {
        "P": ("P", lambda g, r: ["p", g.hole("p")], ["pdef"]),
        "str": ("&'static str", lambda g, r: ["s", g.hole("s")] if r.random() < .7 else ["lit", '"w<"', "w&lt;"], ["lit", '""', ""]),
        "ref": ("&'a str", lambda g, r: ["s", g.hole("s")], ["lit", '""', ""]),
        "opt": ("Option<P>", lambda g, r: ["o", g.hole("o")], ["unit"]),
        "u32": ("u32", lambda g, r: ["n", g.hole("n")] if r.random() < .7 else ["lit", "17", "17"], ["lit", "0", "0"]),
        "String": ("String", lambda g, r: ["g", g.hole("g")], ["lit", "String::new()", ""]),
    }

    def component(self):
        r = self.r
        names = r.sample(PARAM_NAMES, r.randint(0, 5))
        params, gens = [], 0
        rest_at = r.randrange(len(names) + 1) if r.random() < .6 else -1
        lent = self.q.random() < .2
        for i, n in enumerate(names):
            if i == rest_at and not lent:
                params.append([n, "rest", None, None])
                continue
            k = r.choice(["impl", "impl", "T", "P", "str", "opt", "u32", "String"])
            if lent:
                # what it returns borrows from what it is given
                k = dict(impl="ref", T="P", str="ref").get(k, k)
            default, bare = None, False
            if r.random() < .45:
                e = dict(vars=None, fa=False, depth=1, ix=0, lit=False)
                if k in ("impl", "T"):
                    # a default is compiled as of the edition of the library (known finding)
                    # and, where the generated macro is a `macro`, in its scope: a
                    # macro_rules! of the caller's is not found there
                    had, self.chains, self.rules = self.chains, False, False
                    default = self.value(e)
                    self.chains, self.rules = had, True
                elif r.random() < .5:
                    default, bare = self.TYPED[k][2], True
                else:
                    default = self.TYPED[k][1](self, r)
            params.append([n, k, default, bare])
        vs = [p[0] for p in params]
        i = self.id()
        c = dict(vars=vs, fa=False, depth=2, ix=0, lit=True)
        self.scope |= set(vs)
        # most parameters end up in the output
        kids = [self.value(c) for _ in range(r.randint(0, 2))]
        r.shuffle(vs)
        kids += [["var", v] for v in vs if r.random() < .85]
        r.shuffle(kids)
        if r.random() < .5:
            body = ["frag", "d", "(", kids]
        else:
            body = ["el", "d", "(", "div", 0, [], kids, "k" * len(kids), False]
        style = dict(inner=r.random() < .25, vis=r.choice(["pub", "pub", "pub(crate)", ""]))
        q = self.q
        if self.task == "async" and q.random() < .3:
            style["async"] = True
        if q.random() < .25:
            n = q.choice(COMP_NAMES)
            if n not in self.names:
                self.names.add(n)
                style["name"] = n
        if q.random() < .12:
            style["ret"] = "opt"
        if q.random() < .12 and "async" not in style:
            style["unsafe"] = True
        if q.random() < .15:
            style["where"] = True
        if q.random() < .15:
            style["deco"] = q.choice(["/// A component.\n/// of two lines\n", "#[inline(always)]\n", "#[must_use]\n#[allow(clippy::all)]\n", "#[cfg(all())]\n", "#[doc = \"x\"]\n"])
        self.comps.append([i, params, body, style])

    def call(self, c):
        r = self.r
        k = r.randrange(len(self.comps))
        # one that is awaited only where that is possible
        if self.comps[k][3].get("async") and not c.get("top"):
            return ["p", self.hole("p")]
        if self.comps[k][3].get("unsafe"):
            # in a block of its own
            c = dict(c, tmp=False)
        params = self.comps[k][1]
        args = []
        d = dict(c, lit=False, fa=False)
        for n, kind, default, bare in params:
            if kind == "rest" or (default is not None and r.random() < .5):
                continue
            for _ in range(2 if r.random() < .12 else 1):
                # a superseded argument is not bound, so it may not consume a variable
                e = d
                args.append(["n", n, self.value(e) if kind in ("impl", "T") else ["gb", self.hole("g"), self.q.randrange(3)] if kind == "ref" and c.get("tmp") and self.q.random() < .6 else self.TYPED[kind][1](self, r)])
        seen = set()
        for a in reversed(args):
            if a[1] in seen:
                a[2] = strip_vars(a[2], self)
            seen.add(a[1])
        r.shuffle(args)
        # after the shuffle the last of a name wins: the others must not use variables either
        last = {a[1]: a for a in args}
        for a in args:
            if last[a[1]] is not a:
                a[2] = strip_vars(a[2], self)
        rest = [["r", self.value(dict(c, lit=True, fa=False))] for _ in range(r.choice([0, 1, 2, 3, 4]))] if any(p[1] == "rest" for p in params) else []
        m = args + rest
        order = [0] * len(args) + [1] * len(rest)
        r.shuffle(order)
        ia, ir = iter(args), iter(rest)
        m = [next(ir) if o else next(ia) for o in order]
        return ["calla" if self.comps[k][3].get("async") else "call", k, r.choice("((([{"), m, r.random() < .2]

    def large(self, root, q):
        """A program that is large in one way, around the one given."""
        r = self.r
        self.budget = 10 ** 6
        c = dict(vars=[], fa=False, depth=0, ix=0, lit=True)
        leaf = dict(p=4, s=4, o=2, c=2, n=3, b=1, g=1, lit=4, ex=1, raw=1, unit=1)

        def leaves(n, **k):
            return [self.value(dict(c, **k), leaf) for _ in range(n)]

        def at(x, kids):
            kids.insert(r.randrange(len(kids) + 1), x)
            return kids
        plain = not any(k in json.dumps(root) for k in ('"fa"', '"gb"'))
        way = q.choice(["wide", "wide", "deep", "deep", "text", "text", "arms", "arms", "params", "params", "rest", "pieces"] if self.comps or self.prop in ("C13", "C16", "C18", "C19") else
                       ["wide", "deep", "text", "arms", "pieces"])
        if self.task and way == "pieces":
            # format_args! holds what cannot be sent
            way = "wide"
        n = q.choice([q.randint(9, 40), q.randint(9, 40), q.randint(40, 70), q.randint(60, 140), q.randint(250, 300)])
        if way == "wide":
            if self.task == "async":
                # awaits among them
                leaf.update(aw=1, tq=1, cnt=1)
                c.update(top=True, depth=1)
            kids = at(root, leaves(n if q.random() < .7 else 3))
            if q.random() < .4:
                return ["frag", "d", "(", kids]
            attrs = []
            for _ in range(0 if q.random() < .4 else n):
                nm = ["ident", "a%d" % len(attrs)] if r.random() < .6 else ["lit"] + list(r.choice(ATTR_LIT)) if r.random() < .7 else self.value(dict(c, lit=False), dict(p=1, s=1))
                attrs.append(["bat", nm, ["b", self.hole("b")]] if r.random() < .3 else ["at", nm, self.value(c, leaf)])
            merge = ["a"] * len(attrs) + ["k"] * len(kids)
            if q.random() < .5:
                r.shuffle(merge)
            return ["el", "d", "(", "div", 0, attrs, kids, "".join(merge), False]
        if way == "deep":
            x = root
            for k in range(min(n, DEEP)):
                w = r.choice(["el", "el", "el", "frag", "classes", "some", "if"])
                if w == "el":
                    kids = at(x, leaves(r.choice([0, 0, 1])))
                    x = ["el", "d", "(", r.choice(["div", "span", "p", "ul", "li"]), 0, [], kids, "k" * len(kids), False]
                elif w == "some" and k < 20:
                    x = ["same", "some", x]
                elif w == "if" and k % 8 == 0 and not any(y in json.dumps(x) for y in ('"fa"', '"gb"')):
                    x = ["if", [[["b", self.hole("b")], x]], None]
                else:
                    x = [w if w == "frag" else "frag", "d", "(", at(x, leaves(r.choice([0, 1])))]
            return x
        if way == "text":
            m = q.choice([q.randint(200, 300), q.randint(1000, 1100), q.randint(4000, 4200), q.randint(300, 20000), q.choice([65535, 65536, 65537, 70000])])
            d = q.choice([0, .02, .3])
            t, o, size = [], [], 0
            while size < m:
                a, b = r.choice([("<", "&lt;"), ("&", "&amp;"), ("'", "&#39;"), ('\\"', "&quot;"), ("é", "é"), ("漢", "漢")]) if r.random() < d else (r.choice("abcdefghij "),) * 2
                t.append(a)
                o.append(b)
                size += len(b.encode()) if q.random() < .99 else 1
            lit = ["lit", '"%s"' % "".join(t), "".join(o)]
            k = q.random()
            kids = at(lit, at(root, leaves(2)))
            if k < .3:
                return ["el", "d", "(", "div", 0, [["at", ["ident", "title"], lit]], [root], "ak", False]
            if k < .6:
                return ["frag", "d", "(", kids]
            return ["el", "d", "(", "div", 0, [], kids, "k" * len(kids), False]
        if way == "arms":
            n = min(n, 60)
            if q.random() < .5:
                x = ["if", [[["b", self.hole("b")], y] for y in leaves(n, lit=False)], leaves(1, lit=False)[0]]
            else:
                arms = [[["in", i % 6] if i % 3 else ["any"], None if i % 3 else ["b", self.hole("b")], y] for i, y in enumerate(leaves(n, lit=False))]
                x = ["match", ["m", self.hole("m")], arms + [[["any"], None, leaves(1, lit=False)[0]]]]
            return ["frag", "d", "(", at(root, [x])]
        if way == "params":
            # a component of many parameters
            names = ["q%d" % i for i in range(min(n, 40))]
            params, rest_at = [], q.randrange(len(names)) if q.random() < .4 else -1
            for i, m in enumerate(names):
                if i == rest_at:
                    params.append([m, "rest", None, None])
                    continue
                k = r.choice(["impl", "P", "str", "u32"])
                default = (self.value(dict(c, vars=None, lit=False), leaf) if k == "impl" else self.TYPED[k][1](self, r)) if r.random() < .4 else None
                params.append([m, k, default, False])
            body = [["var", m] for m in names]
            r.shuffle(body)
            self.comps.append([self.id(), params, ["frag", "d", "(", body], dict(inner=False, vis="pub")])
            return ["frag", "d", "(", at(root, [self.call(dict(c, depth=0, vars=None))])]
        if way == "rest" and plain:
            self.comps.append([self.id(), [["children", "rest", None, None]], ["frag", "d", "(", [["var", "children"]]], dict(inner=False, vis="pub")])
            return ["call", len(self.comps) - 1, "(", [["r", y] for y in at(root, leaves(n))], False]
        # a text in pieces
        return ["el", "d", "(", "div", 0, [], [root, ["fa", [["lit", "x", "x"] if r.random() < .5 else ["s", self.hole("s")] for _ in range(n)]]], "kk", False]

    def program(self):
        r = self.r
        self.scope = set()
        self.budget = 12
        w = self.f["kids"]
        for _ in range(r.choice([1, 2, 3]) if w.get("call", 0) > 5 else (r.choice([0, 1, 2]) if w.get("call") else 0)):
            self.budget = 8
            self.component()
        self.budget = r.choice([8, 14, 22, 30])
        c = dict(vars=[], fa=not self.task, depth=4, ix=0, lit=True, top=bool(self.task), tmp=True)
        multi = int(r.random() < .08)
        if multi:
            root = ["frag", "d", "(", [self.value(dict(c, lit=False)) for _ in range(r.randint(2, 4))]]
        else:
            big = {k: v for k, v in w.items() if k in ("el", "frag", "classes", "iter", "match", "call", "let", "same")}
            root = self.value(c, big)
        big = random.Random("large/" + self.key)
        if not multi and big.random() < LARGE:
            root = self.large(root, big)
        p = dict(comps=self.comps, root=root, multi=multi)
        if self.task:
            p["task"] = self.task
            if self.task == "async" and not multi and self.q.random() < .4 and '"gb"' not in json.dumps(root):
                # constructed before it is suspended, rendered after
                p["late"] = self.id()
        if self.prop == "C19":
            # without std; with Macros 2.0, components are also called by path and from another crate
            p["env"] = ENVS[r.randrange(len(ENVS))]
        # sometimes nothing is imported from the library
        lb = random.Random("scope/" + self.key).choice([""] * 5 + ["laby::", "::laby::", "l::"])
        if lb:
            p["lb"] = lb
        if self.ed != "2021":
            p["ed"] = self.ed
        # sometimes the names of the standard library mean something else around the template
        hs = random.Random("hostile/" + self.key)
        if self.prop in HOSTILE and hs.random() < .15:
            p["lb"] = p.get("lb") or hs.choice(["laby::", "::laby::", "l::"])
            p["scope"] = 1
        return p


def fresh(x, g):
    """The same with holes of its own."""
    if isinstance(x, list):
        if len(x) >= 2 and isinstance(x[0], str) and len(x[0]) <= 4 and x[0] in "p o s g gb w c n l b m raw d iter stm tq cnt aw awc awh".split() and isinstance(x[1], int):
            return [x[0], g.id()] + [fresh(y, g) for y in x[2:]]
        return [fresh(y, g) for y in x]
    return x


def strip_vars(x, g):
    """A copy that moves no variable."""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "var":
            return ["p", g.hole("p")]
        return [strip_vars(y, g) for y in x]
    return x


# -- Rust source ---------------------------------------------------------------------------------

CLOSE = {"(": ")", "[": "]", "{": "}"}


class Src:
    def __init__(self, prog, pfx, at=""):
        self.comps = prog["comps"]
        self.pfx = pfx
        # path to the components, if they are called by path
        self.at = at
        self.where = prog.get("env", ["", "here"])[1]
        # how laby's items are named where nothing is imported from it
        self.lb = prog.get("lb", "")
        self.hostile = prog.get("scope", 0)
        # macros of the user's
        self.rules = []
        self.locals = set()

    def late(self, s, aw, ix):
        return "aw_(%d, %s, %s).await" % (aw[0][1], ix, s) if aw else s

    def v(self, x, ix, nested=False):
        k = x[0]
        if k in "p o s g w c n l b m".split():
            return "%s_(%d, %s)" % (k, x[1], ix)
        if k == "gb":
            # where every type has an `as_str` of another kind, `&` is what is left
            return ["g_(%d, %s).as_str()", "&*g_(%d, %s)", "&g_(%d, %s)[..]"][x[2] or self.hostile] % (x[1], ix)
        if k == "raw":
            return self.lb + "raw!(%s)" % self.late("s_(%d, %s)" % (x[1], ix), x[2:], ix)
        if k == "rr":
            s = self.lb + "render!(%s)" % ", ".join(self.v(y, ix) for y in x[2])
            return [self.lb + "raw!(%s)", "%s"][x[1]] % s if x[1] < 2 else "{ let t_ = %s; %sraw!(t_) }" % (s, self.lb)
        if k == "d":
            return self.lb + "disp!(%s)" % self.late("d_(%d, %s)" % (x[1], ix), x[2:], ix)
        if k == "pdef":
            return "P::default()"
        if k == "lit":
            return x[1].replace("DocType", self.lb + "DocType")
        if k in ("ident", "src"):
            return x[1]
        if k == "never":
            return "never_(%d, %s)" % (x[1], ix)
        if k == "tq":
            return "o_(%d, %s)?" % (x[1], ix)
        if k == "cnt":
            return "cnt_(%d, %s, &mut k0_)" % (x[1], ix)
        if k == "lref":
            self.locals.add(x[1])
            return "&*l%d_" % x[1]
        if k == "tr":
            # out of the function, or out of the block around
            return "{ if %s { %s None } %s }" % (self.c(x[2], ix), ["return", "break 'out_", "return"][x[1]], self.v(x[3], ix))
        if k == "aw":
            return "aw_(%d, %s, %s).await" % (x[1], ix, self.v(x[2], ix))
        if k == "mr":
            return self.rule(x, ix)
        if k == "unit":
            return "()"
        if k == "wrong":
            # a mistake of the template's author
            return x[1] % tuple(self.v(y, ix) for y in x[2:])
        if k == "var":
            return x[1]
        if k == "fa":
            f, a = "", []
            for p in x[1]:
                if p[0] == "lit":
                    f += p[1]
                elif p[0] == "rep":
                    f += "{%d}" % [y for y in x[1] if y[0] not in ("lit", "rep")].index(x[1][p[1]])
                elif p[0] == "la":
                    f += "{}"
                    a.append(p[1])
                else:
                    f += "{}"
                    a.append("%s_(%d, %s)" % (p[0], p[1], ix))
            return "::core::format_args!(%s)" % ", ".join([json.dumps(f, ensure_ascii=False)] + a)
        if k in ("frag", "classes"):
            return self.mac(x[1], k, x[2], [self.v(y, ix, True) for y in x[3]], nested=nested)
        if k == "el":
            _, st, br, tag, void, attrs, kids, merge, trail = x
            ia, ik = iter(attrs), iter(kids)
            out = []
            for m in merge:
                if m == "k":
                    out.append(self.v(next(ik), ix, True))
                else:
                    a = next(ia)
                    n = self.v(a[1], ix)
                    if a[1][0] == "var":
                        n = "(%s)" % n
                    elif a[1][0] in ("if", "match", "same", "stm") and not n.startswith("("):
                        n = "(%s)" % n
                    if a[0] == "at":
                        out.append("%s = %s" % (n, self.v(a[2], ix)))
                    else:
                        out.append("%s = bool!(%s)" % (n, self.c(a[2], ix)))
            return self.mac(st, tag, br, out, trail, nested)
        if k == "same":
            y = self.v(x[2], ix)
            return {"blk": "{ let t = %s; t }", "par": "(%s)", "some": "Some(%s)", "pblk": "({ %s })"}[x[1]] % y
        if k == "stm":
            return "{ drop(p_(%d, %s)); %s}" % (x[1], ix, "" if x[2] == ["unit"] else self.v(x[2], ix) + " ")
        if k == "let":
            return "{ let %s = %s; %s }" % (x[1], self.v(x[2], ix), self.v(x[3], ix))
        if k == "iter":
            depth = ix.count("i") + 1
            i = "i%d" % depth
            s = "%s.map(move |%s: u32| %s)" % (self.late("it_(%d, %s)" % (x[1], ix), x[4:], ix), i, self.v(x[3], i))
            d = x[2]
            if d is None:
                return self.lb + "iter!(%s)" % s
            if d[0] == "lines":
                return self.lb + "iter_lines!(%s)" % s
            return self.lb + "iter!(%s, %s)" % (self.v(d, ix), s)
        if k == "if":
            o = []
            for c, b in x[1]:
                o.append("if %s { %s }" % (self.c(c, ix), self.v(b, ix)))
            s = " else ".join(o)
            if x[2] is not None:
                s += " else { %s }" % self.v(x[2], ix)
            return self.lb + "frag_match!(%s)" % s
        if k == "match":
            arms = []
            for p, g, b in x[2]:
                pt = {"any": lambda: "_", "none": lambda: "None", "some": lambda: "Some(%s)" % p[1], "bind": lambda: p[1],
                      "in": lambda: self.rng(p[1:])}[p[0]]()
                body = self.v(b, ix)
                if len(body) % 3 == 0:
                    body = "{ %s }" % body
                else:
                    body += ","
                arms.append("%s%s => %s" % (pt, " if " + self.c(g, ix) if g else "", body))
            return self.lb + "frag_match!(match %s { %s })" % (self.v(x[1], ix), " ".join(arms))
        if k in ("call", "calla"):
            out = []
            for a in x[3]:
                out.append("%s = %s" % (a[1], self.v(a[2], ix)) if a[0] == "n" else self.v(a[1], ix, True))
            s = self.mac("", self.path(x[1]), x[2], out, x[4])
            if k == "calla":
                s += ".await"
            return "unsafe { %s }" % s if self.comps[x[1]][3].get("unsafe") else s
        raise Exception("source of %s" % x)

    def rule(self, x, ix):
        """Markup in the body of a `macro_rules!`, what it is made of partly handed to it."""
        how, y = x[1], json.loads(json.dumps(x[2]))
        if y[0] not in ("el", "frag", "classes", "call", "calla"):
            return self.v(y, ix)
        pars, args = [], []

        def take(z, frag, text, force):
            if not force and (how + len(json.dumps(z))) % 3 == 0:
                return z
            n = "$a%d" % len(pars)
            pars.append("%s:%s" % (n, frag))
            args.append(text)
            return ["src", n]

        def value(z):
            if z[0] == "lit" and z[1:] in [list(l) for l in LIT_MACRO]:
                return z
            lit = z[0] == "lit" and re.match(r"[\w\"']", z[1]) and z[1:] in [list(l) for l in LIT_ANY]
            t = json.dumps(z)
            force = '"var"' in t or ix != "0" or any('"%s"' % k in t for k in CALLER)
            return take(z, ["literal", "expr", "tt"][how % 3] if lit else "expr", self.v(z, ix), force)

        def name(z):
            if z[0] == "ident":
                return take(z, ["ident", "tt"][how % 2], z[1], False)
            return value(z)

        if y[0] == "el":
            for a in y[5]:
                a[1] = name(a[1])
                if a[0] == "at":
                    a[2] = value(a[2])
                elif a[2][0] not in ("true", "false"):
                    a[2] = take(a[2], "expr", self.c(a[2], ix), ix != "0" or '"var"' in json.dumps(a[2]) or '"awc"' in json.dumps(a[2]))
            y[6] = [value(z) for z in y[6]]
        elif y[0] in ("frag", "classes"):
            y[3] = [value(z) for z in y[3]]
        else:
            for a in y[3]:
                a[-1] = value(a[-1])
        # nothing may be left that is known only where the macro is called
        body = self.v(y, ix)
        n = "mk%d_" % len(self.rules)
        br = CLOSE.items()
        o, c = list(br)[how % 3]
        self.rules.append("macro_rules! %s {\n    (%s) => { %s };\n}\n" % (n, ", ".join(pars), body))
        return "%s!%s%s%s" % (n, o, ", ".join(args), c)

    def name(self, n):
        return self.comps[n][3].get("name") or "%s%d" % (self.pfx, n)

    def path(self, n):
        m = "m%d::" % n if self.where == "path" and self.comps[n][3]["inner"] else ""
        return self.at + m + self.name(n)

    def rng(self, v):
        if len(v) > 1 and v[-1] - v[0] == len(v) - 1:
            return "%d..=%d" % (v[0], v[-1])
        return " | ".join(map(str, v))

    def mac(self, st, name, br, args, trail=False, nested=False):
        if not args:
            trail = False
        # markup directly inside markup is recognised by its bare name, imported or not
        at = "laby::" if st == "q" else "" if not st or nested and (len(args) + len(name)) % 3 else self.lb
        return "%s%s!%s%s%s%s" % (at, name, br, ", ".join(args), "," if trail else "", CLOSE[br])

    def c(self, x, ix):
        k = x[0]
        if k in ("true", "false"):
            return k
        if k in ("const", "src"):
            return x[1]
        if k == "b":
            return "b_(%d, %s)" % (x[1], ix)
        if k == "awc":
            return "aw_(%d, %s, %s).await" % (x[1], ix, self.c(x[2], ix))
        if k == "not":
            return "!(%s)" % self.c(x[1], ix)
        if k in ("and", "or"):
            return "(%s) %s (%s)" % (self.c(x[1], ix), {"and": "&&", "or": "||"}[k], self.c(x[2], ix))
        if k == "eq":
            return "n_(%d, %s) %% 3 == %d" % (x[1][1], ix, x[2])
        if k == "iflet":
            return "let Some(%s) = %s" % (x[2], self.v(x[1], ix))
        if k == "chain":
            return " && ".join(("%s" if y[0] in ("iflet", "b") else "(%s)") % self.c(y, ix) for y in x[1:])
        raise Exception("cond %s" % x)

    def comp(self, n, comp):
        i, params, body, style = comp
        ps, gens = [], []
        for name, kind, default, bare in params:
            if kind == "wrong":
                ps.append(name)
                continue
            a = ""
            if default is not None:
                a = "#[default] " if bare else "#[default(%s)] " % self.v(default, "0")
            if kind == "rest":
                a = "#[rest] "
            if kind == "T":
                t = "G%d" % len(gens)
                gens.append(t)
            else:
                t = ("impl %sRender" % self.lb if kind in ("impl", "rest") else None) or Gen.TYPED[kind][0]
            # what else may stand there and means nothing
            pre, mut = [("", ""), ("", ""), ("#[allow(unused)] ", ""), ("", "mut "), ("#[cfg(all())] ", "mut ")][(i + len(ps) * 7 + len(name)) % 5]
            ps.append("%s%s%s%s: %s" % (pre, a, mut, name, t))
        vis = "pub" if style["inner"] or self.where == "crate" else style["vis"]
        bound = ": %sRender" % self.lb
        late = style.get("where")
        lent = any(p[1] == "ref" for p in params)
        gs = [g if late else g + bound for g in gens]
        gs = "<%s>" % ", ".join(["'a"] * lent + gs) if gens or lent else ""
        where = " where %s" % ", ".join(g + bound for g in gens) if gens and late else ""
        ret, text = "impl %sRender%s" % (self.lb, " + 'a" if lent else ""), self.v(body, "0")
        if style.get("ret") == "opt":
            ret, text = "Option<%s>" % ret, "Some(%s)" % text
        deco = style.get("deco", "")
        above = len(deco) % 2
        f = "%s#[%slaby%s]\n%s%s %sfn %s%s(%s) -> %s%s {\n    enter_(%d);\n    %s\n}\n" % (
            deco if above else "", self.lb, style.get("args", ""), "" if above else deco, vis, "unsafe " if style.get("unsafe") else "async " if style.get("async") else "",
            self.name(n), gs, ", ".join(ps), ret, where, i, text)
        if style["inner"]:
            # the components before it are visible in there
            f = "mod m%d {\n#[allow(unused_imports)]\nuse super::*;\n%s}\n" % (n, f)
            if self.where != "path":
                f += "%suse m%d::%s;\n" % ("pub " if self.where == "crate" else "", n, self.name(n))
        return f


HEAD = "#![allow(warnings)]\n%suse tmpl::probe::*;\n\n"
# a scope in which the names of the prelude mean something else
TAKEN = """mod taken_ {
    pub enum Ranking { Some, None, Ok, Err }
    pub struct Option {} pub struct Result {} pub struct String {} pub struct Vec {} pub struct Box {} pub struct Buffer {} pub struct Default {}
    pub struct T2 {} pub struct bool {} pub struct str {} pub struct u8 {} pub struct usize {} pub struct Iterator_ {}
    pub trait Render { fn render(self); fn push(self); fn push_str(self); fn reserve(self); fn into_string(self); fn as_str(self); }
    impl<T> Render for T { fn render(self) {} fn push(self) {} fn push_str(self) {} fn reserve(self) {} fn into_string(self) {} fn as_str(self) {} }
    pub fn drop() {}
    pub mod core {} pub mod alloc {} pub mod laby_common {} pub mod laby_macros {}
}
use taken_::{Ranking::*, *};
"""


def plainly(t):
    """The same with the names of the standard library spelt out."""
    t = re.sub(r"(?<![\w:'#.])(Some|None)\b", r"::core::option::Option::\1", t)
    t = re.sub(r"(?<![\w:'#.])Option\b", r"::core::option::Option", t)
    t = re.sub(r"(?<![\w:'#.])String\b", r"::std::string::String", t)
    t = re.sub(r"(?<![\w:'#.])drop\(", r"::core::mem::drop(", t)
    return re.sub(r"(?<![\w:'#.])(bool|u8|usize)\b(?![!'])", r"::core::primitive::\1", re.sub(r"(?<![\w#])str\b(?![!'])", "::core::primitive::str", t))


IMPORTS = {"": "use laby::*;\n", "l::": "use laby as l;\n"}


def source(prog, pfx="k", number=0, shard=0):
    return "\n".join(sources(prog, pfx, number, shard))


def sources(prog, pfx="k", number=0, shard=0):
    """The text of the program and, if they live elsewhere, of its components."""
    env = prog.get("env")
    s = Src(prog, pfx)
    comps = ""
    for n, c in enumerate(prog["comps"]):
        comps += s.comp(n, c) + "\n"
    apart = env and env[1] == "crate"
    head = HEAD % IMPORTS.get(s.lb, "") + ("use alloc::string::String;\n" if env else "")
    comps = "".join(s.rules) + comps
    s.rules = []
    out = "" if apart else comps
    if apart:
        s = Src(prog, pfx, "c%d::p%d::" % (shard, number))
    if prog["multi"]:
        body = "Some(%srender!(%s))" % (s.lb, ", ".join(s.v(y, "0") for y in prog["root"][3]))
    else:
        body = s.v(prog["root"], "0")
        if prog.get("late"):
            body = "let t_ = %s;\n        aw_(%d, 0, ()).await;\n        Some(out_(t_, mode))" % (body, prog["late"])
        else:
            body = ("Some(out_(%s, mode))" if prog.get("task") else "go(%s, buf, mode)") % body
    if prog.get("task"):
        pre = "    let mut k0_ = 0u32;\n" + "".join("    let l%d_ = g_(%d, 0);\n" % (i, i) for i in sorted(s.locals))
        body = "%s    let r_ = 'out_: {\n        %s\n    };\n    r_" % (pre, body)
    # names that are taken already
    rules = "".join(re.sub(r"\bmk(\d+_)", r"mr\1", t) for t in s.rules)
    if s.rules:
        body = re.sub(r"\bmk(\d+_)!", r"mr\1!", body)
    out += rules
    if prog.get("task") == "async":
        out += "pub fn start(mode: u8) -> tmpl::Task {\n    ::std::boxed::Box::pin(body_(mode))\n}\nasync fn body_(mode: u8) -> Option<String> {\n%s\n}\n" % body
    elif prog.get("task"):
        out += "pub fn start(mode: u8) -> tmpl::Task {\n    ::std::boxed::Box::pin(async move { body_(mode) })\n}\nfn body_(mode: u8) -> Option<String> {\n%s\n}\n" % body
    else:
        out += "pub fn run(buf: &mut laby::internal::Buffer, mode: u8) -> Option<String> {\n    %s\n}\n" % body
    if prog.get("scope"):
        return [head + TAKEN + plainly(out)]
    return [head + out] + ([head + comps] if apart else [])


# -- for the interpreter ---------------------------------------------------------------------------

def q(s):
    return "'" + s.encode().hex()


def ast(x):
    k = x[0]
    if k in "p o s g w c n l b m raw d".split():
        return "(%s %d%s)" % (k, x[1], " %d" % x[2][1] if x[2:] else "")
    if k == "rr":
        return "(rr %d (%s))" % (x[1], " ".join(ast(y) for y in x[2]))
    if k == "gb":
        return "(s %d)" % x[1]
    if k in ("unit", "pdef", "true", "false"):
        return "(%s)" % k
    if k in ("never", "tq", "cnt", "lref"):
        return "(%s %d)" % (k, x[1])
    if k == "tr":
        return "(tr %s %s)" % (ast(x[2]), ast(x[3]))
    if k in ("aw", "awc"):
        return "(%s %d %s)" % (k, x[1], ast(x[2]))
    if k == "mr":
        return ast(x[2])
    if k == "lit":
        return "(lit %s)" % q(x[2])
    if k == "ident":
        return "(lit %s)" % q(x[1].replace("r#", ""))
    if k == "var":
        return "(var $%s)" % x[1]
    if k == "rep":
        return "(rep %d)" % x[1]
    if k == "la":
        return "(lit %s)" % q(x[2])
    if k == "fa":
        return "(fa (%s))" % " ".join(ast(y) for y in x[1])
    if k in ("frag", "classes"):
        return "(%s (%s))" % (k, " ".join(ast(y) for y in x[3]))
    if k == "el":
        at = " ".join("(%s %s %s)" % (a[0], ast(a[1]), ast(a[2])) for a in x[5])
        return "(el %s %d (%s) (%s))" % (x[3], x[4], at, " ".join(ast(y) for y in x[6]))
    if k == "same":
        return "(same %s)" % ast(x[2])
    if k == "const":
        return "(true)" if x[2] else "(false)"
    if k == "stm":
        return "(stm (p %d) %s)" % (x[1], ast(x[2]))
    if k == "let":
        return "(let $%s %s %s)" % (x[1], ast(x[2]), ast(x[3]))
    if k == "iter":
        d = x[2]
        d = "()" if d is None else "(lit %s)" % q("\n") if d[0] == "lines" else ast(d)
        return "(iter %d %s %s%s)" % (x[1], d, ast(x[3]), " %d" % x[4][1] if x[4:] else "")
    if k in ("not",):
        return "(not %s)" % ast(x[1])
    if k in ("and", "or"):
        return "(%s %s %s)" % (k, ast(x[1]), ast(x[2]))
    if k == "eq":
        return "(eq %s %d)" % (ast(x[1]), x[2])
    if k == "iflet":
        return "(iflet %s $%s)" % (ast(x[1]), x[2])
    if k == "chain":
        return "(chain (%s))" % " ".join(ast(y) for y in x[1:])
    if k == "if":
        return "(if (%s) %s)" % (" ".join("(%s %s)" % (ast(c), ast(b)) for c, b in x[1]), ast(x[2]) if x[2] is not None else "()")
    if k == "match":
        arms = " ".join("((%s) %s %s)" % (" ".join(("$%s" if p[0] in ("some", "bind") and i else "%s") % y for i, y in enumerate(p)), ast(g) if g else "()", ast(b)) for p, g, b in x[2])
        return "(match %s (%s))" % (ast(x[1]), arms)
    if k in ("call", "calla"):
        args = " ".join("($%s %s)" % (a[1], ast(a[2])) if a[0] == "n" else "(%s)" % ast(a[1]) for a in x[3])
        return "(call %d (%s))" % (x[1], args)
    raise Exception("ast of %s" % x)


def ast_prog(p):
    comps = []
    for i, params, body, _ in p["comps"]:
        ps = " ".join("($%s %s %s)" % (n, "rest" if k == "rest" else "named", ast(d) if d is not None else "()") for n, k, d, b in params)
        comps.append("(%d (%s) %s)" % (i, ps, ast(body)))
    loc = sorted(lrefs(p["root"], set()))
    return "(prog (%s) %s %d (%s) (%s))" % (" ".join(comps), ast(p["root"]), p["multi"], " ".join("(g %d)" % i for i in loc),
                                            "(aw %d (unit))" % p["late"] if p.get("late") else "")


def lrefs(x, o):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "lref":
            o.add(x[1])
        for y in x:
            lrefs(y, o)
    return o


def programs(prop, seed, n):
    bag = []
    shuf = random.Random("tags/%s/%d" % (prop, seed))

    def tags():
        if not bag:
            # every tag in turn, void ones a little more often
            bag.extend(NORMAL + VOID * 2)
            shuf.shuffle(bag)
        return bag.pop()
    return [Gen(prop, seed, i, tags).program() for i in range(n)]


# -- building and running --------------------------------------------------------------------------

PROFILE = """
[profile.release]
opt-level = 1
debug = false
incremental = false
codegen-units = 16
panic = "unwind"
[profile.release.package."*"]
opt-level = 2
"""
DEPS = """
[dependencies]
laby = {{ path = "/repo/laby"{1} }}
tmpl = {{ path = "{0}/tmpl" }}
"""
DECL = ', features = ["decl_macro"]'


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)


def emit(root, progs, shards):
    """A workspace of `shards` library crates and a binary over all programs (a dict number -> program)."""
    shutil.rmtree(root, ignore_errors=True)
    names = sorted(progs)
    envs = {(p.get("env") or [None])[0] for p in progs.values()}
    assert len(envs) < 2
    bare, decl = envs - {None}, "decl" in envs
    deps = DEPS.format(HERE, DECL if decl else "")
    first = "#![allow(warnings, dependency_on_unit_never_type_fallback)]\n" + ("#![no_std]\n" if bare else "") + ("#![feature(decl_macro)]\n" if decl else "") + (
        "extern crate alloc;\n" if bare else "")
    members, dirs = [], []

    def crate(name, edition, extra, files):
        d = os.path.join(root, name)
        write(d + "/Cargo.toml", "[package]\nname = \"%s\"\nversion = \"0.1.0\"\nedition = \"%s\"\n" % (name, edition) + deps + extra)
        for f, t in files.items():
            write(d + "/src/" + f, t)
        dirs.append(name)

    groups = []
    for ed in sorted({progs[k].get("ed", "2021") for k in names}):
        of = [k for k in names if progs[k].get("ed", "2021") == ed]
        n = max(1, round(shards * len(of) / len(names)))
        groups += [(ed, of[k::n]) for k in range(n) if of[k::n]]
    for k, (ed, mine) in enumerate(groups):
        members.append(k)
        src = {i: sources(progs[i], number=i, shard=k) for i in mine}
        apart = [i for i in mine if len(src[i]) > 1]
        if apart:
            crate("c%d" % k, ed, "", dict({"p%d.rs" % i: src[i][1] for i in apart},
                                      **{"lib.rs": first + "".join("pub mod p%d;\n" % i for i in apart)}))
        lib = first + "use tmpl::{Entry, Fun};\n" + "".join("mod p%d;\n" % i for i in mine)
        lib += "pub static ALL: &[Entry] = &[\n"
        for i in mine:
            fun = "Fun::Task(p%d::start)" if progs[i].get("task") else "Fun::Run(p%d::run)"
            lib += "    Entry { name: \"template %d\", ast: %s, fun: %s },\n" % (i, json.dumps(ast_prog(progs[i])), fun % i)
        crate("g%d" % k, ed, "c%d = { path = \"../c%d\" }\n" % (k, k) if apart else "",
              dict({"p%d.rs" % i: src[i][0] for i in mine}, **{"lib.rs": lib + "];\n"}))
    write(root + "/Cargo.toml", "[package]\nname = \"gen\"\nversion = \"0.1.0\"\nedition = \"2021\"\n" + deps
          + "".join("g%d = { path = \"g%d\" }\n" % (k, k) for k in members)
          + "[workspace]\nmembers = [%s]\n" % ", ".join("\"%s\"" % d for d in dirs) + PROFILE)
    write(root + "/src/main.rs", "fn main() {\n    tmpl::main(&[%s])\n}\n" % ", ".join("g%d::ALL" % k for k in members))
    shutil.copy(os.path.join(HERE, "tmpl", "Cargo.lock"), root + "/Cargo.lock")


def build(root, target):
    """None, or the errors: a dict program number -> messages, None -> those that belong to no program."""
    import check
    e = check.env()
    e["CARGO_TARGET_DIR"] = target
    e["RUSTC_BOOTSTRAP"] += "," + ",".join("%s%d" % (c, k) for c in "cg" for k in range(16))
    r = subprocess.run(["cargo", "build", "--offline", "--release", "--keep-going", "--message-format=json"], cwd=root, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode == 0:
        return None
    errs = {}
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        msg = m["message"]
        who = set()

        def spans(s):
            f = re.search(r"(?:^|/)[cg]\d+/src/p(\d+)\.rs$", s["file_name"]) or re.search(r"^src/p(\d+)\.rs$", s["file_name"])
            if f:
                who.add(int(f.group(1)))
            if s.get("expansion"):
                spans(s["expansion"]["span"])
        for s in msg["spans"]:
            spans(s)
        for c in msg.get("children", []):
            for s in c["spans"]:
                spans(s)
        if not who and re.match(r"aborting due to|could not compile|Some errors have|For more information", msg["message"]):
            continue
        for w in who or [None]:
            errs.setdefault(w, []).append(msg["message"])
    if not errs:
        errs[None] = [r.stderr[-3000:]]
    return errs



REAL = ("real: laby_macros as rustc loads and runs it, rustc's macro expansion and code generation for every template, "
        "the code the templates expand to, laby and laby_common as they render it. stub: user code in the templates "
        "(instrumented expressions, values, formatters, iterators, components' arguments), the global allocator, the "
        "allocation-error handler")


def locate(errs):
    return {k: v for k, v in errs.items() if k is not None}


def prepare(root, progs, target, shards=8):
    """Build what builds. -> (programs built, {program: compiler messages})"""
    import check
    broken = {}
    for _ in range(8):
        emit(root, progs, shards)
        errs = build(root, target)
        if not errs:
            return progs, broken
        new = locate(errs)
        if not new or len(new) == len(progs):
            raise check.Trouble("generated templates do not build:\n" + "\n".join(sum(errs.values(), []))[-3000:])
        broken.update(new)
        progs = {k: v for k, v in progs.items() if k not in broken}
    raise check.Trouble("generated templates do not build after eight attempts")


def order(progs, shards):
    n = sorted(progs)
    return [i for k in range(shards) for i in n[k::shards]]


def engine(binary, args):
    import check
    for attempt in range(2):
        r = subprocess.run([binary] + args, env=check.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 3:
            break
        args = args + ["--timeout", "240"]
    return r


def run(engine_name, prop, tier, seed, budget):
    found = probes(prop, seed)
    r = rounds(prop, tier, seed, budget)
    r["detail"]["probes"] = len(PROBES.get(prop, []))
    r["violations"] += found
    return r


def rounds(prop, tier, seed, budget):
    """One round of new templates on the quick tier, round after round until the time is used on the thorough one."""
    t0 = time.time()
    total, k = None, 0
    while True:
        left = max(20, budget - (time.time() - t0))
        if prop == "C19":
            r = one_round(prop, tier, seed + 7919 * (k // 2), left / 2, ["decl", ""][k % 2])
        else:
            r = one_round(prop, tier, seed + 7919 * k, left)
        k += 1
        if total is None:
            total = r
            total["detail"]["rounds"] = 1
            total["detail"]["seeds"] = [seed]
        else:
            for n in ("evaluations", "distinct", "states", "search_s"):
                total[n] += r[n]
            for n, c in r["faults"].items():
                total["faults"][n] = total["faults"].get(n, 0) + c
            for n in ("templates_compiled", "epochs", "foreign"):
                total["detail"][n] += r["detail"][n]
            for n, c in r["detail"]["constructs"].items():
                total["detail"]["constructs"][n] = total["detail"]["constructs"].get(n, 0) + c
            total["detail"]["repeat_identical"] &= r["detail"]["repeat_identical"]
            total["detail"]["rounds"] = k
            total["detail"]["seeds"].append(seed + 7919 * (k - 1))
            total["violations"] = r["violations"]
        if prop == "C19" and k == 1 and not r["violations"]:
            continue
        if r["violations"] or tier == "quick" or time.time() - t0 + 1.3 * (time.time() - t0) / k > budget:
            return total


# programs that are valid and have to build: (what they are, edition, text)
PROBES = {
    "C20": [("a template that names a type which is named as the structure of an element around it", "2021",
             "#[allow(non_camel_case_types)]\npub struct _p(pub u8);\nimpl _p {\n    const K: u8 = 4;\n}\n"
             "pub fn f() -> String {\n    laby::render!(laby::p!(_p::K))\n}\n")],
    "C13": [("a default made with what only its own edition has", "2024",
             "use laby::*;\n#[laby]\nfn k(#[default(if let Some(n) = Some(1) && n > 0 { n } else { 0 })] a: u32) -> impl Render {\n    p!(a)\n}\n"
             "pub fn f() -> String {\n    render!(k!())\n}\n")],
    "C14": [("a branch that never returns", "2024",
             "pub fn f(n: u8) -> String {\n    laby::render!(laby::frag_match!(match n { 0 => \"zero\", _ => unreachable!() }))\n}\n"),
            ("an if whose last branch never returns", "2024",
             "pub fn f(n: u8) -> String {\n    laby::render!(laby::frag_match!(if n == 0 { \"zero\" } else { panic!() }))\n}\n")],
}


def probe(what, edition, text, where="probe"):
    """None, or why it does not build."""
    import check
    root = os.path.join(WORK, where)
    shutil.rmtree(root, ignore_errors=True)
    write(root + "/Cargo.toml", "[package]\nname = \"probe\"\nversion = \"0.1.0\"\nedition = \"%s\"\n[dependencies]\nlaby = { path = \"/repo/laby\" }\n[workspace]\n%s"
          % (edition, PROFILE))
    write(root + "/src/lib.rs", text)
    shutil.copy(os.path.join(HERE, "tmpl", "Cargo.lock"), root + "/Cargo.lock")
    e = dict(check.env(), CARGO_TARGET_DIR=check.TARGET)
    r = subprocess.run(["cargo", "build", "--offline", "--release", "--message-format=json"], cwd=root, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    shutil.rmtree(root, ignore_errors=True)
    if r.returncode == 0:
        return None
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            return m["message"]["message"].replace("\n", " ")
    raise check.Trouble("probe: " + r.stderr[-2000:])


def probes(prop, seed):
    out = []
    for i, (what, edition, text) in enumerate(PROBES.get(prop, [])):
        why = probe(what, edition, text, "probe-" + prop)
        if why:
            path = os.path.join(REPLAYS, "%s-probe%d.gen" % (prop, i))
            os.makedirs(REPLAYS, exist_ok=True)
            open(path, "w").write("laby-probe-replay 1\nproperty %s\nprobe %d\n%s" % (prop, i, text))
            out.append({"class": "does-not-compile", "msg": "%s is rejected: %s" % (what, why), "replay": path})
    return out


def replay_probe(path):
    t = open(path).read()
    prop, i = re.search(r"^property (\S+)", t, re.M).group(1), int(re.search(r"^probe (\d+)", t, re.M).group(1))
    what, edition, text = PROBES[prop][i]
    print(text)
    why = probe(what, edition, text)
    print("%s is rejected: %s" % (what, why) if why else "no violation")
    return 1 if why else 0


def one_round(prop, tier, seed, left, decl=None):
    import check
    t0 = time.time()
    root = os.path.join(WORK, "gen-" + prop)
    every = dict(enumerate(programs(prop, seed, COUNT[tier])))
    if decl is not None:
        every = {k: p for k, p in every.items() if p["env"][0] == decl}
    progs, broken = prepare(root, every, check.TARGET)
    built = time.time() - t0
    binary = os.path.join(root, "bin")
    shutil.copy(os.path.join(check.TARGET, "release", "gen"), binary)
    out = os.path.join(root, "out.json")
    rdir = os.path.join(root, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    left = max(20, left - built)
    r = engine(binary, [prop, "--seed", str(seed), "--tier", tier, "--out", out, "--replay-dir", rdir, "--budget", str(int(left))])
    if r.returncode not in (0, 1, 3) or not os.path.exists(out):
        raise check.Trouble("template engine: exit %d\n%s" % (r.returncode, r.stderr[-4000:]))
    d = json.load(open(out))
    v = d.pop("violation")
    shapes = set()
    kinds = {}
    for p in progs.values():
        shapes.add(hashlib.sha1(re.sub(r"\d+", "", ast_prog(p)).encode()).hexdigest())
        tally(p["root"], kinds)
        for c in p["comps"]:
            kinds["component"] = kinds.get("component", 0) + 1
            tally(c[2], kinds)
    res = {
        "evaluations": d["evaluations"], "distinct": d["distinct"], "states": d["states"], "search_s": d["search_s"],
        "samples": [source(progs[k]) for k in sorted(progs)[:2]] + d["samples"][:2], "faults": d["counts"],
        "detail": dict({k: d[k] for k in ("seed", "epochs", "workers", "digest", "repeat_identical", "sample_epochs",
                                          "cut_short", "foreign", "host")},
                       templates_compiled=len(progs), distinct_shapes=len(shapes), build_s=round(built, 1),
                       constructs={k: n for k, n in sorted(kinds.items()) if k[0] != "<"},
                       tags=len([t for t in kinds if t[0] == "<"])),
        "real_and_stub": REAL, "violations": [],
    }
    if v:
        text = open(v["replay"]).read()
        v["replay"] = settle(prop, seed, v, text, progs)
        res["violations"].append(v)
    elif broken:
        k = min(broken, key=lambda k: (size(every[k]), k))
        msg = " / ".join(broken[k][:2]).replace("\n", " ")
        p, msg = smaller_broken(prop, every[k], msg)
        path = os.path.join(REPLAYS, "%s-%d.gen" % (prop, seed))
        save(path, prop, {0: p}, "", "does-not-compile: " + msg)
        res["violations"].append({"class": "does-not-compile", "msg": "a valid template is rejected: " + msg, "replay": path,
                                  "programs": len(broken)})
    shutil.rmtree(root, ignore_errors=True)
    return res


def tally(x, o):
    if isinstance(x, list) and x and isinstance(x[0], str):
        k = x[0]
        if k == "el":
            o["<" + x[3]] = o.get("<" + x[3], 0) + 1
        o[k] = o.get(k, 0) + 1
    if isinstance(x, list):
        for y in x:
            if isinstance(y, list):
                tally(y, o)


# -- replay files ------------------------------------------------------------------------------------

def save(path, prop, progs, sim, what):
    o = "laby-gen-replay 1\nproperty %s\nviolation %s\nprograms %s\n" % (prop, what.replace("\n", " "), json.dumps([progs[k] for k in sorted(progs)]))
    o += "begin\n" + sim + "\nfinish\n"
    for k in sorted(progs):
        o += "".join("# " + l + "\n" for l in source(progs[k]).splitlines())
    open(path, "w").write(o)


def load(path):
    t = open(path).read()
    progs = json.loads(re.search(r"^programs (.*)$", t, re.M).group(1))
    return re.search(r"^property (\S+)", t, re.M).group(1), dict(enumerate(progs)), t[t.index("\nbegin\n") + 7:t.index("\nfinish\n")], \
        re.search(r"^violation (.*)$", t, re.M).group(1)


def replay(path):
    import check
    prop, progs, sim, what = load(path)
    for k in sorted(progs):
        print(source(progs[k]))
    root = os.path.join(WORK, "gen-replay")
    emit(root, progs, 1)
    errs = build(root, check.TARGET)
    if errs:
        m = "\n".join(sum(errs.values(), []))
        if locate(errs):
            print("does-not-compile: " + m)
            return 1
        raise check.Trouble(m)
    if not sim:
        print("no violation")
        return 0
    f = os.path.join(root, "sim.replay")
    open(f, "w").write(sim)
    return subprocess.run([os.path.join(check.TARGET, "release", "gen"), "--replay", f], env=check.env()).returncode


def remap(sim, f):
    return re.sub(r"^op root (-?\d+)", lambda m: "op root %d" % f(int(m.group(1))), sim, flags=re.M)


def settle(prop, seed, v, sim, progs):
    """Keep only the programs used, make those smaller, write the replay."""
    names = order(progs, 8)
    used = sorted({int(m) % len(names) for m in re.findall(r"^op root (-?\d+)", sim, re.M)})
    mine = {i: progs[names[u]] for i, u in enumerate(used)}
    sim = remap(sim, lambda i: used.index(i % len(names)))
    path = os.path.join(REPLAYS, "%s-%d.gen" % (prop, seed))
    try:
        mine, sim, msg = smaller(prop, mine, sim, v["class"])
        v["msg"] = msg or v["msg"]
    except Exception as e:  # the unreduced one will do
        v["not_reduced"] = str(e)[-300:]
    save(path, prop, mine, sim, "%s: %s" % (v["class"], v["msg"]))
    return path


VALUE = set("rr tq tr cnt lref aw calla el frag classes same stm let iter if match call p o s g gb w c n l b raw d lit unit var fa mr never".split())


def reductions(p):
    """Programs with one thing less."""
    out = []

    def values_in(x):
        """direct sub-values that could stand for x"""
        k = x[0]
        if k in ("frag", "classes"):
            return x[3]
        if k == "el":
            return x[6] + [a[2] for a in x[5] if a[0] == "at"]
        if k in ("same", "stm", "mr"):
            return [x[2]]
        if k == "if":
            return [b for _, b in x[1]] + ([x[2]] if x[2] else [])
        if k == "match":
            return [a[2] for a in x[2]]
        if k in ("call", "calla"):
            return [a[-1] for a in x[3]]
        if k in ("tr", "aw"):
            return [x[-1]]
        if k == "rr":
            return x[2]
        return []

    def free(x):
        return "\"var\"" in json.dumps(x)

    def walk(x, put):
        if not isinstance(x, list):
            return
        if x and isinstance(x[0], str) and x[0] in VALUE:
            if x[0] in ("el", "frag", "classes", "same", "stm", "let", "iter", "if", "match", "call", "fa", "mr", "never", "calla", "tr", "aw", "tq", "rr") and not free(x):
                for y in values_in(x):
                    put(y)
                put(["s", 9999])
            k = x[0]
            if k in ("frag", "classes"):
                for i in range(len(x[3])):
                    put(x[:3] + [x[3][:i] + x[3][i + 1:]])
            if k == "el":
                for i in range(len(x[6])):
                    m = list(x[7])
                    del m[[j for j, c in enumerate(m) if c == "k"][i]]
                    put(x[:6] + [x[6][:i] + x[6][i + 1:], "".join(m), x[8]])
                for i in range(len(x[5])):
                    m = list(x[7])
                    del m[[j for j, c in enumerate(m) if c == "a"][i]]
                    put(x[:5] + [x[5][:i] + x[5][i + 1:], x[6], "".join(m), x[8]])
            if k == "if" and len(x[1]) > 1:
                for i in range(len(x[1])):
                    put([k, x[1][:i] + x[1][i + 1:], x[2]])
            if k == "match" and len(x[2]) > 1:
                for i in range(len(x[2]) - 1):
                    put([k, x[1], x[2][:i] + x[2][i + 1:]])
            if k in ("call", "calla"):
                for i in range(len(x[3])):
                    if x[3][i][0] == "r":
                        put(x[:3] + [x[3][:i] + x[3][i + 1:], x[4]])
            if k == "iter" and x[2]:
                put([k, x[1], None] + x[3:])
            if k in ("iter", "raw", "d") and isinstance(x[-1], list) and x[-1] and x[-1][0] == "awh":
                put(x[:-1])
            if k == "rr":
                for i in range(1, len(x[2])):
                    put(x[:2] + [x[2][:i] + x[2][i + 1:]])
        for i in range(len(x)):
            if isinstance(x[i], list):
                walk(x[i], lambda y, i=i: put(x[:i] + [y] + x[i + 1:]))

    walk(p["root"], lambda y: out.append(dict(p, root=y)) if not p["multi"] or y[0] == "frag" else None)
    for ci, c in enumerate(p["comps"]):
        walk(c[2], lambda y, ci=ci, c=c: out.append(dict(p, comps=p["comps"][:ci] + [c[:2] + [y] + c[3:]] + p["comps"][ci + 1:])))
    if p.get("lb"):
        out.append(dict(p, lb=""))
    if p.get("ed"):
        out.append(dict(p, ed="2021"))
    if p.get("late"):
        out.append({k: v for k, v in p.items() if k != "late"})
    if p.get("scope"):
        out.append({k: v for k, v in p.items() if k != "scope"})
    for ci, c in enumerate(p["comps"]):
        for k in ("name", "ret", "unsafe", "where", "deco"):
            if k in c[3]:
                out.append(dict(p, comps=p["comps"][:ci] + [c[:3] + [{a: b for a, b in c[3].items() if a != k}]] + p["comps"][ci + 1:]))
    if p["comps"] and not re.search(r'"calla?", %d\b' % (len(p["comps"]) - 1), json.dumps([p["root"], p["comps"]])):
        out.append(dict(p, comps=p["comps"][:-1]))
    seen, res = set(), []
    for x in out:
        j = json.dumps(x)
        if j not in seen:
            seen.add(j)
            res.append(x)
    return sorted(res, key=size)


def size(p):
    return len(json.dumps(p))


def fix9999(p):
    """A number of its own for every value put in by a reduction."""
    n = [4000]

    def f(x):
        if isinstance(x, list):
            if x == ["s", 9999]:
                n[0] += 1
                return ["s", n[0]]
            return [f(y) for y in x]
        return x
    return dict(p, root=f(p["root"]), comps=[f(c) for c in p["comps"]])


def smaller(prop, mine, sim, cls, seconds=100):
    import check
    end = time.time() + seconds
    root = os.path.join(WORK, "gen-shrink")
    best = None
    while time.time() < end:
        tried = []
        for k in sorted(mine):
            tried += [(k, fix9999(r)) for r in reductions(mine[k])]
        tried.sort(key=lambda t: size(t[1]))
        tried = tried[:160]
        if not tried:
            break
        # all candidates in one build, after the programs themselves
        progs = dict(mine)
        base = len(mine)
        for i, (k, r) in enumerate(tried):
            progs[base + i] = r
        good, bad = prepare(root, progs, check.TARGET)
        names = order(good, 8)
        binary = os.path.join(check.TARGET, "release", "gen")
        found = None
        for i, (k, r) in enumerate(tried):
            if base + i not in good or time.time() > end:
                continue
            s = remap(sim, lambda j: names.index(base + i if j == k else j))
            for shift in [0] + ([-1, -2, -3, -4, -6, -8, -12] if re.search(r"^fault", s, re.M) else []):
                s2 = re.sub(r"^fault panic (\d+)", lambda m: "fault panic %d" % max(1, int(m.group(1)) + shift), s, flags=re.M)
                f = os.path.join(root, "c.replay")
                open(f, "w").write(s2)
                o = subprocess.run([binary, "--replay", f, "--timeout", "5"], env=check.env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                m = re.search(r"^%s: (.*)$" % re.escape(cls), o.stdout, re.M)
                if o.returncode == 1 and m:
                    found = (k, r, remap(s2, lambda j: k if names[j] == base + i else names[j]), m.group(1))
                    break
            if found:
                break
        if not found:
            break
        k, r, sim, msg = found
        mine = dict(mine)
        mine[k] = r
        best = msg
    # values no longer asked for
    ids = set(re.findall(r"\(\w+ (\d+)", " ".join(ast_prog(p) for p in mine.values()))) | {"0"}
    sim = "\n".join(l for l in sim.split("\n") if not l.startswith("op val ") or l.split()[2] in ids)
    sim = "\n".join(l for l in sim.split("\n") if not l.startswith("#"))
    return mine, sim, best


def written(p):
    """Whether this is a program at all."""
    try:
        source(p)
        return True
    except (LookupError, TypeError, AttributeError):
        return False


def smaller_broken(prop, p, msg, seconds=60):
    import check
    end = time.time() + seconds
    root = os.path.join(WORK, "gen-shrink")
    while time.time() < end:
        c = dict(enumerate(fix9999(r) for r in reductions(p)[:120]))
        c = {k: r for k, r in c.items() if written(r)}
        if not c:
            break
        emit(root, c, 8)
        errs = locate(build(root, check.TARGET) or {})
        ok = [k for k in sorted(errs) if any(errs[k][0].split(":")[0][:40] == msg.split(" / ")[0].split(":")[0][:40] for _ in "x")]
        if not ok:
            break
        p = c[ok[0]]
    return p, msg
