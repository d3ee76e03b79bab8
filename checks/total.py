"""P17: every query on any text has an answer, in bounds and always the same."""
import itertools, json, os, re
from vlib.core import *
from checks.rules import mc, uniq

TOK = re.compile(r'\s+|"(?:[^"\\\n]|\\.)*"|\w+|::|->|=>|[^\w\s]')

BASES = [
    "#[ink::contract(env = crate::E, keep_attr = \"a, b\")]\nmod c {\n    #[ink(storage)]\n    pub struct S { a: u8 }\n\n    impl S {\n        #[ink(constructor, selector = 0xA, payable)]\n        pub fn new(a: u8) -> Self { Self { a } }\n\n        #[ink(message)]\n        #[ink(selector = _)]\n        pub fn get(&self) -> u8 { self.a }\n    }\n}\n",
    "#[ink::contract]\npub mod é {\n    #[ink(event, anonymous)]\n    pub struct Ev { #[ink(topic)] a: Vec<(u8, ())>, /* 💝 */ b: u8 }\n    #[ink::event(signature_topic = \"1111\")]\n    struct E2(#[ink(topic)] u8);\n    #[ink(storage)] struct S;\n    impl S { #[ink(message)] fn m(&mut self) {} }\n}",
    "#[ink::trait_definition(namespace = \"ns\", keep_attr = \"foo\")]\npub trait T: Super<u8> {\n    #[ink(message, selector = 1)]\n    fn m(&self, a: &str) -> Result<(), ()>;\n    #[ink(message, payable, default)]\n    fn n(&mut self);\n}\nimpl T for S { #[ink(message)] fn m(&self) {} }",
    "#[ink::chain_extension(extension = 1)]\npub trait C {\n    type ErrorCode = Err;\n    #[ink(function = 0x1, handle_status = false)]\n    fn f(a: u8) -> [u8; 4];\n    #[ink(extension = 2, returns_result = false)]\n    fn g();\n}\n#[derive(scale::Encode, scale_info::TypeInfo)]\npub struct Err;\nimpl ink::env::chain_extension::FromStatusCode for Err { fn from_status_code(c: u32) -> Result<(), Self> { match c { 0 => Ok(()), _ => panic!() } } }",
    "#[cfg(test)]\nmod tests {\n    use super::*;\n    #[ink::test]\n    fn works() { let x = ink::env::invoke_contract::<E>(&p); assert!(x.is_ok()); }\n}\n#[cfg(all(test, feature = \"e2e-tests\"))]\nmod e2e {\n    #[ink_e2e::test(additional_contracts = \"a\", environment = E, keep_attr = \"x\", backend(node(url = \"ws://x\")))]\n    async fn t(mut client: ink_e2e::Client<C, E>) -> R { client.call(&alice(), m, 0, None).await?; Ok(()) }\n}",
    "#[ink::storage_item(derive = false)]\n#[derive(Debug)]\npub enum I<T> where T: Clone { A(T), B { x: u8 }, }\n#[ink::scale_derive(Encode, Decode)]\nunion U { a: u8, b: () }\n#[ink(impl, namespace = \"n\")]\nimpl S { #[ink(message)] pub fn x(&self) {} }",
    "use ink::combine_extensions;\nink::combine_extensions! {\n    /// Doc\n    pub struct X { pub a: A, #[cfg(x)] pub b: crate::m::B }\n}\nmacro_rules! m { ($x: expr) => { #[ink(message)] fn f() {} } }\n#[ink::contract] mod d { m!(1); }",
    "/// doc\n//! inner\n#![cfg_attr(not(feature = \"std\"), no_std, no_main)]\r\n#[ink::contract]\r\nmod a {\r\n\t#[ink(storage)]\r\n\tpub struct A<'a, T: Fn(u8) -> u8> { r: &'a T, s: r#\"x\"# }\r\n\timpl<'a> A<'a> { #[ink::constructor] pub unsafe extern \"C\" fn new() -> Option<Self> {} }\r\n}",
    "#[ink(",
    "#[ink::contract(\nmod c { #[ink(storage",
]
FRAGS = ["#[ink::contract]", "#[ink(", "#[ink(message, selector =", "#[ink", "#[", "#![", "]", ")]", ")", "(", "{", "}", "[", "=", ",", ",,", "::", ";", ":", "<", ">", "->", "mod m {", "impl S {", "impl T for S {", "pub fn f(&self) {", "trait T {", "struct S {",
         "0x", "0xFFFFFFFFF", "99999999999999999999", "-1", "1.5", "\"", "'", "r#\"", "b'a'", "_", "@", "/*", "//", "///", "*/", "\u00e9", "\U0001f49d", "\u4e2d", "\u200d", "\ufeff", "\0", "\r\n", "\r", "\t", "\n", " ",
         "#[ink::event(", "anonymous", "topic", "selector", "#[ink_e2e::test(", "backend(", "node(url", "ink::", "ink", "self", "super::", "crate::", "macro_rules! m {", "$x", "use a::*;", "..", "|x|", "where", "&mut self", "-> Self", "#[cfg(", "#[ink::trait_definition(",
         "keep_attr = \"a\"", "namespace =", "env =", "selector = @", "type ErrorCode =", "fn", "pub", "async", "unsafe", "ink::combine_extensions! {", "#[ink::scale_derive(", "derive = true", "let x =", "client.call(", "#[ink::event]", "#[ink(event)] struct E {}"]

DEEP = ["mod a {" * 60, "#[ink(" * 60, "#[ink::contract] mod c { " + "impl S { fn f() { " * 30, "(" * 100, "#[ink(message" + "(" * 80, "mod a { #[ink::contract] " * 20 + "}" * 20, "#[ink(message)] " * 80 + "fn f() {}", "#[ink(" + "topic, " * 120 + ")]", "/*" * 60,
        "#[ink::contract] mod c { " + "#[ink(storage)] struct S { a: u8 } impl S { #[ink(constructor)] pub fn new() -> Self {} #[ink(message)] pub fn m(&self) {} } " * 12 + "}", "use a::" + "{b::" * 50 + "c" + "}" * 50 + ";"]


def texts(lines, bases):
    """Replays editing histories."""
    toks = [TOK.findall(b) for b in bases]
    for x in lines:
        t = list(toks[x["b"] - 1])
        for e in x["log"]:
            o, i, f = e["o"], e["i"], e["x"]
            if o == "delete":
                del t[i - 1]
            elif o == "repeat":
                t.insert(i, t[i - 1])
            elif o == "exchange":
                t[i - 1], t[i] = t[i], t[i - 1]
            elif o == "type":
                t.insert(i, FRAGS[-f - 1])
            elif o == "replace":
                t[i - 1] = FRAGS[-f - 1]
            elif o == "tail":
                t = t[:i]
            elif o == "head":
                t = t[i - 1:]
            else:
                t += t[i - 1:f]
        assert len(t) == x["len"], x
        yield "".join(t)


# ------------------------------------------------------------- imports

MODS = ["", "a", "b", "a::n"]
PATHS = ["crate::a::T", "crate::b::T", "self::T", "super::T", "a::T", "b::T", "n::T", "crate::T", "T", "crate::a::n::T", "super::super::T", "crate::U", "self::U"]
GLOBS = ["crate::a", "crate::b", "self", "super", "crate", "a", "n", "super::super", "crate::a::n"]


def decls():
    out = []
    for m in MODS:
        for k in ("struct T", "enum T {}", "trait T", "type T = U", "type U = T", "struct U"):
            out.append({"m": m, "k": "def", "p": k, "n": "T"})
        out += [{"m": m, "k": "use", "p": p, "n": "T"} for p in PATHS]
        out += [{"m": m, "k": "alias", "p": p, "n": "U"} for p in PATHS[:10]]
        out += [{"m": m, "k": "glob", "p": p, "n": ""} for p in GLOBS]
        out += [{"m": m, "k": "impl", "p": p, "n": ""} for p in ("ink::env::Environment for T", "FromStatusCode for T", "scale::Decode for U", "T for S")]
    return out


def program(x):
    def line(d):
        p = d["p"]
        return {"def": lambda: "pub " + p + (" { #[ink(message)] fn m(&self); }" if p.startswith("trait") else ";" if "{" not in p else ""), "use": lambda: f"pub use {p};", "alias": lambda: f"pub use {p} as U;", "glob": lambda: f"pub use {p}::*;",
                "impl": lambda: f"impl {p} {{}}"}[d["k"]]()
    body = {m: [line(d) for d in x["d"] if d["m"] == m] for m in MODS}
    r = x["r"]
    tail = ("#[ink::contract(env = %s)]\nmod c {\n  #[ink(storage)] pub struct S {}\n  impl S { #[ink(constructor)] pub fn new() -> Self { S {} } #[ink(message)] pub fn g(&self) {} }\n  impl %s for S { #[ink(message)] fn m(&self) {} }\n}\n"
            "#[ink::trait_definition] pub trait Q { #[ink(message)] fn m(&self); }\n#[ink::chain_extension]\npub trait X { type ErrorCode = %s; #[ink(extension = 1)] fn f(); }\n") % (r, "super::" + r if not r.startswith("crate") else r, r)
    return "\n".join(body[""]) + "\nmod a {\n" + "\n".join(body["a"]) + "\nmod n {\n" + "\n".join(body["a::n"]) + "\n}\n}\nmod b {\n" + "\n".join(body["b"]) + "\n}\n" + tail


# ----------------------------------------------------------------- the check

def bulk(chk, label, srcs, stride=60):
    jobs = []
    for i, t in enumerate(srcs):
        for v in "45":
            jobs.append({"op": "probe", "src": t, "v": v, "stride": max(1, len(t) // stride), "phase": chk.rng.randrange(1000)})
    n = 0
    for j, r in zip(jobs, vh(jobs)):
        if "n" not in r:
            chk.violation(f"{label}: {h(j['src'])}", f"{label}, ink! {j['v']}: {r.get('panic')} on {j['src'][:2000]!r}", j)
            continue
        n += r["n"]
        if r["bad"]:
            b = r["bad"][0]
            chk.violation(f"{label}: {b['q'][0]} {re.sub('[0-9]+', 'N', str(b['bad']))[:120]}", f"{label}, ink! {j['v']}: {b['q']} gives {b['bad']} on {j['src'][:2000]!r}", dict(j, bad=r["bad"]))
        else:
            chk.ok(f"{j['v']} {j['src']}", label)
    chk.traces += len(jobs)
    chk.log(f"{label}: {len(srcs)} texts, {n} queries")


KINDS = ["completions", "signature", "hover", "actions", "extract", "inlay"]


def recorded(chk, srcs):
    """Queries in any order, on two instances, recorded and checked by TLC against spec/Answers.tla."""
    jobs = []
    for t in srcs:
        b = t.encode()
        offs = [i for i in range(len(b) + 1) if i == len(b) or b[i] & 0xC0 != 0x80]
        v = chk.rng.choice("45")
        qs = [["diagnostics", 0, 0], ["inlays", 0, 0]] + ([["migrate", 0, 0]] if v == "4" else [])
        for k in KINDS:
            for _ in range(3):
                s = chk.rng.choice(offs)
                e = s if chk.rng.random() < 0.5 or k in ("completions", "signature") else chk.rng.choice([o for o in offs if s <= o <= s + 40])
                qs.append([k, s, e])
        asked = [q + [i] for q in qs for i in chk.rng.choice([(0, 0), (0, 1), (1, 0, 1)])]
        chk.rng.shuffle(asked)
        jobs.append({"op": "probe", "src": t, "v": v, "qs": asked})
    res = vh(jobs)
    path = os.path.join(chk.dir, "answers.ndjson")
    n = 0
    with open(path, "w") as f:
        for i, (j, r) in enumerate(zip(jobs, res)):
            b = j["src"].encode()
            ev = []
            for q, a in zip(j["qs"], r.get("a") or [{"panic": r.get("panic") or "?"}] * len(j["qs"])):
                ev.append({"q": f"{q[0]} {q[1]} {q[2]}", "fail": "" if "digest" in a else str(a.get("panic"))[:80] or "?", "ranges": a.get("ranges", []), "edits": a.get("edits", []), "note": a.get("note", ""), "digest": a.get("digest", "")})
            n += len(ev)
            f.write(json.dumps({"id": i, "n": len(b), "holes": [o for o in range(len(b)) if b[o] & 0xC0 == 0x80], "ev": ev}) + "\n")
    r = tlc("Answers", cfg_text="SPECIFICATION Spec\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n", env_vars={"TRACE": path}, workers=1, timeout=800)
    chk.add_tlc(r)
    done = [x for x in r.lines if "asked" in x]
    if not done or done[-1]["asked"] != n:
        raise ToolError("the recorded trace was not read to its end")
    bad = {}
    for x in r.lines:
        if "why" in x:
            bad.setdefault(x["id"], x)
    for i, j in enumerate(jobs):
        if i in bad:
            x = bad[i]
            chk.violation(f"recorded: {x['q'].split()[0]} {x['why']}", f"ink! {j['v']}: {x['why']} for {x['q']} on {j['src'][:2000]!r}", dict(j, why=x))
        else:
            chk.ok("recorded " + j["v"] + j["src"], "recorded")
    chk.traces += len(jobs)
    chk.log(f"recorded: {len(jobs)} texts, {n} answers checked by TLC")
    return n


def p17(chk):
    rng, m = chk.rng, 8 if chk.thorough else 1
    lens = [len(TOK.findall(b)) for b in BASES]
    every = {"delete", "repeat", "exchange", "type", "replace", "tail", "head", "paste"}
    pool = []

    def go(label, cap, bases, ops, n, sim=None, frags=1000, **kw):
        r = mc("Soup", {"Bases": tuple(len(TOK.findall(b)) for b in bases), "Frags": set(rng.sample(range(1, len(FRAGS) + 1), min(frags, len(FRAGS)))), "MaxOps": n, "Ops": ops, "Some": bool(sim)}, ["Tokens", "Grown"], **(dict(simulate=sim, depth=n + 1, seed=chk.seed) if sim else {}))
        chk.add_tlc(r)
        l = uniq(r.lines)
        total = len(l)
        if len(l) > cap:
            l = rng.sample(l, cap)
        t = sorted(set(texts(l, bases)))
        chk.log(f"{label}: {total} texts in the model, {len(t)} replayed")
        bulk(chk, label, t, **kw)
        pool.extend(rng.sample(t, min(len(t), 250 * m)))

    # One edit of a program; two of its tokens and fragments; fragments only; long histories.
    go("one edit", 4000 * m, BASES, every - {"paste"}, 1, frags=92 if chk.thorough else 24, stride=10)
    go("fragments", 4000 * m, [""], {"type"}, 2)
    go("incomplete", 3000 * m, BASES[8:9], {"type", "delete", "replace"}, 2)
    go("history", 1500 * m, [""] * 2 + BASES, every, 8, sim=100 * m, stride=15)
    bulk(chk, "deep", DEEP + [d[:len(d) // 2] for d in DEEP], stride=25)
    D = decls()
    refs = {"crate::T", "T", "crate::a::T", "crate::U", "a::n::T"}
    one = uniq(mc_imports(chk, D, refs, 1) + mc_imports(chk, D, refs, 6, sim=40 * m))
    if len(one) > 4000 * m:
        one = rng.sample(one, 4000 * m)
    t = sorted({program(x) for x in one})
    bulk(chk, "imports", t, stride=4)
    pool.extend(rng.sample(t, min(len(t), 250 * m)))
    recorded(chk, pool)
    return "Total, InBounds, Applicable, Consistent, SameAsBefore (spec/Answers.tla) over the texts of spec/Soup.tla and spec/Imports.tla"


def mc_imports(chk, D, refs, n, sim=None):
    r = mc("Imports", {"Decls": D, "Refs": refs, "MaxDecls": n}, ["NoneTwice"], **(dict(simulate=sim, depth=n + 1, seed=chk.seed) if sim else {}))
    chk.add_tlc(r)
    return [x for x in r.lines]
