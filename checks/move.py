"""P15, P16: code that is rewritten and moved (migration to ink! 5, event extraction)."""
import collections, itertools, json, os, random, re, tomllib, zlib
from urllib.parse import quote
from vlib.core import *
from checks.rules import mc, uniq, tla
from checks.manifests import p15_manifests, p16_manifests, EXIT
from vlib.lspmodel import Doc, doc_changes, clean

CTX = ["let a = H;", "H;", "if H { y }", "if let Some(z) = H { y }", "if y { H }", "if y { } else { H }", "if y { } else if H { }",
       "if y { } else if z { H }", "while H { }", "while let Some(z) = H { }", "while y { H; }", "loop { H; }", "for z in H { }", "for z in y { H; }",
       "match H { _ => 1 };", "match y { z if H => 1, _ => 2 };", "match y { _ => H };", "let c = || H;", "let c = |z| { H };", "{ H; }", "return H;",
       "H?;", "(H);", "!H;", "let r = &H;", "let r = *H;", "let r = H as u8;", "let r = H.f;", "H[0];", "y[H];", "let t = (y, H);", "let t = [y, H];",
       "let t = [H; 2];", "let t = S { f: H };", "let t = S { ..H };", "let t = y + H;", "y = H;", "y += H;", "let t = H..y;", "let t = y..H;",
       "H.await;", "H.m(y);", "y.m(H);", "g(H);", "g(y, H)(z);", "let Some(z) = H else { y };", "let Some(z) = y else { H };", "unsafe { H };",
       "async { H };", "loop { break H; }", "fn inner() { H; }", "if H && y { }", "let c = || -> u8 { H };", "{ y; H };", "S(H);", "let r: u8 = H;",
       "if y { if H { } }", "match y { _ => { if H { } } };"]
X = {"k": "x"}
# An inner function is not part of the test around it; awaiting is part of a client call.
INNER = ["fn inner() { H; }", "H.await;"]


def heads(subs, e2e=False):
    """Every expression form around the given subexpressions."""
    out = []
    for e in subs:
        for f in ("invoke", "instantiate"):
            out += [{"k": "host", "f": f, "p": p, "v": 4, "e": e} for p in ("ink::env::", "ink_env::", "", "other::")]
            out += [{"k": "env", "f": f, "r": r, "v": 4, "e": e} for r in ("self.", "Self::")]
            out += [{"k": "same", "f": f, "r": r, "e": e} for r in ("self.helper().", "obj.", "mine::")]
        for p in ("ink::env::call::", "ink_env::call::", "", "other::"):
            out += [{"k": "bcall", "p": p, "mid": m, "v": 4, "e": e} for m in ([], ["gas_limit"], ["transferred_value", "returns"])]
            out += [{"k": "bcreate", "p": p, "v": 4, "e": e}]
            out += [{"k": "cnew", "p": p, "g": g, "v": 4, "e": e} for g in ("", "::<Env>")]
    return out


def clients(subs):
    out = []
    for e in subs:
        for m in ("call", "call_dry_run", "instantiate", "instantiate_dry_run", "upload", "balance", "create_and_fund_account", "runtime_call"):
            vals = ("0", "7 + 1") if m.startswith(("call", "inst")) else ("0",)
            lims = ("None", "Some(9)", "limit") if m in ("call", "instantiate", "upload") else ("Option::None",)
            for val, lim in itertools.product(vals, lims):
                for aw in (True, False) if (val, lim) == (vals[0], lims[0]) else (True,):
                    out.append({"k": "client", "m": m, "val": val, "lim": lim, "aw": aw, "v": 4, "e": e})
    return out


def msgs(p):
    return [{"k": "msg", "form": f, "p": p, "c": c, "v": 4, "e": X} for f in ("build", "builder") for c in ("expr", "block", "return")]


def ctxs(subs, skip=()):
    return [{"k": "ctx", "c": c, "e": e} for c in CTX if c not in skip for e in subs]


def term(x):
    """Lists are sequences of the specification."""
    if isinstance(x, dict):
        return {k: term(y) for k, y in x.items()}
    return tuple(term(y) for y in x) if isinstance(x, (list, tuple)) else x


# ------------------------------------------------------------------ rendering

def expr(e):
    k = e["k"]
    if k == "x":
        return "x"
    s, v1 = expr(e["e"]) if k != "ctx" else "", "_v1" if e.get("v") == 5 else ""
    if k == "host":
        return f"{e['p']}{e['f']}_contract{v1}{'::<E, A, R>' if e['p'] else ''}(&{s})"
    if k == "env":
        return f"{e['r']}env().{e['f']}_contract{v1}(&{s})"
    if k == "same":
        return f"{e['r']}{e['f']}_contract(&{s})"
    if k == "bcall":
        return f"{e['p']}build_call::<E>()" + "".join(f".{m}(1)" for m in e["mid"]) + f".call{v1}({s}).invoke()"
    if k == "bcreate":
        return f"{e['p']}build_create::<E>(){'.instantiate_v1()' if v1 else ''}.code_hash({s}).params()"
    if k == "cnew":
        return f"{e['p']}Call{'V1' if v1 else ''}{e['g']}::new({s})"
    if k == "client":
        m, aw = e["m"], ".await" if e["aw"] else ""
        if m in ("balance", "create_and_fund_account", "runtime_call"):
            a = {"balance": s, "create_and_fund_account": f"&alice, {s}", "runtime_call": f"&alice, \"P\", \"c\", {s}"}[m]
            return f"client.{'free_balance' if m == 'balance' and v1 else m}({a}){aw}"
        if m == "upload":
            a, t = f"\"c\", &{s}", [e["lim"]]
        else:
            a, t = (f"&ink_e2e::bob(), {s}" if m.startswith("call") else f"\"c\", &ink_e2e::bob(), {s}"), [e["val"], e["lim"]]
        if not v1:
            return f"client.{m}({', '.join([a] + t)}){aw}"
        post = "" if m == "upload" or e["val"] == "0" else f".value({e['val']})"
        post += "" if e["lim"] in ("None", "Option::None") else ".storage_deposit_limit(9)" if e["lim"] == "Some(9)" else ".storage_deposit_limit(limit)"
        dry = m.endswith("_dry_run")
        return f"client.{m}({a}){post}.{'dry_run' if dry else 'submit'}(){aw}{'?' if dry and aw else ''}"
    if k == "msg":
        if v1:
            return f"ink_e2e::create_call_builder::<F>(acc.clone()).get({s})"
        c = {"expr": f"|f| f.get({s})", "block": f"|f| {{ f.get({s}) }}", "return": f"|f| {{ return f.get({s}); }}"}[e["c"]]
        h = "build_message::<F>" if e["form"] == "build" else "MessageBuilder::<E, F>::from_account_id"
        return f"{e['p']}{h}(acc.clone()).call({c})"
    raise ValueError(k)


def stmt(e):
    return e["c"].replace("H", expr(e["e"])) if e["k"] == "ctx" else f"let a = {expr(e)};"


NOISE = 0        # which of the notations of derive lists is used for the text to be migrated
NOTES = ("/* n, m */", "// n, m")


def derives(l):
    """A derive list; white space and comments between its tokens mean nothing (comments need not survive)."""
    n = NOISE % 8 if any(codec1(x) for x in l) else 0
    if n == 3:
        return "derive(" + " , ".join(x.replace("::", " :: ") for x in l) + " ,)"
    if n == 4:
        return "derive(" + ", ".join(f"{NOTES[0]} {x}" for x in l) + ")"
    if n == 5:
        return "derive(\n" + ", ".join(f"{x} {NOTES[1]}\n" for x in l) + ")"
    if n == 6:
        return "derive(" + ",".join(x.replace("::", "\n::\n") for x in l) + f", {NOTES[1]}\n)"
    if n == 7:
        return f"derive {NOTES[0]} (" + ",\n".join(x.replace("::", f"::{NOTES[0]}") for x in l) + ")"
    return f"derive({', '.join(l)})"


def codec1(t):
    return "::" in t and not t.startswith("other")


def attr(a):
    if a["k"] == "derive":
        return f"#[{derives(a['l'])}]"
    if a["k"] == "cfg":
        parts = ["feature = \"std\""] + ["allow(x)"] * a["pre"] + ([derives(a["l"])] if a["l"] else []) + ["allow(y)"] * a["post"]
        return f"#[cfg_attr({', '.join(parts)})]"
    if a["k"] == "scale":
        return f"#[ink::scale_derive({', '.join(a['l'])})]"
    if a["k"] == "ink":
        return f"#[ink({', '.join(a['l'])})]"
    if a["k"] == "event":
        return f"#[ink::event{'(' + ', '.join(a['l']) + ')' if a['l'] else ''}]"
    return a["t"]


BODIES = [("struct", "{ a: u8, b: u8 }"), ("struct", "(u8);"), ("enum", "{ A, B(u8) }"), ("struct", ";")]


def item(it, n):
    k = it["k"]
    if k == "fn":
        return [f"fn f{n}(&self) {{"] + ["    " + stmt(e) for e in it["b"]] + ["}"]
    if k == "type":
        kw, b = BODIES[it["s"]]
        return [attr(a) for a in it["a"]] + [f"pub {kw} {it['n']}{b}" if b[0] != "{" else f"pub {kw} {it['n']} {b}"]
    if k in ("event", "sevent"):
        return [attr(a) for a in it["a"]] + [f"pub struct {it['n']} {{", "    #[ink(topic)]", "    a: u8,", "    b: u8, // b", "}"]
    if k == "ext":
        out = ["#[ink::chain_extension" + (f"(extension = {it['id']})" if it["id"] else it["form"]) + "]", f"pub trait {it['n']} {{", "    type ErrorCode = E;"]
        for i, f in enumerate(it["f"]):
            for a in f:
                out.append("    #[ink(" + ", ".join({"extension": f"extension = {i + 1}", "function": f"function = {i + 1}"}.get(x, "handle_status = false") for x in a) + ")]")
            out.append(f"    fn m{i}(a: u8) -> u8;")
        return out + ["}"]
    if k == "e2e":
        val = {"environment": "environment = crate::E", "additional_contracts": "additional_contracts = \"a/Cargo.toml\"", "keep_attr": "keep_attr = \"k\""}
        a = ", ".join(val[x] for x in it["args"])
        sig = "<Client: E2EBackend>(mut client: Client)" if it["v"] == 5 else "(mut client: ink_e2e::Client<C, E>)"
        fn = [f"#[ink_e2e::test{'(' + a + ')' if a else ''}]", f"async fn t{n}{sig} -> R {{"] + ["    " + stmt(e) for e in it["b"]] + ["    Ok(())", "}"]
        if it["loc"] == "here":
            return fn
        uses = []
        for u in it["uses"]:
            if u["s"] == "one":
                uses += [f"use ink_e2e::{x};" for x in u["l"]]
            elif u["s"] == "list":
                uses.append("use ink_e2e::{" + ", ".join(u["l"]) + "};")
            else:
                uses.append("use {" + ", ".join([f"ink_e2e::{x}" for x in u["l"]]) + "};")
        return [f"#[cfg(test)]", f"mod e{n} {{", "    use super::*;"] + ["    " + u for u in uses + sorted(it["ins"])] + ["    " + x for x in fn] + ["}"]
    return {"const": ["/// `#[ink(event)]`", "const C: &str = /* scale::Encode */ \"invoke_contract\";"], "impl": ["impl scale::Encode for Z { fn encode(&self) { } }"],
            "mac": ["m! { #[derive(scale::Encode)] struct M; }"], "doc": ["/// Doc", "#[derive(Debug)]", "struct D;"]}[it["w"]]


IMP = ["use ink::env::{instantiate_contract, invoke_contract, DefaultEnvironment};", "use ink::env::call::{build_call, build_create, Call};"]


def render(d, head, flat):
    out = list(head) + sorted(d["ins"]["root"]) + (IMP if "root" in d["imp"] else [])
    for i, it in enumerate(d["root"]):
        out += item(it, i)
    if d["con"] or d["ins"]["con"]:
        out += ["#[ink::contract]", "mod c {"] + (["    #![allow(unused)]"] if head else []) + (["    //! Inner"] if len(head) == 1 else []) + ["    " + x for x in (IMP if "con" in d["imp"] else []) + sorted(d["ins"]["con"])]
        for i, it in enumerate(d["con"]):
            out += ["    " + x for x in item(it, "c%d" % d["no"][i])]
        out += ["}"]
    if flat:
        return " ".join(x + "\n" if "//" in x else x.strip() for x in out)
    return "\n".join(out) + "\n"


TOK = re.compile(r"""(?P<skip>\s+)|(?P<tok>//[^\n]*|/\*.*?\*/|b?r?"(?:[^"\\]|\\.)*"|b?'(?:[^'\\]|\\.)'|'\w+|\w+|.)""", re.S)


def toks(text):
    """Tokens; trailing commas dropped, neighbouring imports sorted."""
    out = []
    for m in TOK.finditer(text):
        if m.lastgroup == "tok":
            t = m.group().rstrip()
            if t in NOTES:
                continue
            if t in ")]}" and out and out[-1] == ",":
                out.pop()
            out.append(t)
    res, i = [], 0
    while i < len(out):
        if out[i] != "use":
            res.append(out[i])
            i += 1
            continue
        run = []
        while i < len(out) and out[i] == "use":
            j = out.index(";", i)
            run.append(out[i:j + 1])
            i = j + 1
        for u in sorted(run):
            res += u
    return res


def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    j = 0
    while j < min(len(a), len(b)) - i and a[-1 - j] == b[-1 - j]:
        j += 1
    return f"expected `{' '.join(a[i:len(a) - j])}`, got `{' '.join(b[i:len(b) - j])}` after `{' '.join(a[max(0, i - 8):i])}`"


SIG5 = "<Client: E2EBackend>(mut client: Client)"


def resigned(text, e):
    """Whether the edit only repeats the generic parameters of a migrated test (a known finding)."""
    b = text.encode()
    return e["t"] == SIG5 and b[e["r"][0]:e["r"][1]].decode() == "(mut client: Client)" and b[:e["r"][0]].decode().endswith("<Client: E2EBackend>")


def reimported(text, e):
    """Whether the edit only inserts an import of an e2e trait that the text already has (a known finding)."""
    t = e["t"].strip()
    return e["r"][0] == e["r"][1] and t in ("use ink_e2e::ChainBackend;", "use ink_e2e::ContractsBackend;") and t in text


def nested(e):
    """Calls inside the arguments of calls of the e2e client or of message builders (a known finding)."""
    if e["k"] == "x":
        return False
    return nested(e["e"]) or (e["k"] in ("client", "msg") and e["e"]["k"] != "x")


KNOWN = [
    ("nested e2e call", "a call inside the arguments of a call of the e2e client is not migrated",
     "mod e { #[ink_e2e::test] async fn t(mut client: ink_e2e::Client<C, E>) -> R { let a = client.call(&bob(), ink_e2e::build_message::<F>(acc).call(|f| f.get()), 0, None).await; Ok(()) } }",
     "mod e { use ink_e2e::ContractsBackend; #[ink_e2e::test] async fn t<Client: E2EBackend>(mut client: Client) -> R { let a = client.call(&bob(), ink_e2e::create_call_builder::<F>(acc).get()).submit().await; Ok(()) } }"),
    ("nested builder call", "a call inside the callback of a message builder is not migrated",
     "mod e { #[ink_e2e::test] async fn t(mut client: ink_e2e::Client<C, E>) -> R { let a = ink_e2e::build_message::<F>(acc).call(|f| f.get(ink_e2e::build_message::<G>(acc).call(|g| g.id()))); Ok(()) } }",
     "mod e { #[ink_e2e::test] async fn t<Client: E2EBackend>(mut client: Client) -> R { let a = ink_e2e::create_call_builder::<F>(acc).get(ink_e2e::create_call_builder::<G>(acc).id()); Ok(()) } }"),
    ("file level e2e import", "the import for an e2e test at file level is inserted before the inner attributes of the file",
     "#![allow(unused)]\n#[ink_e2e::test] async fn t(mut client: ink_e2e::Client<C, E>) -> R { let a = client.call(&bob(), x, 0, None).await; Ok(()) }",
     "#![allow(unused)]\nuse ink_e2e::ContractsBackend; #[ink_e2e::test] async fn t<Client: E2EBackend>(mut client: Client) -> R { let a = client.call(&bob(), x).submit().await; Ok(()) }"),
]


def known_cases(chk):
    for (key, what, src, want), o in zip(KNOWN, vh([{"op": "migrate", "src": k[2]} for k in KNOWN])):
        if "text" not in o or o["bad"] or toks(o["text"]) != toks(want):
            # Listed only for these very inputs, with well-formed edits; anything worse is a violation.
            worse = "text" not in o or o["bad"]
            chk.violation(key if not worse else key + " fails", what, {"src": src, "want": want, "got": o})
        else:
            chk.ok(src, "known")
        chk.traces += 1


def migrate_cases(chk, lines, label):
    jobs = []
    for x in lines:
        d, m = x["d"], x["m"]
        if not d["root"] and not d["con"]:
            continue
        h = zlib.crc32(json.dumps(d, sort_keys=True).encode())
        head = ["//! Doc", "#![cfg_attr(not(feature = \"std\"), no_std, no_main)]"] if h % 3 else []
        head = head[:1] if h % 7 == 0 or any(it["k"] == "e2e" and it["loc"] == "here" for it in d["root"]) else head
        d["no"] = list(range(len(d["con"])))
        m["no"] = [i for i, it in enumerate(d["con"]) if it["k"] != "event"]
        flat = h % 5 == 0
        global NOISE
        NOISE = h // 11
        src = render(d, head, flat)
        NOISE = 0
        jobs.append((label, h, src, render(m, head, flat)))
    obs = vh([{"op": "migrate", "src": j[2]} for j in jobs])
    for (lab, h, src, want), o in zip(jobs, obs):
        key, bad = f"{lab}", None
        if "text" not in o:
            bad = f"the migration fails: {str(o)[:200]}"
        elif o["bad"]:
            bad = f"malformed edits: {o['bad']}"
        elif o["errs0"]:
            chk.notes.append(f"not a valid program: {src[:300]}")
            raise AssertionError("rendering does not parse: " + src)
        elif toks(o["text"]) != toks(want):
            bad = diff(toks(want), toks(o["text"]))
        elif o["errs"]:
            bad = f"{o['errs']} syntax errors in the migrated text"
        elif [e for e in o["again"] if not resigned(o["text"], e) and not reimported(o["text"], e)]:
            bad = f"migrating the result changes it again: {[e for e in o['again'] if not resigned(o['text'], e) and not reimported(o['text'], e)][:2]}"
        else:
            for e in o["again"]:
                if resigned(o["text"], e):
                    chk.violation("migrated e2e signature", "migrating the result repeats the generic parameters of an e2e test", {"src": src, "got": o})
                else:
                    chk.violation("repeated e2e import", "migrating the result repeats an import for e2e tests", {"src": src, "got": o})
        if bad:
            chk.violation(f"{lab}: {bad}", bad, {"src": src, "want": want, "got": o})
        else:
            chk.ok(src, lab)
    chk.traces += len(jobs)


DER = [["scale::Encode", "scale::Decode"], ["Debug", "scale::Encode"], ["scale::Encode", "Clone", "scale::Decode", "scale_info::TypeInfo"],
       ["::scale::Encode"], ["parity_scale_codec::Decode", "Debug"], ["scale_info::TypeInfo"], ["Debug", "Clone"], ["other::Encode", "ink::scale::Encode"]]


def attrs():
    out = [{"k": "derive", "l": l} for l in DER] + [{"k": "plain", "t": "#[allow(dead_code)]"}, {"k": "plain", "t": "/// Doc"}]
    for l in DER:
        out += [{"k": "cfg", "l": l, "pre": p, "post": q} for p in (False, True) for q in (False, True)]
    return out


def codecs(seq):
    n = [t.split("::")[-1] for a in seq for t in a.get("l", []) if "::" in t and not t.startswith("other")]
    return len(n) == len(set(n))


def p15(chk):
    rng = chk.rng
    big = chk.thorough
    fn = lambda b: {"k": "fn", "b": b}
    invs = ["Complete", "Idempotent", "Lossless", "Unrelated", "Distinct"]

    def go(label, root, con, n, imports=((),), sim=None):
        kw = {}
        if sim:
            kw = dict(simulate=sim, depth=n + 1, seed=chk.seed)
        consts = {"RootItems": [term(x) for x in root], "ConItems": [term(x) for x in con], "MaxItems": n, "Imports": [list(i) for i in imports]}
        r = mc("Migrate", consts, invs, **kw)
        chk.add_tlc(r)
        migrate_cases(chk, uniq(r.lines), label)

    # Expressions: every form in every context, nested forms, with and without imports.
    h1 = heads([X])
    one = [fn([e]) for e in ctxs(h1)]
    nest = [fn([e]) for e in heads(h1)]
    if not big:
        one, nest = rng.sample(one, 700), rng.sample(nest, 400)
    go("expression", one + nest, [], 1, ((), ("root",)))
    go("expression in contract", [], rng.sample(one, min(len(one), 2000 if big else 250)), 1, ((), ("con",), ("root",)))
    # Attributes.
    at = attrs()
    seqs = [s for n in (1, 2, 3) for s in itertools.product(at, repeat=n) if n < 3 or codecs(s)] if big else \
           [s for n in (1, 2) for s in itertools.product(at, repeat=n)]
    if len(seqs) > 4000:
        seqs = rng.sample(seqs, 4000)
    elif not big:
        seqs = rng.sample(seqs, min(len(seqs), 900))
    types = [{"k": "type", "n": "T", "s": i % 4, "a": list(s)} for i, s in enumerate(seqs)]
    go("type", types, [], 1)
    # Events.
    inks = [[["event"]], [["event", "anonymous"]], [["event"], ["anonymous"]], [["anonymous"], ["event"]]]
    evs = []
    for ink in inks:
        for s in [()] + [(a,) for a in at] + rng.sample(seqs, 40):
            al = list(s)
            for i in ink:
                al.insert(rng.randint(0, len(al)) if len(ink) == 1 else len(al), {"k": "ink", "l": i})
            evs.append({"k": "event", "n": "Ev", "a": al})
    go("event", [], evs, 1)
    # Chain extensions.
    fs = [[["extension"]], [["extension", "handle"]], [["handle", "extension"]], [["extension"], ["handle"]], [["handle"], ["extension"]]]
    exts = [{"k": "ext", "n": "Ext", "id": i, "form": f, "f": list(x)} for n in (0, 1, 2) for x in itertools.product(fs, repeat=n)
            for i, f in ((0, ""), (0, "()"), (1, ""), (2, ""), (7, ""))]
    go("extension", exts, [], 1)
    go("extensions", [e for e in exts if len(e["f"]) == 1 and e["f"][0] == fs[0]], [], 3)
    # End-to-end tests.
    argss = [list(p) for n in range(4) for p in itertools.permutations(["environment", "additional_contracts", "keep_attr"], n)]
    usess = [[], [{"s": "one", "l": ["build_message"]}], [{"s": "list", "l": ["build_message", "MessageBuilder"]}], [{"s": "list", "l": ["Keypair", "build_message"]}],
             [{"s": "list", "l": ["build_message", "Keypair", "MessageBuilder"]}], [{"s": "top", "l": ["build_message", "MessageBuilder"]}],
             [{"s": "one", "l": ["Keypair"]}, {"s": "list", "l": ["MessageBuilder"]}], [{"s": "top", "l": ["Keypair", "MessageBuilder"]}]]
    test = lambda b, loc="mod", args=(), uses=(): {"k": "e2e", "loc": loc, "args": list(args), "uses": list(uses), "b": b, "v": 4, "ins": set()}
    both = [{"s": "list", "l": ["build_message", "MessageBuilder"]}]
    tests = [test([], loc, a) for a in argss for loc in ("mod", "here")] + [test([], "mod", a, u) for u in usess for a in argss[:3]]
    body = clients([X]) + clients([]) + msgs("ink_e2e::") + clients(msgs("ink_e2e::")[:3]) + ctxs(clients([X])[::9], INNER)
    tests += [test([e], loc) for e in body for loc in ("mod", "here")]
    tests += [test([e], "mod", (), both) for e in msgs("") + clients(msgs("")) + ctxs(msgs("")[:2], INNER)]
    tests += [test([e, f], "here") for e, f in [rng.sample(body, 2) for _ in range(60)]]
    tests += [test([e], "here") for e in heads(clients([X])[:2])[:20] + clients(heads([X]))[::17]]
    tests = [t for t in tests if not any(nested(e) for e in t["b"])]
    if not big:
        tests = rng.sample(tests, min(len(tests), 700))
    go("e2e test", tests, [], 1)
    go("e2e test in contract", [], rng.sample(tests, min(len(tests), 150)), 1)
    # Files of several items.
    other = [{"k": "other", "w": w} for w in ("const", "impl", "mac", "doc")]
    pick = lambda l, n: rng.sample(l, min(n, len(l)))
    two = [fn([a, b]) for a, b in zip(pick(h1, 8), pick(h1, 8))]
    go("file", pick(one, 10) + two + pick(types, 12) + pick(exts, 8) + pick(tests, 10) + other,
       pick(one, 10) + pick(types, 10) + pick(evs, 12) + pick(tests, 10) + other, 6, ((), ("root", "con")), sim=300 if big else 60)
    known_cases(chk)
    p15_manifests(chk)
    return "Mig (spec/Migrate.tla), Migrated (spec/Manifest.tla)"


# ------------------------------------------------------------------ P16
ELEM = {"in1": "#![allow(unused)]", "in2": "//! Inner doc", "use1": "use ink::storage::Mapping;", "use2": "pub use super::{a, b};", "item1": "#[ink(storage)]\npub struct C { a: u8 }",
        "item2": "impl C {\n    #[ink(message)]\n    pub fn m(&self) { use x::y; self.env().emit_event(EVENT { a: 1 }); }\n}", "item3": "// A comment\nconst X: u8 = 1;",
        "item4": "#[ink(event)]\npub struct Other { a: u8 }", "item5": "mod nested {\n    use z::z;\n    fn f() {}\n}"}
PIECE = {"doc": "/// Doc é.", "blk": "/** Block\n    doc */", "com": "// Comment", "der": "#[derive(Debug, Clone)]", "cfg": "#[cfg(feature = \"x\")]",
         "cfga": "#[cfg_attr(feature = \"std\", derive(scale_info::TypeInfo))]", "dattr": "#[doc = \"attr\"]"}
BODY = {"empty": " {}", "one": " { a: u8 }", "many": " {\n    /// Field.\n    #[ink(topic)]\n    a: AccountId,\n    // Note\n    #[cfg(x)]\n    pub b: Option<[u8; 32]>,\n}", "unit": ";", "tuple": "(pub u8);", "gen": "<T> where T: X { a: T }"}
SIG = 'signature_topic = "' + "1a" * 32 + '"'
ARG = {"event": "event", "anonymous": "anonymous", "sig": SIG}


def piece(p):
    if p["k"] == "ink":
        return f"#[ink({', '.join(ARG[a] for a in p['l'])})]"
    if p["k"] == "event":
        return "#[ink::event" + (f"({', '.join(ARG[a] for a in p['l'])})" if p["l"] else "") + "]"
    return PIECE[p["t"]]


def lead(s, ind):
    return "\n".join(ind + l if l else l for l in s.split("\n"))


def extract_text(x, mod):
    """The source with the given module elements, and where the event is."""
    e = x["ev"]
    body = "\n".join([piece(p) for p in e["pieces"]] + [f"pub struct {e['name']}{BODY[e['body']]}"])
    out = []
    for m in mod:
        if m["k"] == "event":
            if x["place"] != "file":
                out.append("\x01" + body + "\x02")
        elif m["k"] == "import":
            out.append(m["t"])
        else:
            out.append(ELEM[m["t"]].replace("EVENT", e["name"]))
    inner = "\n".join(lead(o, "    ") for o in out)
    if x["place"] == "inner":
        inner = "    use outer::o;\n    mod events {\n" + lead(inner, "    ") + "\n    }\n    fn g() {}"
    t = f"// é€😀 start\n#[ink::contract]\nmod c {{\n{inner}\n}}\n"
    if x["place"] == "file":
        t += "\x01" + body + "\x02\n"
    return t


def split_event(t):
    i = t.find("\x01")
    j = t.find("\x02") - 1
    return t.replace("\x01", "").replace("\x02", ""), i, j


def apply_lsp(doc, edits, enc):
    """Applies edits of one document; returns None if they overlap."""
    es = sorted(((doc.off(e["range"]["start"], enc), doc.off(e["range"]["end"], enc), i, e["newText"].encode()) for i, e in enumerate(edits)))
    b, out, last = doc.b, b"", 0
    for s, t, _, n in es:
        if s < last or t < s:
            return None
        out += b[last:s] + n
        last = t
    return (out + b[last:]).decode()


def extract_cases(chk, lines, label):
    base = os.path.join(chk.dir, "x-" + label.replace(" ", "-"))
    jobs, cases = [], []
    for n, x in enumerate(lines):
        hh = zlib.crc32(json.dumps([x, chk.seed], sort_keys=True).encode())
        rng = random.Random(hh)
        d = os.path.join(base, str(n))
        os.makedirs(d)
        src, i, j = split_event(extract_text(x, x["mod"]))
        want = split_event(extract_text(x, x["out"]["mod"]))[0] if x["out"]["ok"] else None
        pk = x["pkg"]
        for k in x["taken"]:
            p = os.path.join(d, pk + (str(k) if k else ""))
            if rng.random() < 0.5:
                os.makedirs(p)
            else:
                open(p, "w").write("x")
        deps = ['ink = { version = "5", default-features = false }']
        if x["dep"]:
            deps.append(f'{x["pkg"]} = "1"')
        man = "[package]\nname = \"c\"\n\n[dependencies]\n" + "\n".join(deps) + "\n"
        open(os.path.join(d, "Cargo.toml"), "w").write(man)
        b = lambda c: len(src[:c].encode())
        cur = x["cur"]
        ev = src[i:j]
        at = {"name": i + ev.index("struct ") + 8, "kw": i + ev.index("struct ") + 2, "attr": i + ev.index("#[ink") + 4, "body": j - 1, "module": src.index("mod c") + 1}
        if cur == "whole":
            r = (i, j)
        elif cur == "item":
            o = src.find("const X")
            o = o + 3 if o >= 0 else src.index("#[ink::contract]") + 2
            r = (o, o)
        else:
            o = at[cur]
            r = (o, o) if rng.random() < 0.6 else (o, min(o + 1, j)) if cur == "name" else (o, o)
        uri = "file://" + quote(d + "/lib.rs")
        enc = rng.choice(["utf-8", "utf-16", "utf-32"])
        caps = {"general": {"positionEncodings": [enc]}}
        v = rng.choice([1, 2])
        if v == 2:
            caps["workspace"] = {"applyEdit": True, "workspaceEdit": {"documentChanges": True, "resourceOperations": ["create"]}}
        jobs.append({"op": "session", "handshake": False, "caps": caps, "limit": 60, "msgs": [
            {"method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "rust", "version": 1, "text": src}}},
            {"id": 7, "method": "workspace/executeCommand", "params": {"command": "extractEvent", "arguments": [{"uri": uri, "range": {"start": b(r[0]), "end": b(r[1])}}]}}, EXIT]})
        cases.append((x, d, uri, src, want, man, enc))
    for (x, d, uri, src, want, man, enc), o in zip(cases, vh(jobs)):
        key = f"{label} {json.dumps({k: v for k, v in x.items() if k != 'out'}, sort_keys=True)}"
        step = o["steps"][1] if len(o.get("steps", [])) > 1 else []
        bad = judge(x, d, uri, src, want, man, enc, step)
        if bad:
            chk.violation(key, f"{bad}; source: {src!r}", {"src": src, "want": want, "expected": x["out"], "got": step or o})
        else:
            chk.ok(key, label)
    chk.traces += len(cases)


def judge(x, d, uri, src, want, man, enc, step):
    files, edits = None, None
    for m in step:
        if m.get("error"):
            return None if not x["out"]["ok"] else f"an event is not extracted: {m['error']}"
        res = m.get("result")
        if isinstance(res, dict) and "files" in res:
            files, edits = res["files"], res["edits"]
        ops = ((m.get("params") or {}).get("edit") or {}).get("documentChanges")
        if ops:
            s = doc_changes(ops)
            if s is None:
                return f"malformed workspace edit {ops}"
            files, edits = s
    if not x["out"]["ok"]:
        return f"no error: {step}"[:400]
    if files is None:
        return f"no result: {step}"[:400]
    out = x["out"]
    base = "file://" + quote(d) + "/"
    pdir = base + quote(out["pkg"] + (str(out["dir"]) if out["dir"] else ""))
    if set(files) != {pdir + "/Cargo.toml", pdir + "/src/lib.rs"}:
        return f"expected a package in {pdir[len(base):]}, got {sorted(f[len(base):] for f in files)}"
    if set(edits) != {uri, base + "Cargo.toml"}:
        return f"unexpected files are edited: {sorted(edits)}"
    got = apply_lsp(Doc(src), [clean(e) for e in edits[uri]], enc)
    if got is None:
        return "overlapping edits"
    if toks(got) != toks(want):
        return "the contract differs: " + diff(toks(want), toks(got))
    e = x["ev"]
    lib = files[pdir + "/src/lib.rs"]
    head = f"pub struct {e['name']}"
    if lib.count(head) != 1:
        return f"the event is not in the package: {lib!r}"
    pre, post = lib.split(head)
    s = out["src"]
    need = [piece(p) for p in s["comments"]] + [piece(p) for p in s["attrs"]] + [piece({"k": "event", "l": s["arg"]})]
    flat = lambda t: re.sub(r"\n[ \t]*", "\n", t)
    rest = flat(pre)
    for kind in (s["comments"], s["attrs"]):
        pos = 0
        for p in kind:
            k = rest.find(flat(piece(p)), pos)
            if k < 0:
                return f"`{piece(p)}` is lost or out of order in the package: {lib!r}"
            rest = rest[:k] + rest[k + len(flat(piece(p))):]
            pos = k
    if toks(rest) != toks(piece({"k": "event", "l": s["arg"]})):
        return f"unexpected attributes in the package: `{rest.strip()}` instead of `{need[-1]}`"
    if toks(post) != toks(BODY[e["body"]]):
        return "the event differs: " + diff(toks(BODY[e["body"]]), toks(post))
    m = tomllib.loads(files[pdir + "/Cargo.toml"])
    if m["package"]["name"] != out["pkg"] or not re.match(r"^\^?5", str(m["dependencies"]["ink"]["version"])):
        return f"wrong package manifest: {m}"
    new = edits[base + "Cargo.toml"]
    got = apply_lsp(Doc(man), [clean(y) for y in new], enc)
    w = tomllib.loads(man)
    w["dependencies"][out["pkg"]] = {"path": out["pkg"] + (str(out["dir"]) if out["dir"] else ""), "default-features": False}
    if got is None or tomllib.loads(got) != w:
        return f"wrong manifest of the contract: {got!r}"
    return None


def p16(chk):
    rng, big = chk.rng, chk.thorough
    el = lambda *ks: [{"k": k.rstrip("0123456789"), "t": k} for k in ks]
    ELS = el(*ELEM)
    PCS = [{"k": "comment", "t": t} for t in ("doc", "blk", "com")] + [{"k": "attr", "t": t} for t in ("der", "cfg", "cfga", "dattr")]
    INK = [{"k": "ink", "l": l} for l in (("event",), ("event", "anonymous"), ("anonymous",), ("event", "sig"), ("sig",))] + [{"k": "event", "l": l} for l in ((), ("anonymous",), ("sig",))]
    CUR = ["name", "kw", "attr", "body", "whole", "item", "module"]
    invs = ["OnlyTheEvent", "NothingLost", "ValidImport", "ValidName"]
    name = lambda s: tuple(s)

    def go(label, cap, sim=None, depth=None, **kw):
        c = {"Elems": [], "MaxElems": 0, "Pieces": INK[:1], "MaxPieces": 1, "Names": [name("MyEvent")], "Bodies": ["one"], "Places": ["con"], "Cursors": ["name"], "Taken": [set()], "Deps": [False]}
        c.update(kw)
        k = dict(simulate=sim, depth=depth, seed=chk.seed) if sim else {}
        r = mc("Extract", {a: ([term(y) if not isinstance(y, (set, frozenset)) else y for y in b] if isinstance(b, list) else b) for a, b in c.items()}, invs, **k)
        chk.add_tlc(r)
        l = uniq(r.lines)
        for x in l:
            x["taken"] = sorted(x["taken"])
        if len(l) > cap:
            l = rng.sample(l, cap)
        extract_cases(chk, l, label)

    big_ = 8 if big else 1
    go("module", 500 * big_, Elems=ELS, MaxElems=3, Places=["con", "inner"])
    go("event", 600 * big_, Pieces=PCS + INK, MaxPieces=3 if not big else 4, Bodies=["many"])
    go("body", 200 * big_, Pieces=INK + PCS[:2], MaxPieces=2, Bodies=list(BODY), Places=["con", "inner", "file"], Cursors=CUR, Elems=el("item3"), MaxElems=1)
    alpha = ["A", "B", "a", "b", "1", "_"]
    names = ["".join(p) for n in (1, 2, 3, 4) for p in itertools.product(alpha, repeat=n) if p[0] not in "1"]
    names = [n for n in names if n.strip("_")]
    words = ["Move", "Type", "Match", "TransferCompleted", "HTTPRequest", "Use", "Yield", "Try", "Box", "Async", "Approval2", "ERC20Transfer", "Do_It", "Static_", "In", "Moved", "_Hidden", "X", "Union", "Final", "Final_"]
    go("name", 700 * big_, Names=[name(n) for n in (names if big else rng.sample(names, 250)) + words])
    tk = [set(), {0}, {1}, {0, 1}, {0, 2}, set(range(10)), set(range(11)), set(range(3)), set(range(1, 11))]
    go("directory", 100 * big_, Taken=tk, Deps=[False, True], Names=[name("MyEvent"), name("Move")])
    go("all", 300 * big_, Elems=ELS, MaxElems=4, Pieces=PCS + INK, MaxPieces=5, Bodies=list(BODY), Places=["con", "inner", "file"], Cursors=CUR, Taken=tk[:5], Deps=[False],
       Names=[name(w) for w in words[:6]], sim=60 * big_, depth=10)
    p16_manifests(chk)
    return "Out (spec/Extract.tla), Added (spec/Manifest.tla)"

