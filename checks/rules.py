"""P07-P12: the semantic rules of ink! entities."""
import json
from vlib.core import *
from vlib.rules import *


def seq(xs):
    return "{" + ", ".join(xs) + "}"


def tla(x):
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return json.dumps(x)
    if isinstance(x, dict):
        return "[" + ", ".join(f"{k} |-> {tla(y)}" for k, y in x.items()) + "]"
    if isinstance(x, tuple):
        return "<<" + ", ".join(tla(y) for y in x) + ">>"
    return "{" + ", ".join(tla(y) for y in x) + "}"


def cfg(consts, invs, spec="Spec"):
    return "CONSTANTS\n" + "".join(f"  {k} = {tla(v)}\n" for k, v in consts.items()) + f"SPECIFICATION {spec}\nINVARIANTS {' '.join(invs)} Emit\nCHECK_DEADLOCK FALSE\n"


def mc(module, consts, invs, spec="Spec", emit="Emit", props=(), **kw):
    """Constants with sequences cannot be given in a configuration file: generate a model module."""
    name = "MC" + module
    body = f"---- MODULE {name} ----\nEXTENDS {module}\n"
    c = ""
    for k, v in consts.items():
        body += f"def_{k} == {tla(v)}\n"
        c += f"  {k} <- def_{k}\n"
    body += "====\n"
    text = "CONSTANTS\n" + c + f"SPECIFICATION {spec}\nINVARIANTS {' '.join(invs)} {emit}\n" + (f"PROPERTIES {' '.join(props)}\n" if props else "") + "CHECK_DEADLOCK FALSE\n"
    return tlc(name, cfg_text=text, extra_files={name + ".tla": body}, **kw)


def uniq(lines):
    seen = {}
    for x in lines:
        seen[json.dumps(x, sort_keys=True)] = x
    return [seen[k] for k in sorted(seen)]


# ------------------------------------------------------------------ P07

CMSG = {
    "no-storage": "Missing ink! storage definition.",
    "extra-storage": "Only one ink! storage definition can be defined for an ink! contract.",
    "no-callable": "At least one ink! {x} must be defined for an ink! contract.",
    "extra-contract": "Only one ink! contract per file is currently supported.",
    "not-inline": "The content of an ink! contract's `mod` item must be defined inline.",
    "overlap": "Selectors must be unique across all ink! {x}s in an ink! contract.",
    "overlap-value": "Selector values must be unique across all ink! {x}s in an ink! contract.",
    "wildcards": "At most one wildcard (`_`) selector can be defined across all ink! {x}s in an ink! contract.",
    "wild-alone": "An ink! contract that contains a wildcard (`_`) selector must also define exactly one other message annotated with a wildcard complement (`@`) selector.",
    "compl-twice": "At most one wildcard complement (`@`) selector can be defined in an ink! contract that contains a wildcard (`_`) selector.",
    "not-compl": "Exactly one other message that must be annotated with a wildcard complement (`@`) selector can be defined in an ink! contract that contains a wildcard (`_`) selector.",
    "compl-only": "The wildcard complement (`@`) selector can only used if another message with a wildcard (`_`) is defined.",
    "ns-trait": "ink! namespace argument is not allowed on trait ink! impl blocks.",
}
# other notations of the same number
# Ways of writing a reference to the associated error code type, and places for it.
SELFTEXT = ["Self::ErrorCode", "Self::ErrorCode", "Self :: ErrorCode", "Self::/* c */ErrorCode", "Self\n::ErrorCode"]
SELFPOS = [(" -> Result<u8, ", ">"), (" -> Result<u8, ", ">"), (" -> ", ""), (" -> Vec<(u8, Option<", ">)>"), (" -> [", "; 2]")]
IDTEXT = {"0x1": ["0x1", "0b1", "1u16", "0x0_1"], "0x0001": ["0x0001", "0x1u32", "0o1", "/* 7 */ 1"], "0xA": ["0xA", "1_0", "0b1010", "10_u16"], "0xa": ["0xa", "0o12", "0x0_a", "10 /* 1 */"],
          "0x2": ["0x2", "0b10", "2u8"]}
one = lambda xs, key: xs if isinstance(xs, str) else xs[pick(key, len(xs))]
SELTEXT = {"i1": "1", "i1x": ["0x1", "0b1", "0o1", "1u32", "0x1u32", "0_1"], "i1X": ["0x00000001", "0x0000_0001", "1_u8", "001", "/* 2 */ 1 /* 3 */"], "i2": "2", "@": "@", "_": "_", "iip2": "0x9BAE9D5E", "iip2d": ["2611912030", "2_611_912_030", "0x9bae_9d5e", "2611912030u32", "0o23353516536"],
           "hash-a": "0x" + hashlib.blake2b(b"a", digest_size=32).hexdigest()[:8]}


def render_contract(p, key):
    """Layout details (attribute splitting, spacing, comments, order of storage and impls) do not matter for the judgement."""
    st = pick(key, 24)
    nl = "\n" if st % 2 == 0 else " "
    s = Src()
    if st % 3 == 1:
        s.w("#![cfg_attr(not(feature = \"std\"), no_std, no_main)]\n")
    if st % 5 == 2:
        s.w("// é 😀 comment\n")
    with s.span("contract1"):
        if not p["inline"]:
            s.w("#[ink::contract]", nl, "mod my_contract;")
        else:
            s.w("#[ink::contract]", nl, "mod my_contract {", nl)

            def storages():
                for i in range(p["storages"]):
                    with s.span(f"storage{i+1}"):
                        s.w("#[ink(storage)]", nl, f"pub struct S{i} {{}}", nl)

            def impls():
                for i, (ns, tr) in enumerate(p["impls"]):
                    calls = [(j + 1, c) for j, c in enumerate(p["calls"]) if c["i"] == i + 1]
                    if ns:
                        s.w("#[ink(").put(f"namespace{i+1}", f'namespace = "{ns}"').w(")]", nl)
                    elif st % 7 == 3:
                        s.w("#[ink(impl)]", nl)
                    s.w("impl ", (tr + " for ") if tr else "", "S0 {", nl)
                    for j, c in calls:
                        with s.span(f"call{j}"):
                            kw = "constructor" if c["k"] == "c" else "message"
                            pay = ", payable" if (st + j) % 4 == 1 else ""
                            if st % 6 == 5:
                                s.w("/// docs\n")
                            if c["s"]:
                                if (st + j) % 3 == 2:
                                    s.w(f"#[ink({kw}{pay})]", nl, "#[ink(")
                                else:
                                    s.w(f"#[ink({kw}{pay}, ")
                                with s.span(f"selector{j}"):
                                    eq = " = " if st % 4 else "="
                                    s.w("selector" + eq).put(f"value{j}", one(SELTEXT[c["s"]], f"{st}/{j}"))
                                s.w(")]", nl)
                            else:
                                s.w(f"#[ink({kw}{pay})]", nl)
                            s.w("" if tr else "pub ", "fn ").put(f"name{j}", c["n"])
                            s.w("() -> Self { Self {} }" if c["k"] == "c" else "(&self) {}")
                        s.w(nl)
                    s.w("}", nl)
            if st % 2 and p["storages"]:
                impls(); storages()
            else:
                storages(); impls()
            s.w("}", nl)
    for n in range(2, p["contracts"] + 1):
        with s.span(f"contract{n}"):
            s.w(nl, f"#[ink::contract] mod other{n} {{ #[ink(storage)] pub struct T{n} {{}} impl T{n} {{ #[ink(constructor)] pub fn new() -> Self {{ Self {{}} }} #[ink(message)] pub fn get(&self) {{}} }} }}")
    return s


def contract_cases(states):
    cases = []
    for st in states:
        p = st["p"]
        key = json.dumps(p, sort_keys=True)
        s = render_contract(p, key)
        # Without a body nothing can be inserted: reports at the same place without a fix may be merged into one.
        pred = [({(CMSG[d["m"]].format(x=d["x"]), "Error")}, f"{d['a']}{d['j']}", d["m"] == "no-callable" and not p["inline"]) for d in st["d"]]
        cls = "valid" if not pred else "+".join(sorted({d["m"] for d in st["d"]}))[:60]
        cases.append((key, s.text, p["v"], pred, s.spans, cls))
    return cases


CINV = ["TypeOK", "Judged", "EachReported", "OnlyC"]
NOIMPL = ("", "")


def p07(chk):
    T = chk.thorough
    base = dict(Versions={4, 5}, Storages={1}, Contracts={1}, Inlines={True}, ImplShapes={NOIMPL}, MaxImpl=1, MaxCall=2, Names={"a"}, CSels={""}, MSels={""})
    runs = [
        ("structure", dict(base, Storages={0, 1, 2, 3}, Contracts={1, 2, 3}, Inlines={True, False}, MaxImpl=2, MaxCall=3, Names={"a"})),
        ("selectors", dict(base, MaxCall=4 if T else 3, Names={"a", "b"} if T else {"a"}, CSels={"", "i1", "_"}, MSels={"", "i1x", "_", "@", "iip2"})),
        ("values", dict(base, MaxCall=2, Names={"a", "b"}, CSels={"", "i1", "i1x", "i1X", "i2", "_", "hash-a", "iip2"}, MSels={"", "i1", "i1x", "i1X", "i2", "_", "@", "iip2", "iip2d", "hash-a"})),
        ("paths", dict(base, MaxImpl=2, MaxCall=2 if not T else 3, Names={"a", "T"}, CSels={""}, MSels={"", "hash-a"},
                       ImplShapes={("", ""), ("T", ""), ("n", ""), ("", "T"), ("", "q::T"), ("", "q::r::T"), ("", "::q::T"), ("", "::T"), ("", "::q::r::T"), ("", "crate::T"), ("n", "T")})),
    ]
    for name, c in runs:
        r = mc("Contract", c, CINV)
        chk.add_tlc(r)
        sts = uniq(r.lines)
        limit = 60000 if T else 6000
        if len(sts) > limit:
            chk.notes.append(f"{name}: {len(sts)} programs enumerated by TLC, {limit} sampled for replay")
            sts = chk.rng.sample(sts, limit)
        chk.log(f"{name}: {r.states} states")
        run_cases(chk, contract_cases(sts), "contract " + name)
        chk.sample(sts[len(sts) // 2])
    # Larger programs: random behaviours of the same specification.
    c = dict(base, Storages={0, 1, 2}, Contracts={1, 2}, MaxImpl=3, MaxCall=7, Names={"a", "b", "T"}, CSels={"", "i1", "i2", "_", "hash-a"}, MSels={"", "i1", "i1x", "i2", "_", "@", "iip2", "hash-a"},
             ImplShapes={("", ""), ("T", ""), ("", "T"), ("", "q::r::T"), ("", "::q::T")})
    r = mc("Contract", c, CINV, simulate=500 if T else 60, depth=11, seed=chk.seed)
    chk.add_tlc(r)
    xs = uniq(r.lines)
    run_cases(chk, contract_cases(xs if T else chk.rng.sample(xs, min(len(xs), 4000))), "contract random")
    return "one evaluation = one program predicted by the specification and analysed by the real code; distinct by abstract program"


# ------------------------------------------------------------------ P09

SMSG = {
    "const": "ink! {x} must not be `const`.", "async": "ink! {x} must not be `async`.", "unsafe": "ink! {x} must not be `unsafe`.",
    "abi": "ink! {x} must not have explicit ABI.", "gen": "Generic parameters on an ink! {x} are not currently supported.",
    "dots": "ink! {x} must not be variadic.",
    "pub-or-inherited": "ink! {x} must have `pub` or inherited visibility.",
    "inherent-pub": "ink! {x}s in inherent ink! impl blocks must have `pub` visibility.",
    "trait-inherited": "ink! {x}s in trait ink! impl blocks must have inherited visibility.",
    "need-self-ref": "ink! message must have a self reference receiver (i.e `&self` or `&mut self`).",
    "no-self": "ink! {x} must not have a self receiver (i.e no `&self`, `&mut self`, self or mut self).",
    "return-self": "ink! message must not return `Self`.",
    "need-return": "ink! constructor must have a return type.",
    "struct-pub": "ink! {x} must have `pub` visibility.",
    "event-gen": "Generic types on ink! event `struct` items are not currently supported.",
    "impl-default": "ink! impl must not be `default`.", "impl-unsafe": "ink! impl must not be `unsafe`.",
    "impl-gen": "Generic parameters on an ink! impl are not currently supported.",
    "impl-targs": "Generic types on an ink! impl are not supported.",
}
GOOD_C = "#[ink(constructor)] pub fn okc() -> Self { Self {} }"
GOOD_M = "#[ink(message)] pub fn okm(&self) -> u8 { 0 }"


def render_sig(st, key):
    c, v = st["ctx"], st["v"]
    k = pick(key, 12)
    nl = "\n" if k % 2 else " "
    sp = "  " if k % 5 == 4 else " "
    s = Src()

    def fn(j, it, attr, body):
        with s.span(f"item{j}"):
            if k % 3 == 1:
                s.w("/// docs\n")
            s.w(attr, nl)
            if k % 4 == 3:
                s.w("#[allow(unused)]", nl)
            for f in ("vis", "const", "async", "unsafe", "abi"):
                if it[f]:
                    s.put(f"{f}{j}", it[f]).w(sp)
            s.w(f"fn f{j}")
            if it["gen"]:
                s.put(f"gen{j}", it["gen"])
            s.w("(")
            first = True
            for f in ("recv", "par", "dots"):
                if it[f]:
                    if not first:
                        s.w(", ")
                    s.put(f"{f}{j}", it[f])
                    first = False
            s.w(")")
            if it["ret"]:
                s.w(" -> ").put(f"ret{j}", it["ret"])
            s.w(body)
        s.w(nl)

    def struct(j, it, attr):
        with s.span(f"item{j}"):
            s.w(attr, nl)
            if it["vis"]:
                s.put(f"vis{j}", it["vis"]).w(sp)
            s.w(f"struct St{j}")
            if it["gen"]:
                s.put(f"gen{j}", it["gen"])
            s.w(" { a: u8 }" if k % 3 else ";")
        s.w(nl)

    if c in ("def-msg",):
        s.w("#[ink::trait_definition]", nl, "pub trait Tr {", nl)
        for j, it in enumerate(st["items"], 1):
            fn(j, it, "#[ink(message)]", ";")
        s.w("}", nl)
    elif c == "ext-fn":
        s.w("#[ink::chain_extension" + ("(extension = 1)" if v == 5 else "") + "]", nl, "pub trait Ext {", nl, "type ErrorCode = Err;", nl)
        for j, it in enumerate(st["items"], 1):
            fn(j, it, f"#[ink({'function' if v == 5 else 'extension'} = {j})]", ";")
        s.w("}", nl)
        d = "#[ink::scale_derive(Encode, Decode, TypeInfo)]" if v == 5 else "#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)]"
        s.w(d, " pub struct Err; impl ink::env::chain_extension::FromStatusCode for Err { fn from_status_code(c: u32) -> Result<(), Self> { Ok(()) } }", nl)
    else:
        s.w("#[ink::contract]", nl, "mod c {", nl)
        if c != "storage":
            s.w("#[ink(storage)] pub struct C {}", nl)
        if c in ("storage", "event", "event2"):
            its = list(enumerate(st["items"], 1))
            if c == "storage":
                its = its[:1]
            for j, it in its:
                struct(j, it, {"storage": "#[ink(storage)]", "event": "#[ink(event)]", "event2": "#[ink::event]"}[c])
            s.w("impl C {", nl, GOOD_C, nl, GOOD_M, nl, "}", nl)
        else:
            kw = "constructor" if "ctor" in c else "message"
            body = " { todo!() }"
            s.w("impl C {", nl, GOOD_C, nl, GOOD_M, nl, "}", nl) if k % 2 else None
            im = st["im"]
            for f in ("default", "unsafe"):
                if im[f]:
                    s.put(f"impl-{f}0", im[f]).w(sp)
            s.w("impl")
            if im["gen"]:
                s.put("impl-gen0", im["gen"])
            s.w(" ", "Foreign for " if c.startswith("trait") else "", "C")
            if im["targs"]:
                s.put("impl-targs0", im["targs"])
            s.w(" {", nl)
            for j, it in enumerate(st["items"], 1):
                fn(j, it, f"#[ink({kw})]", body)
            s.w("}", nl)
            s.w("impl C {", nl, GOOD_C, nl, GOOD_M, nl, "}", nl) if not k % 2 else None
        s.w("}", nl)
    return s


def p09(chk):
    T = chk.thorough
    ctxs = {"ctor", "msg", "trait-ctor", "trait-msg", "def-msg", "ext-fn", "storage", "event", "event2"}
    r = mc("Signatures", dict(Versions={4, 5}, Contexts=ctxs, MaxEdits=2, MaxItems=2), ["BaseClean", "Local", "Independent"])
    chk.add_tlc(r)
    deep = mc("Signatures", dict(Versions={4, 5}, Contexts=ctxs, MaxEdits=9, MaxItems=2), ["BaseClean", "Local", "Independent"],
              simulate=400 if T else 25, depth=10, seed=chk.seed)
    chk.add_tlc(deep)
    one = [x for x in uniq(r.lines) if not (x["ctx"] == "storage" and len(x["items"]) > 1)]
    rnd = [x for x in uniq(deep.lines) if not (x["ctx"] == "storage" and len(x["items"]) > 1)]
    if T:
        three = mc("Signatures", dict(Versions={5}, Contexts=ctxs, MaxEdits=3, MaxItems=1), ["BaseClean", "Local", "Independent"])
        chk.add_tlc(three)
        one += [x for x in uniq(three.lines) if x not in one] if False else uniq(three.lines)
    else:
        lim = 14000
        if len(one) > lim:
            chk.notes.append(f"{len(one)} programs with at most two edits enumerated, {lim} sampled for replay in the quick tier")
            few = [x for x in one if len(x["items"]) == 1]
            rest = [x for x in one if len(x["items"]) > 1]
            one = few + chk.rng.sample(rest, max(0, lim - len(few)))
        rnd = chk.rng.sample(rnd, min(len(rnd), 3000))
    for name, sts in (("signature edits", one), ("signature random", rnd)):
        cases = []
        for st in sts:
            key = json.dumps([st["ctx"], st["v"], st["items"], st["im"]], sort_keys=True)
            s = render_sig(st, key)
            pred = [({(SMSG[d["m"]].format(x=d["x"]), "Error")}, f"{d['a']}{d['j']}") for d in st["d"]]
            cases.append((key, s.text, st["v"], pred, s.spans, st["ctx"] + (" valid" if not pred else " " + "+".join(sorted({d["m"] for d in st["d"]}))[:40])))
        run_cases(chk, cases, name)
        chk.sample(sts[len(sts) // 3])
    return "one evaluation = one edited signature or declaration predicted by the specification and analysed; distinct by abstract program"


# ------------------------------------------------------------------ P10

TMSG = {
    "unsafe": "ink! {w} must not be `unsafe`.", "auto": "ink! {w} must not be `auto` implemented.",
    "gen": "Generic parameters on an ink! {w} are not currently supported.", "super": "ink! {w} must not have any `supertraits`.",
    "vis": "ink! {w} must have `pub` visibility.",
    "const": "Associated `const` items in an ink! {w} are not yet supported.", "macro": "Macros in an ink! {w} are not supported.",
    "type": "Associated types in ink! trait definitions are not yet supported.",
    "body": "ink! {w} functions with a default implementation are not currently supported.",
    "not-message": "All ink! trait definition methods must be ink! messages.",
    "wildcard": "Wildcard selectors (i.e `selector=_`) on ink! trait definition methods are not supported. They're only supported on inherent ink! messages and constructors.",
    "no-message": "At least one ink! message must be defined for an ink! trait definition.",
}
ITEMTEXT = {"const": "const K: u8;", "macro": "mac!();", "type": "type A;"}


def attrs_of(args, k, j, s, name):
    """ink! arguments in one or two attributes; `message` stays first."""
    args = [a for a in ("message", "payable", "default", "selector") if a in dict(args)], dict(args)
    order, vals = args
    if not order:
        return
    rest = order[1:]
    if (k + j) % 3 == 1:
        rest = rest[::-1]
    order = order[:1] + rest
    split = (k + j) % 2 and len(order) > 1
    s.w("#[ink(")
    for n, a in enumerate(order):
        if n:
            s.w(")]\n#[ink(" if split and n == 1 else ", ")
        s.put(f"{name}{a}{j}", a + (f" = {vals[a]}" if vals[a] else ""))
    s.w(")]\n" if k % 4 == 2 else ")] ")


def render_traitdef(st, key):
    k = pick(key, 24)
    nl = "\n" if k % 2 else " "
    s = Src()
    inmod = k % 3 == 2
    if inmod:
        s.w("pub mod m {", nl)
    hd = st["head"]
    with s.span("trait0"):
        if k % 5 == 1:
            s.w("/// docs\n")
        s.w("#[ink::trait_definition" + ["", '(namespace = "n")', '(keep_attr = "x")'][k % 7 % 3] + "]", nl)
        for f in ("vis", "unsafe", "auto"):
            if hd[f]:
                s.put(f + "0", hd[f]).w(" ")
        s.w("trait Tr")
        if hd["gen"]:
            s.put("gen0", hd["gen"])
        if hd["super"]:
            s.put("super0", hd["super"])
        s.w(" {", nl)
        for j, it in enumerate(st["items"], 1):
            with s.span(f"item{j}"):
                if it["k"] in ITEMTEXT:
                    s.w(ITEMTEXT[it["k"]])
                else:
                    if it["k"] == "msg":
                        a = {"": {}, "payable": {"payable": ""}, "sel": {"selector": f"0xA{j}"}, "wild": {"selector": "_"}, "at": {"selector": "@"},
                             "all": {"payable": "", "default": "", "selector": f"{j}"}}[it["a"]]
                        if it["a"] in ("sel", "wild", "at"):
                            a = {**[{}, {"payable": ""}, {"payable": "", "default": ""}, {"default": ""}][pick(f"{key}x{j}", 4)], **a}
                        attrs_of({"message": "", **a}, k, j, s, "")
                    elif it["a"]:
                        s.w("#[allow(unused)] ")
                    s.w(f"fn f{j}(&self" + (", a: u8" if k % 3 == 0 else "") + ")" + (" -> u8 " if k % 4 == 1 else ""))
                    if it["body"]:
                        s.put(f"body{j}", "{ todo!() }")
                    else:
                        s.w(";")
            s.w(nl)
        s.w("}")
    if inmod:
        s.w(nl, "}")
    s.w("\n")
    return s


PARAMS = {"p0": ["(&self)", "( &self )", "(\n&self)"], "p1": ["(&self, a: u8)", "(&self,a:u8)", "(&self, /* c */ a: u8)"], "p2": ["(&self, a: u16)"], "pm": ["(&mut self)", "(& mut self)"],
          "p3": ["(&mut self, a: u8, b: Option<[u8; 32]>)", "(&mut self,\n    a: u8,\n    b: Option<[u8;32]>)"]}
RETS = {"": [""], "u8": ["-> u8", "->u8"], "bool": ["-> bool"], "res": ["-> Result<u8, ()>", "-> Result<u8,()>"]}


def render_traitimpl(st, key):
    k = pick(key, 48)
    nl = "\n" if k % 2 else " "
    s = Src()
    at = {json.dumps(p["at"]): p["ms"] for p in st["places"]}

    def trait(place, vis):
        pid = "/".join(place)
        ms = at.get(json.dumps(place))
        if ms is None:
            return
        with s.span(f"trait1:{pid}"):
            s.w("#[ink::trait_definition]", nl, "pub trait T {", nl)
            for j, m in enumerate(ms, 1):
                with s.span(f"decl{j}:{pid}"):
                    method(m, j, ";", pid + ":d", 0)
                s.w(nl)
            s.w("}", nl)

    def method(m, j, body, pre, alt):
        attrs_of({a: (m["sel"] if a == "selector" else "") for a in m["args"]}, k + alt, j, s, pre)
        with s.span(f"{pre}sig{j}"):
            s.w("fn ", m["name"])
            ps, rs = PARAMS[m["par"]], RETS[m["ret"]]
            s.put(f"{pre}params{j}", ps[(k // 2 + alt) % len(ps)])
            if m["ret"]:
                s.w(" ").put(f"{pre}ret{j}", rs[(k // 3 + alt) % len(rs)])
        s.w(body)

    def root_items():
        trait([], "")
        s.w("pub mod tr {", nl)
        trait(["tr"], "pub ")
        s.w("}", nl)

    def contract():
        s.w("#[ink::contract]", nl, "mod c {", nl)
        if st["use"]:
            p, al = st["use"]
            head, last = p[:-1], p[-1]
            if last == "*":
                s.w("use ", "::".join(p), ";", nl)
            elif k % 3 == 1 and head:
                s.w("use ", "::".join(head), "::{", last, f" as {al}" if al else "", "};", nl)
            elif k % 3 == 2 and head and last == "tr" and al:
                s.w("use ", "::".join(p), "::{self as ", al, "};", nl)
            else:
                s.w("use ", "::".join(p), f" as {al}" if al else "", ";", nl)
        trait(["c"], "pub ")
        s.w("pub mod tr {", nl)
        trait(["c", "tr"], "pub ")
        s.w("}", nl)
        s.w("#[ink(storage)] pub struct C {}", nl, "impl C { #[ink(constructor)] pub fn new() -> Self { Self {} } #[ink(message)] pub fn own(&self) {} }", nl)
        with s.span("impl1"):
            s.w("impl ", "::".join(st["path"]), " for C {", nl)
            for j, e in enumerate(st["extra"], 1):
                s.put(f"extra{j}", {"const": "const K: u8 = 1;", "type": "type A = u8;", "macro": "mac!();"}[e]).w(nl)
            for j, m in enumerate(st["impl"], 1):
                with s.span(f"method{j}"):
                    method(m, j, " { todo!() }", "", 1)
                s.w(nl)
            s.w("}", nl)
        s.w("}", nl)
    if k % 2:
        contract(); root_items()
    else:
        root_items(); contract()
    return s


def perms(first, rest):
    import itertools
    return [first + list(p) for p in itertools.permutations(rest)]


def impl_pred(st, d):
    B = "based on the trait definition declaration for this method."
    m, x, y, a, j = d["m"], d["x"], d["y"], d["a"], d["j"]
    E = lambda t: {(t, "Error")}
    if m == "undeclared":
        return E(f"A `{x}` method isn't declared in the ink! trait definition."), f"method{j}"
    if m == "extra-arg":
        return E(f"The ink! trait definition declaration for this method doesn't have a `{x + (' = ' + y if y else '')}` argument."), f"{x}{j}"
    if m == "value":
        return E(f"ink! selector argument value mismatch: {x} vs {y}, {B}"), f"selector{j}"
    if m == "missing-args":
        txt = lambda q: f"`{q}`" if q != "selector" else f"`selector = {y}`"
        first = ["message"] if "message" in x else []
        return {("Missing ink! argument(s): " + ", ".join(txt(q) for q in p) + ", which are present ink! trait definition declaration for this method.", "Error")
                for p in perms(first, [q for q in x if q != "message"])}, f"method{j}"
    if m == "params":
        return E("The parameter list for this method doesn't match the ink! trait definition declaration for the method."), f"params{j}"
    if m == "no-ret":
        return E("No return type is declared on the ink! trait definition declaration for the method."), f"ret{j}"
    if m == "ret":
        return E("The return type for this method doesn't match the ink! trait definition declaration for the method."), f"{a}{j}"
    if m == "foreign-item":
        return E("An ink! trait definition's implementation can only contain ink! messages."), f"extra{j}"
    if m == "missing":
        return E("Missing message(s) for ink! trait definition implementation."), "impl1"
    if m == "no-callable":
        return E("At least one ink! constructor or ink! message must be defined for an ink! impl without an `#[ink(impl)]` annotation."), "impl1"
    pid = "/".join(x)
    return E(TMSG[m]), f"{a}{j}:{pid}"


def M(name, args=("message",), sel="", par="p0", ret=""):
    return {"name": name, "args": list(args), "sel": sel, "par": par, "ret": ret}


def p10(chk):
    T = chk.thorough
    r = mc("TraitDef", dict(Versions={4, 5}, MaxHead=2, MaxItems=2, MsgArgs={"", "payable", "sel", "wild", "at", "all"}, OtherItems={"const", "macro", "type"}), ["Clean", "ItemLocal"])
    chk.add_tlc(r)
    sts = uniq(r.lines)
    r3 = mc("TraitDef", dict(Versions={4, 5}, MaxHead=5, MaxItems=4, MsgArgs={"", "payable", "sel", "wild", "all"}, OtherItems={"const", "macro", "type"}), ["Clean", "ItemLocal"],
            simulate=300 if T else 30, depth=10, seed=chk.seed)
    chk.add_tlc(r3)
    lim = 60000 if T else 6000
    few = [x for x in sts if x["head"] == {"vis": "pub", "unsafe": "", "auto": "", "gen": "", "super": ""} or len(x["items"]) <= 1]
    rest = [x for x in sts if not (x["head"] == {"vis": "pub", "unsafe": "", "auto": "", "gen": "", "super": ""} or len(x["items"]) <= 1)]
    sts = few + chk.rng.sample(rest, min(len(rest), lim))
    rnd = uniq(r3.lines)
    for name, xs in (("trait definition", sts), ("trait definition random", chk.rng.sample(rnd, min(len(rnd), 20000 if T else 2000)))):
        cases = []
        for st in xs:
            key = json.dumps([st["v"], st["head"], st["items"]], sort_keys=True)
            s = render_traitdef(st, key)
            pred = [({(TMSG[d["m"]].format(w="trait definition"), "Error")}, f"{d['a']}{d['j']}") for d in st["d"]]
            cases.append((key, s.text, st["v"], pred, s.spans, "def " + ("valid" if not pred else "+".join(sorted({d["m"] for d in st["d"]}))[:40])))
        run_cases(chk, cases, name)
        chk.sample(xs[len(xs) // 2])
    # Implementations
    one = dict(Versions={5}, Places={("c",)}, Paths={("T",)}, Uses={()}, Extras={"const", "type", "macro"})
    A = [("message",), ("message", "payable"), ("message", "payable", "selector"), ("message", "selector"), ("message", "default")]
    args = [()] + A
    full_i = [M("a", a, s, p, t) for a in args for s in (("0xA1", "0xA2") if "selector" in a else ("",)) for p in ("p0", "p1", "p2", "pm", "p3") for t in ("", "u8", "bool", "res")]
    full_d = [m for m in full_i if m["sel"] != "0xA2" and m["par"] in ("p0", "p1", "p3") and m["ret"] in ("", "u8", "res")]
    two_i = [M("a"), M("a", ()), M("a", ("message", "payable")), M("b"), M("b", ("message", "selector"), "0xB1"), M("b", par="p1", ret="u8"), M("d"), M("d", ())]
    two_d = [M("a"), M("a", ()), M("b", ("message", "selector"), "0xB1"), M("b", par="p1", ret="u8"), M("d", ("message", "payable"))]
    paths = {("T",), ("U",), ("self", "T"), ("super", "T"), ("crate", "T"), ("tr", "T"), ("x", "T"), ("self", "tr", "T"), ("super", "tr", "T"), ("crate", "tr", "T"), ("crate", "c", "T"), ("crate", "c", "tr", "T"), ("nope", "T"), ("super", "U")}
    uses = {(), (("super", "T"), ""), (("crate", "T"), ""), (("super", "T"), "U"), (("super", "*"), ""), (("crate", "*"), ""), (("crate", "tr", "T"), ""), (("crate", "tr", "*"), ""), (("super", "tr", "T"), "U"),
            (("super", "tr"), "x"), (("crate", "tr"), "x"), (("self", "tr", "T"), ""), (("tr", "T"), ""), (("tr", "*"), ""), (("self", "tr"), "x"), (("nope", "T"), "")}
    runs = [
        ("conformity", dict(one, Versions={4, 5} if T else {5}, DeclMethods=full_d, ImplMethods=full_i, MaxDecl=1, MaxImpl=1, Extras={"const"})),
        ("two methods", dict(one, Versions={4, 5}, DeclMethods=two_d, ImplMethods=two_i, MaxDecl=3 if T else 2, MaxImpl=3 if T else 2)),
    ]
    for name, c in runs:
        r = mc("TraitImpl", c, ["TypeOK", "Copy", "Deviation", "OnlyResolved"])
        chk.add_tlc(r)
        impl_cases(chk, uniq(r.lines), "trait impl " + name, 60000 if T else 6000)
    # Resolution: each place declares a different method, so the reports tell which trait was meant.
    places = [(), ("tr",), ("c",), ("c", "tr")]
    r = mc("TraitImpl", dict(Versions={5}, Places=set(places), Paths=paths, Uses=uses, DeclMethods=[M("a"), M("b")], ImplMethods=[M("a"), M("b")], MaxDecl=1, MaxImpl=1, Extras=set()),
           ["TypeOK", "Copy", "Deviation", "OnlyResolved"])
    chk.add_tlc(r)
    impl_cases(chk, uniq(r.lines), "trait impl resolution", 40000 if T else 8000)
    return "one evaluation = one trait definition or implementation predicted by the specification and analysed; distinct by abstract program"


def impl_cases(chk, sts, name, lim):
    if len(sts) > lim:
        chk.notes.append(f"{name}: {len(sts)} enumerated, {lim} sampled for replay")
        sts = chk.rng.sample(sts, lim)
    cases = []
    for st in sts:
        key = json.dumps([st["v"], st["path"], st["use"], st["impl"], st["extra"], st["places"]], sort_keys=True)
        s = render_traitimpl(st, key)
        pred = [impl_pred(st, d) for d in st["d"]]
        cases.append((key, s.text, st["v"], pred, s.spans, "impl " + ("valid" if not pred else "+".join(sorted({d["m"] for d in st["d"]}))[:40])))
    run_cases(chk, cases, name)
    chk.sample(sts[len(sts) // 2])


# ------------------------------------------------------------------ P11

XMSG = {
    "no-id": "All ink! chain extension functions must be ink! {x}s.",
    "old-id": "ink! attribute argument `extension` is deprecated. Use the new `function` attribute argument instead. See https://use.ink/faq/migrating-from-ink-4-to-5/#chain-extension-api-changed--support-for-multiple-chain-extensions for details.",
    "dup-id": "{X} ids must be unique across all associated functions in an ink! chain extension.",
    "type-name": "The associated type of a ink! chain extension must be named `ErrorCode`.",
    "type-gen": "Generic parameters on an ink! chain extension `ErrorCode` type are not currently supported.",
    "type-bound": "Trait bounds on ink! chain extension `ErrorCode` types are not supported.",
    "type-default": "ink! chain extension `ErrorCode` types must have a default type.",
    "dup-code": "Duplicate `ErrorCode` associated type for ink! chain extension.",
    "no-code": "Missing `ErrorCode` associated type for ink! chain extension.",
    "unresolved": "`ErrorCode` associated type must implement the `ink::env::chain_extension::FromStatusCode` trait.",
    "no-from": "`ErrorCode` associated type must implement the `ink::env::chain_extension::FromStatusCode` trait.",
    "self-code": "Due to technical limitations, it is not possible to refer to the `ErrorCode` associated type using `Self::ErrorCode` anywhere within the chain extension and its defined methods. \nUse the error code type directly instead.",
}
CODEC = {"Encode": "scale", "Decode": "scale", "TypeInfo": "scale_info"}


def codec(c, name, k):
    """(imports, attributes, impls) giving type `name` the codec traits in the forms listed."""
    uses, attrs, impls = [], [], []
    for form, tr in c:
        tr = [t for t in ("Encode", "Decode", "TypeInfo") if t in tr]
        sep = [", ", ",", ",\n    "][k % 3]
        P = {"derive": "{c}::{t}", "derive-ink": "ink::{c}::{t}", "derive-colon": "::{c}::{t}", "derive-use": "{t}", "derive-alias": "x_{c}::{t}", "bare": "{t}", "other": "other::{t}",
             "derive-multi": "{c}::{t}", "cfg": "{c}::{t}", "derive-psc": "{c}::{t}"}.get(form)
        if P:
            ps = [P.format(c=("parity_scale_codec" if form == "derive-psc" and CODEC[t] == "scale" else CODEC[t]), t=t) for t in tr]
            if form == "cfg":
                attrs.append(f'#[cfg_attr(feature = "std", derive({sep.join(ps)}))]')
            elif form == "derive-multi":
                attrs += ["#[derive(Debug)]"] + [f"#[derive({p})]" for p in ps]
            else:
                ps = (["Debug"] if k % 2 else []) + ps + (["Clone"] if k % 5 == 1 else [])
                attrs.append(f"#[derive({sep.join(ps)})]")
        if form == "ink5":
            attrs.append(f"#[ink::scale_derive({sep.join(tr)})]")
        if form == "derive-use":
            for cr in ("scale", "scale_info"):
                ts = [t for t in tr if CODEC[t] == cr]
                if ts:
                    uses.append(f"use {cr}::{ts[0]};" if len(ts) == 1 else (f"use {cr}::{{{', '.join(ts)}}};" if k % 2 else f"use {cr}::*;"))
        if form == "derive-alias":
            uses += [f"use {cr} as x_{cr};" for cr in ("scale", "scale_info") if any(CODEC[t] == cr for t in tr)]
        if form == "impl":
            impls += [f"impl {CODEC[t]}::{t} for {name} {{}}" for t in tr]
        if form == "impl-use":
            uses += [f"use {CODEC[t]}::{t} as My{t};" for t in tr]
            impls += [f"impl My{t} for {name} {{}}" for t in tr]
    return [respace(x, k) for x in uses], [respace(x, k + 1) for x in attrs], [respace(x, k + 2) for x in impls]


def respace(x, k):
    """White space and comments inside paths and before the commas of lists, which mean nothing."""
    n = k % 7
    if n == 3:
        return x.replace("::", " :: ")
    if n == 4:
        return x.replace("::", "::/* :: */")
    if n == 5:
        return x.replace("::", "\n::").replace(",", "\n,")
    if n == 6:
        return x.replace(",", " /* a, b */ ,")
    return x


FROMS = {"impl": ("", "impl ink::env::chain_extension::FromStatusCode for E"), "impl-env": ("", "impl ink_env::chain_extension::FromStatusCode for E"),
         "impl-use": ("use ink::env::chain_extension::FromStatusCode;", "impl FromStatusCode for E"),
         "impl-alias": ("use ink::env::chain_extension::FromStatusCode as Fsc;", "impl Fsc for E"),
         "none": ("", ""), "bare": ("", "impl FromStatusCode for E"), "wrong": ("", "impl ink::env::chain_extension::FromStatusCode for Wrong")}


def render_ext(st, key):
    k = pick(key, 60)
    nl = "\n" if k % 2 else " "
    s = Src()
    v5 = st["v"] == 5
    idk = "function" if v5 else "extension"
    inmod = k % 4 == 3
    if inmod:
        s.w("pub mod m {", nl)
    us, at, im = codec(st["ec"]["codec"], "E", k)
    fu, fi = FROMS[st["ec"]["from"]]
    for u in us + ([fu] if fu else []):
        s.w(u, nl)

    def types():
        for a in at:
            s.w(a, nl)
        s.put("code0", ["pub struct E;", "pub enum E { A, B(u8) }", "pub struct E { a: u8 }"][k % 3]).w(nl)
        for i in im:
            s.w(i, nl)
        if fi:
            s.w(fi, " { fn from_status_code(c: u32) -> Result<(), Self> { Ok(()) } }", nl)
        s.w("pub struct Wrong;", nl)
        s.w("pub mod types {", nl)
        u2, a2, i2 = codec(st["cc"], "C", k // 2)
        for x in u2 + a2:
            s.w(x, nl)
        s.put("custom0", ["pub struct C;", "pub enum C { A }"][k % 2]).w(nl)
        for x in i2:
            s.w(x, nl)
        s.w("}", nl)

    if k % 5 == 2:
        types()
    hd = st["head"]
    with s.span("trait0"):
        s.w("#[ink::chain_extension" + (f"(extension = {st['ext']})" if st["ext"] else "") + "]", nl)
        for f in ("vis", "unsafe", "auto"):
            if hd[f]:
                s.put(f + "0", hd[f]).w(" ")
        s.w("trait X")
        for f in ("gen", "super"):
            if hd[f]:
                s.put(f + "0", hd[f])
        s.w(" {", nl)
        for j, it in enumerate(st["items"], 1):
            with s.span(f"item{j}"):
                if it["k"] == "fn":
                    cust, slf, body = it["s"]
                    if it["id"]:
                        with s.span(f"id{j}"):
                            s.w(f"#[ink({'extension' if it['old'] else idk} = {one(IDTEXT.get(it['id'], it['id']), f'{k}/{j}')}", ", handle_status = true" if (k + j) % 3 == 1 else "", ")]")
                        s.w(nl)
                    ret = cust.startswith("ret ")
                    s.w(f"fn f{j}(", "" if ret or not cust else "c: " + cust, ")")
                    if slf:
                        a, b = one(SELFPOS, f"{k}/{j}")
                        s.w(a).put(f"self{j}", one(SELFTEXT, f"{j}/{k}")).w(b)
                    elif ret:
                        s.w(" -> ", cust[4:])
                    if body:
                        s.w(" ").put(f"body{j}", "{ todo!() }")
                    else:
                        s.w(";")
                elif it["k"] == "type":
                    t = it["t"]
                    s.w("type ").put(f"name{j}", t["name"])
                    if t["gen"]:
                        s.put(f"gen{j}", t["gen"])
                    if t["bound"]:
                        s.put(f"bound{j}", t["bound"])
                    if t["def"]:
                        s.w(" = ").put(f"def{j}", t["def"])
                    s.w(";")
                else:
                    s.w(ITEMTEXT[it["k"]])
            s.w(nl)
        s.w("}")
    s.w(nl)
    if k % 5 != 2:
        types()
    if inmod:
        s.w("}", nl)
    return s


def ext_pred(st, d):
    v5 = st["v"] == 5
    m = d["m"]
    a = f"{d['a']}{d['j']}"
    if m == "no-extension-id":
        return {("An ink! chain extension must have a ink! extension argument.", "Error"), ("Missing required ink! `extension` argument.", "Error")}, a
    if m in ("codec-code", "codec-custom"):
        ts = [t for t in ("Encode", "Decode", "TypeInfo") if t in d["x"]]
        who = "`ErrorCode` associated type" if m == "codec-code" else "extension input and output types"
        return {(f"{who} must implement the {', '.join(f'`{CODEC[t]}::{t}`' for t in ts)} trait{'s' if len(ts) > 1 else ''}.", "Error")}, a
    msg = XMSG.get(m) or TMSG[m]
    return {(msg.format(w="chain extension", x="function" if v5 else "extension", X="Function" if v5 else "Extension"), "Error")}, a


def p11(chk):
    T = chk.thorough
    ALL = frozenset({"Encode", "Decode", "TypeInfo"})
    good_t = {"name": "ErrorCode", "gen": "", "bound": "", "def": "E"}
    tshapes = [good_t, dict(good_t, name="Other"), dict(good_t, gen="<T>"), dict(good_t, bound=": Clone"), dict(good_t, **{"def": ""}), dict(good_t, **{"def": "Nope"}), dict(good_t, **{"def": "(u8, u8)"}),
               {"name": "errorcode", "gen": "<'a>", "bound": ": Send", "def": ""}]
    plain = ("", False, False)
    ok = (("derive", ALL),)
    runs = [
        # functions and ids
        ("ids", dict(Versions={4, 5}, MaxHead=0, MaxItems=4 if T else 3, MaxTypes=1, Ids={"", "1", "0x1", "2", "10", "0xA", "0xa"} if not T else {"", "1", "0x1", "0x0001", "2", "0x2", "10", "0xA"}, FnShapes={plain}, TypeShapes=[good_t], Others=set(), Codecs={ok}, Froms={"impl"})),
        # error code types, items, header
        ("items", dict(Versions={4, 5}, MaxHead=1, MaxItems=3, MaxTypes=3, Ids={"", "1"}, FnShapes={plain, ("", True, False), ("", False, True)}, TypeShapes=tshapes, Others={"const", "macro"}, Codecs={ok}, Froms={"impl"})),
        ("codec", dict(Versions={4, 5}, MaxHead=0, MaxItems=2, MaxTypes=1, Ids={"", "1"}, FnShapes={plain} | {(x, False, False) for x in ("types::C", "&types::C", "[types::C; 4]", "Option<types::C>", "(u8, types::C)", "ret types::C", "ret Result<types::C, u8>", "ret Vec<Option<types::C>>", "self::types::C")},
                       TypeShapes=[good_t], Others=set(),
                       Codecs={ok, (), (("derive", frozenset({"Encode"})),), (("derive", frozenset({"Encode", "TypeInfo"})), ("impl", frozenset({"Decode"})))}, Froms={"impl", "none"})),
        ("forms", dict(Versions={4, 5}, MaxHead=0, MaxItems=2, MaxTypes=1, Ids={"1"}, FnShapes={("types::C", False, False)}, TypeShapes=[good_t], Others=set(),
                       Codecs={((f, ALL),) for f in ("derive", "derive-ink", "derive-psc", "derive-colon", "derive-use", "derive-alias", "derive-multi", "cfg", "impl", "impl-use", "bare", "other")}
                       | {(("derive", frozenset({"Encode", "Decode"})), ("cfg", frozenset({"TypeInfo"}))), (("derive-ink", frozenset({"Encode"})), ("impl", frozenset({"Decode"}))), (("impl-use", frozenset({"Encode"})), ("derive", frozenset({"TypeInfo"})))},
                       Froms=set(FROMS))),
        ("forms5", dict(Versions={5}, MaxHead=0, MaxItems=2, MaxTypes=1, Ids={"1"}, FnShapes={("types::C", False, False)}, TypeShapes=[good_t], Others=set(),
                        Codecs={(("ink5", frozenset(x)),) for x in (ALL, {"Encode"}, {"Decode", "TypeInfo"})} | {(("ink5", frozenset({"Encode", "Decode"})), ("derive", frozenset({"TypeInfo"}))), (("ink5", frozenset({"Encode"})), ("impl", frozenset({"Decode", "TypeInfo"}))), ()},
                        Froms={"impl", "none"})),
    ]
    for name, c in runs:
        r = mc("ChainExt", c, ["Judged", "IdsCounted"])
        chk.add_tlc(r)
        sts = uniq(r.lines)
        lim = 60000 if T else 6000
        if len(sts) > lim:
            chk.notes.append(f"{name}: {len(sts)} enumerated, {lim} sampled for replay")
            sts = chk.rng.sample(sts, lim)
        cases = []
        for st in sts:
            key = json.dumps({q: st[q] for q in st if q != "d"}, sort_keys=True)
            s = render_ext(st, key)
            pred = [ext_pred(st, d) for d in st["d"]]
            cases.append((key, s.text, st["v"], pred, s.spans, f"{name} " + ("valid" if not pred else "+".join(sorted({d["m"] for d in st["d"]}))[:40])))
        run_cases(chk, cases, "chain extension " + name)
        chk.sample(sts[len(sts) // 2])
    return "one evaluation = one chain extension predicted by the specification and analysed; distinct by abstract program"
