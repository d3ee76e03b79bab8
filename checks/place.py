"""P12: where ink! annotations may stand."""
import json, re
from vlib.core import *
from vlib.rules import *
from checks.rules import mc, tla, uniq

ATTR = {"storage": "#[ink(storage)]", "event": "#[ink(event)]", "event2": "#[ink::event]", "topic": "#[ink(topic)]", "storage_item": "#[ink::storage_item]", "test": "#[ink::test]",
        "e2e": "#[ink_e2e::test]", "constructor": "#[ink(constructor)]", "message": "#[ink(message)]", "impl": "#[ink(impl)]", "trait_definition": "#[ink::trait_definition]",
        "chain_extension": {4: "#[ink::chain_extension]", 5: "#[ink::chain_extension(extension = 1)]"}, "scale_derive": {4: "#[ink::scale_derive]", 5: "#[ink::scale_derive(Encode)]"}, "contract": "#[ink::contract]",
        "function": "#[ink(function = 7)]", "extension": "#[ink(extension = 7)]"}
WORD = {"event2": "event", "e2e": "e2e test"}
KINDMSG = {"storage": "ink! storage must be a `struct` item.", "event": "ink! event must be a `struct` item.", "event2": "ink! event must be a `struct` item.",
           "constructor": "ink! constructor must be an `fn` item.", "message": "ink! message must be an `fn` item.", "test": "ink! test must be an `fn` item.", "e2e": "ink! e2e test must be an `fn` item.",
           "trait_definition": "ink! trait definition must be a `trait` item.", "chain_extension": "ink! chain extension must be a `trait` item.",
           "storage_item": "`{a}` can only be applied to an `enum`, `struct` or `union` item.", "impl": "ink! impl must be an `impl` item.", "contract": "ink! contracts must be inline `mod` items",
           "topic": "`{a}` can only be applied to a `struct` field."}
VOCAB = re.compile(r"^Invalid scope|cannot be used inside|can't be used inside|(?<!function )(?<!extension )must be an? `\w+` item|can only be applied|must be defined in the root|^Only one ink!|must be inline")


def attr_of(a, v):
    x = ATTR[a]
    return x if isinstance(x, str) else x[v]


def item_text(s, it, n, v, key):
    a, k, live = it["annot"], it["kind"], it["live"]
    k0 = pick(key + str(n), 97)
    with s.span(f"item{n}"):
        if k0 % 5 == 0:
            s.w("/// Documentation.\n")
        if k0 % 7 == 1:
            s.w("#[allow(dead_code)] ")
        s.put(f"attr{n}", attr_of(a, v)).w("\n" if k0 % 2 else " ")
        name = f"{'N' if k in ('struct', 'enum', 'union', 'trait', 'type') else 'N' if k in ('const', 'static') else 'n'}{n}"
        if k == "struct":
            s.w(f"pub struct {name} {{ x: u8 }}" if k0 % 3 else f"pub struct {name};")
        elif k == "enum":
            s.w(f"pub enum {name} {{ A, B }}")
        elif k == "union":
            s.w(f"pub union {name} {{ x: u8 }}")
        elif k == "fn":
            sig = f"pub fn {name}() -> Self" if a == "constructor" else f"pub fn {name}(&self)" if a == "message" else f"fn {name}()"
            s.w(sig, ";" if it["scope"] in ("ctrait", "traitdef", "ctraitdef", "chainext") else " {}")
        elif k == "trait":
            body = ""
            if live and a == "trait_definition":
                body = "#[ink(message)] fn q(&self);"
            elif live and a == "chain_extension":
                body = "type ErrorCode = crate::Ec; #[ink(%s = 1)] fn q();" % ("function" if v == 5 else "extension")
            s.w(f"pub trait {name} {{ {body} }}")
        elif k == "impl":
            s.w("impl S {}" if k0 % 2 else "impl S { fn plain() {} }")
        elif k == "mod":
            if live and a == "contract":
                s.w(f"mod {name} {{ #[ink(storage)] pub struct T {{}} impl T {{ #[ink(constructor)] pub fn new() -> Self {{ T {{}} }} #[ink(message)] pub fn get(&self) {{}} }} }}")
            else:
                s.w(f"mod {name} {{}}")
        elif k == "const":
            s.w(f"const {name}: u8 = 1;")
        elif k == "static":
            s.w(f"static {name}: u8 = 1;")
        elif k == "type":
            s.w(f"type {name} = u8;")
        elif k == "use":
            s.w("use core::fmt;")
        elif k == "field":
            s.w(f"f{n}: u8")
        elif k == "tuple-field":
            s.w("u8")
    return s


FIELD = {"ffield": "", "cfield": "", "sfield": "#[ink(storage)] ", "evfield": "#[ink(event)] ", "ev2field": "#[ink::event] ", "cev2field": "#[ink::event] ", "sifield": "#[ink::storage_item] ", "csifield": "#[ink::storage_item] "}


def render(st, key):
    """The base contract plus every item in its scope; items of one scope share it except where a scope is a struct of its own."""
    v = st["v"]
    s = Src()
    by = {}
    for n, it in enumerate(st["items"]):
        by.setdefault(it["scope"], []).append(n)
    nl = ["\n", "\n    ", "\n\n"][pick(key, 3)]

    def slot(name):
        for n in by.get(name, []):
            s.w(nl)
            item_text(s, st["items"][n], n, v, key)
        if name in by:
            s.w(nl)

    def fields(name, outer):
        for n in by.get(name, []):
            k = st["items"][n]["kind"]
            s.w(nl)
            with s.span(f"outer{n}"):
                s.w(outer, "pub struct F%d " % n)
                s.w("{ a: u8, " if k == "field" else "(u8, ")
                item_text(s, st["items"][n], n, v, key)
                s.w(", z: u8 }" if k == "field" else ", u8);")
            s.w(nl)

    def around(name, head, tail):
        if name in by:
            s.w(nl, head)
            slot(name)
            s.w(tail)
    # file
    s.w("use ink::prelude::vec::Vec;", nl)
    if any(st["items"][n]["annot"] == "chain_extension" or x == "chainext" for x in by for n in by[x]):
        s.w("#[derive(scale::Encode, scale::Decode, scale_info::TypeInfo)] pub enum Ec { A } impl ink::env::chain_extension::FromStatusCode for Ec { fn from_status_code(c: u32) -> Result<(), Self> { Ok(()) } }", nl)
    early = [x for x in ("filemod", "filefn", "fileimpl", "ftestbody", "fe2ebody", "ev2field", "sifield", "ffield", "traitdef", "chainext") if pick(key + x, 2)]

    def filescope(name):
        if name == "filemod":
            around(name, "mod fm {", "}")
        elif name == "filefn":
            around(name, "fn ff() {", "}")
        elif name == "fileimpl":
            around(name, "struct P; impl P { fn keep() {}", "}")
        elif name == "ftestbody":
            around(name, "#[ink::test] fn ft() {", "}")
        elif name == "fe2ebody":
            around(name, "#[ink_e2e::test] async fn fe() {", "}")
        elif name == "traitdef":
            around(name, "#[ink::trait_definition] pub trait Td { #[ink(message)] fn q(&self);", "}")
        elif name == "chainext":
            around(name, attr_of("chain_extension", v) + " pub trait Ce { type ErrorCode = Ec;", "}")
        else:
            fields(name, FIELD[name])
    first = [n for n in range(len(st["items"])) if st["items"][n]["annot"] == "contract" and st["items"][n]["live"]]
    names = ("filemod", "filefn", "fileimpl", "ftestbody", "fe2ebody", "ev2field", "sifield", "ffield", "traitdef", "chainext")
    for x in names:
        if x in early and not any(st["items"][n]["annot"] == "contract" for n in by.get(x, [])):
            filescope(x)
    # contract
    s.w("#[ink::contract]", nl, "mod base {", nl)
    with s.span("contract"):
        s.put("storage", "#[ink(storage)] pub struct S { v: u8 }")
        s.w(nl)
        with s.span("impl"):
            s.w("impl S {", nl, "#[ink(constructor)] pub fn new() -> Self { S { v: 0 } }", nl, "#[ink(message)] pub fn get(&self) -> u8 { self.v }")
            slot("cimpl")
            around("cimplfn", "fn helper() {", "}")
            around("msgbody", "#[ink(message)] pub fn mb(&self) {", "}")
            around("ctorbody", "#[ink(constructor)] pub fn cb() -> Self {", "todo!() }")
            s.w(nl, "}")
        around("annimpl", "#[ink(impl)] impl S { fn keep() {}", "}")
        with s.span("annimpl"):
            pass
        around("cmod", "mod cm {", "}")
        with s.span("modimpl"):
            around("cmodimpl", "mod cmi { use super::S; impl S { fn keep2() {}", "} }")
        around("cfn", "fn cf() {", "}")
        around("ctrait", "pub trait Ct {", "}")
        around("ctestbody", "#[cfg(test)] mod tests { #[ink::test] fn ct() {", "} }")
        around("ce2ebody", "#[cfg(test)] mod e2e { #[ink_e2e::test] async fn ce() {", "} }")
        around("ctraitdef", "#[ink::trait_definition] pub trait Ctd { #[ink(message)] fn q(&self);", "}")
        for x in ("cfield", "evfield", "cev2field", "csifield"):
            fields(x, FIELD[x])
        slot("contract")
        if "sfield" in by:
            pass
    s.w("}", nl)
    for x in names:
        if x not in early or any(st["items"][n]["annot"] == "contract" for n in by.get(x, [])):
            filescope(x)
    slot("file")
    return s


def pred_of(st, n, tag, src):
    it = st["items"][n]
    v, a = st["v"], it["annot"]
    t = attr_of(a, v)
    E = lambda *m: {(x, "Error") for x in m}
    if tag == "scope":
        return E(f"Invalid scope for an `{t}` item."), f"attr{n}"
    if tag in ("in-event", "in-event2"):
        return E(f"`{t}` can't be used inside an ink! event."), f"attr{n}"
    if tag.startswith("in-"):
        e = tag[3:]
        return E(f"`{t}` cannot be used inside an ink! {WORD.get(e, e)}."), f"attr{n}"
    if tag.startswith("kind-"):
        # a contract on something else than a module is reported as that or as a second contract (same range and fixes)
        return E(KINDMSG[a].format(a=t), *(["Only one ink! contract per file is currently supported."] if a == "contract" else [])), f"item{n}"
    if tag == "root-impl-around":
        return E("ink! impls must be defined in the root of the ink! contract's `mod` item.", "ink! impl must be defined in the root of an ink! contract `mod`."), "modimpl"
    if tag.startswith("root-"):
        w = WORD.get(a, a)
        return E(f"ink! {w}s must be defined in the root of the ink! contract's `mod` item.", f"ink! {w} must be defined in the root of an ink! contract `mod`."), f"item{n}"
    if tag.startswith("not-in-impl-"):
        return E(f"ink! {a} must be defined in the root of an `impl` block."), f"item{n}"
    if tag.startswith("impl-root-"):
        return E(f"ink! {a}s must be defined in the root of an ink! contract's `impl` block."), "contract"
    return {"empty-trait": (E("At least one ink! message must be defined for an ink! trait definition."), f"item{n}"),
            "extra-storage": (E("Only one ink! storage definition can be defined for an ink! contract."), "contract"),
            "extra-contract": (E("Only one ink! contract per file is currently supported."), f"item{n}"),
            "empty-contract": (E("Missing ink! storage definition.", "At least one ink! constructor must be defined for an ink! contract.", "At least one ink! message must be defined for an ink! contract."), f"item{n}")}[tag]


ANNOTS = set(ATTR)
SCOPES = {"file", "filemod", "filefn", "fileimpl", "contract", "cmod", "cfn", "cimplfn", "cimpl", "cmodimpl", "annimpl", "ctrait", "msgbody", "ctorbody", "ctestbody", "ftestbody", "ce2ebody", "fe2ebody",
          "traitdef", "ctraitdef", "chainext", "ffield", "cfield", "evfield", "ev2field", "cev2field", "sifield", "csifield"}
KINDS = {"struct", "enum", "union", "fn", "trait", "impl", "mod", "const", "static", "type", "use", "field", "tuple-field"}


def lives(sts):
    for st in sts:
        for it, l in zip(st["items"], st["live"]):
            it["live"] = l
    return sts


def place_cases(sts, label):
    cases = []
    for st in sts:
        key = json.dumps({q: st[q] for q in ("v", "items")}, sort_keys=True)
        s = render(st, key)
        pred = [pred_of(st, n, tag, s) for n in range(len(st["items"])) for tag in st["diags"][n]]
        tags = sorted({t for x in st["diags"] for t in x})
        cases.append((key, s.text, st["v"], pred, s.spans, label + " " + ("valid" if not tags else "+".join(tags)[:40])))
    return cases


def p12(chk):
    T = chk.thorough
    import os
    if os.environ.get("ONLY"):
        return globals()[os.environ["ONLY"]](chk) or "partial"
    r = mc("Placement", dict(Versions={4, 5}, Annots=ANNOTS, ScopeNames=SCOPES, Kinds=KINDS, MaxItems=1), ["Exact"])
    chk.add_tlc(r)
    own = ("traitdef", "ctraitdef", "chainext")
    sts = lives(uniq(r.lines))
    part = lambda x: any(i["scope"] in own for i in x["items"])
    run_cases(chk, place_cases([x for x in sts if not part(x)], "one"), "placement")
    run_cases(chk, place_cases([x for x in sts if part(x)], "own"), "placement in traits", only=VOCAB)
    chk.sample(sts[0])
    for depth, num in ((2, 100 if T else 8), (3, 100 if T else 8)):
        r = mc("Placement", dict(Versions={4, 5}, Annots=ANNOTS, ScopeNames=SCOPES - set(own), Kinds=KINDS, MaxItems=depth), ["Exact"], simulate=num, depth=depth + 1, seed=chk.seed)
        chk.add_tlc(r)
        sts = lives(uniq(r.lines))
        lim = 60000 if T else 6000
        if len(sts) > lim:
            sts = chk.rng.sample(sts, lim)
        run_cases(chk, place_cases(sts, f"{depth}"), f"placement of {depth}")
    p12_env(chk)
    p12_fields(chk)
    return "one evaluation = one program with annotated items in scopes; distinct by abstract program"


# ------------------------------------------------------------------ environments

def path_text(p):
    return "::" + "::".join(p[1:]) if p and p[0] == "::" else "::".join(p)


def render_env(st, key):
    s = Src()
    k = pick(key, 1000)
    v = st["v"]
    nl = ["\n", "\n    "][k % 2]
    places = [tuple(p) for p in st["places"]]
    here = {"contract": ("c",), "test-file": (), "test-contract": ("c",), "test-mod": ("c", "tests")}[st["site"]]
    kinds = ["pub enum E {}", "pub struct E;", "pub struct E { x: u8 }", "pub enum E { A }", "pub union E { x: u8 }"]

    def mod(m):
        if here == m and st["use"]:
            u, alias = st["use"]
            s.w(f"use {path_text(u)}{' as ' + alias if alias else ''};", nl)
        if m in places:
            n = len(s.b)
            if k % 3 == 0:
                s.w("#[derive(Clone)] ")
            s.put("E" + "/".join(m), kinds[pick(key + str(m), 5)]).w(nl)
            i = st["imp"]
            body = " { const MAX_EVENT_TOPICS: usize = 3; type AccountId = u8; }"
            if i == "full":
                s.w("impl ink::env::Environment for E", body)
            elif i == "colon":
                s.w("impl ::ink::env::Environment for E", body)
            elif i == "env":
                s.w("impl ink_env::Environment for E", body)
            elif i == "use":
                s.w("use ink::env::Environment;", nl, "impl Environment for E", body)
            elif i == "use-env":
                s.w("use ink::env;", nl, "impl env::Environment for E", body)
            elif i == "alias":
                s.w("use ink::env::Environment as Ev;", nl, "impl Ev for E", body)
            elif i == "glob":
                s.w("use ink::env::*;", nl, "impl Environment for self::E", body)
            elif i == "other-trait":
                s.w("impl ink::env::Envoy for E {}")
            elif i == "other-crate":
                s.w("impl other::Environment for E {}")
            s.w(nl)

    def test():
        s.w("#[ink_e2e::test(").put("arg", "environment = " + path_text(st["path"])).w(")]", nl, "async fn t() {}", nl)
    early = k % 5 < 2
    if early:
        s.w("mod tr {", nl)
        mod(("tr",))
        s.w("}", nl)
    mod(())
    s.w("#[ink::contract")
    if st["site"] == "contract":
        s.w("(")
        if k % 7 == 0:
            s.w('keep_attr = "foo", ')
        s.put("arg", f"env{' ' if k % 2 else ''}= " + path_text(st["path"])).w(")")
    s.w("]", nl, "mod c {", nl)
    mod(("c",))
    s.w("#[ink(storage)] pub struct S {}", nl, "impl S { #[ink(constructor)] pub fn new() -> Self { S {} } #[ink(message)] pub fn m(&self) {} }", nl, "mod tr {", nl)
    mod(("c", "tr"))
    s.w("}", nl, "mod tests {", nl)
    mod(("c", "tests"))
    if st["site"] == "test-mod":
        test()
    s.w("}", nl)
    if st["site"] == "test-contract":
        test()
    s.w("}", nl)
    if st["site"] == "test-file":
        test()
    if not early:
        s.w("mod tr {", nl)
        mod(("tr",))
        s.w("}", nl)
    return s


def env_run(chk, name, consts, lim):
    r = mc("Env", consts, ["Sound"])
    chk.add_tlc(r)
    sts = uniq(r.lines)
    if len(sts) > lim:
        chk.notes.append(f"environment {name}: {len(sts)} enumerated, {lim} sampled for replay")
        sts = chk.rng.sample(sts, lim)
    cases = []
    for st in sts:
        key = json.dumps({q: st[q] for q in st if q not in ("d", "at")}, sort_keys=True)
        s = render_env(st, key)
        arg = "env" if st["site"] == "contract" else "environment"
        pred = []
        for d in st["d"]:
            if d == "unresolved":
                pred.append(({(f"`{arg}` argument value should be a path to a custom type that implements the `ink::env::Environment` trait.", "Error")}, "arg"))
            else:
                pred.append(({("Environment values must implement the `ink::env::Environment` trait.", "Error")}, "E" + "/".join(st["at"])))
        cases.append((key, s.text, st["v"], pred, s.spans, f"env {st['site']} {'+'.join(st['d']) or 'valid'}"))
    run_cases(chk, cases, f"environment {name}")


def p12_env(chk):
    T = chk.thorough
    PL = [frozenset(x) for x in ([], [()], [("c",)], [("tr",)], [("c", "tr")], [(), ("c",)], [("tr",), ("c", "tr")], [(), ("tr",), ("c",), ("c", "tr")], [("c", "tests")], [(), ("c", "tests")])]
    paths = {("E",), ("self", "E"), ("super", "E"), ("crate", "E"), ("tr", "E"), ("crate", "tr", "E"), ("crate", "c", "E"), ("super", "tr", "E"), ("crate", "c", "tr", "E"), ("X",), ("x", "E"), ("crate", "nope", "E")}
    uses = {(), (("crate", "E"), ""), (("super", "E"), ""), (("crate", "tr", "E"), "X"), (("crate", "*"), ""), (("super", "*"), ""), (("crate", "tr", "*"), ""), (("crate", "tr"), "x"), (("super", "tr", "E"), "")}
    dflt = {("ink", "env", "DefaultEnvironment"), ("::", "ink", "env", "DefaultEnvironment"), ("ink_env", "DefaultEnvironment"), ("::", "ink_env", "DefaultEnvironment"), ("DefaultEnvironment",), ("env", "DefaultEnvironment"), ("D",), ("x", "DefaultEnvironment"),
            ("other", "env", "DefaultEnvironment"), ("ink", "env", "OtherEnvironment"), ("ink", "DefaultEnvironment")}
    duses = {(), (("ink", "env", "DefaultEnvironment"), ""), (("ink", "env"), ""), (("ink", "env", "*"), ""), (("ink", "env", "DefaultEnvironment"), "D"), (("ink", "env"), "x"), (("ink_env", "DefaultEnvironment"), ""), (("ink_env", "*"), ""), (("ink_env",), "x"),
             (("other", "env", "DefaultEnvironment"), ""), (("other", "*"), "")}
    sites = {"contract", "test-file", "test-contract", "test-mod"}
    env_run(chk, "paths", dict(Versions={4, 5}, Sites=sites, PlaceSets=set(PL), Paths=paths, Uses=uses, Impls={"full", "none"}), 60000 if T else 5000)
    env_run(chk, "default", dict(Versions={4, 5}, Sites=sites, PlaceSets={frozenset()}, Paths=dflt, Uses=duses, Impls={"none"}), 60000 if T else 5000)
    env_run(chk, "impls", dict(Versions={4, 5}, Sites=sites, PlaceSets={frozenset([()]), frozenset([("c",)]), frozenset([("tr",)])}, Paths={("crate", "E"), ("crate", "c", "E"), ("crate", "tr", "E")}, Uses={()},
                               Impls={"full", "none", "colon", "env", "use", "use-env", "alias", "glob", "other-trait", "other-crate"}), 60000)


# ------------------------------------------------------------------ event fields and reserved identifiers

FATTR = {"topic": "#[ink(topic)]", "storage": "#[ink(storage)]", "message": "#[ink(message)]", "test": "#[ink::test]", "storage_item": "#[ink::storage_item]", "event": "#[ink(event)]", "cfg": "#[cfg(feature = \"x\")]",
         "cfg-attr": "#[cfg_attr(feature = \"x\", allow(unused))]", "doc": "#[doc = \"text\"]", "allow": "#[allow(unused)]"}
EFORM = {"legacy": "#[ink(event)]", "legacy-anonymous": "#[ink(event, anonymous)]", "legacy-anonymous-split": "#[ink(event)] #[ink(anonymous)]", "macro": "#[ink::event]", "macro-anonymous": "#[ink::event(anonymous)]",
         "legacy-sig": '#[ink(event, signature_topic = "%s")]' % ("ab" * 32), "macro-sig": '#[ink::event(signature_topic = "%s")]' % ("01" * 32)}


def render_fields(st, key):
    s = Src()
    k = pick(key, 1000)
    nl = ["\n", "\n        "][k % 2]
    R = lambda spot, name: s.put("id-" + spot, "__ink_" + name) if spot in st["reserved"] else s.w(name)
    r = set(st["reserved"])
    s.w("// head __ink_x\n" if "comment" in r else "")
    s.w("const TEXT: &str = \"__ink_text\";\n" if "string" in r else "")
    s.w("fn __Ink_lower() {} fn a__ink_b() {}\n" if "lower" in r else "")

    def event():
        if "doc" in r:
            s.w("/// about __ink_things", "\n")
        s.w(EFORM[st["form"]], nl, "pub struct ")
        R("event-name", "Ev")
        s.w(" {" if st["shape"] == "record" else "(")
        for j, f in enumerate(st["fields"], 1):
            s.w(nl)
            fs = sorted(f, key=lambda a: pick(key + a, 97))
            with s.span(f"field{j}"):
                for a in fs:
                    s.put(f"attr{j}{a}", FATTR[a]).w(" ")
                if st["shape"] == "record":
                    s.w("pub " if k % 3 == 1 else "", f"f{j}: u8")
                else:
                    s.w("u8")
            s.w(",")
        if st["shape"] == "record":
            s.w(nl)
            R("field-name", "last")
            s.w(": u8")
        s.w("}" if st["shape"] == "record" else ");", nl)
    infile = st["form"].startswith("macro") and k % 4 == 0
    if infile:
        event()
    s.w("fn outside() { let ")
    R("local", "x")
    s.w(" = 1; }", nl)
    if "macro" in r:
        s.w("fn mac() { foo!(").put("id-macro", "__ink_tok").w("); }", nl)
    s.w("#[ink::contract]", nl, "mod base {", nl, "#[ink(storage)] pub struct S {}", nl)
    if not infile:
        event()
    s.w("impl S { #[ink(constructor)] pub fn new() -> Self { S {} } #[ink(message)] pub fn ")
    R("method", "get")
    s.w("(&self, ")
    R("param", "p")
    s.w(": u8) {}", nl, "}", nl, "}", nl)
    return s


def fields_run(chk, name, consts, lim, **kw):
    r = mc("Fields", consts, ["TypeOK", "Topics"], **kw)
    chk.add_tlc(r)
    sts = uniq(r.lines)
    if len(sts) > lim:
        chk.notes.append(f"fields {name}: {len(sts)} enumerated, {lim} sampled for replay")
        sts = chk.rng.sample(sts, lim)
    cases = []
    for st in sts:
        key = json.dumps({q: st[q] for q in st if q != "d"}, sort_keys=True)
        s = render_fields(st, key)
        pred = []
        for d in st["d"]:
            a, j = d["a"], d["j"]
            # two ink! attributes on one field may be reported as conflicting instead (same range and fix)
            many = j > 0 and sum(x not in ("cfg", "cfg-attr", "doc", "allow") for x in st["fields"][j - 1]) > 1
            if d["m"] == "inside-event":
                pred.append(({(f"`{FATTR[a]}` can't be used inside an ink! event.", "Error")}, f"attr{j}{a}", many))
            elif d["m"] == "cfg":
                pred.append(({("`cfg` attributes on event fields are not supported.", "Error")}, f"attr{j}{a}"))
            elif d["m"] == "not-field":
                pred.append(({(f"`{FATTR[a]}` can only be applied to a `struct` field.", "Error")}, f"field{j}"))
            else:
                txt = s.text.encode()[slice(*s.spans["id-" + a])].decode()
                pred.append(({(f"Invalid identifier starting with __ink_: {txt}", "Error")}, "id-" + a))
        cases.append((key, s.text, st["v"], pred, s.spans, f"fields {'+'.join(sorted({d['m'] for d in st['d']})) or 'valid'}"))
    run_cases(chk, cases, f"event fields {name}", only=FVOCAB if name == "conflicts" else None)


FVOCAB = re.compile(r"can't be used inside|`cfg` attributes|can only be applied|Invalid identifier")


def p12_fields(chk):
    T = chk.thorough
    forms = set(EFORM)
    fields_run(chk, "attributes", dict(Versions={4, 5}, Forms=forms, Shapes={"record", "tuple"}, FieldAttrs={"topic", "cfg", "cfg-attr", "doc"}, MaxFields=3 if T else 2, Spots=set()), 60000 if T else 5000)
    fields_run(chk, "conflicts", dict(Versions={4, 5}, Forms=forms, Shapes={"record", "tuple"}, FieldAttrs=set(FATTR), MaxFields=1, Spots=set()), 60000)
    fields_run(chk, "identifiers", dict(Versions={4, 5}, Forms={"legacy", "macro"}, Shapes={"record"}, FieldAttrs={"topic"}, MaxFields=1,
                                        Spots={"event-name", "field-name", "local", "macro", "method", "param", "string", "comment", "doc", "lower"}), 60000)
