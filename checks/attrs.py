"""P08: ink! attributes: names, values, duplicates, combinations and order."""
import json, re
from vlib.core import *
from vlib.rules import *
from checks.rules import mc, uniq

MACRO = {"": "ink", "e2e_test": "ink_e2e::test", "foo": "ink::foo", "e2e_foo": "ink_e2e::foo"}
VALUE = {
    "u16": ["1", "0", "65535", "7", "161", "010", "1_0", "6_55_35", "7u16", "0b101", "0o17", "9_u32", "3i64"],
    "x16": ["0x1", "0xA1", "0xffff", "0x00a1", "0xA_1", "0xffffu32", "0x0000_00a1"],
    "u32": ["65536", "4294967295", "100000", "1_000_000", "100_000u32", "0b1_0000_0000_0000_0000", "0o200000", "65536usize"],
    "x32": ["0x10000", "0xFFFFFFFF", "0xDEADBEEF", "0xcafebabe", "0xDEAD_BEEF", "0xcafebabeu32", "0xFF_FF_FF_FFu64"],
    "lit": ["'a'", "1.0", "0.5", 'b"x"'], "big": ["4294967296", "0x100000000", "99999999999999999999", "4_294_967_296", "0x1_0000_0000u64", "0o40000000000", "0b1" + "0" * 32],
    "true": ["true"], "false": ["false"], "_": ["_"], "@": ["@"],
    "path": ["crate::a::Env", "my::env::Types", "::ink::env::DefaultEnvironment", "self::E"], "name": ["Env", "E"],
    "s-ident": ['"my_name"', '"abc"', '"X1"', '"_x"', 'r"abc"', 'r#"my_name"#', '"a\\u{62}c"', '"\\x61bc"'], "s-words": ['"a b"', '"a, b c"', 'r"a b"', '" a"', '"a "', '"a\\nb"', '"a\\"b"', 'r#"a"b"#'], "s-empty": ['""', 'r""', 'r#""#'],
    "s-hex32": ['r"0x' + "1f" * 32 + '"', '"0x' + "11" * 32 + '"', '"' + "9a" * 32 + '"', '"0x' + "Fe" * 32 + '"'],
    "s-hex31": ['"0x' + "11" * 31 + '"', '"' + "22" * 31 + '"'], "s-hex33": ['"0x' + "11" * 33 + '"', '"' + "33" * 33 + '"'],
    "s-url": ['r"http://h"', '"ws://localhost:9944"', '"https://a.b/c"'], "s-digit": ['"1abc"', '"a-b"', '"a::b"'], "s-keyword": ['"fn"', '"self"'],
}
NEST = {"(node)": "(node)", "(runtime_only)": "(runtime_only)", "(node(url))": '(node(url = "ws://h:1"))', "(runtime_only(sandbox))": "(runtime_only(sandbox = crate::Sandbox))",
        "(url)": '(url = "ws://h:1")', "(sandbox)": "(sandbox = my::Sandbox)", "(foo)": "(foo)", "(node(foo))": "(node(foo))", "(node(bad-url))": '(node(url = "host"))'}
ALLARGS = ["additional_contracts", "anonymous", "backend", "Decode", "default", "derive", "Encode", "env", "environment", "handle_status", "keep_attr", "namespace",
           "node", "payable", "runtime_only", "sandbox", "selector", "signature_topic", "TypeInfo", "url",
           "constructor", "event", "extension", "function", "impl", "message", "storage", "topic"]
ALLMACROS = ["chain_extension", "contract", "event", "storage_item", "test", "trait_definition", "e2e_test", "scale_derive"]
ALLFORMS = {"none", "eq", "bad"} | set(VALUE) | set(NEST)
# unknown names: case, number and separators count
UNKNOWN = ["bar", "Message", "messages", "SELECTOR", "encode", "keepattr", "topics", "ink"]
MALFORMED = ["selector(node)(foo)", "backend(node)(foo)"]   # shown with the blanks around them
UNKNOWN_MACRO = {"foo": ["ink::foo", "ink::Contract", "ink::contracts", "ink::traitdefinition", "ink::message", "ink::storage"], "e2e_foo": ["ink_e2e::foo", "ink_e2e::tests", "ink_e2e::Test", "ink_e2e::contract"]}
BAD = ["-1", "[1]", "1 + 1", "a.b", "1 2", "= 1", "&x"]
GOOD = {"none", "u16", "true", "path", "s-ident", "s-hex32", "s-url", "(node)"}

EXPECT = {
    "none": "`{k}` argument shouldn't have a value.",
    "u16": "`{k}` argument should have an `integer` (`u16`) value.",
    "u32": "`{k}` argument should have an `integer` (`u32`)  value.",
    "u32|_": "`{k}` argument should have an `integer` (`u32`) or wildcard/underscore (`_`) value.",
    "u32|_|@": "`{k}` argument should have an `integer` (`u32`) , wildcard/underscore (`_`) or wildcard complement (`@`) symbol value.",
    "bool": "`{k}` argument should have a `boolean` (`bool`) value.",
    "path": "`{k}` argument should have a `path` (e.g. `foo::bar::Baz`) value.",
    "ident": "`{k}` argument should have a `string` (`&str`) value - A valid Rust identifier.",
    "hex32": "`{k}` argument should have a `string` (`&str`) value - A 32 byte hex string.",
    "url": "`{k}` argument should have a `string` (`&str`) value - A URL.",
}
LIST = {"additional_contracts": "A space separated list.", "keep_attr": "A comma separated list."}
OPTS = {"node|runtime_only": ("node", "runtime_only"), "url?": ("url",), "sandbox?": ("sandbox",), "url": ("url",)}
NEEDS = {"additional_contracts": ["e2e test"], "environment": ["e2e test"], "backend": ["e2e test"], "signature_topic": ["event", "event"],
         "Decode": ["scale_derive"], "Encode": ["scale_derive"], "TypeInfo": ["scale_derive"], "keep_attr": ["contract", "trait_definition", "e2e test"],
         "payable": ["constructor", "message"], "default": ["constructor", "message"], "selector": ["constructor", "message"]}

VOCAB = re.compile(r"^Unknown ink! attribute|^Missing ink! attribute argument|argument should have|argument shouldn't have|nested meta-item|^Unknown option|^Duplicate ink! attribute|conflicts with the|is deprecated|^Missing required ink! `extension`|should be the first")

# Items the attributes are written on: text with {} for the attributes; "chain" ones lie inside a chain extension.
PLAIN = [
    "{} struct A {{}}", "{} pub enum A {{ X }}", "{} fn f() {{}}", "{} mod m {{}}", "{} trait T {{}}", "struct B; {} impl B {{}}", "{} union U {{ a: u8 }}", "{} type X = u8;", "{} const C: u8 = 1;",
    "mod outer {{ mod inner {{ {} pub struct A {{}} }} }}", "fn body() {{ {} fn local() {{}} }}", "fn body() {{ {} struct A; let x = 1; }}",
    "struct B; impl B {{ {} pub fn f(&self) {{}} }}", "struct B {{ {} a: u8 }}", "struct B({} u8);", "trait T {{ {} fn f(&self); }}",
    "#[ink::contract] mod c {{ #[ink(storage)] pub struct S {{}} {} pub struct A {{}} impl S {{ #[ink(constructor)] pub fn new() -> Self {{ S {{}} }} #[ink(message)] pub fn m(&self) {{}} }} }}",
    "#[ink::contract] mod c {{ #[ink(storage)] pub struct S {{}} impl S {{ #[ink(constructor)] pub fn new() -> Self {{ S {{}} }} #[ink(message)] pub fn m(&self) {{}} {} pub fn f(&self) {{}} }} }}",
    "#[ink::contract] mod c {{ #[ink(storage)] pub struct S {{}} #[ink(event)] pub struct E {{ {} f: u8 }} impl S {{ #[ink(constructor)] pub fn new() -> Self {{ S {{}} }} #[ink(message)] pub fn m(&self) {{}} }} }}",
    "#[ink::contract] mod c {{ #[ink(storage)] pub struct S {{}} {} impl S {{ #[ink(constructor)] pub fn new() -> Self {{ S {{}} }} #[ink(message)] pub fn m(&self) {{}} }} #[cfg(test)] mod tests {{ fn x() {{}} }} }}",
    "#[ink::contract] mod c {{ #[ink(storage)] pub struct S {{}} impl S {{ #[ink(constructor)] pub fn new() -> Self {{ S {{}} }} #[ink(message)] pub fn m(&self) {{}} }} #[cfg(test)] mod tests {{ {} fn x() {{}} }} }}",
    "#[ink::trait_definition] pub trait T {{ #[ink(message)] fn m(&self); {} fn f(&self); }}",
    "#[ink::storage_item] struct I {{ {} a: u8 }}",
]
CHAIN = ["#[ink::chain_extension{}] pub trait C {{ type ErrorCode = u8; {} fn f(); }}",
         "mod m {{ #[ink::chain_extension{}] pub trait C {{ type ErrorCode = (); {} fn f(a: u8) -> u8; }} }}"]
NOISE = ["", "", "", "/// doc\n", "#[derive(Debug)] ", "#[cfg(test)] ", "// c\n"]


def render(st, key):
    """The source, and for every attribute and argument its span, text and name."""
    s = Src()
    k = pick(key, 10 ** 6)
    if st["chain"]:
        t = CHAIN[k % len(CHAIN)]
        ext = "(extension = 1)" if st["v"] == 5 else ""
        head, tail = t.split("{} fn", 1)
        head, tail = head.format(ext), "fn" + tail
        head, tail = head, tail.format()
    else:
        head, tail = (x.replace("{{", "{").replace("}}", "}") for x in PLAIN[k % len(PLAIN)].split("{} ", 1))
    s.w(head)
    sp = [" = ", "=", " =  "][k // 7 % 3]
    # comments are white space
    cm = lambda tag, *alts: alts[pick(key + tag, len(alts))] if k % 5 == 0 else ""
    gap = cm("gap", "", " /* c */", "/**/", " // x\n ", " /* = 2 */ ")
    s.names = {}
    for i, a in enumerate(st["as"], 1):
        s.w(NOISE[pick(f"{key}n{i}", len(NOISE))])
        with s.span(f"attr{i}"):
            u = UNKNOWN_MACRO.get(a["m"])
            s.w("#[", u[pick(f"{key}m{i}", len(u))] if u else MACRO.get(a["m"], "ink::" + a["m"]))
            if a["args"] or a["m"] == "":
                s.w(cm("open", "", " ", "/* o */"), "(", cm("lead", "", "/* message */ ", "\n// y\n", " "))
                for j, x in enumerate(a["args"], 1):
                    with s.span(f"arg{i}.{j}"):
                        f, q = x["f"], pick(f"{key}/{i}/{j}", 1000)
                        name = x["k"] if x["k"] in ALLARGS else UNKNOWN[q % len(UNKNOWN)] if k % 5 < 2 or k % 17 == 0 or f != "none" or len(a["args"]) > 1 else MALFORMED[q % 2]
                        s.names[i, j] = name
                        s.w(name)
                        if f not in ("none", "eq", "bad") and f not in NEST:
                            s.w(gap)
                        if f == "eq":
                            s.w(" =")
                        elif f == "bad":
                            s.w(sp, BAD[q % len(BAD)])
                        elif f in NEST:
                            s.w(NEST[f])
                        elif f != "none":
                            s.w(sp, cm("val", "", "/* 5 */ ", "// z\n"), VALUE[f][q % len(VALUE[f])])
                        s.w(cm(f"end{j}", "", "", " /* e */", "/*e*/", " // w\n"))
                    if j < len(a["args"]):
                        s.w([", ", ",", ",\n   "][k // 31 % 3])
                    elif k % 17 == 0:
                        s.w([",", ", ", ",\n"][k // 17 % 3])
                s.w(")")
            s.w("]")
        s.w(["\n", " "][k // 3 % 2])
    s.w(NOISE[pick(key + "end", 6)], tail, "\n")
    return s


def predict(st, s):
    raw = s.text.encode()
    T = lambda n: raw[slice(*s.spans[n])].decode()
    groups = {}          # reports that share place and repair may be merged by the tool
    pred = []
    for d in st["d"]:
        m, i, j, x = d["m"], d["i"], d["j"], d["x"] or d["p"]
        a = st["as"][i - 1]
        at, an = f"attr{i}", f"arg{i}.{j}"
        arg = a["args"][j - 1] if j else None
        name = s.names[i, j] if arg else None
        E = lambda msg: (msg, "Error")
        if m == "unknown":
            pred.append(({(f"Unknown ink! attribute: `{T(at)}`", "Warning")}, at))
        elif m == "unknown-arg":
            # an attribute with nothing but this argument is reported as a whole (same place and repair)
            pred.append(({(f"Unknown ink! attribute argument: '{name}'.", "Warning")}, an, len(a["args"]) == 1 and a["m"] == ""))
        elif m == "value":
            if x == "string":
                msg = f"`{name}` argument should have a `string` (`&str`) value - {LIST[name]}"
            else:
                msg = EXPECT[x].format(k=name)
            pred.append(({E(msg)}, an))
        elif m == "nested-value":
            pred.append(({E(EXPECT[x].format(k=x))}, an))
        elif m == "nest":
            pred.append(({E(f"`{name}` argument should use nested meta-item syntax (e.g. `{name}({OPTS[x][0]})`).")}, an))
        elif m == "nest-required":
            pred.append(({E(f"`{name}` argument should have a nested meta-item (e.g. `{name}({OPTS[x][0]})`).")}, an))
        elif m == "option":
            inner = NEST[arg["f"]][1:-1]
            owner = name
            if x == "url":
                inner, owner = inner[inner.index("(") + 1:-1], "node"
            o = OPTS[x]
            tail = f"expected: `{o[0]}`" if len(o) == 1 else "expected one of: " + ", ".join(f"`{y}`" for y in o)
            inners = {inner, inner.replace(" = ", "="), inner.replace("=", " = ").replace("  ", " ")}
            pred.append(({E(f"Unknown option `{y}` for `{owner}` argument, {tail}.") for y in inners}, an))
        elif m == "not-first":
            pred.append(({E(f"`{T(at)}` should be the first ink! attribute for this item.")}, at))
        elif m == "arg-not-first":
            pred.append(({E(f"`{x}` should be the first argument for this ink! attribute: {T(at)}.")}, an))
        elif m == "needs":
            if x == "anonymous":
                ns = [["event", "event"]] if st["v"] == 5 else [["event"]]
            elif x == "handle_status":
                ns = [["extension"], ["function"]] if st["v"] == 5 else [["extension"]]
            else:
                ns = [NEEDS[x]]
            pred.append(({E("An " + " or ".join(f"`ink! {y}`" for y in n) + " attribute should be the first ink! attribute for this item.") for n in ns}, at))
        elif m == "needs-extension":
            pred.append(({E("Missing required ink! `extension` argument.")}, at))
        elif m in ("dup-macro", "conflict-first", "conflict-primary"):
            msg = f"Duplicate ink! attribute macro: `{T(at)}`" if m == "dup-macro" else \
                f"ink! attribute `{T(at)}` conflicts with the {m[9:]} ink! attribute `{T('attr%d' % x)}` for this item."
            groups.setdefault(at, set()).add(E(msg))
        elif m == "deprecated":
            if a["m"] == "" and len(a["args"]) == 1:
                groups.setdefault(at, set()).update(E(y) for y in DEPR[x])
            else:
                pred.append(({E(y) for y in DEPR[x]}, at))
        else:
            if m == "dup-arg":
                msg = f"Duplicate ink! attribute argument: `{name}`"
            elif m == "conflict-args":
                msg = f"ink! attribute argument `{name}` conflicts with the ink! attribute argument `{x}` for this item."
            elif m == "conflict-own":
                what = f"macro `{a['m'].replace('e2e_test', 'e2e test')}`" if a["m"] else f"argument `{best(a)}`"
                msg = f"ink! attribute argument `{name}` conflicts with the ink! attribute {what} for this item."
            else:
                msg = f"ink! attribute argument `{name}` conflicts with the first ink! attribute `{T('attr%d' % x)}` for this item."
            groups.setdefault(an, set()).add(E(msg))
    return pred + [(alts, anchor) for anchor, alts in groups.items()]


DEPR = {
    "extension": ["ink! attribute argument `extension` is deprecated. Use the new `function` attribute argument instead. See https://use.ink/faq/migrating-from-ink-4-to-5/#chain-extension-api-changed--support-for-multiple-chain-extensions for details."],
    "additional_contracts": ["ink! attribute argument `additional_contracts` is deprecated. See https://github.com/paritytech/ink/pull/2098 for details."],
    "keep_attr": ["ink! attribute argument `keep_attr` is deprecated for the ink! e2e test attribute macro. See https://github.com/paritytech/ink/pull/1830 for details."],
}
ENT = {"constructor", "event", "extension", "function", "impl", "message", "storage", "topic"}


def best(a):
    ks = [x["k"] for x in a["args"]]
    return next((k for k in ks if k in ENT), next((k for k in ks if k in ALLARGS), None))


def run(chk, name, consts, lim, reps=1, **kw):
    base = dict(Versions={4, 5}, Macros={""}, Args=set(ALLARGS), Forms=GOOD, MaxAttrs=1, MaxArgs=1, InChain={False}, OnlyGood=True)
    base.update(consts)
    r = mc("Attrs", base, ["Agree", "Located"], **kw)
    chk.add_tlc(r)
    sts = uniq(r.lines)
    sts = [x for x in sts if x["as"]]
    if len(sts) > lim:
        chk.notes.append(f"attributes {name}: {len(sts)} enumerated, {lim} sampled for replay")
        sts = chk.rng.sample(sts, lim)
    cases = []
    for st, n in [(st, n) for st in sts for n in range(reps)]:
        key = json.dumps({q: st[q] for q in st if q != "d"}, sort_keys=True) + ("#%d" % n if n else "")
        s = render(st, key)
        cases.append((key, s.text, st["v"], predict(st, s), s.spans, f"attributes {'+'.join(sorted({d['m'] for d in st['d']})) or 'valid'}"))
    run_cases(chk, cases, f"attributes {name}", only=VOCAB)


def p08(chk):
    T = chk.thorough
    both = {False, True}
    run(chk, "values", dict(Forms=ALLFORMS, OnlyGood=False, InChain=both), 60000, reps=12 if T else 6)
    forms = {"none", "u16", "x32", "_", "@", "big", "s-ident", "true", "eq"}
    run(chk, "callable values", dict(Args={"constructor", "message", "selector"}, Forms=forms, OnlyGood=False, MaxArgs=2), 60000)
    run(chk, "split callable values", dict(Args={"constructor", "message", "selector"}, Forms=forms, OnlyGood=False, MaxAttrs=2), 60000)
    run(chk, "event values", dict(Macros={"", "event"}, Args={"event", "anonymous", "signature_topic"}, Forms={"none", "s-hex32", "s-hex31", "s-ident", "eq"}, OnlyGood=False, MaxArgs=2), 60000)
    run(chk, "test values", dict(Macros={"e2e_test"}, Args={"backend", "environment"}, Forms=set(NEST) | {"none", "path", "s-url", "eq"}, OnlyGood=False, MaxArgs=2), 60000)
    run(chk, "macros", dict(Macros=set(ALLMACROS) | {"", "foo", "e2e_foo"}, Args=set(ALLARGS) | {"bar"}, InChain=both), 60000)
    run(chk, "two arguments", dict(Macros={""}, Args=set(ALLARGS) | {"bar"}, MaxArgs=2, InChain=both), 60000 if T else 4000)
    run(chk, "macro arguments", dict(Macros=set(ALLMACROS), MaxArgs=2), 60000 if T else 3000)
    small = {"constructor", "message", "selector", "payable", "default", "event", "anonymous", "signature_topic", "namespace", "impl", "keep_attr", "env",
             "extension", "function", "handle_status", "storage", "topic", "bar"}
    run(chk, "two attributes", dict(Macros={"", "contract", "storage_item", "scale_derive", "event", "e2e_test", "foo"}, Args=small | {"derive", "Encode", "environment"}, MaxAttrs=2, MaxArgs=1, InChain=both), 120000 if T else 6000)
    run(chk, "order", dict(Macros={""}, Args={"constructor", "message", "selector", "payable", "default"}, MaxAttrs=3, MaxArgs=2 if T else 1), 100000 if T else 2000)
    run(chk, "random", dict(Macros={""} | set(ALLMACROS), Args=set(ALLARGS) | {"bar"}, MaxAttrs=3, MaxArgs=3, InChain=both), 30000 if T else 4000,
        simulate=300 if T else 40, depth=9, seed=chk.seed)
    run(chk, "random callables", dict(Macros={""}, Args={"constructor", "message", "selector", "payable", "default", "bar"}, MaxAttrs=3, MaxArgs=3), 30000 if T else 2000,
        simulate=400 if T else 60, depth=9, seed=chk.seed + 1)
    return "TLC checks Agree (reported iff the declarative rule is broken) and Located on every enumerated attribute group; each is written on one of 25 items and the analyser's reports must be exactly the predicted ones, at their place"
