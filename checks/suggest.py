"""P14: what is offered for the ink! attributes of an item, and what accepting it gives."""
import json, re
from vlib.core import *
from vlib.rules import *
from checks.rules import mc, uniq
from checks.attrs import ENT, ALLARGS, ALLMACROS, GOOD, MACRO

ITEMS = {"struct", "enum", "union", "fn", "mod", "trait", "impl", "timpl", "type", "const", "field"}
CT = ("#[ink::contract] mod c { #[ink(storage)] pub struct S {} impl S { #[ink(constructor)] pub fn new() -> Self { S {} } #[ink(message)] pub fn m0(&self) {} } ", "}")
SCOPES = {
    "root": ("", ""), "mod": ("mod a { mod b { ", "} }"), "impl": ("struct X; impl X { ", "}"), "trait": ("trait Y { fn y(); ", "}"), "body": ("fn g() { ", " let x = 1; }"),
    "contract": CT, "contract-mod": (CT[0] + "pub mod inner { ", "} " + CT[1]), "contract-impl": (CT[0] + "impl S { ", "} " + CT[1]),
    "contract-timpl": ("#[ink::trait_definition] pub trait Tr { #[ink(message)] fn a0(&self); } " + CT[0] + "impl Tr for S { ", "} " + CT[1]),
    "contract-test": (CT[0] + "#[cfg(test)] mod tests { use super::*; ", "} " + CT[1]),
    "contract-e2e": (CT[0] + '#[cfg(all(test, feature = "e2e-tests"))] mod tests { ', "} " + CT[1]),
    "contract-body": (CT[0] + "fn g() { ", "} " + CT[1]), "contract-struct": (CT[0] + "pub struct Z { z: u8, ", " y: u8 } " + CT[1]),
    "test-mod": ("#[cfg(test)] mod tests { ", "}"), "e2e-mod": ('#[cfg(all(test, feature = "e2e-tests"))] mod tests { ', "}"),
    "message-body": (CT[0] + "impl S { #[ink(message)] pub fn m1(&self) { ", "} } " + CT[1]),
    "test-body": ("#[cfg(test)] mod t { #[ink::test] fn t() { ", "} }"), "e2e-body": ("#[ink_e2e::test] async fn t() { ", "}"),
    "ink-impl": (CT[0] + "#[ink(impl)] impl S { ", "} " + CT[1]), "ns-impl": (CT[0] + '#[ink(namespace = "n")] impl S { ', "} " + CT[1]),
    "trait_definition": ("#[ink::trait_definition] pub trait T { #[ink(message)] fn t(&self); ", "}"),
    "chain_extension": ("#[ink::chain_extension(extension = 1)] pub trait C { type ErrorCode = (); ", "}"),
    "event": (CT[0] + "#[ink(event)] pub struct E { e: u8, ", "} " + CT[1]), "event2": ("#[ink::event] pub struct E { ", " z: u8 }"),
    "storage": ("#[ink::contract] mod c { #[ink(storage)] pub struct S { ", "} impl S { #[ink(constructor)] pub fn new() -> Self { S {} } #[ink(message)] pub fn m0(&self) {} } }"),
    "storage_item": ("#[ink::storage_item] struct I { ", "}"), "plain-struct": ("pub struct I { pub a: u8, ", "}"),
}
TEXT = {
    "struct": ["pub ^struct A {}", "^struct A { x: u8 }", "pub(crate) ^struct ^A;", "^struct A(u8);"], "enum": ["pub ^enum ^A { X }", "^enum A {}"], "union": ["^union A { x: u8 }", "pub ^union A { x: u8 }"],
    "fn": ["pub ^fn ^f(&self) {}", "^fn f(^a: u8) -> u8 { a }", "pub ^fn f() -> Self { Self {} }"], "mod": ["^mod ^m { fn q() {} }", "pub ^mod m {}"],
    "trait": ["pub ^trait ^T1 { fn q(&self); }", "^trait T1 {}"], "impl": ["^impl ^Q { fn q() {} }", "^impl Q {}"], "timpl": ["^impl U ^for Q { fn q() {} }", "^impl U for Q {}"],
    "type": ["^type ^X = u8;"], "const": ["pub ^const K: u8 = 1;"], "field": ["^fl: u8,", "pub ^fl: u8,", "^fl: ^u8,"],
}
NOISE = ["", "", "", "/// doc\n", "#[derive(Debug)] ", "#[cfg(test)] ", "// c\n", "#[allow(unused)]\n"]
VAL = {"none": "", "u16": " = 7", "true": " = true", "path": " = crate::E", "s-ident": ' = "nn"', "s-hex32": ' = "0x' + "11" * 32 + '"', "s-url": ' = "ws://a:1"', "(node)": "(node)", "s-empty": ' = ""'}
HARM = re.compile(r"^(Unknown ink! attribute|Duplicate ink! attribute)|(conflicts with) the|^(Invalid scope)")
NEW = ["[", "i", "ink", "ink_e2e", "ink::", "ink_e2e::", "ink::pre", "ink_e2e::t"]
REAL = lambda m: MACRO.get(m, "ink::" + m)


def arg(x):
    return x["k"] + VAL[x["f"]]


def render(st, key):
    """Source text, cursor, and what was typed."""
    k = pick(key, 10 ** 6)
    s = Src()
    pre, post = SCOPES[st["scope"]]
    if st["scope"] == "chain_extension" and st["v"] == 4:
        pre = pre.replace("(extension = 1)", "")
    if st["item"] == "fn" and st["scope"] in ("trait", "trait_definition", "chain_extension"):
        body = ["^fn ^f(&self);", "^fn f(^a: u8) -> u8;"][k % 2]
    else:
        body = TEXT[st["item"]][k % len(TEXT[st["item"]])]
    s.w(pre, ["", "\n    ", "\n"][k // 3 % 3])
    start = len(s.b)
    cur, typed, form = None, "", None
    n = len(st["as"])
    first = st["focus"].endswith("1")
    focus = st["focus"].rstrip("1")
    on = 0 if first else n - 1

    def fresh():
        """A new attribute (before others only if complete enough not to swallow them)."""
        nonlocal form, typed, cur
        fs = NEW if not first else [x for x in NEW if x != "[" and not x.endswith("::")]
        form = fs[k % len(fs)]
        if form == "ink::pre":
            ms = [m for m in st["macros"] if m != "e2e_test"]
            typed = ms[pick(key + "m", len(ms))][:2] if ms else "xy"
            form = "ink::" + typed
        s.w("#[", "" if form == "[" else form)
        cur = len(s.b)
        s.w("]", [" ", "\n"][k // 23 % 2])
    if focus == "new" and first:
        fresh()
    for i, a in enumerate(st["as"]):
        s.w(NOISE[pick(f"{key}n{i}", len(NOISE))])
        at = len(s.b)
        s.w("#[", REAL(a["m"]) if a["m"] else "ink")
        if a["args"] or not a["m"] or (focus == "arg" and i == on) or k % 11 == 0:
            s.w("(", ["", "", "", " "][k // 5 % 4])
            for j, x in enumerate(a["args"]):
                s.w(arg(x), "" if j + 1 == len(a["args"]) else [", ", ",", ",\n    "][k // 7 % 3])
            if focus == "arg" and i == on:
                if a["args"]:
                    s.w([", ", ",", ",  ", ",\n     "][k // 2 % 4])
                if k // 16 % 3 == 0 and st["args"]:
                    typed = st["args"][pick(key + "t", len(st["args"]))]["k"][:2]
                    s.w(typed)
                cur = len(s.b)
                s.w(["", "", " "][k // 13 % 3])
            elif k // 17 % 3 == 0:
                s.w(["", ",", ", ", " "][k // 51 % 4] if a["args"] else ["", " "][k // 51 % 2])
            s.w(")")
        s.w("]")
        if focus == "attr" and i == on:
            end = len(s.b)
            cur = [at + 1, at + 3, end - 1, (at + end) // 2][k // 19 % 4]
        s.w(["\n", " ", "\n\n"][k // 23 % 3])
    if focus == "new" and not first:
        fresh()
    # an incomplete attribute swallows an attribute behind it
    noise = NOISE if focus != "new" else [x for x in NOISE if x[:1] != "#"]
    s.w(noise[pick(key + "end", len(noise))])
    item = len(s.b)
    marks = [m.start() for m in re.finditer(r"\^", body)]
    w = marks[k // 29 % len(marks)]
    off = len(body[:w].replace("^", ""))
    body = body.replace("^", "")
    if focus == "item":
        cur = item + off + k // 31 % 2
    s.w(body, " ", post, "\n")
    return s.text, cur, start, len(s.b) - item, typed, form


def attributes(region):
    """The ink! attributes in a stretch of text: a list of (path, [argument texts]), or None if malformed."""
    out, i = [], 0
    while True:
        i = region.find("#[", i)
        if i < 0:
            return out
        depth, j, ins, cut, parts = 0, i + 1, False, None, []
        while j < len(region):
            c = region[j]
            if c == '"':
                ins = not ins
            elif not ins and c in "[(":
                depth += 1
                if c == "(" and depth == 2:
                    cut = j + 1
            elif not ins and c in "])":
                depth -= 1
                if c == ")" and depth == 1:
                    parts.append(region[cut:j])
                    cut = None
                if depth == 0:
                    break
            elif not ins and c == "," and depth == 2:
                parts.append(region[cut:j])
                cut = j + 1
            j += 1
        if depth:
            return None
        path = re.match(r"[\w:\s]*", region[i + 2:]).group().strip()
        parts = [p.strip() for p in parts]
        if parts and not parts[-1]:
            parts = parts[:-1]
        if re.match(r"ink(_e2e)?\b", path):
            if "" in parts:
                return None
            out.append((path, parts))
        i = j + 1


FORM = {"none": r"", "u16": r" ?= ?\d+", "true": r" ?= ?true", "path": r" ?= ?[\w:]+", "s-ident": r' ?= ?"\w+"', "s-empty": r' ?= ?""', "s-hex32": r' ?= ?"0x\w+"',
        "s-url": r' ?= ?"ws://.*"', "(node)": r"\(node\)"}


def same(got, want, order=True):
    if got is None or len(got) != len(want):
        return False
    for (path, parts), w in zip(got, want):
        if path != (REAL(w["m"]) if w["m"] else "ink") or len(parts) != len(w["args"]):
            return False
        for p, x in zip(parts, w["args"]):
            f = FORM[x["f"]] if x["k"] not in ("additional_contracts", "keep_attr") else r' ?= ?"\w*"'
            if not re.fullmatch(re.escape(x["k"]) + f, p):
                return False
    return True


def merged(got, want):
    """Flattened attributes: the same arguments, entities first, unknown ones last."""
    rank = lambda p: 0 if re.match(r"\w+", p).group() in ENT else 1 if re.match(r"\w+", p).group() in ALLARGS else 2
    if got is None or len(got) != len(want):
        return False
    if any([rank(p) for p in ps] != sorted(rank(p) for p in ps) for _, ps in got if len(ps) > 1 and len(got) == 1):
        return False
    return same([(m, sorted(ps)) for m, ps in got], [{"m": w["m"], "args": sorted(w["args"], key=arg)} for w in want])


def edit(src, edits):
    b = src.encode()
    for e in sorted(edits, key=lambda e: -e["r"][0]):
        b = b[:e["r"][0]] + e["t"].encode() + b[e["r"][1]:]
    return b.decode()


def snippet(t):
    return re.sub(r"\$\d", "", re.sub(r"\$\{\d+:([^}]*)\}", r"\1", t))


def harm(d, scoped):
    c = {}
    for m, *_ in d:
        g = HARM.search(m)
        if g:
            x = g.group(1) or g.group(2) or g.group(3)
            if x != "Invalid scope" or scoped:
                c[x] = c.get(x, 0) + 1
    return c


def run(chk, name, consts, lim, **kw):
    base = dict(Versions={4, 5}, Macros={""} | set(ALLMACROS), Args=set(ALLARGS), Forms=GOOD, MaxAttrs=1, MaxArgs=1, InChain={False}, OnlyGood=True,
                Items=ITEMS, Scopes=set(SCOPES), Foci={"item", "attr", "arg", "new"}, Natural=True)
    base.update(consts)
    r = mc("Suggest", base, ["Sound", "Full", "FlatSound"], spec="SSpec", emit="SEmit", **kw)
    chk.add_tlc(r)
    sts = uniq(r.lines)
    if len(sts) > lim:
        chk.notes.append(f"suggestions {name}: {len(sts)} enumerated, {lim} sampled for replay")
        sts = chk.rng.sample(sts, lim)
    cases, jobs = [], []
    for st in sts:
        key = json.dumps({q: st[q] for q in ("v", "item", "scope", "focus", "as")}, sort_keys=True)
        st["args"].sort(key=lambda x: x["k"])
        st["macros"].sort()
        c = render(st, key)
        cases.append((key, st, c))
        op = "act" if st["focus"].rstrip("1") in ("item", "attr") else "comp"
        jobs.append({"op": op, "src": c[0], "v": str(st["v"]), "at": [[c[1], c[1]] if op == "act" else c[1]]})
    res = vh(jobs)
    bad, accepts = 0, []

    def fail(key, what, src, cur, job, r):
        nonlocal bad
        bad += 1
        chk.violation(f"suggest {name}:{h([key, what])}", f"suggestions {name}: {what}\n--- source (cursor ‸)\n{src.encode()[:cur].decode()}‸{src.encode()[cur:].decode()}"[:2000], {"job": job, "result": r, "case": key})

    for (key, st, (src, cur, start, tail, typed, form)), job, r in zip(cases, jobs, res):
        chk.ok(key, f"suggest {st['focus']}: {'offers' if st['args'] or st['macros'] else 'none'}")
        if "r" not in r:
            fail(key, f"analysis failed: {r}", src, cur, job, r)
            continue
        got = {}
        for x in r["r"][0]:
            es = x["edits"] if "edits" in x else [x["edit"]]
            m = re.match(r"(?:Add )?ink! (.+) attribute (macro|argument)\.$", x["label"] if "edits" in x else x["detail"] or "")
            if m and x["kind"] in ("Refactor", "Attr"):
                kind = ("macro" if m.group(2) == "macro" else "arg", m.group(1).replace("e2e test", "e2e_test"))
            elif not st["known"] and x["label"].startswith("Flatten"):      # nothing is known of unknown attributes
                continue
            elif x["label"] == "Flatten ink! attribute arguments.":
                kind = ("flatten", "")
            elif "edit" in x and x["detail"] in ("ink! attribute", "ink! attribute macro", "ink! e2e attribute macro"):
                kind = ("path", x["label"])
            else:
                continue
            if kind in got:
                fail(key, f"{kind} is offered twice", src, cur, job, r)
            got[kind] = es
        want = {}
        for x in st["args"]:
            if x["k"].startswith(typed):
                want["arg", x["k"]] = x["as"]
        for m in st["macros"]:
            if form is None or form in ("[", "i", "ink", "ink_e2e") or (REAL(m).split("::")[0] == form.split("::")[0] and REAL(m).split("::")[1].startswith(form.split("::")[1])):
                want["macro", m] = st["as"] + [{"m": m, "args": []}]
        if st["flat"]:
            want["flatten", ""] = st["flat"]
        if form is not None and not st["macros"] and st["item"] not in ("field", "type", "const") and form in ("i", "ink", "ink_e2e") and not st["om"]:
            for p in (["ink()"] if st["others"] else ["ink", "ink_e2e"]):
                if p.startswith(form):
                    want["path", p] = None
        if st["focus"].startswith("new") and st["item"] in ("field", "type", "const"):
            # the path to an attribute may be completed before it is clear what it is for
            got = {q: e for q, e in got.items() if q[0] != "path" and st["item"] == "field"}
        def result(es):
            new = edit(src, es).encode()
            return attributes(new[start:len(new) - tail].decode())
        for q in set(want) - set(got):
            # a quickfix that makes the same edit takes its place
            for x in r["r"][0]:
                if q[0] == "arg" and x["kind"] == "QuickFix" and same(result(x["edits"]), want[q]):
                    got[q] = x["edits"]
        if set(got) != set(want):
            fail(key, f"ink! {st['v']}, cursor on {st['focus']} of {st['item']} in {st['scope']}: offers {sorted(got)} instead of {sorted(want)}", src, cur, job, r)
            continue
        for q, es in got.items():
            if q[0] == "path":
                continue
            for e in es:
                if e["sn"] is not None and snippet(e["sn"]) != e["t"]:
                    fail(key, f"snippet {e['sn']!r} differs from text {e['t']!r}", src, cur, job, r)
            new = edit(src, es)
            if not (merged if q[0] == "flatten" else same)(result(es), want[q]):
                fail(key, f"accepting {q} gives {result(es)} instead of {want[q]}", src, cur, job, r)
            accepts.append((key, st["v"], st["scoped"], q + (st["clear"],), src, cur, new))
    if len(accepts) > lim:
        accepts = chk.rng.sample(accepts, lim)
    olds = sorted({(a[1], a[4]) for a in accepts})
    R = vh([{"op": "diags", "src": s, "v": str(v)} for v, s in olds] + [{"op": "diags", "src": a[6], "v": str(a[1])} for a in accepts])
    before = dict(zip(olds, R))
    for (key, v, scoped, q, src, cur, new), r in zip(accepts, R[len(olds):]):
        b = before[v, src]
        chk.ok(f"accept {q} {key}", f"accept {q[0]}")
        if "d" not in r or "d" not in b:
            fail(key, f"analysis failed: {r}", src, cur, {"op": "diags", "src": new, "v": str(v)}, r)
            continue
        if q[0] == "flatten" or not q[2]:      # unknown names are reported in other words in other company
            continue
        x, y = harm(b["d"], scoped), harm(r["d"], scoped)
        worse = [c for c in y if y[c] > x.get(c, 0)]
        # an attribute which was only being written has no report of its own yet
        if worse:
            fail(key, f"accepting {q} adds reports ({', '.join(worse)})\n--- after\n{new}\n--- before", src, cur, {"op": "diags", "src": new, "v": str(v)}, r)
    chk.traces += len(cases)
    chk.log(f"suggestions {name}: {len(cases)} cursors, {len(accepts)} offers accepted, {bad} mismatches")


# Nested arguments: text with the cursor, and what may be written there (Attrs.tla: Takes).
NESTS = [("backend(^)", {"node", "runtime_only"}), ("backend(n^)", {"node"}), ("backend(ru^)", {"runtime_only"}), ("backend(node(^))", {"url"}),
         ("backend(runtime_only(^))", {"sandbox"}), ("environment = E, backend(^)", {"node", "runtime_only"}), ("backend(^), environment = E", {"node", "runtime_only"})]


def nested(chk):
    jobs, cases = [], []
    for scope in ("root", "mod", "contract-e2e", "e2e-mod", "body"):
        for t, want in NESTS:
            for item in TEXT["fn"]:
                src = SCOPES[scope][0] + f"#[ink_e2e::test({t})]\nasync " + item.replace("^", "").replace("pub ", "") + SCOPES[scope][1]
                at = len(src[:src.index("^")].encode())
                src = src.replace("^", "")
                jobs.append({"op": "comp", "src": src, "v": "5", "at": [at]})
                cases.append((scope, t, want))
    for job, (scope, t, want), r in zip(jobs, cases, vh(jobs)):
        key = f"nested {scope} {t}"
        chk.ok(key + job["src"], "suggest nested")
        got = {}
        for x in r.get("r", [[]])[0]:
            got[re.match(r"\w+", x["label"]).group()] = attributes(edit(job["src"], [x["edit"]])[len(SCOPES[scope][0]):].split("\n")[0])
        exp = {}
        for k in want:
            inner = {"node": r"node", "runtime_only": r"runtime_only", "url": r'url = ".*"', "sandbox": r"sandbox = [\w:]+"}[k]
            exp[k] = re.escape(re.sub(r"\w*\^", "^", t)).replace(r"\^", inner).replace("\\ ", " ")
        if set(got) != set(exp) or any(v is None or not re.fullmatch(exp[k], ", ".join(v[0][1])) for k, v in got.items()):
            chk.violation(key, f"completions at `{t}` in {scope}: {got} instead of {sorted(want)}", {"job": job, "result": r})
    chk.log(f"nested arguments: {len(cases)} cursors")


def p14(chk):
    T = chk.thorough
    run(chk, "one attribute", dict(MaxArgs=2 if T else 1, Macros={""} | set(ALLMACROS) | {"foo"}, Args=set(ALLARGS) | {"bar"}), 100000 if T else 7000)
    few = {"root", "contract", "contract-impl", "trait_definition", "chain_extension", "event", "event2", "ink-impl", "contract-timpl"}
    run(chk, "two arguments", dict(MaxArgs=3 if T else 2, Scopes=few, Foci={"item", "attr", "arg"}), 100000 if T else 5000)
    run(chk, "two attributes", dict(MaxAttrs=2, MaxArgs=1, Scopes=few if not T else set(SCOPES), Foci={"item", "attr", "arg"}), 100000 if T else 5000)
    run(chk, "first of two attributes", dict(MaxAttrs=2, MaxArgs=1, Scopes=few if not T else set(SCOPES), Foci={"attr1", "arg1", "new1"}), 100000 if T else 4000)
    run(chk, "unrelated", dict(Natural=False, Scopes={"root", "contract"}, Foci={"item", "attr", "arg"}, MaxArgs=2 if T else 1, Macros={""} | set(ALLMACROS) | {"foo"}, Args=set(ALLARGS) | {"bar"}), 60000 if T else 4000)
    run(chk, "random", dict(MaxAttrs=3, MaxArgs=3, Foci={"item", "attr", "arg", "attr1", "arg1", "new1"}), 40000 if T else 4000, simulate=400 if T else 60, depth=8, seed=chk.seed)
    nested(chk)
    return ("TLC checks Sound (an offer adds no unknown, repeated or conflicting name by Attrs.tla), Full (whatever can be added is offered) and FlatSound; each enumerated item is written out, "
            "the offers at the cursor must be exactly the predicted ones, each accepted text must contain the predicted attributes, and its reports must not be worse")
