"""P19: hover texts, inlay hints and signature help."""
import json, re
from vlib.core import *
from vlib.rules import *
from checks.rules import mc, uniq
from checks.attrs import ALLARGS, ALLMACROS, GOOD
from checks.suggest import ITEMS, SCOPES, TEXT, NOISE, REAL, VAL

WORDS = {"pa", "se", "e", "na", "m", "bar"}
VAL = dict(VAL, **{"(runtime_only)": "(runtime_only)", "(node(url))": '(node(url = "ws://h:1"))', "(runtime_only(sandbox))": "(runtime_only(sandbox = crate::S))", "path": " = crate::E"})
# What tells the text about a thing in an edition from the other edition.
MARK = {("arg", "anonymous", ""): (r"`#\[ink\(anonymous\)\]`", r"ink::event"), ("arg", "anonymous", "5"): (r"`#\[ink::event\(anonymous\)\]`", None),
        ("arg", "extension", ""): (r"`#\[ink\(extension = N: u32\)\]`", None), ("arg", "extension", "5"): (r"`#\[ink::chain_extension\(extension = N: u16\)\]`", None),
        ("arg", "keep_attr", ""): (r"ink_e2e::test\(keep_attr", None), ("arg", "keep_attr", "5"): (r"ink::contract\(keep_attr", r"^`.*ink_e2e::test\(keep_attr"),
        ("arg", "selector", ""): (r"u32 \| _\)", r"@"), ("arg", "selector", "5"): (r"u32 \| _ \| @", None),
        ("arg", "topic", "5"): (r"ink::event", None), ("arg", "topic", ""): (r"ink\(event\)", r"ink::event"),
        ("macro", "chain_extension", ""): (r"ink\(extension = ", r"ink\(function"), ("macro", "chain_extension", "5"): (r"ink\(function = ", None)}


def render(st, key):
    k = pick(key, 10 ** 6)
    s = Src()
    pre, post = SCOPES[st["scope"]]
    if st["scope"] == "chain_extension" and st["v"] == 4:
        pre = pre.replace("(extension = 1)", "")
    if st["item"] == "fn" and st["scope"] in ("trait", "trait_definition", "chain_extension"):
        body = ["fn f(&self);", "fn f(a: u8) -> u8;"][k % 2]
    else:
        body = TEXT[st["item"]][k % len(TEXT[st["item"]])].replace("^", "")
    s.w(["", "", "// é\n", "/* 🚀 */ "][k // 7 % 4], pre, ["", "\n    ", "\n"][k // 3 % 3])
    sp = []
    for i, a in enumerate(st["as"]):
        s.w(NOISE[pick(f"{key}n{i}", len(NOISE))])
        d = {"at": len(s.b), "args": [], "tokens": []}

        def tok(t):
            d["tokens"].append((len(s.b), len(s.b) + len(t.encode())))
            s.w(t)
        tok("#")
        tok("[")
        gap = ["", "", "", " "][k // 13 % 4]
        s.w(gap)
        if a["m"]:
            c, m = REAL(a["m"]).split("::")
            tok(c)
            tok("::")
            d["macro"] = (len(s.b), len(s.b) + len(m))
            tok(m)
        else:
            tok("ink")
        if a["args"] or not a["m"] or k % 3 == 0:
            tok("(")
            d["in"] = len(s.b)
            s.w(["", "", " "][k // 5 % 3])
            for j, x in enumerate(a["args"]):
                b = len(s.b)
                v = VAL[x["f"]]
                if k // 37 % 3 == 0:
                    v = v.replace(" = ", "=")
                s.w(x["k"], v)
                ns = [(b, b + len(x["k"]))]
                for w in re.findall(r"(?<=\()\w+", v):
                    q = b + len(x["k"]) + v.index("(" + w) + 1
                    ns.append((q, q + len(w)))
                d["args"].append({"r": (b, len(s.b)), "names": ns})
                if j + 1 < len(a["args"]):
                    tok(",")
                    s.w(["", " ", "\n    "][k // 11 % 3])
            if a["args"]:
                s.w(["", "", ", ", " "][k // 17 % 4])
            d["out"] = len(s.b)
            tok(")")
        tok("]")
        d["end"] = len(s.b)
        s.w(["\n", " ", "\n\n"][k // 23 % 3])
        sp.append(d)
    s.w(body, " ", post, "\n")
    return s.text, sp


def run(chk, name, consts, lim, **kw):
    base = dict(Versions={4, 5}, Macros={""} | set(ALLMACROS), Args=set(ALLARGS), Forms=GOOD, MaxAttrs=1, MaxArgs=1, InChain={False}, OnlyGood=True,
                Items=ITEMS, Scopes=set(SCOPES), Foci={"arg"}, Natural=True)
    base.update(consts)
    r = mc("Describe", base, ["HintsMatch", "Covers", "ShowsOffers"], spec="SSpec", emit="DEmit", **kw)
    chk.add_tlc(r)
    sts = [s for s in uniq(r.lines) if s["as"]]
    if len(sts) > lim:
        chk.notes.append(f"descriptions {name}: {len(sts)} enumerated, {lim} sampled for replay")
        sts = chk.rng.sample(sts, lim)
    jobs, cases = [], []
    for st in sts:
        key = json.dumps({q: st[q] for q in ("v", "item", "scope", "as")}, sort_keys=True)
        src, sp = render(st, key)
        k = pick(key + "c", 10 ** 6)
        hov, sig = [], []          # (range, what), (offset, what)
        for i, d in enumerate(sp):
            doc = st["docs"][i]
            ctx = [t for t in d["tokens"]]
            for a, b in ctx:
                hov.append(((a, b), (i, 0)))
            hov.append(((d["at"], d["end"]), (i, 0)))
            inside = [p for p in range(d["at"] + 1, d["end"])]
            for p in chk.rng.sample(inside, min(4, len(inside))):
                if not re.match(rb"\s", src.encode()[p:p + 1]):
                    j = next((j + 1 for j, x in enumerate(d["args"]) if x["r"][0] <= p <= x["r"][1]), 0)
                    hov.append(((p, p), (i, j)))
            for j, x in enumerate(d["args"]):
                a, b = x["r"]
                hov += [((a, b), (i, j + 1)), (x["names"][-1], (i, j + 1)), ((a, a + 1), (i, j + 1))]
                if a + 1 < b:
                    hov.append(((b - 1, b), (i, j + 1)))
                    sig.append((a + 1 + k % (b - a - 1), (i, j + 1)))
                sig += [(a, (i, j + 1)), (b, (i, j + 1))]
            if len(d["args"]) > 1:
                hov.append(((d["args"][0]["r"][0], d["args"][1]["r"][1]), (i, 0)))
            if "in" in d:
                on = lambda p: next((j + 1 for j, x in enumerate(d["args"]) if x["r"][0] <= p <= x["r"][1]), 0)
                sig += [(p, (i, on(p))) for p in (d["in"], d["out"])]
            sig += [(d["at"] + 1, None), (d["at"] + 3, None)] + ([(d["in"] - 1, None)] if "in" in d else [])
        hov = [x for x in hov if x[0][0] <= x[0][1]]
        n = len(src.encode())
        lo, hi = sp[0]["at"], sp[-1]["end"]
        rngs = [None, (0, n), (lo, hi), (lo + (hi - lo) // 2, n), (0, lo + (hi - lo) // 2)] + [x["r"] for d in sp for x in d["args"]][:2] + \
               [(x["r"][0] + 1, n) for d in sp for x in d["args"]][:1] + [(0, x["r"][1] - 1) for d in sp for x in d["args"]][:1]
        after = [(n - 1, n), (0, n)]
        cases.append((key, st, src, sp, hov + [(x, None) for x in after], sig, rngs))
        jobs.append({"op": "hover", "src": src, "v": str(st["v"]), "at": [list(x[0]) for x in cases[-1][4]]})
        jobs.append({"op": "sig", "src": src, "v": str(st["v"]), "at": [x[0] for x in sig]})
        for q in rngs:
            jobs.append({"op": "inlay", "src": src, "v": str(st["v"])} | ({"at": list(q)} if q else {}))
    res = iter(zip(jobs, vh(jobs)))
    bad = 0
    for key, st, src, sp, hov, sig, rngs in cases:
        def fail(what, job, r):
            nonlocal bad
            bad += 1
            chk.violation(f"describe {name}:{h([key, what[:60]])}", f"descriptions {name}: {what}\n--- source\n{src}"[:2500], {"job": job, "result": r, "case": key})
        b = src.encode()
        cut = lambda q: b[q[0]:q[1]].decode()
        attrs_in = lambda p: any(d["at"] <= p < d["end"] for d in sp)
        # hover
        job, r = next(res)
        chk.ok("hover " + key, "hover")
        if "r" not in r:
            fail(f"analysis failed: {r}", job, r)
        else:
            for (q, on), got in zip(hov, r["r"]):
                want, at = None, None
                if on:
                    i, j = on
                    want = st["docs"][i]["args"][j - 1] if j else st["docs"][i]["at"]
                    jj = j or st["docs"][i]["n"]
                    at = sp[i]["args"][jj - 1]["names"][0] if jj else sp[i].get("macro")
                if want is None or want["c"] == "none":
                    if got is not None:
                        fail(f"hover at {cut(q)!r} {q}: text about {got['content'][:60]!r}, expected none", job, got)
                    continue
                if got is None:
                    fail(f"hover at {cut(q)!r} {q}: no text, expected one about {want}", job, got)
                    continue
                if tuple(got["r"]) != tuple(at):
                    fail(f"hover at {cut(q)!r} {q}: range {cut(got['r'])!r} instead of {cut(at)!r}", job, got)
                about(chk, fail, want, got["c"], job)
        # signature help
        job, r = next(res)
        chk.ok("signature " + key, "signature help")
        if "r" not in r:
            fail(f"analysis failed: {r}", job, r)
        else:
            for (p, on), got in zip(sig, r["r"]):
                if on and not st["as"][on[0]]["m"] and any(x["k"] in ("node", "url", "runtime_only", "sandbox") for x in st["as"][on[0]]["args"]):
                    continue      # these only exist nested in another argument
                want = st["help"][on[0]][on[1]] if on else []
                W = sorted((sorted(x["k"] + (": " + x["t"] if x["t"] else "") for x in w["ps"]), sorted(w["act"])) for w in want)
                G, odd = [], None
                for g in got:
                    ps = [g["label"].encode()[x["r"][0]:x["r"][1]].decode() for x in g["params"]]
                    if ", ".join(ps) != g["label"]:
                        odd = f"parameters {ps} do not make up the label {g['label']!r}"
                    names = [x.split(":")[0] for x in ps]
                    if "_" not in names and any(n in ENTS for n in names[1:]) and names[0] not in ENTS:
                        odd = f"entity is not the first parameter in {g['label']!r}"
                    if on and tuple(g["r"]) != (sp[on[0]]["in"], sp[on[0]]["out"]):
                        odd = f"range {cut(g['r'])!r} is not that of the arguments"
                    act = g["active"]
                    G.append((sorted(ps), names[act] if act is not None and act < len(names) else None, names[0]))
                    for nme, x in zip(names, g["params"]):
                        note(chk, fail, st["v"], nme, x["detail"], job)
                G.sort()
                if odd:
                    fail(f"signature help at {p}: {odd}", job, got)
                ok = [g[0] for g in G] == [w[0] for w in W] and all((g[1] in w[1]) if w[1] else g[1] == g[2] for g, w in zip(G, W))
                if not ok:
                    fail(f"ink! {st['v']} signature help on {on} at {p} ({b[:p].decode()[-40:]}‸{b[p:].decode()[:20]}): {G} instead of (parameters, active) {W}", job, got)
        # inlay hints
        for q in rngs:
            job, r = next(res)
            chk.ok(f"inlay {q} {key}", "inlay hints")
            if "r" not in r:
                fail(f"analysis failed: {r}", job, r)
                continue
            own = [g for g in r["r"] if attrs_in(g["r"][0])]
            W = []
            for x in st["hints"]:
                a = sp[x["i"] - 1]["args"][x["j"] - 1]
                nm = a["names"][x["d"]]
                full = a["r"] if x["d"] == 0 else (nm[0], nest_end(b, nm))
                if q is None or (q[0] <= full[0] and full[1] <= q[1]):
                    W.append((nm, x["t"], x["n"] or None))
            G = [(tuple(g["r"]), g["label"], g["detail"]) for g in own]
            if sorted(G, key=str) != sorted(W, key=str) or any(g["p"] != g["r"][1] for g in own):
                fail(f"ink! {st['v']} inlay hints in {q}: {G} instead of {W}", job, r)
            if q and any(not (q[0] <= g["r"][0] and g["r"][1] <= q[1]) for g in r["r"]):
                fail(f"inlay hint outside the range {q}", job, r)
    chk.traces += len(cases)
    chk.log(f"descriptions {name}: {len(cases)} items, {len(jobs)} queries, {bad} mismatches")


NEW5 = {"backend", "node", "url", "runtime_only", "sandbox", "Decode", "Encode", "function", "signature_topic", "TypeInfo"}
ENTS = {"constructor", "event", "extension", "function", "impl", "message", "storage", "topic"}


def nest_end(b, nm):
    """End of a nested argument: behind its value or its closing parenthesis."""
    e, depth = nm[1], 0
    while e < len(b):
        c = b[e:e + 1]
        if c == b"(":
            depth += 1
        elif c == b")":
            if depth == 0:
                return len(b[:e].rstrip())
            depth -= 1
        elif c == b"," and depth == 0:
            return e
        e += 1
    return e


def about(chk, fail, want, text, job):
    """Each text describes one thing, and says so."""
    key = (want["c"], want["k"], want["e"])
    d = chk.__dict__.setdefault("docs", {})
    if d.setdefault(key, text) != text:
        fail(f"two different texts about {key}", job, text)
    o = chk.__dict__.setdefault("texts", {})
    if o.setdefault(text, key) != key:
        fail(f"the same text about {key} and {o[text]}", job, text)
    head = text.strip().split("\n# ")[0]
    w = {"e2e_test": "ink_e2e::test"}.get(want["k"], want["k"])
    word = rf"`?ink_e2e::test" if w == "ink_e2e::test" else rf"::{w}\b" if want["c"] == "macro" else rf"(?:[(`, ]){w}\b"
    yes, no = MARK.get(key, (None, None))
    if want["e"] == "deprecated":
        yes = "deprecated"
    elif "deprecated" in head:
        no = "deprecated"
    if not re.search(word, head) or (yes and not re.search(yes, text)) or (no and re.search(no, text, re.M)):
        fail(f"the text about {key} does not describe it: {head[:120]!r}", job, text)


def note(chk, fail, v, k, text, job):
    d = chk.__dict__.setdefault("notes5", {})
    if v == 4 and k in NEW5:
        return
    if text is None:
        fail(f"no description of parameter {k}", job, text)
    elif d.setdefault((v, k, "@" in (text or "")), text) != text:
        fail(f"two different descriptions of parameter {k}: {text!r} and {d[v, k, '@' in text]!r}", job, text)
    elif any(t == text and q[1] != k for q, t in d.items()):
        if not (k in ("extension", "function")):
            fail(f"the same description of parameter {k} and another: {text!r}", job, text)


def p19(chk):
    T = chk.thorough
    run(chk, "one attribute", dict(MaxArgs=2 if T else 1, Macros={""} | set(ALLMACROS) | {"foo"}, Args=set(ALLARGS) | WORDS), 100000 if T else 5000)
    nest = {"none", "path", "(node)", "(runtime_only)", "(node(url))", "(runtime_only(sandbox))", "true", "u16", "s-ident"}
    run(chk, "nested", dict(Natural=False, Items={"fn", "struct"}, Scopes={"root", "contract-e2e"}, Macros={"e2e_test"}, Args={"backend", "environment", "keep_attr", "selector"}, Forms=nest, OnlyGood=False, MaxArgs=2), 20000 if T else 1500)
    few = {"root", "contract", "contract-impl", "trait_definition", "chain_extension", "event", "event2", "ink-impl", "contract-timpl"}
    run(chk, "two arguments", dict(MaxArgs=3 if T else 2, Scopes=few), 100000 if T else 3500)
    run(chk, "two attributes", dict(MaxAttrs=2, MaxArgs=1, Scopes=few if not T else set(SCOPES)), 100000 if T else 3500)
    run(chk, "unrelated", dict(Natural=False, Scopes={"root", "contract"}, MaxArgs=2 if T else 1, Macros={""} | set(ALLMACROS) | {"foo"}, Args=set(ALLARGS) | {"bar", "e"}), 60000 if T else 2500)
    run(chk, "random", dict(MaxAttrs=3, MaxArgs=3, Args=set(ALLARGS) | WORDS), 40000 if T else 2500, simulate=400 if T else 60, depth=8, seed=chk.seed)
    return ("TLC checks HintsMatch (hints on exactly the arguments that need a value), Covers and ShowsOffers (signatures list what is written and what is offered) and emits, for each item, the thing described at every place; "
            "hover, signature help and hints of the real analyser at these places must be exactly that, and each text must describe its thing")
