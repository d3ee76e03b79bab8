"""Cargo manifests (spec/Manifest.tla): declared version (P05), migration (P15), added dependencies (P16)."""
import itertools, json, os, tomllib, zlib
from urllib.parse import quote
from vlib.core import *
from checks.rules import mc, uniq, tla

PROBE = "#[ink::event]\npub struct E { a: u8 }\n\n#[ink::chain_extension]\npub trait T {\n    type ErrorCode = E;\n\n    #[ink(extension = 1)]\n    fn f();\n}\n"
EXIT = {"method": "exit", "params": None}


def term(x):
    if isinstance(x, dict):
        return {k: term(y) for k, y in x.items()}
    return tuple(term(y) for y in x) if isinstance(x, (list, tuple)) else x


NONE = {"form": "none", "req": (), "kv": set()}


def dep(form, req=(), **kv):
    return {"form": form, "req": tuple(req), "kv": {(k.replace("_", "-"), v) for k, v in kv.items()}}


def base_consts(**kw):
    c = {"Mans": set(), "MaxDepth": 1, "Holes": {0}, "InkDeps": set(), "CodecDeps": set(), "E2eDeps": set(), "Lists": set(), "OtherDeps": set(), "Shells": set(), "MaxEdits": 0}
    c.update(kw)
    return {k: ([term(x) for x in v] if isinstance(v, (list, set)) else v) for k, v in c.items()}


# ------------------------------------------------------------------ writing
REST = {"4": ["", ".3", ".3.0", ".0.0-rc", ".2.1"], "5": ["", ".0", ".0.0", ".0.0-rc.1", ".1", ".0.0-alpha"], "3": ["", ".4"], "50": ["", ".0"], "15": ["", ".5.5"], "0": [".5", ".5.0"], "*": [""], "6": ["", ".0.0"]}


def req_text(req, h):
    if list(map(list, req)) == [["=5.0.0", "5"]]:
        return "5.0.0"
    out = []
    for i, (op, maj) in enumerate(req):
        rest = REST[maj][(h >> (3 * i)) % len(REST[maj])]
        sp = ["", "", " "][(h >> (5 + i)) % 3] if op else ""
        out.append(f"{op}{sp}{maj}{rest}")
    s = [",", ", ", " , "][h % 3].join(out)
    return s if h % 11 else " " + s


VAL = {"default-features": {"false": "false", "true": "true"}, "workspace": {"true": "true"}, "optional": {"true": "true"}}


def val(k, v):
    if v in ("true", "false"):
        return v
    if k == "features":
        return "[" + ", ".join(f'"{x}"' for x in v.split("+")) + "]"
    return f'"{v}"'


def dep_lines(name, d, h):
    """The dependency as lines of its section and as a table of its own."""
    if d["form"] == "none":
        return [], []
    if d["form"] == "odd":
        return [f"{name} = 4"], []
    kv = [[k, val(k, v)] for k, v in sorted(map(tuple, d["kv"]))]
    if d["req"]:
        kv.insert(h % (len(kv) + 1), ["version", f'"{req_text(d["req"], h)}"'])
    if d["form"] == "string":
        return [f"{name} = {kv[0][1]}"], []
    if d["form"] == "inline":
        return [f"{name} = {{ " + ", ".join(f"{k} = {v}" for k, v in kv) + " }"], []
    if d["form"] == "dotted":
        return [f"{name}.{k} = {v}" for k, v in kv], []
    return [], [f"[SECTION.{name}]"] + [f"{k} = {v}" for k, v in kv]


def chain_man(m, h, section="dependencies"):
    if m["k"] == "broken":
        return ["[package\nname = 1", "[dependencies]\nink = = 4\n", "[dependencies]\nink = \"5\"\nink = \"5\"\n"][h % 3]
    out = []
    a, b = dep_lines("ink", m["ink"], h)
    wa, wb = dep_lines("ink", m["ws"], h >> 4)
    if m["ink"]["form"] != "none" or h % 2:
        out += ["[package]", 'name = "c"', 'version = "0.1.0"', "", "[dependencies]", 'other = "5.0"'] + a + [""]
        if h % 5 == 0:
            out += ["[dev-dependencies]", 'ink_e2e = "5.0.0"', 'ink = "5"' if m["ink"]["form"] == "none" else "", ""]
    out += [x.replace("SECTION", "dependencies") for x in b] + [""]
    if m["ws"]["form"] != "none" or h % 7 == 0:
        out += ["[workspace]", 'members = ["*"]', "", "[workspace.dependencies]", 'scale = "5"'] + wa + [""] + [x.replace("SECTION", "workspace.dependencies") for x in wb] + [""]
    return "\n".join(out)


# ------------------------------------------------------------------ P05
def versions(chk, lines, label, lib):
    base = os.path.join(chk.dir, "m-" + label.replace(" ", "-"))
    docs = []
    for n, x in enumerate(lines):
        hh = zlib.crc32(json.dumps([x["chain"], chk.seed], sort_keys=True).encode())
        depth = len(x["chain"])
        # the directory of the document is the innermost one
        parts = [f"d{i}" for i in range(depth)]
        root = os.path.join(base, str(n))
        dirs = [os.path.join(root, *parts[:depth - i]) for i in range(depth)]
        os.makedirs(dirs[0])
        texts = []
        for d, m in zip(dirs, x["chain"]):
            if m["k"] != "absent":
                t = chain_man(m, hh)
                texts.append(t)
                open(os.path.join(d, "Cargo.toml"), "w").write(t)
        docs.append((f"{label} {json.dumps(x['chain'], sort_keys=True)}", "file://" + quote(os.path.join(dirs[0], ["lib.rs", "my mod.rs", "main.rs"][hh % 3])), x["v"], texts, hh))
    per = 40
    jobs = []
    for i in range(0, len(docs), per):
        msgs = [{"method": "textDocument/didOpen", "params": {"textDocument": {"uri": d[1], "languageId": "rust", "version": 1, "text": PROBE}}} for d in docs[i:i + per]]
        jobs.append({"op": "session", "handshake": False, "caps": {}, "limit": 60, "msgs": msgs + [EXIT]})
    for i, o in zip(range(0, len(docs), per), vh(jobs)):
        got = {}
        for step in o.get("steps", []):
            for m in step:
                if m.get("method") == "textDocument/publishDiagnostics":
                    got[m["params"]["uri"]] = sorted(d["message"] for d in m["params"]["diagnostics"])
        for key, uri, v, texts, hh in docs[i:i + per]:
            g = got.get(uri)
            seen = "nothing" if g is None else "4" if g == lib["4"] else "5" if g == lib["5"] else "something else"
            if seen == str(v):
                chk.ok(key, label)
            else:
                chk.violation(key, f"a document is analysed as ink! {seen} instead of {v}; manifests from its directory upwards: {texts!r}",
                              {"manifests": texts, "uri": uri, "want": v, "got": g})
    chk.traces += len(docs)


def p05_manifests(chk):
    rng, big = chk.rng, chk.thorough
    r = vh([{"op": "diags", "src": PROBE, "v": v} for v in ("4", "5")])
    lib = {v: sorted(d[0] for d in x["d"]) for v, x in zip("45", r)}
    if lib["4"] == lib["5"]:
        raise ToolError("the probe cannot tell the versions apart")
    ops, majors = ["", "^", "~", "=", ">=", ">", "<=", "<"], ["4", "5", "3", "50", "15", "0", "6"]
    one = [((o, m),) for o in ops for m in majors] + [(("", "*"),)]
    two = [a + b for a in one[:-1] for b in one[:-1]]
    reqs = one + (two if big else rng.sample(two, 120))
    ok = lambda ink, ws=NONE: {"k": "ok", "ink": ink, "ws": ws}
    go = lambda label, **kw: (lambda res: (chk.add_tlc(res), versions(chk, uniq(res.lines), label, lib)))(
        mc("Manifest", base_consts(**kw), ["Closest"], spec="SpecChain", emit="EmitChain"))
    # Requirements, in every form.
    mans = [ok(dep("string", q)) for q in reqs]
    mans += [ok(dep(f, q, default_features="false")) for q in reqs[:60:3] + reqs[60::17] for f in ("inline", "table", "dotted")]
    # Sources, with and without a requirement.
    for f in ("inline", "table", "dotted"):
        for s in ({}, {"path": "../ink"}, {"git": "https://github.com/paritytech/ink"}, {"path": "../ink5", "git": "https://x/5"}, {"workspace": "true"},
                  {"workspace": "true", "features": "std+call-runtime"}, {"default_features": "true"}):
            for q in ((), (("", "4"),), (("^", "5"),)):
                if "workspace" not in s or not q:
                    if q or s:
                        mans.append(ok(dep(f, q, **s)))
    go("requirement", Mans=mans)
    # Inherited from a workspace, nearest manifest, holes.
    ink = [NONE, dep("odd"), dep("string", (("", "4"),)), dep("inline", (("", "5"),), default_features="false"), dep("inline", path="../ink"),
           dep("inline", workspace="true"), dep("dotted", workspace="true", features="std"), dep("table", workspace="true")]
    ws = [NONE, dep("string", (("", "4"),)), dep("string", (("", "5"),)), dep("inline", git="https://x/y"), dep("odd"), dep("table", (("~", "5"),), features="std")]
    ms = [ok(i, w) for i in ink for w in ws] + [{"k": "absent"}, {"k": "broken"}]
    if not big:
        go("workspace", Mans=rng.sample(ms, 18) + [{"k": "absent"}], MaxDepth=2, MaxEdits=1)
        few = [ok(ink[5]), ok(NONE, ws[2]), ok(NONE, ws[1]), ok(ink[3]), {"k": "absent"}]
        go("directories", Mans=few, MaxDepth=3, MaxEdits=2)
        go("far directories", Mans=[ok(ink[5]), ok(NONE, ws[2]), ok(ink[3]), {"k": "absent"}], MaxDepth=11, MaxEdits=2, Holes={0, 3, 7, 8, 9})
    else:
        go("workspace", Mans=ms, MaxDepth=2, MaxEdits=1)
        go("directories", Mans=rng.sample(ms, 9) + [{"k": "absent"}], MaxDepth=3, MaxEdits=2)
        go("far directories", Mans=[ok(ink[5]), ok(NONE, ws[2]), ok(ink[3]), {"k": "absent"}], MaxDepth=11, MaxEdits=2, Holes={0, 2, 4, 6, 8, 9})


# ------------------------------------------------------------------ P15, P16
OTHER = {"serde": 'serde = { version = "1.0.0", default-features = false, features = ["derive"] } # keep', "parity-scale-codec": 'parity-scale-codec = "3"',
         "ink_prelude": 'ink_prelude = "4"', "scale-decode": 'scale-decode = "0.9"', "my-event": 'my-event = "1"', "target-scale": None}


def doc_text(d, h):
    deps, tabs = ["[dependencies]"], []
    ents = [("ink", d["ink"]), ("scale", d["scale"]), ("scale-info", d["info"])]
    if h % 2:
        ents.reverse()
    for n, x in ents:
        a, b = dep_lines(n, x, h)
        deps += a
        if b:
            tabs += [""] + [y.replace("SECTION", "dependencies") for y in b]
    for o in sorted(d["other"]):
        if OTHER[o]:
            deps.insert(1 + h % len(deps), OTHER[o])
    if d["shell"] == "absent":
        deps, tabs = [], []
    elif d["shell"] == "broken":
        deps += ["x = = 1"]
    elif len(deps) == 1 and h % 3:
        deps = []  # the section exists only through its tables
        if not tabs:
            deps = ["[dependencies]"]
    out = ["# My contract", "[package]", 'name = "my_contract"', 'version = "0.1.0"', 'edition = "2021" # edition', 'authors = ["[your_name] <[your_email]>"]', ""] + deps + tabs + [""]
    a, b = dep_lines("ink_e2e", d["e2e"], h >> 2)
    if a or b or h % 3 == 0:
        out += ["[dev-dependencies]"] + a + ['regex = "1" # regex', ""] + [y.replace("SECTION", "dev-dependencies") for y in b] + [""]
    out += ["[lib]", 'path = "lib.rs"', ""]
    ml = ["", "\n    "][h >> 3 & 1]
    arr = lambda l: "[" + ml + (", " + ml).join(f'"{x}"' for x in l) + ("," if ml and l else "") + ml.rstrip(" ") + "]"
    out += ["[features]", 'default = ["std"]', f"std = {arr(d['std'])}"]
    out += [f"ink-as-dependency = {arr(d['more'])}"]
    out += ["e2e-tests = [] # e2e"]
    if "target-scale" in d["other"]:
        out += ["", "[target.'cfg(windows)'.dependencies]", 'scale = "1"', "", "[workspace]", "", "# last", "[workspace.dependencies]", 'ink = "4"', 'scale-info = "2"']
    text = "\n".join(out) + ("\n" if h % 4 else "")
    return text.replace("\n", "\r\n") if h % 13 == 0 else text


def want_doc(d, h):
    """The migrated manifest as values."""
    return tomllib.loads(doc_text(d, h).replace("\r\n", "\n"))


def comments(text):
    return [l.split("#", 1)[1].strip() for l in text.splitlines() if "#" in l]


def edit_docs(chk, lines, label, cmd):
    """Runs a command in projects with the given manifests and compares the new manifests."""
    base = os.path.join(chk.dir, "e-" + cmd + "-" + label.replace(" ", "-"))
    src = "#[ink::contract]\nmod c {\n    #[ink(event)]\n    pub struct MyEvent {}\n}\n"
    docs = []
    for n, x in enumerate(lines):
        hh = zlib.crc32(json.dumps([x["doc"], chk.seed], sort_keys=True).encode())
        d = os.path.join(base, str(n))
        os.makedirs(d)
        t = doc_text(x["doc"], hh)
        open(os.path.join(d, "Cargo.toml"), "w", newline="").write(t)
        docs.append((x, hh, d, t))
    jobs = []
    per = 30
    enc = [{}, {"general": {"positionEncodings": ["utf-8"]}}]
    for i in range(0, len(docs), per):
        msgs = []
        for n, (x, hh, d, t) in enumerate(docs[i:i + per]):
            uri = "file://" + quote(d + "/lib.rs")
            arg = {"uri": uri}
            if cmd == "extractEvent":
                arg["range"] = {"start": src.index("pub struct"), "end": src.index("pub struct")}
            msgs += [{"method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "rust", "version": 1, "text": src}}},
                     {"id": 1000 + n, "method": "workspace/executeCommand", "params": {"command": cmd, "arguments": [arg]}}]
        jobs.append({"op": "session", "handshake": False, "caps": enc[i % 2], "limit": 60, "msgs": msgs + [EXIT]})
    for i, o in zip(range(0, len(docs), per), vh(jobs)):
        got = {}
        for n, step in enumerate(o.get("steps", [])):
            if n % 2:
                got[n // 2] = step
        for n, (x, hh, d, t) in enumerate(docs[i:i + per]):
            w = x["mig" if cmd == "migrateProject" else "add"]
            key = f"{cmd} {label} {json.dumps(x['doc'], sort_keys=True)}"
            bad = None
            step = [m for m in got.get(n, []) if "method" not in m or m["method"] == "workspace/applyEdit"]
            err = any(m.get("error") for m in step)
            changes = {}
            for m in step:
                changes = (m.get("params") or {}).get("edit", {}).get("changes") or ((m.get("result") or {}) if isinstance(m.get("result"), dict) else {}).get("edits") or changes
            if w.get("k") == "absent":
                if not err or changes:
                    bad = f"no error for a manifest that cannot be changed: {step!r}"[:500]
            elif err or not changes:
                bad = f"no edit of the manifest: {step!r}"[:500]
            else:
                e = changes.get("file://" + quote(d + "/Cargo.toml"), [])
                if len(e) != 1:
                    bad = f"{len(e)} edits of the manifest"
                else:
                    new = e[0]["newText"]
                    last = t.replace("\r\n", "\n").split("\n")
                    if e[0]["range"] != {"start": {"line": 0, "character": 0}, "end": {"line": len(last) - 1, "character": len(last[-1])}}:
                        bad = f"the edit doesn't replace the whole manifest: {e[0]['range']}"
                    else:
                        try:
                            v = tomllib.loads(new)
                        except Exception as ex:
                            v, bad = None, f"the new manifest is not valid TOML: {ex}: {new}"
                        if not bad:
                            want = want_doc(w, hh) if cmd == "migrateProject" else tomllib.loads(t)
                            if cmd != "migrateProject":
                                want.setdefault("dependencies", {})["my-event"] = {"path": "my-event", "default-features": False}
                            if cmd == "migrateProject" and "dependencies" in v and v["dependencies"].get("ink", {}).get("version") == "5.0.0" and w["ink"]["req"]:
                                want["dependencies"]["ink"]["version"] = "5.0.0"
                            drop = lambda y: {k: {a: b for a, b in z.items()} for k, z in y.items() if z != {} or k not in ("dev-dependencies", "dependencies", "features")}
                            if drop(v) != drop(want):
                                bad = f"the new manifest differs: expected {want}, got {v}"
                            lost = [c for c in comments(t) if c not in comments(new)]
                            if not bad and lost:
                                bad = f"comments lost: {lost}"
            if bad:
                chk.violation(key, f"{bad}; manifest: {t!r}", {"manifest": t, "got": step})
            else:
                chk.ok(key, f"{cmd} {label}")
    chk.traces += len(docs)


def doc_universe(chk):
    rng, big = chk.rng, chk.thorough
    q4 = (("", "4"),)
    ink = [NONE, dep("string", q4), dep("odd"), dep("string", (("=", "4"),))]
    for f in ("inline", "table", "dotted"):
        for kv in ({}, {"default_features": "false"}, {"default_features": "true"}, {"features": "call-runtime"}, {"default_features": "false", "features": "unstable+std", "optional": "true"},
                   {"package": "ink"}, {"path": "../ink"}, {"git": "https://g/i", "tag": "v4.3.0"}):
            ink.append(dep(f, q4, **kv))
            if "path" in kv or "git" in kv:
                ink.append(dep(f, (), **kv))
        ink += [dep(f, (), workspace="true"), dep(f, (), workspace="true", features="std"), dep(f, (), workspace="true", default_features="false")]
    codec = [dep("string", (("", "3"),)), dep("inline", (("", "3"),), package="parity-scale-codec", default_features="false", features="derive"),
             dep("table", (("", "3"),), package="parity-scale-codec"), dep("dotted", (), workspace="true"), dep("inline", (), workspace="true")]
    e2e = [dep("string", q4), dep("inline", q4), dep("inline", q4, default_features="false", features="drink"), dep("table", q4, features="drink"), dep("table", q4),
           dep("dotted", (), workspace="true"), dep("inline", (), workspace="true", features="drink"), dep("dotted", q4, optional="true")]
    fs = ["ink/std", "scale/std", "scale-info/std", "my/std", "scale-decode/std"]
    lists = [()] + [p for n in (1, 2, 3) for p in itertools.permutations(fs, n)] + [tuple(fs)]
    return dict(InkDeps=ink, CodecDeps=codec, E2eDeps=e2e, Lists=lists if big else rng.sample(lists, 25), OtherDeps=set(OTHER), Shells=["absent", "broken"])


def p15_manifests(chk):
    u = doc_universe(chk)
    for n, sim in ((2, None), (6, 25 if not chk.thorough else 150)):
        kw = dict(simulate=sim, depth=n + 1, seed=chk.seed) if sim else {}
        r = mc("Manifest", base_consts(MaxEdits=n, **u), ["Same", "KeepsOther"], spec="SpecDoc", emit="EmitDoc", **kw)
        chk.add_tlc(r)
        l = uniq(r.lines)
        cap = 1200 if not chk.thorough else 12000
        if len(l) > cap:
            l = chk.rng.sample(l, cap)
        edit_docs(chk, l, f"manifest {n}", "migrateProject")


def p16_manifests(chk):
    u = doc_universe(chk)
    u.update(Lists=[("ink/std", "my/std")])
    r = mc("Manifest", base_consts(MaxEdits=3, **u), [], spec="SpecDoc", emit="EmitDoc")
    chk.add_tlc(r)
    l = uniq(r.lines)
    cap = 500 if not chk.thorough else 6000
    edit_docs(chk, chk.rng.sample(l, min(len(l), cap)), "manifest", "extractEvent")
