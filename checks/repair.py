"""P13: quickfixes."""
import collections, importlib, json, multiprocessing, os, random, re
from vlib import core
from vlib.core import *
from checks.rules import uniq

SOURCES = [("rules", "p07"), ("attrs", "p08"), ("rules", "p09"), ("rules", "p10"), ("rules", "p11"), ("place", "p12")]
# Programs for the findings that are listed.
EXTRA = [("known", '#[ink::contract] mod c { #[ink(storage)] pub struct S {} impl S { #[ink(constructor)] pub fn new() -> Self { S {} } #[ink(message)] pub fn m(self) {} } }', 4),
         ("known", '#[ink::event(signature_topic)] pub struct E {}', 5)]
LEX = re.compile(r"""(?P<skip>\s+|//[^\n]*|/\*.*?\*/)|(?P<tok>[bc]?r(?P<h>\#*)"(?:(?!"(?P=h)).)*"(?P=h)|[bc]?"(?:[^"\\]|\\.)*"|b?'(?:[^'\\]|\\.)'|'\w+|r\#\w+|\w+|.)""", re.S)


def collect(arg):
    """The programs that the specification of another property enumerates."""
    mod, fn, tier, seed = arg
    out = []
    m = importlib.import_module("checks." + mod)

    def grab(chk, cases, label, only=None):
        out.extend((label, c[1], c[2]) for c in cases)
    m.run_cases = grab
    rules = importlib.import_module("checks.rules")
    rules.tlc = lambda *a, **kw: core.tlc(*a, **dict({"heap": "3g", "workers": 3}, **kw))
    chk = core.Check(fn.upper(), tier, "model_checking")
    chk.log = lambda *a: None
    chk.dir = scratch("repair-" + fn)
    getattr(m, fn)(chk)
    return out, chk.states, chk.transitions


def lex(text):
    """(token, start, end) with byte offsets."""
    out, pos, at = [], 0, 0
    for m in LEX.finditer(text):
        n = len(m.group().encode())
        if m.lastgroup == "tok":
            out.append((m.group(), at, at + n))
        at += n
    return out


words = lambda text: [t for t, _, _ in lex(text)]


def names(toks):
    """Names of the arguments in a deleted argument, argument list or attribute."""
    if toks[:1] == ["#"] and "(" in toks:
        toks = toks[toks.index("("):-1]
    if toks[:1] == ["("]:
        toks = toks[1:-1]
    out, depth, fresh = [], 0, True
    for t in toks:
        if t in "([{":
            depth += 1
        elif t in ")]}":
            depth -= 1
        elif t == "," and depth == 0:
            fresh = True
            continue
        if fresh and depth == 0:
            out.append(t)
            fresh = False
    return out


# What a title announces: class, and the tokens it names.
TITLES = [
    (r"Remove `(#.*)` attribute\.", "attribute"), (r"Remove ink! `(\w+)` attribute argument\.", "argument"), (r"Remove unknown ink! attribute argument: `(\w+)`\.", "argument"),
    (r"Remove `(\w+)` argument\.", "argument"), (r"Remove ink! (namespace) argument\.", "argument"), (r"Remove `(\w+)` argument value", "value"), (r"Remove `(\w+)` keyword\.", "keyword"),
    (r"Remove visibility.*", "no visibility"), (r"Change visibility to `(pub)`\.", "visibility"), (r"Remove explicit ABI\.", "abi"), (r"Remove generic (?:types|parameters)\.", "generics"),
    (r"Remove function body\.", "body"), (r"Remove type bounds\.", "bounds"), (r"Remove self receiver\.", "receiver"), (r"Remove `Self` return type\.", "result"),
    (r"Make function un-variadic\.", "variadic"), (r"Remove item\.|Remove `\w+` item\.|Remove macro call\.|Remove associated type\.|Remove duplicate `\w+` type .*", "item"),
    (r"Make `.*` the first .*", "reorder"), (r"Move item to .*", "move"), (r"Rename .* to `(\w+)`\.?", "rename"), (r"Replace with a unique .*", "unique"),
    (r"Add ink! \w+ attribute\.", "annotate"), (r"Add inline body .*", "inline"),
    (r"Add ink! .*|Add return type\.|Add missing .*|Add wildcard complement selector\.|Add `.*` (?:default )?type.*|Add `.*` implementation .*|Add (?:im)?mutable .*", "add"),
    (r"Replace `.*` argument value with `(.*)`\.", "replace"), (r"Replace `.*` associated type with `(.*)`\.", "replace"), (r"Replace `.*` with `(.*)`", "replace"), (r"Replace deprecated .* with `(.*)`\.", "replace"),
]


def title(label):
    for rx, cls in TITLES:
        m = re.fullmatch(rx, label, re.S)
        if m:
            return cls, words(m.group(1)) if m.groups() and m.group(1) else []
    return "other", []


def record(src, r):
    """The line of a text in the log, and what is needed to report on it."""
    toks = lex(src)
    before = collections.Counter(d["msg"] for d in r["diags"])
    twins = any(d["msg"].startswith("Duplicate ink! attribute") for d in r["diags"])
    fixes = []
    for x in r["res"]:
        d = r["diags"][x["d"]]
        f = d["fixes"][x["f"]]
        cls, named = title(f["label"])
        dels = [e["r"] for e in f["edits"] if e["r"][0] < e["r"][1]]
        gone = [t for t, a, b in toks if any(p < b and a < q for p, q in dels)]
        cut = any(p < b and a < q and not (p <= a and b <= q) for t, a, b in toks for p, q in dels)
        new = [t for e in sorted(f["edits"], key=lambda e: e["r"]) for t in words(e["t"])]
        after = collections.Counter(a[0] for a in x["after"])[d["msg"]] if "after" in x else 0
        fixes.append({"bad": "bad" in x or cut, "errs": x.get("errs", 0), "before": before[d["msg"]], "after": after, "twin": twins and not d["msg"].startswith("Duplicate") or named == words("#[ink()]"),
                      "cls": cls, "named": named, "names": names([t for i, t in enumerate(gone) if not (t == "," and i in (0, len(gone) - 1))]), "del": gone, "ins": new, "to": 0})
    return {"start": True, "errs": r["errs"], "fixes": fixes}


def known(msg, label, src, d, broken):
    if "self reference receiver" in label and re.search(r"\(\s*(mut\s+)?self\b", src):
        return "receiver"
    if label == "Add `signature_topic` argument value" and broken <= {"diagnostic remains"}:
        return "signature_topic"
    return None


def judge(chk, name, nodes, ends):
    """nodes: [(source, version, result of the fixes operation, {fix index: node index})]; validates them with TLC."""
    path = os.path.join(scratch("repair-log"), f"{name}.ndjson".replace(" ", "-"))
    lines = []
    targets = {j for n in nodes for j in n[3].values()}
    for i, (src, v, r, to) in enumerate(nodes):
        line = record(src, r)
        line["start"] = i not in targets
        for f, j in to.items():
            line["fixes"][f]["to"] = j + 1
        lines.append(line)
    with open(path, "w") as fh:
        for x in lines:
            fh.write(json.dumps(x) + "\n")
    cfg = "SPECIFICATION RSpec\nINVARIANT REmit\n" + ("PROPERTY Ends\n" if ends else "") + "CHECK_DEADLOCK FALSE\n"
    r = tlc("Repair", cfg_text=cfg, env_vars={"TRACE": path}, allow_fail=True)
    chk.add_tlc(r)
    chk.traces += len(nodes)
    bad = 0
    for x in uniq(r.lines):
        src, v, res, _ = nodes[x["n"] - 1]
        e = res["res"][x["f"] - 1]
        d = res["diags"][e["d"]]
        f = d["fixes"][e["f"]]
        k = known(d["msg"], f["label"], src, d, set(x["broken"]))
        bad += not k
        what = f"quickfix {f['label']!r} of {d['msg']!r} (ink! {v}): {', '.join(x['broken'])}\n  edits {[(q['r'], q['t']) for q in f['edits']]}\n--- source\n{src}"
        chk.violation(k or f"fix {h([src, f['label'], d['msg']])}", what[:2500], {"job": {"op": "fixes", "src": src, "v": str(v)}, "result": e, "rule": x})
    if r.rc not in ((0, 13) if ends else (0,)):
        raise ToolError(f"TLC failed on Repair (rc {r.rc}): {r.out[-2000:]}")
    if r.rc == 13:
        bad += 1
        chk.violation(f"sessions {name}", f"a session of quickfixes never ends ({name}):\n" + loop(r.out, nodes)[:2000], {"tlc": r.out[-4000:]})
    for n in nodes:
        for f in n[2]["res"]:
            d = n[2]["diags"][f["d"]]
            chk.ok(h([n[0], f["d"], f["f"]]), title(d["fixes"][f["f"]]["label"])[0])
    chk.log(f"{name}: {len(nodes)} texts, {sum(len(n[2]['res']) for n in nodes)} quickfixes, {bad} wrong")


def loop(out, nodes):
    """The sources along the counterexample of TLC."""
    seen = []
    for n in re.findall(r"node = (\d+)", out):
        if int(n) not in seen:
            seen.append(int(n))
    return "\n--- then\n".join(nodes[n - 1][0] for n in seen)


def ask(chk, progs):
    jobs = [{"op": "fixes", "src": s, "v": str(v)} for s, v in progs]
    out = []
    for j, r in zip(jobs, vh(jobs)):
        if "res" not in r:
            chk.violation("fail " + h(j["src"]), f"analysis failed: {r}\n--- source\n{j['src']}"[:2000], {"job": j, "result": r})
            r = {"diags": [], "errs": 0, "res": []}
        out.append(r)
    return out


def p13(chk):
    T = chk.thorough
    with multiprocessing.get_context("fork").Pool(len(SOURCES)) as pool:
        got = pool.map(collect, [(m, f, "quick", chk.seed) for m, f in SOURCES], chunksize=1)
    progs, seen = [], set()
    for out, st, tr in got:
        chk.states += st
        chk.transitions += tr
        byl = collections.defaultdict(list)
        for label, src, v in out:
            if (src, v) not in seen:
                seen.add((src, v))
                byl[label].append((src, v))
        for label in sorted(byl):
            progs.append((label, byl[label]))
    chk.log(f"{len(seen)} programs enumerated by the specifications of P07-P12")
    lim = 3000 if T else 420
    pick = [(s, v) for _, s, v in EXTRA]
    for label, ps in progs:
        pick += chk.rng.sample(ps, min(lim, len(ps)))
    # every quickfix of every diagnostic
    res = ask(chk, pick)
    pick, res = zip(*[(p, r) for p, r in zip(pick, res) if r["res"]])
    judge(chk, "single", [(s, v, r, {}) for (s, v), r in zip(pick, res)], False)
    # all sessions, up to a bound on the number of texts per program
    small = [i for i, r in enumerate(res) if 1 <= len(r["res"]) <= 12 and not any(re.search("signature_topic|self reference receiver|conflicts with", d["msg"]) for d in r["diags"])]
    small = chk.rng.sample(small, min(len(small), 4000 if T else 900))
    graph(chk, [(pick[i], res[i]) for i in small], 60 if T else 25)
    # long random sessions
    walk = chk.rng.sample(range(len(pick)), min(len(pick), 20000 if T else 4000))
    jobs = [{"op": "converge", "src": pick[i][0], "v": str(pick[i][1]), "seed": chk.rng.randrange(1 << 30), "max": 80} for i in walk]
    bad = 0
    for i, j, r in zip(walk, jobs, vh(jobs)):
        chk.ok("walk " + h(j), "session")
        if not r.get("done"):
            k = "signature_topic" if r.get("trace") and all("signature_topic" in str(t) for t in r["trace"][-10:]) else None
            bad += not k
            chk.violation(k or "walk " + h(j["src"]), f"80 quickfixes applied one after another still leave one: {r.get('trace', r)}"[:1500] + "\n--- source\n" + j["src"][:1500], {"job": j, "result": r})
    chk.traces += len(jobs)
    chk.log(f"random sessions: {len(jobs)}, {bad} without end")
    return "one evaluation = one quickfix applied, re-analysed and judged by the specification, or one session; distinct by program and quickfix"


def graph(chk, starts, bound):
    nodes, index, todo = [], {}, []
    size = {}
    for (s, v), r in starts:
        if (s, v) not in index:
            index[(s, v)] = len(nodes)
            nodes.append([s, v, r, {}])
            todo.append((len(nodes) - 1, len(nodes) - 1))
    cut = 0
    while todo:
        fresh = []
        for n, root in todo:
            s, v, r, to = nodes[n]
            for k, x in enumerate(r["res"]):
                if "text" not in x or "bad" in x:
                    continue
                key = (x["text"], v)
                if key not in index:
                    if size.get(root, 0) >= bound:
                        cut += 1
                        continue
                    size[root] = size.get(root, 0) + 1
                    index[key] = len(nodes)
                    nodes.append([x["text"], v, None, {}])
                    fresh.append((len(nodes) - 1, root))
                to[k] = index[key]
        for (n, _), r in zip(fresh, ask(chk, [(nodes[n][0], nodes[n][1]) for n, _ in fresh])):
            nodes[n][2] = r
        todo = fresh
    chk.notes.append(f"sessions: {len(starts)} programs, {len(nodes)} texts, {cut} steps beyond the bound of {bound} texts per program not followed")
    judge(chk, "sessions", [tuple(n) for n in nodes], True)
