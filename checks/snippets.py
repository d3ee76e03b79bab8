"""P18: new projects, and files built from the ink! entities which are offered."""
import collections, itertools, json, re
from vlib.core import *
from vlib.rules import *
from checks.rules import mc, uniq

# ------------------------------------------------------------- reading a file

OPEN = {"(": ")", "[": "]", "{": "}"}


class Node:
    __slots__ = ("head", "start", "decl", "body", "kids")


def skip(t, i):
    """The end of the comment, string or bracketed group at i, or None."""
    if t.startswith("//", i):
        j = t.find("\n", i)
        return len(t) if j < 0 else j
    if t.startswith("/*", i):
        return t.index("*/", i) + 2
    if t[i] == '"':
        j = i + 1
        while t[j] != '"':
            j += 2 if t[j] == "\\" else 1
        return j + 1
    if t[i] in OPEN:
        c, j = OPEN[t[i]], i + 1
        while t[j] != c:
            k = skip(t, j)
            j = k if k else j + 1
        return j + 1
    return None


def read(t, i, end, field=False):
    """Items (or fields) in t[i:end] with their attributes."""
    out = []
    while True:
        while i < end and (t[i].isspace() or t[i] == ","):
            i += 1
        if i >= end:
            return out
        if t.startswith("#![", i):
            i = skip(t, i + 2)
            continue
        n = Node()
        n.start, n.body, n.kids, n.decl = i, None, [], None
        while i < end:
            if t[i] == ";" or (field and t[i] == ","):
                i += 1
                break
            if n.decl is None and not t[i].isspace() and t[i] not in "#[/":
                n.decl = i
            if t.startswith("//", i) or t.startswith("/*", i) or (n.decl is None and t[i] == "["):
                i = skip(t, i)
                continue
            if t[i] == "{":
                j = skip(t, i)
                n.body = (i + 1, j - 1)
                n.head = t[n.start:i]
                i = j
                d = decl(t[n.decl:n.body[0]])
                if re.match(r"(pub )?(mod|impl|trait)\b", d):
                    n.kids = read(t, *n.body)
                elif re.match(r"(pub )?struct\b", d):
                    n.kids = read(t, *n.body, field=True)
                break
            j = skip(t, i) if t[i] in '("[' else None
            i = j or i + 1
        if n.body is None:
            n.head = t[n.start:i]
        if n.decl is None:
            n.decl = n.start
        out.append(n)


def decl(s):
    return re.sub(r"\s+", " ", s.strip())


def attrs(n):
    return re.sub(r"\s+", "", n.head[:n.decl - n.start])


def name(n):
    m = re.search(r"\b(?:mod|struct|enum|union|trait|type|fn|const)\s+([\w\u093e]+)|^(?:pub\s+)?(\w+)\s*:|ink::combine_extensions!", n.head[n.decl - n.start:])
    return (m.group(1) or m.group(2)) if m and m.lastindex else ""


OWN = {"my_thing", "Td", "Ce", "Ev"}


def kind(n, where):
    a, d = attrs(n), decl(n.head[n.decl - n.start:])
    d = re.sub(r"^pub ", "", d)
    for s, k in (("#[ink::contract", "contract"), ("#[ink::trait_definition", "traitdef"), ("#[ink::chain_extension", "chainext"), ("#[ink::storage_item", "item"), ("#[ink::event", "event2"),
                 ("#[ink(event", "event"), ("#[ink(storage", "storage"), ("#[ink(constructor", "constructor"), ("#[ink(extension=", "extension"), ("#[ink(function=", "extension"),
                 ("#[ink::test", "test"), ("#[ink_e2e::test", "e2etest"), ("#[ink(topic", "topic")):
        if s in a:
            return k
    if "#[ink(message" in a:
        return "wildcard" if "selector=_" in a else "complement" if "selector=@" in a else "message"
    if "#[cfg(test)]" in a and d.startswith("mod"):
        return "test mod"
    if "#[cfg(all(test" in a and d.startswith("mod"):
        return "e2e mod"
    if d.startswith("ink::combine_extensions!"):
        return "combine"
    if d.startswith("type ErrorCode"):
        return "errorcode"
    if d.startswith("impl"):
        return "timpl" if " for " in d else "impl"
    if d.startswith("enum MyEnvironment") and where == "root":
        return "env"
    m = re.match(r"(mod|struct|enum|union|trait|type|fn|const|use|async fn)\b", d)
    return m.group(1).replace("async ", "") if m else "field"


def ext_id(n):
    m = re.search(r"(?:extension|function)=(\w+)", attrs(n))
    return int(m.group(1), 0) if m else 0


def scopes(t):
    """Scope -> list of (kind, name, id); and scope -> nodes which are that scope."""
    root = read(t, 0, len(t))
    file, at = {"root": []}, {}

    def members(nodes, where, skipped=()):
        return [(k, name(n), ext_id(n) if k == "extension" else 0) for n in nodes for k in [kind(n, where)] if k not in skipped and not (k in OUTER and name(n) in OWN)]
    OUTER = {"contract", "traitdef", "chainext", "event", "event2"}
    file["root"] = [m for m in members(root, "root", {"impl", "timpl", "use", "test mod", "e2e mod"}) if m[1] != "CustomErrorCode"]
    con = [n for n in root if kind(n, "root") == "contract"]
    # A file attribute is part of the first item, as read here.
    everything = root + [k for c in con for k in c.kids]
    if con:
        at["con"] = con[:1]
        file["con"] = members(con[0].kids, "con", {"impl", "timpl", "use", "test mod", "e2e mod"})
        impls = [n for n in con[0].kids if kind(n, "con") == "impl" and "Unrelated" not in n.head]
        if impls:
            at["fns"] = impls
            file["fns"] = [m for n in impls for m in members(n.kids, "fns")]
    for s, nm in (("tdef", "Td"), ("cext", "Ce"), ("ev", "Ev")):
        for n in everything:
            if name(n) == nm:
                at[s] = [n]
                file[s] = members(n.kids, s)
    for s, k in (("test", "test mod"), ("e2e", "e2e mod")):
        for n in everything:
            if kind(n, "") == k:
                at[s] = [n]
                file[s] = members(n.kids, s, {"use", "type"})
    return root, file, at


# ------------------------------------------------------------- writing a file

PLAIN = {"struct": ["pub struct %s;", "pub struct %s { a: u8 }", "struct %s(u8);"], "enum": ["pub enum %s { A, B }"], "trait": ["trait %s { fn q(); }"], "mod": ["mod %s { fn q() {} }"],
         "type": ["type %s = u8;"], "union": ["union %s { a: u8, b: i8 }"], "fn": ["fn %s() {}", "pub fn %s(a: u8) -> u8 { a }"], "field": ["%s: u8,", "pub %s: Vec<(u8, u8)>,"],
         "storage": ["#[ink(storage)] pub struct %s {}"], "event": ["#[ink(event)] pub struct %s { a: u8 }"], "event2": ["#[ink::event] pub struct %s { a: u8 }"],
         "constructor": ["#[ink(constructor)] pub fn %s() -> Self { todo!() }", "#[ink(constructor, payable)] pub fn %s(a: u8) -> Self { todo!() }"],
         "message": ["#[ink(message)] pub fn %s(&self) {}", "#[ink(message, payable)] pub fn %s(&mut self, a: u8) -> u8 { a }"],
         "wildcard": ["#[ink(message, selector = _)] pub fn %s(&self) {}"], "complement": ["#[ink(message, selector = @)] pub fn %s(&self) {}"],
         "test": ["#[ink::test] fn %s() {}"], "e2etest": None, "topic": ["#[ink(topic)] %s: u8,"], "errorcode": ["type %s = ();"]}


def member(m, s, v, key):
    k, n = m["k"], m["n"]
    if k == "extension":
        i = [str(m["id"]), hex(m["id"])][pick(key + n, 2)]
        return f"#[ink({'function' if v == 5 else 'extension'} = {i})] fn {n}();"
    if k == "message" and s == "tdef":
        return f"#[ink(message)] fn {n}(&self);"
    if k == "e2etest":
        c = "<Client: E2EBackend>(mut client: Client)" if v == 5 else "(mut client: ink_e2e::Client<C, E>)"
        return f"#[ink_e2e::test] async fn {n}{c} {{}}"
    f = PLAIN[k]
    return f[pick(key + n, len(f))] % n


def render(case, key):
    v, f = case["v"], case["log"][0]["before"] if case["log"] else case["file"]
    k = pick(key, 10 ** 6)
    ind = ["    ", "  ", "\t", "    "][k % 4]
    gap = ["\n", "\n\n"][k // 4 % 2]
    rt = []          # items at file level

    def block(head, parts, level, close="}"):
        pad = ind * (level + 1)
        if not parts:
            return head + [" {}", " {\n" + ind * level + "}"][k // 8 % 2]
        return head + " {\n" + gap.join(pad + p for p in parts) + "\n" + ind * level + "}"

    mem = lambda s, nodes=None: [member(m, s, v, key) for m in (f[s] if nodes is None else nodes)]
    items = {}
    if "con" in f:
        con = mem("con")
        storage = [m["n"] for m in f["con"] if m["k"] == "storage"]
        me = storage[0] if storage else "MyThing"
        if "fns" in f:
            fns = f["fns"]
            cut = len(fns) // 2 if k // 16 % 3 == 0 and len(fns) > 1 else len(fns)
            con.append(block(f"impl {me}", mem("fns", fns[:cut]), 1))
            if fns[cut:]:
                con.append(block(f"impl {me}", mem("fns", fns[cut:]), 1))
        if k // 48 % 3 == 0:
            con.append(block("impl Default for Other", ["fn default() -> Self { todo!() }"], 1))
        inner = con
    else:
        inner = rt
    lv = 1 if "con" in f else 0
    if "test" in f:
        inner.append(block("#[cfg(test)]\n" + ind * lv + "mod tests", ["use super::*;"] * (k // 144 % 2) + mem("test"), lv))
    if "e2e" in f:
        inner.append(block('#[cfg(all(test, feature = "e2e-tests"))]\n' + ind * lv + "mod e2e_tests", ["use super::*;"] * (k // 144 % 2) + mem("e2e"), lv))
    if "ev" in f:
        if v == 5 and k // 288 % 2:
            rt.append(block("#[ink::event]\npub struct Ev", mem("ev"), 0))
        else:
            inner.append(block("#[ink(event)]\n" + ind + "pub struct Ev", mem("ev"), 1))
    if "tdef" in f:
        rt.append(block("#[ink::trait_definition]\npub trait Td", mem("tdef"), 0))
    if "cext" in f:
        rt.append(block("#[ink::chain_extension" + ("(extension = 1)" if v == 5 else "") + "]\npub trait Ce", mem("cext"), 0))
    rt += mem("root")
    if "con" in f:
        rt.insert(k // 576 % (len(rt) + 1), block("#[ink::contract]\n" + ["", "pub "][k // 8 % 2] + "mod my_thing", con, 0))
    return (gap + "\n").join(rt) + ("\n" if rt else "")


# ----------------------------------------------------------------- asking

WORDS = {"storage": ["storage", "sto"], "event": ["event", "eve"], "event2": ["event", "eve"], "constructor": ["constructor", "new", "cons"], "message": ["message", "mess"],
         "errorcode": ["ErrorCode", "Err"], "extension": ["extension", "function", "func"], "test": ["test", "te"], "e2etest": ["test", "e2e"], "contract": ["contract", "contr"],
         "traitdef": ["definition", "trait_def"], "chainext": ["chain_extension", "chain"], "combine": ["combine", "combine_ext"], "item": ["storage_item"],
         "env": ["environment", "scale"], "topic": ["my", "a"]}
LABEL = [(r"^Add ink! storage `struct`", "storage"), (r"^Add ink! event `struct`", "event"), (r"^Add ink! event 2.0", "event2"), (r"^Add ink! topic", "topic"), (r"^Add ink! constructor `fn`", "constructor"),
         (r"^Add ink! message `fn`", "message"), (r"^Add `ErrorCode`", "errorcode"), (r"^Add ink! (extension|function)", "extension"), (r"^Add ink! test `fn`", "test"), (r"^Add ink! e2e test `fn`", "e2etest"),
         (r"^Add ink! contract `mod`", "contract"), (r"^Add ink! trait definition", "traitdef"), (r"^Add ink! chain extension `trait`", "chainext"), (r"^Add ink! combine", "combine"), (r"^Add ink! storage item", "item"),
         (r"^Add custom ink! environment", "env")]
DETAIL = {"ink! storage": "storage", "ink! event 2.0": "event2", "ink! event": "event", "ink! test": "test", "ink! e2e test": "e2etest", "ink! constructor": "constructor", "ink! message": "message",
          "`ErrorCode` type for ink! chain extension": "errorcode", "ink! extension `fn`": "extension", "ink! topic": "topic", "ink! contract": "contract", "ink! trait definition": "traitdef",
          "ink! chain extension": "chainext", "ink! combine extensions": "combine", "ink! storage item": "item", "ink! environment": "env"}


def ask(text, s, via, key, word=""):
    """The text as it is when asking, the job and how to apply an answer."""
    root, _, at = scopes(text)
    k = pick(key, 10 ** 6)
    b = lambda i: len(text[:i].encode())
    if via == "decl":
        n = at[s][k % len(at[s])]
        d = n.head[n.decl - n.start:]
        m = re.search(r"\b(mod|impl|trait|struct)\b", d)
        i = n.decl + m.start() + [0, 1, len(m.group(0)) + 1][k // 7 % 3]
        return text, {"op": "act", "at": [[b(i), b(i)]]}
    # An empty line (or one with a single word) of the body.
    if s == "root":
        # Nothing goes before the attributes of the file.
        top = re.match(r"(\s*#!\[.*\])*", text).end()
        spots = [top] + [n.start for n in root] + [len(text)]
        pad = ""
        whole = (top, len(text))
    else:
        n = at[s][k % len(at[s])]
        spots = [n.body[0]] + [c.start for c in n.kids] + [n.body[1]]
        line = text[text.rfind("\n", 0, n.decl) + 1:n.decl]
        pad = re.match(r"\s*", line).group(0) + "    "
        whole = n.body
    if via == "comp" and word:
        i = spots[-1]
    else:
        i = spots[k // 7 % len(spots)]
    # To the end of the previous line.
    j = i
    while j > whole[0] and text[j - 1] in " \t":
        j -= 1
    left, right = text[:j], text[j:]
    if left and not left.endswith("\n"):
        left += "\n"
    left += pad
    cur = len((left + word).encode())
    t = left + word + "\n" + ("" if right[:1].isspace() or right[:1] not in "}" else pad[:-4]) + right
    return t, ({"op": "comp", "at": [cur]} if via == "comp" else {"op": "act", "at": [[cur, cur]]})


def answers(via, r):
    """kind -> list of edit lists."""
    out = collections.defaultdict(list)
    for x in r["r"][0]:
        if via == "comp":
            k = DETAIL.get(x["detail"] or "")
            if k:
                out[k].append([x["edit"]])
        else:
            for p, k in LABEL:
                if re.match(p, x["label"]) and "attribute" not in x["label"]:
                    out[k].append(x["edits"])
                    break
    return out


def expand(sn):
    return re.sub(r"\$\{\d+:([^}]*)\}|\$\d+", lambda m: m.group(1) or "", sn)


def apply(text, edits, plain=True):
    b = text.encode()
    for e in sorted(edits, key=lambda e: e["r"], reverse=True):
        t = e["t"] if plain or e.get("sn") is None else expand(e["sn"])
        b = b[:e["r"][0]] + t.encode() + b[e["r"][1]:]
    return b.decode()


MISS = {"storage": "Missing ink! storage definition.", "constructor": "At least one ink! constructor must be defined for an ink! contract.", "message": "At least one ink! message must be defined for an ink! contract.",
        "traitmessage": "At least one ink! message must be defined for an ink! trait definition.", "errorcode": "Missing `ErrorCode` associated type for ink! chain extension."}


def tidy(f):
    return {s: sorted(m["k"] for m in l) for s, l in f.items()}


def agree(chk, text, file, missing, diag, key, what, replay):
    """The file is the one of the model, up to names; names and ids are not used twice; nothing else is reported than what is missing."""
    try:
        _, f, _ = scopes(text)
    except (IndexError, ValueError):
        chk.violation(key, f"{what}: the text is not balanced", replay)
        return False
    got = {s: sorted(m[0] for m in l) for s, l in f.items()}
    want = tidy(file)
    if "fns" in want and not want["fns"] and "fns" not in got:
        want.pop("fns")
    if got != want:
        chk.violation(key, f"{what}: the file has {got}, not {want}", replay)
        return False
    for s, l in f.items():
        for part in ([m for m in l if m[0] != "fn"], [m for m in l if m[0] == "fn"]) if s == "con" else (l,):
            n = [m[1] for m in part if m[1]]
            if len(set(n)) != len(n):
                chk.violation(key, f"{what}: a name is used twice: {sorted(n)} in {s}", replay)
                return False
        ids = [m[2] for m in l if m[0] == "extension"]
        if len(set(ids)) != len(ids):
            chk.violation(key, f"{what}: an id is used twice: {sorted(ids)}", replay)
            return False
    if diag.get("panic"):
        chk.violation(key, f"{what}: {diag['panic']}", replay)
        return False
    if diag["errs"]:
        chk.violation(key, f"{what}: the text does not parse", replay)
        return False
    # `()` stands for an error type which is still to be written.
    d = sorted(x["msg"] for x in diag["diags"] if not (x["msg"].startswith("`ErrorCode` associated type must implement") and "type ErrorCode = ();" in text))
    if d != sorted(MISS[m] for m in missing):
        chk.violation(key, f"{what}: reported {d}, missing {sorted(missing)}", replay)
        return False
    return True


def sequences(chk, cases, label):
    live = [{"c": c, "t": render(c, f"{chk.seed}{h(c)}"), "key": h(c), "i": 0} for c in cases]
    chk.traces += len(live)
    while live:
        jobs = []
        for x in live:
            c, i = x["c"], x["i"]
            x["lost"] = ""
            x["jobs"] = [{"op": "diag", "src": x["t"], "v": str(c["v"])}]
            if i < len(c["log"]):
                st = c["log"][i]
                k = f"{x['key']}{chk.seed}{i}"
                word = ""
                if st["via"] == "comp" and pick(k + "w", 3) == 0 and st["s"] != "ev":
                    word = WORDS[st["k"]][pick(k + "x", len(WORDS[st["k"]]))]
                x["word"] = word
                wanted = [(st["s"], st["via"], k)]
            else:
                word, wanted = "", [(s, via, f"{x['key']}{chk.seed}{s}{via}") for s, o in c["offers"].items() for via in o if not (s == "root" and via == "decl")]
            try:
                x["asks"] = [(s, via, ask(x["t"], s, via, k, word)) for s, via, k in wanted]
            except (KeyError, IndexError, ValueError, AttributeError) as e:
                x["asks"], x["lost"] = [], f"cannot find {e} in the file"
            x["jobs"] += [dict(j, src=t, v=str(c["v"])) for _, _, (t, j) in x["asks"]]
            x["at"] = len(jobs)
            jobs += x["jobs"]
        res = vh(jobs)
        nxt = []
        for x in live:
            c, i = x["c"], x["i"]
            r = res[x["at"]:x["at"] + len(x["jobs"])]
            done = i == len(c["log"])
            file, missing = (c["file"], c["missing"]) if done else (c["log"][i]["before"], c["log"][i]["missing"])
            key = f"{label}:{x['key']}"
            rep = {"case": c, "step": i, "jobs": x["jobs"]}
            if not agree(chk, x["t"], file, missing, r[0], key, f"ink! {c['v']}, after {[(l['s'], l['via'], l['k']) for l in c['log'][:i]]}\n{x['t']}", rep):
                continue
            if x["lost"]:
                chk.violation(key, x["lost"] + " in " + x["t"], rep)
                continue
            ok = True
            for (s, via, (t, j)), a in zip(x["asks"], r[1:]):
                what = f"ink! {c['v']}, {via} of {s} at {j['at']} in\n{t}\n"
                if a.get("panic"):
                    chk.violation(key, what + a["panic"], rep)
                    ok = False
                    continue
                got = answers(via, a)
                want = set(c["offers"][s][via]) if done else set(c["log"][i]["offer"])
                word = "" if done else x["word"]
                if word:
                    good = set(got) <= want and c["log"][i]["k"] in got
                else:
                    good = set(got) == want
                if not good or any(len(l) > 1 for l in got.values()):
                    chk.violation(key, what + f"offered {sorted(got)}, expected {sorted(want)} (typed {word!r})", rep)
                    ok = False
                    continue
                for k, (ed,) in got.items():
                    for e in ed:
                        gone = t.encode()[e["r"][0]:e["r"][1]].decode()
                        if gone.strip() not in ("", word):
                            chk.violation(key, what + f"inserting {k} removes {gone!r}", rep)
                            ok = False
                        if e["sn"] is not None and re.sub(r"\s", "", expand(e["sn"])) != re.sub(r"\s", "", e["t"]):
                            chk.violation(key, what + f"{k}: the snippet {e['sn']!r} does not expand to {e['t']!r}", rep)
                            ok = False
                        st = re.findall(r"\$\{(\d+):([^}]*)\}", e["sn"] or "")
                        if len(set(st)) != len({n for n, _ in st}):
                            chk.violation(key, what + f"{k}: a tab stop with two texts: {e['sn']!r}", rep)
                            ok = False
                if not done and ok:
                    x["t"] = apply(t, got[c["log"][i]["k"]][0], pick(x["key"] + str(i), 2) == 0)
            if ok and not done:
                x["i"] += 1
                nxt.append(x)
            elif ok:
                chk.ok(key, label)
        live = nxt


# ----------------------------------------------------------------- the check

def stock():
    out = []
    S = lambda s, k, *names, ids=(0,): out.extend({"s": s, "k": k, "n": n, "id": i} for n in names for i in ids)
    S("con", "storage", "MyThing", "Event")
    for k in ("struct", "enum", "trait", "mod", "type", "union"):
        S("con", k, "Event", "MyThing")
    S("con", "event", "Event", "Event2", "MyThing")
    S("con", "event2", "Event")
    S("con", "struct", "Event2", "MyThing2")
    S("fns", "constructor", "new", "new2", "my_message")
    S("fns", "message", "my_message", "my_message2", "new")
    S("fns", "fn", "new", "my_message", "my_message2")
    S("fns", "wildcard", "w")
    S("fns", "complement", "my_message", "h")
    S("tdef", "message", "my_message", "my_message2", "m")
    S("cext", "errorcode", "ErrorCode")
    S("cext", "extension", "my_function", "my_extension", "my_function2", ids=(1, 2))
    S("cext", "extension", "e", ids=(1, 2, 3, 7))
    S("test", "test", "it_works", "it_works2")
    S("test", "fn", "it_works", "it_works2")
    S("e2e", "e2etest", "it_works")
    S("e2e", "test", "it_works2", "it_works")
    S("e2e", "fn", "it_works", "helper")
    S("ev", "topic", "my_topic", "my_topic2", "a")
    S("ev", "field", "my_topic", "b")
    S("root", "struct", "Other", "Another")
    return out


def p18(chk):
    rng, big = chk.rng, chk.thorough
    ST = stock()
    invs = ["NoNameTwice", "NoIdTwice", "OneOfASort", "OneContract", "SelectorsFit"]
    m = 6 if big else 1

    def go(label, cap, scopes_, stock_, nstock, nins, sim=None, vias=("decl", "body", "comp")):
        r = mc("Snippets", {"Scopes": set(scopes_), "Stock": stock_, "MaxStock": nstock, "MaxInsert": nins, "Vs": {4, 5}, "Vias": set(vias)}, invs,
               **(dict(simulate=sim, depth=nstock + nins + 2, seed=chk.seed) if sim else dict(props=["NothingNewMissing", "Grows"])))
        chk.add_tlc(r)
        l = uniq(r.lines)
        if len(l) > cap:
            l = rng.sample(l, cap)
        sequences(chk, l, label)

    of = lambda *ss: [x for x in ST if x["s"] in ss]
    go("contract", 500 * m, ["root", "con"], of("con"), 2, 1)
    go("callables", 500 * m, ["root", "con", "fns"], of("fns") + [x for x in of("con") if x["k"] == "storage"][:1], 3, 1)
    go("traits", 400 * m, ["root", "tdef", "cext"], of("tdef", "cext"), 3, 1)
    go("tests", 400 * m, ["root", "con", "test", "e2e"], of("test", "e2e"), 2, 1)
    go("events", 200 * m, ["root", "con", "ev"], of("ev"), 2, 2)
    go("file", 200 * m, ["root"], of("root"), 1, 2)
    go("history", 150 * m, ["root", "con", "fns", "tdef", "cext", "test", "e2e", "ev"], ST, 8, 5, sim=3 * m)
    projects(chk)
    return "Inserted, Offer, Missing (spec/Snippets.tla), Created (spec/Project.tla)"



# ------------------------------------------------------------- new projects

KEYWORDS = """as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while
async await dyn abstract become box do final macro override priv typeof unsized virtual yield try""".split()
# Characters outside ASCII are written as names here.
FOREIGN = {"{e}": "\u00e9", "{han}": "\u4e2d", "{mark}": "\u093e", "{circle}": "\u24d0", "{square}": "\u00b2", "{half}": "\u00bd", "{arabic}": "\u0663", "{heart}": "\U0001f49d", "{nbsp}": "\u00a0", "{dash}": "\u2010"}


def foreign(s):
    for k, c in FOREIGN.items():
        s = s.replace(k, c)
    return s


def pieces(words, rest=True):
    out = [{"c": "word", "t": w, "up": w[0].upper() + w[1:]} for w in words]
    if rest:
        out += [{"c": c, "t": t, "up": t} for c, t in (("word", "{e}"), ("word", "{han}"), ("digit", "7"), ("digit", "{arabic}"), ("mark", "{mark}"), ("sign", "{circle}"), ("number", "{square}"), ("number", "{half}"),
                ("bad", " "), ("bad", "!"), ("bad", "."), ("bad", "/"), ("bad", "\\"), ("bad", "$"), ("bad", "{heart}"), ("bad", "{nbsp}"), ("bad", "{dash}"), ("bad", "\""))]
    out += [{"c": "line", "t": "_", "up": "_"}, {"c": "hyphen", "t": "-", "up": "-"}]
    return out


REF = "quux_plugh"


def projects(chk):
    import tomllib
    invs, props = ["OnlyIdentifiers", "EveryGoodName"], ["Extends", "Hopeless"]
    m = 4 if chk.thorough else 1
    lines = []
    for words, n, rest in ((["a", "B", "zq"], 3, True), (KEYWORDS + ["union", "auto", "default", "raw", "gen", "test", "ink", "std", "MyContract", "my", "contract", "Storage"], 2, False),
                           (["my", "contract", "MyContract", "x", "self", "abc"], 4 if chk.thorough else 3, False)):
        r = mc("Project", {"Pieces": pieces(words, rest), "MaxPieces": n, "Keywords": set(KEYWORDS), "Vs": {4, 5}}, invs, props=props)
        chk.add_tlc(r)
        l = uniq(r.lines)
        good = [x for x in l if x["out"] == "ok"]
        if len(good) > 2500 * m:
            good = chk.rng.sample(good, 2500 * m)
        lines += good + [x for x in l if x["out"] != "ok"]
    for x in lines:
        x["name"] = foreign(x["name"])
        x["made"] = {k: foreign(t) for k, t in x["made"].items()}
    ref = dict(zip((4, 5), vh([{"op": "newproj", "name": REF, "v": str(v)} for v in (4, 5)])))
    res = vh([{"op": "newproj", "name": x["name"], "v": str(x["v"])} for x in lines])
    good = [(x, o) for x, o in zip(lines, res) if x["out"] == "ok" and "lib" in o]
    dg = {id(x): d for (x, _), d in zip(good, vh([{"op": "diag", "src": o["lib"]["plain"], "v": str(x["v"])} for x, o in good]))}
    for x, o in zip(lines, res):
        key, bad = f"project {x['name']!r} ink! {x['v']}", None
        made, r = x["made"], ref[x["v"]]
        sub = lambda t: re.sub(r"\b(quux_plugh|QuuxPlugh)\b", lambda g: made["contract"] if g.group(0) == REF else made["storage"], t)
        if x["out"] != "ok":
            bad = None if o.get("err") == x["out"] else f"expected {x['out']}, got {str(o)[:100]}"
        elif "lib" not in o:
            bad = f"not created: {o}"
        elif dg[id(x)].get("panic") or dg[id(x)]["errs"] or dg[id(x)]["diags"]:
            bad = f"the contract is not clean: {str(dg[id(x)])[:300]}"
        elif o["lib"]["plain"] != sub(r["lib"]["plain"]):
            bad = "the source differs from that of other projects by more than its names"
        elif o["cargo"]["plain"] != r["cargo"]["plain"].replace(REF, made["package"]):
            bad = "the manifest differs from that of other projects by more than its name"
        else:
            for f in ("lib", "cargo"):
                st = re.findall(r"\$\{(\d+):([^}]*)\}", o[f]["snippet"] or "")
                if re.sub(r"\s", "", expand(o[f]["snippet"])) != re.sub(r"\s", "", o[f]["plain"]):
                    bad = f"the snippet of {f} does not expand to its text"
                elif len(set(st)) != len({n for n, _ in st}):
                    bad = f"a tab stop of {f} with two texts"
            try:
                t = tomllib.loads(o["cargo"]["plain"])
            except ValueError as e:
                t, bad = {}, f"malformed manifest: {e}"
            if not bad:
                dep = t["dependencies"]["ink"]
                lib = t.get("lib", {})
                root, file, at = scopes(o["lib"]["plain"])
                if t["package"]["name"] != made["package"]:
                    bad = f"the package is named {t['package']['name']!r}"
                elif lib.get("name", t["package"]["name"].replace("-", "_")) != made["contract"] or [name(n) for n in at["con"]] != [made["contract"]]:
                    bad = "the crate is not named like the contract"
                elif lib.get("path", "src/lib.rs") != "lib.rs":
                    bad = "the source is not where the manifest expects it"
                elif not dep["version"].startswith(str(x["v"])) or dep.get("default-features") is not False:
                    bad = f"ink! dependency {dep}"
                elif "ink/std" not in t["features"]["std"] or not {"ink-as-dependency", "e2e-tests", "default"} <= set(t["features"]):
                    bad = f"features {t['features']}"
                elif not str(t["dev-dependencies"]["ink_e2e"]["version"] if isinstance(t["dev-dependencies"]["ink_e2e"], dict) else t["dev-dependencies"]["ink_e2e"]).startswith(str(x["v"])):
                    bad = f"test dependency {t['dev-dependencies']}"
                elif [(k, n) for k, n, _ in file["con"]] != [("storage", made["storage"])] or {k for k, _, _ in file["fns"]} != {"constructor", "message"}:
                    bad = f"the contract has {file['con']} and {file['fns']}"
                elif any(f"impl {made['storage']} " not in n.head + " " for n in at["fns"]):
                    bad = "the functions are not those of the storage"
        if bad:
            chk.violation(key, f"{key}: {bad}", {"case": x, "got": o})
        else:
            chk.ok(key, "project " + x["out"])
    chk.traces += len(lines)
