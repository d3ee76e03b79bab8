"""Binding between spec/Server.tla and the real server: concretisation of client messages and server outputs."""
import json, os, random
from .core import *
from .texts import POOL, WITH_EVENT

METHODS = {
    "completion": "textDocument/completion", "hover": "textDocument/hover", "codeAction": "textDocument/codeAction",
    "inlayHint": "textDocument/inlayHint", "signatureHelp": "textDocument/signatureHelp",
    "resolve": "codeAction/resolve", "execute": "workspace/executeCommand",
}
ERR = {-32603: "internal", -32602: "params", -32601: "method"}


# ---- position encodings (independent of the implementation) ----
def units(s, enc):
    if enc == "utf-8":
        return len(s.encode())
    if enc == "utf-32":
        return len(s)
    return len(s.encode("utf-16-le")) // 2


class Doc:
    """A text with byte offsets <-> positions, straight from the LSP definition (lines end at "\\n")."""

    def __init__(self, text):
        self.text = text
        self.b = text.encode()
        self.starts = [0]
        for i, c in enumerate(self.b):
            if c == 10:
                self.starts.append(i + 1)

    def boundary(self, off):
        return off == len(self.b) or (0 <= off < len(self.b) and (self.b[off] & 0xC0) != 0x80)

    def pos(self, off, enc):
        import bisect
        line = bisect.bisect_right(self.starts, off) - 1
        return {"line": line, "character": units(self.b[self.starts[line]:off].decode(), enc)}

    def range(self, r, enc):
        return {"start": self.pos(r[0], enc), "end": self.pos(r[1], enc)}

    def off(self, pos, enc):
        """The offset of a position (which has to exist)."""
        o = self.starts[pos["line"]]
        n = pos["character"]
        for c in self.b[o:].decode():
            if n <= 0:
                break
            n -= units(c, enc)
            o += len(c.encode())
        assert n == 0
        return o

    def offsets(self):
        return [o for o in range(len(self.b) + 1) if self.boundary(o)]


# ---- translation of library results into LSP values ----
KIND = {"Attr": 5, "Field": 5, "Enum": 13, "Fn": 3, "Mod": 9, "Struct": 22, "Trait": 7}
AKIND = {"QuickFix": "quickfix", "Refactor": "refactor.rewrite", "Migrate": "refactor.rewrite", "Extract": "refactor.extract"}


def lsp_diags(diags, doc, enc):
    return [{"range": doc.range(d["r"], enc), "message": d["msg"], "severity": 1 if d["sev"] == "Error" else 2} for d in diags]


def lsp_completion(items, doc, enc, snippet):
    if not items:
        return None
    res = []
    for c in items:
        it = {"label": c["label"], "kind": KIND[c["kind"]], "textEdit": {
            "range": doc.range(c["edit"]["r"], enc),
            "newText": c["edit"]["sn"] if snippet and c["edit"]["sn"] is not None else c["edit"]["t"]}}
        if c["detail"] is not None:
            it["detail"] = c["detail"]
        if snippet:
            it["insertTextFormat"] = 2 if c["edit"]["sn"] is not None else 1
        res.append(it)
    return {"isIncomplete": True, "items": res}


def lsp_hover(x, doc, enc):
    return None if x is None else {"contents": x["c"], "range": doc.range(x["r"], enc)}


def lsp_actions(acts, doc, enc, uri, resolve):
    res = []
    for a in acts:
        trig = {"Migrate": "migrateProject", "Extract": "extractEvent"}.get(a["kind"])
        if not trig and not a["edits"]:
            continue
        it = {"title": a["label"], "kind": AKIND[a["kind"]]}
        if trig:
            rng = {"start": a["r"][0], "end": a["r"][1]}
            if resolve:
                it["data"] = {"command": trig, "uri": uri, "range": rng}
            else:
                it["command"] = {"title": a["label"], "command": trig, "arguments": [{"uri": uri, "range": rng}]}
        else:
            it["edit"] = {"changes": {uri: [{"range": doc.range(e["r"], enc), "newText": e["t"]} for e in a["edits"]]}}
            sn = {e["t"]: e["sn"] for e in a["edits"] if e["sn"] is not None}
            if sn:
                it["data"] = {"snippets": sn}
        res.append(it)
    return res


def lsp_inlay(hints, doc, enc):
    res = []
    for x in hints:
        it = {"position": doc.pos(x["p"], enc), "label": ": " + x["label"], "kind": 1, "paddingLeft": True}
        if x["detail"] is not None:
            it["tooltip"] = x["detail"]
        res.append(it)
    return res


def lsp_sig(sigs, enc, support, prev):
    if not sigs:
        return None
    active = 0
    if prev and prev.get("activeSignature", 0) > 0 and prev["activeSignature"] < len(prev["signatures"]):
        lbl = prev["signatures"][prev["activeSignature"]]["label"]
        active = next((i for i, s in enumerate(sigs) if s["label"] == lbl), 0)
    out = []
    for s in sigs:
        it = {"label": s["label"]}
        lb = s["label"].encode()
        if s["detail"] is not None:
            it["documentation"] = {"kind": "markdown", "value": s["detail"]}
        if s["params"]:
            ps = []
            for p in s["params"]:
                if support["offset"]:
                    e = {"label": [units(lb[:p["r"][0]].decode(), enc), units(lb[:p["r"][1]].decode(), enc)]}
                else:
                    e = {"label": lb[p["r"][0]:p["r"][1]].decode()}
                if p["detail"] is not None:
                    e["documentation"] = {"kind": "markdown", "value": p["detail"]}
                ps.append(e)
            it["parameters"] = ps
        if support["active"] and s["active"] is not None:
            it["activeParameter"] = s["active"]
        out.append(it)
    res = {"signatures": out, "activeSignature": active}
    if sigs[active]["active"] is not None:
        res["activeParameter"] = sigs[active]["active"]
    return res


# ---- client capabilities ----
def client(rng, create=None, resolve=None):
    c = {
        "enc": rng.choice(["utf-8", "utf-16", "utf-32", None]),
        "snippet": rng.random() < 0.5,
        "sig": {"offset": rng.random() < 0.5, "active": rng.random() < 0.5},
        "create": rng.random() < 0.5 if create is None else create,
        "resolve": rng.random() < 0.5 if resolve is None else resolve,
    }
    caps = {"general": {}, "textDocument": {
        "completion": {"completionItem": {"snippetSupport": c["snippet"]}},
        "codeAction": {"resolveSupport": {"properties": ["edit"] if c["resolve"] else ["title"]}} if c["resolve"] or rng.random() < 0.5 else {},
        "signatureHelp": {"signatureInformation": {"activeParameterSupport": c["sig"]["active"],
                                                   "parameterInformation": {"labelOffsetSupport": c["sig"]["offset"]}}},
    }, "workspace": {}}
    if c["enc"]:
        pref = [c["enc"]]
        if c["enc"] != "utf-16" and rng.random() < 0.5:
            pref = ["utf-16", c["enc"]]
        caps["general"]["positionEncodings"] = pref
    c["enc"] = c["enc"] or "utf-16"
    if c["create"]:
        caps["workspace"] = {"applyEdit": True, "workspaceEdit": {"documentChanges": True, "resourceOperations": rng.choice([["create"], ["rename", "create", "delete"]])}}
    else:
        caps["workspace"] = rng.choice([
            {}, {"applyEdit": True}, {"applyEdit": False, "workspaceEdit": {"documentChanges": True, "resourceOperations": ["create"]}},
            {"applyEdit": True, "workspaceEdit": {"documentChanges": True, "resourceOperations": ["rename", "delete"]}},
            {"applyEdit": True, "workspaceEdit": {"documentChanges": False, "resourceOperations": ["create"]}},
            {"applyEdit": True, "workspaceEdit": {"resourceOperations": ["create"]}},
            {"applyEdit": True, "workspaceEdit": {"documentChanges": True}},
        ])
    c["caps"] = caps
    return c


# ---- manifests ----
MANIFEST_V4 = ['ink = "4.3.0"', 'ink = { version = "4.2", default-features = false }', 'ink = { version = "=4.0.1", default-features = false, features = ["call-runtime"] }']
MANIFEST_V5 = ['ink = "5.0.0"', 'ink = { version = "5.0.0-rc.1", default-features = false }', 'ink = { version = "^5.0", default-features = false }', 'ink = "5"']


def manifest(kind, rng, name="c"):
    if kind == "absent":
        return None
    if kind == "broken":
        return rng.choice(["[package\nname = 1", "[dependencies]\nink = = 4"])
    dep = rng.choice(MANIFEST_V4 if kind == "v4" else MANIFEST_V5)
    return f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n{dep}\nscale = {{ package = "parity-scale-codec", version = "3" }}\n\n[features]\ndefault = ["std"]\nstd = ["ink/std", "scale/std"]\n'


# ---- tours ----
def graph(lines):
    """Transitions printed by TLC -> (initial state keys, adjacency)."""
    key = lambda s: json.dumps(s, sort_keys=True)
    adj, states, targets = {}, {}, set()
    for l in sorted(lines, key=key):
        s, t = key(l["s"]), key(l["t"])
        states[s] = l["s"]
        states[t] = l["t"]
        targets.add(t)
        adj.setdefault(s, {})[(json.dumps(l["a"], sort_keys=True))] = (l["a"], l["o"], t)
    return states, adj


def tours(states, adj, rng, maxlen=60, is_init=None, limit=None):
    """Covers every transition by walks starting in initial states; `rng` randomises the order."""
    inits = [s for s in states if is_init(states[s])]
    uncovered = {s: set(a) for s, a in adj.items()}
    total = sum(len(v) for v in uncovered.values())
    # shortest paths from each state to a state with uncovered transitions: BFS on demand
    from collections import deque
    walks = []
    covered = 0
    while covered < total:
        # choose an initial state from which something uncovered is reachable
        progressed = False
        rng.shuffle(inits)
        for s0 in inits:
            walk, cur = [], s0
            while len(walk) < maxlen:
                opts = uncovered.get(cur)
                if opts:
                    # prefer non-terminal transitions
                    nonterm = [o for o in opts if adj.get(adj[cur][o][2])]
                    pool = nonterm or list(opts)
                    o = pool[rng.randrange(len(pool))] if len(pool) < 50 else pool[0]
                    opts.discard(o)
                    covered += 1
                    walk.append((cur, adj[cur][o]))
                    cur = adj[cur][o][2]
                    continue
                # BFS
                prev = {cur: None}
                dq = deque([cur])
                goal = None
                while dq:
                    x = dq.popleft()
                    if x != cur and uncovered.get(x):
                        goal = x
                        break
                    for o, (a, out, t) in adj.get(x, {}).items():
                        if t not in prev:
                            prev[t] = (x, o)
                            dq.append(t)
                if goal is None:
                    break
                path = []
                x = goal
                while prev[x] is not None:
                    p, o = prev[x]
                    path.append((p, adj[p][o]))
                    x = p
                path.reverse()
                if len(walk) + len(path) > maxlen and walk:
                    break
                walk += path
                cur = goal
            if walk:
                fresh = True
                walks.append(walk)
                progressed = True
                if limit and len(walks) >= limit:
                    return walks, covered, total
        if not progressed:
            break
    return walks, covered, total


def random_walks(states, adj, rng, n, length, is_init):
    inits = [s for s in states if is_init(states[s])]
    res = []
    for _ in range(n):
        cur = rng.choice(inits)
        walk = []
        for _ in range(length):
            opts = adj.get(cur)
            if not opts:
                break
            # choose the action class first, so that no class dominates
            classes = {}
            for o in opts.values():
                classes.setdefault(o[0]["a"], []).append(o)
            c = rng.choice(sorted(classes))
            o = rng.choice(classes[c])
            walk.append((cur, o))
            cur = o[2]
        res.append(walk)
    return res


class Session:
    """A concrete session for a walk through the Server specification's state graph."""

    def __init__(self, walk, states, rng, base, n, texts=None, uris=("a", "b")):
        self.rng = rng
        init = states[walk[0][0]]
        self.init = init
        self.cl = client(rng, init["caps"]["create"], init["caps"]["resolve"])
        if texts is None:
            texts = list(POOL)
        self.dir = os.path.join(base, f"s{n}")
        self.uri, self.path = {}, {}
        for u in uris:
            fname = rng.choice(["lib.rs", "src/lib.rs", "my contract.rs", "é/lib.rs"])
            self.path[u] = os.path.join(self.dir, u, fname)
            from urllib.parse import quote
            self.uri[u] = "file://" + quote(self.path[u])
        self.msgs, self.events, self.needs = [], [], []
        self.rid = 0
        self.walk = walk
        self.texts_used = texts
        self.tmap = {}
        self.vmap = {}
        self.nsteps = 0

    def text(self, t):
        if t not in self.tmap:
            avail = [x for x in self.texts_used if x not in self.tmap.values()]
            self.tmap[t] = self.rng.choice(avail)
        return POOL[self.tmap[t]]

    def version(self, v):
        """Any numbers will do as versions, as long as different ones stay different."""
        if v not in self.vmap:
            self.vmap[v] = self.rng.choice([x for x in [1, 2, 3, 0, 7, -1, -40, 2 ** 31 - 1, 1000] if x not in self.vmap.values()])
        return self.vmap[v]

    def id(self):
        self.rid += 1
        return self.rid if self.rng.random() < 0.6 else f"req-{self.rid}"

    def manifest_path(self, u):
        return os.path.join(self.dir, u, "Cargo.toml")

    def fs(self, items):
        self.msgs.append({"$fs": items})

    def req(self, method, params):
        i = self.id()
        self.msgs.append({"id": i, "method": method, "params": params})
        return i

    def note(self, method, params):
        self.msgs.append({"method": method, "params": params})

    def build(self):
        self.manifests = {}
        items = []
        for u in self.uri:
            m = manifest(self.init["disk"][u], self.rng)
            self.manifests[u] = m
            os.makedirs(os.path.dirname(self.path[u]), exist_ok=True)
            if m is not None:
                items.append({"path": self.manifest_path(u), "text": m})
        self.fs(items)
        self.events.append({"kind": "fs"})
        self.owed = {}
        for s, (a, o, t) in self.walk:
            self.step(self.st(s), a, o)
        return self

    def st(self, s):
        return json.loads(s)

    def step(self, s, a, o):
        rng, k = self.rng, a["a"]
        ev = {"kind": "msg", "a": a, "o": o, "s": s}
        u = a.get("u")
        tdi = {"uri": self.uri[u]} if u in self.uri else None
        if k == "open":
            idn = a["id"] if a["id"] == "rust" else rng.choice(["toml", "plaintext", "Rust", "", "rust-analyzer"])
            self.note("textDocument/didOpen", {"textDocument": {**tdi, "languageId": idn, "version": self.version(a["v"]), "text": self.text(a["t"])}})
        elif k == "change":
            self.note("textDocument/didChange", {"textDocument": {**tdi, "version": self.version(a["v"])},
                                                 "contentChanges": [{"text": self.text(t)} for t in a["ts"]]})
        elif k == "close":
            self.note("textDocument/didClose", {"textDocument": tdi})
        elif k == "ignored":
            self.note(a["n"], {"textDocument": {"uri": self.uri["a"]}, "id": 1, "settings": {}})
        elif k == "stray":
            i = {"num": 424242, "str": "whatever", "migrate": "migrate-project::" + self.uri["a"], "showdoc": "show-document::file:///x/lib.rs"}[a["id"]]
            self.msgs.append(rng.choice([{"id": i, "result": {"applied": True}}, {"id": i, "error": {"code": -1, "message": "no"}}]))
        elif k == "query":
            self.query(s, a, ev)
        elif k == "badparams":
            ev["id"] = self.req(METHODS[a["m"]], rng.choice([None, {}, [], {"textDocument": {"uri": "not a uri"}}, {"textDocument": 5, "position": {}}, {"textDocument": {"uri": self.uri["a"]}, "position": {"line": -1, "character": 0}, "range": 0, "command": 1, "title": {}}]))
        elif k == "unknown":
            ev["id"] = self.req(a["m"], {"textDocument": {"uri": self.uri["a"]}, "position": {"line": 0, "character": 0}})
        elif k == "create":
            if a["arg"] == "good":
                name = rng.choice(["flip", "my_contract", "a-b", "Ab1"])
                root = "file://" + self.dir + "/new" + rng.choice(["", "/"])
                args = [{"name": name, "root": root}]
                ev["root"] = root.rstrip("/") + "/"
                ev["name"] = name
            elif a["arg"] == "badname":
                args = [{"name": rng.choice(["", "1a", "_x", "a b", "a.b", "-a", "../x"]), "root": "file://" + self.dir + "/new"}]
            else:
                args = rng.choice([[], [{}], [{"name": "x"}], [{"root": "file:///tmp/x"}], [{"name": "x", "root": "::not a url"}], ["x"], [{"name": 1, "root": 2}]])
            ev["id"] = self.req("workspace/executeCommand", {"command": "createProject", "arguments": args})
        elif k == "migrate":
            args = [{"uri": self.uri[u]}] if a["arg"] == "good" else rng.choice([[], [{}], [{"uri": 1}], [{"uri": "%%"}], [7]])
            ev["id"] = self.req("workspace/executeCommand", {"command": "migrateProject", "arguments": args})
        elif k == "extract":
            arg = self.extract_arg(s, u, a["r"])
            ev["id"] = self.req("workspace/executeCommand", {"command": "extractEvent", "arguments": [arg] if arg is not None else rng.choice([[], [{}], [{"uri": self.uri[u]}], [{"uri": self.uri[u], "range": {"start": 0}}], [{"uri": self.uri[u], "range": {"start": "0", "end": 1}}]])})
            ev["range"] = arg
        elif k == "resolve":
            data = {}
            if a["c"] == "none":
                data = rng.choice([None, {}, {"command": 3}, [], "x"])
            else:
                data["command"] = {"migrate": "migrateProject", "extract": "extractEvent", "other": "createProject"}[a["c"]]
                if a["c"] == "migrate":
                    if a["r"] != "noargs":
                        data["uri"] = self.uri[u]
                else:
                    arg = self.extract_arg(s, u, a["r"])
                    data.update(arg or {})
                    ev["range"] = arg
            act = {"title": "T", "kind": "refactor.rewrite"}
            if data is not None:
                act["data"] = data
            ev["action"] = act
            ev["id"] = self.req("codeAction/resolve", act)
        elif k == "unknowncommand":
            ev["id"] = self.req("workspace/executeCommand", {"command": rng.choice(["deleteProject", "", "createproject", "createProject "]), "arguments": [{"uri": self.uri["a"], "name": "x", "root": "file:///tmp"}]})
        elif k == "answer":
            self.msgs.append({"id": "$owed:" + a["c"], "result": {"applied": rng.random() < 0.7}})
            # filled in from the root of the latest create request
            i = self.owed_id(a["c"])
            self.msgs[-1]["id"] = i
            ev["answers"] = i
        elif k == "disk":
            m = manifest(a["d"], rng)
            self.manifests[u] = m
            # a probe makes sure that the server is done with everything before
            i = self.req("ink/probe", {})
            self.events.append({"kind": "probe", "id": i})
            self.fs([{"path": self.manifest_path(u), "text": m}])
        elif k == "shutdown":
            ev["id"] = self.req("shutdown", None)
        elif k == "exit":
            self.note("exit", None)
        else:
            raise ToolError("unknown action " + k)
        if k == "create" and any(m["k"] == "applyEdit" for m in o):
            self.owed["create"] = "initialize-project::" + ev["root"]
        if k == "migrate" and any(m["k"] == "applyEdit" for m in o):
            self.owed["migrate"] = "migrate-project::" + self.uri[u]
        if k == "extract" and any(m["k"] == "applyEdit" for m in o):
            self.owed["extract"] = "extract-event::" + self.uri[u]
        for need in self.needs_of(s, a):
            self.needs.append(need)
        ev["manifest"] = dict(self.manifests)
        self.events.append(ev)
        self.nsteps += 1

    def owed_id(self, c):
        return self.owed[c]

    def needs_of(self, s, a):
        """Library results needed to interpret the outputs: diagnostics of every text in both versions."""
        return []

    def open_text(self, s, u):
        d = s["docs"][u]
        return None if d["text"] == "-" else POOL[self.tmap[d["text"]]]

    def extract_arg(self, s, u, r):
        rng = self.rng
        txt = self.open_text(s, u)
        name = self.tmap.get(s["docs"][u]["text"])
        if r == "noargs":
            return None
        n = len(txt.encode()) if txt is not None else 10
        if r == "event" and name in WITH_EVENT:
            b = txt.encode()
            i = b.index(b"struct " + WITH_EVENT[name].encode())
            j = i + len("struct ") + len(WITH_EVENT[name])
            x = rng.choice([[i, j], [i, i], [j, j], [i + 3, i + 9]])
        elif r == "outside":
            x = rng.choice([[n, n + 1], [n + 5, n + 9], [0, 2 ** 32 - 1]])
        elif r == "inverted":
            x = rng.choice([[5, 2], [n, 0], [2 ** 32 + 4, 3]])
        elif r == "huge":
            x = rng.choice([[0, 2 ** 32], [2 ** 40, 2 ** 41], [2 ** 32, 2 ** 32 + 1]])
        else:
            x = [0, 0]
        return {"uri": self.uri[u], "range": {"start": x[0], "end": x[1]}}

    def query(self, s, a, ev):
        rng = self.rng
        u, q, enc = a["u"], a["q"], self.cl["enc"]
        txt = self.open_text(s, u)
        params = {"textDocument": {"uri": self.uri[u]}}
        ranged = q in ("codeAction", "inlayHint")
        doc = Doc(txt if txt is not None else "abc\ndef")
        if a["p"] == "good":
            offs = doc.offsets()
            hot = [i for i in offs if doc.b[max(0, i - 12):i + 12].find(b"ink") >= 0] or offs
            o1 = rng.choice(hot if rng.random() < 0.8 else offs)
            o2 = o1 if rng.random() < 0.5 else rng.choice(offs)
            o1, o2 = min(o1, o2), max(o1, o2)
            if q == "inlayHint" and rng.random() < 0.5:
                o1, o2 = 0, len(doc.b)
            ev["at"] = [o1, o2] if ranged else [o1, o1] if q == "hover" else o1
            rg = doc.range([o1, o2], enc)
            # positions past the end of a line denote its end
            if doc.b[o1:o1 + 1] in (b"\n", b"") and not ranged and rng.random() < 0.5:
                rg["start"]["character"] += rng.choice([1, 7, 2 ** 31])
        else:
            nl = len(doc.starts)
            bad = {"line": nl + rng.choice([0, 1, 100, 2 ** 30]), "character": rng.choice([0, 3])}
            okp = {"line": 0, "character": 0}
            if ranged and rng.random() < 0.6:
                last = doc.pos(len(doc.b), enc)
                if len(doc.b) == 0:
                    rg = {"start": okp, "end": bad}
                else:
                    rg = rng.choice([{"start": okp, "end": bad}, {"start": bad, "end": bad}, {"start": last, "end": okp}])
            else:
                rg = {"start": bad, "end": bad}
        if ranged:
            params["range"] = rg
            if q == "codeAction":
                params["context"] = {"diagnostics": []}
        else:
            params["position"] = rg["start"]
        ev["prev"] = None
        if q == "signatureHelp" and rng.random() < 0.5:
            k = rng.choice([0, 1, 2])
            prev = {"signatures": [{"label": l} for l in ["x", rng.choice(["y", "selector: u32 | _", "keep_attr: &str"]), "z"]], "activeSignature": k}
            params["context"] = {"triggerKind": 3, "isRetrigger": True, "activeSignatureHelp": prev}
            ev["prev"] = prev
        ev["id"] = self.req(METHODS[q], params)


class Lib:
    """Memoised results of the analysis library (used to resolve opaque results of the specification)."""

    def __init__(self):
        self.want, self.res = {}, {}

    def need(self, op, text, lang, at=None):
        k = (op, text, lang, json.dumps(at))
        if k not in self.res:
            self.want[k] = at

    def fetch(self, chk):
        groups = {}
        for (op, text, lang, at) in self.want:
            if op in ("comp", "hover", "sig", "act", "extract"):
                groups.setdefault((op, text, lang), []).append(at)
            else:
                groups[(op, text, lang, at)] = [at]
        jobs, keys = [], []
        for g, ats in groups.items():
            op, text, lang = g[:3]
            j = {"op": op, "src": text, "v": lang}
            if len(g) == 3:
                j["at"] = [json.loads(a) for a in ats]
            elif json.loads(g[3]) is not None:
                j["at"] = json.loads(g[3])
            jobs.append(j)
            keys.append((g, ats))
        rs = vh(jobs)
        for (g, ats), r in zip(keys, rs):
            if "panic" in r:
                for a in ats:
                    self.res[(g[0], g[1], g[2], a)] = {"panic": r["panic"]}
                continue
            if len(g) == 3:
                for a, x in zip(ats, r["r"]):
                    self.res[(g[0], g[1], g[2], a)] = x
            else:
                self.res[g] = r
        self.want = {}

    def get(self, op, text, lang, at=None):
        r = self.res[(op, text, lang, json.dumps(at))]
        return r


QOP = {"completion": "comp", "hover": "hover", "codeAction": "act", "inlayHint": "inlay", "signatureHelp": "sig"}


def collect(sess, lib):
    texts = sorted(set(sess.tmap.values()))
    for t in texts:
        for l in "45":
            lib.need("diag", POOL[t], l)
    for ev in sess.events:
        if ev["kind"] != "msg":
            continue
        a = ev["a"]
        if a["a"] == "query" and "at" in ev:
            at = ev["at"]
            hi = at[1] if isinstance(at, list) else at
            for t in texts:
                d = Doc(POOL[t])
                if hi <= len(d.b) and d.boundary(hi) and d.boundary(at[0] if isinstance(at, list) else at):
                    for l in "45":
                        lib.need(QOP[a["q"]], POOL[t], l, at)
        if a["a"] in ("migrate", "resolve"):
            for t in texts:
                lib.need("migrate", POOL[t], "4")
        if a["a"] in ("extract", "resolve") and ev.get("range"):
            for t in texts:
                r = ev["range"]["range"]
                if r["start"] <= r["end"] <= len(POOL[t].encode()):
                    for l in "45":
                        lib.need("extract", POOL[t], l, [r["start"], r["end"]])


def cands(sess, f):
    """All (text, lang) pairs of the session for which predicate f(text, lang) holds."""
    out = []
    for t, name in sorted(sess.tmap.items()):
        for l in "45":
            try:
                if f(POOL[name], l):
                    out.append([t, l])
            except KeyError:
                pass
    return out


def expected_answer(sess, lib, ev, text, l):
    q, enc, cl = ev["a"]["q"], sess.cl["enc"], sess.cl
    d = Doc(text)
    r = lib.get(QOP[q], text, l, ev["at"])
    if isinstance(r, dict) and "panic" in r:
        raise KeyError
    if q == "completion":
        return lsp_completion(r, d, enc, cl["snippet"])
    if q == "hover":
        return lsp_hover(r, d, enc)
    if q == "codeAction":
        return lsp_actions(r, d, enc, sess.uri[ev["a"]["u"]], cl["resolve"])
    if q == "inlayHint":
        return lsp_inlay(r["r"], d, enc)
    return lsp_sig(r, enc, cl["sig"], ev["prev"])


def lsp_edits(edits, doc, enc):
    return [{"range": doc.range(e["r"], enc), "newText": e["t"]} for e in edits]


def migrate_edit_ok(sess, lib, ev, changes, text):
    """Workspace edit of a migration: exactly the source file (library's edits) and the manifest (whole file)."""
    u = ev["a"]["u"]
    from urllib.parse import quote
    cargo = "file://" + quote(sess.manifest_path(u))
    if set(changes) != {sess.uri[u], cargo}:
        return False
    m = lib.get("migrate", text, "4")
    k = lambda e: json.dumps(e, sort_keys=True)
    if sorted(map(k, changes[sess.uri[u]])) != sorted(map(k, lsp_edits(m["edits"], Doc(text), sess.cl["enc"]))):
        return False
    md = Doc(ev["manifest"][u])
    ce = changes[cargo]
    return len(ce) == 1 and ce[0]["range"] == md.range([0, len(md.b)], sess.cl["enc"])


def doc_changes(ops):
    """Splits document change operations into created files, their contents and edits of other files."""
    created, edits = set(), {}
    for o in ops:
        if o.get("kind") == "create":
            created.add(o["uri"])
        elif "textDocument" in o:
            edits.setdefault(o["textDocument"]["uri"], []).extend(o["edits"])
        else:
            return None
    files = {}
    for c in created:
        e = edits.pop(c, [])
        if len(e) != 1 or e[0]["range"] != {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}:
            return None
        files[c] = e[0]["newText"]
    return files, edits


def extract_ok(sess, lib, ev, files, edits, text, l):
    from urllib.parse import quote
    u = ev["a"]["u"]
    r = ev["range"]["range"]
    x = lib.get("extract", text, l, [r["start"], r["end"]])
    if x is None:
        return False
    base = "file://" + quote(os.path.dirname(sess.manifest_path(u)))
    if set(edits) != {sess.uri[u], base + "/Cargo.toml"}:
        return False
    names = sorted(files)
    if len(names) != 2 or not names[0].endswith("/Cargo.toml") or not names[1].endswith("/src/lib.rs"):
        return False
    if names[0][:-len("/Cargo.toml")] != names[1][:-len("/src/lib.rs")] or not names[0].startswith(base + "/"):
        return False
    if files[names[1]] != x["content"]:
        return False
    d = Doc(text)
    es = [clean(e) for e in edits[sess.uri[u]]]
    rest = [e for e in es if e not in lsp_edits(x["edits"], d, sess.cl["enc"])]
    if len(es) - len(rest) != len(x["edits"]) or len(rest) != 1:
        return False
    imp = rest[0]
    return imp["range"]["start"] == imp["range"]["end"] == d.pos(x["import_offset"], sess.cl["enc"]) and f"::{x['name']};" in imp["newText"]


def abstract_output(sess, lib, ev, m):
    """Abstracts one real server message into the specification's vocabulary."""
    enc = sess.cl["enc"]
    inv = {v: k for k, v in sess.uri.items()}
    if m.get("method") == "textDocument/publishDiagnostics":
        p = m["params"]
        u = inv.get(p["uri"], "?" + p["uri"])
        got = [clean(x) for x in p["diagnostics"]]
        if p.get("version") is None and not got:
            return {"k": "clear", "u": u}
        c = cands(sess, lambda t, l: lsp_diags(lib.get("diag", t, l)["diags"], Doc(t), enc) == got)
        return {"k": "publish", "u": u, "v": next((v for v, x in sess.vmap.items() if x == p.get("version")), 9999), "c": c}
    if m.get("method") == "workspace/applyEdit":
        edit = m["params"]["edit"]
        i = str(m["id"])
        if i.startswith("initialize-project::"):
            dc = doc_changes(edit.get("documentChanges") or [])
            ok = dc is not None and ev["a"]["a"] == "create" and "root" in ev and not dc[1] and set(dc[0]) == {ev["root"] + "lib.rs", ev["root"] + "Cargo.toml"} and i == "initialize-project::" + ev["root"]
            return {"k": "applyEdit", "c0": "create" if ok else "?", "u": "-", "c": [["-", "-"]]}
        if i.startswith("migrate-project::"):
            u = ev["a"].get("u")
            ok = i == "migrate-project::" + sess.uri.get(u, "?")
            c = cands(sess, lambda t, l: migrate_edit_ok(sess, lib, ev, edit.get("changes") or {}, t)) if ok else []
            return {"k": "applyEdit", "c0": "migrate", "u": u if ok else "?", "c": c}
        if i.startswith("extract-event::"):
            u = ev["a"].get("u")
            sess.owed_real = i
            dc = doc_changes(edit.get("documentChanges") or [])
            c = cands(sess, lambda t, l: extract_ok(sess, lib, ev, dc[0], dc[1], t, l)) if dc and i.startswith("extract-event::" + sess.uri.get(u, "?")) else []
            return {"k": "applyEdit", "c0": "extract", "u": u, "c": c}
        return {"k": "applyEdit", "c0": "?", "u": "?", "c": []}
    if m.get("method") == "window/showDocument":
        exp = str(ev.get("answers", "")).replace("initialize-project::", "") + "lib.rs"
        return {"k": "showDocument" if m["params"]["uri"] == exp else "?showDocument " + m["params"]["uri"]}
    if "id" in m and "method" not in m:
        if m["id"] != ev.get("id"):
            return {"k": "?response to " + str(m["id"])}
        if m.get("error") is not None:
            return {"k": "error", "code": ERR.get(m["error"]["code"], str(m["error"]["code"]))}
        r = m.get("result")
        a = ev["a"]
        if a["a"] == "query" and "at" in ev and ev["s"]["docs"][a["u"]]["text"] != "-":
            got = clean(r)
            c = cands(sess, lambda t, l: clean(expected_answer(sess, lib, ev, t, l)) == got)
            return {"k": "result", "q": a["q"], "u": a["u"], "c": c}
        if r is None:
            return {"k": "null"}
        if a["a"] == "create":
            ok = r.get("name") == ev.get("name") and r.get("uri") == ev.get("root") and set(r.get("files", {})) == {ev["root"] + "lib.rs", ev["root"] + "Cargo.toml"}
            return {"k": "result", "q": "create" if ok else "?create", "u": "-", "c": [["-", "-"]]}
        if a["a"] == "extract":
            ok = r.get("uri") == sess.uri[a["u"]] and isinstance(r.get("files"), dict) and isinstance(r.get("edits"), dict)
            c = cands(sess, lambda t, l: extract_ok(sess, lib, ev, r["files"], r["edits"], t, l)) if ok else []
            return {"k": "result", "q": "extract", "u": a["u"], "c": c}
        if a["a"] == "resolve":
            e = r.get("edit") or {}
            same = {k: v for k, v in r.items() if k not in ("edit",)} == {k: v for k, v in ev["action"].items()}
            if not same:
                return {"k": "result", "q": "?resolve", "u": a["u"], "c": []}
            if a["c"] == "migrate":
                return {"k": "result", "q": "resolve-migrate", "u": a["u"], "c": cands(sess, lambda t, l: migrate_edit_ok(sess, lib, ev, e.get("changes") or {}, t))}
            dc = doc_changes(e.get("documentChanges") or [])
            return {"k": "result", "q": "resolve-extract", "u": a["u"], "c": cands(sess, lambda t, l: extract_ok(sess, lib, ev, dc[0], dc[1], t, l)) if dc else []}
        return {"k": "?result"}
    return {"k": "?" + str(m.get("method"))}


def run_sessions(chk, sessions, cfg_consts, uris, max_reject=3):
    """Runs sessions on the real server and validates the recorded traces with TLC (ServerTrace)."""
    lib = Lib()
    jobs = []
    for s in sessions:
        collect(s, lib)
        msgs = list(s.msgs)
        ended = s.walk[-1][1][0]["a"] == "exit"
        if not ended:
            msgs.append({"method": "exit", "params": None})
            s.events.append({"kind": "fin"})
        jobs.append({"op": "session", "handshake": False, "caps": s.cl["caps"], "msgs": msgs, "limit": 40})
    lib.fetch(chk)
    results = vh(jobs)
    trace, index = [], []
    for n, (s, r) in enumerate(zip(sessions, results)):
        chk.traces += 1
        trace.append({"a": {"a": "init"}, "disk": s.init["disk"], "caps": s.init["caps"]})
        index.append((n, -1))
        if "panic" in r and "steps" not in r:
            chk.violation(f"session-panic", f"session driver panicked: {r['panic']}", jobs[n])
            continue
        steps = r["steps"]
        bad = None
        for i, ev in enumerate(s.events):
            got = steps[i] if i < len(steps) else []
            if ev["kind"] == "probe":
                if not (len(got) == 1 and got[0].get("id") == ev["id"]):
                    bad = (i, "an unknown request got no answer")
                    break
                continue
            if ev["kind"] != "msg":
                continue
            if i >= r["accepted"]:
                break
            o = [abstract_output(s, lib, ev, m) for m in got]
            if any("?" in str(x.get("k")) for x in o) is False:
                pass
            trace.append({"a": ev["a"], "o": o})
            index.append((n, i))
            chk.ok(json.dumps([ev["a"], ev["o"], ev["s"]["docs"], ev["s"]["fuel"]], sort_keys=True), ev["a"]["a"])
        if bad is None and r["end"] != "ok":
            bad = (r["accepted"] - 1, f"the server did not survive the session: {r['end']}")
        if bad is not None:
            i, why = bad
            chk.violation("server-end:" + h([s.events[i].get("a"), why.split("@")[0][:80]]), f"{why} after message {json.dumps(jobs[n]['msgs'][i])[:300]}",
                          {"job": jobs[n], "at": i, "end": r["end"]})
            # the rest of this session was not executed: keep the prefix (already in the trace) minus the fatal message
            while index and index[-1] == (n, i):
                index.pop()
                trace.pop()
    rejects = 0
    while True:
        path = os.path.join(chk.dir, "trace.ndjson")
        with open(path, "w") as f:
            for e in trace:
                f.write(json.dumps(e) + "\n")
        r = tlc("ServerTrace", cfg_text=cfg_consts + "SPECIFICATION TraceSpec\nVIEW TraceView\nINVARIANTS TypeOK InSync OneResponse Isolated Current Capable\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n",
                env_vars={"TRACE": path}, workers=1, timeout=800)
        chk.add_tlc(r)
        c = r.lines[-1]
        if c["consumed"] >= c["len"]:
            break
        k = c["consumed"]  # 0-based index of the first event not accepted
        n, i = index[k]
        s = sessions[n]
        ev = s.events[i]
        chk.violation("trace:" + h([ev["a"], ev["o"], trace[k]["o"]]),
                      f"the specification rejects what the server sent for {json.dumps(ev['a'])}: expected {json.dumps(ev['o'])}, observed {json.dumps(trace[k]['o'])[:400]}; raw {json.dumps(results[n]['steps'][i])[:300]}",
                      {"job": jobs[n], "at": i, "expected": ev["o"], "observed": results[n]["steps"][i], "texts": s.tmap})
        rejects += 1
        if rejects >= max_reject:
            break
        keep = [(t, x) for t, x in zip(trace, index) if x[0] != n]
        trace, index = [t for t, _ in keep], [x for _, x in keep]
        if not trace:
            break
    for s in sessions[:3]:
        chk.sample({"session": [e["a"] for e in s.events if e["kind"] == "msg"][:8], "texts": s.tmap})


def consts(uris, texts, vers, queries, disks, alphabet, maxopen):
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    return (f"CONSTANTS\n Uris = {q(uris)}\n Texts = {q(texts)}\n Vers = {{{', '.join(map(str, vers))}}}\n Queries = {q(queries)}\n"
            f" Disks = {q(disks)}\n Alphabet = {q(alphabet)}\n MaxOpen = {maxopen}\n")


def explore(chk, cs):
    r = tlc("Server", cfg_text=cs + "SPECIFICATION Spec\nVIEW View\nINVARIANTS TypeOK InSync OneResponse Isolated Current Detected Capable\nPROPERTY Sticky\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n")
    chk.add_tlc(r)
    states, adj = graph(r.lines)
    return states, adj


def is_init(s):
    return all(d["text"] == "-" for d in s["docs"].values()) and s["fuel"] == 0 and s["phase"] == "up" and not s["owed"]
