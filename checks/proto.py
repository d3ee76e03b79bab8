"""P06 (position encodings) and P20 (capability negotiation)."""
import json
from vlib.core import *
from vlib.lspmodel import clean, Doc

GLYPH = {"a": "x", "e": "é", "u": "€", "g": "😀", "n": "\n", "r": "\r"}
ATTR = "#[ink::contract]fn f(){}"
URI = "file:///nonexistent-dir-for-verif/lib.rs"
EXIT = {"method": "exit", "params": None}


def server_capabilities(enc, kinds):
    return {
        "positionEncoding": enc,
        "textDocumentSync": {"openClose": True, "change": 1, "save": {}},
        "hoverProvider": True,
        "completionProvider": {"triggerCharacters": ["[", "(", ",", ":"]},
        "codeActionProvider": {"codeActionKinds": kinds, "resolveProvider": True} if kinds else True,
        "inlayHintProvider": {},
        "signatureHelpProvider": {"triggerCharacters": ["(", ","]},
        "executeCommandProvider": {"commands": ["createProject", "migrateProject", "extractEvent"]},
    }


# values of unrelated client capabilities, which must not influence the offer
NOISE = [
    {}, {"general": {}}, {"textDocument": {}}, {"textDocument": {"codeAction": {}}},
    {"textDocument": {"codeAction": {"dynamicRegistration": True, "dataSupport": True, "resolveSupport": {"properties": ["edit"]}}}},
    {"textDocument": {"completion": {"completionItem": {"snippetSupport": True}}}},
    {"workspace": {"applyEdit": True, "workspaceEdit": {"documentChanges": True, "resourceOperations": ["create"]}}},
    {"textDocument": {"codeAction": {"isPreferredSupport": True}, "hover": {"contentFormat": ["plaintext"]}, "inlayHint": {"dynamicRegistration": True}}},
]


def offer(st, noise):
    caps = json.loads(json.dumps(noise))
    if st["encs"] != ["none"]:
        caps.setdefault("general", {})["positionEncodings"] = st["encs"]
    if st["kinds"] != ["none"]:
        caps.setdefault("textDocument", {}).setdefault("codeAction", {})["codeActionLiteralSupport"] = {"codeActionKind": {"valueSet": st["kinds"]}}
    return caps


def handshake(chk, maxenc, maxkinds):
    r = tlc("Handshake", cfg_text=f"CONSTANTS\n MaxEnc = {maxenc}\n MaxKinds = {maxkinds}\nSPECIFICATION Spec\nINVARIANTS Usable Preferred Common Complete Emit\nCHECK_DEADLOCK FALSE\n")
    chk.add_tlc(r)
    return sorted(r.lines, key=lambda x: json.dumps(x, sort_keys=True))


def init_msgs(caps, rid):
    return [{"id": rid, "method": "initialize", "params": {"processId": None, "rootUri": None, "capabilities": caps}},
            {"method": "initialized", "params": {}}]


def p20(chk):
    sts = handshake(chk, 4 if chk.thorough else 3, 4 if chk.thorough else 3)
    chk.log(f"{len(sts)} offers")
    jobs, meta = [], []
    for n, st in enumerate(sts):
        # Every offer on its own, plus a sample of unrelated capabilities.
        for noise in ([NOISE[0]] + ([NOISE[n % len(NOISE)]] if n % len(NOISE) else [])):
            caps = offer(st, noise)
            rid = n if n % 2 else f"init-{n}"
            jobs.append({"op": "session", "handshake": True, "msgs": init_msgs(caps, rid) + [EXIT], "limit": 30})
            meta.append((st, caps, rid))
    for (st, caps, rid), job, res in zip(meta, jobs, vh(jobs)):
        chk.traces += 1
        key = json.dumps([st["encs"], st["kinds"]])
        chk.ok(key, "offer")
        if "steps" not in res or res["end"] != "ok":
            chk.violation("init:" + h(key), f"initialisation with {json.dumps(caps)} failed: {res.get('end') or res.get('panic')}", {"job": job, "result": res})
            continue
        outs = res["steps"][0]
        want = server_capabilities(st["enc"], st["common"])
        ok = len(outs) == 1 and outs[0].get("id") == rid and outs[0].get("error") is None
        got = (outs[0].get("result") or {}) if outs else {}
        if not ok or clean(got.get("capabilities")) != want or (got.get("serverInfo") or {}).get("name") != "ink-analyzer":
            diff = {k: (clean(got.get("capabilities") or {}).get(k), want.get(k)) for k in set(want) | set(clean(got.get("capabilities") or {})) if clean(got.get("capabilities") or {}).get(k) != want.get(k)}
            chk.violation("caps:" + h([key, sorted(diff)]), f"client offers {json.dumps(caps)}: announced (left) instead of expected (right): {json.dumps(diff)[:400]}", {"job": job, "result": res, "expected": want})
    # The announced encoding and lazy edits are what the server then uses.
    used_encoding(chk, [s for s in sts if s["kinds"] == ["none"]])
    used_kinds(chk, [s for s in sts if s["encs"] == ["none"]])
    chk.sample(sts[len(sts) // 2])
    chk.sample(sts[-1])
    return "one evaluation = one client offer (encodings list x kinds list) negotiated with the real server; distinct by offer"


def attr_hover():
    """What the analysis says about the attribute itself: offset in the attribute -> hovered range in it."""
    r = vh([{"op": "hover", "src": "/**/" + ATTR + "/**/", "v": "4", "at": [[o, o] for o in range(len(ATTR) + 9)]}])[0]["r"]
    res = {}
    for o, x in enumerate(r):
        if x is not None:
            res[o - 4] = (x["r"][0] - 4, x["r"][1] - 4)
    if not all(0 <= a <= b <= len(ATTR) for a, b in res.values()) or not res:
        raise ToolError(f"unexpected hover ranges {res}")
    return res


# a wide character before the attribute: each encoding puts the attribute at a different character
WIDE = "/*😀é*/" + ATTR + "\n"


def used_encoding(chk, sts):
    hov = attr_hover()
    start = {"utf-8": 2 + 4 + 2 + 2, "utf-16": 2 + 2 + 1 + 2, "utf-32": 2 + 1 + 1 + 2}
    jobs = []
    for st in sts:
        caps = offer(st, {})
        jobs.append({"op": "session", "handshake": True, "limit": 30, "msgs": init_msgs(caps, 0) + [
            {"method": "textDocument/didOpen", "params": {"textDocument": {"uri": URI, "languageId": "rust", "version": 1, "text": WIDE}}},
            {"id": 1, "method": "textDocument/hover", "params": {"textDocument": {"uri": URI}, "position": {"line": 0, "character": start[st["enc"]] + 8}}},
            EXIT]})
    for st, job, res in zip(sts, jobs, vh(jobs)):
        chk.traces += 1
        chk.ok(json.dumps(["used", st["encs"]]), "used encoding")
        x = (res.get("steps") or [[]] * 4)[3]
        r = x[0].get("result") if x else None
        a = start[st["enc"]]
        want = {"start": {"line": 0, "character": a + hov[8][0]}, "end": {"line": 0, "character": a + hov[8][1]}}
        if not r or r.get("range") != want:
            chk.violation("used-enc:" + h(st["encs"]), f"client offers encodings {st['encs']}: expected a hover at {want} ({st['enc']}), got {json.dumps(x)[:300]}", {"job": job, "result": res})


def used_kinds(chk, sts):
    """Whatever was negotiated, actions have kinds the protocol knows and edits are lazy only if the client resolves."""
    from vlib.texts import POOL, WITH_EVENT
    text = POOL[list(WITH_EVENT)[0]]
    jobs = []
    for st in sts:
        jobs.append({"op": "session", "handshake": True, "limit": 30, "msgs": init_msgs(offer(st, {}), 0) + [
            {"method": "textDocument/didOpen", "params": {"textDocument": {"uri": URI, "languageId": "rust", "version": 1, "text": text}}},
            {"id": 1, "method": "textDocument/codeAction", "params": {"textDocument": {"uri": URI}, "context": {"diagnostics": []}, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 3}}}},
            EXIT]})
    for st, job, res in zip(sts, jobs, vh(jobs)):
        chk.traces += 1
        chk.ok(json.dumps(["kinds", st["kinds"]]), "used kinds")
        x = (res.get("steps") or [[]] * 4)[3]
        r = x[0].get("result") if x else None
        if res.get("end") != "ok" or not isinstance(r, list) or any(a.get("kind") not in ("quickfix", "refactor.rewrite", "refactor.extract") or
                                       (a.get("edit") is None and a.get("command") is None) for a in r):
            chk.violation("used-kinds:" + h(st["kinds"]), f"client offers kinds {st['kinds']}: unusable code actions {json.dumps(x)[:300]}", {"job": job, "result": res})


def p06(chk):
    mb, ma = (3, 2) if chk.thorough else (3, 1)
    r = tlc("Positions", cfg_text=f'CONSTANTS\n Glyphs = {{"a","e","u","g","n","r"}}\n MaxBefore = {mb}\n MaxAfter = {ma}\n AttrLen = {len(ATTR)}\n Pre = 2\n Post = 2\n'
            "SPECIFICATION Spec\nINVARIANTS RoundTrip Ordered Clamped NoLine Emit\nCHECK_DEADLOCK FALSE\n")
    chk.add_tlc(r)
    hov = attr_hover()
    lines = sorted(r.lines, key=lambda x: json.dumps([x["before"], x["after"]]))
    chk.log(f"{len(lines)} texts")
    # expected hover by offset, relative to the attribute (the analysis itself is position agnostic)
    jobs = []
    for l in lines:
        text = "/*" + "".join(GLYPH[g] for g in l["before"]) + "*/" + ATTR + "/*" + "".join(GLYPH[g] for g in l["after"]) + "*/"
        l["text"] = text
        for enc, t in (("utf-8", "t8"), ("utf-16", "t16"), ("utf-32", "t32")):
            caps = {"general": {"positionEncodings": [enc]}}
            msgs = [{"method": "textDocument/didOpen", "params": {"textDocument": {"uri": URI, "languageId": "rust", "version": 1, "text": text}}}]
            probes = sorted(l[t]["probes"])
            for i, (ln, c, off) in enumerate(probes):
                msgs.append({"id": i + 1, "method": "textDocument/hover", "params": {"textDocument": {"uri": URI}, "position": {"line": ln, "character": c}}})
            # ranges: (probe, probe) pairs, including inverted ones
            pairs = []
            for k in range(6):
                a, b = chk.rng.choice(probes), chk.rng.choice(probes)
                pairs.append((a, b))
                params = {"textDocument": {"uri": URI}, "range": {"start": {"line": a[0], "character": a[1]}, "end": {"line": b[0], "character": b[1]}}}
                if k % 2:
                    params["context"] = {"diagnostics": []}
                msgs.append({"id": 1000 + k, "method": ["textDocument/inlayHint", "textDocument/codeAction"][k % 2], "params": params})
            jobs.append(({"op": "session", "handshake": False, "caps": caps, "msgs": msgs + [EXIT], "limit": 40}, l, t, probes, pairs))
    res = vh([j[0] for j in jobs])
    for l, d in zip(lines, vh([{"op": "diag", "src": l["text"], "v": "4"} for l in lines])):
        l["diags"] = d.get("diags", [])
    err = lambda x: len(x) == 1 and x[0].get("error") is not None
    for (job, l, t, probes, pairs), r in zip(jobs, res):
        chk.traces += 1
        if "steps" not in r or r["end"] != "ok":
            chk.violation("p06-end:" + h([l["before"], l["after"], t]), f"server failed on {l['text']!r}: {r.get('end') or r.get('panic')}", {"job": job, "result": r})
            continue
        a = l["attr"]
        st = l[t]["start"]
        # published diagnostics are positioned as well (they start before and end after the glyphs)
        got = [x["range"] for m in r["steps"][0] for x in m["params"]["diagnostics"]]
        want = [Doc(l["text"]).range(x["r"], {"t8": "utf-8", "t16": "utf-16", "t32": "utf-32"}[t]) for x in l["diags"]]
        chk.ok(None, "published")
        if got != want:
            chk.violation("pub:" + h([t, l["before"], l["after"]]), f"{t}: diagnostics of {l['text']!r} published at {got}, expected {want}", {"text": l["text"], "table": t, "observed": got, "expected": want})
        for (ln, c, off), x in zip(probes, r["steps"][1:]):
            chk.ok(json.dumps([t, l["before"], l["after"], ln, c]), "rejected" if off < 0 else "beyond/at/inside")
            if off < 0:
                good = err(x)
            else:
                rr = x[0].get("result") if len(x) == 1 and x[0].get("error") is None else "?"
                want = hov.get(off - a)
                if want is not None:
                    want = {"start": {"line": st["line"], "character": st["char"] + want[0]}, "end": {"line": st["line"], "character": st["char"] + want[1]}}
                good = rr is None if want is None else isinstance(rr, dict) and rr.get("range") == want
            if not good:
                chk.violation("pos:" + h([t, l["before"], l["after"], ln, c]), f"{t}: position ({ln},{c}) of {l['text']!r} is offset {off}: observed {json.dumps(x)[:200]}",
                              {"text": l["text"], "table": t, "position": [ln, c], "offset": off, "observed": x})
        for (pa, pb), x in zip(pairs, r["steps"][1 + len(probes):]):
            chk.ok(None, "range")
            bad = pa[2] < 0 or pb[2] < 0 or pa[2] > pb[2]
            if bad != err(x):
                chk.violation("range:" + h([t, l["before"], l["after"], pa, pb]), f"{t}: range {pa[:2]}..{pb[:2]} of {l['text']!r} should {'be rejected' if bad else 'be accepted'}: {json.dumps(x)[:200]}",
                              {"text": l["text"], "table": t, "range": [pa, pb], "observed": x})
    chk.sample({"text": lines[len(lines) // 2]["text"], "utf-16": lines[len(lines) // 2]["t16"]})
    sts = [s for s in handshake(chk, 3, 0) if s["kinds"] == ["none"]]
    used_encoding(chk, sts)
    return "one evaluation = one position (or range) of one text in one encoding sent to the real server and compared with the specification's place; distinct by (encoding, text, position)"
