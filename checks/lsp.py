"""P01-P05: the language server protocol state machine."""
import os
from vlib.core import *
from vlib.lspmodel import *

ALLQ = ["completion", "hover", "codeAction", "inlayHint", "signatureHelp"]


def campaign(chk, name, cs, uris, ntours, nrandom, rlen, texts=None, maxlen=60):
    states, adj = explore(chk, cs)
    total = sum(len(a) for a in adj.values())
    walks, cov, tot = tours(states, adj, chk.rng, maxlen=maxlen, is_init=is_init, limit=ntours)
    walks = [w for w in walks if w]
    rnd = random_walks(states, adj, chk.rng, nrandom, rlen, is_init)
    chk.log(f"{name}: {len(states)} states, {total} transitions; tours {len(walks)} cover {cov}/{tot}; random walks {len(rnd)}")
    base = os.path.join(chk.dir, name)
    os.makedirs(base, exist_ok=True)
    sessions = []
    for n, w in enumerate(walks + rnd):
        if not w:
            continue
        sessions.append(Session(w, states, random.Random(f"{chk.pid}{name}{n}{chk.seed}"), base, n, texts, uris).build())
    run_sessions(chk, sessions, cs, uris)
    chk.notes.append(f"{name}: {len(states)} model states, {cov}/{tot} transitions replayed in {len(walks)} tours, {len(rnd)} random sessions of {rlen} steps")


def p01(chk):
    m = 3 if chk.thorough else 1
    # every kind of request against every document status
    cs = consts("ab", "x", [1], ALLQ, ["v4"], ["sync", "query", "malformed", "ignored", "lifecycle", "command"], 2)
    campaign(chk, "requests", cs, "ab", 60 * m, 40 * m, 60, texts=list(WITH_EVENT))
    cs = consts("ab", "xy", [1], ALLQ, ["v4"], ["sync", "query", "malformed", "ignored", "lifecycle"], 2)
    campaign(chk, "queries", cs, "ab", 60 * m, 60 * m, 60)


def p02(chk):
    m = 3 if chk.thorough else 1
    cs = consts("ab", "xy", [1, 2], ["hover"], ["v4", "v5"], ["sync", "ignored"], 2)
    campaign(chk, "sync", cs, "ab", 400, 60 * m, 80)
    cs = consts("abc", "xyz", [1, 7], ["hover"], ["v5"], ["sync"], 3)
    campaign(chk, "sync3", cs, "abc", 60 * m, 80 * m, 80)
    # interleaved with commands (whose handling must not disturb what is shown)
    cs = consts("ab", "xy", [1, 2], ["hover"], ["v4", "v5"], ["sync", "migrate", "disk", "query"], 2)
    campaign(chk, "syncmig", cs, "ab", 60 * m, 60 * m, 60)


def p03(chk):
    m = 3 if chk.thorough else 1
    cs = consts("ab", "xy", [1], ALLQ, ["v4", "v5"], ["sync", "query"], 2)
    campaign(chk, "answers", cs, "ab", 200 * m, 120 * m, 80)
    cs = consts("ab", "xy", [1], ["hover", "completion", "codeAction"], ["v4", "v5"], ["sync", "query", "migrate", "disk"], 2)
    campaign(chk, "answersmig", cs, "ab", 100 * m, 100 * m, 60)


def p04(chk):
    m = 3 if chk.thorough else 1
    cs = consts("a", "x", [1], ["codeAction"], ["v4", "absent", "broken"], ["sync", "command", "query"], 1)
    campaign(chk, "commands", cs, "a", 150 * m, 60 * m, 60, texts=list(WITH_EVENT))


def p05(chk):
    m = 3 if chk.thorough else 1
    cs = consts("ab", "x", [1], ["hover"], ["v4", "v5"], ["sync", "disk", "migrate"], 2)
    campaign(chk, "redetect", cs, "ab", 200 * m, 80 * m, 60, texts=["event", "chain4", "chain5", "scale", "items"])
    from checks.manifests import p05_manifests
    p05_manifests(chk)
