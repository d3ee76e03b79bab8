#!/usr/bin/env python3
"""Development tool: are the trace specifications strict?  Records real sessions and answers, corrupts one field at a time, and counts what TLC rejects.
Run after a check (it needs the harness); never used by checks."""
import copy, json, os, random, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import core, lspmodel
from checks import lsp, total

N = int(sys.argv[1]) if len(sys.argv) > 1 else 40
rng = random.Random(1)


def check(pid):
    c = core.Check(pid, "quick", "model_checking")
    c.seed, c.rng, c.dir = 1, random.Random(1), core.scratch("corrupt" + pid)
    c.violation = lambda k, w, r=None: print("unexpected", w[:200])
    return c


def wrap(mod):
    """Keeps the arguments of the last trace check."""
    real, kept = mod.tlc, {}

    def f(name, **k):
        if "env_vars" in k:
            kept["lines"] = [json.loads(l) for l in open(k["env_vars"]["TRACE"])]
            kept["args"] = (name, k)
        return real(name, **k)
    mod.tlc = f
    return real, kept


def damage(x):
    """One change somewhere in a list of outputs."""
    o = copy.deepcopy(x)
    how = rng.choice(["drop", "double", "field", "swap"])
    if how == "drop":
        o.pop(rng.randrange(len(o)))
    elif how == "double":
        o.insert(0, copy.deepcopy(rng.choice(o)))
    elif how == "swap":
        o.reverse()
    else:
        e = rng.choice(o)
        k = rng.choice(sorted(e))
        e[k] = {True: False, False: True}.get(e[k], 99) if isinstance(e[k], (bool, int)) else rng.choice(["a", "b", "x", "y", "-", "null", "hover"])
    return how, o


def server():
    chk = check("P03")
    real, kept = wrap(lspmodel)
    cs = lspmodel.consts("ab", "xy", [1, 2], ["hover", "completion"], ["v4", "v5"], ["sync", "query", "migrate", "lifecycle"], 2)
    lsp.campaign(chk, "corrupt", cs, "ab", 6, 6, 40)
    name, k = kept["args"]
    lines = kept["lines"]
    # every session on its own: corruption must not hide behind another session
    starts = [i for i, l in enumerate(lines) if l["a"]["a"] == "init"] + [len(lines)]
    got = {}
    for _ in range(N):
        s = rng.randrange(len(starts) - 1)
        part = lines[starts[s]:starts[s + 1]]
        ks = [i for i, l in enumerate(part) if l.get("o")]
        if not ks:
            continue
        i = rng.choice(ks)
        how, o = damage(part[i]["o"])
        if o == part[i]["o"]:
            continue
        bad = part[:i] + [dict(part[i], o=o)] + part[i + 1:]
        path = os.path.join(chk.dir, "bad.ndjson")
        open(path, "w").write("".join(json.dumps(l) + "\n" for l in bad))
        r = real(name, **dict(k, env_vars={"TRACE": path}))
        c = r.lines[-1]
        rejected = c["consumed"] < c["len"]
        got.setdefault(how, [0, 0])[0 if rejected else 1] += 1
        if not rejected:
            print("accepted:", how, json.dumps(part[i])[:300], "->", json.dumps(o)[:300])
    print("ServerTrace: corruption -> [rejected, accepted]", got)
    shutil.rmtree(chk.dir, ignore_errors=True)


def answers():
    chk = check("P17")
    real, kept = wrap(total)
    total.recorded(chk, ["#[ink::contract]\nmod c {\n    #[ink(storage)]\n    pub struct S {}\n    impl S {\n        #[ink(message, selector = 1)]\n        pub fn é(&self) {}\n    }\n}\n", "#[ink::trait_definition]\npub trait T { fn f(); }\n"] * 2)
    name, k = kept["args"]
    lines = kept["lines"]
    got = {}
    for _ in range(N):
        bad = copy.deepcopy(lines)
        l = rng.choice(bad)
        how = rng.choice(["digest", "range", "fail", "edits"])
        ev = rng.choice(l["ev"])
        if how == "digest":
            same = [e for e in l["ev"] if e["q"] == ev["q"]]
            if len(same) < 2:
                continue
            ev["digest"] += "0"
        elif how == "range":
            ev["ranges"] = ev["ranges"] + [rng.choice([[l["n"], l["n"] + 1], [3, 2]] + [[o, o] for o in l["holes"]])]
        elif how == "fail":
            ev["fail"] = "panic"
        else:
            ev["edits"] = ev["edits"] + [[[2, 5], [4, 6]]]
        path = os.path.join(chk.dir, "bad.ndjson")
        open(path, "w").write("".join(json.dumps(l) + "\n" for l in bad))
        try:
            r = real(name, **dict(k, env_vars={"TRACE": path}))
            rejected = any("why" in x for x in r.lines)
        except core.ToolError as e:
            rejected = f"tool error {str(e)[:80]}"
        got.setdefault(how, [0, 0])[0 if rejected else 1] += 1
        if not rejected:
            print("accepted:", how, ev)
    print("Answers: corruption -> [reported, not reported]", got)
    shutil.rmtree(chk.dir, ignore_errors=True)


server()
answers()
