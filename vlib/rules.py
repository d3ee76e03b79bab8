"""Rendering abstract programs to text and comparing predicted with reported diagnostics."""
import contextlib, hashlib, json, re
from vlib.core import *


class Src:
    """Text under construction; named spans are byte ranges."""
    def __init__(self):
        self.b = bytearray()
        self.spans = {}

    def w(self, *parts):
        for t in parts:
            self.b += t.encode()
        return self

    @contextlib.contextmanager
    def span(self, *names):
        s = len(self.b)
        yield self
        for n in names:
            self.spans[n] = (s, len(self.b))

    def put(self, name, text):
        with self.span(name):
            self.w(text)
        return self

    @property
    def text(self):
        return self.b.decode()


def pick(key, n):
    """A stable pseudo-random choice that depends on the abstract case only."""
    return int(hashlib.sha256(key.encode()).hexdigest()[:8], 16) % n


def match(pred, obs, spans):
    """pred: list of (set of acceptable (message, severity), anchor names, optional); obs: list of [msg, sev, [s, e], nfix].
    Set semantics: every report is predicted at an anchor containing it; every prediction is reported."""
    problems = []
    used = set()
    for m, sev, (s, e), _ in obs:
        hit = False
        for i, (alts, anchor, *_rest) in enumerate(pred):
            if (m, sev) in alts and spans[anchor][0] <= s and e <= spans[anchor][1]:
                hit = True
                used.add(i)
        if not hit:
            problems.append(f"unexpected {sev.lower()} at {s}..{e}: {m}")
    for i, (alts, anchor, *rest) in enumerate(pred):
        if i not in used and not (rest and rest[0]):
            problems.append(f"missing at `{anchor}` {spans[anchor]}: " + " | ".join(sorted(a[0] for a in alts)))
    return problems


def run_cases(chk, cases, label, only=None):
    """cases: list of (key, src, version, pred, spans, cls). Analyses all and reports mismatches.
    only: regular expression, restricts the comparison to matching messages."""
    jobs = [{"op": "diags", "src": c[1], "v": str(c[2])} for c in cases]
    res = vh(jobs)
    bad = 0
    kinds = {}
    for (key, src, v, pred, spans, cls), r in zip(cases, res):
        chk.ok(key, cls)
        if "d" not in r:
            problems = [f"analysis failed: {r.get('panic')}"]
        else:
            problems = match(pred, [d for d in r["d"] if not only or only.search(d[0])], spans)
        if problems:
            bad += 1
            for x in problems:
                x = re.sub(r" at (`?)([a-z-]*)\d*:?[a-z/:-]*`?( \(\d+, \d+\))?(\d*\.\.\d+)?", r" at \2", x)[:140]
                kinds[x] = kinds.get(x, 0) + 1
            chk.violation(f"{label}:{h([key, v])}", f"{label} (ink! {v}): {'; '.join(problems)[:500]}\n--- source\n{src[:1500]}",
                          {"job": {"op": "diags", "src": src, "v": str(v)}, "result": r, "case": key})
    chk.traces += len(cases)
    chk.log(f"{label}: {len(cases)} programs, {bad} mismatches")
    for x, n in sorted(kinds.items(), key=lambda q: -q[1])[:6]:
        chk.log(f"    {n:6d} {x}")
    return res
