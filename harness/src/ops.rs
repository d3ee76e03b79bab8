//! Operations.
use ink_analyzer::{Action, Analysis, Completion, Diagnostic, TextEdit, TextRange, TextSize, Version};
use ink_analyzer_ir::syntax::SourceFile;
use serde_json::{json, Value};

pub fn version(job: &Value) -> Version {
    match job["v"].as_str() {
        Some("5") => Version::V5,
        _ => Version::V4,
    }
}

fn range(v: &Value) -> TextRange {
    TextRange::new(
        TextSize::from(v[0].as_u64().unwrap() as u32),
        TextSize::from(v[1].as_u64().unwrap() as u32),
    )
}

fn rj(r: TextRange) -> Value {
    json!([u32::from(r.start()), u32::from(r.end())])
}

pub fn edit_json(e: &TextEdit) -> Value {
    json!({"r": rj(e.range), "t": e.text, "sn": e.snippet})
}

pub fn action_json(a: &Action) -> Value {
    json!({
        "label": a.label, "kind": format!("{:?}", a.kind), "r": rj(a.range),
        "edits": a.edits.iter().map(edit_json).collect::<Vec<_>>()
    })
}

pub fn diag_json(d: &Diagnostic) -> Value {
    json!({
        "msg": d.message, "sev": format!("{:?}", d.severity), "r": rj(d.range),
        "fixes": d.quickfixes.as_ref().map(|q| q.iter().map(action_json).collect::<Vec<_>>())
    })
}

pub fn comp_json(c: &Completion) -> Value {
    json!({"label": c.label, "r": rj(c.range), "edit": edit_json(&c.edit), "kind": format!("{:?}", c.kind), "detail": c.detail})
}

/// Applies edits the way an LSP client does: all ranges refer to the original text.
pub fn apply(src: &str, edits: &[TextEdit]) -> Result<String, String> {
    let mut idx: Vec<usize> = (0..edits.len()).collect();
    idx.sort_by_key(|i| (edits[*i].range.start(), edits[*i].range.end(), *i));
    let mut out = String::new();
    let mut pos = 0usize;
    for i in idx {
        let e = &edits[i];
        let (s, t): (usize, usize) = (e.range.start().into(), e.range.end().into());
        if t > src.len() {
            return Err(format!("edit range {s}..{t} out of bounds ({})", src.len()));
        }
        if !src.is_char_boundary(s) || !src.is_char_boundary(t) {
            return Err(format!("edit range {s}..{t} splits a character"));
        }
        if s < pos {
            return Err(format!("edit range {s}..{t} overlaps a previous edit ending at {pos}"));
        }
        out.push_str(&src[pos..s]);
        out.push_str(&e.text);
        pos = t;
    }
    out.push_str(&src[pos..]);
    Ok(out)
}

fn n_errors(src: &str) -> usize {
    SourceFile::parse(src).errors().len()
}

pub fn run(job: &Value) -> Value {
    let src = job["src"].as_str().unwrap_or_default();
    match job["op"].as_str().unwrap() {
        "session" => crate::lsp::session(job),
        "diag" => {
            let a = Analysis::new(src, version(job));
            json!({"diags": a.diagnostics().iter().map(diag_json).collect::<Vec<_>>(), "errs": n_errors(src)})
        }
        // Diagnostics with messages/ranges/severities only.
        "diags" => {
            let a = Analysis::new(src, version(job));
            json!({"d": a.diagnostics().iter().map(|d| json!([d.message, format!("{:?}", d.severity), rj(d.range), d.quickfixes.as_ref().map_or(0, Vec::len)])).collect::<Vec<_>>()})
        }
        // For every quickfix of every diagnostic: apply it and re-analyze.
        "fixes" => {
            let v = version(job);
            let a = Analysis::new(src, v);
            let diags = a.diagnostics();
            let base_errs = n_errors(src);
            let mut res = Vec::new();
            for (i, d) in diags.iter().enumerate() {
                for (j, f) in d.quickfixes.iter().flatten().enumerate() {
                    let one = match apply(src, &f.edits) {
                        Err(e) => json!({"d": i, "f": j, "bad": e}),
                        Ok(text) => {
                            let b = Analysis::new(&text, v);
                            let after = b.diagnostics();
                            json!({"d": i, "f": j, "text": text, "errs": n_errors(&text),
                                   "after": after.iter().map(|d| json!([d.message, format!("{:?}", d.severity), rj(d.range)])).collect::<Vec<_>>() })
                        }
                    };
                    res.push(one);
                }
            }
            json!({"diags": diags.iter().map(diag_json).collect::<Vec<_>>(), "errs": base_errs, "res": res})
        }
        // Repeatedly applies the k-th (k = seed dependent) quickfix until none is left or `max` rounds.
        "converge" => {
            let v = version(job);
            let max = job["max"].as_u64().unwrap_or(40);
            let mut pick = job["seed"].as_u64().unwrap_or(0);
            let mut text = src.to_owned();
            let mut trace = Vec::new();
            for _ in 0..max {
                let a = Analysis::new(&text, v);
                let diags = a.diagnostics();
                let fixes: Vec<(&Diagnostic, &Action)> = diags
                    .iter()
                    .flat_map(|d| d.quickfixes.iter().flatten().map(move |f| (d, f)))
                    .collect();
                if fixes.is_empty() {
                    return json!({"text": text, "left": diags.iter().map(|d| json!([d.message, format!("{:?}", d.severity), rj(d.range)])).collect::<Vec<_>>(), "trace": trace, "done": true, "errs": n_errors(&text)});
                }
                let k = if job["seed"].is_null() { 0 } else { pick = pick.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((pick >> 33) as usize) % fixes.len() };
                let (d, f) = fixes[k];
                trace.push(json!([d.message, f.label, fixes.len()]));
                match apply(&text, &f.edits) {
                    Err(e) => return json!({"text": text, "bad": e, "trace": trace, "done": false}),
                    Ok(t) => text = t,
                }
            }
            json!({"text": text, "trace": trace, "done": false})
        }
        "comp" => {
            let a = Analysis::new(src, version(job));
            let at = job["at"].as_array().unwrap();
            json!({"r": at.iter().map(|o| a.completions(TextSize::from(o.as_u64().unwrap() as u32)).iter().map(comp_json).collect::<Vec<_>>()).collect::<Vec<_>>()})
        }
        "act" => {
            let a = Analysis::new(src, version(job));
            let at = job["at"].as_array().unwrap();
            json!({"r": at.iter().map(|o| a.actions(range(o)).iter().map(action_json).collect::<Vec<_>>()).collect::<Vec<_>>()})
        }
        "hover" => {
            let a = Analysis::new(src, version(job));
            let at = job["at"].as_array().unwrap();
            json!({"r": at.iter().map(|o| a.hover(range(o)).map(|h| json!({"r": rj(h.range), "c": h.content}))).collect::<Vec<_>>()})
        }
        "inlay" => {
            let a = Analysis::new(src, version(job));
            let r = if job["at"].is_null() { None } else { Some(range(&job["at"])) };
            json!({"r": a.inlay_hints(r).iter().map(|h| json!({"label": h.label, "p": u32::from(h.position), "r": rj(h.range), "detail": h.detail})).collect::<Vec<_>>()})
        }
        "sig" => {
            let a = Analysis::new(src, version(job));
            let at = job["at"].as_array().unwrap();
            json!({"r": at.iter().map(|o| a.signature_help(TextSize::from(o.as_u64().unwrap() as u32)).iter().map(|s| json!({
                "label": s.label, "r": rj(s.range), "detail": s.detail, "active": s.active_parameter,
                "params": s.parameters.iter().map(|p| json!({"r": rj(p.range), "detail": p.detail})).collect::<Vec<_>>()
            })).collect::<Vec<_>>()).collect::<Vec<_>>()})
        }
        "migrate" => {
            let a = Analysis::new(src, Version::V4);
            let edits = a.migrate();
            let text = apply(src, &edits);
            let (text, bad) = match text { Ok(t) => (Some(t), None), Err(e) => (None, Some(e)) };
            let after = text.as_deref().map(|t| Analysis::new(t, Version::V5).diagnostics().iter().map(|d| json!([d.message, format!("{:?}", d.severity), rj(d.range)])).collect::<Vec<_>>());
            let again = text.as_deref().map(|t| Analysis::new(t, Version::V4).migrate().iter().map(edit_json).collect::<Vec<_>>());
            json!({"edits": edits.iter().map(edit_json).collect::<Vec<_>>(), "text": text, "bad": bad, "after": after, "again": again,
                   "errs0": n_errors(src), "errs": text.as_deref().map(n_errors)})
        }
        "extract" => {
            let a = Analysis::new(src, version(job));
            let at = job["at"].as_array().unwrap();
            json!({"r": at.iter().map(|o| a.extract(range(o)).map(|x| json!({"name": x.name, "content": x.content, "edits": x.edits.iter().map(edit_json).collect::<Vec<_>>(), "import_offset": u32::from(x.import_offset), "import_indent": x.import_indent}))).collect::<Vec<_>>()})
        }
        "newproj" => match ink_analyzer::new_project(job["name"].as_str().unwrap().to_owned(), version(job)) {
            Ok(p) => json!({"lib": {"plain": p.lib.plain, "snippet": p.lib.snippet}, "cargo": {"plain": p.cargo.plain, "snippet": p.cargo.snippet}}),
            Err(e) => json!({"err": format!("{e:?}")}),
        },
        "selectors" => {
            use ink_analyzer_ir::{InkEntity, IsInkCallable, IsInkFn};
            use ink_analyzer_ir::ast::HasName;
            let a = Analysis::new(src, version(job));
            let mut out = Vec::new();
            for c in a.file().contracts() {
                for x in c.constructors() {
                    out.push(json!(["c", x.fn_item().and_then(|f| f.name()).map(|n| n.to_string()), x.composed_selector().map(|s| s.into_be_u32()), rj(x.syntax().text_range())]));
                }
                for x in c.messages() {
                    out.push(json!(["m", x.fn_item().and_then(|f| f.name()).map(|n| n.to_string()), x.composed_selector().map(|s| s.into_be_u32()), rj(x.syntax().text_range())]));
                }
            }
            json!({"r": out})
        }
        "parse" => json!({"errs": n_errors(src)}),
        "apply" => {
            let edits: Vec<TextEdit> = job["edits"].as_array().unwrap().iter().map(|e| TextEdit::new(e["t"].as_str().unwrap().to_owned(), range(&e["r"]), None)).collect();
            match apply(src, &edits) { Ok(t) => json!({"text": t, "errs": n_errors(&t)}), Err(e) => json!({"bad": e}) }
        }
        "all" => all(job, src),
        "probe" => probe(job, src),
        op => panic!("unknown op {op}"),
    }
}

/// Runs every query at every char boundary (or a stride) and reports panics and out-of-range results.
fn all(job: &Value, src: &str) -> Value {
    let v = version(job);
    let stride = job["stride"].as_u64().unwrap_or(1) as usize;
    let len = src.len();
    let a = Analysis::new(src, v);
    let mut bad: Vec<Value> = Vec::new();
    let mut n = 0u64;
    let ok_range = |r: TextRange| -> bool {
        let (s, e): (usize, usize) = (r.start().into(), r.end().into());
        e <= len && src.is_char_boundary(s) && src.is_char_boundary(e)
    };
    macro_rules! guard {
        ($name: expr, $at: expr, $body: expr) => {{
            n += 1;
            let r = crate::guarded(|| $body);
            if r.is_object() && r.get("panic").is_some() {
                bad.push(json!({"q": $name, "at": $at, "panic": r["panic"]}));
            } else if !r.is_null() {
                bad.push(json!({"q": $name, "at": $at, "range": r}));
            }
        }};
    }
    let chk_edits = |edits: &[TextEdit]| -> Option<String> { apply(src, edits).err() };
    guard!("diagnostics", Value::Null, {
        for d in a.diagnostics() {
            if !ok_range(d.range) { return json!(format!("{} {:?}", d.message, d.range)); }
            for f in d.quickfixes.iter().flatten() {
                if !ok_range(f.range) { return json!(format!("fix {} {:?}", f.label, f.range)); }
                if let Some(e) = chk_edits(&f.edits) { return json!(format!("fix {}: {e}", f.label)); }
            }
        }
        Value::Null
    });
    guard!("inlay", Value::Null, {
        for h in a.inlay_hints(None) {
            if !ok_range(h.range) || !ok_range(TextRange::empty(h.position)) { return json!(h.label); }
        }
        Value::Null
    });
    if v == Version::V4 {
        guard!("migrate", Value::Null, {
            match chk_edits(&a.migrate()) { Some(e) => json!(e), None => Value::Null }
        });
    }
    let offs: Vec<usize> = (0..=len).filter(|o| src.is_char_boundary(*o)).collect();
    let phase = job["phase"].as_u64().unwrap_or(0) as usize;
    for (k, o) in offs.iter().enumerate() {
        if (k + phase) % stride != 0 && *o != len { continue; }
        let p = TextSize::from(*o as u32);
        guard!("completions", *o, {
            for c in a.completions(p) {
                if !ok_range(c.range) || !ok_range(c.edit.range) { return json!(c.label); }
            }
            Value::Null
        });
        guard!("hover", *o, {
            match a.hover(TextRange::empty(p)) { Some(h) if !ok_range(h.range) => json!("hover range"), _ => Value::Null }
        });
        guard!("signature_help", *o, {
            for s in a.signature_help(p) {
                if !ok_range(s.range) { return json!("sig range"); }
                for q in &s.parameters {
                    let (x, y): (usize, usize) = (q.range.start().into(), q.range.end().into());
                    if y > s.label.len() || !s.label.is_char_boundary(x) || !s.label.is_char_boundary(y) { return json!("param range"); }
                }
                if s.active_parameter.is_some_and(|i| i >= s.parameters.len()) { return json!(format!("active parameter {:?} of {}", s.active_parameter, s.parameters.len())); }
            }
            Value::Null
        });
        guard!("actions", *o, {
            for x in a.actions(TextRange::empty(p)) {
                if !ok_range(x.range) { return json!(format!("{} {:?}", x.label, x.range)); }
                if let Some(e) = chk_edits(&x.edits) { return json!(format!("{}: {e}", x.label)); }
            }
            Value::Null
        });
        // A longer selection starting here.
        let q = offs[(k + 1 + (k * 7) % 40).min(offs.len() - 1)];
        guard!("actions-range", json!([*o, q]), {
            for x in a.actions(TextRange::new(p, TextSize::from(q as u32))) {
                if !ok_range(x.range) { return json!(format!("{} {:?}", x.label, x.range)); }
                if let Some(e) = chk_edits(&x.edits) { return json!(format!("{}: {e}", x.label)); }
            }
            Value::Null
        });
        guard!("extract", *o, { a.extract(TextRange::empty(p)); Value::Null });
    }
    bad.truncate(40);
    json!({"bad": bad, "n": n})
}

struct Answer {
    ranges: Vec<TextRange>,
    edits: Vec<Vec<TextRange>>,
    note: Option<String>,
    digest: u64,
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100000001b3))
}

fn answer(a: &Analysis, kind: &str, s: usize, e: usize) -> Answer {
    let r = TextRange::new(TextSize::from(s as u32), TextSize::from(e as u32));
    let p = r.start();
    let mut out = Answer { ranges: Vec::new(), edits: Vec::new(), note: None, digest: 0 };
    let rs = |edits: &[TextEdit]| edits.iter().map(|e| e.range).collect::<Vec<_>>();
    let text = match kind {
        "diagnostics" => {
            let d = a.diagnostics();
            for d in &d {
                out.ranges.push(d.range);
                for f in d.quickfixes.iter().flatten() {
                    out.ranges.push(f.range);
                    out.edits.push(rs(&f.edits));
                }
            }
            json!(d.iter().map(diag_json).collect::<Vec<_>>()).to_string()
        }
        "inlay" | "inlays" => {
            let h = a.inlay_hints((kind == "inlay").then_some(r));
            for h in &h {
                out.ranges.push(h.range);
                out.ranges.push(TextRange::empty(h.position));
            }
            format!("{h:?}")
        }
        "migrate" => {
            let m = a.migrate();
            out.edits.push(rs(&m));
            format!("{m:?}")
        }
        "completions" => {
            let c = a.completions(p);
            for c in &c {
                out.ranges.push(c.range);
                out.edits.push(vec![c.edit.range]);
            }
            format!("{c:?}")
        }
        "hover" => {
            let h = a.hover(r);
            out.ranges.extend(h.iter().map(|h| h.range));
            format!("{h:?}")
        }
        "signature" => {
            let g = a.signature_help(p);
            for g in &g {
                out.ranges.push(g.range);
                for q in &g.parameters {
                    let (x, y): (usize, usize) = (q.range.start().into(), q.range.end().into());
                    if y > g.label.len() || !g.label.is_char_boundary(x) || !g.label.is_char_boundary(y) {
                        out.note = Some("a parameter outside its label".to_owned());
                    }
                }
                if g.active_parameter.is_some_and(|i| i >= g.parameters.len()) {
                    out.note = Some(format!("active parameter {:?} of {}", g.active_parameter, g.parameters.len()));
                }
            }
            format!("{g:?}")
        }
        "actions" => {
            let x = a.actions(r);
            for x in &x {
                out.ranges.push(x.range);
                out.edits.push(rs(&x.edits));
            }
            format!("{x:?}")
        }
        "extract" => {
            let x = a.extract(r);
            if let Some(x) = &x {
                out.ranges.push(TextRange::empty(x.import_offset));
                out.edits.push(rs(&x.edits));
            }
            format!("{:?}", x.map(|x| (x.name, x.content, x.edits, x.import_offset, x.import_indent)))
        }
        k => panic!("unknown query {k}"),
    };
    out.digest = fnv(&text);
    out
}

/// Asks queries one after another: `qs` are [kind, start, end, instance]; answers come in the order asked.
/// Without `qs`, asks all kinds of queries at positions given by `stride` and `phase`, in three different orders and two instances,
/// and only reports what is wrong.
fn probe(job: &Value, src: &str) -> Value {
    let v = version(job);
    let len = src.len();
    let rr = |r: &TextRange| json!([u32::from(r.start()), u32::from(r.end())]);
    if let Some(qs) = job["qs"].as_array() {
        let inst: Vec<Analysis> = (0..2).map(|_| Analysis::new(src, v)).collect();
        let out: Vec<Value> = qs.iter().map(|q| {
            crate::guarded(|| {
                let x = answer(&inst[q[3].as_u64().unwrap() as usize], q[0].as_str().unwrap(), q[1].as_u64().unwrap() as usize, q[2].as_u64().unwrap() as usize);
                json!({"ranges": x.ranges.iter().map(rr).collect::<Vec<_>>(), "edits": x.edits.iter().map(|e| e.iter().map(rr).collect::<Vec<_>>()).collect::<Vec<_>>(),
                       "note": x.note.unwrap_or_default(), "digest": format!("{:016x}", x.digest)})
            })
        }).collect();
        return json!({"a": out});
    }
    let stride = job["stride"].as_u64().unwrap_or(1) as usize;
    let phase = job["phase"].as_u64().unwrap_or(0) as usize;
    let offs: Vec<usize> = (0..=len).filter(|o| src.is_char_boundary(*o)).collect();
    let mut qs: Vec<(&str, usize, usize)> = vec![("diagnostics", 0, 0), ("inlays", 0, 0)];
    if v == Version::V4 {
        qs.push(("migrate", 0, 0));
    }
    for (k, o) in offs.iter().enumerate() {
        if (k + phase) % stride != 0 && *o != len { continue; }
        let q = offs[(k + 1 + (k * 7) % 40).min(offs.len() - 1)];
        qs.extend([("completions", *o, *o), ("signature", *o, *o), ("hover", *o, *o), ("hover", *o, q), ("actions", *o, *o), ("actions", *o, q), ("extract", *o, q), ("inlay", *o, q)]);
    }
    let mut order: Vec<usize> = (0..qs.len()).collect();
    let mut seen: Vec<Option<u64>> = vec![None; qs.len()];
    let mut bad: Vec<Value> = Vec::new();
    let mut n = 0u64;
    let mut x = 0x9e3779b97f4a7c15u64 ^ (phase as u64);
    for pass in 0..2 {
        if pass > 0 {
            for i in (1..order.len()).rev() {
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                order.swap(i, (x % (i as u64 + 1)) as usize);
            }
        }
        let a = Analysis::new(src, v);
        for i in &order {
            let (k, s, e) = qs[*i];
            n += 1;
            let ok = |r: &TextRange| { let (s, e): (usize, usize) = (r.start().into(), r.end().into()); e <= len && src.is_char_boundary(s) && src.is_char_boundary(e) };
            let r = crate::guarded(|| {
                let w = answer(&a, k, s, e);
                let mut why = w.note.clone();
                if let Some(r) = w.ranges.iter().chain(w.edits.iter().flatten()).find(|r| !ok(r)) { why = Some(format!("range {r:?} outside the text or inside a character")); }
                for e in &w.edits {
                    let mut e = e.clone();
                    e.sort_by_key(|r| (r.start(), r.end()));
                    if e.windows(2).any(|p| p[1].start() < p[0].end()) { why = Some(format!("overlapping edits {e:?}")); }
                }
                if seen[*i].is_some_and(|d| d != w.digest) { why = Some("another answer than before".to_owned()); }
                seen[*i] = Some(w.digest);
                json!(why)
            });
            if !r.is_null() && bad.len() < 20 {
                bad.push(json!({"q": [k, s, e], "bad": r}));
            }
        }
    }
    json!({"bad": bad, "n": n})
}
