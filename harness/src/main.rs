//! Conformance harness: executes recorded/generated sessions against the real converter.
//!
//! usage: mc-harness IN.ndjson OUT.ndjson
//!
//! Each input line is a session:
//!   {"id":.., "config":{..}, "macros":[[name,body],..], "ops":[{"op":"global","src":"..","block":true}, ...]}
//! Each output line is the list of observations, one per operation.
use math_core::{ConvertResult, LatexError, LatexToMathML, MathCoreConfig, MathDisplay};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

fn disp(v: &Value) -> MathDisplay {
    if v.as_bool().unwrap_or(false) { MathDisplay::Block } else { MathDisplay::Inline }
}

fn obs(r: Result<ConvertResult, Box<LatexError>>, src: &str, reports: bool) -> Value {
    match r {
        Ok(c) => json!({"ok": c.mathml, "wref": c.warnings.has_undefined_references(),
                        "wcmd": c.warnings.has_unknown_commands(), "wany": c.warnings.has_any()}),
        Err(e) => obs_err(&e, src, reports),
    }
}

fn obs_err(e: &LatexError, src: &str, reports: bool) -> Value {
    let mut o = json!({"err": e.error_message(), "start": e.0.start, "end": e.0.end});
    let boundary = e.0.start <= src.len()
        && e.0.end <= src.len()
        && e.0.start <= e.0.end
        && src.is_char_boundary(e.0.start)
        && src.is_char_boundary(e.0.end);
    o["span_ok"] = json!(boundary);
    if reports {
        o["msg"] = match guarded(|| { let mut s = String::new(); e.to_message(&mut s, src); s }) { Ok(s) => json!(s), Err(p) => json!({"panic": p}) };
        for (k, block) in [("html", true), ("html_inline", false)] {
            o[k] = match guarded(|| e.to_html(src, if block { MathDisplay::Block } else { MathDisplay::Inline }, Some("my cls"))) { Ok(s) => json!(s), Err(p) => json!({"panic": p}) };
        }
        o["html_nocls"] = match guarded(|| e.to_html(src, MathDisplay::Inline, None)) { Ok(s) => json!(s), Err(p) => json!({"panic": p}) };
        o["label"] = json!(e.label());
        o["display"] = json!(e.to_string());
        o["report"] = match guarded(|| {
            let rep = e.to_report("input", false);
            let mut buf = Vec::new();
            rep.write(("input", ariadne::Source::from(src)), &mut buf).unwrap();
            String::from_utf8_lossy(&buf).into_owned()
        }) { Ok(s) => json!(s), Err(p) => json!({"panic": p}) };
    }
    o
}

fn run_session(s: &Value) -> Value {
    let mut cfg = s.get("config").cloned().unwrap_or(json!({}));
    let macros: Vec<(String, String)> = s.get("macros").map_or(Vec::new(), |m| serde_json::from_value(m.clone()).unwrap());
    if !cfg.is_object() { cfg = json!({}); }
    let mut config: MathCoreConfig = match serde_json::from_value(cfg) {
        Ok(c) => c,
        Err(e) => return json!({"new": {"badcfg": e.to_string()}}),
    };
    config.macros = macros;
    let reports = s.get("reports").and_then(Value::as_bool).unwrap_or(false);
    let conv = match guarded(|| LatexToMathML::new(config)) {
        Err(p) => return json!({"new": {"panic": p}}),
        Ok(Err((e, idx, def))) => {
            let mut o = obs_err(&e, &def, reports);
            o["idx"] = json!(idx);
            o["def"] = json!(def);
            return json!({"new": o});
        }
        Ok(Ok(c)) => c,
    };
    let mut conv = conv;
    let mut out = Vec::new();
    for op in s["ops"].as_array().map_or(&[][..], |v| v) {
        let kind = op["op"].as_str().unwrap_or("");
        let src = op.get("src").and_then(Value::as_str).unwrap_or("");
        let r = match kind {
            "global" => guarded(|| conv.convert_with_global_state(src, disp(&op["block"]))).map(|r| obs(r, src, reports)),
            "local" => guarded(|| conv.convert_with_local_state(src, disp(&op["block"]))).map(|r| obs(r, src, reports)),
            "reset" => guarded(|| { conv.reset_global_state(); json!({"ok": "", "wref": false, "wcmd": false, "wany": false}) }),
            "all" => {
                let items = op["items"].as_array().cloned().unwrap_or_default();
                let pairs: Vec<(String, MathDisplay)> = items.iter().map(|i| (i["src"].as_str().unwrap().to_string(), disp(&i["block"]))).collect();
                let refs: Vec<(&str, MathDisplay)> = pairs.iter().map(|(a, b)| (a.as_str(), *b)).collect();
                guarded(|| conv.convert_all(&refs)).map(|rs| {
                    json!({"all": rs.into_iter().zip(&pairs).map(|(r, p)| obs(r, &p.0, reports)).collect::<Vec<_>>()})
                })
            }
            _ => Ok(json!({"badop": kind})),
        };
        out.push(match r { Ok(v) => v, Err(p) => json!({"panic": p}) });
    }
    json!({"ops": out})
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{loc}: {msg}"));
    }));
    let args: Vec<String> = std::env::args().collect();
    let input = BufReader::new(std::fs::File::open(&args[1]).expect("input"));
    let lines: Vec<String> = input.lines().map(|l| l.unwrap()).collect();
    let out = std::fs::File::create(&args[2]).expect("output");
    let stack: usize = std::env::var("MC_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(256 << 20);
    std::thread::Builder::new().stack_size(stack).spawn(move || {
        let mut w = BufWriter::new(out);
        for (i, l) in lines.iter().enumerate() {
            if l.is_empty() { continue; }
            let s: Value = serde_json::from_str(l).expect("session json");
            let mut o = run_session(&s);
            o["id"] = s.get("id").cloned().unwrap_or(json!(i));
            writeln!(w, "{o}").unwrap();
            w.flush().unwrap();
        }
    }).unwrap().join().unwrap();
}
