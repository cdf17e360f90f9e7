//! Behaviours of the specification, run through the library.
//!
//! Every case names an operation, its input, and what the specification says
//! comes of it.  A run that differs is written down with its case.  What is
//! done with a case depends on the mode:
//!   compare   run it and compare with what the specification says
//!   total     run it; only a panic is a difference
//!   encode    encode every card it gives, decode that again and compare
//!   serde     the same through JSON
//!   fold      encode every card and write it down with its characters
//!   print     compare, and write down the text of what single values are read as
//!   first     compare the first card of a document with what the text is taken for
use crate::observe::*;
use crate::repr::{self, t, untext};
use crate::{build, make, props};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use vcard4::Vcard;

pub struct Stats {
    pub ran: usize,
    pub written: usize,
    /// cases for which the specification names the outcome
    pub decided: usize,
}

/// A document around one line.
pub fn frame(line: &str) -> String {
    let kind = if line.to_ascii_uppercase().contains("MEMBER") { "KIND:group\r\n" } else { "" };
    format!("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n{}{}\r\nEND:VCARD\r\n", kind, line)
}
fn bare(slot: &str, ty: &str, x: &str) -> Value {
    json!({"s": slot, "g": [], "n": [], "p": [], "t": ty, "x": [t(x)]})
}
fn order(slot: &Value) -> usize {
    let s = slot.as_str().unwrap_or("");
    crate::docs::SLOTS.iter().position(|(n, _)| *n == s).unwrap_or(usize::MAX)
}
/// The card of a document around one line: with the line's property or without.
fn framed(line: &str, p: Option<&Value>) -> Value {
    let mut c = vec![bare("FN", "text", "x")];
    if line.to_ascii_uppercase().contains("MEMBER") {
        c.push(bare("KIND", "kind", "group"));
    }
    if let Some(p) = p {
        c.push(p.clone());
    }
    c.sort_by_key(|p| order(&p["s"]));
    Value::Array(c)
}

fn differ(case: &Value, what: &str, got: Value) -> Option<Value> {
    let mut case = case.clone();
    if let Some(o) = case.as_object_mut() {
        o.remove("readable");
    }
    Some(json!({"op": "case", "what": what, "case": case, "got": got}))
}

/// The outcome the specification gives a decode or a line: "any", "ok" with cards, "err".
fn wanted(case: &Value, line: &str) -> (String, Value) {
    let w = &case["want"];
    if case["op"] == "decode" {
        return (w["res"].as_str().unwrap().into(), w["cards"].clone());
    }
    match (w["st"].as_str().unwrap(), case["strict"] == true) {
        ("ok", _) => ("ok".into(), json!([framed(line, Some(&w["p"]))])),
        ("err", true) => ("err".into(), json!([])),
        ("err", false) => ("ok".into(), json!([framed(line, None)])),
        _ => ("any".into(), json!([])),
    }
}

fn compare(case: &Value, s: &mut Stats) -> Option<Value> {
    let input = untext(&case["in"]);
    let strict = case["strict"] == true;
    match case["op"].as_str().unwrap() {
        "decode" | "line" => {
            let text = if case["op"] == "line" { frame(&input) } else { input.clone() };
            let o = run_decode(&text, strict);
            let (res, cards) = wanted(case, &input);
            if res == "any" {
                return if o.res() == "panic" { differ(case, "decoding panics", json!(o.why())) } else { None };
            }
            s.decided += 1;
            let got = outcome(&o);
            if o.res() != res {
                return differ(case, &format!("decoding is {} instead of {}", o.res(), res), got);
            }
            if res == "ok" && got["cards"] != cards {
                return differ(case, "decoded to other cards", got);
            }
            None
        }
        "iter" => {
            let got = iterate(&input, strict);
            let want = case["want"]["items"].as_array().unwrap();
            let have = got["items"].as_array().unwrap();
            s.decided += 1;
            for (k, w) in want.iter().enumerate() {
                if w["item"] == "open" {
                    return if have.iter().any(|h| h["item"] == "panic" || h["item"] == "endless") { differ(case, "iteration panics or is endless", got) } else { None };
                }
                let Some(h) = have.get(k) else { return differ(case, "an item is missing", got) };
                if h["item"] != w["item"] || (w["item"] == "card" && h["card"] != w["card"]) {
                    return differ(case, &format!("call {} of the iterator gives something else", k + 1), got);
                }
            }
            // behind the end there is nothing but the end
            if have.iter().skip(want.len()).any(|h| h["item"] != "end") {
                return differ(case, "the iterator does not stay ended", got);
            }
            None
        }
        "value" => {
            let got = props::value_fn(case["fn"].as_str().unwrap(), &input);
            let w = &case["want"];
            if w["res"] == "any" {
                return if got["res"] == "panic" { differ(case, "a parser panics", got) } else { None };
            }
            s.decided += 1;
            if got["res"] != w["res"] || (w["res"] == "ok" && got["v"] != w["v"]) {
                return differ(case, "another value", got);
            }
            None
        }
        "build" => {
            let got = build::build_case(case);
            s.decided += 1;
            // the builder is built anew for every prefix; only the last state is compared
            let have = got["states"].as_array().unwrap().last().cloned().unwrap_or_default();
            if got["res"] != "ok" || have != case["want"]["card"] {
                return differ(case, "the builder gives another card", got);
            }
            None
        }
        "same" => {
            let a = run_decode(&untext(&case["base"]), strict);
            let b = run_decode(&input, strict);
            s.decided += 1;
            if !props::outcome_eq(&a, &b) {
                return differ(case, "another folding or line ending gives another outcome", outcome(&b));
            }
            None
        }
        "photo" => {
            let c = make::card(&case["card"]);
            let got = props::photo(&c);
            let w = &case["want"];
            if w["st"] == "any" {
                return None;
            }
            s.decided += 1;
            if got["res"] != w["st"] || (w["st"] == "ok" && got["bytes"] != w["v"]) {
                return differ(case, "other bytes are extracted", got);
            }
            None
        }
        "validate" => {
            let c = make::card(&case["card"]);
            s.decided += 1;
            let got = match guard("validate", "", || c.validate().is_ok()) { Ok(true) => "ok", Ok(false) => "err", Err(_) => "panic" };
            if got != case["want"]["res"] {
                return differ(case, &format!("validation is {}", got), json!(got));
            }
            None
        }
        "encode" => {
            let c = make::card(&case["card"]);
            if repr::card(&c) != case["card"] {
                panic!("the harness cannot assemble {}", case["card"]);
            }
            s.decided += 1;
            round_trip(case, &c)
        }
        "serde" => {
            if !make::possible(&case["card"]) {
                return None;
            }
            let c = make::card(&case["card"]);
            s.decided += 1;
            through_json(case, &c)
        }
        "drop" => {
            s.decided += 1;
            memory(case)
        }
        o => panic!("cannot replay {}", o),
    }
}

/// The case of an iteration, of which only the first call matters.
fn first(case: &Value, s: &mut Stats) -> Option<Value> {
    let got = props::first(&untext(&case["in"]));
    let w = &case["want"]["items"][0];
    let res = match w["item"].as_str().unwrap() {
        _ if case["strict"] != true => return None,
        "open" => return if got["res"] == "panic" { differ(case, "taking the text for a card panics", got) } else { None },
        "card" => "ok",
        _ => "err",
    };
    s.decided += 1;
    if got["res"] != res || (res == "ok" && got["card"] != w["card"]) {
        return differ(case, "taken for another card", got);
    }
    None
}

/// Every card the library gets from a case, whether or not it is the one the
/// specification names.
fn cards_of(case: &Value) -> Result<Vec<Vcard>, String> {
    let input = untext(&case["in"]);
    let strict = case["strict"] == true;
    let text = match case["op"].as_str().unwrap() {
        "decode" => input,
        "line" => frame(&input),
        "build" | "value" | "iter" | "same" => return Ok(vec![]),
        _ if !make::possible(&case["card"]) => return Ok(vec![]),
        _ => return Ok(vec![make::card(&case["card"])]),
    };
    match run_decode(&text, strict) {
        Out::Panic(m) => Err(m),
        Out::Err => Ok(vec![]),
        Out::Cards(c) => Ok(c),
    }
}

fn round_trip(case: &Value, c: &Vcard) -> Option<Value> {
    let (v, _) = encode(c, false);
    if v["res"] != "ok" {
        return differ(case, "encoding panics", v);
    }
    if v["eq"] != true || v["back"]["cards"] != json!([v["card"]]) {
        return differ(case, "what is written does not decode to an equal card", v);
    }
    None
}
fn through_json(case: &Value, c: &Vcard) -> Option<Value> {
    let v = props::serde_record(c);
    if v["res"] != "ok" || v["eq"] != true || v["eq2"] != true || v["back"] != v["card"] || v["back2"] != v["card"] {
        return differ(case, "JSON does not give an equal card", v);
    }
    None
}
/// The marked texts which the specification calls private must not be left in
/// freed memory, whether the card was assembled or decoded.
fn memory(case: &Value) -> Option<Value> {
    let private: Vec<u32> = case["private"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u32).collect();
    for decoded in [false, true] {
        let (dirty, freed) = props::dropped(|| {
            let c = make::card(&case["card"]);
            if !decoded {
                return c;
            }
            let text = c.to_string();
            match guard("decode", "", || vcard4::parse(&text)) {
                Ok(Ok(mut v)) if v.len() == 1 => v.remove(0),
                _ => c,
            }
        });
        if freed == 0 && !private.is_empty() {
            panic!("nothing was freed");
        }
        let left: Vec<u32> = dirty.into_iter().filter(|i| private.contains(i)).collect();
        if !left.is_empty() {
            return differ(case, "text is left in freed memory", json!({"left": left, "decoded": decoded}));
        }
    }
    None
}

/// Runs the cases k with k % of == shard; cards encoded on the way are written
/// to the trace, one out of every.
pub fn replay(path: &str, mode: &str, f: &mut dyn Write, trace: Option<&mut dyn Write>, every: usize, shard: usize, of: usize) -> Stats {
    let mut s = Stats { ran: 0, written: 0, decided: 0 };
    let mut trace = trace;
    let mut encoded = 0usize;
    for (i, l) in std::io::BufReader::new(std::fs::File::open(path).unwrap()).lines().enumerate() {
        if i % of != shard {
            continue;
        }
        let l = l.unwrap();
        let c: Value = match serde_json::from_str(&l).unwrap() {
            // the model checker writes a text that holds the case
            Value::String(x) => serde_json::from_str(&x).unwrap(),
            v => v,
        };
        s.ran += 1;
        let out = match mode {
            "compare" => compare(&c, &mut s),
            "print" => {
                let d = compare(&c, &mut s);
                if let Some(v) = props::print_record(c["fn"].as_str().unwrap(), &untext(&c["in"])) {
                    encoded += 1;
                    if let Some(w) = trace.as_mut().filter(|_| (encoded + shard) % every == 0) {
                        writeln!(w, "{}", v).unwrap();
                    }
                }
                d
            }
            "first" => first(&c, &mut s),
            "total" => {
                let mut n = Stats { ran: 0, written: 0, decided: 0 };
                s.decided += 1;
                compare(&c, &mut n).filter(|d| {
                    let g = d["got"].to_string();
                    g.contains("\"panic\"") || g.contains("\"endless\"") || d["what"].as_str().unwrap().contains("panic")
                })
            }
            _ => match cards_of(&c) {
                Err(m) => differ(&c, "decoding panics", json!(m)),
                Ok(cards) => {
                    let mut r = None;
                    for card in &cards {
                        s.decided += 1;
                        if mode == "encode" || mode == "fold" {
                            encoded += 1;
                            if let Some(w) = trace.as_mut() {
                                if (encoded + shard) % every == 0 {
                                    let mut v = encode(card, mode == "fold").0;
                                    v["reads"] = json!(true);
                                    writeln!(w, "{}", v).unwrap();
                                }
                            }
                        }
                        r = match mode {
                            "encode" | "fold" => round_trip(&c, card),
                            "serde" => through_json(&c, card),
                            m => panic!("no mode {}", m),
                        };
                        if r.is_some() {
                            break;
                        }
                    }
                    r
                }
            },
        };
        if let Some(d) = out {
            s.written += 1;
            if s.written <= 200 {
                writeln!(f, "{}", d).unwrap();
            }
        }
    }
    s
}
