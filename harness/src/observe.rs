//! Runs the library and records what it did as one JSON object per run.
use crate::repr::{self, t};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use vcard4::Vcard;

/// Operation under way, for the watchdog: start time in ms, 0 when idle.
pub static BUSY_SINCE: AtomicU64 = AtomicU64::new(0);
pub static CURRENT: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
pub static CURRENT_FILE: Mutex<Option<std::path::PathBuf>> = Mutex::new(None);
thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn current(c: &(String, String)) -> String {
    json!({"op": "total", "fn": c.0, "in": t(&c.1), "res": "hang", "why": ""}).to_string()
}
pub fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}
/// Run one piece of the library; Err says it panicked.
pub fn guard<T>(what: &str, input: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    if let Ok(mut c) = CURRENT.lock() {
        c.0.clear();
        c.0.push_str(what);
        c.1.clear();
        c.1.push_str(input);
        if let Some(p) = CURRENT_FILE.lock().unwrap().as_ref() {
            let _ = std::fs::write(p, current(&c).as_bytes());
        }
    }
    BUSY_SINCE.store(now_ms(), SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    BUSY_SINCE.store(0, SeqCst);
    r.map_err(|_| last_panic())
}

#[derive(Clone)]
pub enum Out {
    Cards(Vec<Vcard>),
    Err,
    Panic(String),
}
impl Out {
    pub fn res(&self) -> &'static str {
        match self {
            Out::Cards(_) => "ok",
            Out::Err => "err",
            Out::Panic(_) => "panic",
        }
    }
    pub fn cards(&self) -> &[Vcard] {
        match self {
            Out::Cards(c) => c,
            _ => &[],
        }
    }
    pub fn why(&self) -> String {
        match self {
            Out::Panic(m) => m.clone(),
            _ => String::new(),
        }
    }
}
pub fn run_decode(s: &str, strict: bool) -> Out {
    match guard("decode", s, || if strict { vcard4::parse(s) } else { vcard4::parse_loose(s) }) {
        Err(m) => Out::Panic(m),
        Ok(Err(_)) => Out::Err,
        Ok(Ok(c)) => Out::Cards(c),
    }
}
pub fn outcome(o: &Out) -> Value {
    json!({"res": o.res(), "cards": repr::cards(o.cards())})
}
pub fn decode(s: &str, strict: bool) -> (Value, Out) {
    let o = run_decode(s, strict);
    let mut v = json!({"op": "decode", "in": t(s), "strict": strict, "res": o.res(), "cards": repr::cards(o.cards())});
    if let Out::Panic(m) = &o {
        v["why"] = json!(m);
    }
    (v, o)
}

pub fn iterate(s: &str, strict: bool) -> Value {
    let cap = s.matches('\n').count() + 8;
    let items: RefCell<Vec<Value>> = RefCell::new(Vec::new());
    let none = json!([]);
    let r = guard("iter", s, || {
        let mut it = vcard4::iter(s, strict);
        let mut ended = 0;
        for _ in 0..cap {
            match it.next() {
                Some(Ok(c)) => items.borrow_mut().push(json!({"item": "card", "card": repr::card(&c)})),
                Some(Err(_)) => items.borrow_mut().push(json!({"item": "error", "card": none})),
                None => {
                    items.borrow_mut().push(json!({"item": "end", "card": none}));
                    ended += 1;
                    if ended == 3 {
                        return;
                    }
                }
            }
        }
        items.borrow_mut().push(json!({"item": "endless", "card": none}));
    });
    let mut items = items.into_inner();
    if let Err(m) = r {
        items.push(json!({"item": "panic", "card": [], "why": m}));
    }
    json!({"op": "iter", "in": t(s), "strict": strict, "items": items})
}

/// User-perceived characters of every content line of encoder output.
pub fn graphemes(out: &str) -> Value {
    use unicode_segmentation::UnicodeSegmentation;
    let un = out.replace("\r\n ", "");
    Value::Array(
        un.split("\r\n")
            .filter(|l| !l.is_empty())
            .map(|l| Value::Array(l.graphemes(true).map(t).collect()))
            .collect(),
    )
}
/// Encode a card and decode the result again.
pub fn encode(c: &Vcard, gr: bool) -> (Value, Option<String>) {
    let card = repr::card(c);
    match guard("encode", "", || c.to_string()) {
        Err(m) => (json!({"op": "encode", "card": card, "out": [], "gr": [], "res": "panic", "why": m,
            "back": {"res": "err", "cards": []}, "eq": false}), None),
        Ok(out) => {
            let back = run_decode(&out, true);
            let eq = back.cards().len() == 1 && &back.cards()[0] == c;
            (json!({"op": "encode", "card": card, "out": t(&out), "gr": if gr { graphemes(&out) } else { json!([]) },
                "res": "ok", "back": outcome(&back), "eq": eq}), Some(out))
        }
    }
}
