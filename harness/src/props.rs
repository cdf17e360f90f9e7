//! The runs recorded for each property.
use crate::alloc;
use crate::cards::{Gen, Plan};
use crate::docs::{self, Holds, Style};
use crate::observe::*;
use crate::repr::{self, t};
use crate::rng::Rng;
use serde_json::{json, Value};
use std::io::Write;
use vcard4::{property::*, Vcard};

pub struct Sink<'a> {
    pub out: &'a mut dyn Write,
    pub written: usize,
    pub ran: usize,
    pub limit: usize,
}
impl<'a> Sink<'a> {
    pub fn put(&mut self, v: Value) {
        self.ran += 1;
        self.written += 1;
        let _ = writeln!(self.out, "{}", v);
    }
    /// A run that is only written down when it is remarkable.
    pub fn note(&mut self, v: impl FnOnce() -> Value, remarkable: bool) {
        self.ran += 1;
        if remarkable {
            self.written += 1;
            let v = v();
            let _ = writeln!(self.out, "{}", v);
        }
    }
    pub fn full(&self) -> bool {
        self.written >= self.limit
    }
}

fn slot(name: &'static str) -> (&'static str, Holds) {
    *docs::SLOTS.iter().find(|(s, _)| *s == name).unwrap()
}
fn both(k: &mut Sink, s: &str) {
    for strict in [true, false] {
        k.put(decode(s, strict).0);
    }
}

// ---------------------------------------------------------------- C01
pub fn c01(r: &mut Rng, k: &mut Sink) {
    let fixed: Vec<String> = fixtures();
    let mut i = 0;
    while !k.full() {
        let s = if i < fixed.len() {
            fixed[i].clone()
        } else if i % 7 == 0 {
            let st = Style { fault: 0, ..Style::default() };
            let n = 1 + r.below(3);
            (0..n).map(|_| docs::doc(r, &st) + "\n").collect()
        } else if i % 7 == 1 {
            let d = docs::doc(r, &Style::default());
            docs::mutate(r, &d)
        } else if i % 7 == 2 {
            // one rich line at a time
            let (n, h) = *r.pick(docs::SLOTS);
            let l = docs::line_for(r, n, h, &Style { fault: 0, groups: 40, params: 4 });
            docs::simple(&[&l])
        } else if i % 7 == 3 {
            let d = docs::doc(r, &Style::default());
            docs::fold(r, &d, 4)
        } else {
            docs::doc(r, &Style { fault: 0, ..Style::default() })
        };
        i += 1;
        let strict = r.pct(60);
        let o = run_decode(&s, strict);
        k.ran += 1;
        for c in o.cards() {
            let mut v = encode(c, false).0;
            v["from"] = t(&s);
            v["strict"] = json!(strict);
            k.put(v);
        }
    }
}

// ---------------------------------------------------------------- C02
pub fn c02(r: &mut Rng, k: &mut Sink) {
    // A colon in a TZ parameter that is text: see known-findings.jsonl.
    let mut c = Vcard::new("x".into());
    let mut p = vcard4::parameter::Parameters::default();
    p.timezone = Some(vcard4::parameter::TimeZoneParameter::Text("a:b".into()));
    c.formatted_name[0].parameters = Some(p);
    let mut v = encode(&c, false).0;
    v["probe"] = json!("FN with the TZ parameter Text(a:b)");
    k.put(v);
    let mut i = 0usize;
    while !k.full() {
        let plan = match i % 4 {
            0 => {
                // every slot in turn, alone
                let s = docs::SLOTS[(i / 4) % docs::SLOTS.len()].0;
                Plan { props: 2, params: 60, groups: 40, slots: vec![s], ..Plan::default() }
            }
            1 => Plan { props: 12, ..Plan::default() },
            2 => Plan { props: 4, params: 90, ..Plan::default() },
            _ => Plan { props: 5, long: true, ..Plan::default() },
        };
        i += 1;
        let c = Gen::new(r, plan).card();
        k.put(encode(&c, false).0);
    }
}

// ---------------------------------------------------------------- C03
pub fn c03(r: &mut Rng, k: &mut Sink) {
    // every length around the limit, with characters of every width
    let units = ["a", "é", "日", "😀", "e\u{301}", "👩‍👩‍👧", "🇩🇪", "ab é", "Ω\u{93f}", "कि", "กำ", "\u{1100}\u{1161}\u{11a8}", "\u{600}1", "👍🏽", "❤️", "각"];
    let mut lens: Vec<(usize, usize)> = Vec::new();
    for u in 0..units.len() {
        for n in 60..=160 {
            lens.push((u, n));
        }
    }
    let mut order: Vec<usize> = (0..lens.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    let mut i = 0;
    while !k.full() {
        let (c, reads) = match i % 5 {
            0 | 1 | 2 => {
                let (u, n) = lens[order[(i / 5 * 3 + i % 5) % order.len()]];
                let mut s = "x".repeat(r.below(4));
                while s.len() < n {
                    s.push_str(units[u]);
                    if r.pct(3) {
                        s.push_str(*r.pick(&units));
                    }
                }
                if r.pct(10) {
                    // one oversized user-perceived character
                    s.push('e');
                    for _ in 0..r.below(60) {
                        s.push('\u{301}');
                    }
                }
                let mut c = Vcard::default();
                c.formatted_name.push("x".to_string().into());
                let mut p: TextProperty = s.into();
                if r.pct(30) {
                    p.group = Some("item1".into());
                }
                match r.below(4) {
                    0 => c.title.push(p),
                    1 => c.email.push(p),
                    2 => c.nickname.push(p),
                    _ => c.note.push(p),
                }
                (c, true)
            }
            3 => (Gen::new(r, Plan { props: 3, long: true, params: 60, ..Plan::default() }).card(), false),
            _ => (Gen::new(r, Plan { props: 3, params: 80, ..Plan::default() }).card(), false),
        };
        i += 1;
        let mut v = encode(&c, true).0;
        v["reads"] = json!(reads);
        k.put(v);
    }
}

// ---------------------------------------------------------------- C04
pub fn outcome_eq(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Cards(x), Out::Cards(y)) => x == y && repr::cards(x) == repr::cards(y),
        (Out::Err, Out::Err) => true,
        _ => false,
    }
}
fn same_record(s: &str, variants: Vec<String>, strict: bool) -> Value {
    let base = run_decode(s, strict);
    let it = iterate(s, strict);
    let vs: Vec<Value> = variants
        .iter()
        .map(|x| {
            let o = run_decode(x, strict);
            let it2 = iterate(x, strict);
            json!({"in": t(x), "res": o.res(), "eq": outcome_eq(&base, &o), "iter": it["items"] == it2["items"]})
        })
        .collect();
    json!({"op": "same", "in": t(s), "strict": strict, "res": base.res(), "variants": vs})
}
pub fn c04(r: &mut Rng, k: &mut Sink) {
    let mut i = 0;
    while !k.full() {
        let st = Style { fault: if i % 3 == 0 { 6 } else { 0 }, groups: 30, params: 3 };
        let n = 1 + r.below(2);
        let ls = docs::body(r, n, &st);
        let mut s = docs::wrap(r, &ls);
        if i % 6 == 5 {
            s = docs::mutate(r, &s);
        }
        if i % 6 == 4 {
            s.push('\n');
            s.push_str(&docs::doc(r, &st));
        }
        // carriage returns that are not part of a line break would become one
        if s.replace("\r\n", "\n").contains('\r') {
            i += 1;
            continue;
        }
        let cs: Vec<char> = s.chars().collect();
        let mut variants = Vec::new();
        match i % 3 {
            0 => {
                // a fold at every single place of one line
                let places: Vec<usize> = (1..=cs.len()).filter(|p| docs::fold_place(&cs, *p)).collect();
                let from = r.below(places.len().max(1));
                for p in places.iter().skip(from).take(24) {
                    let f = *r.pick(&["\n ", "\r\n ", "\n\t", "\r\n\t"]);
                    let mut v = cs.clone();
                    v.splice(*p..*p, f.chars());
                    variants.push(v.into_iter().collect());
                }
            }
            1 => {
                for _ in 0..8 {
                    let n = 1 + r.below(12);
                    variants.push(docs::fold(r, &s, n));
                }
            }
            _ => {
                let lf = s.replace("\r\n", "\n");
                let crlf = lf.replace('\n', "\r\n");
                let f1 = docs::fold(r, &lf, 5);
                let f2 = docs::fold(r, &crlf, 5);
                let mut mixed = String::new();
                for c in lf.chars() {
                    if c == '\n' && r.pct(50) {
                        mixed.push('\r');
                    }
                    mixed.push(c);
                }
                variants.extend([lf, crlf, f1, f2, mixed]);
            }
        }
        i += 1;
        k.put(same_record(&s, variants, r.pct(60)));
    }
}

// ---------------------------------------------------------------- C05
fn total(what: &str, input: &str, res: &str, why: &str) -> Value {
    json!({"op": "total", "fn": what, "in": t(input), "res": res, "why": why})
}
fn try_fn<T>(k: &mut Sink, n: &mut usize, what: &str, input: &str, f: impl FnOnce() -> T) -> Option<T> {
    let r = guard(what, input, f);
    *n += 1;
    let sampled = *n % 37 == 0;
    let (res, why) = match &r {
        Ok(_) => ("ok", String::new()),
        Err(m) => ("panic", m.clone()),
    };
    k.note(|| total(what, input, res, &why), sampled || res != "ok");
    r.ok()
}
fn parsers(k: &mut Sink, n: &mut usize, s: &str) {
    use vcard4::helper::*;
    use vcard4::parameter::*;
    macro_rules! go { ($($f:expr, $name:literal);* $(;)?) => { $( try_fn(k, n, $name, s, || { let _ = $f; }); )* } }
    go! {
        parse_utc_offset(s), "parse_utc_offset";
        parse_time_list(s), "parse_time_list";
        parse_time(s), "parse_time";
        parse_date_list(s), "parse_date_list";
        parse_date(s), "parse_date";
        parse_date_time_list(s), "parse_date_time_list";
        parse_date_time(s), "parse_date_time";
        parse_timestamp(s), "parse_timestamp";
        parse_timestamp_list(s), "parse_timestamp_list";
        parse_date_and_or_time_list(s), "parse_date_and_or_time_list";
        parse_boolean(s), "parse_boolean";
        parse_integer_list(s), "parse_integer_list";
        parse_float_list(s), "parse_float_list";
        s.parse::<vcard4::Uri>().map(|u| u.to_string()), "Uri";
        s.parse::<vcard4::Date>().map(|u| u.to_string()), "Date";
        s.parse::<vcard4::DateTime>().map(|u| u.to_string()), "DateTime";
        s.parse::<DateAndOrTime>().map(|u| u.to_string()), "DateAndOrTime";
        s.parse::<DeliveryAddress>().map(|u| u.to_string()), "DeliveryAddress";
        s.parse::<ClientPidMap>().map(|u| u.to_string()), "ClientPidMap";
        s.parse::<UtcOffsetProperty>().map(|u| u.to_string()), "UtcOffsetProperty";
        s.parse::<Kind>().map(|u| u.to_string()), "Kind";
        s.parse::<Gender>().map(|u| u.to_string()), "Gender";
        s.parse::<Sex>().map(|u| u.to_string()), "Sex";
        s.parse::<TypeParameter>().map(|u| u.to_string()), "TypeParameter";
        s.parse::<Pid>().map(|u| u.to_string()), "Pid";
        s.parse::<RelatedType>().map(|u| u.to_string()), "RelatedType";
        s.parse::<TelephoneType>().map(|u| u.to_string()), "TelephoneType";
        s.parse::<ValueType>().map(|u| u.to_string()), "ValueType";
        Vcard::try_from(s).map(|u| u.to_string()), "Vcard::try_from";
    }
}
fn everything(k: &mut Sink, n: &mut usize, s: &str) {
    for strict in [true, false] {
        let what = if strict { "parse" } else { "parse_loose" };
        let o = run_decode(s, strict);
        *n += 1;
        let sampled = *n % 37 == 0;
        let why = o.why();
        k.note(|| total(what, s, o.res(), &why), sampled || o.res() == "panic");
        for c in o.cards() {
            try_fn(k, n, "encode", s, || c.to_string());
            try_fn(k, n, "validate", s, || c.validate().is_ok());
            try_fn(k, n, "parse_photo_jpeg", s, || c.parse_photo_jpeg().is_ok());
            try_fn(k, n, "debug", s, || format!("{:?}", c).len());
            #[cfg(feature = "serde")]
            try_fn(k, n, "serialize", s, || serde_json::to_string(c).map(|x| x.len()).map_err(|e| e.to_string()));
        }
        let it = iterate(s, strict);
        *n += 1;
        let last = it["items"].as_array().unwrap().last().cloned().unwrap_or_default();
        let res = match last["item"].as_str().unwrap_or("") {
            "panic" => "panic",
            "endless" => "endless",
            _ => "ok",
        };
        let sampled = *n % 37 == 0;
        k.note(|| total(if strict { "iter" } else { "iter_loose" }, s, res, ""), sampled || res != "ok");
    }
}
pub fn c05(r: &mut Rng, k: &mut Sink) {
    let mut n = 0usize;
    // every faulty line, alone and cut at every place
    for l in docs::FAULTY {
        everything(k, &mut n, &docs::simple(&[l]));
    }
    for s in docs::DATES_OK.iter().chain(docs::DATES_BAD).chain(docs::TIMES_OK).chain(docs::TIMES_BAD).chain(docs::OFFS_OK)
        .chain(docs::OFFS_BAD).chain(docs::URIS).chain(docs::NOT_URIS).chain(docs::FRAGS).chain(docs::INTS).chain(docs::FLOATS).chain(docs::SPECIAL)
    {
        parsers(k, &mut n, s);
        // cut and extended by wide characters at every place
        let cs: Vec<char> = s.chars().collect();
        for i in 0..=cs.len() {
            let head: String = cs[..i].iter().collect();
            let tail: String = cs[i..].iter().collect();
            parsers(k, &mut n, &head);
            parsers(k, &mut n, &tail);
            for c in ["é", "😀", "-", "T", "\u{301}", "+"] {
                parsers(k, &mut n, &format!("{}{}{}", head, c, tail));
            }
        }
    }
    let mut i = 0;
    while !k.full() {
        let s = match i % 6 {
            0 => {
                let n = r.below(12);
                (0..n).map(|_| if r.pct(50) { *r.pick(docs::SPECIAL) } else { *r.pick(docs::FRAGS) }).collect::<String>()
            }
            1 => {
                let (nm, h) = *r.pick(docs::SLOTS);
                let st = Style { fault: 20, groups: 30, params: 4 };
                let l = docs::line_for(r, nm, h, &st);
                let l = docs::mutate(r, &l);
                docs::simple(&[&l])
            }
            2 => {
                let l = r.pick(docs::FAULTY).to_string();
                docs::simple(&[&docs::mutate(r, &l)])
            }
            3 => {
                // cut anywhere
                let d = docs::doc(r, &Style::default());
                let cs: Vec<char> = d.chars().collect();
                let at = r.below(cs.len() + 1);
                cs[..at].iter().collect()
            }
            4 => {
                let d = docs::doc(r, &Style { fault: 10, ..Style::default() });
                let f = docs::fold(r, &d, 6);
                docs::mutate(r, &f)
            }
            _ => {
                let d = docs::doc(r, &Style { fault: 10, ..Style::default() });
                docs::mutate(r, &d)
            }
        };
        i += 1;
        everything(k, &mut n, &s);
        if i % 3 == 0 {
            let f = match r.below(6) {
                0 => docs::date(r),
                1 => docs::time(r),
                2 => docs::date_time(r),
                3 => docs::timestamp(r),
                4 => docs::offset(r),
                _ => r.pick(docs::FRAGS).to_string(),
            };
            parsers(k, &mut n, &docs::mutate(r, &f));
            // built cards with anything at all in them
            let c = Gen::new(r, Plan { props: 5, ..Plan::default() }).card();
            try_fn(k, &mut n, "encode built", "", || c.to_string());
            try_fn(k, &mut n, "validate built", "", || c.validate().is_ok());
            // wide stretches without line breaks
            if i % 300 == 0 {
                let piece = r.pick(docs::SPECIAL).repeat(4000);
                everything(k, &mut n, &docs::simple(&[&format!("NOTE:{}", piece)]));
                everything(k, &mut n, &piece);
            }
        }
        if k.ran > k.limit * 60 {
            break;
        }
    }
}

// ---------------------------------------------------------------- C06
const FRAME: &[&str] = &[
    "BEGIN:VCARD", "begin:vcard", "Begin:VCard", "END:VCARD", "end:vcard", "End:vCard", "VERSION:4.0", "VERSION:3.0", "version:3.0",
    "FN:x", "NOTE:y", "KIND:group", "MEMBER:urn:a:b", "", "END:VCARD", "VERSION:4.0", "BEGIN:VCARD", "FN:z", "FOO:x", "VERSION:2.1", "BEGIN:VCALENDAR",
    "END:VCALENDAR", "item1.END:VCARD", "END :VCARD", " ", "X-A:b", "BEGIN:VCARD ", "\u{feff}BEGIN:VCARD", "NOTE:END:VCARD", "NOTE:BEGIN:VCARD", "END:VCARD\u{1}",
];
const VERSIONS: &[&str] = &[
    "VERSION:4.1", "VERSION:3.1", "VERSION:3.2", "VERSION:4", "VERSION:3", "VERSION:40", "VERSION: 4.0", "VERSION:4.0 ", "VERSION:5.0", "VERSION:4.00",
    "VERSION:2.1", "VERSION:1.0", "VERSION:", "VERSION:4.0.0", "VERSION:04.0", "VERSION:4,0", "VERSION:34.0", "VERSION:4.03", "VERSION", "VERSION;VALUE=text:4.0",
    "VERSIO:4.0", "VERSIONS:4.0", "item1.VERSION:4.0", "VERSION:3.0", "version:4.0", "Version:4.0", "VERSION:4.0;x", "VERSION:4.0\\", "VERSION:\u{ff14}.0",
    "XVERSION:4.0", "VERSION:4.0VERSION:4.0", "VERSION:3.5", "VERSION:3.9", "VERSION:4.9", "VERSION:0.4",
];
const BEGINS: &[&str] = &[
    "BEGIN:VCARD", "begin:vcard", "BEGIN:VCARDS", "BEGIN:VCAR", "BEGIN", "BEGIN:", "BEGIN;X=1:VCARD", "BEGIN:VCALENDAR", "XBEGIN:VCARD", "BEGIN: VCARD",
    "BEGINS:VCARD", "item1.BEGIN:VCARD", "BEGIN:VCARD;", "BEGIN:X-VCARD", "END:VCARD", "BEGIN:XVCARD", "BEGIN.VCARD",
];
const ENDS: &[&str] = &[
    "END:VCARD", "end:vcard", "END:VCARDS", "END:VCAR", "END", "END:", "END;X=1:VCARD", "END:VCALENDAR", "XEND:VCARD", "END: VCARD", "item1.END:VCARD", "END:VCARD;",
    "BEGIN:VCARD", "ENDS:VCARD", "X-END:VCARD", "END.VCARD",
];
pub fn c06(r: &mut Rng, k: &mut Sink) {
    let mut i = 0;
    while !k.full() {
        let s = match i % 4 {
            0 => {
                // a correct frame with one line moved, removed, doubled or inserted
                let mut ls: Vec<String> = Vec::new();
                for _ in 0..1 + r.below(3) {
                    ls.push("BEGIN:VCARD".into());
                    ls.push(if r.pct(80) { r.pick(&["VERSION:4.0", "VERSION:3.0"]) } else { r.pick(VERSIONS) }.to_string());
                    let n = 1 + r.below(3);
                    ls.extend(docs::body(r, n, &Style { fault: 0, groups: 20, params: 1 }));
                    ls.push("END:VCARD".into());
                    for _ in 0..r.below(3) {
                        ls.push(String::new());
                    }
                }
                for _ in 0..r.below(3) {
                    let at = r.below(ls.len() + 1);
                    match r.below(5) {
                        0 if at < ls.len() => { ls.remove(at); }
                        1 if at < ls.len() => { let l = ls[at].clone(); ls.insert(at, l); }
                        2 if at < ls.len() => { let l = ls.remove(at); let b = r.below(ls.len() + 1); ls.insert(b, l); }
                        _ => { let l = r.pick(FRAME).to_string(); ls.insert(at, l); }
                    }
                }
                let mut s = ls.join(docs::eol(r));
                if r.pct(80) { s.push_str(docs::eol(r)) }
                s
            }
            1 if r.pct(50) => {
                // a right card but for one line of its frame
                let at = r.below(3);
                let l = [*r.pick(BEGINS), *r.pick(VERSIONS), *r.pick(ENDS)][at].to_string();
                let mut ls = vec!["BEGIN:VCARD".to_string(), "VERSION:4.0".into(), "FN:x".into(), "END:VCARD".into()];
                let l = if r.pct(40) { docs::mutate(r, &l.clone()) } else { l };
                ls[[0, 1, 3][at]] = l;
                let mut s = ls.join(docs::eol(r)) + docs::eol(r);
                if r.pct(30) { s = format!("{}{}", docs::simple(&["NOTE:y"]), s) }
                s
            }
            1 => {
                let n = 1 + r.below(8);
                let ls: Vec<&str> = (0..n).map(|_| *r.pick(FRAME)).collect();
                ls.join("\n") + if r.pct(70) { "\n" } else { "" }
            }
            2 => {
                let d = docs::simple(&["NOTE:y", "TEL:1"]);
                let d = if r.pct(50) { d.replace('\n', "\r\n") } else { d };
                docs::mutate(r, &d)
            }
            _ => {
                let l = *r.pick(docs::FAULTY);
                let mut ls = vec!["NOTE:y", "TEL:1"];
                ls.insert(r.below(3), l);
                docs::simple(&ls)
            }
        };
        i += 1;
        k.put(decode(&s, true).0);
        if i % 5 == 0 {
            k.put(decode(&s, false).0);
        }
    }
}

// ---------------------------------------------------------------- C07
pub fn c07(r: &mut Rng, k: &mut Sink) {
    let mut i = 0;
    while !k.full() {
        let mut s = String::new();
        let n = 1 + r.below(4);
        for _ in 0..r.below(3) {
            s.push_str(docs::eol(r));
        }
        for _ in 0..n {
            let m = 1 + r.below(2);
            let mut ls = docs::body(r, m, &Style { fault: 2, groups: 10, params: 1 });
            if r.pct(35) {
                let at = r.below(ls.len() + 1);
                ls.insert(at, r.pick(docs::FAULTY).to_string());
            }
            let mut d = docs::wrap(r, &ls);
            if r.pct(12) {
                d = docs::mutate(r, &d);
            }
            if r.pct(12) {
                d = docs::fold(r, &d, 3);
            }
            s.push_str(&d);
            if !s.ends_with('\n') && r.pct(90) {
                s.push_str(docs::eol(r));
            }
            for _ in 0..r.below(3) {
                s.push_str(docs::eol(r));
            }
            if r.pct(10) {
                s.push_str(*r.pick(&["junk\n", "END:VCARD\n", "BEGIN:VCARD\n", "FN:x\n", "\u{1}\n", "é", "BEGIN:VCARD", "\n \n", "\r"]));
            }
        }
        i += 1;
        let _ = i;
        let strict = r.pct(60);
        k.put(iterate(&s, strict));
    }
}

// ---------------------------------------------------------------- C08
pub fn c08(r: &mut Rng, k: &mut Sink) {
    let mut i = 0;
    while !k.full() {
        let n = 1 + r.below(4);
        let mut ls = docs::body(r, n, &Style { fault: 6, groups: 15, params: 2 });
        for _ in 0..r.below(4) {
            let l = match r.below(3) {
                0 => r.pick(docs::FAULTY).to_string(),
                1 => {
                    let s = *r.pick(docs::ONCE);
                    let (n, h) = slot(s);
                    docs::line_for(r, n, h, &Style { fault: 5, groups: 10, params: 1 })
                }
                _ => {
                    let d = docs::line(r, &Style { fault: 30, groups: 10, params: 2 });
                    if r.pct(40) { docs::mutate(r, &d).replace(['\n', '\r'], "") } else { d }
                }
            };
            let at = r.below(ls.len() + 1);
            ls.insert(at, l);
        }
        let mut s = docs::wrap(r, &ls);
        if i % 5 == 0 {
            s.push('\n');
            s.push_str(&docs::doc(r, &Style { fault: 10, ..Style::default() }));
        }
        if i % 7 == 0 {
            s = docs::fold(r, &s, 3);
        }
        i += 1;
        k.put(decode(&s, false).0);
        if i % 4 == 0 {
            k.put(decode(&s, true).0);
        }
    }
}

// ---------------------------------------------------------------- C09
pub fn c09(r: &mut Rng, k: &mut Sink) {
    let mut i = 0;
    while !k.full() {
        if i % 3 == 2 {
            // validation of built cards
            let mut c = Gen::new(r, Plan { props: 4, params: 10, groups: 10, slots: vec!["KIND", "MEMBER", "FN", "NOTE", "N", "NICKNAME"], ..Plan::default() }).card();
            if r.pct(35) { c.formatted_name.clear() }
            match r.below(6) {
                0 => c.kind = None,
                1 => c.kind = Some(r.pick(&[Kind::Individual, Kind::Org, Kind::Location, Kind::Group]).clone().into()),
                2 => c.member.clear(),
                _ => {}
            }
            let card = repr::card(&c);
            let res = match guard("validate", "", || c.validate().is_ok()) { Ok(true) => "ok", Ok(false) => "err", Err(_) => "panic" };
            k.put(json!({"op": "validate", "card": card, "res": res}));
        } else {
            let mut ls: Vec<String> = Vec::new();
            let st = Style { fault: 0, groups: 15, params: 1 };
            for _ in 0..r.below(3) {
                ls.push(docs::line(r, &st));
            }
            for _ in 0..1 + r.below(3) {
                let (n, h) = slot(*r.pick(docs::ONCE));
                for _ in 0..1 + r.below(2) {
                    let l = if r.pct(75) { format!("{}:{}", docs::cased(r, n), good(r, h)) } else { docs::line_for(r, n, h, &st) };
                    let at = r.below(ls.len() + 1);
                    ls.insert(at, l);
                }
            }
            for _ in 0..r.below(3) {
                let at = r.below(ls.len() + 1);
                ls.insert(at, r.pick(&["FN:x", "fn:y", "MEMBER:urn:a:b", "member:urn:a:c", "KIND:group", "KIND:org", "item1.KIND:group", "KIND;X-A=1:group", "FN:"]).to_string());
            }
            if r.pct(70) { ls.push("FN:last".into()) }
            let s = docs::wrap(r, &ls);
            both(k, &s);
        }
        i += 1;
    }
}
fn good(r: &mut Rng, h: Holds) -> String {
    match h {
        Holds::Kind => r.pick(&["individual", "group", "org", "location"]).to_string(),
        Holds::Dt => r.pick(&["19850412", "T102200", "19850412T102200Z", "--0412"]).to_string(),
        Holds::Ts => "19951031T222710Z".into(),
        Holds::Gender => r.pick(&["M", "F;x", ";y", ""]).to_string(),
        _ => docs::value(r, h, ""),
    }
}

// ---------------------------------------------------------------- C10
pub fn c10(r: &mut Rng, k: &mut Sink) {
    let mut i = 0;
    while !k.full() {
        let st = Style { fault: 0, groups: 60, params: 1 };
        let (n, h) = docs::SLOTS[i % docs::SLOTS.len()];
        let mut ls = Vec::new();
        match (i / docs::SLOTS.len()) % 4 {
            0 => ls.push(docs::line_for(r, n, h, &st)),
            1 => {
                for _ in 0..2 + r.below(3) {
                    ls.push(docs::line_for(r, n, h, &st));
                    if r.pct(30) { ls.push(docs::line(r, &st)); }
                }
            }
            2 => {
                // names that are close to a known one
                let l = docs::line_for(r, n, h, &Style { params: 0, ..st.clone() });
                let at = l.find(':').unwrap_or(0);
                let c = *r.pick(&["S", "-", "X", "1", ".", " ", "é", "X-", "_", "", "ſ", "\u{212a}"]);
                let p = r.below(at + 1);
                if l.is_char_boundary(p) { ls.push(format!("{}{}{}", &l[..p], c, &l[p..])) } else { ls.push(l) }
            }
            _ => {
                let l = docs::line_for(r, n, h, &Style { params: 0, groups: 0, fault: 0 });
                let g = *r.pick(&["", ".", "a.b.", "a..", "-.", "é.", "a_b.", "item1.", " .", "X-A.", "FN.", "x.", "TZ.", "GEO.", "tz.", "NOTE.", "0.", "END.", "BEGIN.", "VERSION."]);
                ls.push(format!("{}{}", g, l));
            }
        }
        i += 1;
        let refs: Vec<&str> = ls.iter().map(|s| s.as_str()).collect();
        let s = docs::simple(&refs);
        k.put(decode(&s, true).0);
        if i % 9 == 0 { k.put(decode(&s, false).0); }
        if i % 5 == 0 {
            let st = Style { fault: 0, groups: 50, params: 1 };
            let d = { let n = 5 + r.below(8); let b = docs::body(r, n, &st); docs::wrap(r, &b) };
            k.put(decode(&d, true).0);
        }
    }
}

// ---------------------------------------------------------------- C11
pub fn c11(r: &mut Rng, k: &mut Sink) {
    let mut i = 0;
    while !k.full() {
        let (n, h) = *r.pick(docs::SLOTS);
        let fault = match i % 3 { 0 => 0, 1 => 8, _ => 30 };
        let mut l = String::new();
        if r.pct(20) { l.push_str("item1.") }
        l.push_str(if h == Holds::Private { "X-FOO" } else { n });
        for _ in 0..1 + r.below(if i % 3 == 2 { 2 } else { 5 }) {
            l.push_str(&docs::param(r, if h == Holds::Private { "X-FOO" } else { n }, fault));
        }
        if i % 11 == 0 { l = docs::mutate(r, &l).replace(['\n', '\r'], "") }
        l.push(':');
        l.push_str(&if h == Holds::Adr { ";;;;;;x".into() } else if h == Holds::Gender { "M".into() } else if h == Holds::Uri { "urn:a:b".into() } else if h == Holds::PidMap { "1;urn:a:b".into() } else { good(r, h) });
        let mut ls = vec![l];
        if i % 6 == 0 { ls.push(docs::line(r, &Style { fault: 0, groups: 20, params: 3 })) }
        i += 1;
        let refs: Vec<&str> = ls.iter().map(|s| s.as_str()).collect();
        let s = docs::simple(&refs);
        k.put(decode(&s, true).0);
        if i % 7 == 0 { k.put(decode(&s, false).0); }
    }
}

// ---------------------------------------------------------------- C12
pub fn c12(r: &mut Rng, k: &mut Sink) {
    use Holds::*;
    let slots: Vec<(&'static str, Holds)> = docs::SLOTS.iter().copied().filter(|(_, h)| matches!(h, TextUri | Photo | Dt | Tz | Private)).collect();
    let mut i = 0;
    while !k.full() {
        let (n, h) = if i % 2 == 0 { slot("X-FOO") } else { *r.pick(&slots) };
        let name = if h == Private { r.pick(docs::NAMES_X).to_string() } else { docs::cased(r, n) };
        let vt = if r.pct(12) { String::new() } else if h == Private || r.pct(25) { r.pick(docs::VTYPES).to_string() } else { docs::vt_for(r, h) };
        let val = if r.pct(80) { docs::value_for_type(r, if vt.is_empty() { "text" } else { &vt }) } else { let o = r.pick(docs::VTYPES).to_string(); docs::value_for_type(r, &o) };
        let mut ps = String::new();
        let extra = r.pct(25);
        if extra { ps.push_str(&docs::param(r, "X-FOO", 0)) }
        if !vt.is_empty() { let w = docs::cased(r, &vt); ps.push_str(&docs::write_param(r, "VALUE", &w)) }
        let l = format!("{}{}:{}", name, ps, val);
        i += 1;
        let s = docs::simple(&[&l]);
        k.put(decode(&s, true).0);
        if i % 5 == 0 { k.put(decode(&s, false).0); }
        if i % 4 == 0 {
            let (f, x) = match r.below(4) {
                0 => ("parse_boolean", docs::value_for_type(r, "boolean")),
                1 => ("parse_integer_list", docs::value_for_type(r, "integer")),
                2 => ("parse_float_list", docs::value_for_type(r, "float")),
                _ => ("Uri", docs::value_for_type(r, "uri")),
            };
            k.put(value_fn(f, &x));
        }
    }
}

/// Direct call of a public value parser.
/// A type without the prefix that tells its vocabulary.
fn word(t: vcard4::parameter::TypeParameter) -> String {
    repr::type_s(&t).split_once(':').map(|(_, w)| w.to_string()).unwrap_or_default()
}
/// The text of what a text is read as, for the types that can be written.
fn printed(f: &str, s: &str) -> Option<String> {
    macro_rules! as_text { ($($n:literal => $t:ty),* $(,)?) => { match f { $( $n => s.parse::<$t>().ok().map(|x| x.to_string()), )*
        "UriProperty" => UriProperty::try_from(s).ok().map(|x| x.to_string()), _ => None } } }
    as_text! {
        "UtcOffsetProperty" => UtcOffsetProperty, "DateAndOrTime" => DateAndOrTime, "Uri" => vcard4::Uri, "Date" => vcard4::Date,
        "DateTime" => vcard4::DateTime, "RelatedType" => vcard4::parameter::RelatedType, "TelephoneType" => vcard4::parameter::TelephoneType,
        "DeliveryAddress" => DeliveryAddress, "Gender" => Gender, "ClientPidMap" => ClientPidMap, "Kind" => Kind, "Sex" => Sex,
        "Pid" => vcard4::parameter::Pid, "ValueType" => vcard4::parameter::ValueType, "TypeParameter" => vcard4::parameter::TypeParameter,
    }
}
/// A text read and written again: what was read, and what is written.
pub fn print_record(f: &str, s: &str) -> Option<Value> {
    let v = value_fn(f, s);
    if v["res"] != "ok" {
        return None;
    }
    match guard(f, s, || printed(f, s)) {
        Ok(None) => None,
        Ok(Some(out)) => Some(json!({"op": "print", "fn": f, "in": t(s), "v": v["v"], "res": "ok", "out": t(&out)})),
        Err(m) => Some(json!({"op": "print", "fn": f, "in": t(s), "v": v["v"], "res": "panic", "out": [], "why": m})),
    }
}
/// The card a text is taken for.
pub fn first(s: &str) -> Value {
    match guard("Vcard::try_from", s, || Vcard::try_from(s)) {
        Ok(Ok(c)) => json!({"op": "first", "in": t(s), "res": "ok", "card": repr::card(&c)}),
        Ok(Err(_)) => json!({"op": "first", "in": t(s), "res": "err", "card": []}),
        Err(m) => json!({"op": "first", "in": t(s), "res": "panic", "card": [], "why": m}),
    }
}

// ---------------------------------------------------------------- C24
pub fn c24(r: &mut Rng, k: &mut Sink) {
    const FNS: &[(&str, &str)] = &[
        ("Uri", "uri"), ("UriProperty", "uri"), ("parse_boolean", "boolean"), ("parse_integer_list", "integer"), ("parse_float_list", "float"),
        ("parse_date_list", "date"), ("parse_time_list", "time"), ("parse_date_time_list", "date-time"), ("parse_timestamp_list", "timestamp"),
        ("parse_date_and_or_time_list", "date-and-or-time"), ("parse_utc_offset", "utc-offset"), ("UtcOffsetProperty", "utc-offset"),
        ("DateAndOrTime", "date-and-or-time"), ("parse_date", "date"), ("parse_time", "time"), ("parse_date_time", "date-time"), ("parse_timestamp", "timestamp"),
    ];
    let mut i = 0;
    while !k.full() {
        i += 1;
        let (f, mut x) = match i % 12 {
            0..=4 => {
                let (f, vt) = r.pick(FNS);
                (*f, docs::value_for_type(r, vt))
            }
            5 => ("Gender", format!("{}{}", r.pick(&["M", "F", "O", "N", "U", "", "m", "MF"]), if r.pct(60) { format!(";{}", docs::text(r)) } else { String::new() })),
            6 => ("DeliveryAddress", (0..5 + r.below(5)).map(|_| docs::escape(&docs::text(r), true)).collect::<Vec<_>>().join(";")),
            7 => ("ClientPidMap", format!("{};{}", r.pick(&["1", "2", "0", "18446744073709551615", "18446744073709551616", "-1", "x"]), docs::uri(r))),
            8 => {
                let w = *r.pick(&["home", "work", "cell", "text", "me", "co-worker", "x-", "X-yz", "agent", "pager", "date", "other", "-"]);
                (*r.pick(&["TypeParameter", "RelatedType", "TelephoneType"]), docs::cased(r, w))
            }
            9 => {
                let (f, w) = *r.pick(&[("Kind", "group"), ("Kind", "individual"), ("Kind", "org"), ("Kind", "location"), ("Sex", "M"), ("Sex", "U"), ("ValueType", "uri"),
                    ("ValueType", "utc-offset"), ("ValueType", "language-tag"), ("ValueType", "date-and-or-time"), ("Pid", "1.2"), ("Pid", "18446744073709551615"), ("Pid", "3")]);
                (f, if f == "ValueType" { docs::cased(r, w) } else { w.to_string() })
            }
            10 => {
                let mut g = Gen::new(r, Plan::default());
                if g.r.pct(50) {
                    let d: vcard4::Date = g.date().into();
                    ("Date", d.to_string())
                } else {
                    let d: vcard4::DateTime = g.date_time().into();
                    ("DateTime", d.to_string())
                }
            }
            _ => {
                let st = Style { fault: 4, groups: 10, params: 1 };
                let mut s = docs::doc(r, &st);
                if r.pct(40) {
                    s.push_str(&docs::doc(r, &st));
                }
                if r.pct(20) {
                    s = docs::mutate(r, &s);
                }
                if r.pct(20) {
                    s = format!("{}{}", docs::eol(r), s);
                }
                k.put(first(&s));
                continue;
            }
        };
        if r.pct(15) {
            x = docs::mutate(r, &x);
        }
        k.put(value_fn(f, &x));
        if let Some(p) = print_record(f, &x) {
            k.put(p);
        }
    }
}
pub fn value_fn(f: &str, s: &str) -> Value {
    use vcard4::helper::*;
    let one = |x: String| json!([t(&x)]);
    let many = |x: Vec<String>| Value::Array(x.iter().map(|s| t(s)).collect());
    let r = guard(f, s, || -> Option<Value> {
        match f {
            "parse_utc_offset" => parse_utc_offset(s).ok().map(|o| one(repr::off_s(&o))),
            "UtcOffsetProperty" => s.parse::<UtcOffsetProperty>().ok().map(|o| one(repr::off_s(&o.value))),
            "parse_time" => parse_time(s).ok().map(|x| one(repr::time_s(&x))),
            "parse_time_list" => parse_time_list(s).ok().map(|v| many(v.iter().map(repr::time_s).collect())),
            "parse_date" => parse_date(s).ok().map(|x| one(repr::date_s(&x.into()))),
            "parse_date_list" => parse_date_list(s).ok().map(|v| many(v.iter().map(|d| repr::date_s(&(d.clone()).into())).collect())),
            "parse_date_time" => parse_date_time(s).ok().map(|x| one(repr::dt_s(x.as_ref()))),
            "parse_date_time_list" => parse_date_time_list(s).ok().map(|v| many(v.iter().map(|x| repr::dt_s(x.as_ref())).collect())),
            "parse_timestamp" => parse_timestamp(s).ok().map(|x| one(repr::dt_s(x.as_ref()))),
            "parse_timestamp_list" => parse_timestamp_list(s).ok().map(|v| many(v.iter().map(|x| repr::dt_s(x.as_ref())).collect())),
            "parse_date_and_or_time_list" => parse_date_and_or_time_list(s).ok().map(|v| many(v.iter().map(repr::daot_s).collect())),
            "DateAndOrTime" => s.parse::<DateAndOrTime>().ok().map(|x| one(repr::daot_s(&x))),
            "parse_boolean" => parse_boolean(s).ok().map(|b| one(b.to_string())),
            "parse_integer_list" => parse_integer_list(s).ok().map(|v| many(v.iter().map(|x| x.to_string()).collect())),
            "parse_float_list" => parse_float_list(s).ok().map(|v| many(v.iter().map(|x| x.to_string()).collect())),
            "Uri" => s.parse::<vcard4::Uri>().ok().map(|u| one(repr::uri_s(&u))),
            "DeliveryAddress" => s.parse::<DeliveryAddress>().ok().map(|a| repr::adr_x(&a)),
            "Gender" => s.parse::<Gender>().ok().map(|g| repr::gender_x(&g)),
            "ClientPidMap" => s.parse::<ClientPidMap>().ok().map(|c| json!([t(&c.source.to_string()), t(&repr::uri_s(&c.uri))])),
            "Kind" => s.parse::<Kind>().ok().map(|x| one(repr::kind_s(&x).into())),
            "Sex" => s.parse::<Sex>().ok().map(|x| one(repr::sex_s(&x).into())),
            "Pid" => s.parse::<vcard4::parameter::Pid>().ok().map(|x| one(repr::pid_s(&x))),
            "ValueType" => s.parse::<vcard4::parameter::ValueType>().ok().map(|x| one(repr::vt_s(&x).into())),
            "TypeParameter" => s.parse::<vcard4::parameter::TypeParameter>().ok().map(|x| one(repr::type_s(&x))),
            "RelatedType" => s.parse::<vcard4::parameter::RelatedType>().ok().map(|x| one(word(vcard4::parameter::TypeParameter::Related(x)))),
            "TelephoneType" => s.parse::<vcard4::parameter::TelephoneType>().ok().map(|x| one(word(vcard4::parameter::TypeParameter::Telephone(x)))),
            "Date" => s.parse::<vcard4::Date>().ok().map(|x| one(repr::date_s(x.as_ref()))),
            "DateTime" => s.parse::<vcard4::DateTime>().ok().map(|x| one(repr::dt_s(x.as_ref()))),
            "UriProperty" => UriProperty::try_from(s).ok().filter(|u| u.group.is_none() && u.parameters.is_none()).map(|u| one(repr::uri_s(&u.value))),
            _ => panic!("unknown function {}", f),
        }
    });
    match r {
        Ok(Some(v)) => json!({"op": "value", "fn": f, "in": t(s), "res": "ok", "v": v}),
        Ok(None) => json!({"op": "value", "fn": f, "in": t(s), "res": "err", "v": []}),
        Err(m) => json!({"op": "value", "fn": f, "in": t(s), "res": "panic", "v": [], "why": m}),
    }
}

// ---------------------------------------------------------------- C13
pub fn c13(r: &mut Rng, k: &mut Sink) {
    let mut i = 0;
    while !k.full() {
        let (f, vt, x) = match i % 8 {
            0 => ("parse_date", "date", docs::date(r)),
            1 => ("parse_time", "time", docs::time(r)),
            2 => ("parse_date_time", "date-time", docs::date_time(r)),
            3 => ("parse_timestamp", "timestamp", docs::timestamp(r)),
            4 => ("parse_utc_offset", "utc-offset", docs::offset(r)),
            5 => ("DateAndOrTime", "date-and-or-time", docs::date_and_or_time(r)),
            6 => ("parse_time", "time", docs::time(r)),
            _ => ("UtcOffsetProperty", "utc-offset", docs::offset(r)),
        };
        let x = if i % 23 == 0 { docs::mutate(r, &x).replace(['\n', '\r'], "") } else { x };
        i += 1;
        k.put(value_fn(f, &x));
        if i % 3 == 0 {
            let l = match (vt, r.below(4)) {
                ("date-and-or-time", 0) => format!("ANNIVERSARY:{}", x),
                ("date-and-or-time", 1) => format!("BDAY;VALUE=date-and-or-time:{}", x),
                ("date-and-or-time", 2) => format!("BDAY:{}", x),
                ("timestamp", 0 | 1) => format!("REV:{}", x),
                ("utc-offset", 0) => format!("TZ;VALUE=utc-offset:{}", x),
                ("utc-offset", 1) => format!("NOTE;TZ={}:x", x),
                (_, 3) => format!("X-FOO;VALUE={}:{},{}", vt, x, docs::value_for_type(r, vt)),
                _ => format!("X-FOO;VALUE={}:{}", vt, x),
            };
            k.put(decode(&docs::simple(&[&l]), true).0);
        }
        if i % 10 == 0 {
            let f = *r.pick(&["parse_date_list", "parse_time_list", "parse_date_time_list", "parse_timestamp_list", "parse_date_and_or_time_list"]);
            let x = docs::value_for_type(r, match f { "parse_date_list" => "date", "parse_time_list" => "time", "parse_date_time_list" => "date-time", "parse_timestamp_list" => "timestamp", _ => "date-and-or-time" });
            k.put(value_fn(f, &x));
        }
    }
}

// ---------------------------------------------------------------- C14
pub fn c14(r: &mut Rng, k: &mut Sink) {
    let slots = ["BDAY", "ANNIVERSARY", "REV", "TZ", "X-FOO"];
    let mut i = 0;
    while !k.full() {
        let mut c = Vcard::new("x".into());
        let mut g = Gen::new(r, Plan { props: 1, params: 0, groups: 0, ..Plan::default() });
        match i % 12 {
            0 => c.bday = Some(DateAndOrTimeProperty::from_list(g.daot())),
            1 => c.anniversary = Some(DateAndOrTimeProperty::from_list(g.daot())),
            2 => c.rev = Some(vcard4::DateTime::from(g.date_time()).into()),
            3 => {
                let mut p: UtcOffsetProperty = g.offset().into();
                p.parameters = Some({ let mut n = vcard4::parameter::Parameters::default(); n.value = Some(vcard4::parameter::ValueType::UtcOffset); n });
                c.timezone.push(TimeZoneProperty::UtcOffset(p));
            }
            4..=8 => {
                use vcard4::parameter::ValueType as V;
                let (vt, v) = match i % 12 {
                    4 => (V::Date, AnyProperty::Date((0..1 + g.r.below(3)).map(|_| g.date().into()).collect())),
                    5 => (V::DateTime, AnyProperty::DateTime((0..1 + g.r.below(3)).map(|_| g.date_time().into()).collect())),
                    6 => (V::Time, AnyProperty::Time((0..1 + g.r.below(3)).map(|_| (g.clock(), g.offset())).collect())),
                    7 => (V::DateAndOrTime, AnyProperty::DateAndOrTime((0..1 + g.r.below(3)).map(|_| g.daot()).collect())),
                    _ => (V::Timestamp, AnyProperty::Timestamp((0..1 + g.r.below(3)).map(|_| g.date_time().into()).collect())),
                };
                c.extensions.push(ExtensionProperty { name: "X-T".into(), group: None, value: v, parameters: Some({ let mut n = vcard4::parameter::Parameters::default(); n.value = Some(vt); n }) });
            }
            9 => {
                let o = g.offset();
                c.extensions.push(ExtensionProperty { name: "X-T".into(), group: None, value: AnyProperty::UtcOffset(o), parameters: Some({ let mut n = vcard4::parameter::Parameters::default(); n.value = Some(vcard4::parameter::ValueType::UtcOffset); n }) });
            }
            10 => {
                let o = g.offset();
                let mut p: TextProperty = "n".to_string().into();
                p.parameters = Some({ let mut n = vcard4::parameter::Parameters::default(); n.timezone = Some(vcard4::parameter::TimeZoneParameter::UtcOffset(o)); n });
                c.note.push(p);
            }
            _ => {
                g.plan = Plan { props: 4, params: 40, groups: 20, slots: slots.to_vec(), ..Plan::default() };
                // text is another property's business
                c = g.card();
                c.formatted_name = vec!["x".to_string().into()];
                strip_text(&mut c);
            }
        }
        i += 1;
        k.put(encode(&c, false).0);
        if i % 3 == 0 {
            let mut g = Gen::new(r, Plan::default());
            let (f, canon, shown) = match i % 4 {
                0 => { let v = g.daot(); ("show DateAndOrTime", repr::daot_s(&v), guard("show", "", || v.to_string())) }
                1 => { let o = g.offset(); let p: UtcOffsetProperty = o.into(); ("show UtcOffsetProperty", repr::off_s(&o), guard("show", "", || p.to_string())) }
                2 => { let d = g.date(); let x: vcard4::Date = d.into(); ("show Date", repr::date_s(&d), guard("show", "", || x.to_string())) }
                _ => { let d = g.date_time(); let x: vcard4::DateTime = d.into(); ("show DateTime", repr::dt_s(&d), guard("show", "", || x.to_string())) }
            };
            let res = if shown.is_ok() { "ok" } else { "panic" };
            k.put(json!({"op": "show", "fn": f, "in": t(&canon), "res": res, "out": t(&shown.unwrap_or_default())}));
        }
    }
}
fn strip_text(c: &mut Vcard) {
    c.timezone.retain(|p| matches!(p, TimeZoneProperty::UtcOffset(_)));
    if matches!(c.bday, Some(DateTimeOrTextProperty::Text(_))) { c.bday = None }
    if matches!(c.anniversary, Some(DateTimeOrTextProperty::Text(_))) { c.anniversary = None }
    c.extensions.retain(|p| !matches!(p.value, AnyProperty::Text(_) | AnyProperty::Language(_) | AnyProperty::Uri(_) | AnyProperty::Integer(_) | AnyProperty::Float(_) | AnyProperty::Boolean(_)));
    fn keep(p: &mut Option<vcard4::parameter::Parameters>) {
        if let Some(q) = p.take() {
            let tz = match &q.timezone { Some(vcard4::parameter::TimeZoneParameter::UtcOffset(o)) => Some(vcard4::parameter::TimeZoneParameter::UtcOffset(*o)), _ => None };
            let n = { let mut n = vcard4::parameter::Parameters::default(); n.value = q.value.clone(); n.timezone = tz; n };
            if n != Default::default() { *p = Some(n) }
        }
    }
    for p in c.extensions.iter_mut() { keep(&mut p.parameters) }
    for p in c.timezone.iter_mut() { if let TimeZoneProperty::UtcOffset(p) = p { keep(&mut p.parameters) } }
    if let Some(p) = c.rev.as_mut() { keep(&mut p.parameters) }
    for b in [c.bday.as_mut(), c.anniversary.as_mut()].into_iter().flatten() {
        if let DateTimeOrTextProperty::DateTime(p) = b { keep(&mut p.parameters) }
    }
}
trait FromOne {
    fn from_list(v: DateAndOrTime) -> DateTimeOrTextProperty;
}
impl FromOne for DateAndOrTimeProperty {
    fn from_list(v: DateAndOrTime) -> DateTimeOrTextProperty {
        DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty { value: vec![v], group: None, parameters: None })
    }
}

// ---------------------------------------------------------------- C15
pub fn c15(r: &mut Rng, k: &mut Sink) {
    let slots = ["N", "ORG", "ADR", "CATEGORIES", "GENDER", "CLIENTPIDMAP", "KIND"];
    let mut i = 0;
    while !k.full() {
        let (n, h) = slot(slots[i % slots.len()]);
        match (i / slots.len()) % 3 {
            0 | 1 => {
                let l = docs::line_for(r, n, h, &Style { fault: 0, groups: 15, params: 1 });
                k.put(decode(&docs::simple(&[&l]), true).0);
            }
            _ => {
                let c = Gen::new(r, Plan { props: 2, params: 20, groups: 20, slots: vec![n], ..Plan::default() }).card();
                k.put(encode(&c, false).0);
            }
        }
        if i % 4 == 0 {
            let (f, h) = *r.pick(&[("DeliveryAddress", Holds::Adr), ("ClientPidMap", Holds::PidMap), ("Kind", Holds::Kind), ("Sex", Holds::Kind)]);
            let x = if f == "Sex" { r.pick(&["M", "F", "O", "N", "U", "", "X", "MM", "é", " M"]).to_string() } else { docs::value(r, h, "") };
            k.put(value_fn(f, &x));
        }
        i += 1;
    }
}

// ---------------------------------------------------------------- C16
pub fn c16(r: &mut Rng, k: &mut Sink) {
    let slots = ["NOTE", "FN", "TITLE", "XML", "NICKNAME", "ROLE", "EMAIL", "PRODID", "TEL", "BDAY", "TZ", "X-FOO", "UID", "KEY", "RELATED", "PHOTO", "N", "ORG", "CATEGORIES", "ADR", "GENDER"];
    let mut i = 0;
    while !k.full() {
        let s = slots[(i / 3) % slots.len()];
        match i % 3 {
            0 => {
                let v = docs::raw(r);
                let v = if r.pct(10) { docs::mutate(r, &v).replace('\n', "") } else { v };
                let p = if ["TEL", "BDAY", "TZ", "X-FOO", "UID", "KEY", "RELATED", "PHOTO"].contains(&s) { ";VALUE=text" } else { "" };
                // in a structured value, as one of its components
                let v = match s { "ADR" => format!(";;{};a;;;", v), "GENDER" => format!("M;{}", v), "N" | "ORG" => format!("a;{}", v), "CATEGORIES" => format!("{},b", v), _ => v };
                k.put(decode(&docs::simple(&[&format!("{}{}:{}", s, p, v)]), true).0);
            }
            _ => {
                let (n, _) = slot(s);
                let c = Gen::new(r, Plan { props: 2, params: 15, groups: 10, slots: vec![n], ..Plan::default() }).card();
                k.put(encode(&c, false).0);
            }
        }
        i += 1;
    }
}

// ---------------------------------------------------------------- C17
/// What is left in freed memory when the card is dropped.
pub fn dropped(get: impl FnOnce() -> Vcard) -> (Vec<u32>, usize) {
    use std::sync::atomic::Ordering::SeqCst;
    alloc::CLEAN.store(true, SeqCst);
    let c = get();
    let r = alloc::drop_scanned(c);
    alloc::CLEAN.store(false, SeqCst);
    r
}
pub fn c17(r: &mut Rng, k: &mut Sink) {
    use std::sync::atomic::Ordering::SeqCst;
    let mut i = 0;
    while !k.full() {
        alloc::CLEAN.store(true, SeqCst);
        let (n, _) = docs::SLOTS[i % docs::SLOTS.len()];
        let slots = if i % 3 == 2 { vec![] } else { vec![n] };
        let mut g = Gen::new(r, Plan { props: if i % 3 == 2 { 6 } else { 2 }, params: 100, groups: 100, slots, marker: true, ..Plan::default() });
        let c = g.card();
        let (exempt, mut private) = (g.exempt.clone(), g.private.clone());
        let via = i % 2 == 1;
        // a decoded card holds the same texts in buffers of its own
        let c = if via {
            match guard("decode", "", || vcard4::parse(c.to_string())) {
                Ok(Ok(mut v)) if v.len() == 1 => v.remove(0),
                _ => c,
            }
        } else {
            c
        };
        // only what the card really holds counts
        let shown = format!("{:?}", c);
        private.retain(|(id, _)| shown.contains(&alloc::marker(*id)));
        let (dirty, freed) = alloc::drop_scanned(c);
        alloc::CLEAN.store(false, SeqCst);
        i += 1;
        k.put(json!({"op": "drop", "decoded": via, "freed": freed,
            "private": private.iter().map(|(i, w)| json!({"id": i, "at": w})).collect::<Vec<_>>(),
            "exempt": exempt, "dirty": dirty}));
    }
}

// ---------------------------------------------------------------- C18
#[cfg(feature = "serde")]
pub fn c18(r: &mut Rng, k: &mut Sink) {
    let mut i = 0;
    while !k.full() {
        let c = if i % 3 == 0 {
            let d = docs::doc(r, &Style { fault: 0, ..Style::default() });
            match run_decode(&d, false) {
                Out::Cards(mut v) if !v.is_empty() => v.remove(0),
                _ => { i += 1; continue }
            }
        } else if i % 3 == 1 {
            let s = docs::SLOTS[(i / 3) % docs::SLOTS.len()].0;
            Gen::new(r, Plan { props: 2, params: 60, groups: 40, slots: vec![s], ..Plan::default() }).card()
        } else {
            Gen::new(r, Plan { props: 8, ..Plan::default() }).card()
        };
        i += 1;
        k.put(serde_record(&c));
    }
}
#[cfg(feature = "serde")]
pub fn serde_record(c: &Vcard) -> Value {
    let card = repr::card(c);
    let res = guard("serde", "", || -> Result<(Value, bool, Value, bool), String> {
        let s = serde_json::to_string(c).map_err(|e| e.to_string())?;
        let b: Vcard = serde_json::from_str(&s).map_err(|e| format!("{} in {}", e, s))?;
        // through a JSON value and pretty text as well
        let v = serde_json::to_value(c).map_err(|e| e.to_string())?;
        let p: Vcard = serde_json::from_value(v).map_err(|e| e.to_string())?;
        Ok((repr::card(&b), &b == c, repr::card(&p), &p == c))
    });
    match res {
        Ok(Ok((back, eq, back2, eq2))) => json!({"op": "serde", "card": card, "res": "ok", "back": back, "eq": eq, "back2": back2, "eq2": eq2}),
        Ok(Err(m)) => json!({"op": "serde", "card": card, "res": "err", "why": m, "back": [], "eq": false, "back2": [], "eq2": false}),
        Err(m) => json!({"op": "serde", "card": card, "res": "panic", "why": m, "back": [], "eq": false, "back2": [], "eq2": false}),
    }
}
#[cfg(not(feature = "serde"))]
pub fn serde_record(_: &Vcard) -> Value {
    panic!("built without serde")
}
#[cfg(not(feature = "serde"))]
pub fn c18(_: &mut Rng, _: &mut Sink) {
    panic!("built without serde")
}

// ---------------------------------------------------------------- C20
fn b64(data: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() { s.push(A[(n >> (18 - 6 * k) & 63) as usize] as char) } else { s.push('=') }
        }
    }
    s
}
pub fn c20(r: &mut Rng, k: &mut Sink) {
    use vcard4::parameter::*;
    let mut i = 0;
    while !k.full() {
        let mut lines: Vec<String> = Vec::new();
        let mut c = Vcard::new("x".into());
        for _ in 0..r.below(4) {
            let n = r.below(12);
            let mut data: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            if r.pct(40) { data.splice(0..0, [0xff, 0xd8, 0xff]); }
            let mut s = b64(&data);
            if r.pct(12) {
                s = r.pick(&["*", "AAA", "A", "AA=A", "====", "AA==AA==", "AAAA\n", " AAAA", "AA-_", "é", "AAA=A", "=", "AA="]).to_string();
            }
            let enc = *r.pick(&["b", "b", "b", "b", "b", "8BIT", "base64", ""]);
            let ty = *r.pick(&["JPEG", "jpeg", "Jpeg", "JPEG", "PNG", "GIF", "", "home", "JPEGS", "JPG"]);
            let vt = *r.pick(&["", "", "text", "uri"]);
            if i % 2 == 0 {
                let mut ps: Vec<String> = Vec::new();
                if !enc.is_empty() { ps.push(format!(";{}={}", r.pick(&["ENCODING", "encoding", "Encoding"]), enc)) }
                if !ty.is_empty() { ps.push(format!(";TYPE={}", ty)) }
                if !vt.is_empty() { ps.push(format!(";VALUE={}", vt)) }
                if r.pct(25) { ps.push(";X-ABCROP-RECTANGLE=ABClipRect_1&0&0&600&600".into()) }
                if r.pct(10) { ps.push(";PREF=1".into()) }
                for a in (1..ps.len()).rev() { let b = r.below(a + 1); ps.swap(a, b) }
                let v = if vt == "uri" || r.pct(10) { format!("data:image/jpeg;base64,{}", s.replace(['\n', ' ', 'é'], "")) } else { s.replace('\n', "\\n") };
                lines.push(format!("PHOTO{}:{}", ps.concat(), v));
            } else {
                let mut p = Parameters::default();
                if !ty.is_empty() { p.types = Some(vec![TypeParameter::Extension(ty.into())]) }
                if !enc.is_empty() { p.extensions = Some(vec![(r.pick(&["ENCODING", "encoding"]).to_string(), vec![enc.to_string()])]) }
                if r.pct(20) { p.extensions.get_or_insert_with(Vec::new).insert(0, ("X-ABCROP-RECTANGLE".into(), vec!["b".into()])) }
                if r.pct(15) { p.types.get_or_insert_with(Vec::new).insert(0, TypeParameter::Home) }
                let ps = if p == Parameters::default() { None } else { Some(p) };
                c.photo.push(if r.pct(80) { TextOrUriProperty::Text(TextProperty { group: None, value: s, parameters: ps }) } else { TextOrUriProperty::Uri(UriProperty { group: None, value: "data:image/jpeg;base64,AAAA".parse().unwrap(), parameters: ps }) });
            }
        }
        if i % 2 == 0 {
            let refs: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
            match run_decode(&docs::simple(&refs), true) {
                Out::Cards(mut v) if v.len() == 1 => c = v.remove(0),
                _ => { i += 1; continue }
            }
        }
        i += 1;
        k.put(photo(&c));
    }
}
pub fn photo(c: &Vcard) -> Value {
    let (res, bytes) = match guard("parse_photo_jpeg", "", || c.parse_photo_jpeg()) {
        Ok(Ok(v)) => ("ok", json!(v)),
        Ok(Err(_)) => ("err", json!([])),
        Err(_) => ("panic", json!([])),
    };
    json!({"op": "photo", "card": repr::card(c), "res": res, "bytes": bytes})
}

// ---------------------------------------------------------------- C21
/// Documents whose outcome is compared between builds with different features.
pub fn c21_docs(r: &mut Rng, n: usize) -> Vec<(String, bool)> {
    let tags = ["en", "fr-CA", "de-CH-1996", "zh-Hant-TW", "en-US", "x-private", "sl-rozaj", "es-419", "a", "toolongtag1", "en_US", "", "en-", "é", "123", "-en", "en US", "en--US"];
    let mimes = ["text/plain", "image/jpeg", "text/plain;charset=utf-8", "application/vnd.x+json", "text", "/", "a/b/c", "text/", "é/x", "", "text plain", "text/plain;", "text/plain;charset"];
    (0..n)
        .map(|i| {
            let s = match i % 4 {
                0 => {
                    let d = docs::doc(r, &Style { fault: 4, ..Style::default() });
                    if r.pct(20) { docs::mutate(r, &d) } else { d }
                }
                1 => docs::simple(&[&format!("LANG{}:{}", docs::param(r, "LANG", 0), r.pick(&tags))]),
                2 => {
                    let l = match r.below(3) {
                        0 => format!("NOTE;LANGUAGE=\"{}\":x", r.pick(&tags)),
                        1 => format!("X-L;VALUE=language-tag:{}", r.pick(&tags)),
                        _ => format!("FN;LANGUAGE={};PREF=1:x", r.pick(&tags)),
                    };
                    docs::simple(&[&l, "TITLE:t"])
                }
                _ => docs::simple(&[&format!("SOURCE;MEDIATYPE=\"{}\"{}:http://a.b/c", r.pick(&mimes), docs::param(r, "SOURCE", 0))]),
            };
            (s, r.pct(70))
        })
        .collect()
}
/// One line per document: outcome, cards, encodings.
pub fn c21_one(s: &str, strict: bool) -> Value {
    let o = run_decode(s, strict);
    let outs: Vec<Value> = o.cards().iter().map(|c| guard("encode", s, || c.to_string()).map(|x| t(&x)).unwrap_or(json!("panic"))).collect();
    let j = repr::cards(o.cards());
    json!({"res": o.res(), "cards": j, "outs": outs})
}

// ---------------------------------------------------------------- C22
pub fn c22(r: &mut Rng, k: &mut Sink) {
    let mut i = 0usize;
    while !k.full() {
        let c = match i % 4 {
            0 => Gen::new(r, Plan { props: 3, params: 60, groups: 50, slots: vec![docs::SLOTS[(i / 4) % docs::SLOTS.len()].0], ..Plan::default() }).card(),
            1 => Gen::new(r, Plan { props: 14, groups: 50, ..Plan::default() }).card(),
            2 => {
                let mut c = Gen::new(r, Plan { props: 6, ..Plan::default() }).card();
                // cards that validation would refuse are written all the same
                if r.pct(40) { c.formatted_name.clear() }
                if r.pct(20) { c = Vcard::default() }
                c
            }
            _ => {
                let d = docs::doc(r, &Style { fault: 0, ..Style::default() });
                match run_decode(&d, false) { Out::Cards(mut v) if !v.is_empty() => v.remove(0), _ => { i += 1; continue } }
            }
        };
        i += 1;
        k.put(encode(&c, false).0);
    }
}

// ---------------------------------------------------------------- C23
pub fn c23(r: &mut Rng, k: &mut Sink) {
    let mut i = 0;
    let mut history: Vec<(String, bool, Out)> = Vec::new();
    while !k.full() {
        let strict = r.pct(60);
        let n = 2 + r.below(3);
        let mut parts = Vec::new();
        for _ in 0..n {
            let st = Style { fault: if i % 3 == 0 { 3 } else { 0 }, groups: 20, params: 1 };
            let m = 1 + r.below(2);
            let ls = docs::body(r, m, &st);
            let mut d = docs::wrap(r, &ls);
            if i % 4 == 0 && r.pct(30) {
                let l = r.pick(docs::FAULTY).to_string();
                let mut ls = ls.clone();
                ls.push(l);
                d = docs::wrap(r, &ls);
            }
            if r.pct(10) { d = docs::fold(r, &d, 2) }
            if r.pct(10) { d = format!("{}{}", docs::eol(r), d) }
            if !d.ends_with('\n') { d.push_str(docs::eol(r)) }
            for _ in 0..r.below(4) { d.push_str(docs::eol(r)) }
            parts.push(d);
        }
        // equal documents, next to each other or not, and equal cards spelt differently
        if r.pct(40) {
            let a = parts[r.below(parts.len())].clone();
            let a = match r.below(4) { 0 => a.replace("\r\n", "\n"), 1 => a.replace("\r\n", "\n").replace('\n', "\r\n"), _ => a };
            let at = r.below(parts.len() + 1);
            parts.insert(at, a);
        }
        let each: Vec<Value> = parts.iter().map(|p| {
            let o = run_decode(p, strict);
            history.push((p.clone(), strict, o.clone()));
            let mut v = outcome(&o);
            v["in"] = t(p);
            v
        }).collect();
        let whole = parts.concat();
        let all = run_decode(&whole, strict);
        // decode something from long ago again, here and on another thread
        let (hs, hstrict, ho) = history[r.below(history.len())].clone();
        let again = run_decode(&hs, hstrict);
        let hs2 = hs.clone();
        let threaded = std::thread::spawn(move || { quiet_panics(); run_decode(&hs2, hstrict) }).join().unwrap_or(Out::Panic("thread".into()));
        let rep = outcome_eq(&ho, &again) && outcome_eq(&ho, &threaded);
        if history.len() > 400 { history.drain(..200); }
        i += 1;
        k.put(json!({"op": "concat", "strict": strict, "parts": each, "all": outcome(&all), "in": t(&whole), "repeat": rep, "again": t(&hs)}));
    }
}

/// Documents from the repository's own fixtures and documentation style.
pub fn fixtures() -> Vec<String> {
    let mut v = vec![
        "BEGIN:VCARD\r\nVERSION:4.0\r\nFN:Simon Perreault\r\nN:Perreault;Simon;;;ing. jr,M.Sc.\r\nBDAY:--0203\r\nANNIVERSARY:20090808T1430-0500\r\nGENDER:M\r\nLANG;PREF=1:fr\r\nLANG;PREF=2:en\r\nORG;TYPE=work:Viagenie\r\nADR;TYPE=work:;Suite D2-630;2875 Laurier;\r\n Quebec;QC;G1V 2M2;Canada\r\nTEL;VALUE=uri;TYPE=\"work,voice\";PREF=1:tel:+1-418-656-9254;ext=102\r\nTEL;VALUE=uri;TYPE=\"work,cell,voice,video,text\":tel:+1-418-262-6501\r\nEMAIL;TYPE=work:simon.perreault@viagenie.ca\r\nGEO;TYPE=work:geo:46.772673,-71.282945\r\nKEY;TYPE=work;VALUE=uri:\r\n http://www.viagenie.ca/simon.perreault/simon.asc\r\nTZ:-0500\r\nURL;TYPE=home:http://nomis80.org\r\nEND:VCARD\r\n".to_string(),
        "BEGIN:VCARD\nVERSION:3.0\nPRODID:-//Apple Inc.//macOS 12//EN\nN:Doe;Jane;;;\nFN:Jane Doe\nitem1.EMAIL;type=INTERNET:jane@x.org\nitem1.X-ABLabel:_$!<HomePage>!$_\nTEL;type=CELL;type=VOICE;type=pref:+1 555\nADR;type=HOME;LABEL=\"Mr. John\\nApt\":;;1 Main;Town\\;ship;QC;12345;\nEND:VCARD\n".to_string(),
    ];
    for e in std::fs::read_dir("/repo/fixtures").into_iter().flatten().flatten() {
        if let Ok(s) = std::fs::read_to_string(e.path()) {
            if s.len() < 6000 {
                v.push(s);
            }
        }
    }
    v
}
