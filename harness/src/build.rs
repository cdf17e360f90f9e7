//! Sequences of builder calls.
use crate::docs;
use crate::observe::*;
use crate::props::Sink;
use crate::repr::{self, t, untext};
use crate::rng::Rng;
use serde_json::{json, Value};
use vcard4::{property::*, Vcard, VcardBuilder};

/// Methods with what they take.
pub const METHODS: &[(&str, &str)] = &[
    ("kind", "kind"), ("source", "uri"), ("xml", "text"), ("formatted_name", "text"), ("name", "five"), ("nickname", "text"),
    ("photo", "uri"), ("birthday", "date"), ("anniversary", "date"), ("gender", "gender"), ("address", "adr"), ("telephone", "text"),
    ("email", "text"), ("impp", "uri"), ("lang", "lang"), ("timezone", "text"), ("geo", "uri"), ("title", "text"), ("role", "text"),
    ("logo", "uri"), ("org", "list"), ("member", "uri"), ("related", "uri"), ("categories", "list"), ("note", "text"), ("prod_id", "text"),
    ("rev", "ts"), ("sound", "uri"), ("uid", "uri"), ("url", "uri"), ("key", "uri"), ("fburl", "uri"), ("cal_adr_uri", "uri"), ("cal_uri", "uri"),
];

fn date(s: &str) -> vcard4::Date {
    let n = |a: usize, b: usize| s[a..b].parse::<i32>().unwrap();
    let d = time::Date::from_calendar_date(n(0, 4), time::Month::try_from(n(4, 6) as u8).unwrap(), n(6, 8) as u8).unwrap();
    d.into()
}
fn stamp(s: &str) -> vcard4::DateTime {
    let n = |a: usize, b: usize| s[a..b].parse::<i32>().unwrap();
    let d: time::Date = date(&s[..8]).into();
    let c = time::Time::from_hms(n(9, 11) as u8, n(11, 13) as u8, n(13, 15) as u8).unwrap();
    let g = if &s[15..16] == "-" { -1 } else { 1 };
    let o = time::UtcOffset::from_hms((g * n(16, 18)) as i8, (g * n(18, 20)) as i8, 0).unwrap();
    time::PrimitiveDateTime::new(d, c).assume_offset(o).into()
}
fn call(b: VcardBuilder, m: &str, a: &[String]) -> VcardBuilder {
    let s = || a[0].clone();
    let u = || a[0].parse::<vcard4::Uri>().unwrap();
    let o = |i: usize| Some(a[i].clone()).filter(|s| !s.is_empty());
    match m {
        "kind" => b.kind(match a[0].as_str() {
            "individual" => Kind::Individual,
            "group" => Kind::Group,
            "org" => Kind::Org,
            _ => Kind::Location,
        }),
        "source" => b.source(u()),
        "xml" => b.xml(s()),
        "formatted_name" => b.formatted_name(s()),
        "name" => b.name([a[0].clone(), a[1].clone(), a[2].clone(), a[3].clone(), a[4].clone()]),
        "nickname" => b.nickname(s()),
        "photo" => b.photo(u()),
        "birthday" => b.birthday(date(&a[0])),
        "anniversary" => b.anniversary(date(&a[0])),
        "gender" => b.gender(&a[0]),
        "address" => b.address(DeliveryAddress {
            po_box: o(0), extended_address: o(1), street_address: o(2), locality: o(3), region: o(4), postal_code: o(5), country_name: o(6),
        }),
        "telephone" => b.telephone(s()),
        "email" => b.email(s()),
        "impp" => b.impp(u()),
        #[cfg(feature = "language-tags")]
        "lang" => b.lang(a[0].parse().unwrap()),
        #[cfg(not(feature = "language-tags"))]
        "lang" => b.lang(s()),
        "timezone" => b.timezone(s()),
        "geo" => b.geo(u()),
        "title" => b.title(s()),
        "role" => b.role(s()),
        "logo" => b.logo(u()),
        "org" => b.org(a.to_vec()),
        "member" => b.member(u()),
        "related" => b.related(u()),
        "categories" => b.categories(a.to_vec()),
        "note" => b.note(s()),
        "prod_id" => b.prod_id(s()),
        "rev" => b.rev(stamp(&a[0])),
        "sound" => b.sound(u()),
        "uid" => b.uid(u()),
        "url" => b.url(u()),
        "key" => b.key(u()),
        "fburl" => b.fburl(u()),
        "cal_adr_uri" => b.cal_adr_uri(u()),
        "cal_uri" => b.cal_uri(u()),
        _ => panic!("unknown builder method {}", m),
    }
}
/// The card after each prefix of the calls.
pub fn build(first: &str, calls: &[(String, Vec<String>)]) -> Value {
    let mut states = Vec::new();
    let mut res = "ok";
    for n in 0..=calls.len() {
        match guard("build", first, || -> Vcard {
            let mut b = VcardBuilder::new(first.to_string());
            for (m, a) in &calls[..n] {
                b = call(b, m, a);
            }
            b.finish()
        }) {
            Ok(c) => states.push(repr::card(&c)),
            Err(_) => { res = "panic"; states.push(json!([])) }
        }
    }
    let cs: Vec<Value> = calls.iter().map(|(m, a)| json!({"m": m, "a": a.iter().map(|s| t(s)).collect::<Vec<_>>()})).collect();
    json!({"op": "build", "first": t(first), "calls": cs, "states": states, "res": res})
}
pub fn build_case(c: &Value) -> Value {
    let calls: Vec<(String, Vec<String>)> = c["calls"].as_array().unwrap().iter()
        .map(|x| (x["m"].as_str().unwrap().to_string(), x["a"].as_array().unwrap().iter().map(untext).collect())).collect();
    build(&untext(&c["first"]), &calls)
}
fn arg(r: &mut Rng, kind: &str) -> Vec<String> {
    let text = |r: &mut Rng| docs::text(r);
    match kind {
        "kind" => vec![r.pick(&["individual", "group", "org", "location"]).to_string()],
        "uri" => loop {
            let u = docs::uri(r);
            if u.parse::<vcard4::Uri>().is_ok() { return vec![u]; }
        },
        "five" => (0..5).map(|_| text(r)).collect(),
        "date" => vec![repr::date_s(&crate::cards::Gen::new(r, Default::default()).date())],
        "ts" => vec![repr::dt_s(&crate::cards::Gen::new(r, Default::default()).date_time())],
        "gender" => vec![match r.below(4) {
            0 => r.pick(&["M", "F", "O", "N", "U", ""]).to_string(),
            1 => format!("{};{}", r.pick(&["M", "F", "O", "N", "U", ""]), text(r).replace('\\', "/")),
            2 => r.pick(&["X", "MF", "?", "é", " M", "1", "X;y", "Z;"]).to_string(),
            _ => r.pick(&["M", ";it's complicated", "F;a b"]).to_string(),
        }],
        "adr" => (0..7).map(|_| if r.pct(60) { text(r) } else { String::new() }).collect(),
        "lang" => vec![r.pick(&["en", "fr-CA", "de-CH-1996", "zh-Hant-TW"]).to_string()],
        "list" => (0..1 + r.below(4)).map(|_| text(r)).collect(),
        _ => vec![text(r)],
    }
}
pub fn c19(r: &mut Rng, k: &mut Sink) {
    let mut i = 0;
    while !k.full() {
        let n = match i % 4 { 0 => 1, 1 => 2, 2 => 3, _ => 4 + r.below(6) };
        let mut calls: Vec<(String, Vec<String>)> = Vec::new();
        for j in 0..n {
            let (m, kind) = if j == 0 { METHODS[i % METHODS.len()] } else if r.pct(25) {
                let again = calls[r.below(calls.len())].0.clone();
                *METHODS.iter().find(|(m, _)| *m == again).unwrap()
            } else { *r.pick(METHODS) };
            calls.push((m.to_string(), arg(r, kind)));
        }
        i += 1;
        let first = docs::text(r);
        k.put(build(&first, &calls));
    }
}
