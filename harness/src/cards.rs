//! Generator of cards assembled through the public types.
use crate::docs::{self, Holds};
use crate::rng::Rng;
use time::{Date as TDate, Month, OffsetDateTime, PrimitiveDateTime, Time, UtcOffset};
use vcard4::{parameter::*, property::*, Date, DateTime, Uri, Vcard};

/// Which part of the representable space a card is drawn from.
#[derive(Clone)]
pub struct Plan {
    /// most properties
    pub props: usize,
    /// percentage of properties with parameters
    pub params: u64,
    /// percentage of properties with a group
    pub groups: u64,
    /// slots to draw from; empty for all
    pub slots: Vec<&'static str>,
    /// text that fits no other purpose; None for the general generator
    pub long: bool,
    pub marker: bool,
}
impl Default for Plan {
    fn default() -> Self {
        Plan { props: 6, params: 45, groups: 25, slots: vec![], long: false, marker: false }
    }
}
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub plan: Plan,
    pub next_mark: u32,
    /// markers put in places that may stay in memory
    pub exempt: Vec<u32>,
    /// markers put in places that must be erased: id and place
    pub private: Vec<(u32, String)>,
    place: String,
}
fn parse_uri(s: &str) -> Uri {
    s.parse().unwrap()
}
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, plan: Plan) -> Self {
        Gen { r, plan, next_mark: 1, exempt: vec![], private: vec![], place: String::new() }
    }
    fn mark(&mut self, what: &str) -> String {
        let id = self.next_mark;
        self.next_mark += 1;
        self.private.push((id, format!("{}/{}", self.place, what)));
        crate::alloc::marker(id)
    }
    pub fn text(&mut self, what: &str) -> String {
        if self.plan.marker {
            return self.mark(what);
        }
        if self.plan.long {
            return self.long_text();
        }
        docs::text(self.r)
    }
    fn long_text(&mut self) -> String {
        let n = match self.r.below(6) {
            0 => 40 + self.r.below(40),
            1 => 60 + self.r.below(20),
            2 => 130 + self.r.below(30),
            3 => 200 + self.r.below(200),
            _ => 50 + self.r.below(100),
        };
        let mut s = String::new();
        match self.r.below(5) {
            0 => while s.len() < n { s.push('a') },
            1 => { let f = *self.r.pick(docs::FRAGS); while s.len() < n { s.push_str(f) } }
            2 => { s.push('e'); while s.len() < n { s.push('\u{301}') } }
            _ => while s.len() < n {
                if self.r.pct(35) { s.push_str(*self.r.pick(docs::FRAGS)) } else { s.push_str(*self.r.pick(docs::PLAIN)) }
            },
        }
        s
    }
    /// Text for a parameter: no double quote.
    pub fn ptext(&mut self, what: &str) -> String {
        if self.plan.marker {
            return self.mark(what);
        }
        let s = if self.plan.long && self.r.pct(50) { self.long_text() } else { docs::text(self.r) };
        s.replace('"', "'")
    }
    fn item(&mut self, what: &str) -> String {
        self.ptext(what).replace(',', ".")
    }
    fn group(&mut self) -> Option<String> {
        if self.plan.marker {
            return Some(self.mark("group"));
        }
        if self.r.pct(self.plan.groups) { Some(self.r.pick(docs::GROUPS).to_string()) } else { None }
    }
    fn uri(&mut self) -> Uri {
        if self.plan.marker {
            let id = self.next_mark;
            self.next_mark += 1;
            self.exempt.push(id);
            return parse_uri(&format!("http://h.x/{}", crate::alloc::marker(id)));
        }
        loop {
            if let Ok(u) = docs::uri(self.r).parse() { return u; }
        }
    }
    pub fn date(&mut self) -> TDate {
        let y = *self.r.pick(&[0, 1, 99, 400, 999, 1000, 1600, 1899, 1970, 1985, 1999, 2000, 2024, 9999]);
        let y = if self.r.pct(30) { self.r.range(0, 9999) as i32 } else { y };
        let m = Month::try_from(self.r.range(1, 12) as u8).unwrap();
        let last = m.length(y) as i64;
        let d = if self.r.pct(20) { last } else if self.r.pct(20) { 1 } else { self.r.range(1, last) };
        TDate::from_calendar_date(y, m, d as u8).unwrap()
    }
    pub fn clock(&mut self) -> Time {
        let edge = |r: &mut Rng, hi: i64| if r.pct(25) { 0 } else if r.pct(20) { hi } else { r.range(0, hi) };
        let (h, m, s) = (edge(self.r, 23), edge(self.r, 59), edge(self.r, 59));
        Time::from_hms(h as u8, m as u8, s as u8).unwrap()
    }
    pub fn offset(&mut self) -> UtcOffset {
        if self.r.pct(25) { return UtcOffset::UTC; }
        let neg = self.r.pct(50);
        let h = if self.r.pct(25) { 0 } else if self.r.pct(15) { 23 } else { self.r.range(0, 23) } as i8;
        let m = if self.r.pct(40) { 0 } else { self.r.range(0, 59) } as i8;
        let (h, m) = if neg { (-h, -m) } else { (h, m) };
        UtcOffset::from_hms(h, m, 0).unwrap()
    }
    pub fn date_time(&mut self) -> OffsetDateTime {
        let d = self.date();
        let t = self.clock();
        PrimitiveDateTime::new(d, t).assume_offset(self.offset())
    }
    pub fn daot(&mut self) -> DateAndOrTime {
        match self.r.below(3) {
            0 => Date::from(self.date()).into(),
            1 => DateTime::from(self.date_time()).into(),
            _ => (self.clock(), self.offset()).into(),
        }
    }
    fn some<T>(&mut self, f: impl Fn(&mut Self) -> T) -> Vec<T> {
        let n = if self.r.pct(60) { 1 } else { 1 + self.r.below(3) };
        (0..n).map(|_| f(self)).collect()
    }
    #[cfg(feature = "language-tags")]
    fn lang(&mut self, _plain: bool) -> language_tags::LanguageTag {
        self.r.pick(&["en", "fr-CA", "de-CH-1996", "zh-Hant-TW"]).parse().unwrap()
    }
    #[cfg(not(feature = "language-tags"))]
    fn lang(&mut self, plain: bool) -> String {
        if self.plan.marker { return self.mark("language"); }
        if plain { self.ptext("language") } else { self.text("language") }
    }
    #[cfg(feature = "mime")]
    fn media(&mut self) -> mime::Mime {
        self.r.pick(&["text/plain", "image/jpeg", "text/plain;charset=utf-8"]).parse().unwrap()
    }
    #[cfg(not(feature = "mime"))]
    fn media(&mut self) -> String {
        if self.plan.marker { return self.mark("mediatype"); }
        if self.r.pct(50) { self.r.pick(&["text/plain", "image/jpeg", "text/plain;charset=utf-8"]).to_string() } else { self.ptext("mediatype") }
    }
    fn types(&mut self) -> Vec<TypeParameter> {
        use RelatedType as R;
        use TelephoneType as T;
        let tels = [T::Text, T::Voice, T::Fax, T::Cell, T::Video, T::Pager, T::TextPhone];
        let rels = [R::Contact, R::Acquaintance, R::Friend, R::Met, R::CoWorker, R::Colleague, R::CoResident, R::Neighbor,
            R::Child, R::Parent, R::Sibling, R::Spouse, R::Kin, R::Muse, R::Crush, R::Date, R::Sweetheart, R::Me, R::Agent, R::Emergency];
        let n = if self.r.pct(50) { 1 } else { 1 + self.r.below(4) };
        (0..n).map(|i| match self.r.below(if self.plan.marker { 9 } else { 5 }) {
            0 => TypeParameter::Home,
            1 => TypeParameter::Work,
            2 => TypeParameter::Telephone(self.r.pick(&tels).clone()),
            3 => TypeParameter::Related(self.r.pick(&rels).clone()),
            _ => {
                let s = self.item("type");
                let u = s.to_ascii_uppercase();
                let s = if i + 1 == n && ["BEGIN", "END", "VERSION"].iter().any(|w| u.ends_with(w)) { format!("{}.", s) } else { s };
                TypeParameter::Extension(s)
            }
        }).collect()
    }
    pub fn params(&mut self, slot: &str, vt: Option<ValueType>) -> Option<Parameters> {
        let mut p = Parameters::default();
        p.value = vt;
        if self.plan.marker || self.r.pct(self.plan.params) {
            let n = if self.plan.marker { 12 } else { 1 + self.r.below(4) };
            for k in 0..n {
                match if self.plan.marker { k } else { self.r.below(12) } {
                    0 => p.language = Some(self.lang(true)),
                    1 => p.pref = Some(*self.r.pick(&[1, 2, 50, 99, 100])),
                    2 => p.alt_id = Some(self.ptext("altid")),
                    3 => if slot != "CLIENTPIDMAP" {
                        p.pid = Some(self.some(|g| {
                            let v = [0, 1, 7, 42, u64::MAX];
                            let a = *g.r.pick(&v);
                            let b = *g.r.pick(&v);
                            Pid::new(a, if g.r.pct(50) { Some(b) } else { None })
                        }))
                    },
                    4 => if docs::TYPED.contains(&slot) { p.types = Some(self.types()) },
                    5 => p.media_type = Some(self.media()),
                    6 => p.calscale = Some(self.ptext("calscale")),
                    7 => p.sort_as = Some(self.some(|g| g.item("sort-as"))),
                    8 => p.geo = Some(self.uri()),
                    9 => p.timezone = Some(match self.r.below(3) {
                        0 => TimeZoneParameter::Uri(self.uri()),
                        1 if !self.plan.marker => TimeZoneParameter::UtcOffset(self.offset()),
                        // a colon cannot be written here (known finding C02-tz-colon)
                        _ => {
                            let t = self.ptext("tz").replace(':', ".");
                            if vcard4::helper::parse_utc_offset(&t).is_ok() { TimeZoneParameter::Text("x".into()) } else { TimeZoneParameter::Text(t) }
                        }
                    }),
                    10 => if slot == "ADR" { p.label = Some(self.ptext("label")) },
                    _ => {
                        p.extensions = Some(self.some(|g| {
                            let name = if g.plan.marker { format!("X-{}", g.mark("xparam")) } else { g.r.pick(&["X-BAR", "x-a", "X-AB-1", "ENCODING", "X-TYPE", "X-BAR"]).to_string() };
                            let vals = g.some(|g| g.item("xvalue"));
                            (name, vals)
                        }))
                    }
                }
            }
        }
        if p == Parameters::default() { None } else { Some(p) }
    }
    fn text_prop(&mut self, slot: &str) -> TextProperty {
        TextProperty { group: self.group(), value: self.text("value"), parameters: self.params(slot, None) }
    }
    fn uri_prop(&mut self, slot: &str) -> UriProperty {
        UriProperty { group: self.group(), value: self.uri(), parameters: self.params(slot, None) }
    }
    fn text_or_uri(&mut self, slot: &str) -> TextOrUriProperty {
        match self.r.below(4) {
            0 => TextOrUriProperty::Text(TextProperty { group: self.group(), value: self.text("value"), parameters: self.params(slot, Some(ValueType::Text)) }),
            1 => TextOrUriProperty::Uri(UriProperty { group: self.group(), value: self.uri(), parameters: self.params(slot, Some(ValueType::Uri)) }),
            2 => TextOrUriProperty::Uri(self.uri_prop(slot)),
            _ => {
                let mut p = self.text_prop(slot);
                if p.value.parse::<Uri>().is_ok() {
                    // such text is only told from a URI by its VALUE
                    let mut ps = p.parameters.clone().unwrap_or_default();
                    ps.value = Some(ValueType::Text);
                    p.parameters = Some(ps);
                }
                TextOrUriProperty::Text(p)
            }
        }
    }
    fn list_prop(&mut self, slot: &str, delimiter: TextListDelimiter) -> TextListProperty {
        let n = if slot == "N" && self.r.pct(70) { 5 } else { 1 + self.r.below(5) };
        let value = (0..n).map(|_| self.text("item")).collect();
        TextListProperty { group: self.group(), value, parameters: self.params(slot, None), delimiter }
    }
    fn dt_or_text(&mut self, slot: &str) -> DateTimeOrTextProperty {
        match self.r.below(3) {
            0 => DateTimeOrTextProperty::Text(TextProperty { group: self.group(), value: self.text("value"), parameters: self.params(slot, Some(ValueType::Text)) }),
            k => {
                let vt = if k == 1 { Some(ValueType::DateAndOrTime) } else { None };
                DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty { group: self.group(), value: self.some(|g| g.daot()), parameters: self.params(slot, vt) })
            }
        }
    }
    pub fn address(&mut self) -> DeliveryAddress {
        let mut f = |g: &mut Self, w: &str| if g.plan.marker || g.r.pct(60) { Some(g.text(w)).filter(|s| !s.is_empty()) } else { None };
        DeliveryAddress {
            po_box: f(self, "po_box"),
            extended_address: f(self, "extended"),
            street_address: f(self, "street"),
            locality: f(self, "locality"),
            region: f(self, "region"),
            postal_code: f(self, "postal"),
            country_name: f(self, "country"),
        }
    }
    pub fn gender(&mut self) -> Gender {
        let sex = self.r.pick(&[Sex::None, Sex::Male, Sex::Female, Sex::Other, Sex::NotApplicable, Sex::Unknown]).clone();
        let identity = if self.plan.marker || self.r.pct(60) { Some(self.text("identity")) } else { None };
        Gender { sex, identity }
    }
    fn private(&mut self) -> ExtensionProperty {
        let name = if self.plan.marker { format!("X-{}", self.mark("name")) } else { self.r.pick(docs::NAMES_X).to_string() };
        let k = if self.plan.marker { *self.r.pick(&[0, 1, 6, 11, 12]) } else { self.r.below(13) };
        use ValueType as V;
        let (vt, value) = match k {
            0 => (None, AnyProperty::Text(self.text("value"))),
            1 => (Some(V::Text), AnyProperty::Text(self.text("value"))),
            2 => (Some(V::Integer), AnyProperty::Integer(self.some(|g| *g.r.pick(&[0, 1, -1, 42, i64::MAX, i64::MIN])))),
            3 => (Some(V::Float), AnyProperty::Float(self.some(|g| *g.r.pick(&[0.0, 0.5, -0.25, 3.14159, 1e-5, 123456.789, -1000.0, 0.1, 1.0, 1e15, 7e22, -1.5e-9, 99999999.9])))),
            4 => (Some(V::Boolean), AnyProperty::Boolean(self.r.pct(50))),
            5 => (Some(V::Date), AnyProperty::Date(self.some(|g| g.date().into()))),
            6 => (Some(V::Uri), AnyProperty::Uri(self.uri())),
            7 => (Some(V::DateTime), AnyProperty::DateTime(self.some(|g| g.date_time().into()))),
            8 => (Some(V::Time), AnyProperty::Time(self.some(|g| (g.clock(), g.offset())))),
            9 => (Some(V::DateAndOrTime), AnyProperty::DateAndOrTime(self.some(|g| g.daot()))),
            10 => (Some(V::Timestamp), AnyProperty::Timestamp(self.some(|g| g.date_time().into()))),
            11 => (Some(V::LanguageTag), AnyProperty::Language(self.lang(false))),
            _ => (Some(V::UtcOffset), AnyProperty::UtcOffset(self.offset())),
        };
        ExtensionProperty { name, group: self.group(), value, parameters: self.params("X-FOO", vt) }
    }
    pub fn add(&mut self, c: &mut Vcard, slot: &'static str, h: Holds) {
        self.place = slot.to_string();
        macro_rules! set { ($f:ident, $v:expr) => { if c.$f.is_none() { let v = $v; c.$f = Some(v) } }; }
        match slot {
            "SOURCE" => { let v = self.uri_prop(slot); c.source.push(v) }
            "KIND" => set!(kind, KindProperty { group: self.group(), value: self.r.pick(&[Kind::Individual, Kind::Group, Kind::Org, Kind::Location]).clone(), parameters: self.params(slot, None) }),
            "XML" => { let v = self.text_prop(slot); c.xml.push(v) }
            "FN" => { let v = self.text_prop(slot); c.formatted_name.push(v) }
            "N" => set!(name, self.list_prop(slot, TextListDelimiter::SemiColon)),
            "NICKNAME" => { let v = self.text_prop(slot); c.nickname.push(v) }
            "PHOTO" => { let v = self.text_or_uri(slot); c.photo.push(v) }
            "BDAY" => set!(bday, self.dt_or_text(slot)),
            "ANNIVERSARY" => set!(anniversary, self.dt_or_text(slot)),
            "GENDER" => set!(gender, GenderProperty { group: self.group(), value: self.gender(), parameters: self.params(slot, None) }),
            "URL" => { let v = self.uri_prop(slot); c.url.push(v) }
            "ADR" => { let v = AddressProperty { group: self.group(), value: self.address(), parameters: self.params(slot, None) }; c.address.push(v) }
            "TITLE" => { let v = self.text_prop(slot); c.title.push(v) }
            "ROLE" => { let v = self.text_prop(slot); c.role.push(v) }
            "LOGO" => { let v = self.uri_prop(slot); c.logo.push(v) }
            "ORG" => { let v = self.list_prop(slot, TextListDelimiter::SemiColon); c.org.push(v) }
            "MEMBER" => {
                let v = self.uri_prop(slot);
                c.member.push(v);
                c.kind = Some(KindProperty { group: None, value: Kind::Group, parameters: None });
            }
            "RELATED" => { let v = self.text_or_uri(slot); c.related.push(v) }
            "TEL" => { let v = self.text_or_uri(slot); c.tel.push(v) }
            "EMAIL" => { let v = self.text_prop(slot); c.email.push(v) }
            "IMPP" => { let v = self.uri_prop(slot); c.impp.push(v) }
            "LANG" => { let v = LanguageProperty { group: self.group(), value: self.lang(false), parameters: self.params(slot, None) }; c.lang.push(v) }
            "TZ" => {
                let v = match self.r.below(4) {
                    0 => TimeZoneProperty::Text(self.text_prop(slot)),
                    1 => TimeZoneProperty::Text(TextProperty { group: self.group(), value: self.text("value"), parameters: self.params(slot, Some(ValueType::Text)) }),
                    2 => TimeZoneProperty::Uri(UriProperty { group: self.group(), value: self.uri(), parameters: self.params(slot, Some(ValueType::Uri)) }),
                    _ => TimeZoneProperty::UtcOffset(UtcOffsetProperty { group: self.group(), value: self.offset(), parameters: self.params(slot, Some(ValueType::UtcOffset)) }),
                };
                c.timezone.push(v)
            }
            "GEO" => { let v = self.uri_prop(slot); c.geo.push(v) }
            "CATEGORIES" => { let v = self.list_prop(slot, TextListDelimiter::Comma); c.categories.push(v) }
            "NOTE" => { let v = self.text_prop(slot); c.note.push(v) }
            "PRODID" => set!(prod_id, self.text_prop(slot)),
            "REV" => set!(rev, DateTimeProperty { group: self.group(), value: self.date_time().into(), parameters: self.params(slot, None) }),
            "SOUND" => { let v = self.uri_prop(slot); c.sound.push(v) }
            "UID" => set!(uid, self.text_or_uri(slot)),
            "CLIENTPIDMAP" => {
                let v = ClientPidMapProperty { group: self.group(), value: ClientPidMap { source: *self.r.pick(&[1, 2, 42, u64::MAX]), uri: self.uri() }, parameters: self.params(slot, None) };
                c.client_pid_map.push(v)
            }
            "KEY" => { let v = self.text_or_uri(slot); c.key.push(v) }
            "FBURL" => { let v = self.uri_prop(slot); c.fburl.push(v) }
            "CALADRURI" => { let v = self.uri_prop(slot); c.cal_adr_uri.push(v) }
            "CALURI" => { let v = self.uri_prop(slot); c.cal_uri.push(v) }
            _ => { let _ = h; let v = self.private(); c.extensions.push(v) }
        }
    }
    pub fn card(&mut self) -> Vcard {
        let mut c = Vcard::default();
        let slots: Vec<(&'static str, Holds)> = docs::SLOTS.iter().copied()
            .filter(|(s, _)| self.plan.slots.is_empty() || self.plan.slots.contains(s)).collect();
        let n = 1 + self.r.below(self.plan.props);
        for _ in 0..n {
            let (s, h) = *self.r.pick(&slots);
            if s == "KIND" && !c.member.is_empty() { continue; }
            self.add(&mut c, s, h);
        }
        if c.formatted_name.is_empty() {
            if self.r.pct(60) {
                self.add(&mut c, "FN", Holds::Text);
            } else {
                self.place = "FN".into();
                let t = self.text("value");
                c.formatted_name.push(t.into());
            }
        }
        c
    }
}
