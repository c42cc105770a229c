C = "crates/sip-core/src/"
S = [
dict(name="h01-replace-unchecked", property="H01", edits=[(C+"headers.rs", """        validate_header_value(value)?;
        if let Some(header) = self.inner.iter_mut().find(|h| h.name_eq(name)) {
            header.value = SmolStr::new(value);
            return Ok(true);""", """        if let Some(header) = self.inner.iter_mut().find(|h| h.name_eq(name)) {
            if header.value.len() != value.len() {
                validate_header_value(value)?;
            }
            header.value = SmolStr::new(value);
            return Ok(true);""")],
 needs="replacing a header by a value of exactly the same byte length as the stored one", breaks="replace_first stores a value containing CRLF",
 main="""use sip_core::Headers;
fn main() {
    let mut h = Headers::new();
    h.push("Subject", "aaaaaaaaaaaa").unwrap();
    let _ = h.replace_first("Subject", "aa\\r\\nX-Evil:1");
    assert!(!h.get("Subject").unwrap().contains('\\n'));
}
"""),
dict(name="h01-count-offbyone", property="H01", edits=[(C+"headers.rs", """    pub fn push_header(&mut self, header: Header) -> Result<(), HeaderError> {
        if self.inner.len() >= MAX_HEADERS {""", """    pub fn push_header(&mut self, header: Header) -> Result<(), HeaderError> {
        if self.inner.len() > MAX_HEADERS {""")],
 needs="filling a collection to the limit through the pre-validated append", breaks="the collection can hold 201 headers",
 main="""use sip_core::{Header, Headers};
fn main() {
    let mut h = Headers::new();
    for _ in 0..300 { let _ = h.push_header(Header::new("X", "y").unwrap()); }
    assert!(h.len() <= 200, "{}", h.len());
}
"""),
dict(name="u01-via-loop-cap", property="U01", edits=[(C+"via.rs", """            if params.len() >= MAX_PARAMS {
                return Err(ViaError::TooManyParameters { max: MAX_PARAMS });
            }

            let param = param.trim();
            if param.is_empty() {
                continue;
            }
""", """            let param = param.trim();
            if param.is_empty() {
                if params.len() >= MAX_PARAMS {
                    return Err(ViaError::TooManyParameters { max: MAX_PARAMS });
                }
                continue;
            }
""")],
 needs="a Via header with more than 20 parameters and no empty parameter between them", breaks="parsed Via holds an unbounded number of parameters",
 main="""use sip_core::ViaHeader;
fn main() {
    let mut s = String::from("SIP/2.0/UDP h:5060;branch=z9hG4bK1");
    for i in 0..200 { s.push_str(&format!(";p{}=1", i)); }
    if let Ok(v) = ViaHeader::parse(&s) { assert!(v.params().len() <= 20, "{}", v.params().len()); }
}
"""),
dict(name="n01-se-upper", property="N01", edits=[(C+"session_timer.rs", "        if delta_seconds < Self::minimum() || delta_seconds > Self::maximum() {\n            return None;\n        }\n\n        // Parse optional refresher parameter", "        if delta_seconds < Self::minimum() || (parts.len() == 1 && delta_seconds > Self::maximum()) {\n            return None;\n        }\n\n        // Parse optional refresher parameter")],
 needs="a Session-Expires above 24 h that also carries a parameter", breaks="the stored session interval exceeds 86400 seconds",
 main="""use sip_core::SessionExpires;
fn main() {
    if let Some(s) = SessionExpires::parse("4000000000;refresher=uac") { assert!(s.delta_seconds() <= 86400); }
    assert!(SessionExpires::parse("1800;refresher=uac").is_some());
}
"""),
dict(name="v01-event-param-value", property="V01", edits=[(C+"event.rs", """        if let Some(v) = value {
            validate_param_value(v)?;
        }

        if self.params.len() >= MAX_PARAMS {
            return Err(EventHeaderError::TooManyParams {
                max: MAX_PARAMS,
                actual: self.params.len() + 1,
            });
        }

        let name_key = SmolStr::new(name.to_ascii_lowercase());

        if self.params.contains_key(&name_key) {
            return Err(EventHeaderError::DuplicateParam(name.to_string()));
        }

        self.params.insert(name_key, value.map(SmolStr::new));
        Ok(())
    }

    /// Returns the event package name.""", """        if let Some(v) = value {
            if self.id.is_none() {
                validate_param_value(v)?;
            }
        }

        if self.params.len() >= MAX_PARAMS {
            return Err(EventHeaderError::TooManyParams {
                max: MAX_PARAMS,
                actual: self.params.len() + 1,
            });
        }

        let name_key = SmolStr::new(name.to_ascii_lowercase());

        if self.params.contains_key(&name_key) {
            return Err(EventHeaderError::DuplicateParam(name.to_string()));
        }

        self.params.insert(name_key, value.map(SmolStr::new));
        Ok(())
    }

    /// Returns the event package name.""")],
 needs="adding a parameter to an event that already has an id", breaks="an Event parameter value with line breaks or excessive length is stored",
 main="""use sip_core::EventHeader;
fn main() {
    let e = EventHeader::new("presence").unwrap().with_id("a1").unwrap();
    assert!(e.with_param("x", Some("a\\r\\nEvil: 1")).is_err());
}
"""),
dict(name="b01-watcher-cap", property="B01", edits=[(C+"watcher_info.rs", "        if self.watcher_lists.len() >= MAX_WATCHER_LISTS {\n", "        if self.is_full() && self.watcher_lists.len() >= MAX_WATCHER_LISTS {\n")],
 needs="a partial-state watcher document", breaks="a partial watcher document grows past 100 lists",
 main="""use sip_core::*;
fn main() {
    let mut d = watcher_info::WatcherinfoDocument::new(1, "partial").unwrap();
    for _ in 0..150 { let _ = d.add_watcher_list(watcher_info::WatcherList::new("sip:a@b", "presence").unwrap()); }
    assert!(d.watcher_lists().len() <= 100);
}
"""),
dict(name="m01-body-multibyte", property="M01", edits=[(C+"sipfrag.rs", "", "")], needs="", breaks="", main="fn main(){}"),
]
S.pop()
