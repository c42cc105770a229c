import os, runpy
D = os.path.join("/verif", "tools/mutants")
def E(f, name):
    for m in runpy.run_path(f"{D}/{f}.py")["M"]:
        if m[0] == name: return [tuple(e) for e in m[2]]
    raise KeyError(name)
SDP = ["sip-sdp"]
def sdp(body): return "use sip_sdp::{parse::*, negotiate::*, serialize::*, *};\nconst H: &str = \"v=0\\r\\no=- 1 1 IN IP4 1.2.3.4\\r\\ns=-\\r\\nc=IN IP4 1.2.3.4\\r\\nt=0 0\\r\\n\";\nfn main() {\n" + body + "\n}\n"
PAR = "use bytes::Bytes;\nuse sip_parse::*;\nfn main() {\n%s\n}\n"
S = [
dict(name="s03-accept-one-format", property="S03", edits=E("ms", "s-acc"), needs="an offer with two audio streams, the first of which is accepted with a single common format", breaks="two streams of one media type are accepted", deps=SDP,
 main=sdp(r'''    let offer = parse_sdp(&format!("{H}m=audio 4000 RTP/AVP 0\r\nm=audio 4002 RTP/AVP 0\r\n")).unwrap();
    let local = parse_sdp(&format!("{H}m=audio 5000 RTP/AVP 0\r\n")).unwrap();
    let a = negotiate_answer(&offer, "10.0.0.1", &local).unwrap();
    assert_eq!(a.media.iter().filter(|m| m.port != 0).count(), 1);''')),
dict(name="s05-params-none", property="S05", edits=E("ms", "s-params"), needs="a dynamic payload type whose offered rtpmap carries encoding parameters the local one lacks", breaks="opus/48000/2 offered is matched with a local opus/48000", deps=SDP,
 main=sdp(r'''    let offer = parse_sdp(&format!("{H}m=audio 4000 RTP/AVP 0 111\r\na=rtpmap:111 L16/44100/2\r\n")).unwrap();
    let local = parse_sdp(&format!("{H}m=audio 5000 RTP/AVP 0 97\r\na=rtpmap:97 L16/44100\r\n")).unwrap();
    let a = negotiate_answer(&offer, "10.0.0.1", &local).unwrap();
    assert!(!a.media[0].formats.iter().any(|f| f == "111"));''')),
dict(name="s06-one-port", property="S06", edits=E("mq", "s6-ports"), needs="a media line with an explicit port count of 1", breaks="the written media line loses the port count", deps=SDP,
 main=sdp(r'''    let s = parse_sdp(&format!("{H}m=audio 4000/1 RTP/AVP 0\r\n")).unwrap();
    let t = parse_sdp(&serialize_sdp(&s)).unwrap();
    assert_eq!(s.media[0].num_ports, t.media[0].num_ports);
    assert_eq!(s.media[0].num_ports, Some(1));''')),
dict(name="s07-session-info", property="S07", edits=E("mz", "s7-i"), needs="an i= line inside a media section of a description whose session section has no i= line", breaks="the media title is recorded as the session information", deps=SDP,
 main=sdp(r'''    let s = parse_sdp(&format!("{H}m=audio 4000 RTP/AVP 0\r\ni=the stage\r\n")).unwrap();
    assert_eq!(s.media[0].title.as_deref(), Some("the stage"));
    assert!(s.session_info.is_none());''')),
dict(name="s08-media-attr-count", property="S08", edits=E("mz2", "s8-mattr2"), needs="more attributes in one media section than the limit while the session section has few", breaks="the per-section attribute limit is not applied to media sections", deps=SDP,
 main=sdp(r'''    let mut t = format!("{H}m=audio 4000 RTP/AVP 0\r\n");
    for i in 0..30 { t.push_str(&format!("a=x{i}:1\r\n")); }
    let l = ParseLimits { max_attributes_per_section: 10, ..ParseLimits::default() };
    assert!(parse_sdp_with_limits(&t, l).is_err());''')),
dict(name="s09-repeat-last", property="S09", edits=E("mz3", "s9-r2"), needs="an r= line with offsets after the active duration", breaks="the active duration is read from the last word", deps=SDP,
 main=sdp(r'''    let s = parse_sdp("v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 1.2.3.4\r\nt=1 2\r\nr=7d 1h 0 25h\r\n").unwrap();
    assert_eq!(s.times[0].repeats[0].active_duration, "1h");''')),
dict(name="s10-mono-param", property="S10", edits=E("mz4", "s10-par"), needs="an rtpmap attribute with an explicit channel count of 1", breaks="the encoding parameters of name/rate/1 are dropped", deps=SDP,
 main=sdp(r'''    let s = parse_sdp(&format!("{H}m=audio 4000 RTP/AVP 97\r\na=rtpmap:97 L16/44100/1\r\n")).unwrap();
    assert_eq!(s.media[0].rtpmaps[&97].encoding_params.as_deref(), Some("1"));''')),
dict(name="p01-strict-trailing", property="P01", edits=E("mp", "p1-strict"), needs="a datagram with bytes after the declared body, parsed strictly", breaks="strict framing accepts a body longer than Content-Length", deps=["sip-parse", "bytes"],
 main=PAR % r'''    let d = Bytes::from_static(b"OPTIONS sip:a@b SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bK1\r\nFrom: <sip:a@b>;tag=1\r\nTo: <sip:a@b>\r\nCall-ID: 1\r\nCSeq: 1 OPTIONS\r\nMax-Forwards: 70\r\nContent-Length: 2\r\n\r\nabINVITE");
    assert!(parse_request_strict(&d).is_none());'''),
dict(name="p03-tab-fold", property="P03", edits=E("mp", "p3-fold"), needs="a header continued on a line that begins with a tab", breaks="a message with a tab-folded header is rejected", deps=["sip-parse", "bytes"],
 main=PAR % r'''    let d = Bytes::from_static(b"OPTIONS sip:a@b SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bK1\r\nFrom: <sip:a@b>;tag=1\r\nTo: <sip:a@b>\r\nCall-ID: 1\r\nCSeq: 1 OPTIONS\r\nMax-Forwards: 70\r\nSubject: one\r\n\ttwo\r\nContent-Length: 0\r\n\r\n");
    let r = parse_request(&d).expect("parses");
    assert!(r.headers().get("Subject").unwrap().ends_with("two"));'''),
dict(name="p05-maxforwards-last", property="P05", edits=E("mp", "p5-mflast"), needs="a request whose Max-Forwards header is not the last one", breaks="the serialised request carries Max-Forwards twice", deps=["sip-parse", "sip-core", "bytes"],
 main=PAR % r'''    let d = Bytes::from_static(b"OPTIONS sip:a@b SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bK1\r\nFrom: <sip:a@b>;tag=1\r\nTo: <sip:a@b>\r\nCall-ID: 1\r\nCSeq: 1 OPTIONS\r\nMax-Forwards: 7\r\nSubject: x\r\nContent-Length: 0\r\n\r\n");
    let t = String::from_utf8(serialize_request(&parse_request(&d).unwrap()).to_vec()).unwrap();
    assert_eq!(t.matches("Max-Forwards").count(), 1, "{t}");'''),
dict(name="l03-reset-prefix", property="L03", edits=E("ml", "l-reset"), needs="two keys one of which is a prefix of the other", breaks="resetting one key forgets the exhausted bucket of another", deps=["sip-ratelimit"],
 main='''use sip_ratelimit::*;
fn main() {
    let l = RateLimiter::new(RateLimitConfig::new(1, 3600).unwrap());
    assert!(l.check_rate_limit("10.0.0.1"));
    assert!(l.check_rate_limit("10.0.0.11"));
    assert!(!l.check_rate_limit("10.0.0.11"));
    l.reset("10.0.0.1");
    assert!(!l.check_rate_limit("10.0.0.11"));
}
'''),
dict(name="l01-key-257", property="L01", edits=E("ml", "l-256"), needs="a key of exactly 257 bytes", breaks="an over-long key is admitted and tracked", deps=["sip-ratelimit"],
 main='''use sip_ratelimit::*;
fn main() {
    let l = RateLimiter::new(RateLimitConfig::new(5, 3600).unwrap());
    assert!(l.check_rate_limit(&"k".repeat(256)));
    assert!(!l.check_rate_limit(&"k".repeat(257)));
}
'''),
]
REQ = r'''
fn req(s: &str) -> sip_core::Request { sip_parse::parse_request(&bytes::Bytes::from(s.to_string())).expect("request") }
fn resp(s: &str) -> sip_core::Response { sip_parse::parse_response(&bytes::Bytes::from(s.to_string())).expect("response") }
'''
DL = ["sip-dialog", "sip-core", "sip-parse", "bytes"]
S += [
dict(name="r06-tel-context", property="R06", edits=E("mr", "m-tel-ctx"), needs="a local tel URI carrying a phone-context and at least one other parameter", breaks="two numbers of different contexts share an address of record", deps=["sip-registrar", "sip-core"],
 main=r'''use sip_core::Uri;
use sip_registrar::normalize_aor;
fn main() {
    let a = normalize_aor(&Uri::parse("tel:5551234;phone-context=a.example;ext=1").unwrap());
    let b = normalize_aor(&Uri::parse("tel:5551234;phone-context=b.example;ext=1").unwrap());
    if let (Ok(a), Ok(b)) = (a, b) { assert_ne!(a, b); }
}
'''),
dict(name="r05-upsert-callid", property="R05", edits=E("mr", "m-upsert-callid"), needs="one device registering two contacts under one Call-ID", breaks="storing the second contact drops the first", deps=["sip-registrar"],
 main=r'''use sip_registrar::*;
use std::time::Duration;
fn main() {
    let s = MemoryLocationStore::new();
    for c in ["sip:a@h1", "sip:a@h2"] {
        s.upsert(Binding::new("sip:a@example.com".into(), c.into(), Duration::from_secs(60)).unwrap().with_call_id("one".into()).unwrap()).unwrap();
    }
    assert_eq!(s.lookup("sip:a@example.com").unwrap().len(), 2);
}
'''),
dict(name="d03-target-before-check", property="D03", edits=E("md", "x-target-before-check"), needs="an in-dialog request rejected for its CSeq that carries another Contact", breaks="a rejected request changes the remote target", deps=DL,
 main=r'''use sip_dialog::*;
use sip_core::SipUri;''' + REQ + r'''
fn main() {
    let m = |cs: u32, extra: &str, c: &str| format!("{} sip:b@h SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bK1\r\nFrom: <sip:a@h>;tag=1\r\nTo: <sip:b@h>{}\r\nCall-ID: 1\r\nCSeq: {} {}\r\nContact: <{}>\r\nMax-Forwards: 70\r\nContent-Length: 0\r\n\r\n", "INVITE", extra, cs, "INVITE", c);
    let q = req(&m(5, "", "sip:a@one"));
    let p = resp("SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP h;branch=z9hG4bK1\r\nFrom: <sip:a@h>;tag=1\r\nTo: <sip:b@h>;tag=2\r\nCall-ID: 1\r\nCSeq: 5 INVITE\r\nContact: <sip:b@h2>\r\nContent-Length: 0\r\n\r\n");
    let mut d = Dialog::new_uas(&q, &p, SipUri::parse("sip:b@h").unwrap(), SipUri::parse("sip:a@h").unwrap()).expect("dialog");
    let before = d.remote_target().as_str().to_string();
    assert!(d.update_from_request(&req(&m(3, ";tag=2", "sip:a@two"))).is_err());
    assert_eq!(before, d.remote_target().as_str());
}
'''),
dict(name="d06-nomark-199", property="D06", edits=E("md3", "d6-nomark"), needs="a reliable 199 response acknowledged twice", breaks="a repeated PRACK is accepted", deps=DL,
 main=r'''use sip_dialog::prack_validator::*;''' + REQ + r'''
fn main() {
    let v = PrackValidator::new();
    v.register_reliable_provisional("d", 9, 5, sip_core::Method::Invite, 199);
    let p = req("PRACK sip:b@h SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bK1\r\nFrom: <sip:a@h>;tag=1\r\nTo: <sip:b@h>;tag=2\r\nCall-ID: 1\r\nCSeq: 6 PRACK\r\nRAck: 9 5 INVITE\r\nMax-Forwards: 70\r\nContent-Length: 0\r\n\r\n");
    assert!(v.validate_prack("d", &p).is_ok());
    assert!(v.validate_prack("d", &p).is_err());
}
'''),
dict(name="r03-param-prefix", property="R03", edits=E("mr2", "b-param-prefix"), needs="a Contact parameter whose name begins with the name of a known one", breaks="expiresafter=5 is read as the contact's expires", deps=["sip-registrar", "sip-core", "sip-parse", "sip-auth", "bytes"],
 main=r'''use sip_registrar::*;''' + REQ + r'''
fn main() {
    let q = req("REGISTER sip:example.com SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bK1\r\nFrom: <sip:a@example.com>;tag=1\r\nTo: <sip:a@example.com>\r\nCall-ID: 1\r\nCSeq: 5 REGISTER\r\nContact: <sip:a@h1>;expiresafter=900;expires=600\r\nExpires: 500\r\nMax-Forwards: 70\r\nContent-Length: 0\r\n\r\n");
    let r: BasicRegistrar<MemoryLocationStore, sip_auth::DigestAuthenticator<sip_auth::MemoryCredentialStore>> = BasicRegistrar::new(MemoryLocationStore::new(), None);
    let p = r.handle_register(&q).unwrap();
    assert!(p.headers().get("Contact").unwrap().contains("expires=600"), "{:?}", p.headers().get("Contact"));
}
'''),
dict(name="i04-open-bracket", property="I04", edits=E("mi", "i4-br"), needs="an Identity header whose info parameter opens with < and never closes", breaks="an unbalanced info URI is accepted", deps=["sip-identity"],
 main=r'''use sip_identity::*;
fn main() {
    assert!(IdentityHeader::parse("a.b.c;info=<https://x/y;alg=ES256;ppt=shaken").map(|h| h.info != "https://x/y").unwrap_or(true));
    assert!(IdentityHeader::parse("a.b.c;info=<https://x/y>;alg=ES256;ppt=shaken").is_ok());
}
'''),
]
