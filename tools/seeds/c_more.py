import os, runpy
D = os.path.join("/verif", "tools/mutants")
def E(f, name):
    for m in runpy.run_path(f"{D}/{f}.py")["M"]:
        if m[0] == name: return [tuple(e) for e in m[2]]
    raise KeyError(name)
H = 'const H: &str = "v=0\\r\\no=- 1 1 IN IP4 1.2.3.4\\r\\ns=-\\r\\nc=IN IP4 1.2.3.4\\r\\nt=0 0\\r\\n";\n'
DLG = "use sip_dialog::*;\nuse sip_core::SipUri;\nfn req(s: &str) -> sip_core::Request { sip_parse::parse_request(&bytes::Bytes::from(s.to_string())).expect(\"request\") }\nfn resp(s: &str) -> sip_core::Response { sip_parse::parse_response(&bytes::Bytes::from(s.to_string())).expect(\"response\") }\n"
S = [
dict(name="p02-cseq-comment", property="P02", edits=E("my", "y-cseqwin"), needs="a CSeq value with a third word that starts with an opening parenthesis", breaks="a CSeq value with trailing text is accepted by the message parser", deps=["sip-parse", "sip-core", "bytes"],
 main=r'''fn main() {
    let m = |c: &str| format!("OPTIONS sip:b@h SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bK1\r\nFrom: <sip:a@h>;tag=1\r\nTo: <sip:b@h>\r\nCall-ID: 1\r\nCSeq: {c}\r\nMax-Forwards: 70\r\nContent-Length: 0\r\n\r\n");
    assert!(sip_parse::parse_request(&bytes::Bytes::from(m("7 OPTIONS"))).is_some());
    assert!(sip_parse::parse_request(&bytes::Bytes::from(m("7 OPTIONS (again)"))).is_none());
}'''),
dict(name="i03-attest-low", property="I03", edits=E("mw", "w-attestlow"), needs="an attest claim written in lower case", breaks="an attest value outside A, B, C is read as full attestation", deps=["sip-identity"],
 main=r'''fn main() {
    assert!(sip_identity::AttestationLevel::parse("A").is_ok());
    assert!(sip_identity::AttestationLevel::parse("a").is_err());
}'''),
dict(name="d02-rr-repeat", property="D02", edits=E("mu", "u-rrskip"), needs="a request that passed the same record-routing proxy twice in a row (a spiral)", breaks="the second of two equal adjacent Record-Route entries is missing from the route set", deps=["sip-dialog", "sip-core", "sip-parse", "bytes"],
 main=DLG + r'''
fn main() {
    let q = req("INVITE sip:b@h SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bK1\r\nRecord-Route: <sip:p;lr>\r\nRecord-Route: <sip:p;lr>\r\nFrom: <sip:a@h>;tag=1\r\nTo: <sip:b@h>\r\nCall-ID: 1\r\nCSeq: 5 INVITE\r\nContact: <sip:a@one>\r\nMax-Forwards: 70\r\nContent-Length: 0\r\n\r\n");
    let p = resp("SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP h;branch=z9hG4bK1\r\nFrom: <sip:a@h>;tag=1\r\nTo: <sip:b@h>;tag=2\r\nCall-ID: 1\r\nCSeq: 5 INVITE\r\nContact: <sip:b@h2>\r\nContent-Length: 0\r\n\r\n");
    let d = Dialog::new_uas(&q, &p, SipUri::parse("sip:b@h").unwrap(), SipUri::parse("sip:a@h").unwrap()).expect("dialog");
    assert_eq!(d.route_set().len(), 2);
}'''),
dict(name="l01-key-trim", property="L01", edits=E("mv", "v-keytrim"), needs="two keys that differ only in trailing white space", breaks="two distinct keys share one budget", deps=["sip-ratelimit"],
 main=r'''use sip_ratelimit::*;
fn main() {
    let l = RateLimiter::new(RateLimitConfig::new(1, 3600).unwrap());
    assert!(l.check_rate_limit("alice"));
    assert!(!l.check_rate_limit("alice"));
    assert!(l.check_rate_limit("alice "));
}'''),
dict(name="s04-dirlast", property="S04", edits=E("mk", "k-dirlast"), needs="a media section that carries two direction attributes", breaks="the last direction attribute of the list decides instead of the first", deps=["sip-sdp"],
 main="use sip_sdp::{parse::*, negotiate::*, *};\n" + H + r'''fn main() {
    let offer = parse_sdp(&format!("{H}m=audio 4000 RTP/AVP 0\r\na=sendonly\r\na=inactive\r\n")).unwrap();
    let local = parse_sdp(&format!("{H}m=audio 5000 RTP/AVP 0\r\na=sendrecv\r\n")).unwrap();
    let a = negotiate_answer(&offer, "10.0.0.1", &local).unwrap();
    assert!(format!("{:?}", a.media[0].attributes).to_lowercase().contains("recvonly"));
}'''),
dict(name="s10-rtpkeep", property="S10", edits=E("mk", "k-rtpkeep"), needs="two rtpmap attributes for one payload type", breaks="the first rtpmap of a payload type wins over the last", deps=["sip-sdp"],
 main="use sip_sdp::{parse::*, *};\n" + H + r'''fn main() {
    let s = parse_sdp(&format!("{H}m=audio 4000 RTP/AVP 97\r\na=rtpmap:97 A/8000\r\na=rtpmap:97 B/16000\r\n")).unwrap();
    assert_eq!(s.media[0].rtpmaps[&97].clock_rate, 16000);
}'''),
dict(name="u01-param-nul", property="U01", edits=E("mc", "c-withparam"), needs="a parameter value that ends in a NUL character, set through the builder", breaks="a URI holds a control character", deps=["sip-core"],
 main=r'''use sip_core::SipUri;
fn main() {
    let u = SipUri::parse("sip:a@h").unwrap();
    assert!(u.clone().with_param("x", Some("y")).is_ok());
    assert!(u.with_param("x", Some("y\0")).is_err());
}'''),
dict(name="t05-digits", property="T05", edits=E("mt2", "t5-alnum"), needs="a telephone number with digits outside ASCII", breaks="a lookup name is made with labels that are not ASCII digits", deps=["sip-dns"],
 main=r'''fn main() {
    assert!(sip_dns::enum_to_domain("+1234").is_some());
    assert!(sip_dns::enum_to_domain("+12\u{0663}4").map_or(true, |d| d.is_ascii()));
}'''),
]
S += [
dict(name="m02-width-write", property="M02", edits=E("mg", "h2-nowrite"), needs="a count whose decimal text gets shorter when it is lowered, such as 100", breaks="the lowered count is returned but the header keeps its old value", deps=["sip-core"],
 main=r'''use sip_core::*;
fn main() {
    for n in [1u32, 9, 69, 99, 255, 10, 100] {
        let mut h = Headers::new();
        h.push("max-forwards", n.to_string()).unwrap();
        assert_eq!(decrement_max_forwards(&mut h).unwrap(), n - 1);
        assert_eq!(h.get("Max-Forwards"), Some((n - 1).to_string().as_str()));
        assert_eq!(h.len(), 1);
    }
}'''),
dict(name="m02-leading-zero", property="M02", edits=E("mg", "h2-lead"), needs="a Max-Forwards value written with a leading zero", breaks="a well-formed count is refused", deps=["sip-core"],
 main=r'''use sip_core::*;
fn main() {
    let mut h = Headers::new();
    h.push("Max-Forwards", "070").unwrap();
    assert_eq!(decrement_max_forwards(&mut h).unwrap(), 69);
}'''),
]
