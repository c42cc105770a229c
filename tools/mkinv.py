#!/usr/bin/env python3
"""Propose specs/inv.json from today's tree (run by hand; every line is then reviewed and
the file is committed -- the checks read the committed file only)."""
import sys, os, json
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from inv import *
from ir import Program

GROUPS = {
    "H01": ["headers::Header", "headers::Headers"],
    "M01": ["method::Method", "msg::StatusLine", "msg::Request", "msg::Response", "sipfrag::SipFrag"],
    "U01": ["uri::SipUri", "tel_uri::TelUri", "name_addr::NameAddr", "via::ViaHeader"],
    "V01": ["auth::AuthorizationHeader", "event::EventHeader", "event::SubscriptionState", "event::SubscriptionStateHeader", "geolocation::GeolocationErrorHeader",
            "geolocation::GeolocationHeader", "geolocation::GeolocationRoutingHeader", "geolocation::GeolocationValue", "history_info::HistoryInfoEntry",
            "history_info::HistoryInfoHeader", "mime::MimeType", "reason::ReasonHeader", "referred_by::ReferredByHeader", "replaces::ReplacesHeader",
            "security::SecurityEntry", "security::SecurityClientHeader", "security::SecurityServerHeader", "security::SecurityVerifyHeader", "security::SecurityMechanism",
            "service_route::PathHeader", "service_route::ServiceRouteHeader", "sip_etag::SipETagHeader", "sip_etag::SipIfMatchHeader", "subject::SubjectHeader", "token_list::TokenList",
            "privacy::PrivacyHeader", "resource_priority::ResourcePriorityHeader", "resource_priority::ResourcePriorityValue"],
    "V02": ["p_headers::PAccessNetworkInfo", "p_headers::PAssertedIdentityHeader", "p_headers::PIdentity", "p_headers::PPreferredIdentityHeader", "p_headers::PVisitedNetworkIdHeader"],
    "B01": ["cpim::CpimHeader", "cpim::CpimMessage", "message_waiting::MessageHeader", "message_waiting::MessageSummary", "presence::PresenceDocument", "presence::Tuple",
            "reg_event::Contact", "reg_event::RegInfo", "reg_event::Registration", "watcher_info::Watcher", "watcher_info::WatcherList", "watcher_info::WatcherinfoDocument"],
    "S01": ["sdp::Attribute", "sdp::CapabilityDescription", "sdp::Connection", "sdp::EncryptionKey", "sdp::Fmtp", "sdp::MediaDescription", "sdp::MediaGroup", "sdp::Origin",
            "sdp::RepeatTime", "sdp::RtpMap", "sdp::SdpCapabilitySet", "sdp::SdpSession", "sdp::TimeZone", "sdp_offer_answer::AnswerOptions", "sdp_offer_answer::CodecInfo"],
    "N01": ["rseq::RSeqHeader", "rseq::RAckHeader", "session_timer::SessionExpires", "session_timer::MinSessionExpires"],
   

}
TOKEN = ALNUM | chars("-.!%*_+`'~")
CLASSES = [("digit", DIGIT), ("alnum", ALNUM), ("token", TOKEN), ("token-lower", TOKEN - UPPER), ("http-token", TOKEN | chars("#$&^|")),
           ("visible-ascii", GRAPHIC), ("no-space", FULL - CTL - C1 - WS_ASCII - WS_NON), ("no-space-c0", FULL - CTL - WS_ASCII), ("no-control", FULL - CTL - C1), ("no-control-c0", FULL - CTL),
           ("no-control-ht", (FULL - CTL - C1) | chars("\t")), ("no-control-c0-ht", (FULL - CTL) | chars("\t")), ("no-crlf-nul", FULL - CRLFNUL)]
MANUAL = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../specs/inv_manual.json")))


def main():
    prog = Program(); eng = Engine(prog); P = Prover(eng); C = Claims(P)
    crates = set(prog.crates) - {"sip_testkit"}
    byf = by_field(prog, eng, crates)
    res = {}
    for key, q, b in MANUAL["claims"]:
        a, f, r = key
        res[((a, f, r), q)] = b
        {"len": C.len, "max": C.max}[q][(a, f, r)] = b
    for rnd in range(2):
        for (a, f), l in sorted(byf.items()):
            ty = prog.field_ty(a, None, f)
            k = kind(ty) if ty is not None and "Error" not in a else None
            if k is None:
                continue
            base = k.split(":")[-1]
            for role in [""] + roles(ty, k):
                qs = ["len", "chars", "minlen"] if base == "str" or role else ["max", "min"] if base == "num" else ["len", "minlen"]
                for q in qs:
                    if q == "minlen" and role:
                        continue
                    key = (a, f, role)
                    if any(k2 == list(key) and q2 == q for k2, q2, _ in MANUAL["claims"]):
                        continue
                    try:
                        m, _ = infer(C, l, key, k, q)
                    except Unknown:
                        m = None
                    if m is None or m == FULL:
                        continue
                    if q == "max" and m >= {"u8": 255, "u16": 65535, "u32": 2**32 - 1}.get(base and ty.peel().s if k == "num" else ty.peel().a[0].s, 1 << 63):
                        continue
                    res[(key, q)] = m
    out = {}
    for pid, adts in GROUPS.items():
        rows = []
        for x in adts:
            ids = [a for a in prog.adts if a.endswith("::" + x) and (("sip_core" in a) or pid in ("R01", "X01"))]
            assert len(ids) == 1, (x, ids)
            a = ids[0]
            n = 0
            for v in prog.adts[a]["variants"]:
                for i, fl in enumerate(v["fields"]):
                    c = []
                    for role in ("", "e", "k", "v"):
                        for q in ("len", "minlen", "min", "max", "chars"):
                            m = res.get(((a, fl["name"], role), q))
                            if m is None:
                                continue
                            if q == "chars":
                                for nm, cs in CLASSES:
                                    if m.subset(cs):
                                        break
                                else:
                                    continue
                                # structural exclusions beyond the class are pinned too
                                c.append([role, q, nm] if (cs - m) == EMPTY or nm not in ("no-space", "no-control", "no-control-c0") else [role, q, nm + "-except:" + exc(cs - m)])
                            else:
                                c.append([role, q, m])
                    if c:
                        rows.append({"adt": a, "variant": v["name"], "field": fl["name"], "index": i, "claims": c, "private": not fl["vis"] == "pub"})
        out[pid] = rows
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../specs/inv.json")
    with open(p, "w") as h:
        h.write("{\n" + ",\n".join(f'"{pid}": [\n' + ",\n".join(" " + json.dumps(r) for r in rows) + "\n]" for pid, rows in out.items()) + "\n}\n")


def exc(cs):
    """printable ASCII characters excluded inside the class"""
    return "".join(chr(c) for c in range(32, 127) if c in cs)


main()
