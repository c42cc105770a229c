"""Source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
P = []


def prop(id, title, statement, qtext, why, files, mech, technique, note, over=("inputs", "programs"), observe=(), state=(), level="other"):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": qtext}, why_tests_cant=why,
                  anchors={"files": list(files), "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe),
                           "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "hook_needed": None},
                  technique=technique, note=note, level=level))

NA = []
INV_T = "abstract interpretation of MIR with must-facts: inductive type-invariant proof at every construction and write site"
INV_N = ("Decides the bound for all inputs and all call histories of the public API by induction over construction and write sites in the compiled MIR; "
         "trusts the library models for std, smol_str and bytes operations and rustc's privacy checking.")
INV_W = ("The existing tests try a few over-long or control-bearing values on some constructors; the guarantee quantifies over every input string and every sequence of "
         "constructors, parsers, setters and conversions that can reach the stored value.")

prop("H01", "Header collections stay free of line breaks and within their size limits",
     "However a header collection is built or changed (parsing, appending, inserting, replacing, extending, deserialising), every header name in it is a non-empty "
     "SIP token of at most 128 bytes, every header value is at most 8192 bytes and contains no CR, LF or NUL byte, and the collection never holds more than 200 headers. "
     "An operation that would break this is refused and stores nothing of the offending header.",
     "every name/value string and every sequence of public operations on a header collection", INV_W,
     ["crates/sip-core/src/headers.rs"], [("header field validation", "crates/sip-core/src/headers.rs Header::new / validate_*"), ("count check on growth", "crates/sip-core/src/headers.rs Headers::push")],
     INV_T, INV_N, observe=["Headers::iter", "serialize_request"])
prop("M01", "Message model: methods, status codes, reasons and bodies stay in bounds",
     "Every extension method name a message can carry is a non-empty SIP token of at most 32 bytes; every response status code is between 100 and 699 and its reason phrase is at most "
     "256 bytes without control characters. Bodies attached to requests and responses never exceed 10 MiB, and the body of a message fragment never exceeds 64 KiB.",
     "every value passed to any public constructor, parser or setter of the message model", INV_W,
     ["crates/sip-core/src/method.rs", "crates/sip-core/src/msg.rs", "crates/sip-core/src/sipfrag.rs"],
     [("Method token check", "crates/sip-core/src/method.rs"), ("StatusLine and body checks", "crates/sip-core/src/msg.rs"), ("fragment body check", "crates/sip-core/src/sipfrag.rs")],
     INV_T, INV_N)
prop("U01", "URIs, name-addresses and Via values never carry illegal or oversized components",
     "However a SIP URI, tel URI, name-address or Via value is built or modified, each stored component obeys its limit: SIP user and host are non-empty, at most 256 bytes and free of control characters "
     "(the user also of unescaped : # / ; ? @ [ ]), a port is never 0, parameter and URI-header names are tokens of at most 64 bytes, their values at most 256 (URI headers 512) bytes without control characters. "
     "A SIP URI holds at most 50 parameters and 50 headers, a name-address at most 64 parameters with a display name of at most 256 control-free bytes, a Via at most 20 parameters with a token transport of at most 32 bytes and a sent-by of at most 256 bytes.",
     "every input string and every sequence of public constructors, parsers and builder calls on these values", INV_W,
     ["crates/sip-core/src/uri.rs", "crates/sip-core/src/tel_uri.rs", "crates/sip-core/src/name_addr.rs", "crates/sip-core/src/via.rs"],
     [("URI component validation", "crates/sip-core/src/uri.rs"), ("tel URI validation", "crates/sip-core/src/tel_uri.rs"), ("name-addr validation", "crates/sip-core/src/name_addr.rs"), ("Via validation", "crates/sip-core/src/via.rs")],
     INV_T, INV_N)
prop("V01", "Typed header values keep their tokens, parameters and list sizes in bounds",
     "Every typed header value (authorization, event, subscription state, geolocation, history-info, MIME type, reason, referred-by, replaces, security, path and service-route, entity tag, subject, token lists, privacy, resource priority) stores only parts that obey its limits, "
     "however it was parsed, built or extended: names and tokens are non-empty where required, of bounded length and of the permitted characters (never control characters), parameter counts are capped (20; authorization 30) and list sizes are capped (10 or 50 entries).",
     "every input and every sequence of public operations on the typed header values", INV_W,
     ["crates/sip-core/src/auth.rs", "crates/sip-core/src/event.rs", "crates/sip-core/src/geolocation.rs", "crates/sip-core/src/history_info.rs", "crates/sip-core/src/mime.rs", "crates/sip-core/src/reason.rs",
      "crates/sip-core/src/referred_by.rs", "crates/sip-core/src/replaces.rs", "crates/sip-core/src/security.rs", "crates/sip-core/src/service_route.rs", "crates/sip-core/src/sip_etag.rs", "crates/sip-core/src/subject.rs",
      "crates/sip-core/src/token_list.rs", "crates/sip-core/src/privacy.rs", "crates/sip-core/src/resource_priority.rs"],
     [("per-type validation in constructors and setters", "the files listed")], INV_T, INV_N)
prop("V02", "P-header values keep identities, networks and parameters in bounds",
     "P-Access-Network-Info, P-Asserted-Identity, P-Preferred-Identity and P-Visited-Network-ID values never hold an access type that is empty, longer than 64 bytes or contains control characters, a display name or visited network over 256 bytes or with control characters, "
     "more than 10 (and never zero) identities, more than 20 visited networks, or more than 20 parameters; parameter names are tokens of at most 64 bytes and values at most 256 control-free bytes.",
     "every input and every sequence of public operations on the P-header values", INV_W,
     ["crates/sip-core/src/p_headers.rs"], [("P-header validation", "crates/sip-core/src/p_headers.rs")], INV_T, INV_N)
prop("B01", "Event and messaging bodies keep every stored field within its limits",
     "CPIM messages, presence documents, registration-event documents, watcher-information documents and message-waiting summaries never store a field that exceeds its length limit or contains a control character, nor a collection beyond its cap "
     "(for example 50 tuples and 20 notes per presence document, 100 registrations of 50 contacts, 1000 watchers per list and 100 lists, 50 message header blocks, 20 CPIM content headers, 10 CPIM header parameters), whichever parser, constructor or adder supplied it. "
     "Identifiers, entities, address-of-records and URIs in them are never empty.",
     "every input document and every sequence of public operations on these documents", INV_W,
     ["crates/sip-core/src/cpim.rs", "crates/sip-core/src/presence.rs", "crates/sip-core/src/reg_event.rs", "crates/sip-core/src/watcher_info.rs", "crates/sip-core/src/message_waiting.rs"],
     [("per-document validation", "the files listed")], INV_T, INV_N)
prop("S01", "SDP model values stay within their length, count and range limits",
     "However a session-description value (origin, connection, media, attribute, rtpmap, fmtp, key, repeat and time zone, grouping, capability set, answer options, codec) is parsed or built, its text fields stay within their length limits and contain no line breaks or other control characters except tab, "
     "rtpmap payload types are at most 127 with a clock rate between 1 and 1000000000, capability numbers are at least 1, and list fields stay within their caps (50 or 100 entries, 128 formats, 20 rejected media).",
     "every session description text and every sequence of public constructor and setter calls", INV_W,
     ["crates/sip-core/src/sdp.rs", "crates/sip-core/src/sdp_offer_answer.rs"], [("SDP field validation", "crates/sip-core/src/sdp.rs"), ("answer option validation", "crates/sip-core/src/sdp_offer_answer.rs")], INV_T, INV_N)
prop("N01", "Numeric protocol values stay in their legal ranges",
     "A reliable-provisional sequence (RSeq), and the response number and CSeq number acknowledged by RAck, are always between 1 and 2147483647; a session interval is always between 90 and 86400 seconds and a minimum session interval between 90 and 7200 seconds; "
     "a rate limit never has more than 1000000 requests or burst tokens nor a window above 86400 seconds. This holds however the value is parsed, built or adjusted.",
     "every number and every sequence of constructors, parsers and builder calls", INV_W,
     ["crates/sip-core/src/rseq.rs", "crates/sip-core/src/session_timer.rs", "crates/sip-ratelimit/src/lib.rs"], [("range checks", "the files listed")], INV_T, INV_N)

# ---------------------------------------------------------------- digest authentication
ABS_T = "abstract interpretation of MIR: path facts and normal forms of returned values compared with the specification"
ABS_N = ("Decides the property for all inputs and configurations from the compiled MIR of every path through the entry points; trusts the library models (std, DashMap, SmolStr, digest crates' "
         "update/finalize algebra) and that hash functions are what their type names say. Loops are summarised by invariants, not unrolled.")
AUTH = ["crates/sip-auth/src/lib.rs"]
prop("A01", "Digest verification accepts only a correct response to a live challenge",
     "Server-side digest verification (synchronous and asynchronous) returns Ok(true) only if the Authorization header (Proxy-Authorization when the authenticator is a proxy's) uses the Digest scheme, its realm, opaque, algorithm (or its absence) and qop match the authenticator, "
     "its digest-uri equals the Request-URI, nc and cnonce are present, its nonce is one this authenticator issued and has not expired, and its response equals, compared in constant time, the RFC 7616 value computed from the stored password of exactly the presented username and realm with the presented nonce, nc, cnonce and qop, "
     "the request's method and, for auth-int, its body; for each of the eight algorithms.",
     "every request, header content, stored credential and authenticator configuration", "Tests verify some matching and mismatching responses; the guarantee is that no combination of header parameters and no path through the code reaches acceptance without every one of the checks.",
     AUTH, [("verification", "crates/sip-auth/src/lib.rs DigestAuthenticator::verify, verify_async")], ABS_T, ABS_N, over=("inputs",))
prop("A02", "Digest client, server and mutual authentication compute the same formulas",
     "The header a digest client produces announces exactly the username, realm, nonce, uri, algorithm, qop, nc, cnonce and opaque over which its response was computed, and that response is the RFC 7616 value for them, so a server holding the same password accepts it. "
     "The rspauth value a server sends and the one a client requires before it accepts Authentication-Info are the same RFC 7616 value (empty method, response body) for every algorithm and qop, and the client compares it in constant time.",
     "every credential, challenge, method, URI, body, algorithm and qop", "Agreement of two separately written computations for all inputs cannot be sampled; a slip in one formula shows only for the algorithm, qop or field it touches.",
     AUTH, [("client header", "crates/sip-auth/src/lib.rs DigestClient::generate_authorization"), ("mutual authentication", "crates/sip-auth/src/lib.rs rspauth")], ABS_T, ABS_N, over=("inputs",))
prop("A03", "Digest replay protection",
     "A nonce count is accepted at most once per nonce, apart from a retransmission of the same method, URI and body: verification returns Ok(true) only if nc is at least 1 and either above the highest count recorded for the nonce, in which case it and a hash of the request are recorded under the map's write lock, or equal to it with the recorded hash matching, and only within the reuse window. "
     "Recorded counts never decrease, and a request whose response does not match changes no stored nonce state.",
     "every sequence of requests, valid or forged, and every interleaving of verifications on one authenticator", "Replay windows open on sequences and interleavings of requests (forged between genuine ones), which the tests sample only singly.",
     AUTH, [("nonce count check", "crates/sip-auth/src/lib.rs Nonce::validate_nc_with_request"), ("commit under lock", "crates/sip-auth/src/lib.rs NonceManager::verify_with_nc")], ABS_T, ABS_N, over=("inputs", "histories", "schedules"))
prop("A04", "Secrets are compared in constant time, redacted and wiped",
     "In the digest code no branch depends on a password, a hash derived from one, or the authenticator's opaque token other than through a constant-time comparison; Debug, Display and serialisation of credential types never read the password; "
     "credential types wipe their password when dropped, and every string into which a plaintext password is copied for hashing is wiped on all paths after use.",
     "every input and every path through the digest code", "Timing channels, log leaks and memory remnants are invisible to functional tests.",
     AUTH, [("constant-time comparison", "crates/sip-auth/src/lib.rs constant_time_eq"), ("redacted Debug and ZeroizeOnDrop", "crates/sip-auth/src/lib.rs Credentials, DigestClient")],
     "information-flow analysis over MIR path facts and call arguments; effect check of drop and formatting code", ABS_N, over=("inputs", "programs"))
prop("A05", "Challenges are complete and answerable",
     "A challenge response is a 407 with exactly one Proxy-Authenticate header when the authenticator is a proxy's and otherwise a 401 with exactly one WWW-Authenticate; it announces the configured realm, algorithm and qop, the authenticator's opaque and a freshly generated nonce that has been stored as valid and unused, and stale=true exactly when it is a stale challenge; "
     "it carries every Via of the request in order, its From, Call-ID and CSeq unchanged and its To with a tag added if none was present.",
     "every request and authenticator configuration", "The tests check some headers of some challenges; completeness must hold for each algorithm, qop, proxy mode and any number of Via headers.",
     AUTH, [("challenge construction", "crates/sip-auth/src/lib.rs challenge, challenge_stale")], ABS_T, ABS_N, over=("inputs",))
prop("A06", "Random nonces, a bounded nonce store and rate-limited credential work",
     "Nonces and opaque values are at least 32 and client nonces at least 16 random alphanumeric characters from the thread's cryptographic generator, and the client's nonce count advances by one with each header it generates. A nonce is stored only when the store is below its limit, or after expired nonces were purged and, if still full, at least one of the oldest nonces was removed. "
     "With a rate limiter configured, credentials are looked up only after the limiter admitted the request's source, or when the request has none.",
     "every configuration and sequence of challenges and verifications", "Randomness quality and growth bounds are invisible in single-shot tests; the limit must hold whatever the configured maximum is.",
     AUTH, [("nonce generation and eviction", "crates/sip-auth/src/lib.rs NonceManager::generate"), ("rate limit", "crates/sip-auth/src/lib.rs prepare_digest")], ABS_T, ABS_N, over=("inputs", "histories"))

prop("A07", "The user name taken for authorisation belongs to the verified credentials",
     "extract_auth_username returns nothing but the username parameter of the request's Digest Authorization or Digest Proxy-Authorization header (the first of its name, which is the one verification uses). When both headers carry Digest user names it returns one only if they are equal, because only one of them has been verified.",
     "every header collection", "An attacker adds a second credentials header to a request whose first one verifies; tests use one header at a time.",
     AUTH, [("identity extraction", "crates/sip-auth/src/lib.rs extract_auth_username")], ABS_T, ABS_N, over=("inputs",))

# ---------------------------------------------------------------- registrar
REG = ["crates/sip-registrar/src/lib.rs"]
prop("R01", "Registrations change only for the authenticated owner of the address-of-record",
     "When an authenticator is configured, a REGISTER (synchronous or asynchronous) changes the location store only after the authenticator verified that very request, and only for the address-of-record of its To header, whose identity (user part of a sip or sips AOR, number of a tel AOR) equals the verified user name after NFC normalisation, ASCII case aside. "
     "An AOR without an identity can be changed by nobody, a request that does not verify is answered with the authenticator's challenge (stale only if its nonce is stale), and no other public operation of the registrar changes the store.",
     "every REGISTER request, authenticator result and store content", "Hijacking needs one unchecked path or one field taken from the wrong place; tests walk a handful of paths through two long handlers that must agree.",
     REG, [("handler authorisation", "crates/sip-registrar/src/lib.rs handle_register, handle_register_async"), ("identity of an AOR", "crates/sip-registrar/src/lib.rs aor_identity, usernames_equal")], ABS_T, ABS_N, over=("inputs",))
prop("R02", "A REGISTER is admitted only in order, in bounds and within the rate limit",
     "On every path to a change of the location store in REGISTER handling: a configured rate limiter admitted the request's key; CSeq names REGISTER and its number is a 32-bit integer; no stored binding of the same contact (for the wildcard: of the AOR) has the request's Call-ID with a CSeq at or above the request's; "
     "all bindings are removed only for the wildcard as the only contact with Expires 0; a contact is stored or removed only if it parses as a SIP URI and no contact of the request is the wildcard; a binding is stored only for a non-zero lifetime between the configured minimum and maximum, and removed only for lifetime zero.",
     "every REGISTER request, configuration and store content", "The conditions combine over two handlers, several contacts per request and the store's history; tests check single conditions in one handler.",
     REG, [("handler checks", "crates/sip-registrar/src/lib.rs handle_register, handle_register_async"), ("lifetime bounds", "crates/sip-registrar/src/lib.rs parse_expires")], ABS_T, ABS_N, over=("inputs", "histories"))
prop("R03", "A stored binding is exactly what the REGISTER said",
     "Each binding a REGISTER stores holds the normalised To as AOR, the URI of one Contact value as contact, the request's Call-ID and CSeq number, and as lifetime that contact's expires parameter, or else the Expires header, or else the configured default; q is the contact's q parameter between 0 and 1 (1 when absent), "
     "and User-Agent, Path, +sip.instance and reg-id are those given, or absent.",
     "every REGISTER request with any number of contacts", "Each field of each binding must come from the right place for every combination of optional parts and in both handlers; tests look at a few fields.",
     REG, [("binding construction", "crates/sip-registrar/src/lib.rs handle_register, handle_register_async")], ABS_T, ABS_N, over=("inputs",))
prop("R04", "Registrar responses are routable and report what is stored",
     "Every response the REGISTER handlers build carries every Via of the request in order, its From, Call-ID and CSeq unchanged, its To with a tag (its own or a fresh random one) and Content-Length 0 with an empty body. A 200 for contacts carries one Contact, with its lifetime, for each binding the store returns for the AOR after the changes; "
     "423 carries Min-Expires with the configured minimum; and 200 is sent only if the authenticator, when configured, verified the request. (If a complete 400 cannot be built at all, a bare one is sent.)",
     "every REGISTER request and every path that ends in a response", "There are dozens of response sites in two handlers; tests check the headers of a few.",
     REG, [("response construction", "crates/sip-registrar/src/lib.rs build_error_response, handle_register, handle_register_async")], ABS_T, ABS_N, over=("inputs",))
prop("R05", "The in-memory location store keeps exactly the live bindings",
     "In the in-memory location store, upsert drops only stored bindings with the new binding's contact (or expired ones) and then stores the new binding, every field of it and with expiry now plus its lifetime, under its own AOR, and only if fewer than 20 other contacts are stored for that AOR and fewer than 100000 bindings in all; remove drops only the given contact of the given AOR, remove_all only the given AOR, "
     "clean-up only what has expired; lookup returns exactly the unexpired bindings of the given AOR with their fields and remaining lifetime. The asynchronous operations and both adapters forward each operation with its own arguments.",
     "every sequence of store operations and every binding", "What must not be touched (other contacts, other AORs, other fields) is unbounded; tests look at small stores.",
     REG, [("store operations", "crates/sip-registrar/src/lib.rs MemoryLocationStore"), ("adapters", "crates/sip-registrar/src/lib.rs AsyncToSyncAdapter, SyncToAsyncAdapter")],
     "abstract interpretation of MIR: effect analysis of every store mutation with its path facts and closure semantics", ABS_N, over=("inputs", "histories"))
prop("R06", "Addresses-of-record are normalised canonically, never merging different users",
     "normalize_aor returns exactly scheme (sip and sips kept apart), the user unchanged (less a suffix @domain equal to the host) and @ when present, the host in ASCII lower case, and the port when present; for tel URIs the number without the visual separators - . ( ) and space and nothing else removed, for local numbers the phone-context (separators removed when it is a number, else in lower case), "
     "then every other parameter with lower-case name and unchanged value in sorted order. URIs of other schemes are refused.",
     "every URI", "Two subscribers are merged or one is split by a slip in a single URI shape; tests try some shapes.",
     REG, [("AOR normalisation", "crates/sip-registrar/src/lib.rs normalize_aor")], ABS_T, ABS_N, over=("inputs",))
prop("R07", "Registration bindings stay within their limits",
     "However a binding is built or read back from the in-memory store, its contact is at most 512, its Call-ID and User-Agent at most 256 bytes, none of them contains a control character, and its CSeq is at most 2147483647.",
     "every value and every sequence of public operations on bindings and the in-memory store", INV_W, REG, [("binding validation", "crates/sip-registrar/src/lib.rs Binding")], INV_T, INV_N)

# ---------------------------------------------------------------- dialogs
DLG = ["crates/sip-dialog/src/lib.rs"]
prop("D01", "Dialog identifiers come from the right headers on the right side",
     "Every dialog or subscription identifier taken from a message has its Call-ID header as Call-ID and its From and To tags as local and remote tag, on the side that the method's role prescribes; a dialog created for a UAC has the From tag as local tag, one created for a UAS the To tag of its response. "
     "A request matches a dialog exactly when its Call-ID equals the dialog's, its From tag the remote and its To tag the local tag. The managers look dialogs and subscriptions up by that identifier and store each under its own.",
     "every message and every dialog", "A swapped or missing tag merges or loses calls only for particular tag combinations and roles.",
     DLG, [("identifier extraction", "crates/sip-dialog/src/lib.rs DialogId, SubscriptionId, extract_tag"), ("matching", "crates/sip-dialog/src/lib.rs DialogManager")], ABS_T, ABS_N, over=("inputs",))
prop("D02", "A new dialog takes its state from the messages that created it",
     "Dialog::new_uac and Dialog::new_uas return a dialog that is Early only for a 1xx and Confirmed only for a 2xx response, and none otherwise. Its remote target is the Contact of the peer's message (the response for a UAC, the request for a UAS) or, without a usable one, the remote URI; "
     "its route set consists of the Record-Route values of that message, reversed for a UAC and in order for a UAS; the request's CSeq number (1 to 2147483647) is its local (UAC) or remote (UAS) CSeq and the other is 0; "
     "its URIs are those given, it is secure exactly when one of them is a sips URI, its role is that of the constructor, and its session interval is absent or 90 to 86400 seconds.",
     "every request and response that can create a dialog", "Each field must come from the right one of two messages in both roles; tests build a few dialogs and look at some fields.",
     DLG, [("dialog construction", "crates/sip-dialog/src/lib.rs Dialog::new_uac, Dialog::new_uas")], ABS_T, ABS_N, over=("inputs",))
prop("D03", "Dialog and subscription state only moves forward",
     "No public operation changes a dialog's identifier, local and remote URI, secure flag or role. Its state stays, becomes Terminated, or goes from Early to Confirmed; a 2xx passed to update_from_response confirms an early dialog and no other response changes the state. "
     "The route set changes only when a 2xx confirms an early dialog, to that response's Record-Route values in reverse; the remote target changes only to the Contact of the message being processed, and does so for every accepted message with a usable Contact; "
     "a session interval set stays between 90 and 86400 seconds. A terminated subscription stays terminated, and cleanup_terminated removes exactly the terminated dialogs or subscriptions.",
     "every dialog and every sequence of messages processed by it", "Life-cycle rules speak about every operation in every state; tests follow the usual call flows.",
     DLG, [("dialog updates", "crates/sip-dialog/src/lib.rs Dialog::update_from_request, update_from_response"), ("subscription updates", "crates/sip-dialog/src/lib.rs Subscription")], ABS_T, ABS_N, over=("inputs", "histories"))
prop("D04", "CSeq numbers of a dialog only grow, within bounds",
     "A dialog's local CSeq changes only in next_local_cseq, to its successor, which is what that returns. Its remote CSeq changes only when a request is accepted, to that request's CSeq number, which is then between 1 and 2147483647 and, unless it is the first, above the previous one by at most 1000; "
     "an accepted request that leaves it has that same number and is an ACK. A refused request leaves the dialog unchanged. Subscriptions count their local CSeq in the same way.",
     "every dialog and every sequence of requests", "Ordering rules quantify over request histories, including forged and reordered ones; tests use short sequences.",
     DLG, [("CSeq checks", "crates/sip-dialog/src/lib.rs Dialog::update_from_request, next_local_cseq, Subscription::next_local_cseq")], ABS_T, ABS_N, over=("inputs", "histories"))
prop("D05", "Dialog and subscription tables stay within their caps",
     "DialogManager never holds more than 10000 dialogs, nor more than 100 early dialogs with one Call-ID once an early dialog is inserted; SubscriptionManager never holds more than 10000 subscriptions; both also when insertions run concurrently. "
     "InMemoryDialogStore never holds more than 100000 dialogs when puts do not overlap. An insertion is refused only at such a cap, and one that updates an entry already present is never refused for the size of the table; an insertion that reports success has happened.",
     "every sequence and interleaving of insertions", "Reaching a cap takes thousands of insertions and exceeding it takes two at once; tests do neither.",
     DLG, [("managers", "crates/sip-dialog/src/lib.rs DialogManager::insert, SubscriptionManager::insert"), ("store", "crates/sip-dialog/src/storage.rs InMemoryDialogStore::put")], ABS_T + "; must-hold analysis of lock guards", ABS_N, over=("inputs", "histories", "schedules"))
prop("D06", "A PRACK is accepted once, and only for the response it names",
     "PrackValidator accepts a PRACK only for a reliable provisional response registered for that dialog whose RSeq, CSeq number and method equal those of the RAck header and which has not been acknowledged, returns that RAck and marks exactly that response as acknowledged; a refused PRACK marks nothing. "
     "Registering keeps the given numbers, unacknowledged; a dialog has at most ten registered responses, the oldest giving way. A response still awaiting its PRACK is otherwise dropped only after 300 seconds or with its dialog. RSeq numbers of a dialog start at a random value from 1 to 2147483647 and increase by one.",
     "every sequence of registrations and PRACKs", "Acceptance depends on three numbers, a flag and the dialog together; tests try a few mismatches.",
     ["crates/sip-dialog/src/lib.rs", "crates/sip-dialog/src/prack_validator.rs"], [("PRACK validation", "crates/sip-dialog/src/prack_validator.rs PrackValidator"), ("RSeq numbers", "crates/sip-dialog/src/lib.rs RSeqManager")], ABS_T, ABS_N, over=("inputs", "histories"))
prop("D07", "Session timers are negotiated and run as RFC 4028 says",
     "validate_session_expires accepts exactly the intervals not below the given minimum (90 seconds without one). negotiate_session_expires refuses exactly a request below the larger of the two minimums, with that minimum, and otherwise returns the preferred interval raised to it if that is shorter than the requested one, else the requested one. "
     "The refresher is the UAS exactly when the parameter says uas in any case. Starting a timer first stops the dialog's earlier one; at most 10000 timers are tracked when starts do not overlap; a timer announces RefreshNeeded only and always on the refresher's side, after half the interval, and SessionExpired after the whole, both unless stopped, "
     "and on expiry it stops tracking only itself.",
     "every interval, minimum, preference and order of timer operations", "The rules compare up to four durations and timers race with their replacements; tests use a few values and no races.",
     ["crates/sip-dialog/src/session_timer_manager.rs"], [("negotiation and timers", "crates/sip-dialog/src/session_timer_manager.rs")], ABS_T + "; case analysis over all orders of the compared durations", ABS_N, over=("inputs", "histories"))
prop("D08", "The dialog store's Call-ID index agrees with the dialogs it stores",
     "InMemoryDialogStore stores a dialog that is put under its own identifier and lists that identifier exactly once under its Call-ID; removing a dialog removes it and its identifier and no other, and the list of a Call-ID is given up only while it is empty under its own lock. list_by_call_id returns the stored dialogs listed under that Call-ID, all of them.",
     "every sequence of puts and removals", "Index and table can only drift apart over a history of operations on related dialogs.",
     ["crates/sip-dialog/src/storage.rs"], [("dialog store", "crates/sip-dialog/src/storage.rs InMemoryDialogStore")], ABS_T, ABS_N, over=("inputs", "histories"))
prop("C01", "No operation can deadlock on the library's own locks",
     "In the analysed crates no operation acquires a map shard, mutex or read-write lock of a kind of which it still holds a guard, no two operations acquire kinds of locks nested in opposite orders, and no synchronous guard is held across an await.",
     "every operation under every schedule", "A deadlock needs two tasks at the right points or two keys in one shard; tests hardly ever meet either.",
     ["crates/*/src/*.rs"], [("concurrent maps and locks", "crates/sip-dialog/src, crates/sip-registrar/src, crates/sip-auth/src, crates/sip-ratelimit/src")],
     "may-hold dataflow of lock guards over MIR, interprocedural acquisition sets, lock-order graph", "Locks are told apart by the type of what they protect; locks taken inside external crates, other than DashMap's, are not seen.", over=("schedules",))

IDF = "crates/sip-identity/src/"
IDN = "STIR/SHAKEN caller identity (sip-identity)"
IDE = [IDF + x for x in ("verify.rs", "chain.rs", "passport.rs", "header.rs", "sign.rs")]
prop("I01", "A PASSporT verifies only as ES256 under the given P-256 key",
     "Passport::verify_signature returns Ok only when the PASSporT's own header says alg exactly ES256, the key argument is 65 bytes starting with 0x04, and ECDSA P-256/SHA-256 verification under exactly that key of the PASSporT's own signing_input against its own signature bytes succeeded. No other path returns Ok.",
     "every PASSporT and every key", "Algorithm confusion or a swallowed error shows only on forged tokens nobody wrote a test for.",
     IDE, [("signature check", IDF + "verify.rs Passport::verify_signature")], ABS_T, ABS_N, over=("inputs",))
prop("I02", "A PASSporT is trusted only through a validated certificate chain",
     "Passport::verify_with_chain returns Ok only when alg is exactly ES256, the end-entity certificate parsed from the first argument was validated at the caller's now against anchors that come from nothing but trust_anchor_ders, with intermediates from nothing but the intermediates argument, and that same certificate verified (ECDSA P-256/SHA-256) the PASSporT's own signing_input against a signature computed from nothing but the PASSporT's own signature bytes.",
     "every PASSporT, chain, anchor set and time", "A chain accepted by accident (wrong clock, extra anchors, error mapped to Ok) needs certificates the tests do not build.",
     IDE, [("chain validation", IDF + "chain.rs Passport::verify_with_chain")], ABS_T, ABS_N, over=("inputs",))
prop("I03", "A decoded PASSporT is exactly what the token carries",
     "Passport::decode returns Ok only for a token of exactly three dot-separated segments. signing_input is then the first segment, a dot and the second segment byte for byte, signature the base64url decoding of the third; each header field (alg, typ, ppt, x5u) is the JSON member of its name in the first segment and each claim (attest, orig.tn, dest.tn, iat, origid) its member in the second; x5u was present; attest is None when absent and otherwise exactly the level A, B or C its letter names, other letters being refused. AttestationLevel::as_str writes the letter decode reads.",
     "every token", "The signature covers the raw segments; a field read from elsewhere is unsigned, whatever the tests' tokens say.",
     IDE, [("decoding", IDF + "passport.rs Passport::decode"), ("JSON members", IDF + "passport.rs derived Deserialize impls")], ABS_T, ABS_N, over=("inputs",))
prop("I04", "An Identity header yields only its own token and parameters",
     "IdentityHeader::parse returns Ok only for a value of at most 8192 bytes. The passport is then the decoding of the trimmed text before the first ';', which is not empty and is also raw_token; info, alg and ppt are None or the value of a later ';'-separated parameter whose name is theirs ignoring case, and info is present only when that value was enclosed in < and >.",
     "every header value", "Parameter confusion needs unusual spellings and orders; size limits need oversized input.",
     IDE, [("header parsing", IDF + "header.rs IdentityHeader::parse")], ABS_T, ABS_N, over=("inputs",))
prop("I05", "A signed PASSporT says what the caller asked for and signs what it says",
     "sign returns Ok only when dest_tns and orig_tn are not empty. Its token is then h.c.s where h is the base64url JSON of alg ES256, ppt shaken, typ passport and the caller's x5u, c that of the caller's attest letter, dest.tn, iat, orig.tn and origid (members in alphabetical order in both), and s the base64url of the caller's key's signature over exactly h.c; the result's x5u is the caller's. identity_header_value is token;info=<x5u>;alg=ES256;ppt=shaken.",
     "every parameter set", "What is signed must equal what is sent for every claim set, not for one sample.",
     IDE, [("signing", IDF + "sign.rs sign"), ("JSON members", IDF + "sign.rs derived Serialize impls")], ABS_T, ABS_N, over=("inputs",))
prop("I06", "JOSE signatures are converted to the DER the certificate verifier expects",
     "verify_with_chain hands the certificate's verifier a signature only when the PASSporT's signature has 64 bytes, and then the DER SEQUENCE (0x30, length of its contents) of two INTEGERs made of the first and the last 32 bytes, in that order; an INTEGER is 0x02, the number of bytes that follow, one zero byte exactly when the top bit of the first remaining byte is set, and the 32 bytes without their leading zeros but at least their last byte.",
     "every 64-byte signature", "One signature in 256 has a leading zero byte, one in 65536 two; tests sign a handful of tokens.",
     IDE, [("conversion", IDF + "chain.rs jose_es256_to_der, der_unsigned_integer")], ABS_T, ABS_N, over=("inputs",))

# ------------------------------------------------------------------ sip-ratelimit
LIM = ["crates/sip-ratelimit/src/lib.rs"]
prop("L01", "A rate-limited request passes only by spending a token of its own key",
     "RateLimiter::check_rate_limit returns true only for a key of at most 256 bytes without control characters, and then either limiting is disabled in its configuration, or the bucket stored under exactly that key held at least one token and, under its write lock, exactly one was taken. A run that returns false takes no tokens. check_by_ip asks about the textual form of exactly the given address.",
     "every key, configuration, bucket state and interleaving of callers", "A token not taken on some path, or taken from another key's bucket, shows only under load from particular keys.",
     LIM, [("check", LIM[0] + " RateLimiter::check_rate_limit, TokenBucket::try_consume")], ABS_T, ABS_N, over=("inputs", "histories", "schedules"))
prop("L02", "Tokens come back once per elapsed interval, up to the burst",
     "A token bucket is created with burst_capacity tokens. Every function of sip-ratelimit leaves in a bucket its old count, or the smaller of burst_capacity and the old count plus floor(time since last_refill / refill interval) * tokens per refill (and that only when at least one interval has passed), in either case less at most one spent token. When such a credit is made last_refill becomes the moment the credit was computed for; otherwise last_refill does not change.",
     "every bucket state, configuration and clock reading", "Double credit, a credit past the burst or time silently lost need particular timings between calls, which unit tests do not control.",
     LIM, [("refill", LIM[0] + " TokenBucket::refill and its callers")], ABS_T, ABS_N, over=("inputs", "histories"))
prop("L03", "The limiter's table is bounded and forgets only idle keys",
     "A key is added to a RateLimiter's table only on a run that found it there already or found fewer than 100000 keys, and never one longer than 256 bytes. Buckets leave the table only through reset (the named key), clear, or a cleanup that removes only buckets whose last_access is longer ago than idle_timeout_secs; every check that uses a bucket sets its last_access to the current time.",
     "every table state and history of checks", "The full table and the idle boundary take 100000 keys or minutes of waiting to reach.",
     LIM, [("table", LIM[0] + " RateLimiter::check_rate_limit, cleanup_idle, reset, clear")], ABS_T, ABS_N, over=("inputs", "histories"))
prop("L04", "Every rate-limit check is counted once, as what it answered",
     "Every run of RateLimiter::check_rate_limit that returns true raises the limiter's allowed_requests by exactly one and not blocked_requests; every run that returns false raises blocked_requests by exactly one and not allowed_requests.",
     "every run", "A path without a count (or with two) leaves the alarm thresholds operators set on these counters wrong only for that path.",
     LIM, [("counters", LIM[0] + " RateLimiter::check_rate_limit")], ABS_T, ABS_N, over=("inputs",))
prop("L05", "The refill rate never exceeds max_requests per window",
     "Every configuration RateLimitConfig::new returns is enabled, gives back one token per refill, and its refill interval in milliseconds is window_secs*1000 divided by max_requests rounded up (never down, never zero).",
     "every max_requests and window_secs", "Rounding only matters for rates that do not divide the window; the tests use ones that do.",
     LIM, [("configuration", LIM[0] + " RateLimitConfig::new")], ABS_T, ABS_N, over=("inputs",))

# ------------------------------------------------------------------ SDP offer/answer
NEG = ["crates/sip-sdp/src/negotiate.rs"]
prop("S02", "An SDP answer has one m-line per offered m-line, in the offer's order",
     "The media list of every answer negotiate_answer returns starts empty and gets exactly one m-line in each iteration of a loop over the whole of offer.media, left only at its end, and that m-line has the media type and the protocol of the offered m-line of the iteration, whether it is accepted or rejected.",
     "every offer and every set of local capabilities", "RFC 3264 pairs m-lines by position, so one missing line shifts every later stream; only offers with a refused line in the middle show it.",
     NEG, [("answer construction", NEG[0] + " negotiate_answer")], ABS_T, ABS_N, over=("inputs",))
prop("S03", "An SDP answer accepts at most one m-line per media type, on the local port",
     "Every m-line negotiate_answer adds has port 0 (rejected), or the port of the first local m-line of the same media type, and then the local and the offered protocol are equal and no m-line of that media type was accepted before: the accepted media types are noted in a list that starts empty, grows by nothing else, and grows with every accepted m-line.",
     "every offer and every set of local capabilities", "Two accepted alternatives would share a local port; only offers with several m-lines of a type in particular orders show it.",
     NEG, [("acceptance", NEG[0] + " negotiate_answer, negotiate_media")], ABS_T, ABS_N, over=("inputs",))
prop("S04", "An SDP answer's direction is what both sides allow",
     "The direction attribute negotiate_answer sets on an accepted m-line allows sending exactly when the offered m-line allows receiving and the local one allows sending, and receiving exactly when the offered one allows sending and the local one allows receiving. A side's direction is that of its first attribute named sendrecv, sendonly, recvonly or inactive, and sendrecv when it has none. No combination makes the negotiation fail.",
     "all 25 pairs of direction attributes, in every offer", "Hold and resume use the pairs that a handful of tests leaves out; one wrong pair sends media to a held party or fails the call.",
     NEG, [("direction", NEG[0] + " negotiate_media, Direction")], ABS_T, ABS_N, over=("inputs",))
prop("S05", "An SDP answer accepts only offered formats the local side supports",
     "Every format of an accepted m-line is a format of the offered m-line, added in the offer's order, and an accepted m-line has at least one. With an RTP protocol the format is a number below 96 that is also the number of a local format, or one whose offered rtpmap has the same encoding name (ASCII case ignored), clock rate and encoding parameters as a local rtpmap whose payload type is a local format; with another protocol it is also a local format. The formats of a rejected m-line are the offered ones (0 when there are none).",
     "every offer and every set of local capabilities", "A codec accepted by number alone decodes as noise; only offers whose dynamic numbers differ from the local ones show it.",
     NEG, [("format matching", NEG[0] + " negotiate_media and its helpers")], ABS_T, ABS_N, over=("inputs",))

# ------------------------------------------------------------------ SIP message text
PAR = ["crates/sip-parse/src/lib.rs"]
prop("P01", "A parsed message's body is exactly what its Content-Length declares",
     "The body of every message the six parsers of sip-parse return is a prefix of what follows the first blank line (CR LF CR LF) of the datagram, empty when there is none. With the lenient parsers every Content-Length value among the message's headers is the length of the body or no number at all, and without a number the body is everything that follows; a message shorter than declared is refused. With the strict parsers there is no value and nothing follows, or every value is the number of bytes that follow.",
     "every datagram", "Framing decides where one message ends; wrong lengths, repeated or unreadable Content-Length headers come in combinations no list of examples covers.",
     PAR, [("body extraction", PAR[0] + " parse_request*, parse_response*, extract_body*")], ABS_T, ABS_N, over=("inputs",))
prop("P02", "A parsed message has at most one of each single-use header, and a valid CSeq",
     "Every message the six parsers of sip-parse return has at most one Call-ID, CSeq, From, To and Max-Forwards header, and its CSeq, if there is one, is a number from 1 to 2147483647 written in digits only, followed by one method and nothing else; in a request that method is the request's, case aside.",
     "every datagram", "Two conflicting Call-ID or CSeq headers let two elements see two different dialogs; the parsers check it in six places.",
     PAR, [("single headers", PAR[0] + " singleton_headers_unique"), ("CSeq", PAR[0] + " cseq_matches, validate_response_cseq")], ABS_T, ABS_N, over=("inputs",))
prop("P03", "Header lines are parsed one to one, folded lines refused, compact names expanded",
     "The headers of every message the six parsers of sip-parse return are one per CR LF separated line between the start line and the first blank line, in order, empty lines aside: value and name are the line after and before its first colon without surrounding blanks, and the compact names i f t m l s k o e c v r b d x a u are replaced by the header names they stand for. A message with a line that begins with a blank or tab, with a line without a colon or with a header the collection refuses is not parsed.",
     "every datagram", "A dropped, doubled or renamed header changes routing and identity; which line shows it depends on the whole message.",
     PAR, [("header lines", PAR[0] + " parse_headers, canonical_header_name")], ABS_T, ABS_N, over=("inputs",))
prop("P04", "The start line is parsed as written, and oversized datagrams are refused",
     "A message is only parsed from a datagram of at most the number of bytes given to the *_with_limit parsers, 65536 for the others. A parsed request's method is what Method::from_token makes of the first and its URI what Uri::parse makes of the second blank-separated word of the first line, and the third is SIP/2.0, case aside. A parsed response's code is the decimal number in the second word and its reason what follows it, and the first word is SIP/2.0.",
     "every datagram and limit", "The limit and the shape of the start line are checked in each parser separately; one that lacks a check stays silent on ordinary traffic.",
     PAR, [("size limit and start line", PAR[0] + " parse_request*, parse_response*, parse_request_line, parse_status_line")], ABS_T, ABS_N, over=("inputs",))
prop("P05", "A serialised message carries every header once and its own Content-Length",
     "serialize_request writes method, URI and version, serialize_response version, code and reason, with single spaces and CR LF; then every header of the message except Content-Length and its compact form l, once, in order, as name (its own, perhaps in another case), colon, space, value (perhaps without surrounding blanks) and CR LF; then in a request without Max-Forwards header the line Max-Forwards: 70; then one Content-Length header with the number of bytes of the body, a blank line and the body.",
     "every message", "A header that is lost, written twice or reordered only for some names breaks routing of exactly those messages; the tests serialise a few fixed ones.",
     PAR, [("serialisers", PAR[0] + " serialize_request, serialize_response")], ABS_T, ABS_N, over=("inputs",))
prop("M02", "Forwarding lowers Max-Forwards by exactly one and stops at zero",
     "decrement_max_forwards returns Ok(n) only in two cases: the headers have no Max-Forwards header, one with the value 69 has been added and n is 69; or the first Max-Forwards value is, apart from surrounding white space, 1*DIGIT and names n + 1 with n + 1 from 1 to 255, and the header now holds n. "
     "The value 0 gives Exhausted and only it does; a missing header or a well-formed value from 1 to 255 is never refused unless storing the new value fails; nothing else in the headers changes, and a refused call changes nothing.",
     "every header collection", "A count that is not lowered for some values, or that wraps, lets a forwarding loop run on for ever; the tests try a few sample values.",
     ["crates/sip-core/src/max_forwards.rs"], [("hop counter", "crates/sip-core/src/max_forwards.rs decrement_max_forwards")], ABS_T, ABS_N, over=("inputs",))
prop("M03", "Privacy enforcement leaves no identity behind",
     "When enforce_privacy returns Ok for a Privacy value that lists id or user, the headers contain no P-Asserted-Identity and no P-Preferred-Identity, and each of From and Contact is either absent or a single header that says sip:anonymous@anonymous.invalid and, of the old value, at most a part starting at a semicolon. "
     "When the value lists header or user, no Subject, Call-Info, Organization, User-Agent, Reply-To, In-Reply-To or Server header is left. Names are compared ignoring case and every header of a name is removed, not only the first (Headers::remove). Only a value that lists none and nothing else is exempt.",
     "every header collection and every Privacy value", "An identity that survives only for some combination of privacy values, or only when a header occurs twice, is a leak; the tests try a few sample requests.",
     ["crates/sip-core/src/privacy.rs", "crates/sip-core/src/headers.rs"], [("privacy enforcement", "crates/sip-core/src/privacy.rs enforce_privacy, anonymize_identity_headers, anonymize_identity_header"), ("removal by name", "crates/sip-core/src/headers.rs Headers::remove")], ABS_T, ABS_N, over=("inputs",))
prop("S06", "A session description is written field for field in RFC 8866 order",
     "serialize_sdp, SessionDescription::serialize and its Display write v, o, s, then i, u, e, p, c if present, every b, every t (t=0 0 if there is none) each followed by its r lines, z if any, k if present, every a; then per media description m with type, port, /count if present, protocol and every format (0 if there is none), i, c if present, every b, k if present, every a: fields separated by single spaces, each element of a list once and in order, name:value or name for attributes, every line ended by CR LF, nothing else.",
     "every session description", "A line lost, duplicated or moved to another section only when some optional part is present changes what the peer negotiates; the round-trip tests cover a few sample descriptions.",
     NEG, [("writer", "crates/sip-sdp/src/serialize.rs serialize_sdp, serialize_media, serialize_attribute")], ABS_T, ABS_N, over=("inputs",))
prop("S07", "Every line of an SDP text is filed in the section it stands in",
     "In the description parse_sdp / parse_sdp_with_limits returns, each v, o, s, u, e and p line sets that session field; each i, c and k line sets, and each b and a line is added to the end of, the field of that name of the media description whose m line came last before it, or of the session if no m line came before; each z line is added to the session's time zones; each m line opens a media description and each t line a time description, which is in its list exactly once, in text order, including the last; each r line is added to the time description before it, and is refused if there is none. No line is dropped, duplicated or filed elsewhere.",
     "every accepted SDP text, over every sequence of lines", "Section attribution depends on the whole sequence of lines before; an attribute of the second media block that lands in the first or in the session changes codec, direction or keys, and tests cover a few typical line orders.",
     NEG, [("reader", "crates/sip-sdp/src/parse.rs parse_sdp_with_limits, build_session_description")], ABS_T, ABS_N, over=("inputs",))
prop("S08", "An accepted SDP text is within the limits and has every required part",
     "Every text parse_sdp_with_limits accepts is at most max_bytes long, has at most max_lines non-empty lines, none longer than max_line_length bytes, and at most max_attributes_per_section attributes in the session and in each media description; nothing of it but white space is left unparsed; it has version 0, an origin, a session name and a time description; every media description has a non-empty media type and at least one format, none of them empty and, with a protocol RTP/AVP, RTP/SAVP, RTP/SAVPF, UDP/TLS/RTP/SAVPF or TCP/TLS/RTP/SAVPF, each a number up to 127; every r= line has interval and duration, every z= line a pair and no half ones. parse_sdp applies the limits 131072, 2048, 4096 and 500, which are also ParseLimits::default().",
     "every text and every set of limits", "Each limit stands at one place of a long function; a text that only one of them refuses, or one in the second media section, is in no sample.",
     NEG, [("reader", "crates/sip-sdp/src/parse.rs parse_sdp, parse_sdp_with_limits, validate_media_formats, normalize_repeat, normalize_time_zones")], ABS_T, ABS_N, over=("inputs",))
prop("S09", "Every line of an SDP text is read as what it says",
     "In every text parse_sdp / parse_sdp_with_limits accepts, a line's content ends at the first CR or LF, and there are no lines but these: v is a decimal number; s, i, u, e, p and k are the text without surrounding blanks; o is three words, IN, IP4 or IP6 and the address (the rest without surrounding blanks), c the same without the three words; b is the text up to the first colon, and a decimal number; t is two decimal numbers; r is the blank-separated words interval, duration and offsets; z the pairs of blank-separated words in order; a with a colon is name (before the first colon) and value (after it, without trailing blanks), without one a property (without surrounding blanks); m is media type, port and perhaps /count (decimal numbers), protocol and formats, separated by spaces or tabs, in order. The media types audio, video, text, application and message and the protocols RTP/AVP, RTP/SAVP, RTP/SAVPF, UDP/TLS/RTP/SAVPF, TCP/TLS/RTP/SAVPF, UDP and TCP are recognised as those whole words only, any other word is kept as it is.",
     "every accepted SDP text", "A wrong stop character or a prefix match swallows or alters text only for particular neighbouring lines or words; two such faults were in the code.",
     NEG, [("line grammar", "crates/sip-sdp/src/parse.rs parse_line and the parsers it names")], ABS_T, ABS_N, over=("inputs",))
prop("S10", "A media description's rtpmaps are its rtpmap attributes",
     "In every description parse_sdp / parse_sdp_with_limits returns, each media description's rtpmaps are exactly those of its attributes named rtpmap whose value is a number up to 255, a blank, an encoding name, a slash and a number below 2^32, perhaps with a slash and encoding parameters after it: entered in order under the payload type, so the last one counts, with the number before the first blank as payload type, the text from there to the first slash as encoding name, the number between the first and the second slash as clock rate, and what follows up to the next slash, if there is a second slash, as encoding parameters.",
     "every accepted SDP text", "negotiate matches dynamic codecs by these entries; one that is left out or mixed up for some value fails the call or decodes as noise, and tests parse the usual few codecs.",
     NEG, [("rtpmaps", "crates/sip-sdp/src/parse.rs build_session_description, parse_rtpmap")], ABS_T, ABS_N, over=("inputs",))

# ------------------------------------------------------------------ server location
DNS = ["crates/sip-dns/src/lib.rs", "crates/sip-dns/src/enum_lookup.rs"]
prop("T01", "A sips URI is resolved to secure targets only, a named transport to that one",
     "Every target SipResolver, DhcpResolver or HybridResolver returns for a sips URI is to be reached over TLS (Transport::Tls, Wss or TlsSctp); for a sip URI whose transport parameter is udp, tcp, tls, ws, wss, sctp or tls-sctp, in any case, every target uses exactly that transport. Where a resolver hands a URI on to another one (DHCP domain names, the hybrid's members), it is the same URI, at most with another host and without the port.",
     "every URI, DNS answer, DHCP answer and resolver configuration", "A downgrade of a sips call to plain text happens only for particular answers (a NAPTR or SRV record for TCP, an address only, a DHCP server), and tests use static resolvers because there is no network.",
     DNS, [("transports", DNS[0] + " SipResolver::resolve_internal, default_transport, lookup_naptr, DhcpResolver, HybridResolver")], ABS_T, ABS_N, over=("inputs", "histories"))
prop("T02", "The targets of a URI are those RFC 3263 selects",
     "Each target SipResolver, DhcpResolver or HybridResolver returns is (a) the URI's host, where that is a numeric address, with the URI's port or the default one; (b) an address looked up for exactly the URI's host name, with the URI's port or, only where no SRV target was found, the default one, and with that name for the TLS certificate check; (c) only under a host name without a port, the host, port and priority of one and the same SRV record, asked for at _sip or _sips ._udp, ._tcp or ._sctp . host as scheme and transport say (RFC 3263, 4168) or at the replacement of a NAPTR record of the host whose service field names the target's transport; or (d) for the DHCP resolvers an IPv4 server from DHCP with the default port. The default port is 5061 for a sips URI or for TLS and TLS over SCTP, 5060 otherwise. SipResolver never returns Ok with no target, and no resolver more than 100.",
     "every URI, DNS answer and resolver configuration", "The choice depends on combinations of scheme, port, transport parameter and records that tests, having no network, do not reach.",
     DNS, [("targets", DNS[0] + " SipResolver::resolve_internal, lookup_srv, lookup_srv_name, lookup_naptr, lookup_a_aaaa, DhcpResolver::resolve_internal")], ABS_T, ABS_N, over=("inputs", "histories"))
prop("T03", "SRV targets come in the order the records prescribe, and none is left out",
     "The targets SipResolver makes of SRV records come in this order: by NAPTR record, sorted by order and then preference, or without NAPTR by transport, TCP before UDP where both are tried; then by ascending SRV priority; and among equal priorities each record once, in some order. No SRV record of a successful answer is left out unless it is no SRV record or its target is the root, and no NAPTR record unless its service names no SIP transport or its replacement is the root (or the URI asks for a transport).",
     "every set of NAPTR and SRV records and every random choice", "Failover to the wrong server, or never to one of them, shows only with several records of several priorities, which no test has.",
     DNS[:1], [("order", DNS[0] + " lookup_naptr, lookup_srv_name, select_by_weight, resolve_internal, default_transport_order")],
     "structural reconstruction of list-building loops from MIR recurrences (what each loop walks, what every round appends), with sort-key and permutation rules", ABS_N, over=("inputs", "histories"))
prop("T04", "DHCP options are read byte for byte as RFC 3361, 2132 and 5859 encode them",
     "parse_dhcp_option_150, and parse_dhcp_option_120 where the first byte is 1, return one IPv4 address for each four bytes, in order and with the bytes in order, and refuse exactly data that is empty or no multiple of four. Where the first byte is 0, parse_dhcp_option_120 returns exactly the encoded domain names, in order: each label the n bytes behind a length byte n of 1 to 63, labels joined by dots, a name ended by a length byte 0; it refuses exactly data in which a name is cut off, a length is above 63, a name has no label, or there is no name. Any other first byte is refused. parse_dhcp_option_66 returns the whole data as text and refuses only empty data.",
     "every option payload", "Payloads are untrusted bytes off the network; tests have a few well-formed ones.",
     DNS[:1], [("options", DNS[0] + " parse_dhcp_option_120, parse_dhcp_option_150, parse_dhcp_option_66")], ABS_T, ABS_N, over=("inputs",))
prop("T05", "ENUM asks for the number's own domain and takes the best SIP record",
     "enum_to_domain returns, for a text that is a '+' and one or more decimal digits and for no other, the digits in reverse order separated by dots, followed by .e164.arpa; tel_uri_to_enum_domain does so for the number of a global tel URI and for no other URI. select_best_sip_record returns, among the records whose service is E2U+sip (in any case), the first one by order and then preference, and nothing only where there is none.",
     "every number, tel URI and record set", "A wrong domain or record sends the call to somebody else, and tests have a handful of numbers and records.",
     DNS[1:], [("domain", DNS[1] + " enum_to_domain, tel_uri_to_enum_domain"), ("record", DNS[1] + " select_best_sip_record, filter_sip_records, sort_enum_records, EnumNaptrRecord::is_sip_service")], ABS_T, ABS_N, over=("inputs",))

# ------------------------------------------------------------------ what this family cannot decide here


def na(id, title, statement, qtext, why, files, reason, over):
    NA.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": qtext}, why_tests_cant=why,
                   anchors={"files": list(files), "mechanism": [{"name": title, "where": files[0]}], "observe_at": [], "state": [], "hook_needed": None}, reason=reason))


DEP = "No program to analyse: the crate does not compile in this sandbox (its dependencies are not in the offline cache), so there is no type-checked or intermediate representation to decide it on; "
na("X01", "Transactions retransmit and time out on the RFC 3261 timer schedule",
   "A client transaction over an unreliable transport retransmits its request at T1, 2*T1, 4*T1, ... capped at T2 until it is answered, and every transaction ends within 64*T1; a server transaction answers each retransmission with its last response.",
   "every interleaving of timers, messages and transport errors", "Timer races need particular schedules.", ["crates/sip-transaction/src/lib.rs"],
   DEP + "and the property is about elapsed time, which no static argument over one program text bounds.", ["schedules", "histories"])
na("X02", "A proxy forwards each request along its route set and returns the best response",
   "A stateful proxy forwards a request to each selected target once with its own Via on top, decrements Max-Forwards, removes that Via from responses, and returns exactly one final response upstream, the best of those collected.",
   "every request, target set and order of responses", "Fork outcomes depend on the order in which branches answer.", ["crates/sip-proxy/src/lib.rs"],
   DEP + "the best-response choice also depends on the order of messages at run time.", ["inputs", "schedules"])
na("X03", "A stream transport delivers exactly the messages that were sent",
   "However a byte stream is cut into reads, the transport delivers the same sequence of messages, each once, and closes the connection on a message it cannot frame.",
   "every segmentation of the stream", "Tests cut the stream in a few places.", ["crates/sip-transport/src/lib.rs"],
   DEP + "the framing of a complete message is decided by P01.", ["inputs", "schedules"])
na("X04", "Digest responses are the RFC 7616 hash values",
   "The response of a digest computation is the hash of the concatenation RFC 7616 prescribes, for every algorithm and quality of protection.",
   "every combination of user, realm, password, method, URI, nonce and body", "Only a few published vectors are tested.", ["crates/sip-auth/src/lib.rs"],
   "Functional correctness of the MD5, SHA-256 and SHA-512/256 implementations (in external crates) is a numerical equality that dataflow cannot decide; what is hashed, compared and when it is refused is decided by A01-A07.", ["inputs"])
na("X05", "Tags, branches and nonces are unpredictable and unique",
   "No two tags, branch parameters or nonces generated by the stack are equal, and none can be predicted from earlier ones.",
   "every run", "Uniqueness and unpredictability are statements about probability.", ["crates/sip-core/src/lib.rs", "crates/sip-auth/src/lib.rs"],
   "A property of the distribution of a random source at run time; no construct of the program can be exhibited as its violation.", ["histories"])
na("X06", "At most max_requests plus the burst are admitted in any window",
   "Over every interval of window_secs at most max_requests plus the configured burst checks of one key return true, for every sequence of checks and clock readings.",
   "every history of checks and clock readings", "The bound is over sums along whole histories.", ["crates/sip-ratelimit/src/lib.rs"],
   "A sum over an unbounded history of clock readings; no static argument in reach bounds it. Its ingredients - one token per admission, refill by whole intervals never beyond the capacity, the rounding of the rate, the cap on keys - are decided by L01-L05.", ["histories"])
na("X07", "Parsing what was serialised gives the same message or description back",
   "parse(serialize(m)) equals m for every SIP message and every session description that satisfies the builders' restrictions.",
   "every message and description", "The round-trip tests use sample values.", ["crates/sip-parse/src/lib.rs", "crates/sip-sdp/src/serialize.rs"],
   "Equality of unbounded strings through the composition of a writer and a parser needs reasoning about languages of strings that the term domain does not have. The two halves are decided one by one against one layout: P01-P05 for messages, S06-S09 for descriptions.", ["inputs"])
na("X08", "Every message is handled in time and memory proportional to its size",
   "Parsing, validating and answering a message takes time and memory linear in its length, whatever it contains.",
   "every input", "Tests measure no cost.", ["crates/sip-parse/src/lib.rs", "crates/sip-sdp/src/parse.rs"],
   "A cost bound over runtime quantities; static analysis can only decide the explicit limits that keep them small (P04, S08, B01, H01, A06, D05, L03).", ["inputs"])
na("X09", "Handlers of one dialog or registration make progress",
   "Every operation of the dialog manager, registrar and subscription stores that is polled returns, and none waits for ever on another.",
   "every schedule", "Needs particular schedules.", ["crates/sip-dialog/src/lib.rs", "crates/sip-registrar/src/lib.rs"],
   "Liveness under a fair scheduler cannot be decided from must-facts; the safety part - no kind of lock is taken again while held, none in opposite orders, no guard lives across an await - is decided by C01.", ["schedules"])
na("X10", "DNS targets of equal priority are chosen in proportion to their weights",
   "Among SRV records of equal priority the probability of being tried first is proportional to the record's weight (RFC 2782).",
   "every record set", "A statement about probability.", ["crates/sip-dns/src/lib.rs"],
   "A property of a distribution at run time, not of a construct of the program; the order of priorities and that each record is used once are decided by T03.", ["inputs"])
