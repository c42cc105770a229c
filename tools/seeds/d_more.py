import os, runpy
D = os.path.join("/verif", "tools/mutants")
def E(f, name):
    for m in runpy.run_path(f"{D}/{f}.py")["M"]:
        if m[0] == name: return [tuple(e) for e in m[2]]
    raise KeyError(name)
P = "use sip_core::{enforce_privacy, Headers, PrivacyHeader};\n"
S = [
dict(name="m03-pai-twice", property="M03", edits=E("mpv", "pv-pai"), needs="two P-Asserted-Identity headers (a sip and a tel identity)", breaks="asserted identities survive id privacy when there are two of them",
 main=P + r'''fn main() {
    let mut h = Headers::new();
    h.push("P-Asserted-Identity", "<sip:alice@h>").unwrap();
    h.push("P-Asserted-Identity", "<tel:+15551234>").unwrap();
    enforce_privacy(&mut h, &PrivacyHeader::parse("id").unwrap()).unwrap();
    assert_eq!(h.count("P-Asserted-Identity"), 0);
}'''),
]
