"""Rewrites ssi:: paths to the ssi-* component crates; as in /opt/vp/scope/mirror.py."""
import re

#: What "ssi = 0.14" stands for: its requirements and default features, without ssi-ucan.
SSI_DEPS = b"\n".join(
    [
        b'ssi-caips = { version = "0.3", default-features = false }',
        b'ssi-claims = { version = "0.6", default-features = false, features = ["w3c", "rsa", "ed25519", "secp256k1", "secp256r1", "eip712"] }',
        b'ssi-core = { version = "0.3.0", default-features = false }',
        b'ssi-crypto = { version = "0.2.1", default-features = false }',
        b'ssi-dids = { version = "0.4", default-features = false, features = ["ripemd-160", "secp256k1", "secp256r1"] }',
        b'ssi-eip712 = { version = "0.1", default-features = false }',
        b'ssi-json-ld = { version = "0.3.1", default-features = false }',
        b'ssi-jwk = { version = "0.4", default-features = false, features = ["ripemd-160"] }',
        b'ssi-multicodec = { version = "0.2", default-features = false }',
        b'ssi-rdf = { version = "0.1", default-features = false }',
        b'ssi-security = { version = "0.1", default-features = false }',
        b'ssi-verification-methods = { version = "0.2", default-features = false }',
    ]
)
SSI_MODULES = set(
    "caips claims core crypto dids eip712 json_ld jwk multicodec rdf security verification_methods".split()
)
#: ssi::prelude, as far as it is known. Another name makes the build fail: add it here.
PRELUDE = {
    name: "ssi_claims::data_integrity::" + name
    for name in "AnyDataIntegrity AnySuite CryptographicSuite DataIntegrity ProofOptions".split()
}
PRELUDE.update(
    (name, "ssi_claims::vc::" + name) for name in ("AnyJsonCredential", "AnyJsonPresentation")
)


def item(text):
    """One path below ssi::, such as "claims::vc" or "prelude::{A, B}", with its white space."""
    m = re.match(r"(\s*)(\w+)", text)
    if m and m.group(2) in SSI_MODULES:
        return m.group(1) + "ssi_" + text[m.end(1) :]
    m = re.match(r"(\s*)prelude::(\w+)", text)
    if m and m.group(2) in PRELUDE:
        return m.group(1) + PRELUDE[m.group(2)] + text[m.end() :]
    m = re.match(r"(\s*)prelude::\{([^{}]*)\}", text)
    if m:
        names = re.sub(r"\w+", lambda n: PRELUDE.get(n.group(), "ssi::prelude::" + n.group()), m.group(2))
        return m.group(1) + "{" + names + "}" + text[m.end() :]
    return re.sub(r"^(\s*)(?=\S)", r"\1ssi::", text)


def group(body):
    """The items of "use ssi::{...}", each with a path of its own."""
    out, depth, start = [], 0, 0
    for i, c in enumerate(body + ","):
        depth += (c == "{") - (c == "}")
        if c == "," and not depth:
            out.append(item(body[start:i]))
            start = i + 1
    return ",".join(out)


def ssi_paths(text):
    out, pos = [], 0
    for m in re.finditer(r"(?<![\w:])(?:::)?ssi::", text):
        if m.start() < pos:
            continue
        out.append(text[pos : m.start()])
        pos = m.end()
        if text[pos : pos + 1] == "{":
            depth, end = 1, pos + 1
            while depth and end < len(text):
                depth += (text[end] == "{") - (text[end] == "}")
                end += 1
            out.append("{" + group(text[pos + 1 : end - 1]) + "}")
        else:
            end = pos + len(re.match(r"(?:prelude::)?(?:\w+|\{[^{}]*\})?", text[pos:]).group())
            out.append(item(text[pos:end]))
        pos = end
    return "".join(out) + text[pos:]
