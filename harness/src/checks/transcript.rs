//! C16, C17: mdoc handovers, session transcripts and key thumbprints, against byte-level references.
use crate::{
    ctx::{guard, Ctx},
    ensure,
    gen::{self, chance, pick},
    refs::{self, cbor_array, cbor_bytes, cbor_null, cbor_text},
};
use openid4vp::core::{
    authorization_request::AuthorizationRequestObject,
    iso_18013_7::{compute_jwk_thumbprint, get_encryption_jwk_thumbprint, DcApiHandover, Handover, SessionTranscript},
};
use rand::{rngs::StdRng, Rng};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value as Json};
use std::fmt::Debug;

const REDIRECT: &str = "OpenID4VPHandover";
const DCAPI: &str = "OpenID4VPDCAPIHandover";

/// Text whose CBOR head takes each of its forms.
fn field(rng: &mut StdRng) -> String {
    match rng.gen_range(0..8) {
        0 => {
            let n = *pick(rng, &[0usize, 1, 22, 23, 24, 25, 254, 255, 256, 257, 4095, 4096]);
            let c = *pick(rng, &['a', 'é', '日', '🦀']);
            // n is a byte count: fill with c, pad with ASCII.
            let mut s: String = std::iter::repeat_n(c, n / c.len_utf8()).collect();
            s.extend(std::iter::repeat_n('x', n - s.len()));
            s
        }
        1 if chance(rng, 0.02) => "z".repeat(*pick(rng, &[65535usize, 65536, 70000])),
        2 if chance(rng, 0.6) => gen::webby(rng),
        2 => gen::http_url(rng).to_string(),
        3 => format!("x509_san_dns:{}.example.com", gen::lower(rng, 1, 12)),
        _ => gen::text(rng),
    }
}

fn thumb(rng: &mut StdRng) -> Option<Vec<u8>> {
    match rng.gen_range(0..6) {
        0 | 1 => None,
        2 => {
            let n = *pick(rng, &[0usize, 1, 23, 24, 31, 33, 255, 256]);
            Some((0..n).map(|_| rng.gen()).collect())
        }
        _ => Some((0..32).map(|_| rng.gen()).collect()),
    }
}

fn enc<T: Serialize>(t: &T) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    ciborium::into_writer(t, &mut v).map_err(|e| format!("serialisation failed: {e}"))?;
    Ok(v)
}
fn dec<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    ciborium::from_reader(b).map_err(|e| e.to_string())
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Everything that must hold of a handover whose info bytes are `info`.
fn check_handover<H>(
    h: &H,
    hash: &[u8],
    direct: Result<Vec<u8>, String>,
    ty: &str,
    info: &[u8],
) -> Result<(), String>
where
    H: Serialize + DeserializeOwned + PartialEq + Debug + Clone,
{
    let want_hash = refs::sha256(info);
    ensure!(hash == want_hash, "the handover hash is {} instead of SHA-256 of the info array, {}", hex(hash), hex(&want_hash));
    let want = cbor_array(&[cbor_text(ty), cbor_bytes(&want_hash)]);
    let d = direct?;
    ensure!(d == want, "to_cbor_bytes gives {} instead of {}", hex(&d), hex(&want));
    let e = enc(h)?;
    ensure!(e == want, "serde gives {} instead of {}", hex(&e), hex(&want));
    let back: H = dec(&want).map_err(|e| format!("its own encoding is refused: {e}"))?;
    ensure!(&back == h, "decoding gives another value: {back:?}");
    let t = SessionTranscript::new(h.clone());
    ensure!(t.handover() == h, "the transcript holds another handover");
    let want_t = cbor_array(&[cbor_null(), cbor_null(), want.clone()]);
    let tb = t.to_cbor_bytes().map_err(|e| format!("transcript: {e:#}"))?;
    ensure!(tb == want_t, "transcript to_cbor_bytes gives {} instead of {}", hex(&tb), hex(&want_t));
    let te = enc(&t)?;
    ensure!(te == want_t, "transcript serde gives {} instead of {}", hex(&te), hex(&want_t));
    let tback: SessionTranscript<H> = dec(&want_t).map_err(|e| format!("the transcript's own encoding is refused: {e}"))?;
    ensure!(tback == t && tback.handover() == h, "decoding the transcript gives another value");
    Ok(())
}

pub fn c16(ctx: &mut Ctx) {
    ctx.rule = "handovers over fields whose CBOR heads take every form, all encoders and decoders, and malformed items; distinct by (type, field lengths, thumbprint length) or by malformation".into();
    ctx.assumptions.push("a hash of another length than 32 bytes inside a well-shaped pair, and a hash given as an array of integers (the form other serde formats use), are not judged".into());
    for c in ["redirect handover", "dc_api handover", "malformed refused", "distinct inputs, distinct hashes"] {
        ctx.require(c, 200);
    }
    let mut rng = ctx.fork_rng();
    for _ in 0..ctx.n(100_000, 1_000_000) {
        let (a, nonce, uri) = (field(&mut rng), field(&mut rng), field(&mut rng));
        let th = thumb(&mut rng);
        let th_cbor = th.as_ref().map_or_else(cbor_null, |b| cbor_bytes(b));
        let key = format!("{}/{}/{}/{:?}", a.len(), nonce.len(), uri.len(), th.as_ref().map(Vec::len));
        let case = || json!({"a": a, "nonce": nonce, "uri": uri, "thumbprint": th.as_ref().map(|t| hex(t))});
        let info = cbor_array(&[cbor_text(&a), cbor_text(&nonce), th_cbor.clone(), cbor_text(&uri)]);
        let v = guard(|| {
            let h = Handover::new(&a, &nonce, th.as_deref(), &uri).map_err(|e| format!("refused: {e:#}"))?;
            check_handover(&h, h.handover_info_hash(), h.to_cbor_bytes().map_err(|e| format!("{e:#}")), REDIRECT, &info)
        });
        ctx.judge("redirect handover", Some(&key), case, v.and_then(|r| r));
        let info = cbor_array(&[cbor_text(&a), cbor_text(&nonce), th_cbor]);
        let v = guard(|| {
            let h = DcApiHandover::new(&a, &nonce, th.as_deref()).map_err(|e| format!("refused: {e:#}"))?;
            check_handover(&h, h.handover_info_hash(), h.to_cbor_bytes().map_err(|e| format!("{e:#}")), DCAPI, &info)
        });
        ctx.judge("dc_api handover", Some(&key), case, v.and_then(|r| r));
        // Moving a character between neighbouring fields must change the hash and inequality must show.
        if !a.is_empty() {
            let c = a.chars().last().unwrap();
            let (a2, n2) = (a[..a.len() - c.len_utf8()].to_string(), format!("{c}{nonce}"));
            let v = guard(|| {
                let h1 = Handover::new(&a, &nonce, th.as_deref(), &uri).map_err(|e| e.to_string())?;
                let h2 = Handover::new(&a2, &n2, th.as_deref(), &uri).map_err(|e| e.to_string())?;
                ensure!(h1 != h2, "two different requests give equal handovers");
                ensure!(SessionTranscript::new(h1) != SessionTranscript::new(h2), "two different requests give equal transcripts");
                Ok(())
            });
            ctx.judge("distinct inputs, distinct hashes", Some(&key), case, v.and_then(|r| r));
        }
        // Malformed items.
        let (ty, other) = if chance(&mut rng, 0.5) { (REDIRECT, DCAPI) } else { (DCAPI, REDIRECT) };
        let hash: Vec<u8> = (0..32).map(|_| rng.gen()).collect();
        let good = cbor_array(&[cbor_text(ty), cbor_bytes(&hash)]);
        let nm = gen::near_miss(&mut rng, ty);
        let (kind, bad): (&str, Vec<u8>) = match rng.gen_range(0..16) {
            0 => ("other handover type", cbor_array(&[cbor_text(other), cbor_bytes(&hash)])),
            1 => ("near-miss type", cbor_array(&[cbor_text(&nm), cbor_bytes(&hash)])),
            2 => ("empty array", cbor_array(&[])),
            3 => ("no hash", cbor_array(&[cbor_text(ty)])),
            4 => ("no type", cbor_array(&[cbor_bytes(&hash)])),
            5 => ("swapped", cbor_array(&[cbor_bytes(&hash), cbor_text(ty)])),
            6 => ("text hash", cbor_array(&[cbor_text(ty), cbor_text("0123456789abcdef0123456789abcdef")])),
            7 => ("null hash", cbor_array(&[cbor_text(ty), cbor_null()])),
            8 => ("integer", refs::cbor_head(0, rng.gen())),
            9 => ("text", cbor_text(ty)),
            10 => ("bytes", cbor_bytes(&hash)),
            11 => ("null", cbor_null()),
            12 => ("map", [vec![0xa1], cbor_text(ty), cbor_bytes(&hash)].concat()),
            13 => ("truncated", good[..rng.gen_range(0..good.len())].to_vec()),
            14 => ("nothing", vec![]),
            _ => ("extra element", cbor_array(&[cbor_text(ty), cbor_bytes(&hash), pick(&mut rng, &[cbor_null(), cbor_text("x"), cbor_bytes(&hash)]).clone()])),
        };
        let v = guard(|| {
            let ok = if ty == REDIRECT { dec::<Handover>(&bad).is_ok() } else { dec::<DcApiHandover>(&bad).is_ok() };
            ensure!(!ok, "a malformed handover ({kind}) was decoded as {ty}: {}", hex(&bad));
            Ok(())
        });
        ctx.judge("malformed refused", Some(&format!("{ty}/{kind}")), || json!({"kind": kind, "bytes": hex(&bad)}), v.and_then(|r| r));
        // Malformed transcripts.
        let n = cbor_null();
        let (kind, bad): (&str, Vec<u8>) = match rng.gen_range(0..11) {
            0 => ("bad handover inside", cbor_array(&[n.clone(), n.clone(), bad])),
            1 => ("empty", cbor_array(&[])),
            2 => ("one null", cbor_array(&[n.clone()])),
            3 => ("two nulls", cbor_array(&[n.clone(), n.clone()])),
            4 => ("handover first", cbor_array(&[good.clone(), n.clone(), n.clone()])),
            5 => ("handover second", cbor_array(&[n.clone(), good.clone(), n.clone()])),
            6 => ("device engagement present", cbor_array(&[cbor_bytes(&hash), n.clone(), good.clone()])),
            7 => ("reader key present", cbor_array(&[n.clone(), cbor_text("x"), good.clone()])),
            8 => ("bare handover", good.clone()),
            9 => ("extra element", cbor_array(&[n.clone(), n.clone(), good.clone(), n.clone()])),
            _ => ("null handover", cbor_array(&[n.clone(), n.clone(), n.clone()])),
        };
        let v = guard(|| {
            let ok = if ty == REDIRECT { dec::<SessionTranscript>(&bad).is_ok() } else { dec::<SessionTranscript<DcApiHandover>>(&bad).is_ok() };
            ensure!(!ok, "a malformed transcript ({kind}) was decoded as {ty}: {}", hex(&bad));
            Ok(())
        });
        ctx.judge("malformed refused", Some(&format!("transcript/{ty}/{kind}")), || json!({"kind": kind, "bytes": hex(&bad)}), v.and_then(|r| r));
        if ctx.saturated() {
            return;
        }
    }
}

fn b64text(rng: &mut StdRng) -> String {
    let n = *pick(rng, &[1usize, 31, 32, 33, 48, 66, 256]);
    let s = refs::b64url(&(0..n).map(|_| rng.gen()).collect::<Vec<u8>>());
    // Padded, in the other alphabet, with leading zeroes: the digest is of the text as it stands.
    match rng.gen_range(0..40) {
        0 => s + "=",
        1 => s + "==",
        2 => s.replace('-', "+").replace('_', "/"),
        3 => format!("AAA{s}"),
        _ => s,
    }
}

fn shuffled(rng: &mut StdRng, m: Map<String, Json>) -> Map<String, Json> {
    let mut v: Vec<_> = m.into_iter().collect();
    for i in (1..v.len()).rev() {
        v.swap(i, rng.gen_range(0..=i));
    }
    v.into_iter().collect()
}

fn obj(v: Json) -> Map<String, Json> {
    match v {
        Json::Object(m) => m,
        _ => unreachable!(),
    }
}

/// A key with all sorts of metadata; well formed for its type.
pub fn any_jwk(rng: &mut StdRng) -> Map<String, Json> {
    let mut m = match rng.gen_range(0..8) {
        0 => obj(json!({"kty": "RSA", "e": pick(rng, &["AQAB", "Aw"]), "n": b64text(rng)})),
        1 => obj(json!({"kty": "OKP", "crv": pick(rng, &["X25519", "Ed25519"]), "x": b64text(rng)})),
        2 => obj(json!({"kty": "oct", "k": b64text(rng)})),
        3 => obj(json!({"kty": "EC", "crv": pick(rng, &["P-384", "P-521", "secp256k1", "p-256", "BP-256"]), "x": b64text(rng), "y": b64text(rng)})),
        _ => obj(json!({"kty": "EC", "crv": "P-256", "x": b64text(rng), "y": b64text(rng)})),
    };
    if chance(rng, 0.85) {
        m.insert("alg".into(), json!(*pick(rng, &["ECDH-ES", "ECDH-ES", "ECDH-ES", "ES256", "ECDH-ES+A256KW", "RSA-OAEP", "ecdh-es", "ECDH-ES ", ""])));
    }
    if chance(rng, 0.6) {
        m.insert("use".into(), json!(*pick(rng, &["enc", "enc", "enc", "sig", "ENC", "", "encryption"])));
    }
    if chance(rng, 0.5) {
        m.insert("kid".into(), json!(gen::text(rng)));
    }
    if chance(rng, 0.1) {
        m.insert("key_ops".into(), pick(rng, &[json!(["deriveKey"]), json!(["deriveBits", "deriveKey"]), json!([])]).clone());
    }
    if chance(rng, 0.1) {
        m.insert(pick(rng, &["d", "x5c", "x5t#S256", "iat", "exp"]).to_string(), json!(b64text(rng)));
    }
    for _ in 0..rng.gen_range(0..3) {
        m.insert(format!("x-{}", gen::text(rng)), gen::json_value(rng, 1));
    }
    shuffled(rng, m)
}

pub fn c17(ctx: &mut Ctx) {
    ctx.rule = "keys of every type with shuffled, extra, missing and ill-typed members, and requests with lists of such keys; distinct by (type, members) or by key-list pattern".into();
    ctx.assumptions.push("member values are base64url texts, as they are in every real key".into());
    for c in ["thumbprint", "refused", "request: key chosen", "request: no key"] {
        ctx.require(c, 200);
    }
    let mut rng = ctx.fork_rng();
    for _ in 0..ctx.n(120_000, 1_200_000) {
        let mut m = any_jwk(&mut rng);
        let mut note = String::new();
        if chance(&mut rng, 0.4) {
            let k = *pick(&mut rng, &["kty", "crv", "x", "y", "e", "n", "kid", "alg", "use"]);
            if chance(&mut rng, 0.6) {
                m.remove(k);
                note = format!("-{k}");
            } else if m.contains_key(k) {
                let v = match (k, rng.gen_range(0..4)) {
                    ("kty", 0) => json!(*pick(&mut rng, &["ec", "rsa", "EC ", "", "EC2"])),
                    (_, 1) => json!([m[k].clone()]),
                    (_, 2) => json!(7),
                    _ => Json::Null,
                };
                m.insert(k.into(), v);
                note = format!("~{k}");
            }
        }
        let want = refs::thumbprint(&m);
        let class = if want.is_some() { "thumbprint" } else { "refused" };
        let j = Json::Object(m.clone());
        let v = guard(|| compute_jwk_thumbprint(&j)).and_then(|r| match (r, want) {
            (Ok(t), Some(w)) => {
                ensure!(t == w, "thumbprint {} instead of {}", hex(&t), hex(&w));
                Ok(())
            }
            (Ok(t), None) => Err(format!("a key without a thumbprint was given {}", hex(&t))),
            (Err(e), Some(_)) => Err(format!("a complete key was refused: {e:#}")),
            (Err(_), None) => Ok(()),
        });
        ctx.judge(class, Some(&format!("{:?}/{note}/{}", m.get("kty"), m.len())), || j.clone(), v);
        if ctx.saturated() {
            return;
        }
        // Thumbprint from a request.
        let n = if chance(&mut rng, 0.02) { rng.gen_range(7..50) } else { *pick(&mut rng, &[0usize, 1, 1, 2, 2, 3, 4, 6]) };
        let mode = *pick(&mut rng, &["direct_post.jwt", "direct_post.jwt", "direct_post", "dc_api.jwt", "dc_api"]);
        let keys: Vec<Map<String, Json>> = (0..n).map(|_| any_jwk(&mut rng)).collect();
        let mut req = json!({
            "client_id": "x509_san_dns:example.com", "response_type": "vp_token", "nonce": "n",
            "response_mode": mode,
        });
        if mode.starts_with("direct_post") {
            req["response_uri"] = json!("https://example.com/r");
        }
        for _ in 0..rng.gen_range(0..3) {
            req[format!("x{}", gen::text(&mut rng))] = gen::json_value(&mut rng, 1);
        }
        let mut shape = String::new();
        let mut metadata = json!({"vp_formats_supported": {}});
        let mut has = true;
        match rng.gen_range(0..12) {
            0 => {
                has = false;
                shape += "no metadata";
            }
            1 => {
                has = false;
                req["client_metadata"] = metadata.clone();
                shape += "no jwks";
            }
            _ => {
                metadata["jwks"] = json!({"keys": keys});
                req["client_metadata"] = metadata;
            }
        }
        let want = if has { refs::encryption_key(&keys).and_then(refs::thumbprint) } else { None };
        for k in &keys {
            shape += &format!("/{:?},{:?},{:?}", k.get("crv"), k.get("alg"), k.get("use"));
        }
        let class = if want.is_some() { "request: key chosen" } else { "request: no key" };
        let v = guard(|| {
            let aro: AuthorizationRequestObject = serde_json::from_value(req.clone()).map_err(|e| format!("request refused: {e}"))?;
            let got = get_encryption_jwk_thumbprint(&aro);
            ensure!(
                got == want,
                "the request's thumbprint is {:?}, but the key the response is encrypted to has {:?}",
                got.map(|t| hex(&t)),
                want.map(|t| hex(&t))
            );
            Ok(())
        });
        ctx.judge(class, Some(&shape), || req.clone(), v.and_then(|r| r));
        if ctx.saturated() {
            return;
        }
    }
}
