use crate::{
    ctx::{guard, Ctx},
    ensure,
    gen::{self, chance, pick},
    refs,
};
use openid4vp::core::{
    authorization_request::{parameters::State, AuthorizationRequestObject},
    iso_18013_7::get_encryption_jwk_thumbprint,
    jwe::{build_encrypted_response, find_encryption_jwk, JweBuilder},
    response::{parameters::VpToken, AuthorizationResponse},
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Map, Value as Json};
use std::collections::HashSet;

struct Pair {
    secret: p256::SecretKey,
    x: String,
    y: String,
}

fn pair(rng: &mut StdRng) -> Pair {
    let secret = p256::SecretKey::random(rng);
    let p = p256::EncodedPoint::from(secret.public_key());
    Pair { x: refs::b64url(p.x().unwrap()), y: refs::b64url(p.y().unwrap()), secret }
}

/// What the holder of `secret` reads in a compact JWE, by RFC 7516/7518 alone.
fn decrypt(jwe: &str, secret: &p256::SecretKey) -> Result<(Map<String, Json>, Vec<u8>), String> {
    let parts: Vec<&str> = jwe.split('.').collect();
    let [head, key, iv, ct, tag] = parts[..] else {
        return Err(format!("{} parts", parts.len()));
    };
    ensure!(key.is_empty(), "direct key agreement with an encrypted key");
    let un = |s: &str| refs::unb64url(s).ok_or(format!("not base64url: {s}"));
    let header: Map<String, Json> = serde_json::from_slice(&un(head)?).map_err(|e| e.to_string())?;
    let text = |m: &Map<String, Json>, k: &str| m.get(k).and_then(Json::as_str).map(String::from).ok_or(format!("no {k}"));
    ensure!(text(&header, "alg")? == "ECDH-ES", "alg {:?}", header["alg"]);
    let enc = text(&header, "enc")?;
    let epk = header.get("epk").and_then(Json::as_object).ok_or("no epk")?;
    let mut point = vec![4];
    point.extend(un(&text(epk, "x")?)?);
    point.extend(un(&text(epk, "y")?)?);
    let epk = p256::PublicKey::from_sec1_bytes(&point).map_err(|_| "epk is no point")?;
    let z = p256::ecdh::diffie_hellman(secret.to_nonzero_scalar(), epk.as_affine());
    let bits: u32 = match enc.as_str() {
        "A128GCM" => 128,
        "A192GCM" => 192,
        "A256GCM" | "A128CBC-HS256" => 256,
        "A192CBC-HS384" => 384,
        "A256CBC-HS512" => 512,
        e => return Err(format!("enc {e}")),
    };
    let party = |k: &str| header.get(k).and_then(Json::as_str).and_then(refs::unb64url).unwrap_or_default();
    let mut cek = vec![];
    for round in 1u32..=2 {
        let mut b = round.to_be_bytes().to_vec();
        b.extend(z.raw_secret_bytes());
        for part in [enc.clone().into_bytes(), party("apu"), party("apv")] {
            b.extend((part.len() as u32).to_be_bytes());
            b.extend(part);
        }
        b.extend(bits.to_be_bytes());
        cek.extend(refs::sha256(&b));
    }
    cek.truncate(bits as usize / 8);
    let (iv, ct, tag) = (un(iv)?, un(ct)?, un(tag)?);
    let plain = if enc == "A128GCM" || enc == "A256GCM" {
        use ring::aead;
        let alg = if bits == 128 { &aead::AES_128_GCM } else { &aead::AES_256_GCM };
        let k = aead::LessSafeKey::new(aead::UnboundKey::new(alg, &cek).unwrap());
        let nonce = aead::Nonce::try_assume_unique_for_key(&iv).map_err(|_| "iv length")?;
        let mut b = ct;
        b.extend(tag);
        k.open_in_place(nonce, aead::Aad::from(head.as_bytes()), &mut b)
            .map_err(|_| "does not decrypt")?
            .to_vec()
    } else {
        josekit::cipher::open(&enc, &cek, &iv, head.as_bytes(), &ct, &tag).ok_or("does not decrypt")?
    };
    Ok((header, plain))
}

const ENCS: &[&str] = &["A128GCM", "A192GCM", "A256GCM", "A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"];

fn shuffle(rng: &mut StdRng, m: Map<String, Json>) -> Map<String, Json> {
    let mut v: Vec<_> = m.into_iter().collect();
    v.shuffle(rng);
    v.into_iter().collect()
}

fn obj(j: Json) -> Map<String, Json> {
    j.as_object().unwrap().clone()
}

/// A key as metadata lists it, and what is particular about it.
fn jwk(rng: &mut StdRng, p: &Pair) -> (Map<String, Json>, &'static str) {
    let mut m = obj(json!({"kty": "EC", "crv": "P-256", "x": p.x, "y": p.y, "alg": "ECDH-ES", "use": "enc"}));
    if chance(rng, 0.6) {
        m.insert("kid".into(), json!(gen::text(rng)));
    }
    let what = match rng.gen_range(0..14) {
        0 => {
            m.remove("use");
            "no use"
        }
        1 => {
            m.insert("use".into(), json!(*pick(rng, &["sig", "ENC", "", "encryption", "enc "])));
            "other use"
        }
        2 => {
            m.remove("alg");
            "no alg"
        }
        3 => {
            m.insert("alg".into(), json!(*pick(rng, &["ECDH-ES+A128KW", "ECDH-ES+A256KW", "ES256", "ecdh-es", "ECDH-ES ", "", "RSA-OAEP-256"])));
            "other alg"
        }
        4 => {
            m.remove("crv");
            "no crv"
        }
        5 => {
            m.insert("crv".into(), json!(*pick(rng, &["P-384", "P-521", "p-256", "secp256k1", "P-256 ", ""])));
            "other crv"
        }
        6 => {
            m = obj(json!({"kty": "RSA", "e": "AQAB", "n": gen::ident(rng, 40, 43), "alg": "RSA-OAEP-256", "use": "enc"}));
            "rsa"
        }
        7 => {
            m = obj(json!({"kty": "OKP", "crv": "X25519", "x": gen::ident(rng, 43, 43), "alg": "ECDH-ES", "use": "enc"}));
            "okp"
        }
        8 => {
            m.insert("alg".into(), json!([m["alg"]]));
            "alg no string"
        }
        _ => "good",
    };
    if chance(rng, 0.15) {
        m.insert("key_ops".into(), pick(rng, &[json!(["deriveKey"]), json!(["deriveBits", "deriveKey"])]).clone());
    }
    if chance(rng, 0.1) {
        m.insert("iat".into(), json!(1_700_000_000));
        m.insert("exp".into(), json!(*pick(rng, &[1_700_000_001u64, 4_000_000_000])));
    }
    for _ in 0..rng.gen_range(0..3) {
        m.insert(format!("x-{}", gen::text(rng)), gen::json_value(rng, 1));
    }
    (shuffle(rng, m), what)
}

fn vp_token(rng: &mut StdRng) -> Json {
    let n = if chance(rng, 0.03) { rng.gen_range(4..40) } else { rng.gen_range(0..4) };
    let m: Map<String, Json> = (0..n)
        .map(|_| {
            let k = if chance(rng, 0.03) { rng.gen_range(4..20) } else { rng.gen_range(1..4) };
            let v: Vec<Json> = (0..k)
                .map(|_| if chance(rng, 0.5) { json!(gen::text(rng)) } else { Json::Object(gen::json_map(rng, 2)) })
                .collect();
            (gen::nonempty_text(rng), Json::Array(v))
        })
        .collect();
    Json::Object(m)
}

pub fn c18(ctx: &mut Ctx) {
    ctx.rule = "key lists, encryption lists, tokens and states through build_encrypted_response, JweBuilder and find_encryption_jwk; every JWE decrypted by an independent implementation; distinct by (key list pattern, enc list, state, verdict)".into();
    ctx.assumptions.push("josekit, a git dependency that cannot be fetched here, is replaced by /verif/josekit, which implements the interface used with real cryptography and sends the header as the library set it".into());
    for c in ["response", "response: no key", "builder", "builder: refused", "find", "find: none", "response: refused"] {
        ctx.require(c, 100);
    }
    let mut rng = ctx.fork_rng();
    let pool: Vec<Pair> = (0..12).map(|_| pair(&mut rng)).collect();
    let mut epks = HashSet::new();
    responses(ctx, &mut rng, &pool, &mut epks);
    builders(ctx, &mut rng, &pool, &mut epks);
    finds(ctx, &mut rng, &pool);
    ctx.extra.insert("distinct_ephemeral_keys".into(), json!(epks.len()));
}

/// Decrypt with the right key, fail with all the others; the ephemeral key and IV are fresh.
fn opened(jwe: &str, right: &Pair, pool: &[Pair], epks: &mut HashSet<String>) -> Result<(Map<String, Json>, Json), String> {
    let (header, plain) = decrypt(jwe, &right.secret)?;
    for p in pool.iter().filter(|p| p.x != right.x) {
        ensure!(decrypt(jwe, &p.secret).is_err(), "another key decrypts it");
    }
    ensure!(epks.insert(header["epk"]["x"].to_string()), "ephemeral key used before");
    let body = serde_json::from_slice(&plain).map_err(|e| format!("payload is not JSON: {e}"))?;
    Ok((header, body))
}

fn check_header(h: &Map<String, Json>, enc: &str, kid: Option<&str>) -> Result<(), String> {
    ensure!(h.get("enc") == Some(&json!(enc)), "enc {:?}, expected {enc}", h.get("enc"));
    ensure!(h.get("alg") == Some(&json!("ECDH-ES")), "alg {:?}", h.get("alg"));
    ensure!(h.get("kid").and_then(Json::as_str) == kid, "kid {:?}, expected {kid:?}", h.get("kid"));
    Ok(())
}

fn responses(ctx: &mut Ctx, rng: &mut StdRng, pool: &[Pair], epks: &mut HashSet<String>) {
    for _ in 0..ctx.n(2500, 60_000) {
        let n = rng.gen_range(0..5);
        let mut idx: Vec<usize> = (0..pool.len()).collect();
        idx.shuffle(rng);
        let mut keys: Vec<(Map<String, Json>, &str, usize)> = idx[..n]
            .iter()
            .map(|i| {
                let (m, w) = jwk(rng, &pool[*i]);
                (m, w, *i)
            })
            .collect();
        if chance(rng, 0.05) {
            // Many keys for other purposes before the one that counts.
            for _ in 0..rng.gen_range(10..80) {
                let k = match rng.gen_range(0..3) {
                    0 => json!({"kty": "RSA", "use": "sig", "alg": "RS256", "n": gen::ident(rng, 300, 342), "e": "AQAB"}),
                    1 => json!({"kty": "EC", "crv": "P-256", "use": "sig", "alg": "ES256", "x": gen::ident(rng, 43, 43), "y": gen::ident(rng, 43, 43)}),
                    _ => json!({"kty": "OKP", "crv": "Ed25519", "alg": "EdDSA", "x": gen::ident(rng, 43, 43)}),
                };
                keys.insert(0, (k.as_object().unwrap().clone(), "other", usize::MAX));
            }
        }
        let maps: Vec<Map<String, Json>> = keys.iter().map(|k| k.0.clone()).collect();
        let mut meta = json!({"jwks": {"keys": maps}, "vp_formats_supported": {"mso_mdoc": {}}});
        let encs: Option<Vec<&str>> = chance(rng, 0.7).then(|| {
            let n = rng.gen_range(0..4);
            (0..n).map(|_| *pick(rng, ENCS)).collect()
        });
        if let Some(e) = &encs {
            meta["encrypted_response_enc_values_supported"] = json!(e);
        }
        let mut broken = "";
        let mut req = json!({"client_id": "x509_san_dns:a.example", "response_type": "vp_token",
            "response_mode": "direct_post.jwt", "response_uri": "https://a.example/r", "nonce": gen::ident(rng, 8, 20)});
        if chance(rng, 0.2) {
            req["response_mode"] = json!("dc_api.jwt");
            req.as_object_mut().unwrap().remove("response_uri");
        }
        match rng.gen_range(0..25) {
            0 => broken = "no metadata",
            1 => {
                meta.as_object_mut().unwrap().remove("jwks");
                broken = "no jwks"
            }
            2 => {
                meta["encrypted_response_enc_values_supported"] = json!({"a": "A128GCM"});
                broken = "enc list ill-typed"
            }
            3 => {
                meta["encrypted_response_enc_values_supported"] = json!([*pick(rng, &["A512GCM", "", "a128gcm", "none"])]);
                broken = "unknown enc"
            }
            4 => {
                meta["jwks"] = json!({"keys": [gen::text(rng)]});
                broken = "keys no objects"
            }
            _ => {}
        }
        if broken != "no metadata" {
            req["client_metadata"] = meta;
        }
        let token_json = vp_token(rng);
        let state = chance(rng, 0.5).then(|| gen::text(rng));
        let run = guard(|| -> anyhow::Result<_> {
            let object: AuthorizationRequestObject = serde_json::from_value(req.clone())?;
            let token: VpToken = serde_json::from_value(token_json.clone())?;
            let state = state.clone().map(State);
            let r = build_encrypted_response(&object, &token, state.as_ref());
            let thumb = get_encryption_jwk_thumbprint(&object);
            Ok((r, thumb))
        });
        let chosen = refs::encryption_key(&maps);
        let class = match (broken, chosen) {
            ("", Some(_)) => "response",
            ("", None) => "response: no key",
            _ => "response: refused",
        };
        let key = format!("{:?} {encs:?} {} {broken}", keys.iter().map(|k| k.1).collect::<Vec<_>>(), state.is_some());
        let verdict = (|| {
            let (r, thumb) = run.clone_msg()?;
            if class != "response" {
                ensure!(r.is_err(), "accepted: {broken}");
                if broken.is_empty() {
                    ensure!(thumb.is_none(), "a transcript key although nothing can be encrypted");
                }
                return Ok(());
            }
            let chosen = chosen.unwrap();
            let right = &pool[keys.iter().find(|k| std::ptr::eq(&maps[keys.iter().position(|j| j.2 == k.2).unwrap()], chosen)).unwrap().2];
            let AuthorizationResponse::Jwt(j) = r.map_err(|e| format!("refused: {e:#}"))? else {
                return Err("not an encrypted response".into());
            };
            let (header, body) = opened(&j.response, right, pool, epks)?;
            let mut expected = json!({"vp_token": token_json});
            if let Some(s) = &state {
                expected["state"] = json!(s);
            }
            ensure!(body == expected, "payload {body} instead of {expected}");
            let enc = encs.as_ref().and_then(|e| e.first().copied()).unwrap_or("A128GCM");
            check_header(&header, enc, chosen.get("kid").and_then(Json::as_str))?;
            ensure!(
                thumb.map(|t| t.to_vec()) == refs::thumbprint(chosen).map(|t| t.to_vec()),
                "the transcript names another key"
            );
            Ok(())
        })();
        ctx.judge(class, Some(&key), || json!({"request": req, "vp_token": token_json, "state": state}), verdict);
        if ctx.saturated() {
            return;
        }
    }
}

trait CloneMsg<T> {
    fn clone_msg(self) -> Result<T, String>;
}
impl<T> CloneMsg<T> for Result<anyhow::Result<T>, String> {
    fn clone_msg(self) -> Result<T, String> {
        self?.map_err(|e| format!("the request or token does not parse: {e:#}"))
    }
}

fn builders(ctx: &mut Ctx, rng: &mut StdRng, pool: &[Pair], epks: &mut HashSet<String>) {
    for _ in 0..ctx.n(2500, 60_000) {
        let right = pick(rng, pool);
        let mut key = obj(json!({"kty": "EC", "crv": "P-256", "x": right.x, "y": right.y}));
        let own_kid = chance(rng, 0.5).then(|| gen::text(rng));
        if let Some(k) = &own_kid {
            key.insert("kid".into(), json!(k));
        }
        if chance(rng, 0.5) {
            key.insert("alg".into(), json!("ECDH-ES"));
        }
        if chance(rng, 0.5) {
            key.insert("use".into(), json!("enc"));
        }
        let key = shuffle(rng, key);
        let mut payload = gen::json_map(rng, 2);
        for k in ["iss", "sub", "jti", "aud", "exp", "nbf", "iat"] {
            payload.remove(k);
        }
        // Registered claims: an ill-typed one may be refused, not left out.
        let registered = chance(rng, 0.2);
        if registered {
            let k = *pick(rng, &["iss", "sub", "jti", "aud", "exp", "nbf", "iat"]);
            let v = pick(rng, &[json!("x"), json!(17), json!(null), json!(["x"]), json!({"x": 1}), json!(true)]).clone();
            payload.insert(k.into(), v);
        }
        let parsed = chance(rng, 0.5);
        let mut payload = Some(Json::Object(payload));
        let mut alg = Some("ECDH-ES".to_string());
        let enc = chance(rng, 0.6).then(|| *pick(rng, ENCS));
        let mut with_key = true;
        let kid = chance(rng, 0.4).then(|| if chance(rng, 0.5) { own_kid.clone().unwrap_or("k".into()) } else { gen::text(rng) });
        let mut bad = "";
        match rng.gen_range(0..12) {
            0 => {
                payload = None;
                bad = "no payload"
            }
            1 => {
                with_key = false;
                bad = "no key"
            }
            2 => {
                alg = None;
                bad = "no alg"
            }
            3 => {
                alg = Some(pick(rng, &["ECDH-ES+A128KW", "RSA-OAEP", "dir", "", "ecdh-es", "ECDH-ES ", "none", "A128KW"]).to_string());
                bad = "other alg"
            }
            4 => {
                payload = Some(match gen::json_value(rng, 1) {
                    Json::Object(_) => json!([{}]),
                    v => v,
                });
                bad = "payload no object"
            }
            _ => {}
        }
        let mut steps = vec!["payload", "key", "alg", "enc", "kid"];
        steps.shuffle(rng);
        let run = guard(|| -> anyhow::Result<String> {
            let mut b = JweBuilder::new();
            for s in &steps {
                b = match *s {
                    "payload" => match &payload {
                        Some(p) => b.payload(p.clone()),
                        None => b,
                    },
                    "key" if with_key && parsed => b.recipient_key(serde_json::from_value(Json::Object(key.clone()))?),
                    "key" if with_key => b.recipient_key_json(&Json::Object(key.clone()))?,
                    "alg" => match &alg {
                        Some(a) => b.alg(a),
                        None => b,
                    },
                    "enc" => match enc {
                        Some(e) => b.enc(e),
                        None => b,
                    },
                    "kid" => match &kid {
                        Some(k) => b.kid(k),
                        None => b,
                    },
                    _ => b,
                };
            }
            b.build()
        });
        let class = if bad.is_empty() { "builder" } else { "builder: refused" };
        let verdict = (|| {
            let r = run?;
            if !bad.is_empty() {
                ensure!(r.is_err(), "accepted: {bad}");
                return Ok(());
            }
            if registered && r.is_err() {
                return Ok(());
            }
            let (header, body) = opened(&r.map_err(|e| format!("refused: {e:#}"))?, right, pool, epks)?;
            ensure!(Some(&body) == payload.as_ref(), "payload {body}");
            check_header(&header, enc.unwrap_or("A128GCM"), kid.as_deref().or(own_kid.as_deref()))
        })();
        let k = format!("{steps:?} {enc:?} {} {} {bad}", own_kid.is_some(), kid.is_some());
        ctx.judge(class, Some(&k), || json!({"key": key, "payload": payload, "alg": alg, "enc": enc, "kid": kid, "order": steps}), verdict);
        if ctx.saturated() {
            return;
        }
    }
}

fn finds(ctx: &mut Ctx, rng: &mut StdRng, pool: &[Pair]) {
    for _ in 0..ctx.n(8000, 200_000) {
        let n = rng.gen_range(0..6);
        let (maps, whats): (Vec<_>, Vec<_>) = (0..n)
            .map(|_| {
                let p = pick(rng, pool);
                jwk(rng, p)
            })
            .unzip();
        let chosen = refs::encryption_key(&maps);
        let run = guard(|| find_encryption_jwk(maps.iter()));
        let verdict = (|| {
            let r = run?;
            let Some(c) = chosen else {
                ensure!(r.is_err(), "a key was found");
                return Ok(());
            };
            let i = r.map_err(|e| format!("none found: {e:#}"))?;
            ensure!(i.alg == "ECDH-ES", "alg {}", i.alg);
            ensure!(i.kid.as_deref() == c.get("kid").and_then(Json::as_str), "kid {:?}", i.kid);
            ensure!(serde_json::to_value(&i.jwk).ok().as_ref().and_then(Json::as_object) == Some(c), "another key");
            Ok(())
        })();
        let class = if chosen.is_some() { "find" } else { "find: none" };
        ctx.judge(class, Some(&format!("{whats:?}")), || json!(maps), verdict);
        if ctx.saturated() {
            return;
        }
    }
}
