//! C19: DCQL queries.
use crate::{
    ctx::{guard, Ctx},
    ensure,
    gen::{self, chance, pick},
};
use openid4vp::{
    core::{
        credential_format::ClaimFormatDesignation,
        dcql_query::*,
        object::{TypedParameter, UntypedObject},
    },
    utils::NonEmptyVec,
};
use rand::{rngs::StdRng, Rng};
use serde_json::{json, Map, Value as Json};

pub fn format_name(rng: &mut StdRng) -> String {
    if chance(rng, 0.7) {
        pick(rng, &["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt"]).to_string()
    } else {
        match rng.gen_range(0..3) {
            0 => pick(rng, &["vc+sd-jwt", "jwt_vp_json", "ldp_vp", "JWT_VC_JSON", "mso_mdoc ", "dc+sd-jwt-x", "", "other"]).to_string(),
            _ => gen::text(rng),
        }
    }
}

fn list(rng: &mut StdRng, max: usize, mut f: impl FnMut(&mut StdRng) -> Json) -> Json {
    let n = if chance(rng, 0.01) { 17 * max } else { rng.gen_range(1..=max) };
    let mut v: Vec<Json> = vec![];
    for _ in 0..n {
        // Repetitions are the verifier's business.
        let x = if !v.is_empty() && chance(rng, 0.1) { pick(rng, &v).clone() } else { f(rng) };
        v.push(x);
    }
    Json::Array(v)
}

fn path_element(rng: &mut StdRng) -> Json {
    match rng.gen_range(0..7) {
        0 => Json::Null,
        1 => json!(rng.gen_range(0..5)),
        2 => json!(*pick(rng, &[0u64, 1, u32::MAX as u64, u64::MAX, i64::MAX as u64])),
        _ => json!(gen::text(rng)),
    }
}

fn claim(rng: &mut StdRng) -> Json {
    let mut m = Map::new();
    if chance(rng, 0.5) {
        m.insert("id".into(), json!(gen::text(rng)));
    }
    m.insert("path".into(), list(rng, 5, path_element));
    if chance(rng, 0.4) {
        m.insert(
            "values".into(),
            list(rng, 4, |r| match r.gen_range(0..4) {
                0 => json!(r.gen::<bool>()),
                1 => json!(*pick(r, &[0i64, 1, -1, i64::MIN, i64::MAX, 1970])),
                _ => json!(gen::text(r)),
            }),
        );
    }
    if chance(rng, 0.4) {
        m.insert("intent_to_retain".into(), json!(rng.gen::<bool>()));
    }
    Json::Object(m)
}

fn strings(rng: &mut StdRng, min: usize, max: usize) -> Json {
    let n = if chance(rng, 0.01) { 40 } else { rng.gen_range(min..=max) };
    let mut v: Vec<Json> = vec![];
    for _ in 0..n {
        let x = if !v.is_empty() && chance(rng, 0.1) { pick(rng, &v).clone() } else { json!(gen::text(rng)) };
        v.push(x);
    }
    Json::Array(v)
}

fn credential(rng: &mut StdRng) -> Json {
    let mut m = Map::new();
    m.insert("id".into(), json!(if chance(rng, 0.7) { gen::ident(rng, 1, 12) } else { gen::text(rng) }));
    m.insert("format".into(), json!(format_name(rng)));
    m.insert("meta".into(), if chance(rng, 0.4) { json!({}) } else { Json::Object(gen::json_map(rng, 2)) });
    if chance(rng, 0.6) {
        m.insert("claims".into(), list(rng, 4, claim));
    }
    if chance(rng, 0.3) {
        m.insert("claim_sets".into(), list(rng, 3, |r| strings(r, 0, 3)));
    }
    if chance(rng, 0.3) {
        m.insert(
            "trusted_authorities".into(),
            list(rng, 3, |r| {
                let t = pick(r, &["aki", "etsi_tl", "openid_federation"]).to_string();
                let t = match r.gen_range(0..10) {
                    0 => gen::near_miss(r, &t),
                    1 => pick(r, &["AKI", "Aki", "etsi-tl", "EtsiTl", "openid-federation", "openidfederation", "x5c", "Other", "other"]).to_string(),
                    2 => gen::text(r),
                    _ => t,
                };
                json!({"type": t, "values": strings(r, 1, 3)})
            }),
        );
    }
    for k in ["require_cryptographic_holder_binding", "multiple"] {
        if chance(rng, 0.5) {
            m.insert(k.into(), json!(rng.gen::<bool>()));
        }
    }
    Json::Object(m)
}

/// A well-formed query in the form the library writes (every optional member only if present, meta always).
pub fn query(rng: &mut StdRng) -> Json {
    let mut m = Map::new();
    m.insert("credentials".into(), list(rng, 4, credential));
    if chance(rng, 0.4) {
        m.insert(
            "credential_sets".into(),
            list(rng, 3, |r| {
                let mut s = json!({"options": list(r, 3, |r| strings(r, 0, 3))});
                if chance(r, 0.5) {
                    s["required"] = json!(r.gen::<bool>());
                }
                s
            }),
        );
    }
    Json::Object(m)
}

pub fn small_query(rng: &mut StdRng) -> Json {
    json!({"credentials": [{"id": gen::ident(rng, 1, 8), "format": format_name(rng), "meta": {}}]})
}

fn opt<'a>(j: &'a Json, k: &str) -> Option<&'a Json> {
    j.get(k)
}

/// What every accessor must say about the query written as `j`.
fn accessors(q: &DcqlQuery, j: &Json) -> Result<(), String> {
    let creds = j["credentials"].as_array().unwrap();
    ensure!(q.credentials().len() == creds.len(), "{} credentials of {}", q.credentials().len(), creds.len());
    for (c, cj) in q.credentials().iter().zip(creds) {
        ensure!(cj["id"] == c.id(), "id() is {:?}", c.id());
        ensure!(cj["format"] == c.format().to_string().as_str() && *c.format() == ClaimFormatDesignation::from(cj["format"].as_str().unwrap()), "format() is {:?} for {}", c.format(), cj["format"]);
        let meta = opt(cj, "meta").cloned().unwrap_or(json!({}));
        ensure!(Json::Object(c.meta().clone()) == meta, "meta() is {:?}", c.meta());
        let b = |k: &str, d: bool| opt(cj, k).map(|v| v.as_bool().unwrap()).unwrap_or(d);
        ensure!(c.require_cryptographic_holder_binding() == b("require_cryptographic_holder_binding", true), "holder binding requirement of {cj} read as {}", c.require_cryptographic_holder_binding());
        ensure!(c.multiple() == b("multiple", false), "multiple of {cj} read as {}", c.multiple());
        ensure!(c.require_cryptographic_holder_binding_raw() == opt(cj, "require_cryptographic_holder_binding").and_then(Json::as_bool), "raw holder binding differs");
        ensure!(c.multiple_raw() == opt(cj, "multiple").and_then(Json::as_bool), "raw multiple differs");
        let sets = c.claim_sets().map(|s| json!(s.to_vec()));
        ensure!(sets.as_ref() == opt(cj, "claim_sets"), "claim_sets() is {sets:?}");
        let ta = c.trusted_authorities().map(|t| {
            Json::Array(t.iter().map(|a| json!({"type": serde_json::to_value(a.authority_type()).unwrap(), "values": a.values().to_vec()})).collect())
        });
        ensure!(ta.as_ref() == opt(cj, "trusted_authorities"), "trusted_authorities() is {ta:?}");
        for a in c.trusted_authorities().into_iter().flatten() {
            let named = match a.authority_type() {
                TrustedAuthorityType::Aki => "aki",
                TrustedAuthorityType::EtsiTl => "etsi_tl",
                TrustedAuthorityType::OpenidFederation => "openid_federation",
                TrustedAuthorityType::Other(o) => {
                    ensure!(!["aki", "etsi_tl", "openid_federation"].contains(&o.as_str()), "defined type {o} read as an extension");
                    o
                }
            };
            ensure!(serde_json::to_value(a.authority_type()).unwrap() == named, "authority type {named} is written differently");
        }
        ensure!(c.claims().is_some() == opt(cj, "claims").is_some(), "claims() presence differs");
        if let Some(cs) = c.claims() {
            let cjs = cj["claims"].as_array().unwrap();
            ensure!(cs.len() == cjs.len(), "{} claims of {}", cs.len(), cjs.len());
            for (cl, clj) in cs.iter().zip(cjs) {
                claim_accessors(cl, clj)?;
            }
        }
    }
    ensure!(q.credential_sets().is_some() == opt(j, "credential_sets").is_some(), "credential_sets() presence differs");
    if let Some(ss) = q.credential_sets() {
        let sj = j["credential_sets"].as_array().unwrap();
        ensure!(ss.len() == sj.len(), "{} credential sets of {}", ss.len(), sj.len());
        for (s, sj) in ss.iter().zip(sj) {
            ensure!(json!(s.options().to_vec()) == sj["options"], "options() differ");
            ensure!(s.is_required() == opt(sj, "required").map(|r| r.as_bool().unwrap()).unwrap_or(true), "is_required() of {sj} is {}", s.is_required());
            ensure!(s.required_raw() == opt(sj, "required").and_then(Json::as_bool), "required_raw() differs");
        }
    }
    Ok(())
}

fn claim_accessors(cl: &DcqlCredentialClaimsQuery, j: &Json) -> Result<(), String> {
    let path = j["path"].as_array().unwrap();
    let s = |i: usize| path.get(i).and_then(Json::as_str);
    ensure!(cl.namespace() == s(0), "namespace() of path {path:?} is {:?}", cl.namespace());
    ensure!(cl.element_identifier() == s(1), "element_identifier() of path {path:?} is {:?}", cl.element_identifier());
    let last = path.iter().rev().find_map(Json::as_str);
    ensure!(cl.claim_name() == last, "claim_name() of path {path:?} is {:?}", cl.claim_name());
    let back: Vec<Json> = cl
        .path()
        .iter()
        .map(|p| match p {
            DcqlCredentialClaimsQueryPath::String(s) => json!(s),
            DcqlCredentialClaimsQueryPath::Null => Json::Null,
            DcqlCredentialClaimsQueryPath::Integer(i) => json!(i),
        })
        .collect();
    ensure!(back == *path, "path() is {back:?} for {path:?}");
    ensure!(cl.id().map(String::as_str) == opt(j, "id").and_then(Json::as_str), "claim id() differs");
    ensure!(cl.intent_to_retain() == opt(j, "intent_to_retain").and_then(Json::as_bool), "intent_to_retain() differs");
    let vals = cl.values().map(|v| {
        Json::Array(
            v.iter()
                .map(|v| match v {
                    DcqlCredentialClaimsQueryValue::String(s) => json!(s),
                    DcqlCredentialClaimsQueryValue::Integer(i) => json!(i),
                    DcqlCredentialClaimsQueryValue::Boolean(b) => json!(b),
                })
                .collect(),
        )
    });
    ensure!(vals.as_ref() == opt(j, "values"), "values() is {vals:?}");
    Ok(())
}

/// The same query put together by calls of the library's constructors and setters.
fn build(rng: &mut StdRng, j: &Json) -> DcqlQuery {
    fn nonempty<T: Clone>(rng: &mut StdRng, v: Vec<T>) -> NonEmptyVec<T> {
        match rng.gen_range(0..3) {
            0 => {
                let mut n = NonEmptyVec::new(v[0].clone());
                for x in &v[1..] {
                    n.push(x.clone());
                }
                n
            }
            1 => NonEmptyVec::maybe_new(v).unwrap(),
            _ => v.try_into().unwrap(),
        }
    }
    let svec = |v: &Json| -> Vec<String> { serde_json::from_value(v.clone()).unwrap() };
    let mut creds = vec![];
    for cj in j["credentials"].as_array().unwrap() {
        let id = cj["id"].as_str().unwrap().to_string();
        let f = ClaimFormatDesignation::from(cj["format"].as_str().unwrap());
        let mut c = if chance(rng, 0.5) {
            DcqlCredentialQuery::new(id, f)
        } else {
            let mut c = DcqlCredentialQuery::new("x".into(), "y".into());
            if chance(rng, 0.5) {
                c.set_id(id);
                c.set_format(f);
            } else {
                *c.id_mut() = id;
                *c.format_mut() = f;
            }
            c
        };
        let meta = cj["meta"].as_object().unwrap().clone();
        if chance(rng, 0.5) {
            c.set_meta(meta);
        } else {
            c.meta_mut().extend(meta);
        }
        if let Some(cl) = cj.get("claims") {
            let mut v = vec![];
            for clj in cl.as_array().unwrap() {
                let p: Vec<_> = clj["path"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| match p {
                        Json::String(s) => DcqlCredentialClaimsQueryPath::String(s.clone()),
                        Json::Null => DcqlCredentialClaimsQueryPath::Null,
                        n => DcqlCredentialClaimsQueryPath::Integer(n.as_u64().unwrap() as usize),
                    })
                    .collect();
                let p = nonempty(rng, p);
                let mut cl = if chance(rng, 0.5) {
                    DcqlCredentialClaimsQuery::new(p)
                } else {
                    let mut c = DcqlCredentialClaimsQuery::new(NonEmptyVec::new(DcqlCredentialClaimsQueryPath::Null));
                    if chance(rng, 0.5) {
                        c.set_path(p);
                    } else {
                        *c.path_mut() = p;
                    }
                    c
                };
                let id = clj.get("id").map(|i| i.as_str().unwrap().to_string());
                let itr = clj.get("intent_to_retain").map(|i| i.as_bool().unwrap());
                let vals = clj.get("values").map(|v| {
                    v.as_array()
                        .unwrap()
                        .iter()
                        .map(|v| match v {
                            Json::String(s) => DcqlCredentialClaimsQueryValue::String(s.clone()),
                            Json::Bool(b) => DcqlCredentialClaimsQueryValue::Boolean(*b),
                            n => DcqlCredentialClaimsQueryValue::Integer(n.as_i64().unwrap() as isize),
                        })
                        .collect::<Vec<_>>()
                });
                let vals = vals.map(|v| nonempty(rng, v));
                if chance(rng, 0.5) {
                    cl.set_id(id);
                    cl.set_values(vals);
                    cl.set_intent_to_retain(itr);
                } else {
                    *cl.id_mut() = id;
                    *cl.values_mut() = vals;
                    *cl.intent_to_retain_mut() = itr;
                }
                v.push(cl);
            }
            let v = nonempty(rng, v);
            if chance(rng, 0.5) {
                c.set_claims(Some(v));
            } else {
                *c.claims_mut() = Some(v);
            }
        }
        if let Some(s) = cj.get("claim_sets") {
            let v: Vec<Vec<String>> = s.as_array().unwrap().iter().map(svec).collect();
            let v = nonempty(rng, v);
            if chance(rng, 0.5) {
                c.set_claim_sets(Some(v));
            } else {
                *c.claim_sets_mut() = Some(v);
            }
        }
        if let Some(t) = cj.get("trusted_authorities") {
            let v: Vec<_> = t
                .as_array()
                .unwrap()
                .iter()
                .map(|a| {
                    let t = match a["type"].as_str().unwrap() {
                        "aki" => TrustedAuthorityType::Aki,
                        "etsi_tl" => TrustedAuthorityType::EtsiTl,
                        "openid_federation" => TrustedAuthorityType::OpenidFederation,
                        o => TrustedAuthorityType::Other(o.into()),
                    };
                    let vals = nonempty(rng, svec(&a["values"]));
                    if chance(rng, 0.5) {
                        TrustedAuthoritiesQuery::new(t, vals)
                    } else {
                        let mut q = TrustedAuthoritiesQuery::new(TrustedAuthorityType::Aki, NonEmptyVec::new("z".into()));
                        q.set_authority_type(t);
                        if chance(rng, 0.5) {
                            q.set_values(vals);
                        } else {
                            *q.values_mut() = vals;
                        }
                        q
                    }
                })
                .collect();
            let v = nonempty(rng, v);
            if chance(rng, 0.5) {
                c.set_trusted_authorities(Some(v));
            } else {
                *c.trusted_authorities_mut() = Some(v);
            }
        }
        c.set_require_cryptographic_holder_binding(cj.get("require_cryptographic_holder_binding").and_then(Json::as_bool));
        c.set_multiple(cj.get("multiple").and_then(Json::as_bool));
        creds.push(c);
    }
    let creds = nonempty(rng, creds);
    let mut q = match rng.gen_range(0..3) {
        0 => DcqlQuery::new(creds),
        k => {
            let mut q = DcqlQuery::new(NonEmptyVec::new(DcqlCredentialQuery::new("a".into(), "b".into())));
            if k == 1 {
                q.set_credentials(creds);
            } else {
                *q.credentials_mut() = creds;
            }
            q
        }
    };
    if let Some(s) = j.get("credential_sets") {
        let v: Vec<_> = s
            .as_array()
            .unwrap()
            .iter()
            .map(|s| {
                let o: Vec<Vec<String>> = s["options"].as_array().unwrap().iter().map(svec).collect();
                let o = nonempty(rng, o);
                let mut q = if chance(rng, 0.5) {
                    DcqlCredentialSetQuery::new(o)
                } else {
                    let mut q = DcqlCredentialSetQuery::new(NonEmptyVec::new(vec![]));
                    if chance(rng, 0.5) {
                        q.set_options(o);
                    } else {
                        *q.options_mut() = o;
                    }
                    q
                };
                let r = s.get("required").and_then(Json::as_bool);
                if chance(rng, 0.5) {
                    q.set_required(r);
                } else {
                    *q.required_mut() = r;
                }
                q
            })
            .collect();
        let v = nonempty(rng, v);
        if chance(rng, 0.5) {
            q.set_credential_sets(Some(v));
        } else {
            *q.credential_sets_mut() = Some(v);
        }
    }
    q
}

/// One call that changes one member of the credential query `c`, and the same on its JSON `m`; says what was done.
fn edit_credential(rng: &mut StdRng, c: &mut DcqlCredentialQuery, m: &mut Json) -> String {
    fn list_of<T: serde::de::DeserializeOwned>(j: &Json) -> NonEmptyVec<T> {
        serde_json::from_value(j.clone()).expect("a well-formed list was refused")
    }
    fn put(m: &mut Json, k: &str, v: Option<Json>) {
        match v {
            Some(v) => m[k] = v,
            None => {
                m.as_object_mut().unwrap().remove(k);
            }
        }
    }
    // Edits put members in that any other query may have.
    let other = credential(rng);
    let setter = rng.gen::<bool>();
    let keys = ["id", "format", "meta", "claims", "claim_sets", "trusted_authorities", "require_cryptographic_holder_binding", "multiple", "one claim"];
    let k = *pick(rng, &keys);
    let v = other.get(k).cloned();
    match k {
        "id" => {
            let id = other["id"].as_str().unwrap().to_string();
            if setter {
                c.set_id(id);
            } else {
                *c.id_mut() = id;
            }
        }
        "format" => {
            let f = ClaimFormatDesignation::from(other["format"].as_str().unwrap());
            if setter {
                c.set_format(f);
            } else {
                *c.format_mut() = f;
            }
        }
        "meta" => {
            let n = other["meta"].as_object().unwrap().clone();
            if setter {
                c.set_meta(n);
            } else {
                *c.meta_mut() = n;
            }
        }
        "claims" => {
            let n = v.as_ref().map(list_of);
            if setter {
                c.set_claims(n);
            } else {
                *c.claims_mut() = n;
            }
        }
        "claim_sets" => {
            let n = v.as_ref().map(list_of);
            if setter {
                c.set_claim_sets(n);
            } else {
                *c.claim_sets_mut() = n;
            }
        }
        "trusted_authorities" => {
            let n = v.as_ref().map(list_of);
            if setter {
                c.set_trusted_authorities(n);
            } else {
                *c.trusted_authorities_mut() = n;
            }
        }
        "require_cryptographic_holder_binding" => c.set_require_cryptographic_holder_binding(v.as_ref().and_then(Json::as_bool)),
        "multiple" => c.set_multiple(v.as_ref().and_then(Json::as_bool)),
        _ => {
            // A claim taken out, changed and put back.
            let Some(old) = c.claims() else { return "nothing".into() };
            let mut all = old.to_vec();
            let i = rng.gen_range(0..all.len());
            let mj = &mut m["claims"][i];
            let o = claim(rng);
            let k = *pick(rng, &["id", "path", "values", "intent_to_retain"]);
            let v = o.get(k).cloned();
            let cl = &mut all[i];
            match k {
                "id" => {
                    let n = v.as_ref().map(|v| v.as_str().unwrap().to_string());
                    if setter {
                        cl.set_id(n);
                    } else {
                        *cl.id_mut() = n;
                    }
                }
                "path" => {
                    let n = list_of(v.as_ref().unwrap());
                    if setter {
                        cl.set_path(n);
                    } else {
                        *cl.path_mut() = n;
                    }
                }
                "values" => {
                    let n = v.as_ref().map(list_of);
                    if setter {
                        cl.set_values(n);
                    } else {
                        *cl.values_mut() = n;
                    }
                }
                _ => {
                    let n = v.as_ref().and_then(Json::as_bool);
                    if setter {
                        cl.set_intent_to_retain(n);
                    } else {
                        *cl.intent_to_retain_mut() = n;
                    }
                }
            }
            put(mj, k, v);
            *c.claims_mut() = NonEmptyVec::maybe_new(all);
            return format!("claim {i}: {k}");
        }
    }
    let how = if v.is_some() { "" } else { " removed" };
    put(m, k, v);
    format!("{k}{how}")
}

/// One call that changes the query `q`, and the same on its JSON `m`.
fn edit_query(rng: &mut StdRng, q: &mut DcqlQuery, m: &mut Json) -> String {
    let setter = rng.gen::<bool>();
    match rng.gen_range(0..12) {
        0 => {
            let n = query(rng)["credentials"].clone();
            let l = serde_json::from_value(n.clone()).expect("a well-formed list was refused");
            if setter {
                q.set_credentials(l);
            } else {
                *q.credentials_mut() = l;
            }
            m["credentials"] = n;
            "credentials".into()
        }
        1 => {
            let n = credential(rng);
            q.credentials_mut().push(serde_json::from_value(n.clone()).expect("a well-formed credential query was refused"));
            m["credentials"].as_array_mut().unwrap().push(n);
            "credential added".into()
        }
        2 | 3 => {
            let n = query(rng).get("credential_sets").cloned();
            let l = n.as_ref().map(|n| serde_json::from_value(n.clone()).expect("a well-formed list was refused"));
            if setter {
                q.set_credential_sets(l);
            } else {
                *q.credential_sets_mut() = l;
            }
            let o = m.as_object_mut().unwrap();
            let what = format!("credential_sets{}", if n.is_some() { "" } else { " removed" });
            match n {
                Some(n) => {
                    o.insert("credential_sets".into(), n);
                }
                None => {
                    o.remove("credential_sets");
                }
            }
            what
        }
        4 => {
            let Some(sets) = q.credential_sets() else { return "nothing".into() };
            let mut all = sets.to_vec();
            let i = rng.gen_range(0..all.len());
            if chance(rng, 0.6) {
                let r = *pick(rng, &[None, Some(true), Some(false)]);
                if setter {
                    all[i].set_required(r);
                } else {
                    *all[i].required_mut() = r;
                }
                let o = m["credential_sets"][i].as_object_mut().unwrap();
                match r {
                    Some(r) => {
                        o.insert("required".into(), json!(r));
                    }
                    None => {
                        o.remove("required");
                    }
                }
            } else {
                let n = list(rng, 3, |r| strings(r, 0, 3));
                let l = serde_json::from_value(n.clone()).expect("a well-formed list was refused");
                if setter {
                    all[i].set_options(l);
                } else {
                    *all[i].options_mut() = l;
                }
                m["credential_sets"][i]["options"] = n;
            }
            *q.credential_sets_mut() = NonEmptyVec::maybe_new(all);
            format!("credential set {i}")
        }
        _ => {
            let mut all = q.credentials().to_vec();
            let i = rng.gen_range(0..all.len());
            let what = edit_credential(rng, &mut all[i], &mut m["credentials"][i]);
            if setter {
                q.set_credentials(NonEmptyVec::maybe_new(all).unwrap());
            } else {
                *q.credentials_mut() = NonEmptyVec::maybe_new(all).unwrap();
            }
            format!("credential {i}: {what}")
        }
    }
}

/// Put a defective element among the sound ones there are, if any.
fn amid(rng: &mut StdRng, at: &mut Json, x: Json) {
    match at {
        Json::Array(v) => {
            let i = rng.gen_range(0..=v.len());
            v.insert(i, x);
        }
        _ => *at = json!([x]),
    }
}

/// One defect, chosen among those the specification forbids; returns what was done.
fn break_query(rng: &mut StdRng, j: &mut Json) -> String {
    let ci = rng.gen_range(0..j["credentials"].as_array().unwrap().len());
    let wrong = |rng: &mut StdRng| pick(rng, &[json!(1), json!(true), json!({}), json!("x"), json!(null)]).clone();
    loop {
        match rng.gen_range(0..22) {
            0 => {
                j["credentials"] = json!([]);
                return "empty credentials".into();
            }
            1 => {
                j.as_object_mut().unwrap().remove("credentials");
                return "no credentials".into();
            }
            2 => {
                j["credential_sets"] = json!([]);
                return "empty credential_sets".into();
            }
            3 => {
                j["credentials"][ci].as_object_mut().unwrap().remove("id");
                return "credential without id".into();
            }
            4 => {
                j["credentials"][ci].as_object_mut().unwrap().remove("format");
                return "credential without format".into();
            }
            5 => {
                j["credentials"][ci]["claims"] = json!([]);
                return "empty claims".into();
            }
            6 => {
                j["credentials"][ci]["claim_sets"] = json!([]);
                return "empty claim_sets".into();
            }
            7 => {
                j["credentials"][ci]["trusted_authorities"] = json!([]);
                return "empty trusted_authorities".into();
            }
            8 => {
                amid(rng, &mut j["credentials"][ci]["trusted_authorities"], json!({"type": "aki", "values": []}));
                return "authority without values".into();
            }
            9 => {
                amid(rng, &mut j["credentials"][ci]["trusted_authorities"], json!({"type": "aki"}));
                return "authority lacking values".into();
            }
            10 => {
                amid(rng, &mut j["credentials"][ci]["claims"], json!({"path": []}));
                return "empty path".into();
            }
            11 => {
                amid(rng, &mut j["credentials"][ci]["claims"], json!({"id": "a"}));
                return "claim without path".into();
            }
            12 => {
                amid(rng, &mut j["credentials"][ci]["claims"], json!({"path": ["a"], "values": []}));
                return "empty values".into();
            }
            13 => {
                amid(rng, &mut j["credential_sets"], json!({"options": []}));
                return "empty options".into();
            }
            14 => {
                amid(rng, &mut j["credential_sets"], json!({"required": true}));
                return "set without options".into();
            }
            15 => {
                let x = pick(rng, &[json!(true), json!(-1), json!(0.5), json!([]), json!({})]).clone();
                let mut path = if chance(rng, 0.5) { list(rng, 4, path_element) } else { json!([]) };
                amid(rng, &mut path, x);
                amid(rng, &mut j["credentials"][ci]["claims"], json!({"path": path}));
                return "ill-typed path element".into();
            }
            16 => {
                let x = pick(rng, &[json!(null), json!(0.5), json!([]), json!({})]).clone();
                let mut values = if chance(rng, 0.5) { strings(rng, 1, 3) } else { json!([]) };
                amid(rng, &mut values, x);
                amid(rng, &mut j["credentials"][ci]["claims"], json!({"path": ["a"], "values": values}));
                return "ill-typed value".into();
            }
            17 => {
                let k = *pick(rng, &["multiple", "require_cryptographic_holder_binding"]);
                j["credentials"][ci][k] = pick(rng, &[json!(1), json!("true"), json!([]), json!({})]).clone();
                return format!("ill-typed {k}");
            }
            18 => {
                j["credentials"][ci]["id"] = pick(rng, &[json!(1), json!(null), json!([]), json!({})]).clone();
                return "ill-typed id".into();
            }
            19 => {
                j["credentials"][ci]["format"] = pick(rng, &[json!(1), json!(null), json!([]), json!({})]).clone();
                return "ill-typed format".into();
            }
            20 => {
                let w = wrong(rng);
                j["credentials"] = w;
                return "ill-typed credentials".into();
            }
            _ => {
                j["credentials"][ci]["meta"] = pick(rng, &[json!(1), json!(null), json!([1]), json!("x")]).clone();
                return "ill-typed meta".into();
            }
        }
    }
}

/// Every list in the written form that must not be empty.
fn empty_list(j: &Json) -> Option<String> {
    match j {
        Json::Object(o) => {
            for (k, v) in o {
                if ["credentials", "credential_sets", "claims", "claim_sets", "trusted_authorities", "path", "values", "options"].contains(&k.as_str())
                    && v.as_array().is_some_and(|a| a.is_empty())
                {
                    return Some(k.clone());
                }
                if k == "meta" {
                    continue;
                }
                if let Some(e) = empty_list(v) {
                    return Some(e);
                }
            }
            None
        }
        Json::Array(a) => a.iter().find_map(empty_list),
        _ => None,
    }
}

pub fn c19(ctx: &mut Ctx) {
    ctx.rule = "generated DCQL queries: parsed, rewritten, rebuilt through the API, broken in one place; distinct by query text".into();
    for c in ["preserved", "absent members", "built by calls", "edited by calls", "refused", "non-empty lists", "as parameter"] {
        ctx.require(c, 100);
    }
    let mut rng = ctx.fork_rng();
    for _ in 0..ctx.n(20_000, 200_000) {
        let j = query(&mut rng);
        let key = j.to_string();
        let got = guard(|| serde_json::from_value::<DcqlQuery>(j.clone()));
        let messy = gen::messy_json(&mut rng, &j);
        let text_got = guard(|| serde_json::from_str::<DcqlQuery>(&messy));
        ctx.judge("preserved", Some(&key), || j.clone(), got.and_then(|q| {
            let q = q.map_err(|e| format!("a well-formed query was refused: {e}"))?;
            let t = text_got?.map_err(|e| format!("a well-formed query was refused as text: {e}"))?;
            ensure!(q == t, "parsing the text and the value differ");
            let back = serde_json::to_value(&q).map_err(|e| e.to_string())?;
            ensure!(back == j, "the query came back as {back}");
            let again: DcqlQuery = serde_json::from_value(back).map_err(|e| e.to_string())?;
            ensure!(again == q, "a second round trip changed the query");
            accessors(&q, &j)
        }));
        // meta may be left out, unknown members may be there.
        let mut k = j.clone();
        for c in k["credentials"].as_array_mut().unwrap() {
            if chance(&mut rng, 0.5) {
                c.as_object_mut().unwrap().remove("meta");
            }
            if chance(&mut rng, 0.2) {
                c[format!("x-{}", gen::ident(&mut rng, 0, 5))] = gen::json_value(&mut rng, 1);
            }
            for n in ["claims", "trusted_authorities"] {
                for cl in c.get_mut(n).and_then(Json::as_array_mut).into_iter().flatten() {
                    if chance(&mut rng, 0.1) {
                        cl["x-y"] = gen::json_value(&mut rng, 1);
                    }
                }
            }
        }
        if chance(&mut rng, 0.2) {
            k["x-top"] = gen::json_value(&mut rng, 1);
        }
        let got = guard(|| serde_json::from_value::<DcqlQuery>(k.clone()));
        let mut want = k.clone();
        for c in want["credentials"].as_array_mut().unwrap() {
            let o = c.as_object_mut().unwrap();
            if !o.contains_key("meta") {
                o.insert("meta".into(), json!({}));
            }
            o.retain(|n, _| !n.starts_with("x-"));
            for n in ["claims", "trusted_authorities"] {
                for cl in o.get_mut(n).and_then(Json::as_array_mut).into_iter().flatten() {
                    cl.as_object_mut().unwrap().remove("x-y");
                }
            }
        }
        want.as_object_mut().unwrap().remove("x-top");
        ctx.judge("absent members", Some(&k.to_string()), || k.clone(), got.and_then(|q| {
            let q = q.map_err(|e| format!("a query with absent meta was refused: {e}"))?;
            accessors(&q, &want)?;
            let back = serde_json::to_value(&q).map_err(|e| e.to_string())?;
            let bare = |v: &Json| {
                let mut v = v.clone();
                for c in v["credentials"].as_array_mut().unwrap() {
                    if c["meta"] == json!({}) {
                        c.as_object_mut().unwrap().remove("meta");
                    }
                }
                v
            };
            ensure!(bare(&back) == bare(&want), "the query came back as {back}");
            Ok(())
        }));
        let mut r2 = rng.clone();
        let built = guard(|| build(&mut r2, &j));
        rng = r2;
        ctx.judge("built by calls", None, || j.clone(), built.and_then(|q| {
            let back = serde_json::to_value(&q).map_err(|e| e.to_string())?;
            ensure!(back == j, "the query put together by calls is written as {back}");
            accessors(&q, &j)?;
            let p: DcqlQuery = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
            ensure!(p == q, "the query put together by calls differs from the parsed one");
            Ok(())
        }));
        // A history of edits: each changes what it names and nothing else.
        if chance(&mut rng, 0.2) {
            let mut r2 = rng.clone();
            let mut done: Vec<String> = vec![];
            let got = guard(|| {
                let mut q: DcqlQuery = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
                let mut m = j.clone();
                for _ in 0..r2.gen_range(1..12) {
                    done.push(edit_query(&mut r2, &mut q, &mut m));
                    let w = serde_json::to_value(&q).map_err(|e| e.to_string())?;
                    ensure!(w == m, "after the edit of {:?} the query is {w}, not {m}", done.last().unwrap());
                    accessors(&q, &m)?;
                }
                Ok::<(), String>(())
            });
            rng = r2;
            ctx.events(done.len());
            ctx.judge("edited by calls", done.last().map(String::as_str), || json!({"query": j, "edits": done}), got.and_then(|r| r));
        }
        let mut bad = j.clone();
        let what = break_query(&mut rng, &mut bad);
        let got = guard(|| serde_json::from_value::<DcqlQuery>(bad.clone()).is_ok());
        let got_p = guard(|| DcqlQuery::try_from(bad.clone()).is_ok());
        ctx.judge("refused", Some(&what), || json!({"defect": what, "query": bad}), got.and_then(|ok| {
            ensure!(!ok, "a query with the defect '{what}' was accepted");
            ensure!(!got_p?, "a query with the defect '{what}' was accepted as a parameter");
            Ok(())
        }));
        // As a request parameter.
        let mut o: UntypedObject = serde_json::from_value(json!({"a": 1, "dcql_query": j})).unwrap();
        let got = guard(|| {
            let q: DcqlQuery = o.get().ok_or("absent")?.map_err(|e| e.to_string())?;
            ensure!(DcqlQuery::KEY == "dcql_query", "parameter name is {}", DcqlQuery::KEY);
            o.insert(q.clone());
            ensure!(serde_json::to_value(&o).unwrap() == json!({"a": 1, "dcql_query": j}), "inserting it changed the object");
            Ok::<(), String>(())
        });
        ctx.judge("as parameter", None, || j.clone(), got.and_then(|r| r));
        if ctx.saturated() {
            return;
        }
    }
    // Non-empty lists: every way of making one.
    for i in 0..ctx.n(1000, 10_000) {
        let n = if i % 50 == 49 { rng.gen_range(100..2000) } else { i % 5 };
        let v: Vec<String> = (0..n).map(|_| gen::text(&mut rng)).collect();
        let extra = gen::text(&mut rng);
        let got = guard(|| {
            let e = v.is_empty();
            ensure!(NonEmptyVec::maybe_new(v.clone()).is_none() == e, "maybe_new of {} elements", v.len());
            ensure!(NonEmptyVec::try_from(v.clone()).is_err() == e, "try_from of {} elements", v.len());
            ensure!(serde_json::from_value::<NonEmptyVec<String>>(json!(v)).is_err() == e, "parsing {} elements", v.len());
            let d = NonEmptyVec::<String>::default();
            ensure!(!d.is_empty(), "NonEmptyVec::default() is empty");
            let mut q = DcqlQuery::new(NonEmptyVec::new(DcqlCredentialQuery::new("a".into(), "b".into())));
            let mut s = DcqlCredentialSetQuery::new(NonEmptyVec::default());
            s.set_options(NonEmptyVec::default());
            q.set_credential_sets(Some(NonEmptyVec::new(s)));
            let w = serde_json::to_value(&q).unwrap();
            if let Some(k) = empty_list(&w) {
                return Err(format!("library calls produced a query whose {k} is empty: {w}"));
            }
            ensure!(serde_json::from_value::<DcqlQuery>(w.clone()).is_ok(), "the library refuses the query its own calls produced: {w}");
            if !e {
                let mut n = NonEmptyVec::maybe_new(v.clone()).unwrap();
                n.push(extra.clone());
                let mut want = v.clone();
                want.push(extra.clone());
                ensure!(n.as_ref() == want.as_slice() && n.to_vec() == want, "push changed the list to {:?}", n.to_vec());
                ensure!((&n).into_iter().cloned().collect::<Vec<_>>() == want, "iteration differs");
                ensure!(n.clone().into_iter().collect::<Vec<_>>() == want, "owned iteration differs");
                ensure!(n.clone().into_inner() == want && Vec::from(n.clone()) == want, "into_inner differs");
                ensure!(serde_json::to_value(&n).unwrap() == json!(want), "serialisation differs");
            }
            Ok(())
        });
        ctx.judge("non-empty lists", Some(&v.len().to_string()), || json!(v), got.and_then(|r| r));
        if ctx.saturated() {
            return;
        }
    }
}
