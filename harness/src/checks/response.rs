//! C11: authorization responses on the wire.
use super::wallet::{vp_json, vp_token};
use crate::{
    ctx::{guard, Ctx},
    ensure,
    gen::{self, chance, pick},
    refs,
};
use openid4vp::core::{
    object::UntypedObject,
    response::{
        parameters::{State, VpToken, VpTokenItem},
        AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse,
    },
};
use rand::Rng;
use serde_json::{json, Value as Json};

fn check(r: &AuthorizationResponse, vp: &VpToken, state: Option<&str>) -> Result<(), String> {
    match r {
        AuthorizationResponse::Unencoded(u) => {
            ensure!(u.vp_token().0 == vp.0, "the vp_token came back as {}", vp_json(u.vp_token()));
            ensure!(u.state().map(|s| s.0.as_str()) == state, "the state came back as {:?}, not {state:?}", u.state());
            Ok(())
        }
        AuthorizationResponse::Jwt(j) => Err(format!("a plain response came back as an encrypted one: {j:?}")),
    }
}

fn check_jwt(r: &AuthorizationResponse, jwt: &str) -> Result<(), String> {
    match r {
        AuthorizationResponse::Jwt(j) => {
            ensure!(j.response == jwt, "the encrypted payload came back as {:?}", j.response);
            Ok(())
        }
        _ => Err("an encrypted response came back as a plain one".into()),
    }
}

pub fn c11(ctx: &mut Ctx) {
    ctx.rule = "responses with arbitrary ids, presentations, states and payloads through both codecs, and malformed ones; distinct by content".into();
    for c in ["plain form", "encrypted form", "plain json", "encrypted json", "foreign form", "refused", "presentation object", "vp_token api"] {
        ctx.require(c, 200);
    }
    let mut rng = ctx.fork_rng();
    for _ in 0..ctx.n(15_000, 250_000) {
        let vp = vp_token(&mut rng);
        let vj = vp_json(&vp);
        let state = if chance(&mut rng, 0.6) { Some(gen::text(&mut rng)) } else { None };
        let mk = || match &state {
            Some(s) => UnencodedAuthorizationResponse::with_state(vp.clone(), State(s.clone())),
            None => UnencodedAuthorizationResponse::new(vp.clone()),
        };
        let key = format!("{vj}/{state:?}");
        let case = || json!({"vp_token": vj, "state": state});
        // Form.
        let got = guard(|| mk().into_x_www_form_urlencoded());
        ctx.judge("plain form", Some(&key), case, got.and_then(|f| {
            let f = f.map_err(|e| format!("could not be encoded: {e:#}"))?;
            let mut pairs = refs::form_decode(&f);
            pairs.sort();
            let names: Vec<_> = pairs.iter().map(|p| p.0.as_str()).collect();
            let want: Vec<&str> = if state.is_some() { vec!["state", "vp_token"] } else { vec!["vp_token"] };
            ensure!(names == want, "the form has the parameters {names:?}");
            if let Some(s) = &state {
                ensure!(pairs[0].1 == *s, "the form says state {:?}", pairs[0].1);
            }
            let v: Json = serde_json::from_str(&pairs.last().unwrap().1).map_err(|e| format!("vp_token in the form is not JSON: {e}"))?;
            ensure!(v == vj, "the form's vp_token is {v}");
            ensure!(f.bytes().all(|b| b.is_ascii_alphanumeric() || b"*-._+%&=".contains(&b)), "the form contains unescaped characters: {f}");
            let back = guard(|| AuthorizationResponse::from_x_www_form_urlencoded(f.as_bytes()))?.map_err(|e| format!("its own form was refused: {e:#}"))?;
            check(&back, &vp, state.as_deref())
        }));
        // The same from another implementation.
        let style = rng.gen_range(0..3);
        let enc = |s: &str| match style {
            0 => refs::form_encode(s),
            1 => s.bytes().map(|b| format!("%{b:02x}")).collect::<String>(),
            _ => refs::form_encode(s).replace('+', "%20"),
        };
        let text = if chance(&mut rng, 0.8) { gen::messy_json(&mut rng, &vj) } else { serde_json::to_string_pretty(&vj).unwrap() };
        let mut parts = vec![format!("{}={}", enc("vp_token"), enc(&text))];
        if let Some(s) = &state {
            parts.push(format!("{}={}", enc("state"), enc(s)));
        }
        if chance(&mut rng, 0.3) {
            parts.push(format!("x{}={}", enc(&gen::ident(&mut rng, 0, 6)), enc(&gen::text(&mut rng))));
        }
        if chance(&mut rng, 0.5) {
            parts.reverse();
        }
        let form = parts.join("&");
        let got = guard(|| AuthorizationResponse::from_x_www_form_urlencoded(form.as_bytes()));
        ctx.judge("foreign form", Some(&form), || json!({"form": form}), got.and_then(|r| check(&r.map_err(|e| format!("refused: {e:#}"))?, &vp, state.as_deref())));
        // JSON.
        let mut want = json!({"vp_token": vj});
        if let Some(s) = &state {
            want["state"] = json!(s);
        }
        let foreign = {
            let mut members: Vec<(String, Json)> = want.as_object().unwrap().clone().into_iter().collect();
            if chance(&mut rng, 0.3) {
                members.push((format!("x{}", gen::ident(&mut rng, 0, 6)), gen::json_value(&mut rng, 2)));
            }
            if chance(&mut rng, 0.5) {
                members.reverse();
            }
            gen::messy_json(&mut rng, &Json::Object(members.into_iter().collect()))
        };
        let got = guard(|| serde_json::to_string(&AuthorizationResponse::Unencoded(mk())));
        let got_u = guard(|| serde_json::to_value(mk()));
        ctx.judge("plain json", None, case, got.and_then(|t| {
            let t = t.map_err(|e| format!("could not be encoded: {e}"))?;
            let v: Json = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            ensure!(v == want, "written as {v}");
            ensure!(got_u?.map_err(|e| e.to_string())? == want, "the inner response is written differently");
            let back: AuthorizationResponse = guard(|| serde_json::from_str(&t))?.map_err(|e| format!("its own JSON was refused: {e}"))?;
            check(&back, &vp, state.as_deref())?;
            // Spelled, ordered and extended as another program would.
            let back: AuthorizationResponse = guard(|| serde_json::from_str(&foreign))?.map_err(|e| format!("equivalent JSON {foreign} was refused: {e}"))?;
            check(&back, &vp, state.as_deref())?;
            let o: UntypedObject = serde_json::from_value(v.clone()).unwrap();
            let u: UnencodedAuthorizationResponse = guard(|| o.try_into())?.map_err(|e: anyhow::Error| format!("refused as an object: {e:#}"))?;
            check(&AuthorizationResponse::Unencoded(u), &vp, state.as_deref())?;
            let p = VpToken::try_from(vj.clone()).map_err(|e| format!("refused as a parameter: {e:#}"))?;
            ensure!(p == vp && Json::from(p) == vj, "the vp_token parameter changed");
            Ok(())
        }));
        // Encrypted.
        let max = if chance(&mut rng, 0.02) { 9_000 } else { 40 };
        let jwt = if chance(&mut rng, 0.5) { gen::text(&mut rng) } else { (0..5).map(|_| gen::ident(&mut rng, 0, max)).collect::<Vec<_>>().join(".") };
        let r = JwtAuthorizationResponse { response: jwt.clone() };
        let got = guard(|| r.clone().into_x_www_form_urlencoded());
        ctx.judge("encrypted form", Some(&jwt), || json!({"response": jwt}), got.and_then(|f| {
            let f = f.map_err(|e| format!("could not be encoded: {e:#}"))?;
            let p = refs::form_decode(&f);
            ensure!(p == vec![("response".to_string(), jwt.clone())], "the form says {p:?}");
            let back = guard(|| AuthorizationResponse::from_x_www_form_urlencoded(f.as_bytes()))?.map_err(|e| format!("its own form was refused: {e:#}"))?;
            check_jwt(&back, &jwt)
        }));
        let mut parts = vec![format!("{}={}", enc("response"), enc(&jwt))];
        for _ in 0..rng.gen_range(0..3) {
            parts.insert(rng.gen_range(0..=parts.len()), format!("x{}={}", enc(&gen::ident(&mut rng, 0, 6)), enc(&gen::text(&mut rng))));
        }
        if chance(&mut rng, 0.3) {
            parts.insert(rng.gen_range(0..=parts.len()), format!("state={}", enc(&gen::text(&mut rng))));
        }
        let form = parts.join("&");
        let got = guard(|| AuthorizationResponse::from_x_www_form_urlencoded(form.as_bytes()));
        ctx.judge("foreign form", Some(&form), || json!({"form": form}), got.and_then(|r| check_jwt(&r.map_err(|e| format!("refused: {e:#}"))?, &jwt)));
        let got = guard(|| serde_json::to_string(&AuthorizationResponse::Jwt(r.clone())));
        ctx.judge("encrypted json", None, || json!({"response": jwt}), got.and_then(|t| {
            let t = t.map_err(|e| e.to_string())?;
            let v: Json = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            ensure!(v == json!({"response": jwt}), "written as {v}");
            let back: AuthorizationResponse = serde_json::from_str(&t).map_err(|e| format!("its own JSON was refused: {e}"))?;
            check_jwt(&back, &jwt)
        }));
        // Malformed.
        let bad_vp = match rng.gen_range(0..9) {
            0 => gen::text(&mut rng),
            1 => json!([vj]).to_string(),
            2 => json!({"a": "x"}).to_string(),
            3 => json!({"a": {"b": "x"}}).to_string(),
            4 => {
                let mut items = vec![json!("x"), json!({})];
                items.insert(rng.gen_range(0..3), pick(&mut rng, &[json!(1), json!(null), json!(true), json!(["x"]), json!(0.5)]).clone());
                json!({"a": ["x"], "b": items}).to_string()
            }
            5 => vj.to_string() + "x",
            6 => json!(vj.to_string()).to_string(),
            7 => "null".into(),
            _ => {
                let mut t = vj.to_string();
                t.pop();
                t
            }
        };
        let well = serde_json::from_str::<Json>(&bad_vp).ok().and_then(|v| v.as_object().cloned()).is_some_and(|o| {
            o.values().all(|v| v.as_array().is_some_and(|a| a.iter().all(|i| i.is_string() || i.is_object())))
        });
        if !well {
            let mut f = format!("vp_token={}", enc(&bad_vp));
            if chance(&mut rng, 0.5) {
                f += "&state=s";
            }
            let got = guard(|| AuthorizationResponse::from_x_www_form_urlencoded(f.as_bytes()));
            let gj = serde_json::from_str::<Json>(&bad_vp).ok().map(|v| guard(|| serde_json::from_value::<AuthorizationResponse>(json!({"vp_token": v})).is_ok()));
            ctx.judge("refused", Some(&bad_vp), || json!({"vp_token": bad_vp}), got.and_then(|r| {
                ensure!(r.is_err(), "the malformed vp_token {bad_vp} was accepted: {r:?}");
                if let Some(j) = gj {
                    ensure!(!j?, "the malformed vp_token {bad_vp} was accepted in JSON");
                }
                Ok(())
            }));
        }
        let missing = match rng.gen_range(0..6) {
            0 => String::new(),
            1 => format!("state={}", enc(&gen::text(&mut rng))),
            2 => format!("Vp_token={}&Response=x", enc(&vj.to_string())),
            3 => format!("x{}={}", enc(&gen::text(&mut rng)), enc(&vj.to_string())),
            4 => "responses=a&vp_tokens=b".into(),
            _ => format!("vp_token%20={}", enc(&vj.to_string())),
        };
        let got = guard(|| AuthorizationResponse::from_x_www_form_urlencoded(missing.as_bytes()));
        ctx.judge("refused", Some(&missing), || json!({"form": missing}), got.and_then(|r| {
            ensure!(r.is_err(), "a form without vp_token or response was accepted: {missing} as {r:?}");
            Ok(())
        }));
        // The map interface of vp_token.
        let got = guard(|| {
            let mut t = VpToken::new();
            ensure!(t.is_empty() && t.len() == 0 && VpToken::default() == t, "a new vp_token is not empty");
            ensure!(vp.iter().count() == vp.0.len() && vp.iter().all(|(k, v)| vp.0.get(k) == Some(v)), "iterating gives something else");
            for (k, v) in &vp.0 {
                t.insert(k.clone(), v.clone());
            }
            ensure!(t == vp && t.len() == vp.0.len() && t.is_empty() == vp.0.is_empty(), "inserting everything gives another vp_token");
            for (k, v) in &vp.0 {
                ensure!(t.get(k) == Some(v), "get({k:?}) differs");
                let one = VpToken::with_credential(k.clone(), v.clone());
                ensure!(one.len() == 1 && one.get(k) == Some(v), "with_credential differs");
            }
            let n = gen::ident(&mut rng, 30, 31);
            ensure!(t.get(&n).is_none(), "an absent id is found");
            Ok(())
        });
        ctx.judge("vp_token api", None, case, got.and_then(|r| r));
        // Presentations of the credential library.
        let v2 = chance(&mut rng, 0.5);
        let ctx_url = if v2 { "https://www.w3.org/ns/credentials/v2" } else { "https://www.w3.org/2018/credentials/v1" };
        let mut p = json!({"@context": [ctx_url], "type": ["VerifiablePresentation"]});
        if chance(&mut rng, 0.7) {
            p["id"] = json!(format!("urn:uuid:{}", uuid::Uuid::from_u128(rng.gen())));
        }
        if chance(&mut rng, 0.7) {
            p["holder"] = json!(format!("did:example:{}", gen::ident(&mut rng, 1, 9)));
        }
        p[format!("x{}", gen::ident(&mut rng, 1, 5))] = gen::plain(gen::json_value(&mut rng, 2));
        let proved = chance(&mut rng, 0.4);
        if proved {
            p["proof"] = json!({"type": "DataIntegrityProof", "cryptosuite": *pick(&mut rng, &["ecdsa-rdfc-2019", "eddsa-2022", "ecdsa-jcs-2019"]),
                "created": "2024-01-02T03:04:05Z", "verificationMethod": format!("did:example:{}#k", gen::ident(&mut rng, 1, 9)),
                "proofPurpose": "authentication", "challenge": gen::text(&mut rng), "domain": format!("{}.example", gen::lower(&mut rng, 1, 6)),
                "proofValue": format!("z{}", gen::ident(&mut rng, 20, 90).replace(['_', '-', '0', 'O', 'I', 'l'], "1"))});
        }
        let got: Result<Option<VpTokenItem>, String> = guard(|| {
            use ssi_claims::{data_integrity::{AnyDataIntegrity, AnySuite, DataIntegrity}, vc};
            match (rng.gen_range(0..2), v2) {
                (0, _) if proved => serde_json::from_value::<AnyDataIntegrity>(p.clone()).ok().map(Into::into),
                (_, _) if proved => serde_json::from_value::<DataIntegrity<vc::AnyJsonPresentation, AnySuite>>(p.clone()).ok().map(Into::into),
                (1, true) if chance(&mut rng, 0.5) => serde_json::from_value::<vc::v2::syntax::JsonPresentation<vc::v2::SpecializedJsonCredential<json_syntax::Object>>>(p.clone()).ok().map(Into::into),
                (0, false) => serde_json::from_value::<vc::v1::syntax::JsonPresentation>(p.clone()).ok().map(Into::into),
                (0, true) => serde_json::from_value::<vc::v2::syntax::JsonPresentation>(p.clone()).ok().map(Into::into),
                _ => serde_json::from_value::<vc::AnyJsonPresentation>(p.clone()).ok().map(Into::into),
            }
        });
        match got {
            Ok(None) => {}
            got => {
                let v = got.map(|i| i.unwrap());
                ctx.judge(if proved { "signed presentation object" } else { "presentation object" }, Some(&p.to_string()), || p.clone(), v.and_then(|i| {
                    ensure!(i == VpTokenItem::JsonObject(p.as_object().unwrap().clone()), "the presentation became {i:?}");
                    Ok(())
                }));
            }
        }
        let s = gen::text(&mut rng);
        ensure_string_item(ctx, &s);
        if ctx.saturated() {
            return;
        }
    }
}

fn ensure_string_item(ctx: &mut Ctx, s: &str) {
    let got = guard(|| VpTokenItem::from(s.to_string()));
    ctx.judge("string item", None, || json!(s), got.and_then(|i| {
        ensure!(i == VpTokenItem::String(s.to_string()), "the string {s:?} became {i:?}");
        ensure!(serde_json::to_value(&i).unwrap() == json!(s), "the string {s:?} is written differently");
        Ok(())
    }));
}
