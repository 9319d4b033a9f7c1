//! Recording monitors: every trait through which the library touches the outside is implemented here, logging
//! each call, and optionally suspending around it or failing it.
use crate::{certs::Key, exec::yield_now};
use anyhow::{anyhow, bail, Result};
use async_trait::async_trait;
use http::{Request, Response};
use openid4vp::{
    core::{
        authorization_request::{
            parameters::{ClientId, ClientIdScheme},
            verification::RequestVerifier,
            AuthorizationRequestObject,
        },
        metadata::WalletMetadata,
        util::AsyncHttpClient,
    },
    verifier::{
        client::Client,
        request_signer::RequestSigner,
        session::{MemoryStore, Session, SessionStore, Status},
    },
    wallet::Wallet,
};
use serde_json::{json, Value as Json};
use ssi_claims::ProofValidationError;
use ssi_jwk::{JWKResolver, JWK};
use std::{
    borrow::Cow,
    collections::HashMap,
    fmt,
    sync::{Arc, Mutex},
};
use uuid::Uuid;

/// Shared event log and fault injector of one execution.
#[derive(Clone, Default)]
pub struct Probe(Arc<Mutex<ProbeState>>);

#[derive(Default)]
struct ProbeState {
    log: Vec<(&'static str, Json)>,
    /// Fail the n-th collaborator call (counting from 0).
    fail_at: Option<usize>,
    calls: usize,
    yields: bool,
    /// The n-th pause (counting from 0) never ends.
    hang_at: Option<usize>,
    pauses: usize,
    /// The failing call has its effect before it reports the failure.
    late: bool,
    pending: bool,
    /// Which kind of error a failing call reports.
    flavour: usize,
}

fn fault(name: &str, flavour: usize) -> anyhow::Error {
    use std::io::{Error, ErrorKind};
    let kinds = [ErrorKind::NotFound, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::WouldBlock, ErrorKind::Interrupted, ErrorKind::AlreadyExists, ErrorKind::UnexpectedEof, ErrorKind::PermissionDenied];
    let texts = ["session not found", "not found", "timed out", "temporarily unavailable, retry", "already exists", "conflict", "unsupported", "not implemented", ""];
    match flavour % 4 {
        0 => anyhow!("injected fault in {name}"),
        1 => anyhow!(texts[(flavour / 4) % texts.len()]),
        2 => Error::new(kinds[(flavour / 4) % kinds.len()], "injected").into(),
        _ => anyhow!(Error::from(kinds[(flavour / 4) % kinds.len()])).context(texts[(flavour / 40) % texts.len()]),
    }
}

impl fmt::Debug for Probe {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Probe")
    }
}

impl Probe {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_yields(self) -> Self {
        self.0.lock().unwrap().yields = true;
        self
    }
    pub fn hang_at(&self, n: usize) {
        self.0.lock().unwrap().hang_at = Some(n);
    }
    pub fn fail_at(&self, n: Option<usize>) {
        let mut s = self.0.lock().unwrap();
        s.fail_at = n;
        s.calls = 0;
        s.late = false;
        s.pending = false;
    }
    pub fn flavour(&self, n: usize) {
        self.0.lock().unwrap().flavour = n;
    }
    pub fn fail_late(&self) {
        self.0.lock().unwrap().late = true;
    }
    pub fn reset(&self) {
        let mut s = self.0.lock().unwrap();
        s.log.clear();
        s.calls = 0;
        s.fail_at = None;
        s.late = false;
        s.pending = false;
    }
    pub fn log(&self) -> Vec<(&'static str, Json)> {
        self.0.lock().unwrap().log.clone()
    }
    pub fn calls(&self) -> usize {
        self.0.lock().unwrap().calls
    }
    pub fn names(&self) -> Vec<&'static str> {
        self.log().into_iter().map(|e| e.0).collect()
    }
    pub fn count(&self, name: &str) -> usize {
        self.log().iter().filter(|e| e.0 == name).count()
    }
    pub fn note(&self, name: &'static str, v: Json) {
        self.0.lock().unwrap().log.push((name, v));
    }
    /// Log the call; Err if this call is the one to fail.
    fn enter(&self, name: &'static str, v: Json) -> Result<()> {
        let mut s = self.0.lock().unwrap();
        let n = s.calls;
        s.calls += 1;
        s.log.push((name, v));
        if s.fail_at == Some(n) {
            if s.late {
                s.pending = true;
                return Ok(());
            }
            s.log.push(("fault", json!(n)));
            return Err(fault(name, s.flavour));
        }
        Ok(())
    }
    /// The call had its effect; Err if its answer is to be lost.
    fn leave(&self, name: &'static str) -> Result<()> {
        let mut s = self.0.lock().unwrap();
        if s.pending {
            s.pending = false;
            s.log.push(("fault", json!(name)));
            return Err(fault(name, s.flavour));
        }
        Ok(())
    }
    pub async fn pause_for_test(&self) {
        self.pause().await
    }
    async fn pause(&self) {
        let (yields, hang) = {
            let mut s = self.0.lock().unwrap();
            s.pauses += 1;
            (s.yields, s.hang_at == Some(s.pauses - 1))
        };
        if hang {
            std::future::pending::<()>().await
        }
        if yields {
            yield_now().await
        }
    }
}

// --- HTTP ---

pub type Handler = Arc<dyn Fn(&Request<Vec<u8>>) -> Result<Response<Vec<u8>>> + Send + Sync>;

#[derive(Clone)]
pub struct Http {
    pub probe: Probe,
    pub handler: Handler,
}

impl Http {
    pub fn none(probe: &Probe) -> Self {
        Self {
            probe: probe.clone(),
            handler: Arc::new(|_| bail!("no route")),
        }
    }
    pub fn answer(probe: &Probe, status: u16, body: Vec<u8>) -> Self {
        Self {
            probe: probe.clone(),
            handler: Arc::new(move |_| Ok(Response::builder().status(status).body(body.clone())?)),
        }
    }
}

pub fn request_json(r: &Request<Vec<u8>>) -> Json {
    let headers: Vec<(String, String)> = r
        .headers()
        .iter()
        .map(|(k, v)| (k.as_str().to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned()))
        .collect();
    json!({
        "method": r.method().as_str(),
        "uri": r.uri().to_string(),
        "headers": headers,
        "body": String::from_utf8_lossy(r.body()),
        "body_len": r.body().len(),
    })
}

#[async_trait]
impl AsyncHttpClient for Http {
    async fn execute(&self, request: Request<Vec<u8>>) -> Result<Response<Vec<u8>>> {
        self.probe.pause().await;
        self.probe.enter("http", request_json(&request))?;
        let r = (self.handler)(&request);
        self.probe.leave("http")?;
        self.probe.pause().await;
        r
    }
}

// --- Wallet ---

pub type Policy = Arc<dyn Fn(&str) -> bool + Send + Sync>;

#[derive(Clone)]
pub struct TestWallet {
    pub metadata: WalletMetadata,
    pub http: Http,
    pub probe: Probe,
    /// Does the named method accept?
    pub policy: Policy,
    /// Handler consulted for the verdict itself (e.g. the library's own x509 check); overrides policy if set.
    pub real: Option<RealCheck>,
}

pub type RealCheck =
    Arc<dyn Fn(&str, &WalletMetadata, &AuthorizationRequestObject, Option<String>) -> Result<()> + Send + Sync>;

pub fn aro_json(a: &AuthorizationRequestObject) -> Json {
    serde_json::to_value(a).unwrap()
}

impl TestWallet {
    pub fn accepting(metadata: WalletMetadata, http: Http, probe: &Probe) -> Self {
        Self {
            metadata,
            http,
            probe: probe.clone(),
            policy: Arc::new(|_| true),
            real: None,
        }
    }
    async fn verdict(
        &self,
        method: &'static str,
        prefix: Option<&str>,
        r: &AuthorizationRequestObject,
        jwt: Option<String>,
    ) -> Result<()> {
        self.probe.pause().await;
        self.probe.enter(
            "verify",
            json!({"method": method, "prefix": prefix, "request": aro_json(r), "jwt": jwt,
                "client_id": r.client_id().map(|c| c.0.clone())}),
        )?;
        self.probe.leave("verify")?;
        self.probe.pause().await;
        if let Some(real) = &self.real {
            return real(method, &self.metadata, r, jwt);
        }
        if (self.policy)(method) {
            Ok(())
        } else {
            Err(anyhow!("policy refuses {method}"))
        }
    }
}

#[async_trait]
impl RequestVerifier for TestWallet {
    async fn decentralized_identifier(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.verdict("decentralized_identifier", None, r, j).await
    }
    async fn openid_federation(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.verdict("openid_federation", None, r, j).await
    }
    async fn preregistered(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.verdict("preregistered", None, r, j).await
    }
    async fn redirect_uri(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.verdict("redirect_uri", None, r, j).await
    }
    async fn verifier_attestation(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.verdict("verifier_attestation", None, r, j).await
    }
    async fn x509_san_dns(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.verdict("x509_san_dns", None, r, j).await
    }
    async fn x509_hash(&self, r: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.verdict("x509_hash", None, r, j).await
    }
    async fn other(&self, prefix: &str, r: &AuthorizationRequestObject, j: Option<String>) -> Result<()> {
        self.verdict("other", Some(prefix), r, j).await
    }
}

#[async_trait]
impl Wallet for TestWallet {
    type HttpClient = Http;
    fn metadata(&self) -> &WalletMetadata {
        &self.metadata
    }
    fn http_client(&self) -> &Http {
        &self.http
    }
}

/// A wallet that implements no verification method: all defaults.
pub struct BareWallet(pub TestWallet);
impl RequestVerifier for BareWallet {}
#[async_trait]
impl Wallet for BareWallet {
    type HttpClient = Http;
    fn metadata(&self) -> &WalletMetadata {
        &self.0.metadata
    }
    fn http_client(&self) -> &Http {
        &self.0.http
    }
}

pub fn metadata(v: Json) -> WalletMetadata {
    serde_json::from_value(v).expect("wallet metadata")
}

pub const ALL_PREFIXES: &[&str] = &[
    "decentralized_identifier",
    "openid_federation",
    "pre-registered",
    "redirect_uri",
    "verifier_attestation",
    "x509_san_dns",
    "x509_hash",
];

pub fn permissive_metadata() -> WalletMetadata {
    metadata(json!({
        "authorization_endpoint": "openid4vp:",
        "vp_formats_supported": {"mso_mdoc": {}},
        "client_id_prefixes_supported": ALL_PREFIXES,
        "request_object_signing_alg_values_supported": ["ES256", "EdDSA", "ES256K"],
    }))
}

// --- Verifier side ---

pub struct TestClient {
    pub id: ClientId,
    pub prefix: String,
    pub probe: Probe,
    pub jwt: Box<dyn Fn(&AuthorizationRequestObject) -> String + Send + Sync>,
}

impl fmt::Debug for TestClient {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("TestClient")
    }
}

#[async_trait]
impl Client for TestClient {
    fn id(&self) -> &ClientId {
        &self.id
    }
    fn prefix(&self) -> ClientIdScheme {
        ClientIdScheme(self.prefix.clone())
    }
    async fn generate_request_object_jwt(&self, body: &AuthorizationRequestObject) -> Result<String> {
        self.probe.pause().await;
        self.probe.enter("client", aro_json(body))?;
        let jwt = (self.jwt)(body);
        self.probe.note("client.jwt", json!(jwt));
        self.probe.leave("client")?;
        self.probe.pause().await;
        Ok(jwt)
    }
}

/// The library's MemoryStore behind a recorder.
#[derive(Clone, Debug, Default)]
pub struct TestStore {
    pub inner: MemoryStore,
    pub probe: Probe,
}

pub fn session_json(s: &Session) -> Json {
    json!({
        "uuid": s.uuid.to_string(),
        "status": serde_json::to_value(&s.status).unwrap(),
        "jwt": s.authorization_request_jwt,
        "request": aro_json(&s.authorization_request_object),
        "dcql": serde_json::to_value(&s.dcql_query).unwrap(),
    })
}

#[async_trait]
impl SessionStore for TestStore {
    async fn initiate(&self, session: Session) -> Result<()> {
        self.probe.pause().await;
        self.probe.enter("store.initiate", session_json(&session))?;
        let r = self.inner.initiate(session).await;
        self.probe.note("store.done", json!({"op": "initiate", "ok": r.is_ok()}));
        self.probe.leave("store.initiate")?;
        self.probe.pause().await;
        r
    }
    async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
        self.probe.pause().await;
        self.probe.enter("store.update", json!({"uuid": uuid.to_string(), "status": serde_json::to_value(&status).unwrap()}))?;
        let r = self.inner.update_status(uuid, status).await;
        self.probe.note("store.done", json!({"op": "update", "ok": r.is_ok()}));
        self.probe.leave("store.update")?;
        self.probe.pause().await;
        r
    }
    async fn get_session(&self, uuid: Uuid) -> Result<Session> {
        self.probe.pause().await;
        self.probe.enter("store.get", json!({"uuid": uuid.to_string()}))?;
        let r = self.inner.get_session(uuid).await;
        self.probe.note("store.done", json!({"op": "get", "ok": r.is_ok()}));
        self.probe.leave("store.get")?;
        self.probe.pause().await;
        r
    }
    async fn remove_session(&self, uuid: Uuid) -> Result<()> {
        self.probe.pause().await;
        self.probe.enter("store.remove", json!({"uuid": uuid.to_string()}))?;
        let r = self.inner.remove_session(uuid).await;
        self.probe.note("store.done", json!({"op": "remove", "ok": r.is_ok()}));
        self.probe.leave("store.remove")?;
        self.probe.pause().await;
        r
    }
}

pub struct TestSigner {
    pub key: Key,
    pub alg: Result<String, String>,
    pub jwk: Result<JWK, String>,
    pub probe: Probe,
}

impl fmt::Debug for TestSigner {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("TestSigner")
    }
}

impl TestSigner {
    pub fn new(key: &Key, probe: &Probe) -> Self {
        Self {
            alg: Ok(key.alg().into()),
            jwk: Ok(serde_json::from_value(key.jwk()).unwrap()),
            key: key.clone(),
            probe: probe.clone(),
        }
    }
}

#[async_trait]
impl RequestSigner for TestSigner {
    type Error = anyhow::Error;
    fn alg(&self) -> Result<String> {
        self.probe.enter("signer.alg", Json::Null)?;
        self.probe.leave("signer.alg")?;
        self.alg.clone().map_err(anyhow::Error::msg)
    }
    fn jwk(&self) -> Result<JWK> {
        self.probe.enter("signer.jwk", Json::Null)?;
        self.probe.leave("signer.jwk")?;
        self.jwk.clone().map_err(anyhow::Error::msg)
    }
    /// A signer whose failures only `try_sign` can report.
    async fn sign(&self, payload: &[u8]) -> Vec<u8> {
        self.try_sign(payload).await.unwrap_or_default()
    }
    async fn try_sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        self.probe.pause().await;
        self.probe.enter("signer.sign", json!(String::from_utf8_lossy(payload)))?;
        let s = self.key.sign(payload);
        self.probe.leave("signer.sign")?;
        self.probe.pause().await;
        Ok(s)
    }
}

/// Resolves the listed key ids and nothing else.
#[derive(Clone, Default)]
pub struct TestResolver {
    pub keys: HashMap<String, JWK>,
    pub probe: Probe,
}

impl JWKResolver for TestResolver {
    async fn fetch_public_jwk(&'_ self, key_id: Option<&str>) -> Result<Cow<'_, JWK>, ProofValidationError> {
        self.probe.pause().await;
        self.probe
            .enter("resolver", json!(key_id))
            .map_err(|e| ProofValidationError::Other(e.to_string()))?;
        self.probe.leave("resolver").map_err(|e| ProofValidationError::Other(e.to_string()))?;
        self.probe.pause().await;
        key_id
            .and_then(|k| self.keys.get(k))
            .map(Cow::Borrowed)
            .ok_or(ProofValidationError::UnknownKey)
    }
}
