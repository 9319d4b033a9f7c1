use crate::ctx::Ctx;

mod clients;
mod dcql;
mod did;
mod faults;
mod hostile;
mod http;
mod objects;
mod overlap;
mod request;
mod response;
mod sessions;
mod transcript;
mod verifier;
mod wallet;
mod x509;

pub type Run = fn(&mut Ctx);

pub fn find(id: &str) -> Option<Run> {
    Some(match id {
        "C01" => x509::c01,
        "C02" => did::c02,
        "C03" => wallet::c03,
        "C04" => wallet::c04,
        "C05" => wallet::c05,
        "C06" => wallet::c06,
        "C07" => request::c07,
        "C08" => request::c08,
        "C11" => response::c11,
        "C16" => transcript::c16,
        "C17" => transcript::c17,
        "C19" => dcql::c19,
        "C12" => verifier::c12,
        "C26" => verifier::c26,
        "C13" => faults::c13,
        "C23" => self::http::c23,
        "C21" => hostile::c21,
        "C14" => sessions::c14,
        "C22" => clients::c22,
        "C27" => clients::c27,
        "C15" => objects::c15,
        "C20" => objects::c20,
        "C24" => objects::c24,
        "C25" => objects::c25,
        "C28" => overlap::c28,
        "C09" => wallet::c09,
        "C10" => wallet::c10,
        _ => return None,
    })
}
