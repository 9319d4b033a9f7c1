//! Generators of hostile and realistic values. Every choice comes from the seeded generator.
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Map, Value as Json};
use url::Url;

pub const NASTY: &[&str] = &[
    "", " ", "a", "0", "null", "true", "\"", "\\", "'", "&", "=", "+", "%", "%20", "%%", "#", "?", "/", "//", ";",
    ",", ":", "::", "..", ".", "@", "a b", "a+b", "a&b=c", "x=1&y=2", "é", "ß", "日本語", "🦀", "\u{0}", "\n",
    "\r\n", "\t", "\u{7f}", "\u{80}", "\u{feff}", "\u{202e}", "\u{fffd}", "\u{10ffff}", "e\u{301}", "İ", "ſ",
    "<script>", "${x}", "{}", "[]", "{\"a\":1}", "request", "request_uri", "client_id", "state", "vp_token",
    "response", "eyJhbGciOiJFUzI1NiJ9", "a.b.c", "https://example.com/a?b=c#d", "did:key:z6Mk#z6Mk", "-", "_", "~", "*",
];

pub fn pick<'a, T>(rng: &mut StdRng, xs: &'a [T]) -> &'a T {
    xs.choose(rng).unwrap()
}

pub fn chance(rng: &mut StdRng, p: f64) -> bool {
    rng.gen_bool(p)
}

pub fn ident(rng: &mut StdRng, min: usize, max: usize) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-";
    let n = rng.gen_range(min..=max);
    (0..n).map(|_| A[rng.gen_range(0..A.len())] as char).collect()
}

pub fn lower(rng: &mut StdRng, min: usize, max: usize) -> String {
    let n = rng.gen_range(min..=max);
    (0..n).map(|_| (b'a' + rng.gen_range(0..26u8)) as char).collect()
}

pub fn any_char(rng: &mut StdRng) -> char {
    match rng.gen_range(0..10) {
        0..=3 => rng.gen_range(0x20u8..0x7f) as char,
        4 => rng.gen_range(0u8..0x80) as char,
        5 => *pick(rng, &['&', '=', '+', '%', '#', '?', ' ', '"', '\\', '/', ';', ':', '.', '\'']),
        6 => char::from_u32(rng.gen_range(0x80..0x800)).unwrap_or('é'),
        7 => char::from_u32(rng.gen_range(0x800..0xd800)).unwrap_or('日'),
        8 => char::from_u32(rng.gen_range(0xe000..0x10000)).unwrap_or('\u{fffd}'),
        _ => char::from_u32(rng.gen_range(0x10000..0x110000)).unwrap_or('🦀'),
    }
}

/// Any string: short hostile fragments, identifiers, random Unicode; sometimes long.
pub fn text(rng: &mut StdRng) -> String {
    match rng.gen_range(0..11) {
        10 => webby(rng),
        0..=2 => pick(rng, NASTY).to_string(),
        3 => {
            let n = rng.gen_range(1..5);
            (0..n).map(|_| *pick(rng, NASTY)).collect()
        }
        4..=5 => ident(rng, 1, 24),
        6 if chance(rng, 0.04) => {
            let n = *pick(rng, &[2047usize, 2048, 2049, 4096, 4097, 8192, 8193, 20_000, 70_000]);
            let unit = match rng.gen_range(0..3) {
                0 => any_char(rng).to_string(),
                1 => pick(rng, NASTY).to_string() + "x",
                _ => ident(rng, 5, 90),
            };
            let mut s = unit.repeat(n / unit.len() + 1);
            while s.len() > n {
                s.pop();
            }
            s
        }
        6 => {
            let n = *pick(rng, &[23usize, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025]);
            (0..n).map(|_| any_char(rng)).collect()
        }
        _ => {
            let n = rng.gen_range(1..16);
            (0..n).map(|_| any_char(rng)).collect()
        }
    }
}

/// Origins, URLs, identifiers and values in forms that a well-meaning normalisation would change.
pub fn webby(rng: &mut StdRng) -> String {
    let host = format!("{}.{}", lower(rng, 1, 8), pick(rng, &["example", "Example.COM", "example.com.", "xn--bcher-kva.example", "bücher.example", "io"]));
    let host = match rng.gen_range(0..8) {
        0 => pick(rng, &["localhost", "LOCALHOST", "127.0.0.1", "[::1]", "[0:0:0:0:0:0:0:1]", "0x7f.1", "www.example.com"]).to_string(),
        _ => host,
    };
    let lead = *pick(rng, &["", "", "", "origin:", "web-origin:", "redirect_uri:", "x509_san_dns:", "x509_hash:", "decentralized_identifier:", "did:web:", "urn:", " ", "\t"]);
    let scheme = *pick(rng, &["https://", "https://", "https://", "http://", "HTTPS://", "Https://", "", "", "//", "android:apk-key-hash:", "openid4vp://"]);
    let port = *pick(rng, &["", "", "", ":443", ":80", ":0443", ":8443", ":"]);
    let path = *pick(rng, &["", "", "/", "//", "/a", "/a/", "/a/../b", "/./a", "/%61", "/%2f", "/a%20b", "/a b", "/a+b", "/A", "/é", "/%C3%A9", "/%c3%a9", "/;p=1", "/index.html"]);
    let tail = *pick(rng, &["", "", "", "", "?", "?a=b&c=d", "?b=2&a=1", "?a=%20", "?a=+", "#", "#f", " ", "\n", "\r\n", ".", "=", "=="]);
    format!("{lead}{scheme}{host}{port}{path}{tail}")
}

pub fn nonempty_text(rng: &mut StdRng) -> String {
    loop {
        let t = text(rng);
        if !t.is_empty() {
            return t;
        }
    }
}

/// JSON without non-integral floats whose text form depends on the printer.
/// The value with its numbers written the one usual way.
pub fn plain(v: Json) -> Json {
    match v {
        Json::Number(n) if n.is_f64() => json!(n.as_f64().unwrap().trunc() + 0.5),
        Json::Array(a) => a.into_iter().map(plain).collect(),
        Json::Object(o) => Json::Object(o.into_iter().map(|(k, v)| (k, plain(v))).collect()),
        v => v,
    }
}

/// Numbers no 64-bit integer or float holds, which a JSON value keeps all the same.
pub fn big_number(rng: &mut StdRng) -> Json {
    serde_json::from_str(pick(rng, &["123456789012345678901234567890", "-18446744073709551616", "1e+400", "2e-400"])).unwrap()
}

pub fn json_value(rng: &mut StdRng, depth: usize) -> Json {
    match rng.gen_range(0..if depth == 0 { 7 } else { 10 }) {
        0 => Json::Null,
        1 => json!(rng.gen::<bool>()),
        2 => json!(rng.gen_range(-1000i64..1000)),
        3 => match rng.gen_range(0..7) {
            0 => json!(i64::MIN),
            1 => json!(u64::MAX),
            2 => json!(i64::MAX),
            3 => json!(0.5),
            4 => json!(-2.25),
            // Kept digit by digit (serde_json's arbitrary_precision).
            _ => serde_json::from_str(pick(rng, &["9007199254740993", "1.10", "0.1000000000000000055511151231257827", "1E5"])).unwrap(),
        },
        4..=6 => json!(text(rng)),
        7..=8 => Json::Object(json_map(rng, depth - 1)),
        _ => {
            let n = rng.gen_range(0..4);
            Json::Array((0..n).map(|_| json_value(rng, depth - 1)).collect())
        }
    }
}

pub fn json_map(rng: &mut StdRng, depth: usize) -> Map<String, Json> {
    let n = if chance(rng, 0.03) { rng.gen_range(5..40) } else { rng.gen_range(0..5) };
    (0..n).map(|_| (text(rng), json_value(rng, depth))).collect()
}

pub fn host(rng: &mut StdRng) -> String {
    match rng.gen_range(0..8) {
        0 => "localhost".into(),
        1 => format!("127.0.0.{}", rng.gen_range(1..255)),
        2 => "[::1]".into(),
        3 => format!("xn--{}.example", lower(rng, 3, 6)),
        _ => format!("{}.example.{}", lower(rng, 1, 10), pick(rng, &["com", "org", "co.uk"])),
    }
}

/// An absolute http(s) URL in the url crate's normal form.
pub fn http_url(rng: &mut StdRng) -> Url {
    loop {
        let scheme = *pick(rng, &["https", "https", "https", "http"]);
        let mut s = format!("{scheme}://");
        if chance(rng, 0.05) {
            s += &format!("{}:{}@", lower(rng, 1, 4), lower(rng, 1, 4));
        }
        s += &host(rng);
        if chance(rng, 0.3) {
            s += &format!(":{}", rng.gen_range(1..65535));
        }
        let segs = rng.gen_range(0..4);
        for _ in 0..segs {
            s.push('/');
            s += &match rng.gen_range(0..6) {
                0 => url_escape(&text(rng)),
                1 => String::new(),
                _ => ident(rng, 1, 12),
            };
        }
        if chance(rng, 0.3) {
            s += &format!("?{}={}", ident(rng, 1, 5), url_escape(&text(rng)));
        } else if chance(rng, 0.03) {
            s.push('?');
        }
        if chance(rng, 0.1) {
            s += &format!("#{}", ident(rng, 1, 5));
        }
        if s.len() > 30_000 {
            continue; // the http crate refuses URIs of 64 KiB
        }
        if let Ok(u) = Url::parse(&s) {
            // Reparsing its own text must be stable, so that textual comparison is meaningful.
            if Url::parse(u.as_str()).map(|v| v == u).unwrap_or(false) {
                return u;
            }
        }
    }
}

/// Wallet authorization endpoints: custom schemes with and without authority, https links.
pub fn endpoint(rng: &mut StdRng) -> Url {
    let s = match rng.gen_range(0..8) {
        0 => "openid4vp:".to_string(),
        1 => "openid4vp://".to_string(),
        2 => format!("mdoc-openid4vp://{}", lower(rng, 0, 6)),
        3 => format!("haip://{}/{}", lower(rng, 1, 6), ident(rng, 0, 5)),
        4 => format!("openid4vp:/{}", ident(rng, 0, 5)),
        5 => "eudi-openid4vp://authorize".to_string(),
        _ => {
            let mut u = http_url(rng);
            u.set_query(None);
            u.set_fragment(None);
            return u;
        }
    };
    Url::parse(&s).unwrap()
}

pub fn url_escape(s: &str) -> String {
    crate::refs::form_encode(s).replace('+', "%20")
}

/// Change one place of a string (flip, insert, delete, case, duplicate), guaranteed different.
pub fn near_miss(rng: &mut StdRng, s: &str) -> String {
    loop {
        let cs: Vec<char> = s.chars().collect();
        let mut out = cs.clone();
        match rng.gen_range(0..12) {
            0 if !cs.is_empty() => {
                let i = rng.gen_range(0..cs.len());
                out[i] = if cs[i].is_ascii_lowercase() {
                    cs[i].to_ascii_uppercase()
                } else {
                    cs[i].to_ascii_lowercase()
                };
            }
            1 if !cs.is_empty() => {
                out.remove(rng.gen_range(0..cs.len()));
            }
            2 => out.insert(rng.gen_range(0..=cs.len()), *pick(rng, &['a', '.', ' ', '-', '*', ':', '\u{0}', '#', '/'])),
            3 => out.push(*pick(rng, &[' ', '.', '=', '\n', '/', '\u{0}', 'a', '#', ':'])),
            4 => out.insert(0, *pick(rng, &[' ', '.', 'a', '\t', ':', '*'])),
            5 if cs.len() > 1 => {
                out.pop();
            }
            6 if cs.len() > 1 => {
                out.remove(0);
            }
            7 => out.extend(cs.iter()),
            8 if cs.len() > 1 => {
                let i = rng.gen_range(0..cs.len() - 1);
                out.swap(i, i + 1);
            }
            9 => out = s.to_uppercase().chars().collect(),
            10 if !cs.is_empty() => {
                let i = rng.gen_range(0..cs.len());
                out[i] = *pick(rng, &['a', 'b', 'x', '0', '1', '-', '_', 'é']);
            }
            11 => out.clear(),
            _ => {}
        }
        let o: String = out.into_iter().collect();
        if o != s {
            return o;
        }
    }
}

pub fn ids_list(rng: &mut StdRng, pool: &[&str], max: usize) -> Vec<String> {
    let n = if chance(rng, 0.02) { rng.gen_range(20..120) } else { rng.gen_range(0..=max) };
    (0..n).map(|_| pick(rng, pool).to_string()).collect()
}

/// The same JSON in another spelling: whitespace between tokens, escaped characters. What is signed and hashed is
/// the text that was sent, never a re-serialisation of it.
pub fn messy_json(rng: &mut StdRng, v: &Json) -> String {
    if chance(rng, 0.5) {
        return v.to_string();
    }
    let p = *pick(rng, &[0.0, 0.1, 0.5]);
    let mut out = String::new();
    messy(rng, v, p, &mut out);
    out
}

fn messy_ws(rng: &mut StdRng, p: f64, out: &mut String) {
    while chance(rng, p) {
        out.push(*pick(rng, &[' ', '\n', '\t', '\r']));
    }
}

fn messy_str(rng: &mut StdRng, s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                out.push('\\');
                out.push(c);
            }
            '/' if chance(rng, 0.2) => *out += "\\/",
            c if (c as u32) < 0x20 || chance(rng, 0.05) => {
                for u in c.encode_utf16(&mut [0; 2]) {
                    *out += &format!("\\u{u:04x}");
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

fn messy(rng: &mut StdRng, v: &Json, p: f64, out: &mut String) {
    messy_ws(rng, p, out);
    match v {
        Json::String(s) => messy_str(rng, s, out),
        Json::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                messy(rng, x, p, out);
            }
            out.push(']');
        }
        Json::Object(m) => {
            out.push('{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                messy_ws(rng, p, out);
                messy_str(rng, k, out);
                messy_ws(rng, p, out);
                out.push(':');
                messy(rng, x, p, out);
            }
            out.push('}');
        }
        x => *out += &x.to_string(),
    }
    messy_ws(rng, p, out);
}
