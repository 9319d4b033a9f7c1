//! AES, GCM and CBC-HMAC (RFC 7518 section 5), written for clarity; not constant time.
use hmac::{Hmac, Mac};
use sha2::{Sha256, Sha384, Sha512};

fn xtime(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}
struct Boxes {
    s: [u8; 256],
    inv: [u8; 256],
}
fn boxes() -> &'static Boxes {
    static B: std::sync::OnceLock<Boxes> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        let mut b = Boxes { s: [0; 256], inv: [0; 256] };
        for x in 0..=255u8 {
            let i = (0..=255u8).find(|y| gmul(x, *y) == 1).unwrap_or(0);
            let v = i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 0x63;
            b.s[x as usize] = v;
            b.inv[v as usize] = x;
        }
        b
    })
}

pub struct Aes {
    rk: Vec<[u8; 16]>,
}
impl Aes {
    pub fn new(key: &[u8]) -> Self {
        let nk = key.len() / 4;
        let rounds = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (rounds + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t.rotate_left(1);
                t = t.map(|b| boxes().s[b as usize]);
                t[0] ^= rcon;
                rcon = xtime(rcon);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|b| boxes().s[b as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Self { rk: w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect() }
    }
    fn add(s: &mut [u8; 16], k: &[u8; 16]) {
        s.iter_mut().zip(k).for_each(|(a, b)| *a ^= b);
    }
    fn mix(s: &mut [u8; 16], m: [u8; 4]) {
        for c in s.chunks_mut(4) {
            let o = [c[0], c[1], c[2], c[3]];
            for r in 0..4 {
                c[r] = (0..4).fold(0, |x, j| x ^ gmul(o[j], m[(j + 4 - r) % 4]));
            }
        }
    }
    pub fn encrypt(&self, mut s: [u8; 16]) -> [u8; 16] {
        let n = self.rk.len() - 1;
        Self::add(&mut s, &self.rk[0]);
        for r in 1..=n {
            let o = s.map(|b| boxes().s[b as usize]);
            for c in 0..4 {
                for i in 0..4 {
                    s[4 * c + i] = o[4 * ((c + i) % 4) + i];
                }
            }
            if r != n {
                Self::mix(&mut s, [2, 3, 1, 1]);
            }
            Self::add(&mut s, &self.rk[r]);
        }
        s
    }
    pub fn decrypt(&self, mut s: [u8; 16]) -> [u8; 16] {
        let n = self.rk.len() - 1;
        for r in (1..=n).rev() {
            Self::add(&mut s, &self.rk[r]);
            if r != n {
                Self::mix(&mut s, [14, 11, 13, 9]);
            }
            let o = s;
            for c in 0..4 {
                for i in 0..4 {
                    s[4 * ((c + i) % 4) + i] = o[4 * c + i];
                }
            }
            s = s.map(|b| boxes().inv[b as usize]);
        }
        Self::add(&mut s, &self.rk[0]);
        s
    }
}

fn block(b: &[u8]) -> [u8; 16] {
    let mut o = [0; 16];
    o[..b.len()].copy_from_slice(b);
    o
}

fn gcm(key: &[u8], iv: &[u8], aad: &[u8], input: &[u8], encrypting: bool) -> (Vec<u8>, [u8; 16]) {
    let aes = Aes::new(key);
    let h = u128::from_be_bytes(aes.encrypt([0; 16]));
    let mut j = block(iv);
    j[15] = 1;
    let tag_mask = aes.encrypt(j);
    let mut out = vec![];
    for (i, c) in input.chunks(16).enumerate() {
        j[12..].copy_from_slice(&(i as u32 + 2).to_be_bytes());
        let ks = aes.encrypt(j);
        out.extend(c.iter().zip(ks).map(|(a, b)| a ^ b));
    }
    let ct: &[u8] = if encrypting { &out } else { input };
    let mul = |x: u128| {
        let (mut z, mut v) = (0u128, h);
        for i in 0..128 {
            if x >> (127 - i) & 1 == 1 {
                z ^= v;
            }
            v = (v >> 1) ^ if v & 1 == 1 { 0xe1 << 120 } else { 0 };
        }
        z
    };
    let mut y = 0u128;
    for c in aad.chunks(16).chain(ct.chunks(16)) {
        y = mul(y ^ u128::from_be_bytes(block(c)));
    }
    y = mul(y ^ ((aad.len() as u128 * 8) << 64 | ct.len() as u128 * 8));
    let tag = (y ^ u128::from_be_bytes(tag_mask)).to_be_bytes();
    (out, tag)
}

pub fn key_len(enc: &str) -> Option<usize> {
    Some(match enc {
        "A128GCM" => 16,
        "A192GCM" => 24,
        "A256GCM" => 32,
        "A128CBC-HS256" => 32,
        "A192CBC-HS384" => 48,
        "A256CBC-HS512" => 64,
        _ => return None,
    })
}
pub fn iv_len(enc: &str) -> usize {
    if enc.ends_with("GCM") {
        12
    } else {
        16
    }
}

fn cbc_tag(enc: &str, key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let (mac_key, _) = key.split_at(key.len() / 2);
    let mut data = aad.to_vec();
    data.extend(iv);
    data.extend(ct);
    data.extend((aad.len() as u64 * 8).to_be_bytes());
    macro_rules! mac {
        ($h:ty) => {{
            let mut m = <Hmac<$h> as Mac>::new_from_slice(mac_key).unwrap();
            m.update(&data);
            m.finalize().into_bytes().to_vec()
        }};
    }
    let full = match enc {
        "A128CBC-HS256" => mac!(Sha256),
        "A192CBC-HS384" => mac!(Sha384),
        _ => mac!(Sha512),
    };
    full[..mac_key.len()].to_vec()
}

pub fn seal(enc: &str, key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    if enc.ends_with("GCM") {
        let (ct, tag) = gcm(key, iv, aad, pt, true);
        return (ct, tag.to_vec());
    }
    let aes = Aes::new(&key[key.len() / 2..]);
    let pad = 16 - pt.len() % 16;
    let mut padded = pt.to_vec();
    padded.extend(vec![pad as u8; pad]);
    let mut prev: [u8; 16] = iv.try_into().unwrap();
    let mut ct = vec![];
    for c in padded.chunks(16) {
        let mut b: [u8; 16] = c.try_into().unwrap();
        Aes::add(&mut b, &prev);
        prev = aes.encrypt(b);
        ct.extend(prev);
    }
    let tag = cbc_tag(enc, key, iv, aad, &ct);
    (ct, tag)
}

pub fn open(enc: &str, key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    if iv.len() != iv_len(enc) || key.len() != key_len(enc)? {
        return None;
    }
    if enc.ends_with("GCM") {
        let (pt, t) = gcm(key, iv, aad, ct, false);
        return (t[..] == *tag).then_some(pt);
    }
    if cbc_tag(enc, key, iv, aad, ct) != tag || ct.is_empty() || ct.len() % 16 != 0 {
        return None;
    }
    let aes = Aes::new(&key[key.len() / 2..]);
    let mut prev: [u8; 16] = iv.try_into().ok()?;
    let mut pt = vec![];
    for c in ct.chunks(16) {
        let c: [u8; 16] = c.try_into().ok()?;
        let mut b = aes.decrypt(c);
        Aes::add(&mut b, &prev);
        pt.extend(b);
        prev = c;
    }
    let n = *pt.last()? as usize;
    if n == 0 || n > 16 || pt[pt.len() - n..].iter().any(|b| *b as usize != n) {
        return None;
    }
    pt.truncate(pt.len() - n);
    Some(pt)
}
