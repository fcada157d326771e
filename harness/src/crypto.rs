//! Fake, deterministic, fully recorded cryptography registered behind spdmlib's callback boundary.
//! Every value is a function of SHA-256, so the independent peers (written in Python) can compute the same.
use bytes::BytesMut;
use spdmlib::crypto::*;
use spdmlib::error::*;
use spdmlib::protocol::*;
use spdmlib::secret::*;
use std::cell::RefCell;
use std::collections::HashMap;

pub struct St {
    pub log: Vec<String>,
    pub ctr: u64,
    pub seed: String,
    pub role: u8, // b'r' responder, b'q' requester
    pub fault_at: i64,
    pub fault_n: i64,
    pub fault_name: String,
    pub hctx: HashMap<usize, (u32, Vec<u8>)>,
    pub next_ctx: usize,
    pub nmeas: u8,
    pub measlen: u16,
    pub vend_fail: bool,
    pub app_out: Option<Vec<u8>>,
    pub vend_out: Option<Vec<u8>>,
}
thread_local! {
    pub static S: RefCell<St> = RefCell::new(St{log:vec![],ctr:0,seed:String::new(),role:b'r',fault_at:-1,fault_n:0,
        fault_name:String::new(),hctx:HashMap::new(),next_ctx:1,nmeas:3,measlen:32,vend_fail:false,app_out:None,vend_out:None});
}
pub fn log(s: String) {
    S.with(|x| x.borrow_mut().log.push(s));
}
pub fn hx(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    if b.is_empty() {
        return "-".to_string();
    }
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize] as char);
        s.push(H[(x & 15) as usize] as char);
    }
    s
}
pub fn unhx(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    let b = s.as_bytes();
    (0..b.len() / 2)
        .map(|i| u8::from_str_radix(std::str::from_utf8(&b[2 * i..2 * i + 2]).unwrap(), 16).unwrap())
        .collect()
}
/// true when this callback invocation is the one selected to fail
fn fault(name: &str) -> bool {
    S.with(|x| {
        let mut x = x.borrow_mut();
        let n = x.fault_n;
        x.fault_n += 1;
        if x.fault_at >= 0 && n == x.fault_at {
            x.fault_name = name.to_string();
            x.log.push(format!("fault {} {}", n, name));
            true
        } else {
            false
        }
    })
}

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98,
    0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786,
    0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8,
    0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13,
    0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819,
    0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a,
    0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7,
    0xc67178f2,
];
pub fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut m: Vec<u8> = parts.concat();
    let l = (m.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&l.to_be_bytes());
    let mut w = [0u32; 64];
    for c in m.chunks(64) {
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v[7] = v[6];
            v[6] = v[5];
            v[5] = v[4];
            v[4] = v[3].wrapping_add(t1);
            v[3] = v[2];
            v[2] = v[1];
            v[1] = v[0];
            v[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
/// expand SHA-256 of the tagged parts to n bytes
pub fn xof(tag: &str, parts: &[&[u8]], n: usize) -> Vec<u8> {
    let mut v: Vec<&[u8]> = vec![tag.as_bytes(), b"|"];
    let lens: Vec<[u8; 4]> = parts.iter().map(|p| (p.len() as u32).to_be_bytes()).collect();
    for (i, p) in parts.iter().enumerate() {
        v.push(&lens[i]);
        v.push(p);
    }
    let base = sha256(&v);
    let mut o = vec![];
    let mut c = 0u32;
    while o.len() < n {
        o.extend_from_slice(&sha256(&[&base, &c.to_be_bytes()]));
        c += 1;
    }
    o.truncate(n);
    o
}
pub fn hsize(a: SpdmBaseHashAlgo) -> Option<usize> {
    match a.bits() {
        1 => Some(32),
        2 => Some(48),
        4 => Some(64),
        _ => None,
    }
}
fn hbits(a: SpdmBaseHashAlgo) -> u32 {
    a.bits()
}
pub fn fhash(bits: u32, d: &[u8]) -> Vec<u8> {
    let n = match bits {
        1 => 32,
        2 => 48,
        _ => 64,
    };
    xof("hash", &[&[bits as u8], d], n)
}
fn hash_all(a: SpdmBaseHashAlgo, d: &[u8]) -> Option<SpdmDigestStruct> {
    if fault("hash_all") {
        return None;
    }
    hsize(a)?;
    let o = fhash(hbits(a), d);
    log(format!("op hash {} {} {}", hbits(a), hx(d), hx(&o)));
    Some(SpdmDigestStruct::from(&o[..]))
}
fn hctx_init(a: SpdmBaseHashAlgo) -> Option<usize> {
    if fault("hash_ctx_init") {
        return None;
    }
    hsize(a)?;
    S.with(|x| {
        let mut x = x.borrow_mut();
        let id = x.next_ctx;
        x.next_ctx += 1;
        x.hctx.insert(id, (a.bits(), vec![]));
        Some(id)
    })
}
fn hctx_update(c: usize, d: &[u8]) -> SpdmResult {
    if fault("hash_ctx_update") {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    S.with(|x| match x.borrow_mut().hctx.get_mut(&c) {
        Some(e) => {
            e.1.extend_from_slice(d);
            Ok(())
        }
        None => Err(SPDM_STATUS_CRYPTO_ERROR),
    })
}
fn hctx_fin(c: usize) -> Option<SpdmDigestStruct> {
    // also called on drop: always releases the handle; a fault only hides the digest
    let e = S.with(|x| x.borrow_mut().hctx.remove(&c));
    let (b, d) = e?;
    if fault("hash_ctx_finalize") {
        return None;
    }
    let o = fhash(b, &d);
    log(format!("op hfin {} {} {}", b, hx(&d), hx(&o)));
    Some(SpdmDigestStruct::from(&o[..]))
}
fn hctx_dup(c: usize) -> Option<usize> {
    if fault("hash_ctx_dup") {
        return None;
    }
    S.with(|x| {
        let mut x = x.borrow_mut();
        let e = x.hctx.get(&c)?.clone();
        let id = x.next_ctx;
        x.next_ctx += 1;
        x.hctx.insert(id, e);
        Some(id)
    })
}
fn hm(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8]) -> Option<Vec<u8>> {
    Some(xof("hmac", &[&[a.bits() as u8], key, data], hsize(a)?))
}
fn hmac_cb(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8]) -> Option<SpdmDigestStruct> {
    if fault("hmac") {
        return None;
    }
    let o = hm(a, key, data)?;
    log(format!("op hmac {} {} {} {}", a.bits(), hx(key), hx(data), hx(&o)));
    Some(SpdmDigestStruct::from(&o[..]))
}
fn hmac_verify_cb(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8], mac: &SpdmDigestStruct) -> SpdmResult {
    if fault("hmac_verify") {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let o = hm(a, key, data).ok_or(SPDM_STATUS_CRYPTO_ERROR)?;
    let ok = o[..] == mac.data[..(mac.data_size as usize)];
    log(format!("op hmacv {} {} {} {} {}", a.bits(), hx(key), hx(data), hx(mac.as_ref()), ok as u8));
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_VERIF_FAIL)
    }
}
fn aead_ok(a: SpdmAeadAlgo, key: &SpdmAeadKeyStruct, iv: &SpdmAeadIvStruct, tag: usize) -> bool {
    let kl = match a.bits() {
        1 => 16,
        2 | 4 => 32,
        _ => return false,
    };
    key.data_size == kl && iv.data_size == 12 && tag == 16
}
fn stream(a: SpdmAeadAlgo, key: &[u8], iv: &[u8], n: usize) -> Vec<u8> {
    xof("stream", &[&[a.bits() as u8], key, iv], n)
}
fn aead_enc(
    a: SpdmAeadAlgo,
    key: &SpdmAeadKeyStruct,
    iv: &SpdmAeadIvStruct,
    aad: &[u8],
    pt: &[u8],
    tag: &mut [u8],
    ct: &mut [u8],
) -> SpdmResult<(usize, usize)> {
    if fault("aead_encrypt") {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    if !aead_ok(a, key, iv, tag.len()) || ct.len() != pt.len() {
        log(format!("op encbad {} {} {}", a.bits(), key.data_size, iv.data_size));
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let ks = stream(a, key.as_ref(), iv.as_ref(), pt.len());
    for i in 0..pt.len() {
        ct[i] = pt[i] ^ ks[i];
    }
    let t = xof("tag", &[&[a.bits() as u8], key.as_ref(), iv.as_ref(), aad, pt], 16);
    tag.copy_from_slice(&t);
    log(format!("op enc {} {} {} {} {}", a.bits(), hx(key.as_ref()), hx(iv.as_ref()), hx(aad), hx(pt)));
    Ok((pt.len(), 16))
}
fn aead_dec(
    a: SpdmAeadAlgo,
    key: &SpdmAeadKeyStruct,
    iv: &SpdmAeadIvStruct,
    aad: &[u8],
    ct: &[u8],
    tag: &[u8],
    pt: &mut [u8],
) -> SpdmResult<usize> {
    if fault("aead_decrypt") {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    if !aead_ok(a, key, iv, tag.len()) || ct.len() != pt.len() {
        log(format!("op decbad {} {} {}", a.bits(), key.data_size, iv.data_size));
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let ks = stream(a, key.as_ref(), iv.as_ref(), ct.len());
    for i in 0..ct.len() {
        pt[i] = ct[i] ^ ks[i];
    }
    let t = xof("tag", &[&[a.bits() as u8], key.as_ref(), iv.as_ref(), aad, pt], 16);
    let ok = t[..] == *tag;
    log(format!("op dec {} {} {} {} {}", a.bits(), hx(key.as_ref()), hx(iv.as_ref()), hx(aad), ok as u8));
    if ok {
        Ok(ct.len())
    } else {
        for b in pt.iter_mut() {
            *b = 0;
        }
        Err(SPDM_STATUS_CRYPTO_ERROR)
    }
}
fn asize(bits: u32) -> usize {
    match bits {
        0x1 | 0x2 => 256,
        0x4 | 0x8 => 384,
        0x20 | 0x40 => 512,
        0x10 => 64,
        0x80 => 96,
        _ => 0,
    }
}
pub fn fsig(tag: &[u8], hash: u32, asym: u32, data: &[u8]) -> Vec<u8> {
    xof("sig", &[tag, &[hash as u8], &[asym as u8], data], asize(asym))
}
fn verify_cb(
    h: SpdmBaseHashAlgo,
    a: SpdmBaseAsymAlgo,
    cert: &[u8],
    data: &[u8],
    sig: &SpdmSignatureStruct,
) -> SpdmResult {
    if fault("asym_verify") {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    // the certificate is the last one of what is handed over
    let cs = parse_chain(cert).unwrap_or_default();
    let tag = match cs.last() {
        Some((b, _)) => cert[b + 4..b + 12].to_vec(),
        None => b"????????".to_vec(),
    };
    let want = fsig(&tag, h.bits(), a.bits(), data);
    let ok = !cs.is_empty() && !want.is_empty() && want[..] == *sig.as_ref();
    log(format!("op verify {} {} {} {} {} {}", h.bits(), a.bits(), hx(&tag), hx(data), hx(sig.as_ref()), ok as u8));
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_VERIF_FAIL)
    }
}
fn sign_cb(h: SpdmBaseHashAlgo, a: SpdmBaseAsymAlgo, data: &[u8]) -> Option<SpdmSignatureStruct> {
    if fault("sign") {
        return None;
    }
    let role = S.with(|x| x.borrow().role);
    let tag: &[u8] = if role == b'r' { b"RSPLEAF0" } else { b"REQLEAF0" };
    let s = fsig(tag, h.bits(), a.bits(), data);
    if s.is_empty() {
        return None;
    }
    log(format!("op sign {} {} {} {} {}", h.bits(), a.bits(), hx(tag), hx(data), hx(&s)));
    Some(SpdmSignatureStruct::from(BytesMut::from(&s[..])))
}
fn hkdf_ext(
    a: SpdmBaseHashAlgo,
    salt: &[u8],
    ikm: &SpdmHkdfInputKeyingMaterial,
) -> Option<SpdmHkdfPseudoRandomKey> {
    if fault("hkdf_extract") {
        return None;
    }
    let o = xof("ext", &[&[a.bits() as u8], salt, ikm.as_ref()], hsize(a)?);
    log(format!("op ext {} {} {} {}", a.bits(), hx(salt), hx(ikm.as_ref()), hx(&o)));
    Some(SpdmHkdfPseudoRandomKey::from(&o[..]))
}
fn hkdf_exp(
    a: SpdmBaseHashAlgo,
    prk: &SpdmHkdfPseudoRandomKey,
    info: &[u8],
    n: u16,
) -> Option<SpdmHkdfOutputKeyingMaterial> {
    if fault("hkdf_expand") {
        return None;
    }
    hsize(a)?;
    if n > 64 {
        return None;
    }
    let o = xof("exp", &[&[a.bits() as u8], prk.as_ref(), info], n as usize);
    log(format!("op exp {} {} {} {} {}", a.bits(), hx(prk.as_ref()), hx(info), n, hx(&o)));
    Some(SpdmHkdfOutputKeyingMaterial::from(&o[..]))
}
/// fake certificate: 30 82 LL LL | subject(8) | issuer(8) | filler | 16-byte issuer signature over everything before
pub fn parse_chain(c: &[u8]) -> Option<Vec<(usize, usize)>> {
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        if c.len() - i < 4 || c[i] != 0x30 || c[i + 1] != 0x82 {
            return None;
        }
        let l = ((c[i + 2] as usize) << 8) + c[i + 3] as usize;
        if i + 4 + l > c.len() || l < 32 {
            return None;
        }
        v.push((i, i + 4 + l));
        i += 4 + l;
    }
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}
fn cert_get(c: &[u8], idx: isize) -> SpdmResult<(usize, usize)> {
    if fault("cert_get") {
        return Err(SPDM_STATUS_INVALID_CERT);
    }
    let v = parse_chain(c).ok_or(SPDM_STATUS_INVALID_CERT)?;
    let i = if idx == -1 { v.len() as isize - 1 } else { idx };
    if i < 0 || i as usize >= v.len() {
        return Err(SPDM_STATUS_INVALID_CERT);
    }
    Ok(v[i as usize])
}
pub fn chain_ok(c: &[u8]) -> bool {
    let v = match parse_chain(c) {
        Some(v) => v,
        None => return false,
    };
    let mut prev: Vec<u8> = c[v[0].0 + 4..v[0].0 + 12].to_vec();
    for (b, e) in v {
        let iss = &c[b + 12..b + 20];
        if iss != &prev[..] {
            return false;
        }
        let s = xof("certsig", &[iss, &c[b..e - 16]], 16);
        if s[..] != c[e - 16..e] {
            return false;
        }
        prev = c[b + 4..b + 12].to_vec();
    }
    true
}
fn cert_verify(c: &[u8]) -> SpdmResult {
    if fault("cert_verify") {
        return Err(SPDM_STATUS_INVALID_CERT);
    }
    let ok = chain_ok(c);
    log(format!("op certver {} {}", hx(c), ok as u8));
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_INVALID_CERT)
    }
}
fn dsize(a: SpdmDheAlgo) -> Option<(usize, usize)> {
    match a.bits() {
        8 => Some((64, 32)),
        16 => Some((96, 48)),
        _ => None,
    }
}
struct Dhe {
    a: SpdmDheAlgo,
    my: Vec<u8>,
}
pub fn fdh(bits: u16, p: &[u8], q: &[u8], n: usize) -> Vec<u8> {
    let (x, y) = if p <= q { (p, q) } else { (q, p) };
    xof("dh", &[&[bits as u8], x, y], n)
}
impl SpdmDheKeyExchange for Dhe {
    fn compute_final_key(self: Box<Self>, peer: &SpdmDheExchangeStruct) -> Option<SpdmDheFinalKeyStruct> {
        if fault("dhe_final") {
            return None;
        }
        let (n, k) = dsize(self.a)?;
        let pk = peer.as_ref();
        // a point that is not on the curve is refused, as a real implementation does
        let bad = pk.len() != n || pk.iter().all(|b| *b == 0);
        if bad {
            log(format!("op dhbad {}", hx(pk)));
            return None;
        }
        let o = fdh(self.a.bits(), &self.my, pk, k);
        log(format!("op dh {} {} {} {}", self.a.bits(), hx(&self.my), hx(pk), hx(&o)));
        Some(SpdmDheFinalKeyStruct::from(&o[..]))
    }
}
fn rnd(n: usize, what: &str) -> Vec<u8> {
    S.with(|x| {
        let mut x = x.borrow_mut();
        x.ctr += 1;
        let c = x.ctr.to_be_bytes();
        let seed = x.seed.clone();
        let role = [x.role];
        xof(what, &[seed.as_bytes(), &role, &c], n)
    })
}
fn gen_pair(a: SpdmDheAlgo) -> Option<(SpdmDheExchangeStruct, Box<dyn SpdmDheKeyExchange>)> {
    if fault("dhe_generate") {
        return None;
    }
    let (n, _) = dsize(a)?;
    let my = rnd(n, "dhepub");
    log(format!("op gen {} {}", a.bits(), hx(&my)));
    Some((
        SpdmDheExchangeStruct::from(BytesMut::from(&my[..])),
        Box::new(Dhe { a, my }),
    ))
}
fn get_random(d: &mut [u8]) -> SpdmResult<usize> {
    if fault("random") {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let v = rnd(d.len(), "rand");
    d.copy_from_slice(&v);
    log(format!("op rand {}", hx(&v)));
    Ok(d.len())
}
fn block(i: u8, len: u16) -> Vec<u8> {
    let mut b = vec![i, 1];
    b.extend_from_slice(&(len + 3).to_le_bytes());
    b.push(1);
    b.extend_from_slice(&len.to_le_bytes());
    b.extend_from_slice(&xof("meas", &[&[i]], len as usize));
    b
}
fn meas(
    v: SpdmVersion,
    spec: SpdmMeasurementSpecification,
    h: SpdmMeasurementHashAlgo,
    idx: usize,
) -> Option<SpdmMeasurementRecordStructure> {
    if fault("measurement") {
        return None;
    }
    let (n, ln) = S.with(|x| {
        let x = x.borrow();
        (x.nmeas, x.measlen)
    });
    log(format!("op meas {} {} {} {}", v.get_u8(), spec.bits(), h.bits(), idx));
    let mut r = SpdmMeasurementRecordStructure::default();
    if idx == 0 {
        r.number_of_blocks = n;
        return Some(r);
    }
    let mut d = vec![];
    if idx == 0xff {
        for i in 1..=n {
            d.extend_from_slice(&block(i, ln));
        }
        r.number_of_blocks = n;
    } else {
        if idx > n as usize {
            return None;
        }
        d.extend_from_slice(&block(idx as u8, ln));
        r.number_of_blocks = 1;
    }
    r.measurement_record_length = codec::u24::new(d.len() as u32);
    r.measurement_record_data[..d.len()].copy_from_slice(&d);
    Some(r)
}
pub fn fmsum(h: u32, ty: u8) -> Vec<u8> {
    let n = match h {
        1 => 32,
        2 => 48,
        _ => 64,
    };
    xof("msum", &[&[h as u8], &[ty]], n)
}
fn msum(
    _v: SpdmVersion,
    h: SpdmBaseHashAlgo,
    _s: SpdmMeasurementSpecification,
    _mh: SpdmMeasurementHashAlgo,
    ty: SpdmMeasurementSummaryHashType,
) -> Option<SpdmDigestStruct> {
    if fault("measurement_summary") {
        return None;
    }
    let t = match ty {
        SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb => 1,
        SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll => 0xff,
        _ => return None,
    };
    hsize(h)?;
    log(format!("op msum {} {}", h.bits(), t));
    Some(SpdmDigestStruct::from(&fmsum(h.bits(), t)[..]))
}
fn psk_exp(
    what: &'static str,
    h: SpdmBaseHashAlgo,
    hint: &SpdmPskHintStruct,
    info: &[u8],
) -> Option<SpdmHkdfOutputKeyingMaterial> {
    if fault(what) {
        return None;
    }
    let n = hsize(h)?;
    let prk = xof(what, &[&[h.bits() as u8], hint.as_ref()], n);
    let o = xof("exp", &[&[h.bits() as u8], &prk, info], n);
    log(format!("op {} {} {} {} {} {}", what, h.bits(), hx(hint.as_ref()), hx(&prk), hx(info), hx(&o)));
    Some(SpdmHkdfOutputKeyingMaterial::from(&o[..]))
}
fn app_cb(
    _c: &mut spdmlib::responder::ResponderContext,
    sid: u32,
    b: &[u8],
    aux: &[u8],
) -> SpdmResult<([u8; spdmlib::config::MAX_SPDM_MSG_SIZE], usize)> {
    let o = S.with(|x| x.borrow().app_out.clone()).unwrap_or_else(|| {
        let mut v = b.to_vec();
        v.reverse();
        v.extend_from_slice(aux);
        v
    });
    log(format!("op app {:08x} {} {} {}", sid, hx(b), hx(aux), hx(&o)));
    if o == b"ERR" {
        return Err(SPDM_STATUS_UNSUPPORTED_CAP);
    }
    let mut r = [0u8; spdmlib::config::MAX_SPDM_MSG_SIZE];
    r[..o.len()].copy_from_slice(&o);
    Ok((r, o.len()))
}
fn vend_cb(
    q: &spdmlib::message::VendorDefinedReqPayloadStruct,
) -> SpdmResult<spdmlib::message::VendorDefinedRspPayloadStruct> {
    let b = q.vendor_defined_req_payload[..q.req_length as usize].to_vec();
    let (fail, o) = S.with(|x| {
        let x = x.borrow();
        (x.vend_fail, x.vend_out.clone())
    });
    let o = o.unwrap_or_else(|| {
        let mut v = b.clone();
        v.reverse();
        v
    });
    log(format!("op vend {} {} {}", hx(&b), fail as u8, hx(&o)));
    if fail {
        return Err(SPDM_STATUS_UNSUPPORTED_CAP);
    }
    let mut r = spdmlib::message::VendorDefinedRspPayloadStruct {
        rsp_length: o.len() as u16,
        vendor_defined_rsp_payload: [0u8; spdmlib::message::MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE],
    };
    r.vendor_defined_rsp_payload[..o.len()].copy_from_slice(&o);
    Ok(r)
}
pub fn register() {
    hash::register(SpdmHash {
        hash_all_cb: hash_all,
        hash_ctx_init_cb: hctx_init,
        hash_ctx_update_cb: hctx_update,
        hash_ctx_finalize_cb: hctx_fin,
        hash_ctx_dup_cb: hctx_dup,
    });
    hmac::register(SpdmHmac { hmac_cb, hmac_verify_cb });
    aead::register(SpdmAead { encrypt_cb: aead_enc, decrypt_cb: aead_dec });
    asym_verify::register(SpdmAsymVerify { verify_cb });
    hkdf::register(SpdmHkdf { hkdf_extract_cb: hkdf_ext, hkdf_expand_cb: hkdf_exp });
    cert_operation::register(SpdmCertOperation {
        get_cert_from_cert_chain_cb: cert_get,
        verify_cert_chain_cb: cert_verify,
    });
    dhe::register(SpdmDhe { generate_key_pair_cb: gen_pair });
    rand::register(SpdmCryptoRandom { get_random_cb: get_random });
    measurement::register(SpdmSecretMeasurement {
        measurement_collection_cb: meas,
        generate_measurement_summary_hash_cb: msum,
    });
    psk::register(SpdmSecretPsk {
        handshake_secret_hkdf_expand_cb: |_v, h, hint, info| psk_exp("pskh", h, hint, info),
        master_secret_hkdf_expand_cb: |_v, h, hint, info| psk_exp("pskm", h, hint, info),
    });
    asym_sign::register(SpdmSecretAsymSign { sign_cb });
    spdmlib::responder::app_message_handler::register(
        spdmlib::responder::app_message_handler::SpdmAppMessageHandler { dispatch_secured_app_message_cb: app_cb },
    );
    spdmlib::message::register_vendor_defined_struct(spdmlib::message::VendorDefinedStruct {
        vendor_defined_request_handler: vend_cb,
    });
    spdmlib::time::register(spdmlib::time::SpdmTime { sleep_cb: |_us| {} });
}
