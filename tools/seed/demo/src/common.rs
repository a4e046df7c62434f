//! Zones whose signatures and digests the demonstration makes itself: `ring` and `bitcoin_hashes` are replaced by
//! stand-ins which ask the functions below.
#![allow(dead_code)]
pub use dnssec_prover::query::*;
pub use dnssec_prover::rr::*;
pub use dnssec_prover::ser::*;
pub use dnssec_prover::validation::*;
use std::sync::Mutex;

static KNOWN: Mutex<Vec<(Vec<u8>, Vec<u8>)>> = Mutex::new(Vec::new());
pub static HASHES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub static CHECKS: Mutex<Vec<bool>> = Mutex::new(Vec::new());
fn fnv(seed: u64, parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9e3779b97f4a7c15);
    for p in parts {
        for b in p.iter().copied().chain([0xfe, p.len() as u8]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}
fn mac(alg: u32, key: &[u8], exp: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut s = vec![1u8.wrapping_add(1)];
    s.extend_from_slice(&fnv(alg as u64, &[key, exp, msg]).to_be_bytes());
    s
}
pub fn digest(alg: u32, msg: &[u8]) -> Vec<u8> {
    if let Some(k) = KNOWN.lock().unwrap().iter().find(|k| k.0 == msg && k.1.len() == if alg == 1 { 20 } else { 32 }) {
        return k.1.clone();
    }
    (0..if alg == 1 { 20 } else { 32 }).map(|i| (fnv(alg as u64 * 100 + i / 4, &[msg]) >> (i % 4 * 8 + 8)) as u8).collect()
}
#[no_mangle]
unsafe extern "C" fn lsx_oracle_verify(alg: u32, k: *const u8, kl: usize, e: *const u8, el: usize, m: *const u8, ml: usize, s: *const u8, sl: usize) -> u32 {
    let sl_ = |p: *const u8, n: usize| -> &'static [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) } };
    let ok = mac(alg, sl_(k, kl), sl_(e, el), sl_(m, ml)) == sl_(s, sl);
    CHECKS.lock().unwrap().push(ok);
    ok as u32
}
#[no_mangle]
unsafe extern "C" fn lsx_oracle_hash(alg: u32, m: *const u8, ml: usize, out: *mut u8, ol: usize) {
    HASHES.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let d = digest(alg, if ml == 0 { &[] } else { std::slice::from_raw_parts(m, ml) });
    std::slice::from_raw_parts_mut(out, ol).copy_from_slice(&d);
}

pub fn nm(s: &str) -> Name {
    Name::try_from(s).expect("name")
}
pub fn labels(s: &str) -> Vec<&str> {
    s.split('.').filter(|l| !l.is_empty()).collect()
}
pub fn wire(s: &str) -> Vec<u8> {
    let mut o = vec![];
    for l in labels(s) {
        o.push(l.len() as u8);
        o.extend_from_slice(l.as_bytes());
    }
    o.push(0);
    o
}
fn ty_of(r: &RR) -> u16 {
    match r {
        RR::A(_) => 1, RR::NS(_) => 2, RR::CName(_) => 5, RR::Txt(_) => 16, RR::AAAA(_) => 28, RR::DName(_) => 39, RR::DS(_) => 43,
        RR::RRSig(_) => 46, RR::NSec(_) => 47, RR::DnsKey(_) => 48, RR::NSec3(_) => 50, RR::TLSA(_) => 52,
    }
}
/// The canonical data of the record types used here.
pub fn rdata(r: &RR) -> Vec<u8> {
    let mut o = vec![];
    match r {
        RR::A(a) => o.extend_from_slice(&a.address),
        RR::AAAA(a) => o.extend_from_slice(&a.address),
        RR::NS(n) => o = wire(n.name_server.as_str()),
        RR::CName(n) => o = wire(n.canonical_name.as_str()),
        RR::DName(n) => o = wire(n.delegation_name.as_str()),
        RR::Txt(t) => {
            let mut d = &t.data[..];
            loop {
                let n = d.len().min(255);
                o.push(n as u8);
                o.extend_from_slice(&d[..n]);
                d = &d[n..];
                if d.is_empty() {
                    break;
                }
            }
        }
        RR::TLSA(t) => {
            o = vec![t.cert_usage, t.selector, t.data_ty];
            o.extend_from_slice(&t.data);
        }
        RR::DS(d) => {
            o.extend_from_slice(&d.key_tag.to_be_bytes());
            o.extend_from_slice(&[d.alg, d.digest_type]);
            o.extend_from_slice(&d.digest);
        }
        RR::DnsKey(k) => o = key_data(k),
        RR::NSec(n) => {
            o = wire(n.next_name.as_str());
            o.extend_from_slice(&bitmap());
        }
        RR::NSec3(n) => {
            o = vec![n.hash_algo, n.flags];
            o.extend_from_slice(&n.hash_iterations.to_be_bytes());
            o.push(n.salt.len() as u8);
            o.extend_from_slice(&n.salt);
            o.push(n.next_name_hash.len() as u8);
            o.extend_from_slice(&n.next_name_hash);
            o.extend_from_slice(&bitmap());
        }
        RR::RRSig(_) => panic!(),
    }
    o
}
/// All denial records here have the types TXT and RRSIG.
pub fn mask() -> NSecTypeMask {
    NSecTypeMask::from_types(&[16, 46])
}
fn bitmap() -> Vec<u8> {
    vec![0, 6, 0, 0, 0x80, 0, 0, 2]
}
pub fn key_data(k: &DnsKey) -> Vec<u8> {
    let mut o = k.flags.to_be_bytes().to_vec();
    o.extend_from_slice(&[k.protocol, k.alg]);
    o.extend_from_slice(&k.pubkey);
    o
}
pub fn tag(k: &DnsKey) -> u16 {
    let mut s = 0u32;
    for (i, b) in key_data(k).iter().enumerate() {
        s += if i & 1 == 0 { (*b as u32) << 8 } else { *b as u32 };
    }
    (s + (s >> 16)) as u16
}
/// A key of a zone; `seed` makes keys differ.
pub fn key(zone: &str, alg: u8, seed: u8) -> DnsKey {
    DnsKey { name: nm(zone), flags: 257, protocol: 3, alg, pubkey: if alg == 8 { vec![1, 3, seed, 7, 1, 9] } else { vec![seed; 64] } }
}
/// A root key which the trust anchor refers to.
pub fn root_key() -> DnsKey {
    let mut k = key(".", 8, 0x4a);
    k.pubkey[4] = 0;
    k.pubkey[5] = 0;
    let d = 20326u16.wrapping_sub(tag(&k));
    k.pubkey[4] = (d >> 8) as u8;
    k.pubkey[5] = d as u8;
    assert_eq!(tag(&k), 20326);
    let mut m = wire(".");
    m.extend_from_slice(&key_data(&k));
    let d = root_hints().into_iter().find(|d| d.key_tag == 20326).expect("anchor").digest;
    KNOWN.lock().unwrap().push((m, d));
    k
}
pub fn ds_with(k: &DnsKey, digest_type: u8) -> DS {
    let mut m = wire(k.name.as_str());
    m.extend_from_slice(&key_data(k));
    DS { name: k.name.clone(), key_tag: tag(k), alg: k.alg, digest_type, digest: digest(digest_type as u32, &m) }
}
pub fn ds(k: &DnsKey) -> DS {
    ds_with(k, 2)
}
/// A signature with everything given; made over `set` as RFC 4034 says.
pub fn sign_with(set: &[RR], k: &DnsKey, lbl: usize, ttl: u32, from: u32, to: u32) -> RRSig {
    let name = set[0].name();
    let mut s = RRSig {
        name: name.clone(), ty: ty_of(&set[0]), alg: k.alg, labels: lbl as u8, orig_ttl: ttl, expiration: to, inception: from, key_tag: tag(k),
        key_name: k.name.clone(), signature: vec![],
    };
    resign(&mut s, set, k);
    s
}
pub fn resign(s: &mut RRSig, set: &[RR], k: &DnsKey) {
    let mut m = s.ty.to_be_bytes().to_vec();
    m.extend_from_slice(&[s.alg, s.labels]);
    for x in [s.orig_ttl, s.expiration, s.inception] {
        m.extend_from_slice(&x.to_be_bytes());
    }
    m.extend_from_slice(&s.key_tag.to_be_bytes());
    m.extend_from_slice(&wire(s.key_name.as_str()));
    let ls = labels(set[0].name().as_str());
    let owner = if s.ty == 47 || (s.labels as usize) >= ls.len() {
        wire(set[0].name().as_str())
    } else {
        let rest = ls[ls.len() - s.labels as usize..].join(".");
        wire(&format!("*.{}.", rest))
    };
    let mut d: Vec<Vec<u8>> = set.iter().map(rdata).collect();
    d.sort();
    for r in d {
        m.extend_from_slice(&owner);
        m.extend_from_slice(&s.ty.to_be_bytes());
        m.extend_from_slice(&[0, 1]);
        m.extend_from_slice(&s.orig_ttl.to_be_bytes());
        m.extend_from_slice(&(r.len() as u16).to_be_bytes());
        m.extend_from_slice(&r);
    }
    s.signature = match k.alg {
        8 | 10 if MAC_RSA.with(|m| m.get()) > 0 => {
            let el = MAC_RSA.with(|m| m.get());
            mac(k.alg as u32, &k.pubkey[3 + el..], &k.pubkey[3..3 + el], &m)
        }
        8 | 10 => mac(k.alg as u32, &k.pubkey[1 + k.pubkey[0] as usize..], &k.pubkey[1..1 + k.pubkey[0] as usize], &m),
        13 | 14 => {
            let mut p = vec![4];
            p.extend_from_slice(&k.pubkey);
            mac(k.alg as u32, &p, &[], &m)
        }
        _ => mac(k.alg as u32, &k.pubkey, &[], &m),
    };
}
pub fn sign(set: &[RR], k: &DnsKey) -> RRSig {
    sign_with(set, k, labels(set[0].name().as_str()).len(), 3600, 1700000000, 1800000000)
}
/// The records of a set and its signature.
pub fn signed(set: &[RR], k: &DnsKey) -> Vec<RR> {
    let mut v = set.to_vec();
    v.push(sign(set, k).into());
    v
}
pub fn txt(name: &str, data: &[u8]) -> RR {
    Txt { name: nm(name), data: data.to_vec() }.into()
}
/// Root keys, and the DS and keys of the zone of `k`, which is directly below the root.
pub fn zone(r: &DnsKey, k: &DnsKey) -> Vec<RR> {
    let mut v = signed(&[ds(k).into()], r);
    v.extend(signed(&[k.clone().into()], k));
    v
}
pub fn root(r: &DnsKey) -> Vec<RR> {
    signed(&[r.clone().into()], r)
}
pub fn accepted(v: &[RR]) -> bool {
    verify_rr_stream(v).is_ok()
}
/// What is returned, if the proof is accepted.
pub fn returned(v: &[RR]) -> Option<Vec<RR>> {
    verify_rr_stream(v).ok().map(|r| r.verified_rrs.iter().map(|r| (*r).clone()).collect())
}
pub fn qbuf(d: &[u8]) -> QueryBuf {
    let mut q = QueryBuf::new_zeroed(0);
    q.extend_from_slice(d);
    q
}
/// A response with an answer section and an authority section, the question is the root.
pub fn response(answers: u16, auth: u16, records: &[u8]) -> Vec<u8> {
    let mut p = vec![0, 0, 0x81, 0xa0, 0, 1];
    p.extend_from_slice(&answers.to_be_bytes());
    p.extend_from_slice(&auth.to_be_bytes());
    p.extend_from_slice(&[0, 0, 0, 0, 16, 0, 1]);
    p.extend_from_slice(records);
    p
}
pub fn b32(d: &[u8]) -> String {
    let bits: Vec<u8> = d.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
    bits.chunks(5).map(|c| b"0123456789abcdefghijklmnopqrstuv"[(0..5).fold(0, |a, i| a * 2 + c.get(i).copied().unwrap_or(0) as usize)] as char).collect()
}
/// A set signed by an RSA key whose exponent takes `el` bytes, after a three byte length.
pub fn signed_rsa(set: &[RR], k: &DnsKey, el: usize) -> Vec<RR> {
    let mut s = sign(set, k);
    s.signature = MAC_RSA.with(|m| {
        m.set(el);
        resign(&mut s, set, k);
        m.set(0);
        s.signature.clone()
    });
    let mut v = set.to_vec();
    v.push(s.into());
    v
}
thread_local!(pub static MAC_RSA: std::cell::Cell<usize> = std::cell::Cell::new(0));
