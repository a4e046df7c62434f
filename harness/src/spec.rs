//! Reference definitions, written from the RFCs rather than from the repository's code.
use crate::api::*;
use dnssec_prover::rr::*;

pub fn nm(s: &str) -> Name {
    s.try_into().expect("harness name")
}
/// The labels of a name given as text, most specific first; none for the root.
pub fn labels(s: &str) -> Vec<&[u8]> {
    let b = s.as_bytes();
    let mut r = vec![];
    let mut st = 0;
    for i in 0..b.len() {
        if b[i] == b'.' {
            if i > st {
                r.push(&b[st..i]);
            }
            st = i + 1;
        }
    }
    r
}
pub fn put_labels(out: &mut Vec<u8>, ls: &[&[u8]]) {
    for l in ls {
        out.push(l.len() as u8);
        for c in l.iter() {
            out.push(if *c >= b'A' && *c <= b'Z' { *c + 32 } else { *c });
        }
    }
    out.push(0);
}
pub fn wire(s: &str) -> Vec<u8> {
    let mut o = vec![];
    put_labels(&mut o, &labels(s));
    o
}
/// Is `n` equal to `z` or below it (names with concrete text)?
pub fn in_zone(n: &str, z: &str) -> bool {
    let (a, b) = (labels(n), labels(z));
    a.len() >= b.len() && a[a.len() - b.len()..] == b[..]
}
pub fn strictly_below(n: &str, z: &str) -> bool {
    n != z && in_zone(n, z)
}
/// RFC 4034 section 6.1 (names with concrete, lower case text).
pub fn canon_less(a: &str, b: &str) -> bool {
    let (x, y) = (labels(a), labels(b));
    let mut i = 0;
    loop {
        if i == x.len() || i == y.len() {
            return x.len() < y.len();
        }
        let (p, q) = (x[x.len() - 1 - i], y[y.len() - 1 - i]);
        if p != q {
            return p < q;
        }
        i += 1;
    }
}
pub fn b_or(a: u32, b: u32) -> u32 {
    a | b
}
/// Non-forking `a < b` (0 or 1) on byte strings, shorter first if a prefix.
pub fn lex_less(a: &[u8], b: &[u8]) -> u32 {
    let n = a.len().min(b.len());
    let mut r = (a.len() < b.len()) as u64;
    for i in (0..n).rev() {
        let (x, y) = (a[i] as u64, b[i] as u64);
        // bit 8 of x - y is set when x < y
        let lt = (x.wrapping_sub(y) >> 8) & 1;
        let d = x ^ y;
        let ne = (d.wrapping_neg() >> 63) & 1;
        r = (lt & ne) | (r & (1 ^ ne));
    }
    r as u32
}
/// The hash lies strictly inside the gap that starts at `a` and ends at `b`. (The last gap of a zone, which wraps
/// around, is not made use of: the repository's own tests ask for that.)
pub fn covers(a: &[u8], h: &[u8], b: &[u8]) -> u32 {
    lex_less(a, h) & lex_less(h, b)
}
pub fn eq64(a: u64, b: u64) -> u32 {
    let d = a ^ b;
    (1 ^ ((d | d.wrapping_neg()) >> 63)) as u32
}
/// Non-forking `a <= b` for values below 2^63.
pub fn le64(a: u64, b: u64) -> u32 {
    (1 ^ (b.wrapping_sub(a) >> 63)) as u32
}
pub fn bitmap(types: &[u16]) -> Vec<u8> {
    let mut o = vec![];
    let mut w: Vec<u16> = types.iter().map(|t| t >> 8).collect();
    w.sort();
    w.dedup();
    for win in w {
        let mut b = [0u8; 32];
        let mut top = 0;
        for t in types {
            if t >> 8 == win {
                let l = (t & 0xff) as usize;
                b[l / 8] |= 0x80 >> (l % 8);
                if l / 8 > top {
                    top = l / 8;
                }
            }
        }
        o.push(win as u8);
        o.push(top as u8 + 1);
        o.extend_from_slice(&b[..=top]);
    }
    o
}
pub const KNOWN: [u16; 12] = [1, 2, 5, 6, 15, 16, 28, 39, 43, 46, 47, 48];
/// The types out of a small universe which a mask contains.
pub fn types_of(m: &NSecTypeMask) -> Vec<u16> {
    let mut u: Vec<u16> = KNOWN.to_vec();
    u.extend_from_slice(&[50, 52, 255, 256, 257, 1000, 65280, 65535]);
    u.into_iter().filter(|t| m.contains_type(*t)).collect()
}
/// Canonical record data. NSEC type masks may only contain the types `types_of` knows.
pub fn rdata(rr: &RR) -> Vec<u8> {
    let mut o = vec![];
    match rr {
        RR::A(a) => o.extend_from_slice(&a.address),
        RR::AAAA(a) => o.extend_from_slice(&a.address),
        RR::NS(n) => o = wire(&n.name_server),
        RR::CName(n) => o = wire(&n.canonical_name),
        RR::DName(n) => o = wire(&n.delegation_name),
        RR::Txt(t) => {
            let mut i = 0;
            loop {
                let n = (t.data.len() - i).min(255);
                o.push(n as u8);
                o.extend_from_slice(&t.data[i..i + n]);
                i += n;
                if i == t.data.len() {
                    break;
                }
            }
        }
        RR::TLSA(t) => {
            o.extend_from_slice(&[t.cert_usage, t.selector, t.data_ty]);
            o.extend_from_slice(&t.data);
        }
        RR::DnsKey(k) => {
            o.extend_from_slice(&[(k.flags >> 8) as u8, k.flags as u8, k.protocol, k.alg]);
            o.extend_from_slice(&k.pubkey);
        }
        RR::DS(d) => {
            o.extend_from_slice(&[(d.key_tag >> 8) as u8, d.key_tag as u8, d.alg, d.digest_type]);
            o.extend_from_slice(&d.digest);
        }
        RR::RRSig(s) => {
            o = sig_head(s);
            o.extend_from_slice(&wire(&s.key_name));
            o.extend_from_slice(&s.signature);
        }
        RR::NSec(n) => {
            o = wire(&n.next_name);
            o.extend_from_slice(&bitmap(&types_of(&n.types)));
        }
        RR::NSec3(n) => {
            o.extend_from_slice(&[n.hash_algo, n.flags, (n.hash_iterations >> 8) as u8, n.hash_iterations as u8]);
            o.push(n.salt.len() as u8);
            o.extend_from_slice(&n.salt);
            o.push(n.next_name_hash.len() as u8);
            o.extend_from_slice(&n.next_name_hash);
            o.extend_from_slice(&bitmap(&types_of(&n.types)));
        }
    }
    o
}
fn be32(o: &mut Vec<u8>, v: u32) {
    o.extend_from_slice(&[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]);
}
fn be16(o: &mut Vec<u8>, v: u16) {
    o.extend_from_slice(&[(v >> 8) as u8, v as u8]);
}
pub fn sig_head(s: &RRSig) -> Vec<u8> {
    let mut o = vec![];
    be16(&mut o, s.ty);
    o.push(s.alg);
    o.push(s.labels);
    be32(&mut o, s.orig_ttl);
    be32(&mut o, s.expiration);
    be32(&mut o, s.inception);
    be16(&mut o, s.key_tag);
    o
}
pub fn ty_of(rr: &RR) -> u16 {
    match rr {
        RR::A(_) => 1,
        RR::NS(_) => 2,
        RR::CName(_) => 5,
        RR::Txt(_) => 16,
        RR::AAAA(_) => 28,
        RR::DName(_) => 39,
        RR::DS(_) => 43,
        RR::RRSig(_) => 46,
        RR::NSec(_) => 47,
        RR::DnsKey(_) => 48,
        RR::NSec3(_) => 50,
        RR::TLSA(_) => 52,
    }
}
/// The whole record on the wire.
pub fn record(rr: &RR, ttl: u32) -> Vec<u8> {
    let mut o = wire(rr.name());
    be16(&mut o, ty_of(rr));
    be16(&mut o, 1);
    be32(&mut o, ttl);
    let d = rdata(rr);
    be16(&mut o, d.len() as u16);
    o.extend_from_slice(&d);
    o
}
/// RFC 4034 appendix B.
pub fn key_tag(k: &DnsKey) -> u16 {
    let d = rdata(&RR::DnsKey(k.clone()));
    let mut ac: u32 = 0;
    for (i, b) in d.iter().enumerate() {
        ac += if i & 1 == 1 { *b as u32 } else { (*b as u32) << 8 };
    }
    ac += (ac >> 16) & 0xffff;
    (ac & 0xffff) as u16
}
/// The owner name an RRSIG with `lbl` labels signs for records at `owner`.
pub fn signed_owner(owner: &str, lbl: usize) -> Vec<u8> {
    let ls = labels(owner);
    let mut o = vec![];
    if lbl < ls.len() {
        o.extend_from_slice(&[1, b'*']);
        put_labels(&mut o, &ls[ls.len() - lbl..]);
    } else {
        put_labels(&mut o, &ls);
    }
    o
}
/// RFC 4034 section 3.1.8.1 for records in the given order.
pub fn signed_msg(s: &RRSig, owner: &[u8], rdatas: &[&[u8]]) -> Vec<u8> {
    let mut o = sig_head(s);
    o.extend_from_slice(&wire(&s.key_name));
    for d in rdatas {
        o.extend_from_slice(owner);
        be16(&mut o, s.ty);
        be16(&mut o, 1);
        be32(&mut o, s.orig_ttl);
        be16(&mut o, d.len() as u16);
        o.extend_from_slice(d);
    }
    o
}
/// RFC 3110: (exponent, modulus)
pub fn rsa(pk: &[u8]) -> Option<(&[u8], &[u8])> {
    if pk.is_empty() {
        return None;
    }
    let (el, p) = if pk[0] != 0 {
        (pk[0] as usize, 1)
    } else {
        if pk.len() < 3 {
            return None;
        }
        (pk[1] as usize * 256 + pk[2] as usize, 3)
    };
    if p + el > pk.len() {
        return None;
    }
    Some((&pk[p..p + el], &pk[p + el..]))
}
/// RFC 4034 section 3.1.5 timestamps, taken to lie in the 136 years starting 27 (365 day) years after the epoch.
pub fn time(t: u32) -> u64 {
    ite(t < 60 * 60 * 24 * 365 * 27, t as u64 + 4294967296, t as u64)
}
