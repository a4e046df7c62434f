//! Name resolution, record ordering, JSON, trust anchors and key formats.
use crate::api::*;
use crate::h_val::*;
use crate::oracle::*;
use crate::spec::*;
use dnssec_prover::rr::*;
use dnssec_prover::validation::*;

fn letter() -> u8 {
    let c = sym_u8();
    assume(c >= b'a' && c <= b'd');
    c
}
fn text(b: &[u8]) -> Name {
    let s = String::from_utf8(b.to_vec()).unwrap();
    nm(&s)
}
/// A name of one of a few shapes.
fn shaped(shape: usize) -> Name {
    match shape {
        0 => nm("."),
        1 => text(&[letter(), b'.']),
        2 => text(&[letter(), b'.', letter(), b'.']),
        3 => text(&[letter(), letter(), b'.']),
        4 => text(&[letter(), b'.', letter(), letter(), b'.', letter(), b'.']),
        _ => {
            // almost as long as names can be
            let mut t: Vec<u8> = (0..252).map(|i| if i % 60 == 59 { b'.' } else { b'l' }).collect();
            t[0] = letter();
            t.push(b'.');
            text(&t)
        }
    }
}
fn ends_at_label(n: &[u8], z: &[u8]) -> Option<usize> {
    // the length of what comes before `z`
    if z == b"." {
        return if n == b"." { Some(0) } else { Some(n.len()) };
    }
    if n.len() < z.len() {
        return None;
    }
    let p = n.len() - z.len();
    if n[p..] == *z && (p == 0 || n[p - 1] == b'.') {
        Some(p)
    } else {
        None
    }
}
/// Can resolving `n` give `got`?
fn outcome(rrs: &[&RR], n: &[u8], seen: &mut Vec<Vec<u8>>, got: &[&RR]) -> bool {
    if seen.iter().any(|s| s[..] == *n) {
        return got.is_empty();
    }
    seen.push(n.to_vec());
    let mut ok = false;
    let mut any = false;
    for r in rrs {
        if let RR::CName(c) = r {
            if c.name.as_bytes() == n {
                any = true;
                ok = ok || outcome(rrs, c.canonical_name.as_bytes(), seen, got);
            }
        }
    }
    if !any {
        for r in rrs {
            if let RR::DName(d) = r {
                if let Some(p) = ends_at_label(n, d.name.as_bytes()) {
                    if n.len() != d.name.as_bytes().len() || n != d.name.as_bytes() {
                        any = true;
                        let mut t = n[..p].to_vec();
                        if d.delegation_name.as_str() != "." {
                            t.extend_from_slice(d.delegation_name.as_bytes());
                        }
                        ok = ok || if t.len() > 255 { got.is_empty() } else { outcome(rrs, &t, seen, got) };
                    }
                }
            }
        }
    }
    if !any {
        let want: Vec<&&RR> = rrs.iter().filter(|r| r.name().as_bytes() == n).collect();
        ok = want.len() == got.len() && want.iter().all(|w| got.iter().any(|g| core::ptr::eq(*g, **w)));
    }
    seen.pop();
    ok
}
/// Records of the given kinds with arbitrary names, in a verified set; params: query shape, then kind, owner shape, target shape of each.
pub fn resolve() {
    let q = shaped(param(0));
    let n = param(1);
    let mut rrs: Vec<RR> = vec![];
    for i in 0..n {
        let code = param(2 + i as u32);
        let (kind, os, ts) = (code / 100, code / 10 % 10, code % 10);
        let name = shaped(os);
        rrs.push(match kind {
            0 => A { name, address: [i as u8; 4] }.into(),
            1 => CName { name, canonical_name: shaped(ts) }.into(),
            2 => DName { name, delegation_name: shaped(ts) }.into(),
            _ => Txt { name, data: vec![i as u8] }.into(),
        });
    }
    let v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 1 };
    let got = v.resolve_name(&q);
    reach(if got.is_empty() { "nothing" } else { "something" });
    check(
        outcome(&v.verified_rrs, q.as_bytes(), &mut vec![], &got),
        "the records at the end of the CNAMEs and DNAMEs which start at the name, or nothing if they form a loop or lead to a name that is too long",
    );
}
fn any_rr(kind: usize, n: usize, name: Name) -> RR {
    match kind {
        0 => A { name, address: sym() }.into(),
        1 => AAAA { name, address: sym() }.into(),
        2 => NS { name, name_server: shaped(1) }.into(),
        3 => CName { name, canonical_name: shaped(2) }.into(),
        4 => DName { name, delegation_name: shaped(3) }.into(),
        5 => Txt { name, data: sym_vec(n) }.into(),
        6 => TLSA { name, cert_usage: sym_u8(), selector: sym_u8(), data_ty: sym_u8(), data: sym_vec(n) }.into(),
        7 => DnsKey { name, flags: sym_u16(), protocol: sym_u8(), alg: sym_u8(), pubkey: sym_vec(n) }.into(),
        8 => DS { name, key_tag: sym_u16(), alg: sym_u8(), digest_type: sym_u8(), digest: sym_vec(n) }.into(),
        9 => {
            let mut s = full_sig("a.", ".", n);
            s.name = name;
            s.key_name = shaped(1);
            s.into()
        }
        10 => NSec { name, next_name: shaped(1), types: NSecTypeMask::from_types(&[1 + (n as u16 & 3)]) }.into(),
        _ => NSec3 {
            name,
            hash_algo: sym_u8(),
            flags: sym_u8(),
            hash_iterations: sym_u16(),
            salt: sym_vec(n),
            next_name_hash: sym_vec(n),
            types: NSecTypeMask::from_types(&[1]),
        }
        .into(),
    }
}
/// Ordering and equality of records are consistent with each other.
pub fn order_laws() {
    use core::cmp::Ordering::*;
    let (k1, k2, k3, n1, n2, n3) = (param(0), param(1), param(2), param(3), param(4), param(5));
    let a = any_rr(k1, n1, shaped(1));
    let b = any_rr(k2, n2, shaped(1));
    let ab = a.cmp(&b);
    check(a.partial_cmp(&b) == Some(ab), "partial_cmp is cmp");
    check(b.cmp(&a) == ab.reverse(), "the ordering is antisymmetric");
    check((a == b) == (ab == Equal), "equal records are those which compare as equal");
    check(a.cmp(&a) == Equal && a == a, "the ordering is reflexive");
    if ab == Equal {
        reach("equal");
        check(record(&a, 0) == record(&b, 0), "equal records are written alike");
    } else {
        reach("different");
        check(a != b, "different records are not equal");
    }
    if n3 < 99 {
        let c = any_rr(k3, n3, shaped(1));
        if ab != Greater && b.cmp(&c) != Greater {
            check(a.cmp(&c) != Greater, "the ordering is transitive");
        }
        if ab != Less && b.cmp(&c) != Less {
            check(a.cmp(&c) != Less, "the ordering is transitive");
        }
    }
}
/// TXT records of a name are ordered as their data is on the wire.
pub fn txt_order() {
    let (n1, n2) = (param(0), param(1));
    let a = Txt { name: nm("a."), data: sym_vec(n1) };
    let b = Txt { name: nm("a."), data: sym_vec(n2) };
    let (x, y) = (rdata(&a.clone().into()), rdata(&b.clone().into()));
    check((a < b) == (x < y), "TXT records are ordered by their wire data");
    check((a > b) == (x > y), "TXT records are ordered by their wire data");
}
/// The same for long data which differs in at most two places and its length.
pub fn txt_order_long() {
    let (n1, n2) = (param(0), param(1));
    let (mut a, mut b) = (vec![b'e'; n1], vec![b'e'; n2]);
    let m = n1.min(n2);
    let p = [0, 254, 255, 256, m / 2, (m - 1) / 255 * 255, m - 1][choose(7) as usize].min(m - 1);
    a[p] = sym_u8();
    b[p] = sym_u8();
    a[m - 1] = sym_u8();
    let a: RR = Txt { name: nm("a."), data: a }.into();
    let b: RR = Txt { name: nm("a."), data: b }.into();
    let (x, y) = (rdata(&a), rdata(&b));
    check((a < b) == (x < y), "TXT records are ordered by their wire data");
    check((a > b) == (x > y), "TXT records are ordered by their wire data");
    check((a == b) == (x == y), "TXT records are equal when their data is");
    reach("done");
}

/// A JSON value, kept just well enough to look at it.
#[derive(PartialEq, Debug)]
pub enum J {
    Num(u64),
    Str(Vec<u8>),
    Arr(Vec<J>),
    Obj(Vec<(Vec<u8>, J)>),
    Other,
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|x| x.0 == k.as_bytes()).map(|x| &x.1),
            _ => None,
        }
    }
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] == b' ' || b[*i] == b'\n' || b[*i] == b'\t' || b[*i] == b'\r') {
        *i += 1;
    }
}
fn string(b: &[u8], i: &mut usize) -> Option<Vec<u8>> {
    if *b.get(*i)? != b'"' {
        return None;
    }
    *i += 1;
    let mut o = vec![];
    loop {
        let c = *b.get(*i)?;
        *i += 1;
        if c == b'"' {
            return Some(o);
        }
        if c < 0x20 {
            return None;
        }
        if c == b'\\' {
            let e = *b.get(*i)?;
            *i += 1;
            match e {
                b'"' | b'\\' | b'/' => o.push(e),
                b'b' => o.push(8),
                b'f' => o.push(12),
                b'n' => o.push(10),
                b'r' => o.push(13),
                b't' => o.push(9),
                b'u' => {
                    let mut v = 0u32;
                    for _ in 0..4 {
                        let h = *b.get(*i)?;
                        *i += 1;
                        v = v * 16 + (h as char).to_digit(16)?;
                    }
                    if v < 0x80 {
                        o.push(v as u8);
                    } else if v < 0x800 {
                        o.push(0xc0 | (v >> 6) as u8);
                        o.push(0x80 | (v & 63) as u8);
                    } else {
                        return None;
                    }
                }
                _ => return None,
            }
        } else {
            o.push(c);
        }
    }
}
fn value(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    let c = *b.get(*i)?;
    let r = if c == b'{' {
        *i += 1;
        let mut o: Vec<(Vec<u8>, J)> = vec![];
        ws(b, i);
        if *b.get(*i)? == b'}' {
            *i += 1;
        } else {
            loop {
                ws(b, i);
                let k = string(b, i)?;
                ws(b, i);
                if *b.get(*i)? != b':' {
                    return None;
                }
                *i += 1;
                let v = value(b, i)?;
                if o.iter().any(|x| x.0 == k) {
                    return None;
                }
                o.push((k, v));
                let c = *b.get(*i)?;
                *i += 1;
                if c == b'}' {
                    break;
                }
                if c != b',' {
                    return None;
                }
            }
        }
        J::Obj(o)
    } else if c == b'[' {
        *i += 1;
        let mut o = vec![];
        ws(b, i);
        if *b.get(*i)? == b']' {
            *i += 1;
        } else {
            loop {
                o.push(value(b, i)?);
                let c = *b.get(*i)?;
                *i += 1;
                if c == b']' {
                    break;
                }
                if c != b',' {
                    return None;
                }
            }
        }
        J::Arr(o)
    } else if c == b'"' {
        J::Str(string(b, i)?)
    } else if c >= b'0' && c <= b'9' {
        let st = *i;
        let mut v = 0u64;
        while let Some(d) = b.get(*i) {
            if *d < b'0' || *d > b'9' {
                break;
            }
            v = v.checked_mul(10)?.checked_add((*d - b'0') as u64)?;
            *i += 1;
        }
        if c == b'0' && *i > st + 1 {
            return None;
        }
        J::Num(v)
    } else if b[*i..].starts_with(b"true") || b[*i..].starts_with(b"null") {
        *i += 4;
        J::Other
    } else if b[*i..].starts_with(b"false") {
        *i += 5;
        J::Other
    } else {
        return None;
    };
    ws(b, i);
    Some(r)
}
pub fn parse_json(b: &[u8]) -> Option<J> {
    let mut i = 0;
    let v = value(b, &mut i)?;
    if i == b.len() {
        Some(v)
    } else {
        None
    }
}
fn nums(b: &[u8]) -> J {
    J::Arr(b.iter().map(|x| J::Num(*x as u64)).collect())
}
fn hex(j: &J, k: &str, b: &[u8]) -> bool {
    match j.get(k) {
        Some(J::Str(s)) => {
            let d = |c: u8| (c as char).to_digit(16);
            s.len() == 2 * b.len() && b.iter().enumerate().all(|(i, x)| d(s[2 * i]) == Some(*x as u32 >> 4) && d(s[2 * i + 1]) == Some(*x as u32 & 15))
        }
        _ => false,
    }
}
fn types(j: &J, m: &NSecTypeMask) -> bool {
    const NAMED: [(u16, &str); 12] =
        [(1, "A"), (2, "NS"), (5, "CNAME"), (16, "TXT"), (28, "AAAA"), (39, "DNAME"), (43, "DS"), (46, "RRSIG"), (47, "NSEC"), (48, "DNSKEY"), (50, "NSEC3"), (52, "TLSA")];
    let mut want: Vec<J> = vec![];
    for t in 0..=65535u16 {
        if m.contains_type(t) {
            want.push(match NAMED.iter().find(|n| n.0 == t) {
                Some(n) => J::Str(n.1.as_bytes().to_vec()),
                None => J::Num(t as u64),
            });
        }
    }
    match j.get("types") {
        Some(J::Arr(a)) => a.len() == want.len() && want.iter().all(|w| a.contains(w)),
        _ => false,
    }
}
fn has(j: &J, k: &str, v: &J) -> bool {
    j.get(k).map_or(false, |x| x == v)
}
/// The fields of a record are all in its JSON form.
pub fn json_says(j: &J, r: &RR) -> bool {
    let s = |n: &Name| J::Str(n.as_bytes().to_vec());
    let num = |n: u64| J::Num(n);
    let kind = match ty_of(r) {
        1 => "a",
        2 => "ns",
        5 => "cname",
        16 => "txt",
        28 => "aaaa",
        39 => "dname",
        43 => "ds",
        46 => "rrsig",
        47 => "nsec",
        48 => "dnskey",
        50 => "nsec3",
        _ => "tlsa",
    };
    let mut ok = has(j, "type", &J::Str(kind.as_bytes().to_vec())) && has(j, "name", &s(r.name()));
    ok = ok
        && match r {
            RR::A(a) => has(j, "address", &nums(&a.address)),
            RR::AAAA(a) => has(j, "address", &nums(&a.address)),
            RR::NS(x) => has(j, "ns", &s(&x.name_server)),
            RR::CName(x) => has(j, "canonical_name", &s(&x.canonical_name)),
            RR::DName(x) => has(j, "delegation_name", &s(&x.delegation_name)),
            RR::Txt(x) => has(j, "contents", &J::Str(x.data.clone())) || has(j, "contents", &nums(&x.data)),
            RR::TLSA(x) => has(j, "usage", &num(x.cert_usage as u64)) && has(j, "selector", &num(x.selector as u64)) && has(j, "data_ty", &num(x.data_ty as u64)) && hex(j, "data", &x.data),
            RR::DnsKey(x) => has(j, "flags", &num(x.flags as u64)) && has(j, "protocol", &num(x.protocol as u64)) && has(j, "alg", &num(x.alg as u64)) && hex(j, "pubkey", &x.pubkey),
            RR::DS(x) => has(j, "key_tag", &num(x.key_tag as u64)) && has(j, "alg", &num(x.alg as u64)) && has(j, "digest_type", &num(x.digest_type as u64)) && hex(j, "digest", &x.digest),
            RR::RRSig(x) => {
                has(j, "signed_record_type", &num(x.ty as u64))
                    && has(j, "alg", &num(x.alg as u64))
                    && has(j, "signed_labels", &num(x.labels as u64))
                    && has(j, "orig_ttl", &num(x.orig_ttl as u64))
                    && has(j, "expiration", &num(x.expiration as u64))
                    && has(j, "inception", &num(x.inception as u64))
                    && has(j, "key_tag", &num(x.key_tag as u64))
                    && has(j, "key_name", &s(&x.key_name))
                    && hex(j, "signature", &x.signature)
            }
            RR::NSec(x) => has(j, "next_name", &s(&x.next_name)) && types(j, &x.types),
            RR::NSec3(x) => {
                has(j, "hash_algo", &num(x.hash_algo as u64))
                    && has(j, "flags", &num(x.flags as u64))
                    && has(j, "hash_iterations", &num(x.hash_iterations as u64))
                    && has(j, "salt", &nums(&x.salt))
                    && has(j, "next_name_hash", &nums(&x.next_name_hash))
                    && types(j, &x.types)
            }
        };
    ok
}
fn typeset() -> Vec<u16> {
    let t = [1, 2, 5, 16, 28, 39, 43, 46, 47, 48, 50, 52, 3, 6, 255, 256, 1000, 65535];
    if choose(2) == 0 {
        vec![]
    } else {
        vec![t[choose(18) as usize], 7, 1]
    }
}
/// The JSON form of any record.
pub fn json() {
    let (kind, n, chars) = (param(0), param(1), param(2));
    let name = if chars > 0 {
        let mut b = sym_vec(chars);
        for c in b.iter() {
            assume(*c > 0x20 && *c < 0x7f && *c != b'"' && *c != b'.');
        }
        b.push(b'.');
        text(&b)
    } else {
        nm("ab.c.")
    };
    // numbers are only ever printed in decimal: few digits are enough for most of them
    let d8 = |full: bool| {
        let v = sym_u8();
        if full {
            concretize(v as u64) as u8
        } else {
            let v = v % 4;
            [0, 9, 99, 255][concretize(v as u64) as usize]
        }
    };
    let d16 = || {
        let v = choose(3);
        [0u16, 4096, 65535][v as usize]
    };
    let bytes = |n: usize| (0..n).map(|i| d8(i == 0)).collect::<Vec<u8>>();
    let r: RR = match kind {
        0 => A { name, address: [d8(true), 7, 0, d8(false)] }.into(),
        1 => AAAA { name, address: { let mut a = [3; 16]; a[0] = d8(false); a[15] = d8(true); a } }.into(),
        2 => NS { name: name.clone(), name_server: name }.into(),
        3 => CName { name: name.clone(), canonical_name: name }.into(),
        4 => DName { name: name.clone(), delegation_name: name }.into(),
        5 => Txt { name, data: sym_vec(n) }.into(),
        6 => TLSA { name, cert_usage: d8(false), selector: d8(false), data_ty: d8(false), data: bytes(n) }.into(),
        7 => DnsKey { name, flags: d16(), protocol: d8(false), alg: d8(false), pubkey: bytes(n) }.into(),
        8 => DS { name, key_tag: d16(), alg: d8(false), digest_type: d8(false), digest: bytes(n) }.into(),
        9 => RRSig {
            name: name.clone(),
            ty: d16(),
            alg: d8(false),
            labels: 2,
            orig_ttl: [0, u32::MAX][choose(2) as usize],
            expiration: u32::MAX,
            inception: 0,
            key_tag: d16(),
            key_name: name,
            signature: bytes(n),
        }
        .into(),
        10 => NSec { name: name.clone(), next_name: name, types: NSecTypeMask::from_types(&typeset()) }.into(),
        _ => NSec3 { name, hash_algo: d8(false), flags: 1, hash_iterations: d16(), salt: bytes(n), next_name_hash: vec![0, 255], types: NSecTypeMask::from_types(&typeset()) }.into(),
    };
    let j = r.json();
    let (own, by_trait) = crate::h_parse::alone_json(&r);
    check_u(memeq(own.as_bytes(), j.as_bytes()) & memeq(by_trait.as_bytes(), j.as_bytes()), "a record by itself has the JSON form of its RR");
    match parse_json(j.as_bytes()) {
        Some(v) => {
            reach("valid");
            check(json_says(&v, &r), "the JSON form says what the record holds");
        }
        None => check(false, "the JSON form of a record is valid JSON"),
    }
}
/// The built in trust anchors are the keys of the root zone published by IANA.
pub fn anchors() {
    const KSK2010: [u8; 32] = [
        0x49, 0xaa, 0xc1, 0x1d, 0x7b, 0x6f, 0x64, 0x46, 0x70, 0x2e, 0x54, 0xa1, 0x60, 0x73, 0x71, 0x60, 0x7a, 0x1a, 0x41, 0x85, 0x52, 0x00, 0xfd, 0x2c, 0xe1, 0xcd, 0xde, 0x32, 0xf2,
        0x4e, 0x8f, 0xb5,
    ];
    const KSK2017: [u8; 32] = [
        0xe0, 0x6d, 0x44, 0xb8, 0x0b, 0x8f, 0x1d, 0x39, 0xa9, 0x5c, 0x0b, 0x0d, 0x7c, 0x65, 0xd0, 0x84, 0x58, 0xe8, 0x80, 0x40, 0x9b, 0xbc, 0x68, 0x34, 0x57, 0x10, 0x42, 0x37, 0xc7,
        0xf8, 0xec, 0x8d,
    ];
    const KSK2024: [u8; 32] = [
        0x68, 0x3d, 0x2d, 0x0a, 0xcb, 0x8c, 0x9b, 0x71, 0x2a, 0x19, 0x48, 0xb2, 0x7f, 0x74, 0x12, 0x19, 0x29, 0x8d, 0x0a, 0x45, 0x0d, 0x61, 0x2c, 0x48, 0x3a, 0xf4, 0x44, 0xa4, 0xc0,
        0xfb, 0x2b, 0x16,
    ];
    let known: [(u16, &[u8; 32]); 3] = [(19036, &KSK2010), (20326, &KSK2017), (38696, &KSK2024)];
    let v = root_hints();
    check(!v.is_empty(), "there is a trust anchor");
    for d in v.iter() {
        check(d.name.as_str() == "." && d.alg == 8 && d.digest_type == 2, "trust anchors are SHA-256 digests of RSA keys of the root");
        check(known.iter().any(|k| k.0 == d.key_tag && k.1[..] == d.digest[..]), "trust anchors are the ones published by IANA");
    }
    check(v.iter().any(|d| d.key_tag == 20326), "the current key is a trust anchor");
    // an arbitrary digest, tag and key: nothing else is ever trusted for the root
    let t = sym_u16();
    let a = sym_u8();
    let g: [u8; 32] = sym();
    let mut is = 0;
    let mut want = 0;
    for d in v.iter() {
        is |= (d.key_tag == t) as u32 & (d.alg == a) as u32 & memeq(&d.digest, &g);
    }
    for k in known.iter() {
        want |= (k.0 == t) as u32 & (a == 8) as u32 & memeq(&k.1[..], &g);
    }
    check_u((is == 0) as u32 | want, "nothing but these is trusted");
    reach("done");
}
/// RSA keys of any form: what the signature is checked with is the exponent and modulus in the key.
pub fn rsa_key() {
    let (n, zeros, exp) = (param(0), param(1), param(2));
    reset(Mode::Free);
    let mut k = root_key();
    let mut p = sym_vec(n);
    if exp > 0 {
        // the long form of the exponent's length
        p[0] = 0;
        p[1] = (exp >> 8) as u8;
        p[2] = exp as u8;
    }
    p.resize(n + zeros, 0x5a);
    k.pubkey = p;
    let alg = if choose(2) == 0 { 8 } else { 10 };
    k.alg = alg;
    let a = root_key();
    known_key(&a, 2, &anchor());
    // the root key signs the set of both keys, the other one signs the record
    let rec: RR = Txt { name: nm("x."), data: vec![1] }.into();
    let mut s0 = sig(".", 48, &a, 0, 5, 2000000000, 2000000010, &[9]);
    s0.key_tag = key_tag(&a);
    let s1 = sig("x.", 16, &k, 1, 5, 2000000000, 2000000010, &[8]);
    assume(key_tag(&k) != key_tag(&a) || k.alg != a.alg);
    let inp = vec![a.clone().into(), k.clone().into(), s0.into(), s1.into(), rec];
    let r = verify_rr_stream(&inp);
    let want = rsa(&k.pubkey);
    let usable = want.map_or(false, |(_, n)| !n.is_empty());
    for c in st().calls.iter().skip(1) {
        check(c.alg == alg as u32, "the key's algorithm is used");
        match want {
            Some((e, n)) => {
                check(c.exp.len() == e.len() && c.key.len() == n.len(), "the exponent and modulus are where the key says");
                check_u(memeq(&c.exp, e) & memeq(&c.key, n), "the exponent and modulus are those in the key");
            }
            None => check(false, "malformed keys are never used"),
        }
    }
    if r.is_ok() {
        reach("accepted");
        check(usable, "only usable keys verify anything");
        check(st().calls.len() == 2, "both signatures are checked");
    } else {
        reach("rejected");
        if usable && k.pubkey.len() > 3 {
            check(st().calls.iter().any(|c| c.ok == 0), "a well formed key is used");
        }
    }
}
