//! Wildcard expansion and denial of existence.
use crate::api::*;
use crate::h_val::*;
use crate::oracle::*;
use crate::spec::*;
use crate::trust::*;
use dnssec_prover::rr::*;
use dnssec_prover::validation::*;

/// The chain to a. without the record below it, all signatures valid.
pub fn base() -> (Chain, Vec<RR>) {
    reset(Mode::AlwaysOk);
    let c = chain();
    let mut v = c.rrs();
    v.truncate(6);
    (c, v)
}
pub fn mask(t: &[u16]) -> NSecTypeMask {
    NSecTypeMask::from_types(t)
}
const N: [&str; 16] = [
    "a.", "*.a.", "b.a.", "c.b.a.", "bb.a.", "ab.a.", "z.a.", "*.b.a.", "d.c.b.a.", "a.c.b.a.", "ba.", "z.", "-.a.", "b-.a.", "c.a.", "a.bb.a.",
];
/// A record with any label count in its signature and an NSEC record with any names.
pub fn wild_nsec() {
    let variant = param(0);
    let (c, mut inp) = base();
    let owner = N[2 + choose(7) as usize];
    let mut ts = sig(owner, 16, &c.ak, 0, 4000, 1700000003, 1800000003, &[4]);
    ts.labels = sym_u8();
    let mut nn = nm(N[choose(16) as usize]);
    let mut next = nm(N[choose(16) as usize]);
    if variant == 2 {
        core::mem::swap(&mut nn, &mut next);
    }
    let types: &[u16] = if variant == 1 { &[] } else { &[16, 46, 47] };
    let mut nsig = sig(&nn, 47, &c.ak, labels(&nn).len() as u8, 4000, 1700000003, 1800000003, &[5]);
    if labels(&nn).first() == Some(&&b"*"[..]) {
        nsig.labels -= 1;
    }
    inp.push(NSec { name: nn, next_name: next, types: mask(types) }.into());
    inp.push(nsig.into());
    inp.push(Txt { name: nm(owner), data: vec![7] }.into());
    inp.push(ts.into());
    if sound(&inp, false) {
        reach("expanded");
    }
}
fn letter() -> u8 {
    let c = sym_u8();
    assume((c >= b'a' && c <= b'z') || (c >= b'0' && c <= b'9') || c == b'-' || c == b'_' || c == b'*' || c == b'!' || c == b'~');
    c
}
fn with(c: &[u8], rest: &str) -> Name {
    let mut s = String::new();
    for x in c {
        s.push(*x as char);
    }
    s += rest;
    s.try_into().expect("name")
}
/// The same with arbitrary characters in the names.
pub fn wild_nsec_chars() {
    let k = param(0);
    let (c, mut inp) = base();
    let mut one = |n: usize, rest: &str| {
        let v: Vec<u8> = (0..n).map(|_| letter()).collect();
        with(&v, rest)
    };
    let (o, a, b) = match k {
        0 => (one(1, ".a."), one(1, ".a."), one(1, ".a.")),
        1 => (one(1, ".a."), one(2, ".a."), one(1, ".a.")),
        2 => (one(1, ".a."), one(1, ".a."), one(2, ".a.")),
        3 => (one(2, ".a."), one(1, ".a."), one(1, ".a.")),
        4 => (one(1, ".a."), one(1, ".b.a."), one(1, ".a.")),
        5 => (one(1, ".a."), one(1, ".a."), one(1, ".b.a.")),
        6 => (one(1, ".b.a."), one(1, ".a."), one(1, ".a.")),
        7 => (one(2, ".a."), one(2, ".a."), one(2, ".a.")),
        8 => (one(1, ".b.a."), one(1, ".b.a."), one(1, ".b.a.")),
        11 => (one(1, ".a."), one(1, ".a."), nm("a.")),
        12 => (one(1, ".a."), one(1, ".b.a."), nm("a.")),
        13 => (one(1, ".b.a."), one(1, ".a."), nm("a.")),
        14 => (one(1, ".a."), nm("a."), nm(["a.", "b.a.", "."][choose(3) as usize])),
        9 => (one(1, ".a."), nm("a."), one(1, ".a.")),
        _ => (one(1, ".a."), nm("*.a."), one(1, ".c.a.")),
    };
    let mut ts = sig(&o, 16, &c.ak, labels(&o).len() as u8 - 1, 4000, 1700000003, 1800000003, &[4]);
    ts.signature = vec![4];
    let ns = sig(&a, 47, &c.ak, labels(&a).len() as u8, 4000, 1700000003, 1800000003, &[5]);
    // what the zone says, stated directly
    let yes = canon_less(&a, &o) && canon_less(&o, &b) && !in_zone(&b, &o) || labels(&o)[0] == b"*";
    inp.push(NSec { name: a, next_name: b, types: mask(&[16, 46, 47]) }.into());
    inp.push(ns.into());
    inp.push(Txt { name: o, data: vec![7] }.into());
    inp.push(ts.into());
    let r = verify_rr_stream(&inp);
    if r.is_ok() {
        reach("expanded");
    }
    check(r.is_ok() == yes, "a wildcard answer is accepted exactly when the NSEC record covers the next closer name, or it is the wildcard itself");
    observe(r.is_ok() as u64);
}
/// Two zones, records signed by either, two expansions, two NSEC records.
pub fn wild_zones() {
    let v = param(0);
    let (c, mut inp) = base();
    // b.a. is a zone of its own
    let bk = key("b.a.", 257, 3, 15, vec![1, 1, 1, 1]);
    let dig = vec![0x77; 32];
    known_key(&bk, 2, &dig);
    let ds = DS { name: nm("b.a."), key_tag: key_tag(&bk), alg: 15, digest_type: 2, digest: dig };
    inp.push(ds.into());
    inp.push(sig("b.a.", 43, &c.ak, 2, 1, 1700000003, 1800000003, &[6]).into());
    inp.push(bk.clone().into());
    inp.push(sig("b.a.", 48, &bk, 2, 1, 1700000003, 1800000003, &[7]).into());
    // the expansions
    let owners: &[&str] = if v & 1 == 0 { &["x.b.a.", "y.a."] } else { &["x.b.a.", "y.x.b.a."] };
    let mut n = 0;
    for (i, o) in owners.iter().enumerate() {
        let k = if choose(2) == 0 { &c.ak } else { &bk };
        let l = labels(o).len() as u8;
        let s = sig(o, 16, k, if choose(2) == 0 { l - 1 } else { l - 2 }, 1, 1700000003, 1800000003, &[8]);
        inp.push(Txt { name: nm(o), data: vec![i as u8] }.into());
        inp.push(s.into());
        if choose(2) == 0 {
            // and one more type at the same name
            let l2 = if choose(2) == 0 { l - 1 } else { l };
            let s = sig(o, 1, k, l2, 1, 1700000003, 1800000003, &[8]);
            inp.push(A { name: nm(o), address: [1, 2, 3, i as u8] }.into());
            inp.push(s.into());
        }
        n += 1;
    }
    let _ = n;
    const L: [(&str, &str); 6] = [("a.", "z.a."), ("b.a.", "z.b.a."), ("b.a.", "z.a."), ("x.a.", "z.a."), ("y.b.a.", "z.b.a."), ("w.b.a.", "a.y.x.b.a.")];
    for i in 0..2 {
        let p = if i == 1 && v & 2 == 0 { 1 } else { choose(6) as usize };
        let k = if choose(2) == 0 { &c.ak } else { &bk };
        let s = sig(L[p].0, 47, k, labels(L[p].0).len() as u8, 1, 1700000003, 1800000003, &[9]);
        let types: &[u16] = if v & 4 == 0 { &[46, 47] } else { &[1, 16, 46, 47] };
        if !inp.iter().any(|r| ty_of(r) == 47 && r.name().as_str() == L[p].0) {
            inp.push(NSec { name: nm(L[p].0), next_name: nm(L[p].1), types: mask(types) }.into());
            inp.push(s.into());
        }
    }
    if sound(&inp, false) {
        reach("expanded");
    }
}
pub fn b32_text(d: &[u8]) -> String {
    let mut s = String::new();
    let (mut acc, mut n) = (0u32, 0);
    for b in d {
        acc = (acc << 8) | *b as u32;
        n += 8;
        while n >= 5 {
            n -= 5;
            s.push(b"0123456789abcdefghijklmnopqrstuv"[(acc >> n & 31) as usize] as char);
        }
    }
    if n > 0 {
        s.push(b"0123456789abcdefghijklmnopqrstuv"[(acc << (5 - n) & 31) as usize] as char);
    }
    s
}
/// The expansion of a wildcard and an NSEC3 record with arbitrary contents.
pub fn wild_nsec3() {
    let v = param(0);
    let it = param(1);
    let (c, mut inp) = base();
    let owner = ["x.a.", "y.x.a.", "c.b.a."][choose(3) as usize];
    let n = labels(owner).len();
    let l = choose(n as u32) as u8;
    let ts = sig(owner, 16, &c.ak, l, 4000, 1700000003, 1800000003, &[4]);
    let nc = next_closer(owner, l as usize);
    let salt = sym_vec(v & 3);
    // digests of the iterations: all known, the last one arbitrary in its first and last byte
    let mut h: Vec<u8> = vec![];
    let mut m = wire(&nc);
    for i in 0..=it {
        m.extend_from_slice(&salt);
        h = vec![0x40; 20];
        h[1] = i as u8;
        h[2] = (i >> 8) as u8;
        if i == it {
            h[0] = sym_u8();
            h[19] = sym_u8();
        }
        set_hash(1, &m, &h);
        m = h.clone();
    }
    let mut start = vec![0x40; 20];
    start[1] = it as u8;
    start[2] = (it >> 8) as u8;
    let mut next = start.clone();
    match choose(6) {
        0 => start[0] = 0x20,
        1 => start[19] = 0x3f,
        2 => {}
        3 => start[19] = 0xff,
        4 => start.truncate(15),
        _ => start[0] = 0xf0,
    }
    next[0] = sym_u8();
    next[19] = sym_u8();
    if v & 16 != 0 {
        next.truncate(10 + 10 * choose(2) as usize);
        if choose(2) == 0 {
            next.push(0);
        }
    }
    let zone = ["a.", ".", "xa.", "b.a."][if v & 4 != 0 { choose(4) as usize } else { 0 }];
    let mut lab = b32_text(&start);
    if v & 8 != 0 {
        match choose(3) {
            0 => lab = lab.to_ascii_uppercase(),
            1 => lab.insert(3, 'w'),
            _ => lab += "0",
        }
    }
    let nname = nm(&(lab + "." + if zone == "." { "" } else { zone }));
    let signer = if v & 4 != 0 && choose(2) == 0 { &c.rk } else { &c.ak };
    let mut nsig = sig(&nname, 50, signer, labels(&nname).len() as u8, 4000, 1700000003, 1800000003, &[5]);
    if v & 32 != 0 {
        nsig.labels = sym_u8();
    }
    let n3 = NSec3 { name: nname, hash_algo: sym_u8(), flags: sym_u8(), hash_iterations: it as u16, salt, next_name_hash: next, types: mask(&[46]) };
    inp.push(n3.into());
    inp.push(nsig.into());
    inp.push(Txt { name: nm(owner), data: vec![7] }.into());
    inp.push(ts.into());
    let before = st().nhash;
    if sound(&inp, false) {
        reach("expanded");
    }
    check(it <= 2500 || st().nhash - before <= 8, "excessive iteration counts are not worked through");
}
/// A covering NSEC3 record is accepted, one that only matches or does not cover is not.
pub fn wild_nsec3_exact() {
    let (c, mut inp) = base();
    let it = param(0);
    let salt = sym_vec(param(1));
    let mut m = wire("x.a.");
    let mut h = vec![];
    for i in 0..=it {
        m.extend_from_slice(&salt);
        h = vec![0x40; 20];
        h[1] = i as u8;
        h[2] = (i >> 8) as u8;
        if i == it {
            sym_into(&mut h);
        }
        set_hash(1, &m, &h);
        m = h.clone();
    }
    let mut start = vec![0x20; 20];
    if choose(2) == 1 {
        start = vec![0xe0; 20];
        start[19] = 0xfe;
    }
    let next = sym_vec(20);
    let nname = nm(&(b32_text(&start) + ".a."));
    let nsig = sig(&nname, 50, &c.ak, 2, 4000, 1700000003, 1800000003, &[5]);
    let ts = sig("x.a.", 16, &c.ak, 1, 4000, 1700000003, 1800000003, &[4]);
    let yes = covers(&start, &h, &next);
    inp.push(NSec3 { name: nname, hash_algo: 1, flags: 0, hash_iterations: it as u16, salt, next_name_hash: next, types: mask(&[16, 46]) }.into());
    inp.push(nsig.into());
    inp.push(Txt { name: nm("x.a."), data: vec![7] }.into());
    inp.push(ts.into());
    let ok = verify_rr_stream(&inp).is_ok();
    if ok {
        reach("expanded");
    }
    check_u((ok as u32) ^ yes ^ 1, "a wildcard answer is accepted exactly when the NSEC3 record covers the hash of the next closer name");
    observe(ok as u64);
}

/// The owner of an NSEC3 record is taken as the base32hex form of a hash, or not at all: some characters next to each other may be anything.
pub fn wild_nsec3_label() {
    let (c, mut inp) = base();
    let (n, len) = (param(0), param(1));
    let mut h = vec![0; 20];
    sym_into(&mut h);
    set_hash(1, &wire("x.a."), &h);
    let mut l: Vec<u8> = (0..len).map(|i| b"0123456789abcdefghijklmnopqrstuv"[(i * 11 + 7) % 32]).collect();
    let at = choose((len - n + 1) as u32) as usize;
    for i in 0..n {
        let x = sym_u8();
        // (what a name may contain; others are the subject of C13)
        assume(x > 0x20 && x < 0x7f && x != b'"' && x != b'.');
        l[at + i] = x;
    }
    let text = String::from_utf8(l.clone()).unwrap() + ".a.";
    let nname = nm(&text);
    let yes = match crate::trust::b32(&l.iter().map(|x| x.to_ascii_lowercase()).collect::<Vec<_>>()) {
        Some(start) if l.len() == 32 => covers(&start, &h, &[0xff; 20]),
        _ => 0,
    };
    let nsig = sig(&nname, 50, &c.ak, 2, 4000, 1700000003, 1800000003, &[5]);
    let ts = sig("x.a.", 16, &c.ak, 1, 4000, 1700000003, 1800000003, &[4]);
    inp.push(NSec3 { name: nname, hash_algo: 1, flags: 0, hash_iterations: 0, salt: vec![], next_name_hash: vec![0xff; 20], types: mask(&[16, 46]) }.into());
    inp.push(nsig.into());
    inp.push(Txt { name: nm("x.a."), data: vec![7] }.into());
    inp.push(ts.into());
    let ok = verify_rr_stream(&inp).is_ok();
    if ok {
        reach("expanded");
    }
    check_u((ok as u32) ^ yes ^ 1, "a wildcard answer is accepted exactly when the NSEC3 record covers the hash of the next closer name");
    observe(ok as u64);
}

/// Two NSEC3 records with the same or different parameters: either may be the one which covers.
pub fn wild_nsec3_two() {
    let (c, mut inp) = base();
    const PARAMS: [(u16, &[u8]); 4] = [(0, &[]), (0, &[1]), (0, &[2]), (1, &[2])];
    let mut h = vec![];
    for (it, salt) in PARAMS {
        let mut m = wire("x.a.");
        let mut d = vec![];
        for i in 0..=it {
            m.extend_from_slice(salt);
            d = vec![0x40 + it as u8; 20];
            d[3] = salt.len() as u8;
            if i == it {
                d = vec![0x50 + it as u8; 20];
                d[19] = salt.last().copied().unwrap_or(0);
                d[0] = sym_u8();
                d[18] = sym_u8();
            }
            match st().hashes.iter().find(|h| h.alg == 1 && h.msg.len() == m.len() && i == 0 && h.msg == m) {
                Some(k) => d = k.out.clone(),
                None => set_hash(1, &m, &d),
            }
            m = d.clone();
        }
        h.push(d);
    }
    let mut yes = 0;
    for i in 0..2u8 {
        let k = choose(4) as usize;
        let start = [vec![0x20; 20], vec![0x60 + i; 20]][choose(2) as usize].clone();
        let next = sym_vec(20);
        let flags = if param(0) & 1 != 0 { sym_u8() } else { 0 };
        let algo = if param(0) & 2 != 0 { sym_u8() } else { 1 };
        yes |= covers(&start, &h[k], &next) & (flags == 0) as u32 & (algo == 1) as u32;
        let nname = nm(&(b32_text(&start) + ".a."));
        if i == 1 && inp.iter().any(|r| r.name() == &nname && ty_of(r) == 50) {
            return;
        }
        let nsig = sig(&nname, 50, &c.ak, 2, 4000, 1700000003, 1800000003, &[5, i]);
        inp.push(NSec3 { name: nname, hash_algo: algo, flags, hash_iterations: PARAMS[k].0, salt: PARAMS[k].1.to_vec(), next_name_hash: next, types: mask(&[16, 46]) }.into());
        inp.push(nsig.into());
    }
    inp.push(Txt { name: nm("x.a."), data: vec![7] }.into());
    inp.push(sig("x.a.", 16, &c.ak, 1, 4000, 1700000003, 1800000003, &[4]).into());
    let ok = verify_rr_stream(&inp).is_ok();
    if ok {
        reach("expanded");
    }
    check_u((ok as u32) ^ yes ^ 1, "a wildcard answer is accepted exactly when one of the NSEC3 records covers the hash of the next closer name");
    observe(ok as u64);
}

/// The times of the signatures over an expanded record and over its denial.
pub fn wild_times() {
    let (c, mut inp) = base();
    let mut times = vec![(1700000002u32, 1800000000u32, 1000u32)];
    let mut t = |s: &mut RRSig| {
        s.inception = sym_u32();
        s.expiration = sym_u32();
        s.orig_ttl = sym_u32();
        times.push((s.inception, s.expiration, s.orig_ttl));
    };
    let mut ts = sig("x.a.", 16, &c.ak, 1, 0, 0, 0, &[4]);
    t(&mut ts);
    inp.push(Txt { name: nm("x.a."), data: vec![7] }.into());
    inp.push(ts.into());
    let (n, mut ns): (RR, RRSig) = if param(0) == 0 {
        (NSec { name: nm("b.a."), next_name: nm("y.a."), types: mask(&[16, 46]) }.into(), sig("b.a.", 47, &c.ak, 2, 0, 0, 0, &[5]))
    } else {
        set_hash(1, &wire("x.a."), &[0x44; 20]);
        let o = b32_text(&[0x20; 20]) + ".a.";
        let s = sig(&o, 50, &c.ak, 2, 0, 0, 0, &[5]);
        (NSec3 { name: nm(&o), hash_algo: 1, flags: 0, hash_iterations: 0, salt: vec![], next_name_hash: vec![0x66; 20], types: mask(&[16, 46]) }.into(), s)
    };
    t(&mut ns);
    inp.push(n);
    inp.push(ns.into());
    if choose(2) == 1 {
        inp.reverse();
    }
    let (mut from, mut to, mut ttl) = (0u64, u64::MAX, u32::MAX as u64);
    for (a, b, c) in times {
        let (a, b) = (time(a), time(b));
        from = ite(a > from, a, from);
        to = ite(b < to, b, to);
        ttl = ite((c as u64) < ttl, c as u64, ttl);
    }
    match verify_rr_stream(&inp) {
        Ok(v) => {
            reach("accepted");
            check(from < to, "the window is not empty");
            check(v.valid_from == from, "valid_from is the latest inception");
            check(v.expires == to, "expires is the earliest expiration");
            check(v.max_cache_ttl as u64 == ttl, "max_cache_ttl is the lowest signed TTL");
        }
        Err(_) => {
            reach("rejected");
            check(from >= to, "a correctly signed chain is accepted");
        }
    }
}
/// Many NSEC3 records with parameters of their own: only two sets of parameters are worked through.
pub fn wild_nsec3_params() {
    let (c, mut inp) = base();
    let (k, it) = (param(0), param(1));
    for i in 0..k as u8 {
        let nname = nm(&(b32_text(&[i; 20]) + ".a."));
        let nsig = sig(&nname, 50, &c.ak, 2, 4000, 1700000003, 1800000003, &[5, i]);
        let (salt, its) = if choose(2) == 0 { (vec![i], it) } else { (vec![], it - i as usize) };
        inp.push(NSec3 { name: nname, hash_algo: 1, flags: sym_u8(), hash_iterations: its as u16, salt, next_name_hash: vec![i; 20], types: mask(&[16, 46]) }.into());
        inp.push(nsig.into());
    }
    inp.push(Txt { name: nm("x.a."), data: vec![7] }.into());
    inp.push(sig("x.a.", 16, &c.ak, 1, 4000, 1700000003, 1800000003, &[4]).into());
    let before = st().nhash;
    let r = verify_rr_stream(&inp);
    reach("done");
    check(r.is_err(), "a record which is not denied a closer match is rejected");
    check(st().nhash - before <= 2 * (it + 1) + 4, "at most two sets of NSEC3 parameters are worked through");
}

/// A covering NSEC3 record with any iteration count over the limit (or with a given one) and any salt length.
pub fn wild_nsec3_iter() {
    let (c, mut inp) = base();
    let mut it = param(0) as u16;
    if it == 0 {
        it = sym_u16();
        assume(it > 2500);
    }
    let nname = nm(&(b32_text(&[0x20; 20]) + ".a."));
    let nsig = sig(&nname, 50, &c.ak, 2, 4000, 1700000003, 1800000003, &[5]);
    inp.push(NSec3 { name: nname, hash_algo: 1, flags: 0, hash_iterations: it, salt: sym_vec(param(1)), next_name_hash: vec![0x66; 20], types: mask(&[16, 46]) }.into());
    inp.push(nsig.into());
    inp.push(Txt { name: nm("x.a."), data: vec![7] }.into());
    inp.push(sig("x.a.", 16, &c.ak, 1, 4000, 1700000003, 1800000003, &[4]).into());
    st().flat = true;
    let before = st().nhash;
    st().limit = before + if param(0) == 0 { 8 } else { 2600 };
    let ok = verify_rr_stream(&inp).is_ok();
    reach("done");
    check(ok == (it <= 2500), "NSEC3 records are relied on up to 2500 iterations, and no further");
    check(ok || st().nhash - before <= 8, "excessive iteration counts are not worked through");
}
