//! The same properties on inputs of a size which real zones have and beyond: nothing may change with the number of things.
use crate::api::*;
use crate::h_misc::*;
use crate::h_more::*;
use crate::h_query::*;
use crate::h_val::*;
use crate::h_wild::{base, mask};
use crate::oracle::*;
use crate::spec::*;
use dnssec_prover::rr::*;
use dnssec_prover::ser::*;
use dnssec_prover::validation::*;

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
/// `depth` zones below each other, each with `keys` keys and `dss` DS records, `sigs` signatures for everything and `recs`
/// records in every set of the last zone.
pub fn val_big() {
    let (depth, keys, recs, dss, sigs, order) = (param(0), param(1), param(2), param(3), param(4), param(5));
    reset(Mode::Ideal);
    let (_, rz, mut inp) = root();
    let mut want: Vec<RR> = vec![];
    let mut parent = vec![rz];
    let mut zname = ".";
    for d in 0..depth {
        zname = leak(if zname == "." { format!("z{}.", d) } else { format!("z{}.{}", d, zname) });
        let alg = [13, 8, 15, 14, 10][d % 5];
        let ks: Vec<DnsKey> = (0..keys)
            .map(|i| {
                let p = if alg == 8 || alg == 10 { vec![1, 3, d as u8, i as u8 * 3, 200] } else { vec![d as u8, i as u8 * 3, 3, 1] };
                key(zname, if i == 0 { 257 } else { 256 }, 3, alg, p)
            })
            .collect();
        let set: Vec<RR> = ks.iter().rev().map(|k| k.clone().into()).collect();
        // the key set is signed by the last keys, one of which the last DS record is for
        let signers: Vec<&DnsKey> = ks.iter().rev().take(sigs).collect();
        let digest = vec![d as u8 ^ 0x55; 32];
        known_key(signers[signers.len() - 1], 2, &digest);
        let mut ds: Vec<RR> = vec![];
        for i in 0..dss {
            let last = i == dss - 1;
            let tag = key_tag(signers[signers.len() - 1]);
            ds.push(
                DS {
                    name: nm(zname),
                    key_tag: if last { tag } else { tag.wrapping_add(i as u16 + 1) },
                    alg,
                    digest_type: [2, 2, 1, 4, 9][if last { 0 } else { i % 5 }],
                    digest: if last { digest.clone() } else { vec![i as u8; 32] },
                }
                .into(),
            );
        }
        inp.extend(ds.iter().cloned());
        for k in parent.iter().take(sigs) {
            inp.push(sg(zname, 43, k, 1, &ds));
        }
        inp.extend(set.iter().cloned());
        for k in signers {
            inp.push(sg(zname, 48, k, 2, &set));
        }
        parent = ks;
    }
    let set: Vec<RR> = (0..recs)
        .map(|i| {
            let i = (i * 7 + 3) % recs;
            Txt { name: nm(zname), data: vec![(i >> 8) as u8, i as u8, sym_u8()] }.into()
        })
        .collect();
    inp.extend(set.iter().cloned());
    for k in parent.iter().take(sigs) {
        inp.push(sg(zname, 16, k, 3, &set));
    }
    want.extend(set);
    let set: Vec<RR> = (0..recs).map(|i| AAAA { name: nm(zname), address: { let mut a = [0xff; 16]; a[0] = (i * 5 % recs) as u8; a[3] = (i * 5 % recs >> 8) as u8; a[7] = i as u8; a[15] = sym_u8(); a } }.into()).collect();
    inp.extend(set.iter().cloned());
    for k in parent.iter().rev().take(sigs) {
        inp.push(sg(zname, 28, k, 3, &set));
    }
    want.extend(set);
    shuffle(&mut inp, order);
    complete(&inp, &want);
    if order < 2 {
        // with any record changed it is not accepted
        let at = concretize(choose(inp.len().min(256) as u32) as u64) as usize;
        let mut bad = inp.clone();
        let x = sym_u8();
        assume(x != 0);
        match &mut bad[at] {
            RR::Txt(t) => t.data[2] ^= x,
            RR::AAAA(t) => t.address[15] ^= x,
            RR::DS(t) => t.digest[31] ^= x,
            RR::DnsKey(t) => {
                let l = t.pubkey.len();
                t.pubkey[l - 1] ^= x
            }
            RR::RRSig(t) => t.signature[0] ^= x,
            _ => unreachable!(),
        }
        // (a signature of the key set by a key which no DS record is for is not needed)
        let unneeded = sigs > 1 && matches!(&inp[at], RR::RRSig(s) if s.ty == 48);
        check(unneeded || verify_rr_stream(&bad).is_err(), "a changed record is not accepted");
        // without any one of them, the answer is not there or not the whole of it
        let gone = inp.remove(at);
        if let Ok(v) = verify_rr_stream(&inp) {
            check(!v.verified_rrs.iter().any(|r| **r == gone), "a record which is not there is not returned");
            let of_set = |t: u16| v.verified_rrs.iter().filter(|r| ty_of(r) == t).count();
            check(matches!(gone, RR::RRSig(_)), "nothing but a signature may be missing");
            check(sigs > 1 || of_set(16) + of_set(28) <= recs, "a set without its signature is not returned");
            reach("without a signature");
        } else {
            reach("incomplete");
        }
    }
}
/// Many names below a zone, each with its own signature, and one which is not signed.
pub fn val_many() {
    let (n, order) = (param(0), param(1));
    reset(Mode::Ideal);
    let (_, rz, mut inp) = root();
    let mut want: Vec<RR> = vec![];
    let odd = choose(n as u32) as usize;
    for i in 0..n {
        let name = leak(format!("n{}.", i));
        let r: RR = A { name: nm(name), address: [i as u8, sym_u8(), sym_u8(), 7] }.into();
        inp.push(r.clone());
        if i != odd {
            inp.push(sg(name, 1, &rz, 1, &[r.clone()]));
            want.push(r);
        }
    }
    shuffle(&mut inp, order);
    complete(&inp, &want);
}
/// JSON of records with long data, names and many types, one byte of which may be anything.
pub fn json_long() {
    let (kind, n, name) = (param(0), param(1), param(2));
    let name = match name {
        0 => nm("ab.c."),
        1 => nm(&(["v"; 63].concat() + "." + &["w"; 63].concat() + "." + &["x"; 63].concat() + "." + &["y"; 62].concat() + ".")),
        _ => nm(&["z."; 127].concat()),
    };
    let mut data: Vec<u8> = (0..n).map(|i| (i * 37 + 9) as u8).collect();
    let at = [0, n / 2, n.saturating_sub(1)][choose(3) as usize];
    if n > 0 {
        data[at] = if kind == 5 { sym_u8() } else if n < 30 { concretize(sym_u8() as u64) as u8 } else { [0, 9, 10, 99, 100, 199, 200, 255][choose(8) as usize] };
    }
    if kind == 5 {
        // the interesting ones are few in between
        for (i, d) in data.iter_mut().enumerate() {
            if i != at && i % 50 != 7 {
                *d = b'a' + (*d % 26);
            }
        }
    }
    let types: Vec<u16> = (0..n).map(|i| ((i * 257 + 1) % 65536) as u16).collect();
    let r: RR = match kind {
        5 => Txt { name, data }.into(),
        6 => TLSA { name, cert_usage: 3, selector: 1, data_ty: 1, data }.into(),
        7 => DnsKey { name, flags: 257, protocol: 3, alg: 13, pubkey: data }.into(),
        8 => DS { name, key_tag: 10000, alg: 13, digest_type: 2, digest: data }.into(),
        9 => RRSig {
            name: name.clone(),
            ty: [1, 65535, 10000][choose(3) as usize],
            alg: 8,
            labels: 127,
            orig_ttl: 86400,
            expiration: 1800000000,
            inception: 1700000000,
            key_tag: 60001,
            key_name: name,
            signature: data,
        }
        .into(),
        10 => NSec { name: name.clone(), next_name: name, types: NSecTypeMask::from_types(&types) }.into(),
        11 => NSec3 { name, hash_algo: 1, flags: 1, hash_iterations: 2500, salt: data, next_name_hash: vec![0x9f; 20], types: NSecTypeMask::from_types(&[1, 46]) }.into(),
        _ => NSec3 { name, hash_algo: 1, flags: 0, hash_iterations: 10, salt: vec![1; 8], next_name_hash: data, types: NSecTypeMask::from_types(&[16, 257, 1000]) }.into(),
    };
    let j = r.json();
    match parse_json(j.as_bytes()) {
        Some(v) => {
            reach("valid");
            check(json_says(&v, &r), "the JSON form says what the record holds");
        }
        None => check(false, "the JSON form of a record is valid JSON"),
    }
}
/// A chain of `n` aliases; kind 0 of CNAMEs, 1 of DNAMEs, 2 of both; `tail` records at its end.
pub fn resolve_chain() {
    let (n, kind, tail, order) = (param(0), param(1), param(2), param(3));
    let mut rrs: Vec<RR> = vec![];
    for i in 0..n {
        if kind == 0 || kind == 2 && i % 2 == 0 {
            rrs.push(CName { name: nm(&format!("h.c{}.", i)), canonical_name: nm(&format!("h.c{}.", i + 1)) }.into());
        } else {
            rrs.push(DName { name: nm(&format!("c{}.", i)), delegation_name: nm(&format!("c{}.", i + 1)) }.into());
        }
    }
    let end = format!("h.c{}.", n);
    for i in 0..tail {
        rrs.push(A { name: nm(&end), address: [1, 2, i as u8, sym_u8()] }.into());
    }
    rrs.push(Txt { name: nm("h.c0.x."), data: vec![] }.into());
    // one alias may lead anywhere else: to the end, back, to itself, to nothing
    let mut len = n;
    let mut leads = true;
    if order > 1 {
        let at = n / 2;
        let to = [end.clone(), "h.c0.".to_string(), format!("h.c{}.", at), "q.".to_string(), format!("h.c{}.", n - 1)][choose(5) as usize].clone();
        len = if to == end { at + 1 } else { at + 2 };
        leads = to == end || to == format!("h.c{}.", n - 1) && n - 1 > at;
        rrs[at] = CName { name: nm(&format!("h.c{}.", at)), canonical_name: nm(&to) }.into();
    }
    let mut v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 1 };
    if order & 1 == 1 {
        v.verified_rrs.reverse();
    }
    let got = v.resolve_name(&nm("h.c0."));
    check(got.len() == if leads { tail } else { 0 }, "the records at the end of the aliases");
    for g in got.iter() {
        check(g.name().as_str() == end, "the records at the end of the aliases");
    }
    if leads {
        reach("resolved");
    } else {
        reach("nothing");
    }
    observe(len as u64);
}
/// Responses with many records: `an` answers and `ns` in the authority section, with the highest or lowest TTL anywhere.
pub fn resp_many() {
    let (an, ns, extra) = (param(0), param(1), param(2));
    let mut p = vec![0, 0, 0x81, 0xa0, 0, 1];
    p.extend_from_slice(&(an as u16).to_be_bytes());
    p.extend_from_slice(&(ns as u16).to_be_bytes());
    p.extend_from_slice(&(extra as u16).to_be_bytes());
    p.extend_from_slice(&[1, b'q', 0, 0, 16, 0, 1]);
    let total = an + ns;
    let at = [0, total / 2, an - 1, an.min(total - 1), total - 1][choose(5) as usize];
    for i in 0..total {
        let ttl = if i == at { sym_u32() } else { 5000 + (i as u32 * 13) % 100 };
        if i % 4 == 1 && i >= an {
            let t = ttl.to_be_bytes();
            p.extend_from_slice(&[0xc0, 12, 0, 47, 0, 1, t[0], t[1], t[2], t[3], 0, 6, 1, b'r', 0, 0, 1, i as u8]);
        } else if i == 5 || i % 40 == 6 || i == total - 1 {
            rrsig(&mut p, if i < an { 16 } else { 50 - (i as u16 % 2) * 3 }, ttl, &[1, b's' + (i / 40 % 4) as u8, 0]);
        } else {
            p.extend_from_slice(&[0xc0, 12, 0, 16, 0, 1]);
            p.extend_from_slice(&ttl.to_be_bytes());
            p.extend_from_slice(&[0, 4, 3, (i >> 8) as u8, i as u8, if i == at { sym_u8() } else { 7 }]);
        }
    }
    for _ in 0..extra {
        p.extend_from_slice(&[0, 0, 41, 0, 1, 0, 0, 0, 0, 0, 0]);
    }
    Model::one(&p);
}
/// Names of `n` labels, as text and on the wire.
pub fn name_many() {
    let (n, len) = (param(0), param(1));
    let c = sym_u8();
    let at = [0, n / 2, n - 1][choose(3) as usize];
    let mut t: Vec<u8> = vec![];
    let mut w: Vec<u8> = vec![];
    for i in 0..n {
        w.push(len as u8);
        for k in 0..len {
            let x = if i == at && k == len / 2 { c } else { b'a' + (i % 26) as u8 };
            t.push(x);
            w.push(x);
        }
        t.push(b'.');
    }
    w.push(0);
    let fine = c > 0x20 && c < 0x7f && c != b'"' && c != b'.';
    let text = match String::from_utf8(t.clone()) {
        Ok(x) => x,
        Err(_) => return,
    };
    // (a dot makes it another name: the subject of the shorter harnesses)
    assume(c != b'.');
    let name: Result<Name, ()> = text.try_into();
    let ok = fine && t.len() <= 255;
    check(name.is_ok() == ok, "names of any number of labels are taken, up to their length");
    let name = match name {
        Ok(n) => n,
        Err(()) => {
            reach("rejected");
            return;
        }
    };
    reach("accepted");
    check(name.labels() as usize == n, "labels() counts the labels");
    for k in 0..=n {
        let got = name.trailing_n_labels(k as u8);
        let want = if k == 0 { b"." as &[u8] } else { &name.as_bytes()[(n - k) * (len + 1)..] };
        match got {
            Some(g) => check_u(memeq(g.as_bytes(), want), "trailing_n_labels is the last n labels"),
            None => check(false, "every number of labels up to all can be had"),
        }
    }
    for k in n + 1..=255 {
        check(name.trailing_n_labels(k as u8).is_none(), "there are no more labels than there are");
    }
    let rr: RR = CName { name: name.clone(), canonical_name: name.clone() }.into();
    let mut out = vec![];
    write_rr(&rr, 77, &mut out);
    let lower: Vec<u8> = w.iter().map(|x| x.to_ascii_lowercase()).collect();
    let mut want = lower.clone();
    want.extend_from_slice(&[0, 5, 0, 1, 0, 0, 0, 77]);
    want.extend_from_slice(&(w.len() as u16).to_be_bytes());
    want.extend_from_slice(&lower);
    check_u(memeq(&out, &want), "names of any number of labels are written whole");
    match parse_rr_stream(&out) {
        Ok(v) => check(v.len() == 1 && v[0] == rr, "what is written is read back"),
        Err(()) => check(false, "what is written is read back"),
    }
}
/// A wildcard answer and many NSEC or NSEC3 records, of which the one that covers it may be missing.
pub fn wild_many() {
    let (n, nsec3, order, answers) = (param(0), param(1), param(2), param(3));
    let (c, mut inp) = base();
    let mut h = vec![0x77; 20];
    let x = sym_u8();
    let name = if nsec3 > 0 {
        h[0] = x;
        h[19] = sym_u8();
        "x.a.".to_string()
    } else {
        assume(x >= b'0' && x <= b'9' || x >= b'a' && x <= b'z');
        String::from_utf8(vec![b'x', x, b'x', b'.', b'a', b'.']).unwrap()
    };
    let gone = choose(n as u32 + 1) as usize;
    let mut chain: Vec<RR> = vec![];
    let mut yes = 0;
    let digit = |i: usize| b"0123456789abcdefghijklmnopqrstuvwxyz"[i];
    for i in 0..n {
        if nsec3 > 0 {
            let at = |i: usize| {
                let mut d = vec![0x77; 20];
                d[0] = (i * 256 / (n + 1)) as u8;
                d[19] = if i == n { 0xff } else { 0x70 };
                d
            };
            let nname = nm(&(crate::h_wild::b32_text(&at(i)) + ".a."));
            let s = sig(&nname, 50, &c.ak, 2, 4000, 1700000003, 1800000003, &[5]);
            // (some with parameters of their own)
            let salt = if nsec3 == 2 && i % 2 == 1 { vec![9, 9] } else { vec![] };
            if i != gone {
                yes |= covers(&at(i), &h, &at(i + 1));
                chain.push(NSec3 { name: nname, hash_algo: 1, flags: 0, hash_iterations: 0, salt, next_name_hash: at(i + 1), types: mask(&[16, 46]) }.into());
                chain.push(s.into());
            }
        } else {
            let at = |i: usize| vec![b'x', digit(i * 36 / (n + 1)), if i == 0 { b'!' } else { b'm' }];
            let (a, b) = (at(i), at(i + 1));
            let t = |x: &[u8]| nm(&(String::from_utf8(x.to_vec()).unwrap() + ".a."));
            let s = sig(&t(&a), 47, &c.ak, 2, 4000, 1700000003, 1800000003, &[5]);
            if i != gone {
                let m = [b'x', x, b'x'];
                yes |= lex_less(&a, &m) & lex_less(&m, &b);
                chain.push(NSec { name: t(&a), next_name: t(&b), types: mask(&[16, 46, 47]) }.into());
                chain.push(s.into());
            }
        }
    }
    if nsec3 > 0 {
        set_hash(1, &wire("x.a."), &h);
        let mut m = wire("x.a.");
        m.extend_from_slice(&[9, 9]);
        set_hash(1, &m, &h);
    }
    inp.extend(chain);
    for i in 0..answers {
        let name = nm(&name);
        let (r, ty): (RR, u16) = match i {
            0 => (Txt { name, data: vec![7] }.into(), 16),
            1 => (A { name, address: [1, 2, 3, 4] }.into(), 1),
            2 => (AAAA { name, address: [5; 16] }.into(), 28),
            _ => (TLSA { name, cert_usage: 3, selector: 1, data_ty: 1, data: vec![i as u8] }.into(), 52),
        };
        let s = sig(r.name(), ty, &c.ak, 1, 4000, 1700000003, 1800000003, &[4]);
        inp.push(r);
        inp.push(s.into());
    }
    shuffle(&mut inp, order);
    let ok = match verify_rr_stream(&inp) {
        Ok(v) => {
            reach("expanded");
            check(v.verified_rrs.len() == answers, "exactly the signed records are returned");
            1
        }
        Err(_) => 0,
    };
    check_u(ok ^ yes ^ 1, "a wildcard answer is accepted exactly when a record of the zone covers the next closer name, wherever it is");
}
/// Streams of many records of every kind are read back as they were written, and not at all if cut short.
pub fn stream_many() {
    let n = param(0);
    let at = [0, n / 2, n - 1][choose(3) as usize];
    let mut all: Vec<RR> = vec![];
    let mut out = vec![];
    for i in 0..n {
        let name = nm(&format!("n{}.x.", i));
        let other = nm(&format!("m.n{}.", i / 3));
        let b = if i == at { sym_u8() } else { i as u8 };
        let r: RR = match i % 12 {
            0 => A { name, address: [1, b, 3, 4] }.into(),
            1 => Txt { name, data: vec![b; 1 + i % 300] }.into(),
            2 => AAAA { name, address: [b; 16] }.into(),
            3 => NS { name, name_server: other }.into(),
            4 => CName { name, canonical_name: other }.into(),
            5 => DName { name, delegation_name: other }.into(),
            6 => TLSA { name, cert_usage: b, selector: 1, data_ty: 0, data: vec![b, 2, 3] }.into(),
            7 => DnsKey { name, flags: 256, protocol: 3, alg: b, pubkey: vec![b; 100] }.into(),
            8 => DS { name, key_tag: 77, alg: b, digest_type: 2, digest: vec![b; 32] }.into(),
            9 => RRSig { name, ty: 16, alg: b, labels: 2, orig_ttl: 1, expiration: 2, inception: 3, key_tag: 4, key_name: other, signature: vec![b; 64] }.into(),
            10 => NSec { name, next_name: other, types: NSecTypeMask::from_types(&[1, 46, 47, [257u16, 1000, 65280, 65535][i / 12 % 4]]) }.into(),
            _ => NSec3 { name, hash_algo: 1, flags: 0, hash_iterations: 1, salt: vec![b; 8], next_name_hash: vec![b; 20], types: NSecTypeMask::from_types(&[1]) }.into(),
        };
        let from = out.len();
        write_rr(&r, i as u32, &mut out);
        check_u(memeq(&out[from..], &record(&r, i as u32)), "records are appended in their canonical form");
        all.push(r);
    }
    match parse_rr_stream(&out) {
        Ok(v) => {
            reach("read");
            check(v.len() == n, "every record is read back");
            check(v == all, "the records are read back as they were, in their order");
        }
        Err(()) => check(false, "what is written is read back"),
    }
    out.pop();
    check(parse_rr_stream(&out).is_err(), "a stream cut short is rejected");
    out.extend_from_slice(&[0, 0]);
    check(parse_rr_stream(&out).is_err() || n % 12 != 0, "a stream with a byte too many is rejected");
}
/// Names in a response which are `n` pointers deep, with a label before each of them or every `every`-th.
pub fn resp_hops() {
    let (n, every) = (param(0), param(1));
    let mut chain: Vec<u8> = vec![];
    // the data of the key starts here
    let start = 12 + 7 + 16;
    let mut last = 12;
    for i in 0..n {
        let here = start + chain.len();
        if i % every == 0 {
            chain.extend_from_slice(&[1, if i == n / 2 { sym_u8() } else { b'a' + (i % 26) as u8 }]);
        }
        chain.extend_from_slice(&[0xc0 | (last >> 8) as u8, last as u8]);
        last = here;
    }
    // one of the pointers may be any
    if choose(2) == 1 && n < 40 {
        let l = chain.len();
        chain[l - 1] = sym_u8();
    }
    let mut p = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 2, 0, 0, 0, 0, 1, b'q', 0, 0, 16, 0, 1];
    p.extend_from_slice(&[0xc0, 12, 0, 48, 0, 1, 0, 0, 1, 0]);
    p.extend_from_slice(&((chain.len() + 4) as u16).to_be_bytes());
    p.extend_from_slice(&[1, 1, 3, 13]);
    check(p.len() == start, "the names start where they should");
    p.extend_from_slice(&chain);
    p.extend_from_slice(&[0xc0 | (last >> 8) as u8, last as u8, 0, 1, 0, 1, 0, 0, 1, 0, 0, 4, 1, 2, 3, 4]);
    Model::one(&p);
}
/// Signed records with long data, or a zone with a long key.
pub fn val_long() {
    let (kind, n, order) = (param(0), param(1), param(2));
    reset(Mode::Ideal);
    let (_, mut rz, mut inp) = root();
    let long = |x: u8| {
        let mut d: Vec<u8> = (0..n).map(|i| (i * 31 + i / 256) as u8 ^ x).collect();
        d[n / 2] = sym_u8();
        d[n - 1] = sym_u8();
        d
    };
    let mut owner = "a.";
    let set: Vec<RR> = match kind {
        0 => (0..3).map(|i| Txt { name: nm(owner), data: long(if i < 2 { 0 } else { 7 }) }.into()).collect(),
        1 => (0..3).map(|i| TLSA { name: nm(owner), cert_usage: 3, selector: 1, data_ty: 0, data: long(if i < 2 { 0 } else { 7 }) }.into()).collect(),
        _ => {
            let mut p = long(1);
            p[0] = 3;
            let k = key("z.", 257, 3, [8, 10, 13, 15][kind - 2], p);
            let digest = vec![9; 32];
            known_key(&k, 2, &digest);
            let ds: Vec<RR> = vec![DS { name: nm("z."), key_tag: key_tag(&k), alg: k.alg, digest_type: 2, digest }.into()];
            inp.extend(ds.iter().cloned());
            inp.push(sg("z.", 43, &rz, 1, &ds));
            let set: Vec<RR> = vec![k.clone().into()];
            inp.extend(set.iter().cloned());
            inp.push(sg("z.", 48, &k, 2, &set));
            rz = k;
            owner = "a.z.";
            vec![A { name: nm(owner), address: [1, 2, 3, 4] }.into()]
        }
    };
    if set.len() == 3 {
        assume(memeq(&rdata(&set[0]), &rdata(&set[1])) == 0);
    }
    inp.extend(set.iter().cloned());
    inp.push(sg(owner, ty_of(&set[0]), &rz, 3, &set));
    shuffle(&mut inp, order);
    complete(&inp, &set);
}
