//! The wrappers for WebAssembly.
use crate::api::*;
use crate::h_misc::*;
use crate::h_net::*;
use crate::h_query::*;
use crate::h_val::*;
use crate::oracle::*;
use crate::spec::*;
use crate::trust::*;
use dnssec_prover::query::*;
use dnssec_prover::rr::*;
use dnssec_prover::ser::*;
use dnssec_prover::validation::*;
use wasmpack::wrappers::*;

/// Whatever the wrapper answers is what the library answers.
fn same(bytes: Vec<u8>) {
    let o = verify_byte_stream(bytes.clone());
    let j = parse_json(o.as_bytes());
    check(j.is_some(), "the answer is valid JSON");
    let j = j.unwrap();
    let rrs = parse_rr_stream(&bytes);
    let want = match &rrs {
        Ok(r) => verify_rr_stream(r),
        Err(()) => Err(ValidationError::Invalid),
    };
    match want {
        Ok(v) => {
            reach("verified");
            let n = |k: &str, x: u64| j.get(k) == Some(&J::Num(x));
            check(n("valid_from", v.valid_from) && n("expires", v.expires) && n("max_cache_ttl", v.max_cache_ttl as u64), "the times are the ones the library gives");
            check(j.get("error").is_none(), "there is no error");
            match j.get("verified_rrs") {
                Some(J::Arr(a)) => {
                    check(a.len() == v.verified_rrs.len(), "the verified records are all there");
                    check(a.iter().zip(v.verified_rrs.iter()).all(|(a, r)| json_says(a, r)), "the verified records are all there");
                }
                _ => check(false, "there is a list of records"),
            }
        }
        Err(e) => {
            reach("error");
            let w: &[u8] = match e {
                ValidationError::Invalid => b"Invalid",
                ValidationError::UnsupportedAlgorithm => b"UnsupportedAlgorithm",
            };
            check(j.get("error") == Some(&J::Str(w.to_vec())), "the error is the one the library gives");
            check(j.get("verified_rrs").is_none(), "nothing is verified");
        }
    }
}
fn put(o: &mut Vec<u8>, r: &RR) {
    o.extend_from_slice(&record(r, 60));
}
/// A proof with records of several types at its end, and some ways to spoil it.
pub fn wasm_verify() {
    reset(Mode::Ideal);
    let c = chain();
    c.register();
    let mut v = c.rrs();
    v.truncate(6);
    let kind = choose(5);
    let name = nm("x.a.");
    let set: Vec<RR> = match kind {
        0 => vec![],
        1 => vec![Txt { name: name.clone(), data: vec![sym_u8(), b'"', sym_u8()] }.into()],
        2 => vec![A { name: name.clone(), address: [1, 2, 3, 4] }.into(), A { name: name.clone(), address: [200, 0, 0, 255] }.into()],
        3 => vec![CName { name: name.clone(), canonical_name: nm("y.a.") }.into()],
        _ => vec![TLSA { name: name.clone(), cert_usage: 3, selector: 1, data_ty: 0, data: vec![0, 255] }.into()],
    };
    if !set.is_empty() {
        let ttl = [0, 60, u32::MAX][choose(3) as usize];
        let from = [0, 1750000000, 1755555555][choose(3) as usize];
        let until = [1760000000, 1790000000, 4000000000u32][choose(3) as usize];
        let s = sig("x.a.", ty_of(&set[0]), &c.ak, 2, ttl, from, until, &[4]);
        if choose(2) == 0 {
            register(&s, &c.ak, &set);
        }
        v.extend(set);
        v.push(s.into());
    }
    if param(0) == 1 {
        if let RR::DS(d) = &mut v[choose(3) as usize] {
            d.alg = 200;
        }
        let alg = sym_u8();
        assume(alg == 8 || alg == 13 || alg == 200);
        for r in v.iter_mut() {
            if let RR::DS(d) = r {
                d.alg = alg;
            }
        }
    }
    let mut b = vec![];
    for r in v.iter() {
        put(&mut b, r);
    }
    match choose(3) {
        0 => {}
        1 => {
            b.pop();
        }
        _ => b.push(0),
    }
    same(b);
}
/// Arbitrary bytes, alone or after the start of a record.
pub fn wasm_bytes() {
    reset(Mode::Ideal);
    let mut b = vec![];
    if param(1) == 1 {
        b.extend_from_slice(&[1, b'a', 0, 0, 16, 0, 1, 0, 0, 0, 0]);
    }
    b.extend_from_slice(&sym_vec(param(0)));
    same(b);
}
/// What the name given to the wrapper means.
pub fn wasm_name() {
    let n = param(0);
    let b = sym_vec(n);
    for c in b.iter() {
        assume(*c < 0x80);
    }
    let ty = sym_u16();
    let mut full = b.clone();
    if n == 0 || b[n - 1] != b'.' {
        full.push(b'.');
    }
    let want: Result<Name, ()> = unsafe { String::from_utf8_unchecked(full) }.try_into();
    let got = init_proof_builder(unsafe { String::from_utf8_unchecked(b) }, ty);
    match (want, got) {
        (Ok(n), Some(mut g)) => {
            reach("valid");
            let (_, q) = ProofBuilder::new(&n, ty);
            let h = get_next_query(&mut g);
            check(h.is_some(), "there is a first query");
            check_u(memeq(&h.unwrap(), &q), "the first query asks for the name and type");
            check(get_next_query(&mut g).is_none(), "one query to start with");
            check(get_unverified_proof(g).is_none(), "no proof before there are responses");
        }
        (Err(()), None) => reach("invalid"),
        _ => check(false, "a builder for every valid name, with or without its final dot, and for no other"),
    }
}
/// Responses through the wrapper and by hand.
pub fn wasm_builder() {
    let s = story(param(0));
    let ty = sym_u16();
    let (mut b, q) = ProofBuilder::new(&nm("q."), ty);
    let mut w = init_proof_builder("q".into(), ty).unwrap();
    let mut want: Vec<Vec<u8>> = vec![q.into_vec()];
    let mut bad = param(1);
    let drain = param(2) == 0;
    for r in s.iter() {
        if bad > 0 && choose(2) == 1 {
            // a response which is no good, or longer than any may be
            bad -= 1;
            let x = match choose(3) {
                0 => vec![0; 65536],
                1 => vec![],
                _ => vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1],
            };
            let before = b.awaiting_responses();
            check(b.process_response(&buf(&x[..x.len().min(20)])).is_err() && before == b.awaiting_responses(), "bad responses change nothing");
            process_query_response(&mut w, x);
        }
        process_query_response(&mut w, r.clone());
        if let Ok(qs) = b.process_response(&buf(r)) {
            reach("accepted");
            want.extend(qs.into_iter().map(|q| q.into_vec()));
        }
        if drain {
            for q in want.drain(..) {
                match get_next_query(&mut w) {
                    Some(g) => check_u(memeq(&g, &q), "the queries are handed out in order"),
                    None => check(false, "every query is handed out"),
                }
            }
            check(get_next_query(&mut w).is_none(), "there are no other queries");
        }
    }
    for q in want {
        match get_next_query(&mut w) {
            Some(g) => check_u(memeq(&g, &q), "the queries are handed out in order"),
            None => check(false, "every query is handed out"),
        }
    }
    check(get_next_query(&mut w).is_none(), "there are no other queries");
    match (get_unverified_proof(w), b.finish_proof()) {
        (Some(p), Ok((q, _))) => {
            reach("proof");
            check(p.len() == q.len(), "the proof is the one the responses make");
            check_u(memeq(&p, &q), "the proof is the one the responses make");
        }
        (None, Err(())) => reach("no proof"),
        _ => check(false, "there is a proof exactly when every query was answered"),
    }
}
/// Verified streams of any number of records, with all times and lifetimes.
pub fn wasm_many() {
    let (n, wide) = (param(0), param(1));
    reset(Mode::Ideal);
    let rk = root_key();
    known_key(&rk, 2, &anchor());
    let ttl = [0, 9, 65535, 65536, 1 << 24, 0x7fff_ffff, u32::MAX][choose(7) as usize];
    // (the second range of the time comes after the first)
    let (from, until) = [(1700000000, 1800000000), (1700000001, 4294967295u32), (1700000000, 5), (3, 40000)][choose(4) as usize];
    let mut v: Vec<RR> = vec![rk.clone().into()];
    let mut add = |v: &mut Vec<RR>, name: &str, set: Vec<RR>| {
        let s = sig(name, ty_of(&set[0]), &rk, labels(name).len() as u8, ttl, from, until, &[labels(name).len() as u8, v.len() as u8]);
        register(&s, &rk, &set);
        if ty_of(&set[0]) != 48 {
            v.extend(set);
        }
        v.push(s.into());
    };
    add(&mut v, ".", vec![rk.clone().into()]);
    for i in 0..n {
        let t = format!("n{}.", if wide == 1 { i } else { 0 });
        let name = nm(&t);
        let set = if wide == 1 {
            vec![match i % 3 {
                0 => A { name, address: [1, 2, 3, i as u8] }.into(),
                1 => Txt { name, data: vec![if i < 3 { sym_u8() } else { b'a' }, i as u8] }.into(),
                _ => NS { name, name_server: nm("ns.") }.into(),
            }]
        } else if i == 0 {
            (0..n).map(|i| A { name: nm(&t), address: [1, 2, (i >> 8) as u8, i as u8] }.into()).collect()
        } else {
            continue;
        };
        add(&mut v, &t, set);
    }
    let mut b = vec![];
    for r in v.iter() {
        put(&mut b, r);
    }
    same(b);
}
