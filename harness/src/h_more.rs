//! More shapes of proofs: key roll-overs, redundant signatures, several zones, zones that refer to each other.
use crate::api::*;
use crate::h_val::*;
use crate::oracle::*;
use crate::spec::*;
use dnssec_prover::rr::*;
use dnssec_prover::validation::*;

pub fn shuffle(inp: &mut Vec<RR>, order: usize) {
    let l = inp.len();
    match order {
        0 => {}
        1 => inp.reverse(),
        2 => {
            let r = choose(l as u32) as usize;
            inp.rotate_left(r);
        }
        _ => {
            let (i, j) = (choose(l as u32) as usize, choose(l as u32) as usize);
            inp.swap(i, j);
        }
    }
}
pub fn complete(inp: &[RR], want: &[RR]) {
    match verify_rr_stream(inp) {
        Ok(v) => {
            reach("accepted");
            check(v.verified_rrs.len() == want.len(), "exactly the signed records are returned");
            for w in want.iter() {
                check(v.verified_rrs.iter().filter(|r| **r == w).count() == 1, "each signed record is returned once");
            }
            check(v.valid_from == 1700000000 && v.expires == 1800000000 && v.max_cache_ttl == 1000, "the window and TTL are those of the signatures");
        }
        Err(_) => check(false, "a correctly signed proof is accepted"),
    }
}
pub fn sg(name: &str, ty: u16, k: &DnsKey, n: u8, set: &[RR]) -> RR {
    let s = sig(name, ty, k, labels(name).len() as u8, 1000, 1700000000, 1800000000, &[n, ty as u8]);
    register(&s, k, set);
    s.into()
}
pub struct Z {
    pub name: &'static str,
    pub ksk: DnsKey,
    pub zsk: DnsKey,
    pub ds: DS,
}
/// A zone with separate keys for its key set and its records.
pub fn zone(name: &'static str, n: u8, alg: u8) -> Z {
    let ksk = key(name, 257, 3, alg, vec![n, 1, 2, 3, n]);
    let zsk = key(name, 256, 3, alg, vec![n, 4, 5, 6]);
    let digest = vec![n; 32];
    known_key(&ksk, 2, &digest);
    Z { name, ds: DS { name: nm(name), key_tag: key_tag(&ksk), alg, digest_type: 2, digest }, ksk, zsk }
}
impl Z {
    pub fn keys(&self) -> Vec<RR> {
        vec![self.ksk.clone().into(), self.zsk.clone().into()]
    }
}
pub fn root() -> (DnsKey, DnsKey, Vec<RR>) {
    let rk = root_key();
    known_key(&rk, 2, &anchor());
    let rz = key(".", 256, 3, 8, vec![1, 3, 7, 7, 7]);
    let set: Vec<RR> = vec![rk.clone().into(), rz.clone().into()];
    let mut v = set.clone();
    v.push(sg(".", 48, &rk, 0, &set));
    (rk, rz, v)
}
/// Proofs as real zones have them; all are accepted.
pub fn val_shapes() {
    reset(Mode::Ideal);
    let (shape, order) = (param(0), param(1));
    let (rk, rz, mut inp) = root();
    let mut want: Vec<RR> = vec![];
    let a = zone("a.", 10, 13);
    let b = zone("b.", 11, 8);
    let mut b = b;
    b.ksk.pubkey = vec![1, 3, 9, 9, 9];
    b.zsk.pubkey = vec![1, 3, 8, 8, 9, 9];
    b.ds.key_tag = key_tag(&b.ksk);
    known_key(&b.ksk, 2, &[11; 32]);
    let c = zone("c.a.", 12, 15);
    let txt: RR = Txt { name: nm("t.a."), data: sym_vec(2) }.into();
    let mut add = |inp: &mut Vec<RR>, z: &Z, parent: &DnsKey| {
        inp.push(z.ds.clone().into());
        inp.push(sg(z.name, 43, parent, 1, &[z.ds.clone().into()]));
        inp.extend(z.keys());
        inp.push(sg(z.name, 48, &z.ksk, 1, &z.keys()));
    };
    match shape {
        0 => {
            // separate keys in each zone
            add(&mut inp, &a, &rz);
            inp.push(txt.clone());
            inp.push(sg("t.a.", 16, &a.zsk, 2, &[txt.clone()]));
            want.push(txt);
        }
        1 => {
            // two zones beside each other, and an alias from one to the other
            add(&mut inp, &a, &rz);
            add(&mut inp, &b, &rz);
            let cn: RR = CName { name: nm("t.a."), canonical_name: nm("u.b.") }.into();
            let rs: Vec<RR> = vec![A { name: nm("u.b."), address: sym() }.into(), A { name: nm("u.b."), address: [255, 255, 255, 255] }.into()];
            if let RR::A(x) = &rs[0] {
                assume(x.address[0] != 255);
            }
            inp.push(cn.clone());
            inp.push(sg("t.a.", 5, &a.zsk, 2, &[cn.clone()]));
            inp.extend(rs.clone());
            inp.push(sg("u.b.", 1, &b.zsk, 2, &rs));
            want.push(cn);
            want.extend(rs);
        }
        2 => {
            // a key set signed by both keys, and by a key of an algorithm nobody knows
            inp.push(a.ds.clone().into());
            inp.push(sg("a.", 43, &rz, 1, &[a.ds.clone().into()]));
            let odd = key("a.", 257, 3, 253, vec![1, 2]);
            let mut set = a.keys();
            set.push(odd.clone().into());
            inp.extend(set.clone());
            inp.push(sig("a.", 48, &odd, 1, 1000, 1700000000, 1800000000, &[7]).into());
            inp.push(sg("a.", 48, &a.ksk, 1, &set));
            inp.push(txt.clone());
            inp.push(sg("t.a.", 16, &a.zsk, 2, &[txt.clone()]));
            inp.push(sig("t.a.", 16, &odd, 2, 1000, 1700000000, 1800000000, &[7]).into());
            want.push(txt);
        }
        3 => {
            // DS records of several kinds, and for a key which is not in use yet
            let mut dss: Vec<RR> = vec![a.ds.clone().into()];
            let mut d1 = a.ds.clone();
            d1.digest_type = 1;
            d1.digest = vec![3; 20];
            dss.push(d1.into());
            let mut d4 = a.ds.clone();
            d4.digest_type = 4;
            d4.digest = vec![4; 48];
            dss.push(d4.into());
            let mut dx = a.ds.clone();
            dx.digest_type = 77;
            dss.push(dx.into());
            let mut ds = a.ds.clone();
            ds.key_tag ^= 0x55;
            ds.digest = sym_vec(32);
            dss.push(ds.into());
            inp.extend(dss.clone());
            inp.push(sg("a.", 43, &rz, 1, &dss));
            inp.extend(a.keys());
            inp.push(sg("a.", 48, &a.ksk, 1, &a.keys()));
            inp.push(txt.clone());
            inp.push(sg("t.a.", 16, &a.zsk, 2, &[txt.clone()]));
            want.push(txt);
        }
        4 => {
            // only a SHA-1 digest
            let mut d = a.ds.clone();
            d.digest_type = 1;
            d.digest = vec![3; 20];
            known_key(&a.ksk, 1, &[3; 20]);
            inp.push(d.clone().into());
            inp.push(sg("a.", 43, &rz, 1, &[d.into()]));
            inp.extend(a.keys());
            inp.push(sg("a.", 48, &a.ksk, 1, &a.keys()));
            inp.push(txt.clone());
            inp.push(sg("t.a.", 16, &a.zsk, 2, &[txt.clone()]));
            want.push(txt);
        }
        5 => {
            // three levels, records at each
            add(&mut inp, &a, &rz);
            add(&mut inp, &c, &a.zsk);
            let x: RR = Txt { name: nm("a."), data: vec![b'A'; 300] }.into();
            let y: RR = TLSA { name: nm("_443._tcp.c.a."), cert_usage: sym_u8(), selector: sym_u8(), data_ty: sym_u8(), data: sym_vec(2) }.into();
            for (r, k) in [(&x, &a.zsk), (&txt, &a.zsk), (&y, &c.zsk)] {
                inp.push(r.clone());
                inp.push(sg(r.name(), ty_of(r), k, 3, &[r.clone()]));
                want.push(r.clone());
            }
        }
        6 => {
            // several types at one name, next to a delegation nobody asked for
            add(&mut inp, &a, &rz);
            add(&mut inp, &c, &a.zsk);
            let rs: Vec<RR> = vec![txt.clone(), A { name: nm("t.a."), address: sym() }.into(), AAAA { name: nm("t.a."), address: sym() }.into()];
            for r in rs.iter() {
                inp.push(r.clone());
                inp.push(sg("t.a.", ty_of(r), &a.zsk, 3, &[r.clone()]));
                want.push(r.clone());
            }
        }
        7 => {
            // two DS sets' worth of keys: the key set is signed by the key the DS is for, which is not the first
            let k2 = key("a.", 257, 3, 13, vec![1, 9, 9, 1]);
            let mut set: Vec<RR> = vec![k2.into()];
            set.extend(a.keys());
            inp.push(a.ds.clone().into());
            inp.push(sg("a.", 43, &rk, 1, &[a.ds.clone().into()]));
            inp.extend(set.clone());
            inp.push(sg("a.", 48, &a.ksk, 1, &set));
            inp.push(txt.clone());
            inp.push(sg("t.a.", 16, &a.ksk, 2, &[txt.clone()]));
            want.push(txt);
        }
        8 => {
            // a key set signed by both keys, and during a roll-over by another one
            inp.push(a.ds.clone().into());
            inp.push(sg("a.", 43, &rz, 1, &[a.ds.clone().into()]));
            let next = key("a.", 257, 3, 13, vec![7, 7, 7, 7]);
            let mut set = a.keys();
            set.push(next.clone().into());
            inp.extend(set.clone());
            inp.push(sg("a.", 48, &next, 3, &set));
            inp.push(sg("a.", 48, &a.ksk, 1, &set));
            inp.push(sg("a.", 48, &a.zsk, 2, &set));
            inp.push(txt.clone());
            inp.push(sg("t.a.", 16, &a.zsk, 2, &[txt.clone()]));
            want.push(txt);
        }
        _ => {
            // records which were not signed or whose signer is not there do no harm
            add(&mut inp, &a, &rz);
            inp.push(txt.clone());
            inp.push(sg("t.a.", 16, &a.zsk, 2, &[txt.clone()]));
            inp.push(Txt { name: nm("t.b."), data: sym_vec(1) }.into());
            inp.push(A { name: nm("t.a."), address: sym() }.into());
            inp.push(sig("u.b.", 1, &b.zsk, 2, 9, 1600000000, 1600000001, &[5]).into());
            inp.extend(b.keys());
            want.push(txt);
        }
    }
    shuffle(&mut inp, order);
    complete(&inp, &want);
}
/// Zones whose (valid) signatures delegate to each other, to themselves and to their parents.
pub fn val_loops() {
    reset(Mode::AlwaysOk);
    let (mask, fixed, dup) = (param(0), param(1), param(2));
    let rk = root_key();
    known_key(&rk, 2, &anchor());
    let zs = [".", "a.", "b.a."];
    let mut keys = vec![rk.clone()];
    let mut dss: Vec<DS> = vec![DS { name: nm("."), key_tag: 20326, alg: 8, digest_type: 2, digest: anchor() }];
    for (i, z) in zs.iter().enumerate().skip(1) {
        let k = key(z, 257, 3, 8, rk.pubkey.clone());
        let digest = vec![i as u8; 32];
        known_key(&k, 2, &digest);
        dss.push(DS { name: nm(z), key_tag: key_tag(&k), alg: 8, digest_type: 2, digest });
        keys.push(k);
    }
    let mut inp: Vec<RR> = vec![];
    for i in 0..3 {
        inp.push(keys[i].clone().into());
        inp.push(sig(zs[i], 48, &keys[i], i as u8, 1000, 1700000000, 1800000000, &[1]).into());
        inp.push(dss[i].clone().into());
    }
    // who signs whose DS
    for i in 0..3 {
        for j in 0..3 {
            let bit = i * 3 + j;
            let there = if mask >> bit & 1 == 1 { choose(2) == 1 } else { fixed >> bit & 1 == 1 };
            if there {
                for _ in 0..dup + 1 {
                    inp.push(sig(zs[j], 43, &keys[i], j as u8, 1000, 1700000000, 1800000000, &[2]).into());
                }
            }
        }
    }
    let t: RR = Txt { name: nm("t.b.a."), data: vec![1] }.into();
    let signer = choose(3) as usize;
    inp.push(sig("t.b.a.", 16, &keys[signer], 3, 1000, 1700000000, 1800000000, &[3]).into());
    inp.push(t);
    sound(&inp, true);
}
/// Record sets of every type, directly or as the expansion of a wildcard.
pub fn val_kinds() {
    reset(Mode::Ideal);
    let kind = param(0);
    let c = chain();
    c.register();
    let mut inp = c.rrs();
    inp.truncate(6);
    let owner = ["x.a.", "y.x.a.", "z.y.x.a.", "*.x.a.", "a."][choose(5) as usize];
    let set: Vec<RR> = (0..2u8)
        .map(|i| match kind {
            0 => A { name: nm(owner), address: [i, sym_u8(), 1, sym_u8()] }.into(),
            1 => AAAA { name: nm(owner), address: [i, sym_u8(), 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, sym_u8()] }.into(),
            2 => NS { name: nm(owner), name_server: nm(["n.b.", "m.n.b."][i as usize]) }.into(),
            3 => Txt { name: nm(owner), data: vec![i, sym_u8()] }.into(),
            4 => TLSA { name: nm(owner), cert_usage: i, selector: sym_u8(), data_ty: sym_u8(), data: vec![1, sym_u8()] }.into(),
            5 => CName { name: nm(owner), canonical_name: nm("n.b.") }.into(),
            _ => DName { name: nm(owner), delegation_name: nm("n.b.") }.into(),
        })
        .take(if kind < 5 { 2 } else { 1 })
        .collect();
    let ty = ty_of(&set[0]);
    let all = labels(owner).len();
    let full = all - (labels(owner)[0] == b"*") as usize;
    let l = choose(all as u32 + 1) as usize;
    let mut s = sig(owner, ty, &c.ak, l as u8, 4000, 1700000003, 1800000003, &[4]);
    s.labels = l as u8;
    register(&s, &c.ak, &set);
    inp.extend(set.iter().cloned());
    inp.push(s.into());
    let n: RR = NSec { name: nm("a."), next_name: nm("zz.a."), types: NSecTypeMask::from_types(&[46, 47]) }.into();
    let ns = sig("a.", 47, &c.ak, 1, 4000, 1700000003, 1800000003, &[5]);
    register(&ns, &c.ak, &[n.clone()]);
    let with = choose(2) == 1;
    if with {
        inp.push(n);
        inp.push(ns.into());
    }
    match verify_rr_stream(&inp) {
        Ok(v) => {
            reach("accepted");
            check(with || l == all || l == full, "an expanded wildcard needs proof that there is no closer match");
            check(v.verified_rrs.len() == set.len(), "exactly the signed records are returned");
            for w in set.iter() {
                check(v.verified_rrs.iter().filter(|r| **r == w).count() == 1, "each signed record is returned once");
            }
        }
        Err(_) => {
            reach("rejected");
            check(!(l == all || l == full || with && l > 0 && l < full), "a correctly signed proof is accepted");
        }
    }
}
/// Keys which have the same tag as the one that signs, but cannot have made the signature: they are passed over wherever they are.
/// params: what is wrong with the first of them (0 protocol, 1 flags, 2 algorithm), whether there are DS records for them,
/// and where: 0 the root, 1 a zone below it.
pub fn val_tags() {
    let (kind, endorsed, place) = (param(0), param(1), param(2));
    reset(Mode::Ideal);
    // two words make up for the rest of the key, so that all tags are the same
    let mk = |zone: &str, id: u16, flags: u16, proto: u8, alg: u8| {
        let mut p = vec![1, 3];
        for w in [0xffff - flags, 0xffff - u16::from_be_bytes([proto, alg]), id, 0xffff - id] {
            p.extend_from_slice(&w.to_be_bytes());
        }
        key(zone, flags, proto, alg, p)
    };
    let odd = |zone: &str, alg: u8, main: u16, kind: usize, sy: bool, id: u16| match kind {
        0 => {
            let p = if sy { sym_u8() } else { 4 };
            assume(p != 3);
            mk(zone, id, main, p, alg)
        }
        1 => {
            let f = if sy { sym_u16() } else { 1 };
            assume(f & 0x100 == 0);
            mk(zone, id, f, 3, alg)
        }
        _ => {
            let a = if sy { sym_u8() } else { 5 };
            assume(a != alg);
            mk(zone, id, main, 3, a)
        }
    };
    // where in the set they are
    let places = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][choose(6) as usize];
    let arrange = |t: &DnsKey, a: &DnsKey, b: &DnsKey| -> Vec<RR> { places.iter().map(|i| [t, a, b][*i].clone().into()).collect() };
    let (rk, mut rz, mut inp) = root();
    let zone = if place == 0 { "." } else { "z." };
    let alg = 8;
    let main = if place == 1 { 257 } else { 256 };
    let good = mk(zone, 1, main, 3, alg);
    let (a, b) = (odd(zone, alg, main, kind, true, 2), odd(zone, alg, main, (kind + 1) % 3, false, 3));
    let mut set = arrange(&good, &a, &b);
    check(key_tag(&a) == key_tag(&good) && key_tag(&b) == key_tag(&good), "the tags are the same");
    if place == 0 {
        // in the root the keys are signed by the one of the trust anchor
        set.push(rk.clone().into());
        inp = set.clone();
        inp.push(sg(".", 48, &rk, 0, &set));
        rz = good.clone();
    } else {
        let mut ds: Vec<RR> = vec![];
        for (i, k) in [&b, &a, &good].iter().enumerate() {
            let d = vec![i as u8 + 1; 32];
            known_key(k, 2, &d);
            if endorsed == 1 || i == 2 {
                ds.push(DS { name: nm(zone), key_tag: key_tag(k), alg: k.alg, digest_type: 2, digest: d }.into());
            }
        }
        inp.extend(ds.iter().cloned());
        inp.push(sg(zone, 43, &rz, 1, &ds));
        inp.extend(set.iter().cloned());
        inp.push(sg(zone, 48, &good, 2, &set));
        rz = good.clone();
    }
    let owner = if place == 0 { "a." } else { "a.z." };
    let set: Vec<RR> = vec![A { name: nm(owner), address: [1, 2, 3, 4] }.into()];
    inp.extend(set.iter().cloned());
    inp.push(sg(owner, 1, &rz, 3, &set));
    complete(&inp, &set);
}
