//! `verify_rr_stream` against the definitions in `trust`.
use crate::api::*;
use crate::oracle::*;
use crate::spec::*;
use crate::trust::*;
use dnssec_prover::rr::*;
use dnssec_prover::validation::*;

pub fn key(name: &str, flags: u16, protocol: u8, alg: u8, pubkey: Vec<u8>) -> DnsKey {
    DnsKey { name: nm(name), flags, protocol, alg, pubkey }
}
/// A key of the root zone which the trust anchor 20326 refers to; its tag is right by construction.
pub fn root_key() -> DnsKey {
    // flags 257, protocol 3, algorithm 8; exponent 1 byte
    let mut k = key(".", 257, 3, 8, vec![1, 3, 0x4a, 0, 0, 0]);
    // choose the last two bytes such that the tag is 20326
    k.pubkey[4] = 0;
    let t = key_tag(&k);
    let d = 20326u16.wrapping_sub(t);
    k.pubkey[4] = (d >> 8) as u8;
    k.pubkey[5] = d as u8;
    k
}
pub fn anchor() -> Vec<u8> {
    root_hints().into_iter().find(|d| d.key_tag == 20326).expect("anchor").digest
}
pub fn key_msg(k: &DnsKey) -> Vec<u8> {
    let mut m = wire(&k.name);
    m.extend_from_slice(&rdata(&RR::DnsKey(k.clone())));
    m
}
/// Makes the digest of the key known.
pub fn known_key(k: &DnsKey, alg: u32, digest: &[u8]) {
    set_hash(alg, &key_msg(k), digest);
}
pub fn sig(name: &str, ty: u16, k: &DnsKey, labels: u8, orig_ttl: u32, inception: u32, expiration: u32, signature: &[u8]) -> RRSig {
    RRSig {
        name: nm(name),
        ty,
        alg: k.alg,
        labels,
        orig_ttl,
        expiration,
        inception,
        key_tag: key_tag(k),
        key_name: k.name.clone(),
        signature: signature.to_vec(),
    }
}
pub fn sorted(set: &[RR]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = set.iter().map(rdata).collect();
    v.sort();
    v
}
/// Registers `s` as a valid signature by `k` over the records.
pub fn register(s: &RRSig, k: &DnsKey, set: &[RR]) {
    let owner = if s.ty == 47 { wire(&s.name) } else { signed_owner(&s.name, s.labels as usize) };
    let d = sorted(set);
    let d: Vec<&[u8]> = d.iter().map(|x| &x[..]).collect();
    let m = signed_msg(s, &owner, &d);
    match k.alg {
        8 | 10 => {
            let (e, n) = rsa(&k.pubkey).unwrap();
            sign(k.alg as u32, n, e, &m, &s.signature)
        }
        13 | 14 => {
            let mut x = vec![4];
            x.extend_from_slice(&k.pubkey);
            sign(k.alg as u32, &x, &[], &m, &s.signature)
        }
        _ => sign(k.alg as u32, &k.pubkey, &[], &m, &s.signature),
    }
}
pub fn full_sig(name: &str, key_name: &str, siglen: usize) -> RRSig {
    RRSig {
        name: nm(name),
        ty: sym_u16(),
        alg: sym_u8(),
        labels: sym_u8(),
        orig_ttl: sym_u32(),
        expiration: sym_u32(),
        inception: sym_u32(),
        key_tag: sym_u16(),
        key_name: nm(key_name),
        signature: sym_vec(siglen),
    }
}
/// Only look at the errors which are reported.
static mut ERRORS: bool = false;
fn errors(inp: &[RR]) -> bool {
    match verify_rr_stream(inp) {
        Err(ValidationError::UnsupportedAlgorithm) => {
            reach("unsupported");
            check_u(Trust::new(inp, None, false).unsupported(), "an unsupported algorithm is only reported if a zone is shown to use one");
            for c in st().calls.iter() {
                check_u(c.ok, "a bad signature is not reported as an unsupported algorithm");
            }
        }
        Err(ValidationError::Invalid) => reach("invalid"),
        Ok(_) => reach("accepted"),
    }
    false
}
/// Which error is reported, for the inputs of the harness given by the first parameter.
pub fn err_val() {
    let which = param(0);
    unsafe {
        SHIFT = 1;
        ERRORS = true;
    }
    [val_root, val_two_keys, val_names, val_ds, val_sigs, val_zone_names, err_keys][which]()
}
/// A zone with two keys, up to three DS records and a signature by each key, with any algorithms and types of digests.
pub fn err_keys() {
    reset(Mode::Free);
    let (n, w) = (param(0), param(1));
    let mut c = chain();
    st().hashes.retain(|h| h.out != [0x5a; 32]);
    st().picks = vec![(1, vec![0xa5; 20]), (2, vec![0x5a; 32])];
    register(&c.rks, &c.rk, &[c.rk.clone().into()]);
    c.ak.alg = if w & 1 != 0 { sym_u8() } else { 13 };
    let k2 = key("a.", if w & 2 != 0 { sym_u16() } else { 257 }, if w & 2 != 0 { sym_u8() } else { 3 }, sym_u8(), vec![9, 9]);
    let mut inp: Vec<RR> = vec![c.rk.clone().into(), c.rks.clone().into(), c.dss.clone().into()];
    for i in 0..n {
        let k = if choose(2) == 0 { &c.ak } else { &k2 };
        let mut d = c.ds.clone();
        d.digest_type = if i == 0 || w & 4 != 0 { sym_u8() } else { 2 };
        let (b, l) = [(0x5a, 32), (0xa5, 20)][choose(2) as usize];
        d.digest = vec![b; l];
        d.alg = if w & 8 != 0 { sym_u8() } else { k.alg };
        d.key_tag = key_tag(k);
        inp.push(d.into());
    }
    let mut s1 = sig("a.", 48, &c.ak, 1, 1000, 1700000000, 1800000000, &[3]);
    let s2 = sig("a.", 48, &k2, 1, 1000, 1700000000, 1800000000, &[4]);
    if w & 8 != 0 {
        s1.alg = sym_u8();
    }
    let (a, b): (RR, RR) = (s1.into(), s2.into());
    match choose(4) {
        0 => inp.push(a),
        1 => inp.push(b),
        2 => inp.extend([a, b]),
        _ => inp.extend([b, a]),
    }
    inp.extend([c.ak.clone().into(), k2.into(), c.txt.clone().into(), c.ts.clone().into()]);
    sound(&inp, false);
}
/// A proof which is right but for one zone which uses an algorithm that is not supported: this is what is reported.
/// params: 0 the algorithm of the key, 1 the types of all digests (as many as the second parameter says); how many zones are
/// above and below it; order.
pub fn err_complete() {
    reset(Mode::Ideal);
    let (kind, n, above, below, order) = (param(0), param(1), param(2), param(3), param(4));
    let (_, rz, mut inp) = crate::h_more::root();
    let mut parent = rz;
    let names = ["c.", "b.c.", "a.b.c.", "z.a.b.c."];
    for (i, z) in names.iter().take(above + 1 + below).enumerate() {
        let z = *z;
        let here = i == above;
        let alg = if here && kind == 0 {
            let a = sym_u8();
            assume(a != 8 && a != 10 && a != 13 && a != 14 && a != 15);
            a
        } else {
            [13, 15, 14][i % 3]
        };
        let k = key(z, 257, 3, alg, vec![1, 2, 3, i as u8]);
        let digest = vec![i as u8 + 1; 32];
        known_key(&k, 2, &digest);
        let mut dss: Vec<RR> = vec![];
        for j in 0..n {
            let t = if here && kind == 1 {
                let t = sym_u8();
                assume(t != 1 && t != 2 && t != 4);
                t
            } else {
                2
            };
            let mut digest = digest.clone();
            if j > 0 {
                digest[0] ^= j as u8;
            }
            dss.push(DS { name: nm(z), key_tag: key_tag(&k), alg, digest_type: t, digest }.into());
        }
        inp.extend(dss.iter().cloned());
        inp.push(crate::h_more::sg(z, 43, &parent, 1, &dss));
        let set: Vec<RR> = vec![k.clone().into()];
        inp.extend(set.iter().cloned());
        inp.push(crate::h_more::sg(z, 48, &k, 2, &set));
        parent = k;
    }
    let name = ["x.c.", "x.b.c.", "x.a.b.c.", "x.z.a.b.c."][above + below];
    let set: Vec<RR> = vec![A { name: nm(name), address: [1, 2, 3, 4] }.into()];
    inp.extend(set.iter().cloned());
    inp.push(crate::h_more::sg(name, 1, &parent, 3, &set));
    crate::h_more::shuffle(&mut inp, order);
    check(matches!(verify_rr_stream(&inp), Err(ValidationError::UnsupportedAlgorithm)), "an unsupported algorithm is reported");
    reach("reported");
}
/// What holds for whatever `verify_rr_stream` accepts.
pub fn sound(inp: &[RR], times: bool) -> bool {
    if unsafe { ERRORS } {
        return errors(inp);
    }
    let (c0, h0) = (st().calls.len(), st().nhash);
    let r = verify_rr_stream(inp);
    // the work is bounded by the size of the input, whatever is in it
    let count = |t: u16| inp.iter().filter(|r| ty_of(r) == t).count();
    let new = &st().calls[c0..];
    check(new.len() <= count(46), "each signature is checked at most once");
    let mut good = 1;
    for c in new.iter().take(new.len().max(1) - 1) {
        good &= c.ok;
    }
    check_u(good, "nothing is checked after a failed signature check");
    check(st().nhash - h0 <= count(48) * (count(43) + root_hints().len()) + count(46) * 2 * 2501, "few digests are computed");
    match r {
        Ok(v) => {
            reach("accepted");
            let t = Trust::new(inp, Some(&v), times);
            for r in v.verified_rrs.iter() {
                check_u(t.authentic(r), "every returned record is authenticated by a chain of signatures from a trust anchor");
                let ty = ty_of(r);
                check(ty != 46 && ty != 48 && ty != 43 && ty != 47 && ty != 50, "no key, signature or denial records are returned");
            }
            for c in st().calls.iter() {
                check_u(c.ok, "no failed signature check in an accepted proof");
            }
            check(v.valid_from < v.expires, "the validity window is not empty");
            observe(v.verified_rrs.len() as u64);
            true
        }
        Err(e) => {
            reach("rejected");
            observe(if e == ValidationError::Invalid { 101 } else { 102 });
            false
        }
    }
}
const OTHERS: [&str; 3] = [".", "a.", "b.a."];

/// The root zone's own key set and one record below it; all contents arbitrary.
pub fn val_root() {
    reset(Mode::Free);
    let pk = param(0);
    let what = param(1);
    for h in root_hints() {
        st().picks.push((2, h.digest.clone()));
    }
    let mut inp: Vec<RR> = vec![];
    let mut k = root_key();
    if what & 1 == 0 {
        known_key(&k, 2, &anchor());
    }
    let mut ks = sig(".", 48, &k, 0, 1000, 1700000000, 1800000000, &[1]);
    let txt = Txt { name: nm("a."), data: sym_vec(2) };
    let mut ts = sig("a.", 16, &k, 1, 1000, 1700000000, 1800000000, &[2]);
    if what & 1 != 0 {
        // the key
        k = key(".", sym_u16(), sym_u8(), sym_u8(), sym_vec(pk));
        ks.key_tag = sym_u16();
        ts.key_tag = sym_u16();
    }
    if what & 2 != 0 {
        // the signature over the keys
        ks = full_sig(".", OTHERS[choose(2) as usize], 1);
    }
    if what & 4 != 0 {
        // the signature over the record
        ts = full_sig(OTHERS[choose(3) as usize], OTHERS[choose(3) as usize], 1);
    }
    inp.push(k.into());
    inp.push(ks.into());
    inp.push(ts.into());
    inp.push(txt.into());
    sound(&inp, true);
}

/// Keys of some algorithm and of any length around those which are right or used as limits.
pub fn val_key_lengths() {
    reset(Mode::Free);
    const LENS: [usize; 24] = [0, 1, 2, 3, 4, 5, 31, 32, 33, 48, 56, 57, 58, 63, 64, 65, 95, 96, 97, 128, 133, 255, 256, 520];
    let (alg, n) = (param(0) as u8, LENS[choose(24) as usize]);
    let mut pk: Vec<u8> = (0..n).map(|i| i as u8 ^ 0x55).collect();
    if alg == 8 || alg == 10 {
        // an exponent of three bytes
        if n > 0 {
            pk[0] = 3;
        }
    }
    if n > 0 {
        pk[n - 1] = sym_u8();
    }
    let mut c = chain();
    c.ak = key("a.", 257, 3, alg, pk);
    known_key(&c.ak, 2, &[0x5a; 32]);
    c.ds.alg = alg;
    c.ds.key_tag = key_tag(&c.ak);
    c.aks = sig("a.", 48, &c.ak, 1, 3000, 1700000002, 1800000002, &[3]);
    c.ts = sig("x.a.", 16, &c.ak, 2, 4000, 1700000003, 1800000003, &[4]);
    sound(&c.rrs(), true);
}

/// A second root key of arbitrary kind, in either position, and a record signed by either.
pub fn val_two_keys() {
    reset(Mode::Free);
    let pk = param(0);
    let k1 = root_key();
    known_key(&k1, 2, &anchor());
    let k2 = key(".", sym_u16(), sym_u8(), sym_u8(), sym_vec(pk));
    let ks = sig(".", 48, &k1, 0, 1000, 1700000000, 1800000000, &[1]);
    let mut ts = sig("a.", 16, &k1, 1, 1000, 1700000000, 1800000000, &[2]);
    ts.alg = sym_u8();
    ts.key_tag = sym_u16();
    let txt = Txt { name: nm("a."), data: vec![7] };
    let mut inp: Vec<RR> = vec![ks.into(), ts.into(), txt.into()];
    if choose(2) == 0 {
        inp.insert(0, k1.into());
        inp.insert(0, k2.into());
    } else {
        inp.insert(0, k2.into());
        inp.insert(0, k1.into());
    }
    sound(&inp, true);
}

/// Several records in the set, in any order, with arbitrary data.
pub fn val_set() {
    reset(Mode::Free);
    let n = param(0);
    let len = param(1);
    let kind = param(2);
    let k1 = root_key();
    known_key(&k1, 2, &anchor());
    let ks = sig(".", 48, &k1, 0, 1000, 1700000000, 1800000000, &[1]);
    let mut inp: Vec<RR> = vec![k1.clone().into(), ks.into()];
    let ty = [16, 52, 2, 5][kind];
    let ts = sig("a.", ty, &k1, 1, 1000, 1700000000, 1800000000, &[2]);
    inp.push(ts.into());
    const NAMES: [&str; 6] = ["b.", "aa.b.", "ab.", "z.", "a.ab.", "ab.b."];
    for i in 0..n {
        inp.push(match kind {
            0 => Txt { name: nm("a."), data: sym_vec(if i == 0 { len } else { 1 }) }.into(),
            1 => TLSA { name: nm("a."), cert_usage: sym_u8(), selector: 1, data_ty: sym_u8(), data: sym_vec(if i == 0 { len } else { 0 }) }.into(),
            2 => NS { name: nm("a."), name_server: nm(NAMES[choose(6) as usize]) }.into(),
            _ => CName { name: nm("a."), canonical_name: nm(NAMES[choose(6) as usize]) }.into(),
        });
    }
    sound(&inp, true);
}

pub const ZN: [&str; 5] = [".", "a.", "xa.", "b.a.", "*.a."];
pub struct Chain {
    pub rk: DnsKey,
    pub rks: RRSig,
    pub ds: DS,
    pub dss: RRSig,
    pub ak: DnsKey,
    pub aks: RRSig,
    pub txt: Txt,
    pub ts: RRSig,
}
pub fn chain() -> Chain {
    let rk = root_key();
    known_key(&rk, 2, &anchor());
    let ak = key("a.", 257, 3, 13, vec![9, 8, 7, 6]);
    let digest = vec![0x5a; 32];
    known_key(&ak, 2, &digest);
    let ds = DS { name: nm("a."), key_tag: key_tag(&ak), alg: 13, digest_type: 2, digest };
    Chain {
        rks: sig(".", 48, &rk, 0, 1000, 1700000000, 1800000000, &[1]),
        dss: sig("a.", 43, &rk, 1, 2000, 1700000001, 1800000001, &[2]),
        aks: sig("a.", 48, &ak, 1, 3000, 1700000002, 1800000002, &[3]),
        ts: sig("x.a.", 16, &ak, 2, 4000, 1700000003, 1800000003, &[4]),
        txt: Txt { name: nm("x.a."), data: vec![b'h', b'i'] },
        rk,
        ds,
        ak,
    }
}
impl Chain {
    pub fn register(&self) {
        register(&self.rks, &self.rk, &[self.rk.clone().into()]);
        register(&self.dss, &self.rk, &[self.ds.clone().into()]);
        register(&self.aks, &self.ak, &[self.ak.clone().into()]);
        register(&self.ts, &self.ak, &[self.txt.clone().into()]);
    }
    pub fn rrs(&self) -> Vec<RR> {
        vec![
            self.rk.clone().into(),
            self.rks.clone().into(),
            self.ds.clone().into(),
            self.dss.clone().into(),
            self.ak.clone().into(),
            self.aks.clone().into(),
            self.txt.clone().into(),
            self.ts.clone().into(),
        ]
    }
}
/// A two-zone chain in which names are arbitrary out of a small set and every signature may or may not be valid.
pub fn val_names() {
    reset(Mode::Free);
    let which = param(0);
    let mut c = chain();
    let any = |n: u32| nm(ZN[choose(n) as usize]);
    let x = which;
    if x & 1 != 0 {
        c.ds.name = any(4);
        c.dss.name = c.ds.name.clone();
        c.dss.labels = c.dss.name.labels();
    }
    if x & 2 != 0 {
        c.dss.name = any(4);
        c.dss.key_name = any(4);
        c.dss.ty = [43, 16, 48][choose(3) as usize];
    }
    if x & 4 != 0 {
        c.ak.name = any(5);
        known_key(&c.ak, 2, &[0x5a; 32]);
    }
    if x & 8 != 0 {
        c.aks.name = any(4);
        c.aks.key_name = any(4);
        c.aks.ty = [48, 43, 16][choose(3) as usize];
    }
    if x & 16 != 0 {
        c.txt.name = any(5);
    }
    if x & 32 != 0 {
        c.ts.name = any(5);
        c.ts.key_name = any(4);
        c.ts.ty = [16, 43, 48, 46][choose(4) as usize];
        c.ts.labels = choose(4) as u8;
    }
    if x & 64 != 0 {
        // the child's key also has the tag and algorithm of the root's
        c.ak.alg = 8;
        c.ds.alg = 8;
        c.ak.pubkey = c.rk.pubkey.clone();
        c.ds.key_tag = key_tag(&c.ak);
        known_key(&c.ak, 2, &[0x5a; 32]);
    }
    sound(&c.rrs(), true);
}
/// DS records with arbitrary contents.
pub fn val_ds() {
    reset(Mode::Free);
    let n = param(0);
    let mut c = chain();
    let wild = param(1);
    st().hashes.retain(|h| h.out != [0x5a; 32]);
    st().picks = vec![(1, vec![0xa5; 20]), (2, vec![0x5a; 32])];
    register(&c.rks, &c.rk, &[c.rk.clone().into()]);
    let mut dss: Vec<RR> = vec![];
    for i in 0..n {
        let mut d = c.ds.clone();
        d.digest_type = sym_u8();
        let (b, l) = [(0xa5, 20), (0x5a, 32), (0, 0), (0xa5, 19), (0xa5, 21), (0xa5, 1), (0x5a, 31), (0x5a, 33), (0x5a, 20), (0x5a, 48), (0x5a, 64)]
            [choose(if wild & 16 != 0 { 11 } else { 3 }) as usize];
        d.digest = vec![b; l];
        if wild & 1 != 0 {
            d.alg = sym_u8();
            d.key_tag = sym_u16();
        }
        if wild & 2 != 0 && i == 0 && !d.digest.is_empty() {
            d.digest[0] = sym_u8();
            let l = d.digest.len();
            d.digest[l - 1] = sym_u8();
        }
        dss.push(d.into());
    }
    if wild & 4 != 0 {
        c.ak.flags = sym_u16();
        c.ak.protocol = sym_u8();
        c.ak.pubkey[0] = sym_u8();
    }
    if wild & 8 != 0 {
        c.dss = full_sig("a.", ".", 1);
    }
    let mut inp = c.rrs();
    inp.retain(|r| ty_of(r) != 43);
    inp.extend(dss);
    sound(&inp, true);
}
/// The signatures below the root with arbitrary contents.
pub fn val_sigs() {
    reset(Mode::Free);
    let w = param(0);
    let mut c = chain();
    if w & 1 != 0 {
        c.dss = full_sig("a.", ".", 1);
    }
    if w & 2 != 0 {
        c.aks = full_sig("a.", "a.", 1);
    }
    if w & 4 != 0 {
        c.ts = full_sig("x.a.", "a.", 1);
    }
    if w & 8 != 0 {
        c.ak = key("a.", sym_u16(), sym_u8(), sym_u8(), sym_vec(4));
        known_key(&c.ak, 2, &[0x5a; 32]);
        c.ds.alg = sym_u8();
        c.ds.key_tag = sym_u16();
    }
    sound(&c.rrs(), true);
}

/// One zone below the root under some name, and a record and signature under arbitrary names.
pub fn val_zone_names() {
    reset(Mode::Free);
    let set = param(0);
    const LISTS: [[&str; 8]; 3] = [
        ["a.", "xa.", "b.a.", "x.xa.", "a.a.", "ba.", ".", "*.a."],
        ["b.a.", "xb.a.", "b.xa.", "c.b.a.", "a.", "b.b.a.", ".", "x.xb.a."],
        ["com.", "com.com.", "xcom.", "a.xcom.", "a.com.", "m.", "om.", "."],
    ];
    let l = LISTS[set];
    let z = l[choose(3) as usize];
    let mut c = chain();
    c.ds.name = nm(z);
    c.dss.name = nm(z);
    c.dss.labels = labels(z).len() as u8;
    c.ak.name = nm(z);
    known_key(&c.ak, 2, &[0x5a; 32]);
    c.aks.name = nm(z);
    c.aks.key_name = nm(z);
    c.aks.labels = labels(z).len() as u8;
    let n = l[choose(8) as usize];
    c.txt.name = nm(n);
    c.ts.name = nm(if choose(2) == 0 { n } else { l[choose(8) as usize] });
    c.ts.key_name = nm(if choose(2) == 0 { z } else { l[choose(8) as usize] });
    c.ts.labels = sym_u8();
    c.ts.ty = [16, 43, 48, 46, 47, 50, 1][choose(7) as usize];
    sound(&c.rrs(), true);
}

/// A chain of up to three zones below each other (or beside each other), all signatures valid, records in any of
/// several orders: it is accepted, and everything in it is returned.
pub fn val_complete() {
    reset(Mode::Ideal);
    let depth = param(0);
    let order = param(1);
    let symt = param(2);
    let zs = [".", "a.", "b.a.", "c.b.a."];
    let mut keys: Vec<DnsKey> = vec![];
    let mut inp: Vec<RR> = vec![];
    let mut times: Vec<(u32, u32, u32)> = vec![];
    let mut nsig = 0u32;
    let mut t = |s: &mut RRSig| {
        if symt >> nsig & 1 != 0 {
            s.inception = sym_u32();
            s.expiration = sym_u32();
            s.orig_ttl = sym_u32();
        }
        nsig += 1;
        times.push((s.inception, s.expiration, s.orig_ttl));
    };
    for d in 0..=depth {
        let k = if d == 0 {
            let k = root_key();
            known_key(&k, 2, &anchor());
            k
        } else {
            let k = key(zs[d], 257, 3, [13, 15, 14, 13][d], vec![d as u8 + 40, 8, 7, 6]);
            let dig = vec![0x50 + d as u8; 32];
            known_key(&k, 2, &dig);
            let ds = DS { name: nm(zs[d]), key_tag: key_tag(&k), alg: k.alg, digest_type: 2, digest: dig };
            let p = &keys[d - 1];
            let mut s = sig(zs[d], 43, p, d as u8, 5000 - d as u32, 1700000000 + d as u32, 1800000000 - d as u32, &[d as u8, 43]);
            t(&mut s);
            register(&s, p, &[ds.clone().into()]);
            inp.push(ds.into());
            inp.push(s.into());
            k
        };
        let mut s = sig(zs[d], 48, &k, d as u8, 6000 - d as u32, 1700000100 + d as u32, 1800000100 - d as u32, &[d as u8, 48]);
        t(&mut s);
        register(&s, &k, &[k.clone().into()]);
        inp.push(k.clone().into());
        inp.push(s.into());
        keys.push(k);
    }
    let k = &keys[depth];
    let z = zs[depth];
    let mut want: Vec<RR> = vec![];
    let name = if depth == 0 { "x.".to_string() } else { format!("x.{}", z) };
    let n = depth as u8 + 1;
    let sets: Vec<Vec<RR>> = vec![
        vec![Txt { name: nm(&name), data: sym_vec(3) }.into()],
        vec![A { name: nm(&name), address: sym() }.into()],
        vec![NS { name: nm(&name), name_server: nm("aa.b.") }.into(), NS { name: nm(&name), name_server: nm("b.") }.into()],
        vec![
            TLSA { name: nm(&name), cert_usage: 3, selector: 1, data_ty: 2, data: vec![1, 2] }.into(),
            TLSA { name: nm(&name), cert_usage: 3, selector: 1, data_ty: 1, data: vec![9] }.into(),
            TLSA { name: nm(&name), cert_usage: 2, selector: 1, data_ty: 1, data: vec![9, 8, 7] }.into(),
        ],
        vec![CName { name: nm(&name), canonical_name: nm("y.") }.into()],
        vec![DName { name: nm(&name), delegation_name: nm("y.") }.into()],
        vec![AAAA { name: nm(&name), address: sym() }.into()],
    ];
    let pick = choose(sets.len() as u32) as usize;
    let two = choose(2) as usize;
    for (i, st) in sets.iter().enumerate() {
        if i != pick && !(two == 1 && i == (pick + 1) % sets.len()) {
            continue;
        }
        let mut s = sig(&name, ty_of(&st[0]), k, n, 7000, 1700000200, 1800000200, &[i as u8, 1]);
        t(&mut s);
        register(&s, k, st);
        inp.push(s.into());
        for r in st {
            inp.push(r.clone());
            want.push(r.clone());
        }
    }
    // the order
    let l = inp.len();
    match order {
        0 => {}
        1 => inp.reverse(),
        2 => {
            let r = choose(l as u32) as usize;
            inp.rotate_left(r);
        }
        3 => {
            let (i, j) = (choose(l as u32) as usize, choose(l as u32) as usize);
            inp.swap(i, j);
        }
        _ => {
            inp.reverse();
            let (i, j) = (choose(l as u32) as usize, choose(l as u32) as usize);
            inp.swap(i, j);
        }
    }
    let (mut from, mut to, mut ttl) = (0u64, u64::MAX, u32::MAX as u64);
    for (a, b, c) in times {
        let (a, b) = (time(a), time(b));
        from = ite(a > from, a, from);
        to = ite(b < to, b, to);
        ttl = ite((c as u64) < ttl, c as u64, ttl);
    }
    let good = from < to;
    match verify_rr_stream(&inp) {
        Ok(v) => {
            reach("accepted");
            check(good, "the window is not empty");
            check(v.valid_from == from, "valid_from is the latest inception");
            check(v.expires == to, "expires is the earliest expiration");
            check(v.max_cache_ttl as u64 == ttl, "max_cache_ttl is the lowest signed TTL");
            check(v.verified_rrs.len() == want.len(), "exactly the signed records are returned");
            for w in want.iter() {
                let mut f = 0;
                for r in v.verified_rrs.iter() {
                    if ty_of(r) == ty_of(w) && r.name() == w.name() {
                        f |= memeq(&rdata(r), &rdata(w));
                    }
                }
                check_u(f, "each signed record is returned");
            }
            check(st().calls.len() <= inp.iter().filter(|r| ty_of(r) == 46).count(), "one signature check per signature");
            observe(v.verified_rrs.len() as u64);
        }
        Err(_) => {
            reach("rejected");
            check(!good, "a correctly signed chain is accepted");
        }
    }
}
