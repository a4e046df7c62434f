//! What makes a record returned by `verify_rr_stream` authentic, stated over the signature checks and digests that
//! the code actually asked for. Everything returned is 0 or 1 (possibly symbolic), nothing here forks on content.
use crate::api::*;
use crate::oracle::*;
use crate::spec::*;
use dnssec_prover::rr::*;
use dnssec_prover::validation::*;

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}
/// `msg` is what an RRSIG `s` signs for the records `set` owned by `owner`.
pub fn msg_is(msg: &[u8], s: &RRSig, owner: &[u8], set: &[Vec<u8>]) -> u32 {
    let mut r = 0;
    for p in perms(set.len()) {
        let ds: Vec<&[u8]> = p.iter().map(|i| &set[*i][..]).collect();
        let m = signed_msg(s, owner, &ds);
        if m.len() != msg.len() {
            return 0;
        }
        let mut ok = memeq(&m, msg);
        for w in ds.windows(2) {
            ok &= 1 ^ lex_less(w[1], w[0]);
        }
        r |= ok;
    }
    r
}
fn key_of(alg: u32, k: &DnsKey, c: &VCall) -> u32 {
    match alg {
        8 | 10 => match rsa(&k.pubkey) {
            Some((e, n)) => memeq(e, &c.exp) & memeq(n, &c.key),
            None => 0,
        },
        13 | 14 => {
            let mut x = vec![4];
            x.extend_from_slice(&k.pubkey);
            memeq(&x, &c.key) & (c.exp.is_empty() as u32)
        }
        15 => memeq(&k.pubkey, &c.key) & (c.exp.is_empty() as u32),
        _ => 0,
    }
}
pub fn key_usable(s: &RRSig, k: &DnsKey) -> u32 {
    eq64(s.alg as u64, k.alg as u64) & eq64(s.key_tag as u64, key_tag(k) as u64) & eq64(k.protocol as u64, 3) & (k.flags as u32 >> 8) & 1
}
/// A signature check by `k` for `s` over exactly `set` was made and succeeded, the key was one that may be used, and the
/// label count of the signature is `lbl`.
pub fn sig_ok(s: &RRSig, k: &DnsKey, set: &[&RR], owner: &str, lbl: usize) -> u32 {
    let u = key_usable(s, k) & eq64(s.labels as u64, lbl as u64);
    if zero(u) {
        return 0;
    }
    let o = if s.ty == 47 { wire(owner) } else { signed_owner(owner, lbl) };
    let set: Vec<Vec<u8>> = set.iter().map(|r| rdata(r)).collect();
    let mut r = 0;
    for c in st().calls.iter() {
        if c.sig.len() == s.signature.len() {
            r |= c.ok & eq64(c.alg as u64, s.alg as u64) & key_of(c.alg, k, c) & memeq(&c.sig, &s.signature) & msg_is(&c.msg, s, &o, &set);
        }
    }
    r & u
}
pub fn ds_ok(k: &DnsKey, dss: &[&DS]) -> u32 {
    let mut strong = 0;
    for d in dss {
        strong |= eq64(d.digest_type as u64, 2) | eq64(d.digest_type as u64, 4);
    }
    let mut m = wire(&k.name);
    m.extend_from_slice(&rdata(&RR::DnsKey(k.clone())));
    let tag = key_tag(k);
    let mut r = 0;
    for d in dss {
        let a = eq64(d.alg as u64, k.alg as u64) & eq64(d.key_tag as u64, tag as u64);
        for h in st().hashes.iter() {
            let t = match h.alg {
                1 => eq64(d.digest_type as u64, 1) & (1 ^ strong),
                2 => eq64(d.digest_type as u64, 2),
                _ => 0,
            };
            r |= a & t & memeq(&h.msg, &m) & memeq(&h.out, &d.digest);
        }
    }
    r
}
pub struct Trust<'a> {
    pub inp: &'a [RR],
    pub v: Option<&'a VerifiedRRStream<'a>>,
    pub zones: Vec<(String, u32)>,
    /// also require the reported validity window and TTL to account for every signature used
    pub times: bool,
}
impl<'a> Trust<'a> {
    pub fn new(inp: &'a [RR], v: Option<&'a VerifiedRRStream<'a>>, times: bool) -> Trust<'a> {
        let mut t = Trust { inp, v, zones: vec![], times };
        let mut zs: Vec<String> = vec![".".to_string()];
        for r in inp {
            if let RR::DnsKey(k) = r {
                if !zs.iter().any(|z| z.as_str() == k.name.as_str()) {
                    zs.push(k.name.as_str().to_string());
                }
            }
        }
        zs.sort_by_key(|z| labels(z).len());
        let hints = root_hints();
        for z in zs {
            let tr = if z == "." {
                let h: Vec<&DS> = hints.iter().collect();
                t.keys_ok(&z, &h)
            } else {
                let dss: Vec<&RR> = t.set(&z, 43);
                let d: Vec<&DS> = dss.iter().map(|r| if let RR::DS(d) = r { d } else { unreachable!() }).collect();
                if d.is_empty() {
                    0
                } else {
                    let mut up = 0;
                    for (p, pt) in t.zones.iter() {
                        if strictly_below(&z, p) && !zero(*pt) {
                            up |= pt & t.signed_by(&z, 43, p, false);
                        }
                    }
                    up & t.keys_ok(&z, &d)
                }
            };
            t.zones.push((z, tr));
        }
        t
    }
    pub fn set(&self, name: &str, ty: u16) -> Vec<&'a RR> {
        let mut r: Vec<&'a RR> = vec![];
        for x in self.inp.iter() {
            if x.name().as_str() == name && ty_of(x) == ty {
                r.push(x)
            }
        }
        r
    }
    fn sigs(&self) -> impl Iterator<Item = &'a RRSig> {
        self.inp.iter().filter_map(|r| if let RR::RRSig(s) = r { Some(s) } else { None })
    }
    fn keys(&self, z: &str) -> Vec<&'a DnsKey> {
        let mut v: Vec<&'a DnsKey> = vec![];
        for r in self.inp {
            if let RR::DnsKey(k) = r {
                if k.name.as_str() == z {
                    v.push(k)
                }
            }
        }
        v
    }
    fn in_time(&self, s: &RRSig) -> u32 {
        match self.v {
            Some(v) if self.times => le64(time(s.inception), v.valid_from) & le64(v.expires, time(s.expiration)) & le64(v.max_cache_ttl as u64, s.orig_ttl as u64),
            _ => 1,
        }
    }
    fn keys_ok(&self, z: &str, dss: &[&DS]) -> u32 {
        let ks = self.keys(z);
        let set = self.set(z, 48);
        let mut r = 0;
        for s in self.sigs() {
            let ty = eq64(s.ty as u64, 48);
            if s.name.as_str() != z || zero(ty) {
                continue;
            }
            for k in ks.iter() {
                let d = ds_ok(k, dss) & ty;
                if zero(d) {
                    continue;
                }
                for l in 0..=labels(z).len() {
                    r |= d & sig_ok(s, k, &set, z, l) & self.in_time(s);
                }
            }
        }
        r
    }
    /// All records of this name and type are signed by the zone (which is not itself checked here).
    pub fn signed_by(&self, name: &str, ty: u16, zone: &str, wildcard: bool) -> u32 {
        if !in_zone(name, zone) {
            return 0;
        }
        let set = self.set(name, ty);
        let n = labels(name).len();
        let mut r = 0;
        for s in self.sigs() {
            let te = eq64(s.ty as u64, ty as u64);
            if s.name.as_str() != name || s.key_name.as_str() != zone || zero(te) {
                continue;
            }
            for k in self.keys(zone) {
                if ty == 47 {
                    // the name of an NSEC record is never a wildcard's expansion
                    for l in 0..=n {
                        r |= te & sig_ok(s, k, &set, name, l) & self.in_time(s);
                    }
                    continue;
                }
                r |= te & sig_ok(s, k, &set, name, n) & self.in_time(s);
                if wildcard && ty != 43 && ty != 50 {
                    // the wildcard itself, not expanded
                    let own = labels(name).first() == Some(&&b"*"[..]);
                    if own {
                        r |= te & sig_ok(s, k, &set, name, n - 1) & self.in_time(s);
                    }
                    for l in 0..n - own as usize {
                        let ok = te & sig_ok(s, k, &set, name, l) & self.in_time(s);
                        if zero(ok) {
                            continue;
                        }
                        let nc = next_closer(name, l);
                        r |= ok & self.denied(&nc, zone);
                    }
                }
            }
        }
        r
    }
    /// The zone proved that nothing exists at or below `name`.
    pub fn denied(&self, name: &str, zone: &str) -> u32 {
        let mut r = 0;
        for x in self.inp {
            match x {
                RR::NSec(n) => {
                    if canon_less(&n.name, name) && canon_less(name, &n.next_name) && !in_zone(&n.next_name, name) {
                        r |= self.signed_by(&n.name, 47, zone, false);
                    }
                }
                RR::NSec3(n) => {
                    let ls = labels(&n.name);
                    if ls.is_empty() || ls[1..] != labels(zone)[..] {
                        continue;
                    }
                    let start = match b32(ls[0]) {
                        Some(s) if s.len() == 20 => s,
                        _ => continue,
                    };
                    if n.next_name_hash.len() != 20 {
                        continue;
                    }
                    let h = nsec3_hash(name, n.hash_iterations, &n.salt);
                    let h = match h {
                        Some(h) => h,
                        None => continue,
                    };
                    r |= eq64(n.hash_algo as u64, 1) & eq64(n.flags as u64, 0) & le64(n.hash_iterations as u64, 2500)
                        & covers(&start, &h, &n.next_name_hash)
                        & self.signed_by(&n.name, 50, zone, false);
                }
                _ => {}
            }
        }
        r
    }
    /// The DS records of the zone, if they are authentic.
    fn delegated(&self, z: &str) -> (u32, Vec<&'a DS>) {
        let mut v: Vec<&'a DS> = vec![];
        for r in self.inp {
            if let RR::DS(d) = r {
                if d.name.as_str() == z {
                    v.push(d)
                }
            }
        }
        let mut up = 0;
        for (p, pt) in self.zones.iter() {
            if strictly_below(z, p) && !zero(*pt) && !v.is_empty() {
                up |= pt & self.signed_by(z, 43, p, false);
            }
        }
        (up, v)
    }
    /// Some zone is shown to have chosen an algorithm which is not supported: all its authentic DS records have digests which
    /// are not supported, or one of them is for a key with such an algorithm, with which the keys of the zone are signed.
    pub fn unsupported(&self) -> u32 {
        let mut zs: Vec<&str> = vec![];
        for r in self.inp {
            if let RR::DS(d) = r {
                if d.name.as_str() != "." && !zs.contains(&d.name.as_str()) {
                    zs.push(d.name.as_str())
                }
            }
        }
        let mut r = 0;
        for z in zs {
            let (up, dss) = self.delegated(z);
            if zero(up) {
                continue;
            }
            let mut none = 1;
            for d in dss.iter() {
                for t in [1, 2, 4] {
                    none &= 1 ^ eq64(d.digest_type as u64, t);
                }
            }
            r |= up & none;
            for k in self.keys(z) {
                let mut strange = ds_ok(k, &dss);
                for a in [8, 10, 13, 14, 15] {
                    strange &= 1 ^ eq64(k.alg as u64, a);
                }
                if zero(strange) {
                    continue;
                }
                for s in self.sigs() {
                    if s.name.as_str() == z {
                        r |= up & strange & eq64(s.ty as u64, 48) & key_usable(s, k);
                    }
                }
            }
        }
        r
    }
    pub fn trusted(&self, zone: &str) -> u32 {
        self.zones.iter().find(|z| z.0 == zone).map(|z| z.1).unwrap_or(0)
    }
    /// The record is authentic.
    pub fn authentic(&self, r: &RR) -> u32 {
        let mut ok = 0;
        for (z, t) in self.zones.iter() {
            if zero(*t) {
                continue;
            }
            ok |= t & self.signed_by(r.name(), ty_of(r), z, true);
        }
        ok
    }
}
/// The name one label longer than the last `l` labels of `name`.
pub fn next_closer(name: &str, l: usize) -> String {
    let ls = labels(name);
    let mut s = String::new();
    for x in &ls[ls.len() - l - 1..] {
        s += core::str::from_utf8(x).unwrap();
        s += ".";
    }
    s
}
/// base32hex without padding, only zero bits left over are not required.
pub fn b32(l: &[u8]) -> Option<Vec<u8>> {
    let mut acc = 0u32;
    let mut n = 0;
    let mut o = vec![];
    for c in l {
        let v = match *c {
            c @ b'0'..=b'9' => c - b'0',
            c @ b'a'..=b'v' => c - b'a' + 10,
            c @ b'A'..=b'V' => c - b'A' + 10,
            _ => return None,
        };
        acc = (acc << 5) | v as u32;
        n += 5;
        if n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    Some(o)
}
/// RFC 5155 section 5, from the digests computed so far.
pub fn nsec3_hash(name: &str, iterations: u16, salt: &[u8]) -> Option<Vec<u8>> {
    let mut m = wire(name);
    m.extend_from_slice(salt);
    let mut i = 0;
    loop {
        let h = st().hashes.iter().find(|h| h.alg == 1 && h.msg.len() == m.len() && memeq(&h.msg, &m) != 0)?.out.clone();
        if i == iterations {
            return Some(h);
        }
        i += 1;
        m = h;
        m.extend_from_slice(salt);
    }
}
