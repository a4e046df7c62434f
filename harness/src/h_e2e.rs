//! The whole way: a model of the DNS, an honest resolver for it, the proof builder, the verifier and name resolution.
use crate::api::*;
use crate::h_misc::*;
use crate::h_more::*;
use crate::h_query::buf;
use crate::h_val::*;
use crate::h_wild::{b32_text, mask};
use crate::oracle::*;
use crate::spec::*;
use crate::trust::next_closer;
use dnssec_prover::query::*;
use dnssec_prover::rr::*;
use dnssec_prover::ser::*;
use dnssec_prover::validation::*;

struct World {
    zones: Vec<Z>,
    /// What is in the zones; owners may be wildcards.
    recs: Vec<RR>,
    /// How wildcards are denied: 0 by NSEC, 1 by NSEC3, 2 by both.
    denial: usize,
    /// The original TTL, that of one record in the first response and in the others, and of which.
    ttls: [u32; 4],
    low: u64,
    style: usize,
    /// The name has no data of this type.
    stuck: bool,
}
fn zone_of<'a>(zs: &'a [Z], n: &str) -> &'a Z {
    let mut best = &zs[0];
    for z in zs {
        if in_zone(n, z.name) && labels(z.name).len() > labels(best.name).len() {
            best = z;
        }
    }
    best
}
fn renamed(r: &RR, n: &str) -> RR {
    let mut r = r.clone();
    match &mut r {
        RR::A(x) => x.name = nm(n),
        RR::AAAA(x) => x.name = nm(n),
        RR::Txt(x) => x.name = nm(n),
        RR::TLSA(x) => x.name = nm(n),
        RR::CName(x) => x.name = nm(n),
        RR::NS(x) => x.name = nm(n),
        _ => check(false, "a record of this kind is no wildcard"),
    }
    r
}
/// What a signature of records at exactly this name says: the asterisk of a wildcard does not count.
fn own_labels(n: &str) -> usize {
    let l = labels(n);
    l.len() - (l.first() == Some(&&b"*"[..])) as usize
}
impl World {
    fn all(&self, n: &str, ty: u16) -> Vec<RR> {
        self.recs.iter().filter(|r| r.name().as_str() == n && ty_of(r) == ty).cloned().collect()
    }
    fn exists(&self, n: &str) -> bool {
        self.recs.iter().any(|r| in_zone(r.name(), n)) || self.zones.iter().any(|z| in_zone(z.name, n))
    }
    /// Signs a set which stands at a name with so many labels; the set is at `n` when it is answered.
    fn signed(&self, n: &str, lbl: usize, set: &[RR], zone: &Z) -> RR {
        let k = &zone.zsk;
        let ty = ty_of(&set[0]);
        let s = sig(n, ty, k, lbl as u8, self.ttls[0], 1700000000 + lbl as u32, 1800000000 - ty as u32, &[lbl as u8, ty as u8, set.len() as u8]);
        register(&s, k, set);
        s.into()
    }
    /// The names of the zone next to one which does not exist. There is always one after it: the last record of a zone is no proof here.
    fn around(&self, n: &str, zone: &str) -> (String, String) {
        let mut all: Vec<String> = self.recs.iter().map(|r| r.name().as_str().to_string()).chain(self.zones.iter().map(|z| z.name.to_string())).collect();
        all.push(if zone == "." { "~~~.".into() } else { "~~~.".to_string() + zone });
        // the zone's own names, and those of the zones right below it
        all.retain(|x| {
            let z = zone_of(&self.zones, x).name;
            z == zone || z == x && strictly_below(x, zone) && !self.zones.iter().any(|m| strictly_below(x, m.name) && strictly_below(m.name, zone))
        });
        let (mut from, mut to) = (zone.to_string(), String::new());
        for x in all {
            if canon_less(&x, n) && canon_less(&from, &x) {
                from = x;
            } else if canon_less(n, &x) && (to.is_empty() || canon_less(&x, &to)) {
                to = x;
            }
        }
        (from, to)
    }
    /// What a resolver has to say about a name and type: the answer, what is in the authority section, and the set asked for.
    fn answer(&mut self, name: &str, ty: u16) -> (Vec<RR>, Vec<RR>, Vec<RR>) {
        let (mut an, mut au) = (vec![], vec![]);
        let mut cur = name.to_string();
        if ty == 48 || ty == 43 {
            let z = self.zones.iter().find(|z| z.name == name).expect("only zones are asked for keys");
            let set: Vec<RR> = if ty == 48 { z.keys() } else { vec![z.ds.clone().into()] };
            an.extend(set.iter().cloned());
            if ty == 48 {
                an.push(sg(z.name, 48, &z.ksk, 1, &set));
            } else {
                let up = &labels(z.name)[1..];
                let up: String = if up.is_empty() { ".".into() } else { up.iter().map(|l| String::from_utf8(l.to_vec()).unwrap() + ".").collect() };
                an.push(sg(z.name, 43, &zone_of(&self.zones, &up).zsk, 2, &set));
            }
            return (an, au, vec![]);
        }
        for _ in 0..20 {
            let z = zone_of(&self.zones, &cur);
            let set = self.all(&cur, ty);
            if !set.is_empty() {
                an.extend(set.iter().cloned());
                an.push(self.signed(&cur, own_labels(&cur), &set, z));
                return (an, au, set);
            }
            if let Some(RR::CName(c)) = self.all(&cur, 5).into_iter().next() {
                let to = c.canonical_name.as_str().to_string();
                let set: Vec<RR> = vec![c.into()];
                an.extend(set.iter().cloned());
                an.push(self.signed(&cur, own_labels(&cur), &set, z));
                cur = to;
                continue;
            }
            let above = self.recs.iter().filter_map(|r| if let RR::DName(d) = r { Some(d) } else { None }).find(|d| strictly_below(&cur, &d.name));
            if let Some(d) = above {
                let set: Vec<RR> = vec![d.clone().into()];
                let to = cur[..cur.len() - d.name.as_str().len()].to_string() + d.delegation_name.as_str();
                // which may have been used before
                if !an.contains(&set[0]) {
                    an.extend(set.iter().cloned());
                    an.push(self.signed(&d.name, labels(&d.name).len(), &set, z));
                }
                // made up by the server and not signed
                an.push(CName { name: nm(&cur), canonical_name: nm(&to) }.into());
                cur = to;
                continue;
            }
            if self.exists(&cur) {
                self.stuck = true;
                return (an, au, vec![]);
            }
            // a wildcard below the closest name which exists
            let n = labels(&cur).len();
            let mut l = n - 1;
            while l > 0 && !self.exists(&next_closer(&cur, l - 1)) {
                l -= 1;
            }
            let closest = if l == 0 { "".to_string() } else { next_closer(&cur, l - 1) };
            let w = "*.".to_string() + &closest;
            let mut set = self.all(&w, ty);
            let alias = set.is_empty();
            if alias {
                set = self.all(&w, 5);
            }
            if set.is_empty() {
                self.stuck = true;
                return (an, au, vec![]);
            }
            let set: Vec<RR> = set.iter().map(|r| renamed(r, &cur)).collect();
            an.extend(set.iter().cloned());
            an.push(self.signed(&cur, l, &set, z));
            let nc = next_closer(&cur, l);
            if self.denial != 1 {
                let end = if closest.is_empty() { "~~~.".to_string() } else { "~~~.".to_string() + &closest };
                let (from, to) = if self.style & 8 == 0 { (w.clone(), end) } else { self.around(&nc, z.name) };
                let x: Vec<RR> = vec![NSec { name: nm(&from), next_name: nm(&to), types: mask(&[1, 16, 46, 47]) }.into()];
                let s = self.signed(&from, own_labels(&from), &x, z);
                for r in [x[0].clone(), s] {
                    if !au.contains(&r) {
                        au.push(r)
                    }
                }
            }
            if self.denial != 0 {
                let mut m = wire(&nc);
                m.extend_from_slice(b"s");
                let i = nc.bytes().fold(0, |a: u8, b| a.wrapping_mul(3).wrapping_add(b));
                let mut h = vec![i; 20];
                set_hash(1, &m, &h);
                h[19] = i.wrapping_sub(1);
                let at = if z.name == "." { b32_text(&h) + "." } else { b32_text(&h) + "." + z.name };
                h[19] = i.wrapping_add(1);
                let x: Vec<RR> = vec![NSec3 { name: nm(&at), hash_algo: 1, flags: 0, hash_iterations: 0, salt: b"s".to_vec(), next_name_hash: h, types: mask(&[1, 46]) }.into()];
                let s = self.signed(&at, labels(&at).len(), &x, z);
                for r in [x[0].clone(), s] {
                    if !au.contains(&r) {
                        au.push(r)
                    }
                }
            }
            if !alias {
                return (an, au, set);
            }
            match &set[0] {
                RR::CName(c) => cur = c.canonical_name.as_str().to_string(),
                _ => unreachable!(),
            }
        }
        self.stuck = true;
        (an, au, vec![])
    }
    /// The message in which a resolver answers a query.
    fn respond(&mut self, q: &[u8], first: bool) -> (Vec<u8>, Vec<RR>, Vec<RR>) {
        // the question
        let mut i = 12;
        let mut name = String::new();
        while q[i] != 0 {
            let l = q[i] as usize;
            name += core::str::from_utf8(&q[i + 1..i + 1 + l]).unwrap();
            name += ".";
            i += 1 + l;
        }
        if name.is_empty() {
            name = ".".into();
        }
        let ty = u16::from_be_bytes([q[i + 1], q[i + 2]]);
        let (mut an, mut au, set) = self.answer(&name, ty);
        if self.style & 1 != 0 {
            an.reverse();
        }
        let signed: Vec<RR> = an.iter().filter(|r| ty_of(r) != 46).cloned().collect();
        if self.style & 2 != 0 {
            // who serves the zone
            let z = zone_of(&self.zones, &name);
            let ns: Vec<RR> = vec![NS { name: nm(z.name), name_server: nm("ns.x.") }.into()];
            let s = self.signed(z.name, labels(z.name).len(), &ns, z);
            au.insert(0, ns[0].clone());
            au.push(s);
        }
        let mut p = vec![0, 0, 0x81, 0xa0, 0, 1, 0, an.len() as u8, 0, au.len() as u8, 0, 1];
        p.extend_from_slice(&q[12..i + 5]);
        for (j, r) in an.iter().chain(au.iter()).enumerate() {
            let ttl = if j == self.ttls[3] as usize { self.ttls[if first { 1 } else { 2 }] } else { 3600 + j as u32 };
            if !(j >= an.len() && (ty_of(r) == 2 || matches!(r, RR::RRSig(s) if s.ty == 2))) {
                self.low = umin(self.low, ttl as u64);
            }
            let mut o = vec![];
            write_rr(r, ttl, &mut o);
            if self.style & 4 != 0 && r.name().as_str() == name {
                // the owner is the name in the question
                p.extend_from_slice(&[0xc0, 12]);
                p.extend_from_slice(&o[wire(&name).len()..]);
            } else {
                p.extend_from_slice(&o);
            }
        }
        p.extend_from_slice(&[0, 0, 41, 4, 208, 0, 0, 128, 0, 0, 0]);
        (p, signed, set)
    }
}
fn umin(a: u64, b: u64) -> u64 {
    ite(a < b, a, b)
}
const ALGS: [u8; 5] = [13, 8, 15, 14, 10];
/// params: the world, which of the following a resolver does (1 turn the records around, 2 add name servers, 4 point to the name
/// in the question), how wildcards are denied, which of the records in each response has any TTL
pub fn e2e() {
    let (which, style, denial) = (param(0), param(1), param(2));
    reset(Mode::Ideal);
    let (rk, rz, _) = root();
    let mut w = World { zones: vec![], recs: vec![], denial, ttls: [sym_u32(), sym_u32(), sym_u32(), param(3) as u32], low: u32::MAX as u64, style, stuck: false };
    w.zones.push(Z { name: ".", ds: DS { name: nm("."), key_tag: 0, alg: 8, digest_type: 2, digest: vec![] }, ksk: rk, zsk: rz });
    let a = |n: &str| -> RR { A { name: nm(n), address: sym() }.into() };
    let txt = |n: &str, l: usize| -> RR { Txt { name: nm(n), data: { let mut d = vec![b'x'; l]; if l > 0 { d[l - 1] = sym_u8() }; d } }.into() };
    let cn = |n: &str, t: &str| -> RR { CName { name: nm(n), canonical_name: nm(t) }.into() };
    let dn = |n: &str, t: &str| -> RR { DName { name: nm(n), delegation_name: nm(t) }.into() };
    let tlsa = |n: &str| -> RR { TLSA { name: nm(n), cert_usage: 3, selector: 1, data_ty: 1, data: sym_vec(4) }.into() };
    let (zones, recs, name, ty): (&[&'static str], Vec<RR>, &str, u16) = match which {
        0 => (&[], vec![a("x.")], "x.", 1),
        1 => (&["a."], vec![a("x.a.")], "x.a.", 1),
        2 => (&["a.", "b.a."], vec![txt("x.b.a.", 3), a("x.b.a.")], "x.b.a.", 16),
        3 => (&["a.", "b.a.", "c.b.a."], vec![tlsa("_443._tcp.x.c.b.a.")], "_443._tcp.x.c.b.a.", 52),
        4 => (&["a.", "b.a.", "c.b.a.", "d.c.b.a."], vec![txt("user._bitcoin.d.c.b.a.", 300)], "user._bitcoin.d.c.b.a.", 16),
        5 => (&["a."], vec![cn("x.a.", "y.a."), a("y.a.")], "x.a.", 1),
        6 => (&["a.", "c.", "b.c."], vec![cn("x.a.", "y.b.c."), txt("y.b.c.", 1)], "x.a.", 16),
        7 => (&["a.", "c."], vec![dn("d.a.", "e.c."), a("x.e.c.")], "x.d.a.", 1),
        8 => (&["a.", "b.a."], vec![txt("*.b.a.", 5)], "x.b.a.", 16),
        9 => (&["a."], vec![txt("*.a.", 5)], "x.y.z.a.", 16),
        10 => (&["a.", "c."], vec![cn("*.a.", "t.c."), a("t.c.")], "q.a.", 1),
        11 => (&["a.", "c."], vec![cn("x.a.", "y.z.c."), txt("*.c.", 2)], "x.a.", 16),
        12 => (&["a."], vec![txt("a.", 0)], "a.", 16),
        13 => (&["a.", "b.a."], vec![cn("x.b.a.", "x1.b.a."), cn("x1.b.a.", "x2.a."), cn("x2.a.", "x3.b.a."), cn("x3.b.a.", "."), txt(".", 9)], "x.b.a.", 16),
        14 => (&["a."], vec![AAAA { name: nm("x.a."), address: { let mut a: [u8; 16] = sym(); a[3] = 9; a } }.into(), AAAA { name: nm("x.a."), address: [7; 16] }.into(), AAAA { name: nm("x.a."), address: [0; 16] }.into()], "x.a.", 28),
        15 => (&["a.", "b.a."], vec![cn("*.a.", "q.b.a."), cn("*.b.a.", "r.s.a."), tlsa("r.s.a.")], "n.m.a.", 52),
        16 => (&["a."], vec![NS { name: nm("a."), name_server: nm("ns1.a.") }.into(), NS { name: nm("a."), name_server: nm("b.ns.c.") }.into()], "a.", 2),
        17 => (&["a.", "c."], vec![cn("x.a.", "y.c."), a("y.c.")], "x.a.", 5),
        18 => (&["a."], vec![dn("d.a.", "e.a."), dn("e.a.", "f.a."), txt("x.y.f.a.", 255)], "x.y.d.a.", 16),
        19 => (&["z.a."], vec![a("x.z.a.")], "x.z.a.", 1),
        20 => (&["a.", "aa.", "a.aa."], vec![cn("x.a.", "x.a.aa."), cn("x.a.aa.", "x.aa."), a("x.aa.")], "x.a.", 1),
        21 => (&["a."], vec![dn("a.", "x.c."), a("b.x.c.")], "b.a.", 1),
        23 => (&["a."], vec![txt("*.a.", 4), txt("x.a.", 1)], "*.a.", 16),
        24 => (&["a.", "c."], vec![cn("*.b.a.", "*.c."), a("*.c.")], "*.b.a.", 1),
        25 => (&["a.", "c."], vec![cn("x.a.", "*.c."), tlsa("*.c.")], "x.a.", 52),
        26 => (&["a."], vec![cn("*.", "*.y.a."), a("*.y.a.")], "*.", 1),
        _ => (&["a."], vec![txt("*.x.a.", 2), txt("*.a.", 3), a("b.x.a.")], "c.x.a.", 16),
    };
    add_zones(&mut w, zones, which);
    w.recs = recs;
    run(w, name, ty, true);
}
fn add_zones(w: &mut World, zones: &[&'static str], which: usize) {
    for (i, z) in zones.iter().enumerate() {
        let (n, alg) = (i as u8 + 1, ALGS[(i + which) % 5]);
        let pk = |x: u8| if alg == 8 || alg == 10 { vec![1, 3, n, x, n] } else { vec![n, x, 5, 6] };
        let (ksk, zsk) = (key(z, 257, 3, alg, pk(1)), key(z, 256, 3, alg, pk(9)));
        let digest = vec![n; 32];
        known_key(&ksk, 2, &digest);
        w.zones.push(Z { name: z, ds: DS { name: nm(z), key_tag: key_tag(&ksk), alg, digest_type: 2, digest }, ksk, zsk });
    }
}
/// The builder asks, the model answers.
fn run(mut w: World, name: &str, ty: u16, any_order: bool) {
    let (mut b, first) = ProofBuilder::new(&nm(name), ty);
    let mut pending = vec![first];
    let mut asked: Vec<Vec<u8>> = vec![];
    let (mut signed, mut want): (Vec<RR>, Vec<RR>) = (vec![], vec![]);
    let mut n = 0;
    while !pending.is_empty() {
        check(b.awaiting_responses(), "responses are awaited while there are queries");
        let at = if pending.len() == 1 || !any_order { 0 } else { choose(pending.len() as u32) as usize };
        let q = pending.remove(at).to_vec();
        check(!asked.contains(&q), "nothing is asked twice");
        let (p, s, set) = w.respond(&q, n == 0);
        if w.stuck {
            return;
        }
        asked.push(q);
        if n == 0 {
            (signed, want) = (s, set);
        }
        match b.process_response(&buf(&p)) {
            Ok(more) => pending.extend(more),
            Err(()) => check(false, "an honest response is accepted"),
        }
        n += 1;
    }
    check(!b.awaiting_responses(), "no responses are awaited when all queries are answered");
    let (proof, ttl) = b.finish_proof().ok().unwrap_or_default();
    check(!proof.is_empty(), "honest responses make a proof");
    check(ttl as u64 == w.low, "the TTL is the lowest of the records in the proof");
    let inp = parse_rr_stream(&proof).unwrap_or_default();
    check(!inp.is_empty(), "a proof can be parsed");
    match verify_rr_stream(&inp) {
        Ok(v) => {
            reach("proved");
            let synth = |r: &RR| matches!(r, RR::CName(c) if ty_of(r) == 5 && !w.recs.iter().any(|x| x == r || (ty_of(x) == 5 && x.name().as_str().starts_with("*.") && matches!(x, RR::CName(y) if y.canonical_name == c.canonical_name))));
            for r in signed.iter() {
                check(synth(r) || v.verified_rrs.iter().any(|x| *x == r), "every signed record of the answer is verified");
            }
            check(v.verified_rrs.iter().all(|x| signed.contains(x)), "nothing but the answer is verified");
            if ty != 5 {
                let got = v.resolve_name(&nm(name));
                check(got.len() == want.len() && want.iter().all(|x| got.contains(&x)), "the name resolves to what was asked for");
            }
            check(v.valid_from >= 1700000000 && v.expires <= 1800000000 && v.expires > 1799000000, "the time is that of the signatures");
            check_u(le64(v.max_cache_ttl as u64, w.ttls[0] as u64), "the cache lifetime is at most the original TTL");
        }
        Err(_) => check(false, "a proof from honest responses is accepted"),
    }
}
/// Any short way through the DNS: each name on it has the data itself, is an alias, is below a DNAME, or comes from a wildcard at any level.
/// params: the zones, as `style` and `denial` above (and 8: denials are the names next to the one which does not exist), the steps
pub fn e2e_walk() {
    let (zs, style, denial, depth) = (param(0), param(1), param(2), param(3));
    reset(Mode::Ideal);
    let (rk, rz, _) = root();
    let mut w = World { zones: vec![], recs: vec![], denial, ttls: [3600, 3600, 3600, 0], low: u32::MAX as u64, style, stuck: false };
    w.zones.push(Z { name: ".", ds: DS { name: nm("."), key_tag: 0, alg: 8, digest_type: 2, digest: vec![] }, ksk: rk, zsk: rz });
    let zones: &[&'static str] = [&["a.", "b.a.", "c."][..], &["a.", "c."], &["a.", "b.a."], &["b.a.", "c."], &["a.", "b.a.", "q.b.a.", "c."], &["a."]][zs];
    add_zones(&mut w, zones, zs);
    let name = ["x.a.", "x.y.a.", "x.b.a.", "x.c."][choose(4) as usize];
    let mut cur = name.to_string();
    let mut leaf = false;
    for step in 0..depth {
        let n = labels(&cur).len();
        // itself, or a wildcard, or a DNAME, somewhere above
        let o = choose((1 + n + n - 1) as u32) as usize;
        let up = |l: usize| if l == 0 { "".to_string() } else { next_closer(&cur, l - 1) };
        let owner = if o == 0 { cur.clone() } else if o <= n { "*.".to_string() + &up(o - 1) } else { up(o - n) };
        if w.recs.iter().any(|r| r.name().as_str() == owner) {
            return;
        }
        if o > n {
            let to = ["c.", "b.a."][choose(2) as usize];
            if in_zone(to, &owner) || w.recs.iter().any(|r| in_zone(r.name(), &owner)) {
                return;
            }
            w.recs.push(DName { name: nm(&owner), delegation_name: nm(to) }.into());
            cur = cur[..cur.len() - owner.len()].to_string() + to;
        } else if step + 1 < depth && choose(2) == 1 {
            let to = ["y.a.", "z.b.a.", "w.c.", "p.q.b.a."][choose(4) as usize];
            w.recs.push(CName { name: nm(&owner), canonical_name: nm(to) }.into());
            cur = to.to_string();
        } else {
            w.recs.push(Txt { name: nm(&owner), data: vec![step as u8, 7] }.into());
            w.recs.push(Txt { name: nm(&owner), data: vec![step as u8, 3] }.into());
            leaf = true;
            break;
        }
    }
    // nothing is below a DNAME
    let below = w.recs.iter().any(|d| matches!(d, RR::DName(_)) && (w.recs.iter().any(|r| strictly_below(r.name(), d.name())) || w.zones.iter().any(|z| strictly_below(z.name, d.name()))));
    if !leaf || below {
        return;
    }
    run(w, name, 16, false);
}
