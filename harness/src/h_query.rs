//! Queries, responses and the proof builder.
use crate::api::*;
use crate::spec::*;
use dnssec_prover::query::*;
use dnssec_prover::rr::*;

fn be16(o: &mut Vec<u8>, v: u16) {
    o.extend_from_slice(&v.to_be_bytes());
}
pub fn buf(b: &[u8]) -> QueryBuf {
    let mut q = QueryBuf::new_zeroed(b.len() as u16);
    q.copy_from_slice(b);
    q
}
/// The text of the name at `pos`, and where what follows it is. Reads up to `end` until there is a pointer.
fn name_in(pkt: &[u8], mut pos: usize, end: usize) -> Option<(Vec<u8>, usize)> {
    let mut lim = end;
    let mut next = None;
    let mut jumps = 0;
    let mut o: Vec<u8> = vec![];
    loop {
        if pos >= lim {
            return None;
        }
        let l = pkt[pos];
        if l == 0 {
            pos += 1;
            break;
        }
        if l >= 0xc0 {
            if pos + 1 >= lim || jumps == 127 {
                return None;
            }
            let off = (l as usize & 0x3f) << 8 | pkt[pos + 1] as usize;
            if off >= pkt.len() {
                return None;
            }
            jumps += 1;
            if next.is_none() {
                next = Some(pos + 2);
            }
            pos = concretize(off as u64) as usize;
            lim = pkt.len();
            continue;
        }
        if l > 63 || pos + 1 + l as usize >= lim {
            return None;
        }
        let l = concretize(l as u64) as usize;
        for c in &pkt[pos + 1..pos + 1 + l] {
            if *c < 0x21 || *c > 0x7e || *c == b'"' || *c == b'.' {
                return None;
            }
            o.push(if *c >= b'A' && *c <= b'Z' { *c + 32 } else { *c });
        }
        o.push(b'.');
        if o.len() > 255 {
            return None;
        }
        pos += 1 + l;
    }
    if o.is_empty() {
        o.push(b'.');
    }
    Some((o, next.unwrap_or(pos)))
}
/// The uncompressed form of a name, from its text.
fn wire_text(t: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    if t.len() > 1 {
        let mut start = 0;
        for i in 0..t.len() {
            if t[i] == b'.' {
                o.push((i - start) as u8);
                o.extend_from_slice(&t[start..i]);
                start = i + 1;
            }
        }
    }
    o.push(0);
    o
}
fn bitmap_ok(b: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    let mut last: Option<u8> = None;
    while i < b.len() {
        if i + 2 > b.len() || b[i + 1] == 0 || b[i + 1] > 32 || i + 2 + b[i + 1] as usize > b.len() {
            return None;
        }
        let l = b[i + 1] as usize;
        if let Some(p) = last {
            // (windows out of order are not looked at here)
            assume(p < b[i]);
        }
        last = Some(b[i]);
        let w = &b[i + 2..i + 2 + l];
        // trailing zeros are not canonical
        let mut k = l;
        while k > 0 && w[k - 1] == 0 {
            k -= 1;
        }
        if k > 0 {
            o.push(b[i]);
            o.push(k as u8);
            o.extend_from_slice(&w[..k]);
        }
        i += 2 + l;
    }
    Some(o)
}
struct Rec {
    ty: u16,
    ttl: u32,
    covers: u16,
    /// Text of the signer's name, for RRSIGs.
    signer: Option<Vec<u8>>,
    /// The canonical encoding.
    wire: Vec<u8>,
}
fn rec_in(pkt: &[u8], pos: usize) -> Option<(Rec, usize)> {
    let (owner, p) = name_in(pkt, pos, pkt.len())?;
    if p + 10 > pkt.len() {
        return None;
    }
    let ty = u16::from_be_bytes([pkt[p], pkt[p + 1]]);
    if pkt[p + 2] != 0 || pkt[p + 3] != 1 {
        return None;
    }
    let ttl = u32::from_be_bytes([pkt[p + 4], pkt[p + 5], pkt[p + 6], pkt[p + 7]]);
    let l = u16::from_be_bytes([pkt[p + 8], pkt[p + 9]]) as usize;
    let s = p + 10;
    if l > pkt.len() - s {
        return None;
    }
    let l = concretize(l as u64) as usize;
    let e = s + l;
    let d = &pkt[s..e];
    let mut covers = 0;
    let mut signer = None;
    let mut data = vec![];
    match ty {
        1 if l == 4 => data.extend_from_slice(d),
        28 if l == 16 => data.extend_from_slice(d),
        2 | 5 | 39 => {
            let (n, q) = name_in(pkt, s, e)?;
            if q != e {
                return None;
            }
            data = wire_text(&n);
        }
        16 => {
            let mut t = vec![];
            let mut i = 0;
            while i < l {
                let k = d[i] as usize;
                if k > l - i - 1 {
                    return None;
                }
                t.extend_from_slice(&d[i + 1..i + 1 + k]);
                i += 1 + k;
            }
            loop {
                let k = t.len().min(255);
                data.push(k as u8);
                data.extend(t.drain(..k));
                if t.is_empty() {
                    break;
                }
            }
        }
        52 if l >= 3 => data.extend_from_slice(d),
        43 | 48 if l >= 4 => data.extend_from_slice(d),
        46 => {
            if l < 18 {
                return None;
            }
            covers = u16::from_be_bytes([d[0], d[1]]);
            let (n, q) = name_in(pkt, s + 18, e)?;
            data.extend_from_slice(&d[..18]);
            data.extend_from_slice(&wire_text(&n));
            data.extend_from_slice(&pkt[q..e]);
            signer = Some(n);
        }
        47 => {
            let (n, q) = name_in(pkt, s, e)?;
            data = wire_text(&n);
            data.extend_from_slice(&bitmap_ok(&pkt[q..e])?);
        }
        50 => {
            if l < 5 {
                return None;
            }
            let sl = d[4] as usize;
            if 6 + sl > l {
                return None;
            }
            let hl = d[5 + sl] as usize;
            if 6 + sl + hl > l {
                return None;
            }
            data.extend_from_slice(&d[..6 + sl + hl]);
            data.extend_from_slice(&bitmap_ok(&d[6 + sl + hl..])?);
        }
        _ => return None,
    }
    let mut w = wire_text(&owner);
    be16(&mut w, ty);
    be16(&mut w, 1);
    w.extend_from_slice(&ttl.to_be_bytes());
    be16(&mut w, data.len() as u16);
    w.extend_from_slice(&data);
    Some((Rec { ty, ttl, covers, signer, wire: w }, e))
}
struct Resp {
    wire: Vec<u8>,
    ttl: u32,
    signers: Vec<Vec<u8>>,
}
/// What a response adds to the proof, or `None` if it is not an acceptable answer.
fn response(p: &[u8]) -> Option<Resp> {
    if p.len() < 12 || p[0] != 0 || p[1] != 0 {
        return None;
    }
    // a response, standard query, not truncated, authentic data, no error
    if p[2] & 0b1111_1010 != 0b1000_0000 || p[3] & 0b0010_1111 != 0b0010_0000 {
        return None;
    }
    let n = |i: usize| u16::from_be_bytes([p[i], p[i + 1]]);
    let (qd, an, ns) = (n(4), n(6), n(8));
    if qd != 1 || an == 0 {
        return None;
    }
    let (_, mut pos) = name_in(p, 12, p.len())?;
    pos += 4;
    if pos > p.len() {
        return None;
    }
    let mut r = Resp { wire: vec![], ttl: u32::MAX, signers: vec![] };
    let mut i = 0u32;
    while i < an as u32 + ns as u32 {
        let (x, e) = rec_in(p, pos)?;
        pos = e;
        let keep = i < an as u32 || x.ty == 47 || x.ty == 50 || (x.ty == 46 && (x.covers == 47 || x.covers == 50));
        if keep {
            r.wire.extend_from_slice(&x.wire);
            r.ttl = ite(x.ttl < r.ttl, x.ttl as u64, r.ttl as u64) as u32;
            if let Some(s) = x.signer {
                r.signers.push(s);
            }
        }
        i += 1;
    }
    Some(r)
}
fn query(name: &[u8], ty: u16) -> Vec<u8> {
    let mut q = vec![0, 0, 1, 0x20, 0, 1, 0, 0, 0, 0, 0, 1];
    q.extend_from_slice(&wire_text(name));
    be16(&mut q, ty);
    be16(&mut q, 1);
    q.extend_from_slice(&[0, 0, 41, 0, 0, 0, 0, 0x80, 0, 0, 0]);
    q
}
const MAX: usize = 10;
/// What the builder has to do.
pub struct Model {
    proof: Vec<u8>,
    ttl: u32,
    asked: Vec<Vec<u8>>,
    pending: usize,
    made: usize,
    done: bool,
}
impl Model {
    fn new() -> Self {
        Model { proof: vec![], ttl: u32::MAX, asked: vec![], pending: 1, made: 1, done: false }
    }
    /// Feeds both with a response; the queries it led to.
    fn step(&mut self, b: &mut ProofBuilder, resp: &[u8]) -> Vec<(Vec<u8>, u16)> {
        check(b.awaiting_responses() == (self.pending > 0 && self.made <= MAX), "responses are awaited while there are queries without one");
        let got = b.process_response(&buf(resp));
        let want = if self.pending == 0 { None } else { response(resp) };
        let mut new = vec![];
        match (got, want) {
            (Err(()), None) => reach("rejected"),
            (Ok(q), Some(r)) => {
                reach("accepted");
                self.pending -= 1;
                self.proof.extend_from_slice(&r.wire);
                self.ttl = ite(r.ttl < self.ttl, r.ttl as u64, self.ttl as u64) as u32;
                for s in r.signers {
                    if !self.asked.iter().any(|a| *a == s) {
                        new.push((s.clone(), 48));
                        if s != b"." {
                            new.push((s.clone(), 43));
                        }
                        self.asked.push(s);
                    }
                }
                self.pending += new.len();
                self.made += new.len();
                if self.made > MAX {
                    self.done = true;
                    check(q.is_empty(), "no more queries than the limit");
                } else {
                    check(q.len() == new.len(), "one DNSKEY and one DS query for each new signer");
                    let qs: Vec<Vec<u8>> = q.into_iter().map(|x| x.into_vec()).collect();
                    for (n, t) in new.iter() {
                        let w = query(n, *t);
                        check_u(qs.iter().fold(0, |a, x| a | memeq(x, &w)), "the queries for a signer are sent");
                    }
                }
            }
            (Ok(_), None) => check(false, "only authenticated, complete and successful responses to a query are accepted"),
            (Err(()), Some(_)) => check(false, "responses are accepted"),
        }
        check(b.awaiting_responses() == (self.pending > 0 && self.made <= MAX), "responses are awaited while there are queries without one");
        new
    }
    /// Answers whatever is left, then compares the proofs.
    fn finish(mut self, mut b: ProofBuilder) {
        let mut n = 0;
        while self.pending > 0 && self.made <= MAX {
            let mut r = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 1];
            r.extend_from_slice(&[0, 0, 1, 0, 1, 0xff, 0xff, 0xff, 0xff, 0, 4, 1, 2, 3, n]);
            n += 1;
            self.step(&mut b, &r);
        }
        match b.finish_proof() {
            Ok((p, t)) => {
                check(self.pending == 0 && self.made <= MAX, "there is a proof once every query was answered");
                check(p.len() == self.proof.len(), "the proof is the records of the responses");
                check_u(memeq(&p, &self.proof), "the proof is the records of the responses");
                check(t == self.ttl, "the TTL is the lowest of the records");
                let again = dnssec_prover::ser::parse_rr_stream(&p);
                check(again.is_ok(), "the proof can be parsed");
                reach("proof");
            }
            Err(()) => {
                check(self.pending > 0 || self.made > MAX, "there is a proof once every query was answered");
                reach("no proof");
            }
        }
    }
    /// Nothing of a response that was rejected shows.
    pub fn one(p: &[u8]) {
        let (mut b, _) = ProofBuilder::new(&nm("q."), 16);
        let mut m = Model::new();
        m.step(&mut b, p);
        m.finish(b);
    }
}
/// A header in front of one answer, one authority and one additional record.
pub fn resp_header() {
    let mut p = sym_vec(12);
    p[10] = 0;
    if param(0) == 0 {
        // everything but the counts
        p[4..12].copy_from_slice(&[0, 1, 0, 1, 0, 1, 0, 1]);
    } else {
        p[0..4].copy_from_slice(&[0, 0, 0x81, 0xa0]);
        for i in [4, 6, 8] {
            assume(p[i] == 0 || p[i] == 1);
        }
    }
    p.extend_from_slice(&[1, b'Q', 0, 0, 16, 0, 1]);
    p.extend_from_slice(&[0xc0, 12, 0, 1, 0, 1]);
    p.extend_from_slice(&sym::<4>());
    p.extend_from_slice(&[0, 4, 9, 9, 9, 9]);
    p.extend_from_slice(&[0, 0, 47, 0, 1]);
    p.extend_from_slice(&sym::<4>());
    p.extend_from_slice(&[0, 6, 1, b'A', 0, 0, 1, 0x40]);
    p.extend_from_slice(&[0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 7, 7, 7, 7]);
    Model::one(&p);
}
/// Arbitrary bytes after (or as) the header.
pub fn resp_any() {
    let (n, an, ns) = (param(0), param(1), param(2));
    let mut p = vec![];
    if an > 0 {
        p.extend_from_slice(&[0, 0, 0x81, 0xa0, 0, 1, 0, an as u8, 0, ns as u8, 0, 0]);
    }
    if param(3) == 1 {
        p.extend_from_slice(&[1, b'q', 0, 0, 16, 0, 1]);
    }
    p.extend_from_slice(&sym_vec(n));
    Model::one(&p);
}
/// Arbitrary bytes as the owner name of a record, or as the name in its data, with some names to point at.
pub fn resp_names() {
    let (n, place) = (param(0), param(1));
    let mut p = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1, 0, 0, 0, 0, 2, b'Q', b'x', 1, b'y', 0, 0, 16, 0, 1];
    let nb = sym_vec(n);
    match place {
        0 => {
            p.extend_from_slice(&nb);
            p.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]);
        }
        1 => {
            p.extend_from_slice(&[0xc0, 12, 0, 5, 0, 1, 0, 0, 0, 9, 0, n as u8]);
            p.extend_from_slice(&nb);
        }
        2 => {
            p.extend_from_slice(&[0xc0, 12, 0, 46, 0, 1, 0, 0, 0, 9, 0, 18 + n as u8]);
            p.extend_from_slice(&[0, 1, 13, 1, 0, 0, 0, 9, 0, 0, 0, 9, 0, 0, 0, 7, 1, 1]);
            p.extend_from_slice(&nb);
        }
        _ => {
            p.extend_from_slice(&[0xc0, 12, 0, 47, 0, 1, 0, 0, 0, 9, 0, n as u8]);
            p.extend_from_slice(&nb);
        }
    }
    Model::one(&p);
}
/// Long names put together from pointers.
pub fn resp_long_names() {
    let (first, second) = (param(0), param(1));
    let mut p = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1, 0, 0, 0, 0];
    let fill = |p: &mut Vec<u8>, mut n: usize| {
        while n > 0 {
            let l = (n - 1).min(50);
            // never a label of length zero
            let l = if n - 1 - l == 1 { l - 1 } else { l };
            p.push(l as u8);
            for _ in 0..l {
                p.push(b'L');
            }
            n -= l + 1;
        }
    };
    fill(&mut p, first);
    p.extend_from_slice(&[0, 0, 16, 0, 1]);
    p.extend_from_slice(&[0xc0, sym_u8(), 0, 5, 0, 1, 0, 0, 0, 9]);
    let mut d = vec![];
    fill(&mut d, second);
    d.extend_from_slice(&[0xc0, 12]);
    p.extend_from_slice(&(d.len() as u16).to_be_bytes());
    p.extend_from_slice(&d);
    Model::one(&p);
}
const TYPES: [u16; 14] = [1, 2, 5, 16, 28, 39, 43, 46, 47, 48, 50, 52, 6, 41];
/// One record of a type with arbitrary class, TTL, length and data.
pub fn resp_typed() {
    let (t, n, auth, plain) = (param(0), param(1), param(2) & 1, param(2) & 2 != 0);
    let mut p = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1, 0, auth as u8, 0, 0, 1, b'q', 0, 0, 16, 0, 1];
    if auth == 1 {
        p.extend_from_slice(&[0xc0, 12, 0, 1, 0, 1, 0, 0, 1, 0, 0, 4, 9, 9, 9, 9]);
    }
    p.extend_from_slice(&[0xc0, 12]);
    be16(&mut p, TYPES[t]);
    be16(&mut p, if plain { 1 } else { sym_u16() });
    p.extend_from_slice(&if plain { [0, 0, 1, 0] } else { sym::<4>() });
    be16(&mut p, sym_u16());
    p.extend_from_slice(&sym_vec(n));
    Model::one(&p);
}
pub fn rrsig(p: &mut Vec<u8>, covers: u16, ttl: u32, signer: &[u8]) {
    p.extend_from_slice(&[0xc0, 12, 0, 46, 0, 1]);
    p.extend_from_slice(&ttl.to_be_bytes());
    be16(p, (18 + signer.len() + 2) as u16);
    be16(p, covers);
    p.extend_from_slice(&[13, 1, 0, 0, 0, 9, 0, 0, 0, 9, 0, 0, 0, 7, 1, 1]);
    p.extend_from_slice(signer);
    p.extend_from_slice(&[0xaa, 0xbb]);
}
/// A name of one arbitrary character, a character and the name asked for, or the name asked for.
fn some_name(p: &mut Vec<u8>) {
    match choose(3) {
        0 => p.extend_from_slice(&[1, sym_u8(), 0]),
        1 => p.extend_from_slice(&[1, sym_u8(), 0xc0, 12]),
        _ => p.extend_from_slice(&[0xc0, 12]),
    }
}
/// A record with arbitrary contents, but for its lengths.
fn some_record(p: &mut Vec<u8>, kind: u32, i: u8, names: bool) {
    let ttl = sym_u32();
    let head = |p: &mut Vec<u8>, ty: u16, d: &[u8]| {
        if names {
            some_name(p);
        } else {
            p.extend_from_slice(&[0xc0, 12]);
        }
        be16(p, ty);
        be16(p, 1);
        p.extend_from_slice(&ttl.to_be_bytes());
        be16(p, d.len() as u16);
        p.extend_from_slice(d);
    };
    let mut d = vec![];
    match kind {
        0 => {
            d.extend_from_slice(&sym_vec(18));
            some_name(&mut d);
            d.extend_from_slice(&sym_vec(2));
            head(p, 46, &d);
        }
        1 => {
            some_name(&mut d);
            d.extend_from_slice(&[0, 3]);
            d.extend_from_slice(&sym_vec(3));
            head(p, 47, &d);
        }
        2 => {
            d.extend_from_slice(&sym_vec(4));
            d.push(1);
            d.push(sym_u8());
            d.push(2);
            d.extend_from_slice(&sym_vec(2));
            d.extend_from_slice(&[0, 2]);
            d.extend_from_slice(&sym_vec(2));
            head(p, 50, &d);
        }
        3 => {
            some_name(&mut d);
            head(p, [2, 5, 39][choose(3) as usize], &d);
        }
        4 => {
            d.extend_from_slice(&sym_vec(5));
            head(p, [43, 48, 52][choose(3) as usize], &d);
        }
        5 => head(p, 1, &sym_vec(4)),
        6 => head(p, 28, &sym_vec(16)),
        7 => {
            d.push(1);
            d.push(sym_u8());
            d.push(0);
            d.push(1);
            d.push(sym_u8());
            head(p, 16, &d);
        }
        _ => head(p, 6, &[i; 3]),
    }
}
/// What is kept of the answers and of the authority section: records of any type, in any order.
pub fn resp_records() {
    let (answers, auth, names) = (param(0), param(1), param(2) != 0);
    let mut p = vec![0, 0, 0x81, 0xa0, 0, 1, 0, answers.max(1) as u8, 0, auth as u8, 0, 1, 1, b'q', 0, 0, 16, 0, 1];
    if answers == 0 {
        some_record(&mut p, 5, 0, false);
    }
    for i in 0..answers {
        some_record(&mut p, choose(8), i as u8, names);
    }
    for i in 0..auth {
        some_record(&mut p, choose(9), i as u8, names);
    }
    p.extend_from_slice(&[0, 0, 41, 0, 1, 0, 0, 0, 0, 0, 0]);
    Model::one(&p);
}
/// Several responses, with arbitrary signers, some of them unacceptable.
pub fn builder_flow() {
    let (steps, sigs, bad) = (param(0), param(1), param(2));
    let (mut b, first) = ProofBuilder::new(&nm("q."), 16);
    check_u(memeq(&first, &query(b"q.", 16)), "the first query is for the name and type");
    let mut m = Model::new();
    for i in 0..steps {
        let mut p = vec![0, 0, 0x81, 0xa0, 0, 1, 0, sigs as u8, 0, 0, 0, 0, 1, b'q', 0, 0, 16, 0, 1];
        if bad == 2 && choose(2) == 1 {
            // looks fine until its last byte is missing
            rrsig(&mut p, 1, sym_u32(), &[1, sym_u8(), 0]);
            p[7] = 1;
            p.pop();
            m.step(&mut b, &p);
            continue;
        }
        if bad == 1 {
            p[3] = sym_u8();
        }
        for j in 0..sigs {
            if i == 0 && j == 0 && choose(2) == 1 {
                rrsig(&mut p, 1, sym_u32(), &[0]);
            } else {
                let c = sym_u8();
                assume(c >= b'a' && c <= b'e');
                rrsig(&mut p, 1, sym_u32(), &[1, c, 0]);
            }
        }
        m.step(&mut b, &p);
        if i > 0 && m.pending == 0 {
            break;
        }
    }
    m.finish(b);
}
/// The same signer of any name (the digits are the lengths of its labels) in two responses.
pub fn builder_signer() {
    let (mut shape, mut z) = (param(0), vec![]);
    while shape > 0 {
        let mut l: Vec<u8> = sym_vec(shape % 10);
        for c in l.iter() {
            assume(*c >= b'a' && *c <= b'z' || *c >= b'0' && *c <= b'9' || *c == b'-' || *c == b'_');
        }
        z.push(l.len() as u8);
        z.append(&mut l);
        shape /= 10;
    }
    z.push(0);
    let (mut b, _) = ProofBuilder::new(&nm("q."), 16);
    let mut m = Model::new();
    let mut p = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1, 0, 0, 0, 0, 1, b'q', 0, 0, 16, 0, 1];
    rrsig(&mut p, sym_u16(), sym_u32(), &z);
    m.step(&mut b, &p);
    m.step(&mut b, &p);
    m.finish(b);
}
/// A proof that needs a given number of zones, one below the other or (1) all at once, with the root or (2) without it.
pub fn builder_limit() {
    let (zones, once) = (param(0), param(1));
    let (mut b, _) = ProofBuilder::new(&nm("q."), sym_u16());
    let mut m = Model::new();
    let mut p = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1, 0, 0, 0, 0, 1, b'q', 0, 0, 16, 0, 1];
    for i in 0..zones {
        let z = if i == 0 && once & 2 == 0 { vec![0] } else { vec![1, b'a' + i as u8, 0] };
        rrsig(&mut p, 1, sym_u32(), &z);
        if once & 1 == 1 {
            p[7] = i as u8 + 1;
        } else {
            m.step(&mut b, &p);
            p.truncate(19);
        }
    }
    if once & 1 == 1 {
        m.step(&mut b, &p);
    }
    m.finish(b);
}
/// A response after the last one that was asked for has no effect.
pub fn builder_extra() {
    let (mut b, _) = ProofBuilder::new(&nm("q."), 1);
    let mut m = Model::new();
    let mut p = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1, 0, 0, 0, 0, 1, b'q', 0, 0, 16, 0, 1];
    p.extend_from_slice(&[0xc0, 12, 0, 1, 0, 1]);
    p.extend_from_slice(&sym::<4>());
    p.extend_from_slice(&[0, 4, 9, 9, 9, 9]);
    m.step(&mut b, &p);
    p[3] = sym_u8();
    m.step(&mut b, &p);
    m.finish(b);
}
/// The query for any name and type.
pub fn query_format() {
    let (n, long) = (param(0), param(1));
    let s = sym_vec(n);
    let mut t: Vec<u8> = (0..long).map(|i| if i % 50 == 49 { b'.' } else { b'W' }).collect();
    if long > 0 && long % 50 != 0 {
        t.push(b'.');
    }
    t.extend_from_slice(&s);
    for c in s.iter() {
        assume(*c < 0x80);
    }
    let name: Result<Name, ()> = unsafe { String::from_utf8_unchecked(t) }.try_into();
    if let Ok(name) = name {
        let ty = sym_u16();
        let (_, q) = ProofBuilder::new(&name, ty);
        let text = name.as_str().as_bytes().to_vec();
        let want = query(&text, ty);
        check(q.len() == want.len(), "a query has a header, one question and the OPT record");
        check_u(memeq(&q, &want), "a query asks for the name and type, with DNSSEC records");
        check_u(memeq(&q.into_vec(), &want), "into_vec has the same bytes");
        reach("done");
    }
}
/// `QueryBuf` is a vector of bytes.
pub fn querybuf() {
    let sizes: [usize; 10] = [0, 1, 2, 2047, 2048, 2049, 3000, 40000, 65534, 65535];
    let start = sizes[param(0)];
    let mut b = QueryBuf::new_zeroed(start as u16);
    let mut m = vec![0u8; start];
    let mut twin = QueryBuf::new_zeroed(start as u16);
    let mut whole = true;
    for k in 1..3 {
        let add = sizes[param(k)];
        let mut x = vec![k as u8; add];
        if add > 0 {
            x[add - 1] = sym_u8();
            x[0] = sym_u8();
        }
        // somewhere in what there is
        if !m.is_empty() {
            let at = m.len() - 1;
            let v = sym_u8();
            b[at] = v;
            m[at] = v;
            twin[at] = v;
        }
        b.extend_from_slice(&x);
        m.extend_from_slice(&x);
        if m.len() > 65535 {
            whole = false;
            break;
        }
        check(b.len() == m.len(), "as long as what was put in");
        check_u(memeq(&b, &m), "holds what was put in");
        for c in x.chunks(700) {
            twin.extend_from_slice(c);
        }
        check(twin == b, "equal contents are equal");
    }
    if whole {
        reach("whole");
        if !m.is_empty() {
            let mut o = b.clone();
            check(o == b, "a clone is equal");
            let at = if m.len() > 1 { m.len() - 2 } else { 0 };
            o[at] = o[at].wrapping_add(1);
            check(o != b, "different contents are not equal");
            let mut sh = QueryBuf::new_zeroed(0);
            sh.extend_from_slice(&b[..b.len() - 1]);
            check(sh != b, "different lengths are not equal");
        }
        let mut e = QueryBuf::new_zeroed(3);
        e.extend_from_slice(&[1; 10]);
        let v = b.into_vec();
        check(v.len() == m.len(), "into_vec is the contents");
        check_u(memeq(&v, &m), "into_vec is the contents");
    } else {
        reach("over");
    }
}
