//! Parsing and serialization.
use crate::api::*;
use crate::spec::*;
use dnssec_prover::rr::*;
use dnssec_prover::ser::*;

/// Arbitrary bytes never make the record stream parser panic, overflow, read out of bounds or hang.
pub fn parse_total() {
    let n = param(0);
    let b = sym_vec(n);
    match parse_rr_stream(&b) {
        Ok(v) => {
            reach("accepted");
            observe(v.len() as u64);
        }
        Err(()) => {
            reach("rejected");
            observe(0xff);
        }
    }
}
pub const TYPES: [u16; 14] = [1, 2, 5, 16, 28, 39, 43, 46, 47, 48, 50, 52, 6, 65535];
fn head(name: &[u8], ty: u16, class: u16, ttl: u32, len: usize) -> Vec<u8> {
    let mut b = name.to_vec();
    b.extend_from_slice(&ty.to_be_bytes());
    b.extend_from_slice(&class.to_be_bytes());
    b.extend_from_slice(&ttl.to_be_bytes());
    b.extend_from_slice(&(len as u16).to_be_bytes());
    b
}
/// Applies to the record itself what is applied to it as an `RR`: both have to be the same.
macro_rules! inner {
    ($r: expr, $x: ident, $e: expr) => {
        match $r {
            RR::A($x) => $e,
            RR::AAAA($x) => $e,
            RR::NS($x) => $e,
            RR::Txt($x) => $e,
            RR::CName($x) => $e,
            RR::DName($x) => $e,
            RR::TLSA($x) => $e,
            RR::DnsKey($x) => $e,
            RR::DS($x) => $e,
            RR::RRSig($x) => $e,
            RR::NSec($x) => $e,
            RR::NSec3($x) => $e,
        }
    };
}
/// A record by itself is written just as in an `RR`.
pub fn alone_written(r: &RR, ttl: u32, out: &[u8]) {
    let mut o = vec![];
    let (ty, name) = inner!(r, x, {
        write_rr(x, ttl, &mut o);
        (Record::ty(x), Record::name(x).clone())
    });
    check(ty == ty_of(r) && Record::ty(r) == ty, "a record by itself has the type of its RR");
    check_u(memeq(name.as_bytes(), r.name().as_bytes()) & memeq(Record::name(r).as_bytes(), name.as_bytes()), "a record by itself has the name of its RR");
    check_u(memeq(&o, out), "a record by itself is written as its RR is");
}
/// The JSON of a record by itself.
pub fn alone_json(r: &RR) -> (String, String) {
    (inner!(r, x, Record::json(x)), Record::json(r))
}
/// What was written is the canonical encoding and parses to the same record again, with nothing left over.
fn again(r: &RR) {
    let ttl = sym_u32();
    let mut out = vec![0x55];
    write_rr(r, ttl, &mut out);
    let l = out.len();
    write_rr(r, 7, &mut out);
    check(out[0] == 0x55 && out.len() == 1 + 2 * (l - 1), "records are appended to what is there");
    let one = &out[1..l];
    // framing, without looking at the contents
    let nl = wire(r.name()).len();
    check_u(memeq(&one[..nl], &wire(r.name())), "the owner name is first");
    check(u16::from_be_bytes([one[nl], one[nl + 1]]) == ty_of(r), "the type is written");
    check(one[nl + 2] == 0 && one[nl + 3] == 1, "the class is IN");
    check(u32::from_be_bytes([one[nl + 4], one[nl + 5], one[nl + 6], one[nl + 7]]) == ttl, "the TTL is written");
    check(u16::from_be_bytes([one[nl + 8], one[nl + 9]]) as usize == one.len() - nl - 10, "RDLENGTH is the length of the data");
    match parse_rr_stream(&out[1..]) {
        Ok(v) => {
            check(v.len() == 2, "two records come back");
            check(v[0] == *r && v[1] == *r, "the record comes back unchanged");
        }
        Err(()) => check(false, "what was written parses"),
    }
}
/// One record of a given type with arbitrary class, TTL and data.
pub fn parse_typed() {
    let (t, n, form) = (param(0), param(1), param(2));
    typed(t, n, form, sym_vec(n));
}
/// Records with data of every length in a range, in a form which suits the type.
pub fn parse_lengths() {
    let (t, from, to) = (param(0), param(1), param(2));
    let n = from + choose((to - from + 1) as u32) as usize;
    let mut d = sym_vec(n);
    match TYPES[t] {
        16 => {
            let mut i = 0;
            while i < n {
                let l = (n - i - 1).min(255);
                d[i] = l as u8;
                i += 1 + l;
            }
        }
        2 | 5 | 39 if n > 2 => d[..3].copy_from_slice(&[1, b'z', 0]),
        46 => {
            for (i, b) in [1, b'z', 0].iter().enumerate().filter(|x| x.0 + 18 < n) {
                d[18 + i] = *b;
            }
        }
        50 if n > 6 => {
            // as much salt as possible, then as long a hash as possible, then one window
            let sl = (n - 6).min(if choose(2) == 0 { 0 } else { 255 });
            d[4] = sl as u8;
            let hl = (n - 6 - sl).min(255);
            d[5 + sl] = hl as u8;
            d.truncate(6 + sl + hl);
            d.extend_from_slice(&[0, 1, 0x40]);
        }
        _ => {}
    }
    let n = d.len();
    typed(t, n, 0, d);
}
fn typed(t: usize, n: usize, form: usize, data: Vec<u8>) {
    let owner: &[u8] = [&[0][..], &[1, b'A', 0][..], &[1, b'a', 2, b'b', b'C', 0][..]][form];
    let class = sym_u16();
    let ttl = sym_u32();
    let mut b = head(owner, TYPES[t], class, ttl, n);
    b.extend_from_slice(&data);
    // a fixed record follows
    let tail = [0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4];
    b.extend_from_slice(&tail);
    let r = parse_rr_stream(&b);
    let ok_len = match TYPES[t] {
        1 => Some(n == 4),
        28 => Some(n == 16),
        43 | 48 => Some(n >= 4),
        52 => Some(n >= 3),
        6 | 65535 => Some(false),
        _ => None,
    };
    if let Some(l) = ok_len {
        check(r.is_ok() == (l && class == 1), "a record of this type is accepted exactly when its data is long enough and its class is IN");
    }
    match r {
        Ok(v) => {
            reach("accepted");
            check(class == 1, "only class IN is accepted");
            check(v.len() == 2, "one record before the next one");
            check(matches!(&v[1], RR::A(a) if a.address == [1, 2, 3, 4] && a.name.as_str() == "."), "the next record is found where it starts");
            let x = &v[0];
            check(ty_of(x) == TYPES[t], "the type is kept");
            check(x.name().as_str() == [".", "a.", "a.bc."][form], "the owner name is kept, in lower case");
            match x {
                RR::A(a) => check_u(memeq(&a.address, &data), "address"),
                RR::AAAA(a) => check_u(memeq(&a.address, &data), "address"),
                RR::TLSA(a) => check_u((a.cert_usage == data[0]) as u32 & (a.selector == data[1]) as u32 & (a.data_ty == data[2]) as u32 & memeq(&a.data, &data[3..]), "TLSA fields"),
                RR::DS(a) => check_u(
                    (a.key_tag == u16::from_be_bytes([data[0], data[1]])) as u32 & (a.alg == data[2]) as u32 & (a.digest_type == data[3]) as u32 & memeq(&a.digest, &data[4..]),
                    "DS fields",
                ),
                RR::DnsKey(a) => check_u(
                    (a.flags == u16::from_be_bytes([data[0], data[1]])) as u32 & (a.protocol == data[2]) as u32 & (a.alg == data[3]) as u32 & memeq(&a.pubkey, &data[4..]),
                    "DNSKEY fields",
                ),
                RR::RRSig(s) => {
                    check_u(memeq(&sig_head(s), &data[..18]), "RRSIG fields");
                    check_u(memeq(&s.signature, &data[18 + wire(&s.key_name).len()..]), "RRSIG signature");
                }
                RR::Txt(t) => {
                    let mut d = vec![];
                    let mut i = 0;
                    while i < n {
                        let l = data[i] as usize;
                        d.extend_from_slice(&data[i + 1..i + 1 + l]);
                        i += 1 + l;
                    }
                    check_u(memeq(&d, &t.data), "TXT data is the concatenation of its strings");
                }
                RR::NSec3(x) => {
                    let sl = x.salt.len();
                    let hl = x.next_name_hash.len();
                    check_u(
                        (x.hash_algo == data[0]) as u32 & (x.flags == data[1]) as u32 & (x.hash_iterations == u16::from_be_bytes([data[2], data[3]])) as u32
                            & (data[4] as usize == sl) as u32 & memeq(&x.salt, &data[5..5 + sl]) & (data[5 + sl] as usize == hl) as u32
                            & memeq(&x.next_name_hash, &data[6 + sl..6 + sl + hl]),
                        "NSEC3 fields",
                    );
                }
                _ => {}
            }
            again(x);
        }
        Err(()) => reach("rejected"),
    }
}
/// Decodes an uncompressed name; `None` if it is not one, otherwise its text and length.
fn name_at(b: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut i = 0;
    let mut o = vec![];
    loop {
        let l = *b.get(i)? as usize;
        i += 1;
        if l == 0 {
            break;
        }
        if l > 63 || i + l > b.len() {
            return None;
        }
        for c in &b[i..i + l] {
            if *c < 0x21 || *c > 0x7e || *c == b'"' || *c == b'.' {
                return None;
            }
            o.push(if *c >= b'A' && *c <= b'Z' { *c + 32 } else { *c });
        }
        o.push(b'.');
        i += l;
    }
    if o.is_empty() {
        o.push(b'.');
    }
    if o.len() > 255 {
        return None;
    }
    Some((o, i))
}
/// Arbitrary bytes where a name is expected: as the owner, or in the data of a record.
pub fn wire_name() {
    let (n, place) = (param(0), param(1));
    let nb = sym_vec(n);
    let want = name_at(&nb);
    let want = match want {
        // the whole of the bytes is to be the name
        Some((t, l)) if l == n => Some(t),
        _ => None,
    };
    let mut b;
    if place == 0 {
        b = head(&nb, 1, 1, 5, 4);
        b.extend_from_slice(&[1, 2, 3, 4]);
        if n > 0 && want.is_none() {
            // the bytes after the name would be taken as part of the rest of the record: nothing to say
            if let Some((_, l)) = name_at(&b) {
                if l != n {
                    return;
                }
            }
        }
    } else {
        b = head(&[1, b'q', 0], [0, 2, 5, 39][place], 1, 5, n);
        b.extend_from_slice(&nb);
    }
    let r = parse_rr_stream(&b);
    match want {
        Some(t) => {
            reach("accepted");
            match r {
                Ok(v) => {
                    check(v.len() == 1, "one record");
                    let got = match &v[0] {
                        RR::A(a) => &a.name,
                        RR::NS(a) => &a.name_server,
                        RR::CName(a) => &a.canonical_name,
                        RR::DName(a) => &a.delegation_name,
                        _ => unreachable!(),
                    };
                    check_u(memeq(got.as_bytes(), &t), "the name is the lower case text of the labels");
                    check(got.labels() as usize == labels(core::str::from_utf8(&t).unwrap()).len(), "the number of labels is kept");
                }
                Err(()) => check(false, "valid names are accepted"),
            }
        }
        None => {
            reach("rejected");
            check(r.is_err(), "anything that is not exactly one valid name is rejected");
        }
    }
}
/// Long names, with a few arbitrary bytes in them.
pub fn wire_name_long() {
    let total = param(0);
    let at = param(1);
    let mut b = vec![];
    let mut left = total;
    // labels of 50 bytes, then the rest
    while left > 0 {
        let l = if left > 51 { 50 } else { left - 1 };
        b.push(l as u8);
        for _ in 0..l {
            b.push(b'x');
        }
        left -= l + 1;
    }
    if at < b.len() {
        b[at] = sym_u8();
    }
    b.push(0);
    let want = match name_at(&b) {
        Some((t, l)) if l == b.len() => Some(t),
        _ => None,
    };
    let mut p = head(&[0], 5, 1, 5, b.len());
    p.extend_from_slice(&b);
    let r = parse_rr_stream(&p);
    check(r.is_ok() == want.is_some(), "names are accepted up to 255 characters");
    if let (Ok(v), Some(t)) = (&r, &want) {
        reach("accepted");
        if let RR::CName(c) = &v[0] {
            check_u(memeq(c.canonical_name.as_bytes(), t), "the name is the text of the labels");
        }
        again(&v[0]);
    } else {
        reach("rejected");
    }
}
/// `Name` from text.
pub fn name_text() {
    let (n, long, utf8) = (param(0), param(1), param(2));
    let mut b: Vec<u8> = vec![];
    if long > 0 {
        for i in 0..long {
            b.push(if i % 60 == 59 { b'.' } else { b'y' });
        }
    }
    let s = sym_vec(n);
    if utf8 == 1 {
        // one two-byte character somewhere
        let at = choose(n as u32 - 1) as usize;
        assume(s[at] >= 0xc2 && s[at] <= 0xdf && s[at + 1] & 0xc0 == 0x80);
        for (i, c) in s.iter().enumerate() {
            assume(i == at || i == at + 1 || *c < 0x80);
        }
    } else {
        for c in s.iter() {
            assume(*c < 0x80);
        }
    }
    b.extend_from_slice(&s);
    if long > 0 {
        b.push(b'.');
    }
    let text = unsafe { String::from_utf8_unchecked(b.clone()) };
    let as_str: Result<Name, ()> = text.as_str().try_into();
    let r: Result<Name, ()> = text.try_into();
    check(as_str == r, "a Name from a str is a Name from the String");
    // the definition
    let mut ok = !b.is_empty() && b.len() <= 255 && b[b.len() - 1] == b'.';
    let mut ls: Vec<Vec<u8>> = vec![];
    if ok {
        let mut cur = vec![];
        for c in b.iter() {
            if *c == b'.' {
                ls.push(cur);
                cur = vec![];
            } else {
                if *c < 0x21 || *c > 0x7e || *c == b'"' {
                    ok = false;
                }
                cur.push(if *c >= b'A' && *c <= b'Z' { *c + 32 } else { *c });
            }
        }
        if b.len() == 1 {
            ls.clear();
        }
        for l in ls.iter() {
            if l.is_empty() || l.len() > 63 {
                ok = false;
            }
        }
    }
    match r {
        Ok(name) => {
            reach("accepted");
            check(ok, "only valid names are accepted");
            let mut t = vec![];
            for l in ls.iter() {
                t.extend_from_slice(l);
                t.push(b'.');
            }
            if t.is_empty() {
                t.push(b'.');
            }
            check_u(memeq(name.as_str().as_bytes(), &t), "names are kept in lower case");
            check(name.labels() as usize == ls.len(), "labels() counts the labels");
            for k in 0..=(ls.len() + 1).min(5) {
                let k = if ls.len() > 5 { ls.len() + 1 - k } else { k };
                let got = name.trailing_n_labels(k as u8);
                if k > ls.len() {
                    check(got.is_none(), "there are no more labels than there are");
                } else {
                    let mut t = vec![];
                    for l in ls[ls.len() - k..].iter() {
                        t.extend_from_slice(l);
                        t.push(b'.');
                    }
                    if k == 0 {
                        t.push(b'.');
                    }
                    check(got.is_some(), "every number of labels up to all can be had");
                    if let Some(g) = got {
                        check_u(memeq(g.as_bytes(), &t), "trailing_n_labels is the last n labels");
                        let again: Result<Name, ()> = g.try_into();
                        check(again.is_ok(), "trailing_n_labels is a valid name");
                    }
                }
            }
        }
        Err(()) => {
            reach("rejected");
            check(!ok, "every valid name is accepted");
        }
    }
}
/// Type bitmaps: after the name in NSEC, after the hashes in NSEC3.
pub fn bitmap_parse() {
    let (n, three) = (param(0), param(1));
    let mut bm = sym_vec(n);
    if param(2) > 0 {
        bm[0] = [0, 1, 254][choose(3) as usize];
        if param(2) == 99 {
            bm[1] = (n - 2) as u8;
        } else if param(2) < n {
            bm[param(2)] = [0, 1, 255][choose(3) as usize];
        }
    }
    let bm = bm;
    let mut d = if three == 1 { vec![1, 0, 0, 0, 0, 0] } else { vec![0] };
    d.extend_from_slice(&bm);
    let mut b = head(&[1, b'a', 0], if three == 1 { 50 } else { 47 }, 1, 3, d.len());
    b.extend_from_slice(&d);
    let r = parse_rr_stream(&b);
    // windows
    let mut ws: Vec<(u8, &[u8])> = vec![];
    let mut ok = true;
    let mut ascending = true;
    let mut i = 0;
    while i < n {
        if i + 2 > n {
            ok = false;
            break;
        }
        let l = bm[i + 1] as usize;
        if l == 0 || l > 32 || i + 2 + l > n {
            ok = false;
            break;
        }
        if let Some(p) = ws.last() {
            ascending &= p.0 < bm[i];
        }
        ws.push((bm[i], &bm[i + 2..i + 2 + l]));
        i += 2 + l;
    }
    if !ok {
        reach("rejected");
        check(r.is_err(), "windows are 1 to 32 bytes long and complete");
        return;
    }
    if !ascending {
        return;
    }
    reach("accepted");
    match r {
        Ok(v) => {
            let m = match &v[0] {
                RR::NSec(x) => &x.types,
                RR::NSec3(x) => &x.types,
                _ => unreachable!(),
            };
            // every type of the windows there are and of those around them
            let k = sym_u8() & 7;
            let mut look: Vec<u8> = vec![0, 1, 255];
            for (w, _) in ws.iter() {
                look.push(concretize(*w as u64) as u8);
                look.push((concretize(*w as u64) as u8).wrapping_add(1));
            }
            for w in look {
                let bits = ws.iter().find(|x| x.0 == w).map(|x| x.1).unwrap_or(&[]);
                let mut same = 1;
                for j in 0..32 {
                    let want = if j < bits.len() { (bits[j] << k >> 7) as u32 } else { 0 };
                    same &= (m.contains_type((w as u16) << 8 | (j as u16) << 3 | k as u16) as u32 == want) as u32;
                }
                check_u(same, "the types in a bitmap are those whose bit is set");
            }
            again(&v[0]);
        }
        Err(()) => check(false, "a well-formed bitmap is accepted"),
    }
}
/// A bitmap built from types contains just them, and survives serialization.
pub fn bitmap_types() {
    let n = param(0);
    let ts: Vec<u16> = (0..n).map(|_| if param(1) == 1 { sym_u16() } else { [0, 1, 255][choose(3) as usize] << 8 | sym_u8() as u16 }).collect();
    let m = NSecTypeMask::from_types(&ts);
    for t in ts.iter() {
        check(m.contains_type(*t), "from_types sets the types");
    }
    let k = sym_u8() as u16 & 7;
    let mut look: Vec<u16> = vec![0, 1, 2, 254, 255];
    look.extend(ts.iter().map(|t| concretize(*t as u64 >> 8) as u16));
    for w in look {
        let mut same = 1;
        for j in 0..32 {
            let q = w << 8 | j << 3 | k;
            let mut want = 0;
            for t in ts.iter() {
                want |= (*t == q) as u32;
            }
            same &= (m.contains_type(q) as u32 == want) as u32;
        }
        check_u(same, "from_types sets nothing else");
    }
    let r: RR = NSec { name: nm("a."), next_name: nm("b."), types: m }.into();
    let mut out = vec![];
    write_rr(&r, 1, &mut out);
    let want = bitmap(&ts);
    check_u(memeq(&out[16..], &want), "bitmaps are written in canonical form");
    reach("written");
    again(&r);
}
/// The key tag of any key.
pub fn key_tags() {
    let n = param(0);
    let k = DnsKey { name: nm("a."), flags: sym_u16(), protocol: sym_u8(), alg: sym_u8(), pubkey: sym_vec(n) };
    check(k.key_tag() == key_tag(&k), "the key tag is as in RFC 4034 appendix B");
    reach("done");
}
/// A long key, with every byte at its extreme or arbitrary.
pub fn key_tags_long() {
    let n = param(0);
    let mut p = vec![0xff; n];
    for i in 0..4.min(n) {
        p[i * (n / 4)] = sym_u8();
    }
    let k = DnsKey { name: nm("."), flags: sym_u16(), protocol: 255, alg: 255, pubkey: p };
    check(k.key_tag() == key_tag(&k), "the key tag is as in RFC 4034 appendix B");
    reach("done");
}
fn any_name() -> Name {
    match if param(3) != 0 { 2 } else { choose(7) as usize } {
        5 => nm(&(["v"; 63].concat() + "." + &["w"; 63].concat() + "." + &["x"; 63].concat() + "." + &["y"; 62].concat() + ".")),
        6 => nm(&["z."; 127].concat()),
        i => nm(["a.", ".", "b.a.", "x_y-z.long.example.", "*.w."][i]),
    }
}
/// Any record that can be built is written in its canonical form and parsed back.
pub fn roundtrip() {
    let (kind, mut n) = (param(0), param(1));
    if param(2) != 0 {
        n += choose(param(2) as u32) as usize;
    }
    let name = any_name();
    let r: RR = match kind {
        0 => A { name, address: sym() }.into(),
        1 => AAAA { name, address: sym() }.into(),
        2 => NS { name, name_server: any_name() }.into(),
        3 => CName { name, canonical_name: any_name() }.into(),
        4 => DName { name, delegation_name: any_name() }.into(),
        5 => {
            let mut d = sym_vec(n.min(6));
            d.resize(n, 0x41);
            if n > 6 {
                d[n - 1] = sym_u8();
            }
            Txt { name, data: d }.into()
        }
        6 => TLSA { name, cert_usage: sym_u8(), selector: sym_u8(), data_ty: sym_u8(), data: sym_vec(n) }.into(),
        7 => DnsKey { name, flags: sym_u16(), protocol: sym_u8(), alg: sym_u8(), pubkey: sym_vec(n) }.into(),
        8 => DS { name, key_tag: sym_u16(), alg: sym_u8(), digest_type: sym_u8(), digest: sym_vec(n) }.into(),
        9 => RRSig {
            name,
            ty: sym_u16(),
            alg: sym_u8(),
            labels: sym_u8(),
            orig_ttl: sym_u32(),
            expiration: sym_u32(),
            inception: sym_u32(),
            key_tag: sym_u16(),
            key_name: any_name(),
            signature: sym_vec(n),
        }
        .into(),
        10 => NSec { name, next_name: any_name(), types: NSecTypeMask::from_types(&KNOWN[..n]) }.into(),
        _ => NSec3 {
            name,
            hash_algo: sym_u8(),
            flags: sym_u8(),
            hash_iterations: sym_u16(),
            salt: sym_vec(n.min(255)),
            next_name_hash: sym_vec((n + 1).min(255)),
            types: NSecTypeMask::from_types(&[1, 50, 1000]),
        }
        .into(),
    };
    let ttl = sym_u32();
    let mut out = vec![];
    write_rr(&r, ttl, &mut out);
    check_u(memeq(&out, &record(&r, ttl)), "records are written in canonical form");
    alone_written(&r, ttl, &out);
    reach("written");
    again(&r);
}
