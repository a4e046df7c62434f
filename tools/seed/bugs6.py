from bugs import bug, V, S, R, Q
from bugs3 import net, http, wasm, H, SRV
C = '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = root(&r);
    v.extend(zone(&r, &k));
'''
bug('ttl-min', 'C19', Q, [('''		let (rr, ttl) = parse_wire_packet_rr(&mut read, &resp)?;
		write_rr(&rr, ttl, proof);
		min_ttl = cmp::min(min_ttl, ttl);
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
	}

	for''', '''		let (rr, ttl) = parse_wire_packet_rr(&mut read, &resp)?;
		min_ttl = cmp::min(min_ttl, ttl);
		write_rr(&rr, min_ttl, proof);
		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
	}

	for''')], '''
    let mut d = vec![];
    write_rr(&txt("x.", b"1"), 5, &mut d);
    write_rr(&txt("x.", b"2"), 9, &mut d);
    let (mut b, _) = ProofBuilder::new(&nm("x."), 16);
    b.process_response(&qbuf(&response(2, 0, &d))).unwrap();
    assert_eq!(b.finish_proof().unwrap().0, d, "the records are in the proof as they were in the response");
''', 'a response whose records have different TTLs, a smaller one first', 'the TTLs of records are changed')

bug('sort-prefix', 'C09', V, [('''				rdata.split_off(2)
''', '''				rdata.truncate(2 + 64);
				rdata.split_off(2)
''')], C + '''
    let (mut x, mut y) = (vec![b'x'; 70], vec![b'x'; 70]);
    x[69] = 2;
    y[69] = 1;
    v.extend(signed(&[txt("x.a.", &x), txt("x.a.", &y)], &k));
    assert!(accepted(&v), "records which begin with the same 64 bytes are not sorted");
''', 'two records whose data differ only after 64 bytes, in the other order', 'such a set is rejected')

bug('ds-384', 'C02', V, [('.all(|ds| ds.digest_type != 2 && ds.digest_type != 4);', '.all(|ds| ds.digest_type != 2);')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut strong = ds(&key("a.", 13, 8));
    strong.digest_type = 4;
    strong.digest = vec![7; 48];
    let mut v = root(&r);
    v.extend(signed(&[ds_with(&k, 1).into(), strong.into()], &r));
    v.extend(signed(&[k.clone().into()], &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    assert!(!accepted(&v), "a SHA-1 digest is relied on although there is a SHA-384 one");
''', 'a zone with DS records of digest types 1 and 4', 'a weak digest is relied on although there is a strong one')

bug('tlsa-empty', 'C11', R, [('''			data_ty: read_u8(&mut data)?, data: data.to_vec(),
''', '''			data_ty: read_u8(&mut data)?, data: if data.is_empty() { return Err(()) } else { data.to_vec() },
''')], '''
    let t: RR = TLSA { name: nm("a."), cert_usage: 3, selector: 1, data_ty: 1, data: vec![] }.into();
    let mut d = vec![];
    write_rr(&t, 5, &mut d);
    assert_eq!(parse_rr_stream(&d), Ok(vec![t]), "a TLSA record without data is rejected");
''', 'a TLSA record with no certificate data', 'the record is rejected')

bug('txt-255', 'C14', R, [('let len = (self.data.len() + core::cmp::max(1, (self.data.len() + 254) / 255)) as u16;', 'let len = (self.data.len() + self.data.len() / 255 + 1) as u16;')], '''
    let t = txt("a.", &[7; 510]);
    let mut d = vec![];
    write_rr(&t, 5, &mut d);
    assert_eq!(parse_rr_stream(&d), Ok(vec![t]), "a TXT record of 510 bytes");
''', 'TXT data whose length is a multiple of 255', 'the length written is wrong')

bug('txt-none', 'C10', R, [('Vec::with_capacity(data.len().saturating_sub(1))', 'Vec::with_capacity(data.len().wrapping_sub(1))')], '''
    let r = std::panic::catch_unwind(|| parse_rr_stream(&[0, 0, 16, 0, 1, 0, 0, 0, 1, 0, 0]).is_ok());
    assert!(r.is_ok(), "the parser panics");
''', 'a TXT record with no data at all', 'the parser panics')

bug('json-pad', 'C25', R, [('''			"{{\\"type\\":\\"ds\\",\\"name\\":\\"{}\\",\\"key_tag\\":{},\\"alg\\":{},\\"digest_type\\":{},\\"digest\\":\\"",
			self.name.json_escaped(), self.key_tag, self.alg, self.digest_type
		).expect("Write to a String shouldn't fail");
		for c in self.digest.iter() {
			write!(&mut out, "{:02X}", c)''', '''			"{{\\"type\\":\\"ds\\",\\"name\\":\\"{}\\",\\"key_tag\\":{},\\"alg\\":{},\\"digest_type\\":{},\\"digest\\":\\"",
			self.name.json_escaped(), self.key_tag, self.alg, self.digest_type
		).expect("Write to a String shouldn't fail");
		for c in self.digest.iter() {
			write!(&mut out, "{:X}", c)''')], '''
    let d = DS { name: nm("a."), key_tag: 1, alg: 2, digest_type: 3, digest: vec![0x12, 0x03, 0x45] };
    assert!(RR::from(d).json().contains("\\"120345\\""), "the digest is not written in full");
''', 'a DS record whose digest has a byte under 16', 'the digest is written ambiguously')

bug('tag-odd', 'C16', R, [('''		for (idx, b) in self.pubkey.iter().enumerate() {
			if idx % 2 == 0 {
				res += u32::from(*b) << 8;
			} else {
				res += u32::from(*b);
			}
		}
''', '''		for b in self.pubkey.chunks(2) {
			res += if let [a, b] = b { u32::from(u16::from_be_bytes([*a, *b])) } else { u32::from(b[0]) };
		}
''')], '''
    let mut k = key("a.", 8, 3);
    k.pubkey.push(9);
    assert_eq!(k.key_tag(), tag(&k), "the key tag of a key of odd length");
''', 'a public key with an odd number of bytes', 'the last byte counts for less')

bug('query-type', 'C22', Q, [('''	query.extend_from_slice(&ty.to_be_bytes());
	query.extend_from_slice(&1u16.to_be_bytes()); // INternet class
''', '''	query.extend_from_slice(&[0, ty as u8]);
	query.extend_from_slice(&1u16.to_be_bytes()); // INternet class
''')], '''
    let (_, q) = ProofBuilder::new(&nm("a."), 257);
    assert_eq!(&q[15..17], &[1, 1], "the type in the query");
''', 'a type over 255', 'records of another type are asked for')

bug('txt-boundary', 'C24', R, [('for i in 1..(self.data.len() / 255) + 2 {', 'for i in 1..(self.data.len() / 255) + 1 + (self.data.len() % 255 != 0 || self.data.is_empty()) as usize {')], '''
    let (a, b) = (txt("a.", &[7; 255]), txt("a.", &[7; 256]));
    assert!(a < b && b > a && a != b, "a record is ordered as if it were equal to another one");
''', 'TXT data of exactly 255 bytes and longer data which begins with it', 'records which differ compare as equal')

bug('dname-deep', 'C18', V, [('''				.filter_map(|rr| if let RR::DName(dn) = rr { Some(dn) } else { None });
''', '''				.filter_map(|rr| if let RR::DName(dn) = rr { Some(dn) } else { None })
				.filter(|dn| name.labels() == dn.name.labels() + 1);
''')], '''
    let all: Vec<RR> = vec![DName { name: nm("a."), delegation_name: nm("b.") }.into(), txt("x.y.b.", b"x")];
    let v = VerifiedRRStream { verified_rrs: all.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 1 };
    assert_eq!(v.resolve_name(&nm("x.y.a.")), vec![&all[1]], "names two labels below a DNAME");
''', 'a name two or more labels below a DNAME', 'it is not redirected')

bug('times-equal', 'C05', V, [('if latest_inception >= earliest_expiry', 'if latest_inception > earliest_expiry')], C + '''
    let t = txt("x.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 2, 3600, 1750000000, 1750000000).into());
    assert!(!accepted(&v), "a proof which is never valid is accepted");
''', 'a signature which expires when it begins', 'a proof which is never valid is accepted')

bug('ttl-wild', 'C05', V, [('''			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
			match rrsig.ty {
''', '''			if rrsig.labels == rrsig.name.labels() { min_ttl = cmp::min(min_ttl, rrsig.orig_ttl); }
			match rrsig.ty {
''')], C + '''
    let t = txt("x.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 5, 1700000000, 1800000000).into());
    v.extend(signed(&[NSec { name: nm("a."), next_name: nm("z.a."), types: mask() }.into()], &k));
    assert_eq!(verify_rr_stream(&v).unwrap().max_cache_ttl, 5, "the cache lifetime of a wildcard answer");
''', 'a wildcard answer with a TTL below all others', 'the cache lifetime exceeds the TTL of wildcard answers')

bug('wild-cname', 'C07', V, [('if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {', 'if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE && rrsig.ty != CName::TYPE {')], C + '''
    let t: RR = CName { name: nm("x.a."), canonical_name: nm("b.") }.into();
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    assert!(!accepted(&v), "a wildcard alias is accepted without a denial");
''', 'a CNAME from a wildcard, without a denial', 'such aliases are accepted for names which exist')

bug('opt-out-bit', 'C08', V, [('if nsec3.flags != 0 {', 'if nsec3.flags == 1 {')], C + '''
    let t = txt("abc.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    let h = digest(1, &wire("abc.a."));
    let (mut from, mut to) = (h.clone(), h);
    from[19] = 0;
    to[19] = 255;
    v.extend(signed(&[NSec3 { name: nm(&(b32(&from) + ".a.")), hash_algo: 1, flags: 3, hash_iterations: 0, salt: vec![], next_name_hash: to, types: mask() }.into()], &k));
    assert!(!accepted(&v), "an opt-out record with a further flag is relied on");
''', 'an opt-out NSEC3 record with a further flag', 'opt-out records are relied on')

bug('ds-tld', 'C21', Q, [('''				if key_name.as_str() != "." {
''', '''				if key_name.as_str() != "." && (key_name.labels() > 1 || self.queries_made < MAX_REQUESTS) {
''')], '''
    let (mut b, _) = ProofBuilder::new(&nm("x."), 16);
    let mut d = vec![];
    let z = ["a.", "b.", "c.", "d.", "e."];
    for n in &z[..4] {
        write_rr(&RR::from(sign(&[txt("x.", b"x")], &key(n, 13, 7))), 5, &mut d);
    }
    let q = b.process_response(&qbuf(&response(4, 0, &d))).unwrap();
    assert_eq!(q.len(), 8);
    let mut d = vec![];
    write_rr(&RR::from(sign(&[txt("x.", b"x")], &key("e.", 13, 7))), 5, &mut d);
    let q = b.process_response(&qbuf(&response(1, 0, &d)));
    assert!(!b.awaiting_responses() && q.map(|q| q.is_empty()).unwrap_or(true), "the limit is passed");
''', 'a fifth top level domain in one proof', 'the DS records of the last zone are not asked for')

bug('ecdsa-trunc', 'C17', V, [('''					key.extend_from_slice(&dnskey.pubkey);

''', '''					key.extend(dnskey.pubkey.iter().take(96));

''')], '''
    let r = root_key();
    let mut k = key("a.", 14, 7);
    k.pubkey = vec![7; 97];
    let mut s = k.clone();
    s.pubkey.pop();
    let mut v = root(&r);
    v.extend(signed(&[ds(&k).into()], &r));
    let t = txt("x.a.", b"x");
    for set in [RR::from(k.clone()), t] {
        let mut g = sign(&[set.clone()], &k);
        resign(&mut g, &[set.clone()], &s);
        v.push(set);
        v.push(g.into());
    }
    assert!(!accepted(&v), "a key with bytes at its end is used without them");
''', 'a P-384 key with a byte too many', 'a malformed key is used')

bug('signers-many', 'C32', Q, [('''		if let RR::RRSig(rrsig) = rr { rrsig_key_names.push(rrsig.key_name); }
	}

	for''', '''		if let RR::RRSig(rrsig) = rr {
			// CNAMEs and their targets are usually in the same zones
			if rrsig_key_names.len() < 2 { rrsig_key_names.push(rrsig.key_name); }
		}
	}

	for''')], '''
    let (mut b, _) = ProofBuilder::new(&nm("x."), 16);
    let mut d = vec![];
    for n in ["a.", "b.", "c."] {
        write_rr(&RR::from(sign(&[txt("x.", b"x")], &key(n, 13, 7))), 5, &mut d);
    }
    assert_eq!(b.process_response(&qbuf(&response(3, 0, &d))).unwrap().len(), 6, "the keys of the third zone are not asked for");
''', 'an alias across three zones in one response', 'the keys of the third zone are not asked for')

net('resp-big', 'C28', Q, [('''	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));
	stream.read_exact(&mut buf)?;
''', '''	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes) & 0x3fff);
	stream.read_exact(&mut buf)?;
''')], '''
    fn say(_: usize, _: &[u8]) -> Vec<Vec<u8>> {
        let mut d = vec![];
        for i in 0..100 {
            write_rr(&txt("x.", &[i as u8; 200]), 5, &mut d);
        }
        vec![framed(response(100, 0, &d))]
    }
    let (a, _) = resolver(say);
    let got = within(move || build_txt_proof(a, &nm("x.")));
    assert!(matches!(got, Some(Ok(p)) if p.0.len() > 20000), "a long response is not read completely");
''', 'a response of 16 KiB or more', 'only a part of it is read')

http('key-case', 'C30', H, [('''							if k == "d" {
''', '''							if k.trim_end_matches('.') == "d" {
''')], SRV + '''
    seen.lock().unwrap().clear();
    assert_eq!(s.status(&[b"GET /dnssecproof?d=x.&t=TXT&d.=y. HTTP/1.1\\r\\n\\r\\n"]), "200");
    assert_eq!(question(&seen.lock().unwrap()[0]).0, "x.");
''', 'a request with an unknown parameter whose name begins with that of a known one', 'unknown parameters are taken for others')
http('min-args', 'C30', H, [('''						} else { break 'ret_err; }
					}

''', '''						} else if !arg.is_empty() { break 'ret_err; }
					}

''')], SRV + '''
    assert_eq!(s.status(&[b"GET /dnssecproof?d=x.&&t=TXT HTTP/1.1\\r\\n\\r\\n"]), "400");
    drop(seen);
''', 'an empty parameter', 'malformed requests are answered')
