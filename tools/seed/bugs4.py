from bugs import bug, V, S, R, Q
B = 'src/base32.rs'
C = '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = root(&r);
    v.extend(zone(&r, &k));
'''
bug('cname-many', 'C18', V, [('''			let mut cname_search = self.verified_rrs.iter()
''', '''			let mut cname_search = self.verified_rrs.iter().take(64)
''')], '''
    let all: Vec<RR> = (0..100).map(|i| CName { name: nm(&format!("n{}.", i)), canonical_name: nm(&format!("n{}.", i + 1)) }.into()).chain([txt("n100.", b"x")]).collect();
    let v = VerifiedRRStream { verified_rrs: all.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 1 };
    assert_eq!(v.resolve_name(&nm("n0.")), vec![&all[100]], "the records at the end of the aliases");
''', 'more than 64 verified records', 'aliases beyond the first 64 records are not followed')

W = C + '''
    let t = txt("abc.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    let h = digest(1, &wire("abc.a."));
    let (mut from, mut to) = (h.clone(), vec![0xff; 20]);
    from[0] = 0x3f;
    to[19] = 254;
    let n = |label: &str| -> RR { NSec3 { name: nm(&(label.to_string() + ".a.")), hash_algo: 1, flags: 0, hash_iterations: 0, salt: vec![], next_name_hash: to.clone(), types: mask() }.into() };
    let label = b32(&from);
    if h[0] <= 0x40 {
        // (the stand-in for the hash gives something else)
        panic!("hash starts with {:x}", h[0]);
    }
'''
bug('b32-colon', 'C08', B, [('5, 6, 7, 8, 9, -1, -1,', '5, 6, 7, 8, 9, 0, -1,')], W + '''
    let bad = label[..7].to_string() + ":" + &label[8..];
    v.extend(signed(&[n(&bad)], &k));
    assert!(!accepted(&v), "a name which is not the form of a hash is taken for one");
''', 'an NSEC3 record whose owner contains a colon', 'names which are not base32hex are taken for hashes')

bug('b32-length', 'C08', B, [('match data.len() % 8 { 1|3|6 => return Err(()), _ => {} }', 'match data.len() % 8 { 3|6 => return Err(()), _ => {} }')], W + '''
    v.extend(signed(&[n(&(label + "0"))], &k));
    assert!(!accepted(&v), "a name which is not the form of a hash is taken for one");
''', 'an NSEC3 record whose owner has a 0 after the hash', 'names longer than a hash are taken for one')

bug('answers-many', 'C19', Q, [('''	for _ in 0..answers {
''', '''	for _ in 0..answers as u8 {
''')], '''
    let mut o = vec![];
    for i in 0..257u32 {
        o.extend_from_slice(&[0xc0, 12, 0, 1, 0, 1, 0, 0, 1, 0, 0, 4, 1, 2, (i >> 8) as u8, i as u8]);
    }
    let (mut b, _) = ProofBuilder::new(&nm("x."), 1);
    b.process_response(&qbuf(&response(257, 0, &o))).unwrap();
    let (p, _) = b.finish_proof().unwrap();
    assert_eq!(parse_rr_stream(&p).unwrap().len(), 257, "all answers are in the proof");
''', 'a response with more than 255 answers', 'all but the first few answers are lost')

bug('auth-ttl', 'C19', Q, [('''			_ => continue,
		}
		write_rr(&rr, ttl, proof);
		min_ttl = cmp::min(min_ttl, ttl);
''', '''			_ => continue,
		}
		write_rr(&rr, ttl, proof);
		if let RR::RRSig(_) = &rr { min_ttl = cmp::min(min_ttl, ttl); }
''')], '''
    let mut o = vec![0xc0, 12, 0, 1, 0, 1, 0, 0, 1, 0, 0, 4, 1, 2, 3, 4];
    o.extend_from_slice(&[0xc0, 12, 0, 47, 0, 1, 0, 0, 0, 9, 0, 6, 1, b'b', 0, 0, 1, 2]);
    let (mut b, _) = ProofBuilder::new(&nm("x."), 1);
    b.process_response(&qbuf(&response(1, 1, &o))).unwrap();
    assert_eq!(b.finish_proof().unwrap().1, 9, "the lowest TTL");
''', 'an NSEC record with a lower TTL than everything else, also its signature', 'the proof is cached for longer than one of its records')

bug('bitmap-last', 'C14', S, [('''pub(crate) fn write_nsec_types_bitmap<W: Writer>(out: &mut W, types: &[u8; 8192]) {
	for (idx, flags) in types.chunks(32).enumerate() {
''', '''pub(crate) fn write_nsec_types_bitmap<W: Writer>(out: &mut W, types: &[u8; 8192]) {
	for (idx, flags) in types.chunks(32).enumerate().take(u8::MAX as usize) {
''')], '''
    let n: RR = NSec { name: nm("a."), next_name: nm("b."), types: NSecTypeMask::from_types(&[1, 65500]) }.into();
    let mut o = vec![];
    write_rr(&n, 1, &mut o);
    assert_eq!(parse_rr_stream(&o), Ok(vec![n]), "what is written is read back");
''', 'a type in the last block of 256 types', 'the last block of the bitmap is not written')

bug('ds-many', 'C04', V, [('''		for ds in dses.clone() {
			if ds.alg != dnskey.alg { continue; }
''', '''		for ds in dses.clone().take(4) {
			if ds.alg != dnskey.alg { continue; }
''')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = root(&r);
    let mut all: Vec<RR> = (20..25).map(|i| ds(&key("a.", 13, i)).into()).collect();
    all.push(ds(&k).into());
    v.extend(signed(&all, &r));
    v.extend(signed(&[k.clone().into()], &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    assert!(accepted(&v), "a valid proof");
''', 'more than four DS records', 'the DS record of the key is not looked at')

bug('keys-many', 'C04', V, [('''	for dnskey in dnskeys.into_iter() {
''', '''	for dnskey in dnskeys.into_iter().take(8) {
''')], '''
    let r = root_key();
    let ks: Vec<DnsKey> = (7..17).map(|i| key("a.", 13, i)).collect();
    let mut v = root(&r);
    v.extend(signed(&[ds(&ks[0]).into()], &r));
    let set: Vec<RR> = ks.iter().map(|k| k.clone().into()).collect();
    v.extend(signed(&set, &ks[0]));
    v.extend(signed(&[txt("x.a.", b"x")], &ks[9]));
    assert!(accepted(&v), "a valid proof");
''', 'a zone with more than eight keys', 'a signature by the ninth key is not verified')

bug('sigs-many', 'C04', V, [('''		for rrsig in inp.iter()
			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
''', '''		for rrsig in inp.iter()
			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE).take(32)
''')], C + '''
    for i in 0..40 {
        v.extend(signed(&[txt(&format!("x{}.a.", i), b"x")], &k));
    }
    assert_eq!(returned(&v).map(|r| r.len()), Some(40), "all signed records are returned");
''', 'a zone with more than 32 signatures', 'the records of further signatures are not returned')

bug('stream-many', 'C11', S, [('''	while !inp.is_empty() {
		res.push(parse_rr(&mut inp)?);
''', '''	while !inp.is_empty() && res.len() <= 128 {
		res.push(parse_rr(&mut inp)?);
''')], '''
    let mut o = vec![];
    for i in 0..200u8 {
        write_rr(&txt("x.", &[i]), 1, &mut o);
    }
    assert_eq!(parse_rr_stream(&o).map(|r| r.len()), Ok(200), "every record is read");
''', 'a proof of more than 129 records', 'the rest of a long proof is ignored')

bug('labels-many', 'C13', R, [("self.as_str().chars().filter(|c| *c == '.').count() as u8", "self.as_str().chars().filter(|c| *c == '.').take(63).count() as u8")], '''
    assert_eq!(nm(&"a.".repeat(100)).labels(), 100, "labels() counts the labels");
''', 'a name of more than 63 labels', 'only 63 labels are counted')

bug('pointer-hops', 'C20', S, [('do_read_wire_packet_labels(inp, wire_packet, name, 255)', 'do_read_wire_packet_labels(inp, wire_packet, name, 16)')], '''
    // every label of the name is followed by a pointer to the rest
    let mut o = vec![0xc0, 12, 0, 48, 0, 1, 0, 0, 1, 0, 0, 84, 1, 1, 3, 13];
    let start = 12 + 7 + 16;
    let mut last = 12u16;
    for i in 0..20u16 {
        o.extend_from_slice(&[1, b'a', 0xc0, last as u8]);
        last = start + i * 4;
    }
    o.extend_from_slice(&[0xc0, last as u8, 0, 1, 0, 1, 0, 0, 1, 0, 0, 4, 1, 2, 3, 4]);
    let mut resp = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 2, 0, 0, 0, 0, 1, b'q', 0, 0, 16, 0, 1];
    resp.extend_from_slice(&o);
    let (mut b, _) = ProofBuilder::new(&nm("q."), 1);
    assert!(b.process_response(&qbuf(&resp)).is_ok(), "a compressed name is read");
''', 'a name compressed with more than 16 pointers', 'responses with such a name are rejected')

bug('asked-last', 'C21', Q, [('if !self.dnskeys_requested.contains(&key_name) {', 'if self.dnskeys_requested.last() != Some(&key_name) {')], '''
    let sig = |signer: u8| {
        let mut o = vec![0xc0, 12, 0, 46, 0, 1, 0, 0, 1, 0, 0, 23, 0, 16, 13, 1, 0, 0, 0, 9, 0, 0, 0, 9, 0, 0, 0, 7, 1, 1, 1, signer, 0, 1, 2];
        o.truncate(12 + 23);
        o
    };
    let (mut b, _) = ProofBuilder::new(&nm("x."), 16);
    let mut two = sig(b'a');
    two.extend(sig(b'b'));
    assert_eq!(b.process_response(&qbuf(&response(2, 0, &two))).unwrap().len(), 4);
    assert_eq!(b.process_response(&qbuf(&response(1, 0, &sig(b'a')))).unwrap().len(), 0, "a signer is asked for once");
''', 'a signer which was asked for before another one', 'the same queries are sent again')

bug('iter-limit', 'C08', V, [('if nsec3.hash_iterations > 2500 {', 'if nsec3.hash_iterations & 0xfff > 2500 {')], C + '''
    let t = txt("abc.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    v.extend(signed(&[NSec3 { name: nm(&(b32(&[1; 20]) + ".a.")), hash_algo: 1, flags: 0, hash_iterations: 0x9000, salt: vec![], next_name_hash: vec![0xfe; 20], types: mask() }.into()], &k));
    let before = HASHES.load(std::sync::atomic::Ordering::SeqCst);
    accepted(&v);
    let n = HASHES.load(std::sync::atomic::Ordering::SeqCst) - before;
    assert!(n < 5000, "{} hashes are made for one NSEC3 record", n);
''', 'an iteration count of 0x9000', 'tens of thousands of hashes are made')

bug('dname-type', 'C25', R, [('DName::TYPE => Some("DNAME"),', 'DName::TYPE => Some("CNAME"),')], '''
    let n: RR = NSec { name: nm("a."), next_name: nm("b."), types: NSecTypeMask::from_types(&[39]) }.into();
    assert!(n.json().contains("DNAME"), "{}", n.json());
''', 'a bitmap with the type DNAME', 'the JSON says CNAME')

bug('time-cutoff', 'C05', V, [('if time < 60*60*24*365*27 {', 'if time <= 60*60*24*365*28 {')], C + '''
    let t = txt("x.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t.clone()], &k, 2, 3600, 870000000, 1800000000).into());
    let v: Vec<RR> = v;
    let s = verify_rr_stream(&v);
    assert!(s.is_ok(), "a signature since 1997 is valid now");
''', 'an inception in 1997', 'it is taken to be in the next century')

bug('expiry-equal', 'C05', V, [('earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));', 'if rrsig.ty != NSec::TYPE { earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration)); }')], C + '''
    let t = txt("abc.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    let n: RR = NSec { name: nm("a."), next_name: nm("z.a."), types: mask() }.into();
    v.push(n.clone());
    v.push(sign_with(&[n], &k, 1, 3600, 1700000000, 1750000000).into());
    assert!(verify_rr_stream(&v).unwrap().expires <= 1750000000, "the proof that there is no closer match ends before");
''', 'an NSEC record whose signature ends before the others', 'the result is said to be valid for longer')

bug('rdata-len', 'C09', R, [('''		let mut data_write = &self.data[..];
		out.extend_from_slice(&[data_write.len().try_into().unwrap_or(255)]);
''', '''		let mut data_write = &self.data[..];
		out.extend_from_slice(&[data_write.len().try_into().unwrap_or(254)]);
		if data_write.len() > 255 { let l = out.len(); out[l - 1] = if data_write.len() < 4096 { 255 } else { 254 }; }
''')], '''
    let t = txt("a.", &[7; 5000]);
    let mut o = vec![];
    write_rr(&t, 1, &mut o);
    assert_eq!(parse_rr_stream(&o), Ok(vec![t]), "what is written is read back");
''', 'a TXT record of more than 4095 bytes', 'its first length is wrong')
