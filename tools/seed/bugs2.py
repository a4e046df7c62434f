from bugs import bug, V, S, R, Q
C = '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = root(&r);
    v.extend(zone(&r, &k));
'''
bug('protocol', 'C01', V, [('if dnskey.protocol != 3 { continue; }', 'if dnskey.protocol < 3 { continue; }')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut k2 = key("a.", 13, 9);
    k2.protocol = 4;
    let mut v = root(&r);
    v.extend(signed(&[ds(&k).into()], &r));
    v.extend(signed(&[k.clone().into(), k2.clone().into()], &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k2));
    assert!(!accepted(&v), "a key of another protocol authenticates a record");
''', 'a key with a protocol of more than 3', 'keys for other protocols are used')

bug('sig-alg', 'C01', V, [('			if dnskey.alg != sig.alg { continue; }\n', '			if dnskey.alg < sig.alg { continue; }\n')], '''
    let r = root_key();
    let k = key("a.", 15, 7);
    let mut v = root(&r);
    v.extend(zone(&r, &k));
    let set = [txt("x.a.", b"x")];
    let mut s = sign(&set, &k);
    // the same key bytes, taken for a key of another algorithm
    s.alg = 13;
    let mut k13 = k.clone();
    k13.alg = 13;
    resign(&mut s, &set, &k13);
    v.extend(set.clone());
    v.push(s.into());
    assert!(!accepted(&v), "a key is used with the algorithm of the signature instead of its own");
''', 'a signature of an algorithm lower than that of the key with its tag', 'keys are used for other algorithms than their own')

bug('ds-tag', 'C02', V, [('			if dnskey.key_tag() == ds.key_tag {\n', '			if dnskey.key_tag() == ds.key_tag || ds.digest_type == 2 {\n')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut d = ds(&k);
    d.key_tag ^= 0x100;
    let mut v = root(&r);
    v.extend(signed(&[d.into()], &r));
    v.extend(signed(&[k.clone().into()], &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    assert!(!accepted(&v), "a DS record with another key tag authenticates a key");
''', 'a DS record with the digest of a key but another key tag', 'the key tag of DS records is not compared')

bug('ds-unsupported', 'C04', V, [('					_ => continue,\n				};\n				write_name(&mut ctx', '					_ => break,\n				};\n				write_name(&mut ctx')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut d4 = ds(&k);
    d4.digest_type = 4;
    d4.digest = vec![4; 48];
    let mut v = root(&r);
    v.extend(signed(&[d4.into(), ds(&k).into()], &r));
    v.extend(signed(&[k.clone().into()], &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    assert!(accepted(&v), "a zone with an additional DS record of a digest type which is not supported is rejected");
''', 'a DS set where a record with an unsupported digest type comes before the supported one for the same key', 'such zones are rejected, depending on the order of the records')

bug('signer-name', 'C03', V, [('.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)',
                               '.filter(move |rrsig| rrsig.key_name.ends_with(zone) && rrsig.key_name.labels() as usize == zone.split_terminator(".").count() && rrsig.ty != DnsKey::TYPE)'.replace('split_terminator(".").count()', 'trim_matches(\'.\').split(\'.\').filter(|l| !l.is_empty()).count()'))], C + '''
    let set = [txt("x.a.", b"x")];
    let mut s = sign(&set, &k);
    s.key_name = nm("xa.");
    resign(&mut s, &set, &k);
    v.extend(set.clone());
    v.push(s.into());
    assert!(!accepted(&v), "a signature which names another zone as its signer is relied on");
''', 'a signature whose signer name merely ends with the characters of the zone', 'signatures of other zones are relied on')

bug('ttl-dnskey', 'C05', V, [('		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);', '		if min_ttl == u32::MAX { min_ttl = verified_dnskey_rrsig.orig_ttl; }')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = root(&r);
    v.extend(signed(&[ds(&k).into()], &r));
    v.push(k.clone().into());
    v.push(sign_with(&[k.clone().into()], &k, 1, 60, 1700000000, 1800000000).into());
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    let t = verify_rr_stream(&v).ok().expect("valid").max_cache_ttl;
    assert!(t <= 60, "the TTL of a key set is exceeded: {}", t);
''', 'a key set below the root with a lower TTL than everything else', 'the cache lifetime exceeds the TTL of key sets')

bug('nsec-times', 'C05', V, [('			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));\n			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));',
                              '			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));\n			if rrsig.ty != NSec::TYPE { earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration)); }')], C + '''
    let t = txt("abc.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    let n: RR = NSec { name: nm("a."), next_name: nm("x.a."), types: mask() }.into();
    v.push(n.clone());
    v.push(sign_with(&[n], &k, 1, 3600, 1700000000, 1750000000).into());
    let e = verify_rr_stream(&v).ok().expect("valid").expires;
    assert!(e <= 1750000000, "the proof outlives the denial it relies on: {}", e);
''', 'a wildcard answer whose NSEC record expires before everything else', 'the expiry of denial records is ignored')

bug('nsec3-params', 'C06', V, [('			if nsec3params_to_name_hash.len() >= 2 {', '			if nsec3params_to_name_hash.len() >= 200 {')], C + '''
    let t = txt("abc.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    for i in 0..60u8 {
        let n: RR = NSec3 { name: nm(&(b32(&[i; 20]) + ".a.")), hash_algo: 1, flags: 1, hash_iterations: 2000, salt: vec![i], next_name_hash: vec![255; 20], types: mask() }.into();
        v.extend(signed(&[n], &k));
    }
    HASHES.store(0, std::sync::atomic::Ordering::SeqCst);
    assert!(!accepted(&v));
    let n = HASHES.load(std::sync::atomic::Ordering::SeqCst);
    assert!(n < 20000, "{} digests for one name", n);
''', 'a proof with many NSEC3 records with different salts and high iteration counts', 'the work for one name is not limited')

bug('nsec3-iter', 'C08', V, [('			if nsec3.hash_iterations > 2500 {', '			if nsec3.hash_iterations & 0xfff > 2500 {')], C + '''
    let t = txt("abc.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    let mut h = wire("abc.a.");
    for _ in 0..=4100 {
        h = digest(1, &h);
    }
    let (mut from, mut to) = (h.clone(), h.clone());
    from[19] = 0;
    to[19] = 255;
    let n: RR = NSec3 { name: nm(&(b32(&from) + ".a.")), hash_algo: 1, flags: 0, hash_iterations: 4100, salt: vec![], next_name_hash: to, types: mask() }.into();
    v.extend(signed(&[n], &k));
    assert!(!accepted(&v), "an NSEC3 record with too many iterations is relied on");
''', 'an NSEC3 record with 4096 to 6596 iterations', 'the limit of iterations is not kept')

bug('next-closer', 'C07', V, [('rrsig.name.trailing_n_labels(rrsig.labels + 1)', 'rrsig.name.trailing_n_labels(cmp::max(rrsig.labels + 1, rrsig.name.labels().saturating_sub(1)))')], C + '''
    let t = txt("c.d.b.e.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    // d.b.e.a. does not exist, but e.a. does
    let n: RR = NSec { name: nm("c.b.e.a."), next_name: nm("f.b.e.a."), types: mask() }.into();
    v.extend(signed(&[n], &k));
    assert!(!accepted(&v), "a name which exists was taken for an expansion of a wildcard above it");
''', 'an expansion which replaces at least three labels', 'the denial is looked up for a name with too many labels')

bug('nsec-underscore', 'C07', V, [("if a >= 'A' as u8 && a <= 'Z' as u8 {", "if a >= 'A' as u8 && a <= '_' as u8 {"), ("if b >= 'A' as u8 && b <= 'Z' as u8 {", "if b >= 'A' as u8 && b <= '_' as u8 {")], C + '''
    let t = txt("_b.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    let n: RR = NSec { name: nm("z.a."), next_name: nm("_c.a."), types: mask() }.into();
    v.extend(signed(&[n], &k));
    assert!(!accepted(&v), "an underscore is not after the letters");
''', 'names with labels which start with an underscore', 'names with underscores are ordered after letters')

bug('nsec3-edge', 'C08', V, [('&start_hash[..] < name_hash.as_ref() &&', '&start_hash[..] <= name_hash.as_ref() &&')], C + '''
    let t = txt("abc.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    let h = digest(1, &wire("abc.a."));
    let n: RR = NSec3 { name: nm(&(b32(&h) + ".a.")), hash_algo: 1, flags: 0, hash_iterations: 0, salt: vec![], next_name_hash: vec![255; 20], types: mask() }.into();
    v.extend(signed(&[n], &k));
    assert!(!accepted(&v), "an NSEC3 record which says that the name exists denies it");
''', 'an NSEC3 record which matches the name', 'a record which matches the name denies it')

bug('nsec3-find', 'C08', V, [('''				.find(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt)''', '''				.find(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && salt.len() == nsec3.salt.len())''')], C + '''
    let t = txt("abc.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    let hash = |salt: u8| { let mut m = wire("abc.a."); m.push(salt); digest(1, &m) };
    let h = hash(2);
    let (mut from, mut to) = (h.clone(), h.clone());
    from[19] = 0;
    to[19] = 255;
    let n = |name: &[u8], salt, to: &[u8]| -> RR { NSec3 { name: nm(&(b32(name) + ".a.")), hash_algo: 1, flags: 0, hash_iterations: 0, salt: vec![salt], next_name_hash: to.to_vec(), types: mask() }.into() };
    let o = hash(1);
    v.extend(signed(&[n(&o, 1, &o)], &k));
    v.extend(signed(&[n(&from, 2, &to)], &k));
    assert!(accepted(&v), "the record which covers the name is not found");
''', 'NSEC3 records with two different salts of the same length', 'the hash of another salt is compared')

bug('bitmap-window', 'C10', S, [('if len == 0 || len > 32 || inp.len() < len as usize { return Err(()); }', 'if len == 0 || (len > 32 && block < 255) || inp.len() < len as usize { return Err(()); }')], '''
    let mut o = vec![1, b'a', 0, 0, 47, 0, 1, 0, 0, 0, 1, 0, 38];
    o.extend_from_slice(&[1, b'b', 0, 255, 33]);
    o.extend_from_slice(&[1; 33]);
    let r = std::panic::catch_unwind(|| parse_rr_stream(&o).is_ok());
    assert!(matches!(r, Ok(false)), "an overlong bitmap window makes the parser panic");
''', 'an NSEC record with an overlong last window', 'the parser panics')

bug('bitmap-empty', 'C15', S, [('if len == 0 || len > 32 || inp.len()', 'if (len == 0 && block != 0) || len > 32 || inp.len()')], '''
    let mut o = vec![1, b'a', 0, 0, 47, 0, 1, 0, 0, 0, 1, 0, 8];
    o.extend_from_slice(&[1, b'b', 0, 0, 0, 1, 1, 0x40]);
    assert!(parse_rr_stream(&o).is_err(), "an empty window is accepted");
''', 'a bitmap whose first window is empty', 'empty windows are accepted')

bug('cname-trailing', 'C11', R, [('''		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
		if !data.is_empty() { return Err(()); }''', '''		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
		if !data.is_empty() && wire_packet.is_empty() && res.name.labels() < 4 { return Err(()); }''')], '''
    let mut o = vec![];
    for _ in 0..4 {
        o.extend_from_slice(&[1, b'a']);
    }
    o.extend_from_slice(&[0, 0, 5, 0, 1, 0, 0, 0, 1, 0, 4, 1, b'b', 0, 7]);
    assert!(parse_rr_stream(&o).is_err(), "data left over after a CNAME is ignored");
''', 'a CNAME record with four or more labels and trailing data', 'trailing data is ignored')

bug('label-64', 'C13', R, [('if label.is_empty() || label.len() > 63 { return Err(()); }', 'if label.is_empty() || label.len() >= 65 { return Err(()); }')], '''
    assert!(Name::try_from(("a".repeat(64) + ".b.").as_str()).is_err(), "a label of 64 characters is accepted");
''', 'a label of 64 characters', 'labels which are too long are accepted')

bug('name-space', 'C13', R, [("if s.chars().any(|c| !c.is_ascii_graphic() || c == '\"') { return Err(()); }", "if s.chars().any(|c| (!c.is_ascii_graphic() && c != '\\u{7f}') || c == '\"') { return Err(()); }")], '''
    assert!(Name::try_from("a\\u{7f}.").is_err(), "a name with a control character is accepted");
''', 'a name with a DEL character', 'control characters are accepted in names')

bug('rrsig-len', 'C14', R, [('		let len = 2 + 1 + 1 + 4*3 + 2 + name_len(&self.key_name) + self.signature.len() as u16;', '		let len = 2 + 1 + 1 + 4*3 + 2 + name_len(&self.key_name) + (self.signature.len() & 0xff) as u16 + if self.signature.len() > 255 { 256 } else { 0 };')], '''
    let s: RR = RRSig { name: nm("a."), ty: 16, alg: 8, labels: 1, orig_ttl: 1, expiration: 2, inception: 1, key_tag: 1, key_name: nm("a."), signature: vec![7; 512] }.into();
    let mut o = vec![];
    write_rr(&s, 1, &mut o);
    assert!(parse_rr_stream(&o) == Ok(vec![s]), "a long signature does not survive serialization");
''', 'a signature of at least 512 bytes (as 4096 bit RSA keys make)', 'the length written is wrong')

bug('rsa-empty', 'C17', V, [('	if pubkey.len() <= pos + exponent_length { return Err(()); }', '	if pubkey.len() < pos + exponent_length { return Err(()); }')], '''
    let r = root_key();
    let mut k = key("a.", 8, 7);
    k.pubkey = vec![3, 1, 0, 1];
    let mut v = root(&r);
    v.extend(zone(&r, &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    assert!(!accepted(&v), "a key without a modulus is used");
''', 'an RSA key which has an exponent but no modulus', 'a malformed key is used')

bug('rcode-four', 'C19', Q, [('	if answers == 0 { return Err(()); }', '	if answers == 0 && read.len() < 5 { return Err(()); }')], '''
    let p = response(0, 0, &[0; 12]);
    let (mut b, _) = ProofBuilder::new(&nm("."), 16);
    assert!(b.process_response(&qbuf(&p)).is_err(), "a response without answers is accepted");
''', 'a response without answers', 'responses without answers are accepted')

bug('auth-nsec', 'C19', Q, [('			RR::NSec(_)|RR::NSec3(_) => {},\n			_ => continue,', '			RR::NSec(n) if n.name == n.next_name => continue,\n			RR::NSec(_)|RR::NSec3(_) => {},\n			_ => continue,'.replace('RR::NSec(_)|RR::NSec3(_) => {},', 'RR::NSec3(_)|RR::NSec(_) => {},'))], '''
    let mut a = vec![0, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4];
    // the only name of its zone: the next name is the name itself
    let n = [1, b'z', 0, 0, 47, 0, 1, 0, 0, 0, 9, 0, 6, 1, b'z', 0, 0, 1, 0x40];
    a.extend_from_slice(&n);
    let p = response(1, 1, &a);
    let (mut b, _) = ProofBuilder::new(&nm("."), 16);
    b.process_response(&qbuf(&p)).expect("response");
    let (proof, _) = b.finish_proof().expect("proof");
    assert_eq!(parse_rr_stream(&proof).expect("parses").len(), 2, "a denial record is lost");
''', 'an NSEC record in the authority section whose next name is its own name', 'such denial records are lost')

bug('pointer-loop', 'C20', S, [('do_read_wire_packet_labels(&mut &wire_packet[offs..], wire_packet, name, recursion_limit - 1)?;', 'do_read_wire_packet_labels(&mut &wire_packet[offs..], wire_packet, name, recursion_limit - (len & 1))?;')], '''
    // a name which is a pointer to itself
    let p = response(1, 0, &[0xc0, 17, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]);
    let (mut b, _) = ProofBuilder::new(&nm("."), 16);
    let t = std::thread::spawn(move || b.process_response(&qbuf(&p)).is_err());
    assert!(t.join().expect("thread"), "a circular name is accepted");
''', 'a name which is a pointer to itself', 'circular names use up the stack')

bug('max-requests', 'C21', Q, [('		if self.pending_queries > 0 || self.queries_made > MAX_REQUESTS {', '		if self.pending_queries > 0 || self.queries_made >= MAX_REQUESTS {')], '''
    let sigrr = |z: u8| {
        let mut p = vec![0, 0, 46, 0, 1, 0, 0, 0, 9, 0, if z == 0 { 20 } else { 22 }, 0, 16, 13, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 1];
        if z != 0 {
            p.extend_from_slice(&[1, z]);
        }
        p.extend_from_slice(&[0, 7]);
        p
    };
    let (mut b, _) = ProofBuilder::new(&nm("."), 16);
    let mut a = vec![];
    for z in [0, b'a', b'b', b'c', b'd'] {
        a.extend_from_slice(&sigrr(z));
    }
    let q = b.process_response(&qbuf(&response(5, 0, &a))).expect("response");
    assert_eq!(q.len(), 9);
    for _ in 0..9 {
        assert!(b.awaiting_responses());
        b.process_response(&qbuf(&response(1, 0, &[0, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]))).expect("response");
    }
    assert!(!b.awaiting_responses());
    assert!(b.finish_proof().is_ok(), "a proof with exactly as many queries as allowed is refused");
''', 'a proof which takes exactly as many queries as allowed', 'there is no proof though all queries were answered')

bug('txt-last', 'C24', R, [('				for i in 1..(self.data.len() / 255) + 2 {', '				for i in 1..(self.data.len() / 255) + 1 + (self.data.len() < 255) as usize {')], '''
    let (a, b) = (txt("a.", &[1; 300]), txt("a.", &[&[1; 299][..], &[2][..]].concat()));
    assert!(a != b && a.cmp(&b) != std::cmp::Ordering::Equal, "different records are ordered as equal");
''', 'TXT records which differ only after 255 bytes', 'the order does not agree with equality')

bug('anchor', 'C26', V, [('DDE32F24E8FB5"', 'DDE32F24E8FB"'.replace('FB"', 'FD5"'))], '''
    let d = root_hints().into_iter().find(|d| d.key_tag == 19036).expect("anchor").digest;
    let h: String = d.iter().map(|b| format!("{:02x}", b)).collect();
    assert_eq!(h, "49aac11d7b6f6446702e54a1607371607a1a41855200fd2ce1cdde32f24e8fb5");
''', 'a root key set signed by the key of 2010', 'the digest of a root key is wrong')
