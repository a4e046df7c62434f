V, S, R, Q = 'src/validation.rs', 'src/ser.rs', 'src/rr.rs', 'src/query.rs'
BUGS = []


def bug(id, prop, file, edits, main, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, main=main, needs=needs, breaks=breaks))


bug('zone-flag', 'C01', V, [('if dnskey.flags & 0b1_0000_0000 == 0 { continue; }', 'if dnskey.flags & 0b1_0000_0001 == 0 { continue; }')], '''
    let r = root_key();
    let mut k = key("a.", 13, 7);
    let mut k2 = key("a.", 13, 9);
    k.flags = 257;
    // not a zone key, though in the zone's (signed) key set
    k2.flags = 1;
    let mut v = root(&r);
    v.extend(signed(&[ds(&k).into()], &r));
    v.extend(signed(&[k.clone().into(), k2.clone().into()], &k));
    v.extend(signed(&[txt("x.a.", b"forged")], &k2));
    assert!(!accepted(&v), "a record signed by a key without the zone key flag is authenticated");
''', 'a key set which contains a key without the ZONE flag but with the SEP flag, which signs a record', 'keys which are not zone keys can authenticate records')

bug('ds-alg', 'C02', V, [('''			if ds.alg != dnskey.alg { continue; }
			if dnskey.key_tag() == ds.key_tag {''', '''			if dnskey.key_tag() == ds.key_tag {''')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut d = ds(&k);
    d.alg = 8;
    let mut v = root(&r);
    v.extend(signed(&[d.into()], &r));
    v.extend(signed(&[k.clone().into()], &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    assert!(!accepted(&v), "a DS record authenticates a key of another algorithm");
''', 'a DS record whose algorithm is not that of the key it digests', 'the algorithm of DS records is not compared with the key')

bug('ds-downgrade', 'C02', V, [('let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);',
                                'let trust_sha1 = dses.clone().all(|ds| ds.key_tag != dnskey.key_tag() || (ds.digest_type != 2 && ds.digest_type != 4));')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let other = key("a.", 13, 8);
    let mut v = root(&r);
    v.extend(signed(&[ds_with(&k, 1).into(), ds_with(&other, 2).into()], &r));
    v.extend(signed(&[k.clone().into()], &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    assert!(!accepted(&v), "a SHA-1 digest is relied on although the zone has a SHA-256 one");
''', 'a zone with a SHA-1 DS record for one key and a SHA-256 DS record for another', 'a weak digest is relied on although there is a strong one')

bug('ds-prefix', 'C02', V, [('if hash.as_ref() == &ds.digest {', 'if !ds.digest.is_empty() && hash.as_ref().starts_with(&ds.digest) {')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut d = ds(&k);
    d.digest.truncate(1);
    let mut v = root(&r);
    v.extend(signed(&[d.into()], &r));
    v.extend(signed(&[k.clone().into()], &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    assert!(!accepted(&v), "a truncated digest authenticates a key");
''', 'a DS record with a truncated digest', 'keys are authenticated by a prefix of their digest')

bug('unsupported-break', 'C04', V, [('Err(ValidationError::UnsupportedAlgorithm) => continue,', "Err(ValidationError::UnsupportedAlgorithm) => break,")], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let k2 = key("a.", 200, 9);
    let mut v = root(&r);
    v.extend(signed(&[ds(&k).into()], &r));
    v.extend(signed(&[k.clone().into(), k2.clone().into()], &k));
    let t = txt("x.a.", b"x");
    v.push(sign(&[t.clone()], &k2).into());
    v.push(sign(&[t.clone()], &k).into());
    v.push(t);
    assert_eq!(returned(&v).map(|r| r.len()), Some(1), "a record with an additional signature by an unsupported algorithm is lost");
''', 'a record set which also has a signature of an unsupported algorithm, before the supported one', 'signatures after one of an unsupported algorithm are not looked at')

bug('dnskey-times', 'C05', V, [('earliest_expiry = cmp::min(earliest_expiry, resolve_time(verified_dnskey_rrsig.expiration));',
                                'if zone == "." { earliest_expiry = cmp::min(earliest_expiry, resolve_time(verified_dnskey_rrsig.expiration)); }')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = root(&r);
    v.extend(signed(&[ds(&k).into()], &r));
    v.push(k.clone().into());
    v.push(sign_with(&[k.clone().into()], &k, 1, 3600, 1700000000, 1750000000).into());
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    let e = verify_rr_stream(&v).ok().expect("valid").expires;
    assert!(e <= 1750000000, "the proof outlives the signature over the zone's keys: {}", e);
''', 'a child zone whose key set signature expires before everything else', 'the expiry of key set signatures below the root is ignored')

bug('ttl-ds', 'C05', V, [('			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);', '			if rrsig.ty != DS::TYPE { min_ttl = cmp::min(min_ttl, rrsig.orig_ttl); }')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = root(&r);
    v.push(ds(&k).into());
    v.push(sign_with(&[ds(&k).into()], &r, 1, 60, 1700000000, 1800000000).into());
    v.extend(signed(&[k.clone().into()], &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    let t = verify_rr_stream(&v).ok().expect("valid").max_cache_ttl;
    assert!(t <= 60, "the TTL of the DS records is exceeded: {}", t);
''', 'DS records with a lower TTL than everything else', 'the cache lifetime exceeds the TTL of DS records')

bug('keytrap', 'C06', V, [('			sig_validation?;\n\n			return Ok(());', '			if sig_validation.is_ok() { return Ok(()); }')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    // keys with the same key tag
    let mut ks: Vec<RR> = vec![k.clone().into()];
    for i in 0..20u8 {
        let mut x = k.clone();
        x.pubkey[i as usize * 2] = 8;
        x.pubkey[i as usize * 2 + 2] = 6;
        assert_eq!(tag(&x), tag(&k));
        ks.push(x.into());
    }
    let mut v = root(&r);
    v.extend(signed(&[ds(&k).into()], &r));
    v.extend(signed(&ks, &k));
    let mut s = sign(&[txt("x.a.", b"x")], &k);
    s.signature = vec![9; 9];
    v.push(txt("x.a.", b"x"));
    v.push(s.into());
    assert!(!accepted(&v));
    let n = CHECKS.lock().unwrap().iter().filter(|c| !**c).count();
    assert!(n <= 1, "{} failing signature checks were made", n);
''', 'several keys with the same key tag and a signature which fails', 'each key with a colliding tag is tried, so that the work is quadratic')

bug('nsec-order', 'C07', V, [('''						(Some(_), None) => return Ordering::Greater,
						(None, Some(_)) => return Ordering::Less,
						(Some(mut a), Some(mut b)) => {''', '''						(Some(_), None) => return Ordering::Less,
						(None, Some(_)) => return Ordering::Less,
						(Some(mut a), Some(mut b)) => {''')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = root(&r);
    v.extend(zone(&r, &k));
    let t = txt("abc.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    // abcd.a. is after abc.a. so this proves nothing
    let n: RR = NSec { name: nm("abcd.a."), next_name: nm("x.a."), types: mask() }.into();
    v.extend(signed(&[n], &k));
    assert!(!accepted(&v), "an NSEC record which starts after the name denies it");
''', 'an NSEC record whose name continues the label of the expanded name', 'names which are prefixes of each other are ordered wrongly')

bug('nsec3-algo', 'C08', V, [('''			if nsec3.flags != 0 {
				// This is an opt-out''', '''			if nsec3.flags == 1 {
				// This is an opt-out''')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = root(&r);
    v.extend(zone(&r, &k));
    let t = txt("abc.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    let n = |flags| -> RR { NSec3 { name: nm("00000000000000000000000000000000.a."), hash_algo: 1, flags, hash_iterations: 0, salt: vec![], next_name_hash: vec![255; 20], types: mask() }.into() };
    let mut w = v.clone();
    w.extend(signed(&[n(0)], &k));
    assert!(accepted(&w));
    let mut w = v.clone();
    w.extend(signed(&[n(3)], &k));
    assert!(!accepted(&w), "an opt-out NSEC3 record denies a name");
''', 'an NSEC3 record with the opt-out flag and another one set', 'opt-out NSEC3 records with other flags are relied on')

bug('nsec3-salt', 'C08', V, [('''			for _ in 0..nsec3.hash_iterations {
				let res = hasher.finish();
				hasher = crypto::hash::Hasher::sha1();
				hasher.update(res.as_ref());
				hasher.update(&nsec3.salt);''', '''			for round in 0..nsec3.hash_iterations {
				let res = hasher.finish();
				hasher = crypto::hash::Hasher::sha1();
				hasher.update(res.as_ref());
				if round < 255 { hasher.update(&nsec3.salt); }''')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = root(&r);
    v.extend(zone(&r, &k));
    let t = txt("abc.a.", b"x");
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    let salt = vec![1, 2, 3];
    let mut h = wire("abc.a.");
    for _ in 0..=300 {
        h.extend_from_slice(&salt);
        h = digest(1, &h);
    }
    let mut from = h.clone();
    from[19] = 0;
    let mut to = h.clone();
    to[19] = 255;
    assert!(h[19] > 0 && h[19] < 255);
    let n: RR = NSec3 { name: nm(&(b32(&from) + ".a.")), hash_algo: 1, flags: 0, hash_iterations: 300, salt, next_name_hash: to, types: mask() }.into();
    v.extend(signed(&[n], &k));
    assert!(accepted(&v), "a record which covers the name is not accepted");
''', 'NSEC3 records with a salt and more than 255 iterations', 'the salt is left out of later iterations')

bug('wildcard-name', 'C09', V, [('if record.ty() != NSec::TYPE && record_labels != labels {', 'if record.ty() != NSec::TYPE && record.ty() != TLSA::TYPE && record_labels != labels {')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = root(&r);
    v.extend(zone(&r, &k));
    let t: RR = TLSA { name: nm("abc.a."), cert_usage: 3, selector: 1, data_ty: 1, data: vec![1, 2, 3] }.into();
    v.push(t.clone());
    v.push(sign_with(&[t], &k, 1, 3600, 1700000000, 1800000000).into());
    let n: RR = NSec { name: nm("a.a."), next_name: nm("x.a."), types: mask() }.into();
    v.extend(signed(&[n], &k));
    assert!(accepted(&v), "a TLSA record expanded from a wildcard is not accepted");
''', 'a TLSA record expanded from a wildcard', 'the signed name of TLSA records is not the wildcard')

bug('root-zone-mix', 'C03', V, [(".filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)",
                                 ".filter(move |rrsig| (rrsig.key_name.as_str() == zone || (zone == \".\" && rrsig.key_tag == 0)) && rrsig.ty != DnsKey::TYPE)")], '''
    // a signature whose signer is said to be a zone but which the root made
    let r = root_key();
    let mut z = r.clone();
    z.flags = 256;
    z.pubkey[4] = 0;
    z.pubkey[5] = 0;
    let t = tag(&z);
    z.pubkey[4] = (0u16.wrapping_sub(t) >> 8) as u8;
    z.pubkey[5] = 0u16.wrapping_sub(t) as u8;
    assert_eq!(tag(&z), 0);
    let mut v = signed(&[r.clone().into(), z.clone().into()], &r);
    let set = [txt("x.a.", b"x")];
    let mut s = sign(&set, &z);
    s.key_name = nm("a.");
    resign(&mut s, &set, &z);
    v.extend(set.clone());
    v.push(s.into());
    assert!(!accepted(&v), "a signature which names another zone as its signer is accepted");
''', 'a root key with tag 0 and a signature by it which names another zone as its signer', 'signatures that name another zone are accepted from the root')

bug('nsec3-short', 'C14', R, [('out.extend_from_slice(&self.next_name_hash);', 'out.extend_from_slice(&self.next_name_hash[..self.next_name_hash.len().min(254)]);')], '''
    let n: RR = NSec3 { name: nm("a."), hash_algo: 1, flags: 0, hash_iterations: 0, salt: vec![], next_name_hash: vec![7; 255], types: mask() }.into();
    let mut o = vec![];
    write_rr(&n, 1, &mut o);
    assert!(parse_rr_stream(&o) == Ok(vec![n]), "an NSEC3 record does not survive serialization");
''', 'an NSEC3 record with a hash of 255 bytes', 'the length written is not that of the data')

bug('salt-panic', 'C10', S, [('	if inp.len() < len.into() { return Err(()); }\n	let mut res', '	if inp.len() + 1 < len.into() { return Err(()); }\n	let mut res')], '''
    let mut o = vec![1, b'a', 0, 0, 50, 0, 1, 0, 0, 0, 1, 0, 7];
    o.extend_from_slice(&[1, 0, 0, 0, 3, 1, 2]);
    let r = std::panic::catch_unwind(|| parse_rr_stream(&o).is_ok());
    assert!(matches!(r, Ok(false)), "a truncated NSEC3 record makes the parser panic");
''', 'an NSEC3 record whose salt is cut short by one byte', 'the parser panics')

bug('aaaa-long', 'C11', R, [('if data.len() != 16 { return Err(()); }', 'if data.len() < 16 || data.len() % 4 != 0 { return Err(()); }')], '''
    let mut o = vec![1, b'a', 0, 0, 28, 0, 1, 0, 0, 0, 1, 0, 20];
    o.extend_from_slice(&[7; 20]);
    let r = std::panic::catch_unwind(|| parse_rr_stream(&o).is_ok());
    assert!(matches!(r, Ok(false)), "an AAAA record with 20 bytes is accepted");
''', 'an AAAA record with 20 bytes of data', 'overlong AAAA data is accepted')

bug('name-254', 'C12', S, [('		if name.len() > 255 { return Err(()); }', '		if name.len() >= 255 { return Err(()); }')], '''
    let mut o = vec![];
    for _ in 0..127 {
        o.extend_from_slice(&[1, b'a']);
    }
    // one more character: 255 in all
    o.splice(0..2, [2, b'a', b'a']);
    let n = o.len();
    o.extend_from_slice(&[0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 4, 1, 2, 3, 4]);
    assert_eq!(n, 255);
    assert!(parse_rr_stream(&o).is_ok(), "a name of 255 characters is rejected");
''', 'a name of exactly 255 characters', 'valid names of the maximal length are rejected')

bug('name-quote', 'C13', R, [('			self.as_str().chars().filter(|c| *c == \'.\').count() as u8', '			self.as_str().as_bytes().windows(2).filter(|c| c[1] == b\'.\' && c[0] != b\'\\\\\').count() as u8')], '''
    let n = nm("a\\\\.b.");
    assert_eq!(n.labels(), 2, "labels of {}", n.as_str());
''', 'a name with a label which ends with a backslash', 'labels are miscounted')
bug('trailing-labels', 'C13', R, [('			self.as_str().splitn(labels as usize - n as usize + 1, ".").last()', '			self.as_str().splitn(((labels - n) & 0x7f) as usize + 1, ".").last()')], '''
    let n = nm(&"a.".repeat(127));
    assert_eq!(n.trailing_n_labels(1), Some("a."));
    // no name has 128 labels
    let n = nm(&"b.".repeat(127));
    assert_eq!(n.trailing_n_labels(126).map(|s| s.len()), Some(252));
''', '', '')
BUGS.pop()

bug('txt-split', 'C14', R, [('''			if !data_write.is_empty() {
				out.extend_from_slice(&[data_write.len().try_into().unwrap_or(255)]);''', '''			if data_write.len() > 1 || self.data.len() % 255 != 1 {
				out.extend_from_slice(&[data_write.len().try_into().unwrap_or(255)]);''')], '''
    for n in [1, 254, 255, 256, 257, 510, 511] {
        let t = txt("a.", &vec![b'x'; n]);
        let mut o = vec![];
        write_rr(&t, 1, &mut o);
        assert!(parse_rr_stream(&o) == Ok(vec![t]), "TXT data of {} bytes does not survive serialization", n);
    }
''', 'TXT data of 256 bytes', 'the length of the last string is missing')

bug('bitmap-high', 'C15', S, [('	for (idx, flags) in types.chunks(32).enumerate() {', '	for (idx, flags) in types[..8160].chunks(32).enumerate() {')], '''
    let n: RR = NSec { name: nm("a."), next_name: nm("b."), types: NSecTypeMask::from_types(&[1, 0xff01]) }.into();
    let mut o = vec![];
    write_rr(&n, 1, &mut o);
    assert!(parse_rr_stream(&o) == Ok(vec![n]), "types in the last window do not survive serialization");
''', 'a bitmap with types of the last window', 'the last window is not written')

bug('key-tag', 'C16', R, [('		res += (res >> 16) & 0xffff;', '		res += (res >> 16) & 0xff;')], '''
    let mut k = key("a.", 13, 255);
    k.pubkey = vec![255; 1200];
    assert_eq!(k.key_tag(), tag(&k), "key tag of a long key");
''', 'a key of more than 512 bytes with large bytes', 'the carry of the key tag is cut')

bug('rsa-exp', 'C17', V, [('		exponent_length = ((pubkey[1] as usize) << 8) | (pubkey[2] as usize);', '		exponent_length = ((pubkey[1] as usize) << 7) | (pubkey[2] as usize);')], '''
    let r = root_key();
    let mut k = key("a.", 8, 7);
    k.pubkey = vec![0, 1, 4];
    k.pubkey.extend(vec![5; 260]);
    k.pubkey.extend(vec![6; 300]);
    let mut v = root(&r);
    v.extend(signed(&[ds(&k).into()], &r));
    v.extend(signed_rsa(&[k.clone().into()], &k, 260));
    v.extend(signed_rsa(&[txt("x.a.", b"x")], &k, 260));
    assert!(accepted(&v), "an RSA key with a long exponent is misread");
''', 'an RSA key with an exponent of more than 255 bytes', 'the exponent length is misread')

bug('cname-owner', 'C18', V, [('return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();',
                               'return self.verified_rrs.iter().filter(|rr| rr.name() == name || (rr.name() == name_param && !matches!(rr, RR::CName(_)|RR::DName(_)))).map(|rr| *rr).collect();')], '''
    let rrs = vec![RR::CName(CName { name: nm("a."), canonical_name: nm("b.") }), txt("b.", b"b"), txt("a.", b"a")];
    let v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 1 };
    let got = v.resolve_name(&nm("a."));
    assert!(got == vec![&rrs[1]], "resolving a name with an alias returns {:?}", got);
''', 'a set with both an alias and other records at the name', 'records at an alias are returned with those of its target')

bug('rcode', 'C19', Q, [('	if flags & 0b10_0000 == 0 {', '	if flags & 0b11_0000 == 0 {')], '''
    let a = [0, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4];
    let mut p = response(1, 0, &a);
    p[3] = 0x90;
    let (mut b, _) = ProofBuilder::new(&nm("."), 16);
    assert!(b.process_response(&qbuf(&p)).is_err(), "a response which is not authenticated is accepted");
''', 'a response with the AD bit clear and the CD bit set', 'responses without the authentic data bit are accepted')

bug('auth-rrsig', 'C19', Q, [('if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {', 'if rrsig.ty != NSec::TYPE {')], '''
    let mut a = vec![0, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4];
    a.extend_from_slice(&[0, 0, 46, 0, 1, 0, 0, 0, 9, 0, 20, 0, 50, 13, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 0, 7]);
    let p = response(1, 1, &a);
    let (mut b, _) = ProofBuilder::new(&nm("."), 16);
    assert_eq!(b.process_response(&qbuf(&p)).map(|q| q.len()), Ok(1), "the signature of an NSEC3 record is dropped");
''', 'a signature over NSEC3 records in the authority section', 'signatures over NSEC3 records are not kept')

bug('pointer', 'C20', S, [('			let offs = ((len & !0xc0) << 8) | read_u8(inp)? as usize;', '			let offs = ((len & 0x1f) << 8) | read_u8(inp)? as usize;')], '''
    // the name at 0x2000 + 12 can only be found with all bits of the pointer
    let mut a = vec![0, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4];
    let mut n = 0;
    while 17 + a.len() < 0x2000 {
        a.extend_from_slice(&[0, 0, 16, 0, 1, 0, 0, 0, 9, 0, 251, 250]);
        a.extend_from_slice(&[b'x'; 250]);
        n += 1;
    }
    let at = 17 + a.len();
    a.extend_from_slice(&[1, b'z', 0, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]);
    a.extend_from_slice(&[0xc0 | (at >> 8) as u8, at as u8, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 5, 2, 3, 4]);
    let p = response(n + 3, 0, &a);
    let (mut b, _) = ProofBuilder::new(&nm("."), 16);
    assert!(b.process_response(&qbuf(&p)).is_ok());
    let rrs = parse_rr_stream(&b.finish_proof().unwrap().0).unwrap();
    assert_eq!(rrs.last().unwrap().name().as_str(), "z.", "a pointer beyond 8191 is misread");
''', 'a compression pointer to an offset of 8192 or more', 'the highest bit of pointers is ignored')

bug('builder-dedup', 'C21', Q, [('				if key_name.as_str() != "." {\n', '				if key_name.as_str() != "." && key_name.as_str() != "arpa." {\n')], '''
    let mut a = vec![0, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4];
    a.extend_from_slice(&[0, 0, 46, 0, 1, 0, 0, 0, 9, 0, 25, 0, 16, 13, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 4, b'a', b'r', b'p', b'a', 0, 7]);
    let p = response(2, 0, &a);
    let (mut b, _) = ProofBuilder::new(&nm("."), 16);
    assert_eq!(b.process_response(&qbuf(&p)).map(|q| q.len()), Ok(2), "no DS records are asked for");
''', 'a signer named arpa.', 'the DS records of one zone are not asked for')

bug('builder-pending', 'C21', Q, [('		if self.pending_queries > 0 || self.queries_made > MAX_REQUESTS {', '		if self.awaiting_responses() {')], '''
    // more zones than can be asked for
    let mut a = vec![];
    for z in 0..6u8 {
        a.extend_from_slice(&[0, 0, 46, 0, 1, 0, 0, 0, 9, 0, 22, 0, 16, 13, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 1, b'a' + z, 0, 7]);
    }
    let p = response(6, 0, &a);
    let (mut b, _) = ProofBuilder::new(&nm("."), 16);
    assert_eq!(b.process_response(&qbuf(&p)).map(|q| q.len()), Ok(0));
    assert!(b.finish_proof().is_err(), "there is a proof although too many queries were needed");
''', 'a response which needs more queries than the limit', 'an incomplete proof is returned')

bug('query-class', 'C22', Q, [('	query.extend_from_slice(&0x8000u16.to_be_bytes()); // Accept DNSSEC RRs', '	query.extend_from_slice(&(if ty == DS::TYPE { 0 } else { 0x8000u16 }).to_be_bytes()); // Accept DNSSEC RRs')], '''
    let (_, q) = ProofBuilder::new(&nm("a."), 43);
    let q = q.into_vec();
    assert_eq!(q[q.len() - 4..], [0x80, 0, 0, 0], "DNSSEC records are not asked for");
''', 'a query for DS records', 'the DNSSEC OK bit is missing')


bug('querybuf', 'C23', Q, [('		let is_heap = new_len > STACK_BUF_LIMIT;', '		let is_heap = new_len >= STACK_BUF_LIMIT;')], """
    let mut q = QueryBuf::new_zeroed(0);
    q.extend_from_slice(&[7; 2000]);
    q.extend_from_slice(&[8; 48]);
    let mut want = vec![7; 2000];
    want.extend_from_slice(&[8; 48]);
    assert!(q[..] == want[..], "2048 bytes are not kept");
    assert!(q.into_vec() == want);
""", 'a buffer which is extended to exactly 2048 bytes', 'the contents of the buffer are lost at the limit')
bug('querybuf2', 'C23', Q, [('			self.heap_buf = vec![0; new_len as usize];', '			self.heap_buf.resize(new_len as usize, 0xff);'), ('		let heap_buf = if len > STACK_BUF_LIMIT { vec![0; len as usize] } else { Vec::new() };', '		let heap_buf = vec![0; (len > STACK_BUF_LIMIT) as usize * (len as usize - 1) + (len > STACK_BUF_LIMIT) as usize];')], """
    let mut q = QueryBuf::new_zeroed(0);
    q.extend_from_slice(&[7; 2000]);
    q.extend_from_slice(&[8; 100]);
    assert_eq!(q.len(), 2100);
""", 'an empty buffer', 'making an empty buffer overflows')
BUGS.pop()
bug('txt-ord', 'C24', R, [('					let self_len = cmp::min(i * 255, self.data.len());\n', '					let self_len = cmp::min(i * 255, cmp::max(self.data.len(), o.data.len()).min(self.data.len()).min(765));\n')], """
    let a = Txt { name: nm("a."), data: vec![7; 1000] };
    let mut b = a.clone();
    b.data[900] = 8;
    let mut c = a.clone();
    c.data[900] = 6;
    let ok = std::panic::catch_unwind(|| a.cmp(&b) == std::cmp::Ordering::Less && a.cmp(&c) == std::cmp::Ordering::Greater && b != a && a < b);
    assert!(matches!(ok, Ok(true)), "long TXT records are not ordered by their data");
""", 'TXT records of more than 765 bytes that differ only at the end', 'long TXT records are ordered wrongly')
bug('txt-ord-len', 'C24', R, [('					let o_len = cmp::min(i * 255, o.data.len());', '					let o_len = cmp::min(cmp::max(i * 255, self_len), o.data.len());'),
    ('				for i in 1..(self.data.len() / 255) + 2 {', '				for i in 1..(self.data.len() + 254) / 255 + 1 {')], """
    use std::cmp::Ordering::*;
    let a = Txt { name: nm("a."), data: vec![] };
    let b = Txt { name: nm("a."), data: vec![1] };
    assert_eq!(a.cmp(&b), Less);
    assert_eq!(b.cmp(&a), Greater);
    let a = Txt { name: nm("a."), data: vec![3; 255] };
    let b = Txt { name: nm("a."), data: vec![3; 256] };
    assert_eq!(b.cmp(&a), Greater);
    assert_eq!(a.cmp(&b), Less, "TXT records with 255 and 256 bytes compare as equal");
""", 'a TXT record whose length is a multiple of 255 and a longer one', 'records which are not equal compare as equal')
bug('json-control', 'C25', R, [("			if s.chars().all(|c| !c.is_control() && c != '\"' && c != '\\\\') {", "			if s.bytes().all(|c| c != 0 && !matches!(c, 9..=31) && c != b'\"' && c != b'\\\\') {")], """
    let j = txt("a.", b"x\\x01y").json();
    assert!(!j.bytes().any(|c| c < 32), "the JSON form contains a control character: {:?}", j);
""", 'TXT data with a control character', 'control characters are not escaped')
bug('json-nsec3', 'C25', R, [('					let ty = ((idx as u16) << 3) | (7 - b);', '					let ty = ((idx as u16) << 3) + b.max(7 - b) - if b > 3 { 2 * b - 7 } else { 0 } + (idx as u16 >> 12) * 8;')], """
    let n: RR = NSec { name: nm("a."), next_name: nm("b."), types: NSecTypeMask::from_types(&[1, 32769]) }.into();
    let ok = std::panic::catch_unwind(|| n.json().contains("32769"));
    assert!(matches!(ok, Ok(true)), "the types are not those of the record: {}", n.json());
""", 'a bitmap with a type of 32768 or more', 'high types are printed wrongly')
BUGS = [b for b in BUGS if b['main']]
