from bugs import bug, V, S, R, Q
T = '''
    let r = root_key();
    let mut good = key("a.", 8, 7);
    good.pubkey = vec![1, 3, 0, 0, 0, 0, 0, 1, 0xff, 0xfe];
    let mut odd = good.clone();
    %s
    // two words make up for the difference, so that both keys have the same tag
    for k in [&mut good, &mut odd] {
        let a = (0xffff - k.flags).to_be_bytes();
        let b = (0xffff - u16::from_be_bytes([k.protocol, k.alg])).to_be_bytes();
        k.pubkey[2..6].copy_from_slice(&[a[0], a[1], b[0], b[1]]);
    }
    odd.pubkey[6..].copy_from_slice(&[0, 2, 0xff, 0xfd]);
    assert_eq!(tag(&good), tag(&odd));
    for keys in [[good.clone(), odd.clone()], [odd.clone(), good.clone()]] {
        let keys: Vec<RR> = keys.iter().map(|k| k.clone().into()).collect();
        let mut v = root(&r);
        v.extend(signed(&[ds(&good).into()], &r));
        v.extend(signed(&keys, &good));
        v.extend(signed(&[txt("x.a.", b"x")], &good));
        assert!(accepted(&v), "a zone with %s which has the tag of another one is rejected");
    }
'''
bug('tag-flag', 'C04', V, [('			if dnskey.flags & 0b1_0000_0000 == 0 { continue; }', '			if dnskey.flags & 0b1_0000_0000 == 0 { break; }')],
    T % ('odd.flags = 1;', 'a key which is no zone key'), 'a key without the zone flag whose tag is that of the zone key, and comes before it', 'proofs of such zones are rejected')
bug('tag-alg', 'C04', V, [('''			if dnskey.alg != sig.alg { continue; }
''', '''			if dnskey.alg != sig.alg { return Err(ValidationError::UnsupportedAlgorithm); }
''')], T % ('odd.alg = 13;', 'a key of another algorithm'), 'keys of different algorithms with the same tag', 'the signatures of such zones are skipped')

U = '''
    use dnssec_prover::validation::ValidationError;
    fn error(v: &[RR]) -> ValidationError {
        verify_rr_stream(v).err().expect("rejected")
    }
    let r = root_key();
'''
bug('unsup-digest', 'C31', V, [('''	if !had_known_digest_type { return Err(ValidationError::UnsupportedAlgorithm); }
''', '''	if !had_known_digest_type { return Err(ValidationError::Invalid); }
''')], U + '''
    let k = key("a.", 13, 7);
    let mut d = ds(&k);
    d.digest_type = 3;
    let mut v = root(&r);
    v.extend(signed(&[d.into()], &r));
    v.extend(signed(&[k.clone().into()], &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    assert!(error(&v) == ValidationError::UnsupportedAlgorithm, "a zone with a digest which is not supported is reported as bogus");
''', 'a zone all DS records of which have digests of a type that is not supported', 'it is reported as bogus instead of not supported')

bug('unsup-masks', 'C31', V, [('''			Err(ValidationError::Invalid) => {
				// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.
				return Err(ValidationError::Invalid);
			},
		}
	}
''', '''			Err(ValidationError::Invalid) => {
				// If a signature is invalid, just immediately stop, avoiding KeyTrap issues.
				break;
			},
		}
	}
''')], U + '''
    let (k, other) = (key("a.", 13, 7), key("a.", 16, 9));
    let keys: Vec<RR> = vec![k.clone().into(), other.clone().into()];
    let mut v = root(&r);
    v.extend(signed(&[ds(&k).into(), ds(&other).into()], &r));
    v.extend(keys.clone());
    v.push(sign(&keys, &other).into());
    let mut bad = sign(&keys, &k);
    bad.signature[0] ^= 1;
    v.push(bad.into());
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    assert!(error(&v) == ValidationError::Invalid, "a forged proof is reported as one with an unsupported algorithm");
''', 'a zone with keys of a supported and an unsupported algorithm, where the signature of the first is forged and comes last', 'forged proofs are reported as not supported, which general DNS use accepts')

bug('unsup-anykey', 'C31', V, [('''				if hash.as_ref() == &ds.digest {
					validated_dnskeys.push(*dnskey);
					break;
				}
''', '''				if hash.as_ref() == &ds.digest || !matches!(ds.alg, 8|10|13|14|15) {
					validated_dnskeys.push(*dnskey);
					break;
				}
''')], U + '''
    let k = key("a.", 16, 7);
    let mut d = ds(&k);
    d.digest[3] ^= 1;
    let mut v = root(&r);
    v.extend(signed(&[d.into()], &r));
    v.extend(signed(&[k.clone().into()], &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    assert!(error(&v) == ValidationError::Invalid, "keys which are not the ones of the zone are reported as unsupported");
''', 'a zone with an algorithm which is not supported, and a key which does not have the digest of its DS record', 'such proofs are reported as not supported, which general DNS use accepts')

bug('unsup-first', 'C31', V, [('''				_ => return Err(ValidationError::UnsupportedAlgorithm),
''', '''				_ => return Err(if sig.ty == DnsKey::TYPE && sig.alg > 16 { ValidationError::Invalid } else { ValidationError::UnsupportedAlgorithm }),
''')], U + '''
    let k = key("a.", 23, 7);
    let mut v = root(&r);
    v.extend(zone(&r, &k));
    v.extend(signed(&[txt("x.a.", b"x")], &k));
    assert!(error(&v) == ValidationError::UnsupportedAlgorithm, "a zone with a private algorithm is reported as bogus");
''', 'a zone which is signed with one of the newer or private algorithms', 'it is reported as bogus instead of not supported')

bug('unsup-unsigned', 'C31', V, [('''				Err(ValidationError::UnsupportedAlgorithm) => continue,
''', '''				Err(ValidationError::UnsupportedAlgorithm) => {
					if res.is_empty() { return Err(ValidationError::UnsupportedAlgorithm); }
					continue;
				},
''')], U + '''
    let (k, other) = (key("a.", 13, 7), key("a.", 16, 9));
    let keys: Vec<RR> = vec![k.clone().into(), other.clone().into()];
    let mut v = root(&r);
    v.extend(signed(&[ds(&k).into()], &r));
    v.extend(signed(&keys, &k));
    v.extend(signed(&[txt("x.a.", b"x")], &other));
    assert!(error(&v) == ValidationError::Invalid, "data without a usable signature is reported as unsupported");
''', 'a zone whose DS records are all supported, with a signature by another key of an unsupported algorithm', 'data of a zone which is known to be supported is reported as not supported')

bug('limit-exact', 'C32', Q, [('''		self.pending_queries > 0 && self.queries_made <= MAX_REQUESTS
''', '''		self.pending_queries > 0 && self.queries_made < MAX_REQUESTS
''')], '''
    // an answer from four zones, besides the root: ten queries
    let (mut b, _) = ProofBuilder::new(&nm("x.d.c.b.a."), 1);
    let answer = |owner: &str, ty: u16, signer: &str| {
        let s = RRSig { name: nm(owner), ty, alg: 13, labels: labels(owner).len() as u8, orig_ttl: 3600, expiration: 9, inception: 1, key_tag: 7, key_name: nm(signer), signature: vec![1; 64] };
        let mut o = vec![];
        write_rr(&s, 3600, &mut o);
        qbuf(&response(1, 0, &o))
    };
    let mut n = b.process_response(&answer("x.d.c.b.a.", 1, "d.c.b.a.")).unwrap().len();
    for (z, up) in [("d.c.b.a.", "c.b.a."), ("c.b.a.", "b.a."), ("b.a.", "a."), ("a.", ".")] {
        assert!(b.awaiting_responses(), "there are queries which are not answered");
        n += b.process_response(&answer(z, 48, z)).unwrap().len();
        assert!(b.awaiting_responses(), "there are queries which are not answered");
        n += b.process_response(&answer(z, 43, up)).unwrap().len();
    }
    assert_eq!(n, 9);
    assert!(b.awaiting_responses(), "there are queries which are not answered");
    b.process_response(&answer(".", 48, ".")).unwrap();
    assert!(b.finish_proof().is_ok(), "there is a proof");
''', 'an answer which takes exactly as many queries as are allowed', 'the builder stops before the last responses')

bug('alias-sig', 'C32', V, [('''	if res.is_empty() { return Err(ValidationError::Invalid) }
''', '''	if res.is_empty() || inp.iter().any(|rr| rr.ty() == 5 && !res.contains(&rr)) { return Err(ValidationError::Invalid) }
''')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = root(&r);
    v.extend(zone(&r, &k));
    v.extend(signed(&[DName { name: nm("d.a."), delegation_name: nm("e.a.") }.into()], &k));
    // as resolvers make it up, without a signature
    v.push(CName { name: nm("x.d.a."), canonical_name: nm("x.e.a.") }.into());
    v.extend(signed(&[txt("x.e.a.", b"x")], &k));
    assert!(accepted(&v), "the answer for a name below a DNAME is rejected");
''', 'an answer through a DNAME, as resolvers give it', 'it is rejected, since the synthesized CNAME is not signed')
