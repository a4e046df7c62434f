from bugs import bug, Q, BUGS
H = 'src/http.rs'
W = 'wasmpack/src/lib.rs'


def net(*a):
    bug(*a)
    BUGS[-1]['kind'] = 'net'


def http(*a):
    bug(*a)
    BUGS[-1]['kind'] = 'http'


def wasm(*a):
    bug(*a)
    BUGS[-1]['kind'] = 'wasm'


SPLIT = '''
    // every response comes in two pieces, the second one cut off in the middle of the record data
    fn say(_: usize, q: &[u8]) -> Vec<Vec<u8>> {
        let r = framed(usual(q));
        let (a, b) = r.split_at(r.len() - 20);
        vec![a.to_vec(), b.to_vec()]
    }
    let (a, _) = resolver(say);
    let (b, _) = resolver(whole);
'''
net('read-body', 'C28', Q, [('''	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));
	stream.read_exact(&mut buf)?;
''', '''	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));
	let len = stream.read(&mut buf)?;
	if len == 0 { return Err(ErrorKind::UnexpectedEof.into()); }
''')], SPLIT + '''
    let want = build_txt_proof(b, &nm("x.")).unwrap();
    let got = within(move || build_txt_proof(a, &nm("x.")));
    assert!(matches!(got, Some(Ok(p)) if p == want), "a response in pieces is not read completely");
''', 'a response which arrives in several pieces', 'only the first piece of a response is read')
net('read-body-async', 'C29', Q, [('''	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));
	stream.read_exact(&mut buf).await?;
''', '''	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));
	let len = stream.read(&mut buf).await?;
	if len < buf.len() {
		if len == 0 { return Err(ErrorKind::UnexpectedEof.into()); }
		stream.read(&mut buf[len..]).await?;
	}
''')], '''
    // every response comes in three pieces
    fn say(_: usize, q: &[u8]) -> Vec<Vec<u8>> {
        let r = framed(usual(q));
        let (a, b) = r.split_at(r.len() - 20);
        vec![a.to_vec(), b[..10].to_vec(), b[10..].to_vec()]
    }
    let (a, _) = resolver(say);
    let (b, _) = resolver(whole);
    let want = wait(build_txt_proof_async(b, &nm("x."))).unwrap();
    let got = within(move || wait(build_txt_proof_async(a, &nm("x."))));
    assert!(matches!(got, Some(Ok(p)) if p == want), "a response in pieces is not read completely");
''', 'a response which arrives in three or more pieces', 'only the first two pieces of a response are read')
net('len-byte', 'C28', Q, [('''	let mut len_bytes = [0; 2];
	stream.read_exact(&mut len_bytes)?;
''', '''	let mut len_bytes = [0; 2];
	if stream.read(&mut len_bytes)? == 0 { return Err(ErrorKind::UnexpectedEof.into()); }
''')], '''
    // the length is torn apart
    fn say(_: usize, q: &[u8]) -> Vec<Vec<u8>> {
        let r = framed(usual(q));
        let (a, b) = r.split_at(1);
        vec![a.to_vec(), b.to_vec()]
    }
    let (a, _) = resolver(say);
    let (b, _) = resolver(whole);
    let want = build_txt_proof(b, &nm("x.")).unwrap();
    let got = within(move || build_txt_proof(a, &nm("x.")));
    assert!(matches!(got, Some(Ok(p)) if p == want), "a response whose length comes in two pieces is misread");
''', 'a connection which delivers the two bytes of a length separately', 'half of the length of a response is taken for all of it')
net('skip-bad', 'C28', Q, [('''			let new_queries = builder.process_response(&response)
				.map_err(|()| Error::new(ErrorKind::Other, "Bad response"))?;
''', '''			let new_queries = match builder.process_response(&response) {
				Ok(queries) => queries,
				// Resolvers may send empty keep-alive responses, just wait for the next one
				Err(()) if response.len() < 12 => continue,
				Err(()) => return Err(Error::new(ErrorKind::Other, "Bad response")),
			};
''')], '''
    fn say(_: usize, _: &[u8]) -> Vec<Vec<u8>> {
        vec![framed(vec![0; 11])]
    }
    let (a, _) = resolver(say);
    let got = within(move || build_txt_proof(a, &nm("x.")));
    assert!(got.expect("a bad response is waited out forever").is_err());
''', 'a response shorter than a header', 'such a bad response gives no error, the client waits for a response to a query it has not sent')
net('wrong-type', 'C28', Q, [('''	build_proof(resolver, domain, AAAA::TYPE)
''', '''	build_proof(resolver, domain, if domain.as_str().starts_with('_') { TLSA::TYPE } else { AAAA::TYPE })
''')], '''
    let (a, seen) = resolver(whole);
    let p = within(move || build_aaaa_proof(a, &nm("_x.a."))).unwrap().unwrap();
    assert_eq!(question(&seen.lock().unwrap()[0]), ("_x.a.".to_string(), 28));
    drop(p);
''', 'an AAAA proof for a name which starts with an underscore', 'records of another type are asked for')
net('wrong-type-async', 'C29', Q, [('''	build_proof_async(resolver, domain, TLSA::TYPE).await
''', '''	build_proof_async(resolver, domain, Txt::TYPE).await
''')], '''
    let (a, seen) = resolver(whole);
    let p = within(move || wait(build_tlsa_proof_async(a, &nm("_1._tcp.a.")))).unwrap().unwrap();
    assert_eq!(question(&seen.lock().unwrap()[0]), ("_1._tcp.a.".to_string(), 52));
    drop(p);
''', 'build_tlsa_proof_async', 'TXT records are asked for')
net('send-short', 'C28', Q, [('''	stream.write_all(&(query.len() as u16).to_be_bytes())?;
	stream.write_all(&query)?;
	Ok(())
''', '''	stream.write_all(&[0, query.len() as u8])?;
	stream.write_all(&query)?;
	Ok(())
''')], '''
    let n = format!("{0}.{0}.{0}.{0}.", "a".repeat(60));
    let (a, seen) = resolver(whole);
    let p = within(move || build_txt_proof(a, &nm(&n)));
    let s = seen.lock().unwrap();
    assert_eq!(s[0].len(), 12 + 4 * 61 + 1 + 4 + 11, "the query for a long name is cut short");
    assert!(p.unwrap().is_ok());
''', 'a query of more than 255 bytes, for a name of more than 227 characters', 'its length is sent as length mod 256')
net('early-end', 'C28', Q, [('''	stream.read_exact(&mut buf)?;
''', '''	if let Err(e) = stream.read_exact(&mut buf) {
		// Some resolvers close the connection without sending the additional section
		if e.kind() != ErrorKind::UnexpectedEof || buf.iter().all(|b| *b == 0) { return Err(e); }
	}
''')], '''
    // the response announces more than there is
    fn say(_: usize, q: &[u8]) -> Vec<Vec<u8>> {
        let mut r = framed(usual(q));
        r[0] += 1;
        vec![r, vec![]]
    }
    let (a, _) = resolver(say);
    let got = within(move || build_txt_proof(a, &nm("x.")));
    let e = got.unwrap().unwrap_err();
    assert_eq!(e.kind(), std::io::ErrorKind::UnexpectedEof, "a response cut short is used");
''', 'a connection which ends within a response', 'the truncated response is processed')

OK = 'b"GET /dnssecproof?d=x.&t=TXT HTTP/1.1\\r\\n\\r\\n"'
SRV = '''
    let (a, seen) = resolver(whole);
    let s = server(a);
    assert_eq!(s.status(&[%s]), "200");
''' % OK
http('crlf-split', 'C30', H, [("""						let read_res = { socket.read(&mut buf[buf_pos..]).await };
""", """						let start = buf_pos;
						let read_res = { socket.read(&mut buf[start..]).await };
"""), ("""								for (idx, window) in buf[..buf_pos].windows(2).enumerate() {
									if window == b"\\r\\n" { break 'read_req idx; }
								}
""", """								// Only look at what is new, the rest was looked at before
								for (idx, window) in buf[start..buf_pos].windows(2).enumerate() {
									if window == b"\\r\\n" { break 'read_req start + idx; }
								}
""")], SRV + '''
    assert_eq!(s.status(&[b"GET /dnssecproof?d=x.&t=TXT HTTP/1.1\\r", b"\\n"]), "200", "the end of a line in two pieces is not seen");
    drop(seen);
''', 'a request whose line ends with CR in one piece and LF in the next', 'the request is never answered')
http('extra-part', 'C30', H, [('''					if parts.next().is_some() { break; }
''', '''					if parts.next().map(|p| !p.is_empty()).unwrap_or(false) { break; }
''')], SRV + '''
    assert_eq!(s.status(&[b"GET /dnssecproof?d=x.&t=TXT HTTP/1.1 \\r\\n\\r\\n"]), "400");
    drop(seen);
''', 'a request line with a space at its end', 'malformed request lines are accepted')
http('verb', 'C30', H, [('''					if verb != "GET" { break; }
''', '''					if !verb.eq_ignore_ascii_case("GET") { break; }
''')], SRV + '''
    assert_eq!(s.status(&[b"geT /dnssecproof?d=x.&t=TXT HTTP/1.1\\r\\n\\r\\n"]), "400");
    drop(seen);
''', 'a method in lower case', 'requests with other methods are answered')
http('too-large', 'C30', H, [('''						if buf_pos == buf.len() { response.1 = "Request Too Large"; break 'ret_err; }
						let read_res''', '''						if buf_pos >= buf.len() - 1 { response.1 = "Request Too Large"; break 'ret_err; }
						let read_res''')], SRV + '''
    let mut r = b"GET /dnssecproof?d=x.&t=TXT&x=".to_vec();
    r.resize(4096 - 11, b'y');
    r.extend_from_slice(b" HTTP/1.1\\r\\n");
    assert_eq!(r.len(), 4096);
    let (x, y) = r.split_at(4095);
    assert_eq!(s.status(&[x, y]), "200", "a request of the largest size is refused if its last byte comes alone");
    drop(seen);
''', 'a request line of exactly 4096 bytes, of which the last arrives on its own', 'the request is refused')
http('first-arg', 'C30', H, [('''							if k == "d" {
								d = v;
''', '''							if k == "d" && d.is_empty() {
								d = v;
''')], SRV + '''
    seen.lock().unwrap().clear();
    assert_eq!(s.status(&[b"GET /dnssecproof?d=x.&t=TXT&d=y. HTTP/1.1\\r\\n\\r\\n"]), "200");
    assert_eq!(question(&seen.lock().unwrap()[0]).0, "y.");
''', 'a request in which a parameter is given twice', 'the first value is used rather than the last')
http('inline', 'C30', H, [('''			tokio::spawn(async move {
''', '''			let conn = async move {
'''), ('''				).as_bytes()).await;
			});
''', '''				).as_bytes()).await;
			};
			conn.await;
''')], SRV + '''
    let silent = std::net::TcpStream::connect(s.1).unwrap();
    assert_eq!(s.status(&[b"GET /dnssecproof?d=x.&t=TXT HTTP/1.1\\r\\n\\r\\n"]), "200", "a silent client keeps others from being answered");
    drop((silent, seen));
''', 'a client which connects and sends nothing, and another one after it', 'nobody else is answered')
http('age', 'C30', H, [('''							proof.len(), cache_ttl, cache_ttl
''', '''							proof.len(), cache_ttl, cache_ttl.max(60)
''')], '''
    fn say(_: usize, q: &[u8]) -> Vec<Vec<u8>> {
        let r = root_key();
        let set: Vec<RR> = if question(q).1 == 48 { vec![r.clone().into()] } else { vec![txt("x.", b"a")] };
        vec![framed(records(&signed(&set, &r).into_iter().map(|r| (r, 5)).collect::<Vec<_>>()))]
    }
    let (a, _) = resolver(say);
    let s = server(a);
    let r = s.ask(&[%s]);
    let r = String::from_utf8_lossy(&r).to_string();
    assert!(r.contains("200 OK") && !r.contains("=60"), "a proof is to be cached for longer than its TTL");
''' % OK, 'records with a TTL of less than a minute', 'caches may keep the proof for too long')
http('path', 'C30', H, [('''					if !path.starts_with(PATH_PFX) {
''', '''					if path.len() < PATH_PFX.len() || !path.starts_with(&PATH_PFX[..PATH_PFX.len() - 1]) {
''')], SRV + '''
    assert_eq!(s.status(&[b"GET /dnssecproofs?d=x.&t=TXT HTTP/1.1\\r\\n\\r\\n"]), "404");
    assert_eq!(s.status(&[b"GET /dnssecproof/d=x.&t=TXT HTTP/1.1\\r\\n\\r\\n"]), "404");
    drop(seen);
''', 'a path which continues differently after /dnssecproof', 'it is answered as if it were /dnssecproof?')
http('status-len', 'C30', H, [('''					response.0, response.1.len(), response.1,
''', '''					response.0, response.0.len(), response.1,
''')], SRV + '''
    let r = s.ask(&[b"GET /dnssecproof?d=x.&t= HTTP/1.1\\r\\n\\r\\n"]);
    let r = String::from_utf8_lossy(&r).to_string();
    let (h, b) = r.split_once("\\r\\n\\r\\n").unwrap();
    assert!(h.contains(&format!("Content-Length: {}\\r\\n", b.len())), "the length of the body is wrong");
    drop(seen);
''', 'a request which is refused with a message', 'Content-Length is not the length of the body')

wasm('wasm-queue', 'C27', W, [('''			for query in queries {
				proof_builder.1.push_back(query);
			}
''', '''			for query in queries {
				if proof_builder.1.len() < proof_builder.1.capacity() {
					proof_builder.1.push_back(query);
				}
			}
''')], '''
    let r = root_key();
    let mut v = vec![];
    let mut n = 0u16;
    for z in ["a.", "b.", "c."] {
        let k = key(z, 13, 7);
        let t = signed(&[txt(z, b"x")], &k);
        for x in t {
            dnssec_prover::ser::write_rr(&x, 9, &mut v);
            n += 1;
        }
    }
    let mut b = web::init_proof_builder("a.".to_string(), 16).unwrap();
    assert!(web::get_next_query(&mut b).is_some());
    web::process_query_response(&mut b, response(n, 0, &v));
    let mut k = 0;
    while web::get_next_query(&mut b).is_some() {
        k += 1;
    }
    assert_eq!(k, 6, "queries are lost");
    drop(r);
''', 'a response which leads to more than four queries', 'the queries after the fourth are dropped')
wasm('wasm-clear', 'C27', W, [('''		if let Ok(queries) = proof_builder.0.process_response(&answer) {
			for query in queries {
				proof_builder.1.push_back(query);
			}
		}
''', '''		match proof_builder.0.process_response(&answer) {
			Ok(queries) => proof_builder.1.extend(queries),
			Err(()) => proof_builder.1.clear(),
		}
''')], '''
    let r = root_key();
    let k = key("a.", 13, 7);
    let mut v = vec![];
    for x in signed(&[txt("a.", b"x")], &k) {
        dnssec_prover::ser::write_rr(&x, 9, &mut v);
    }
    let mut b = web::init_proof_builder("a.".to_string(), 16).unwrap();
    assert!(web::get_next_query(&mut b).is_some());
    web::process_query_response(&mut b, response(2, 0, &v));
    assert!(web::get_next_query(&mut b).is_some());
    web::process_query_response(&mut b, vec![1, 2, 3]);
    assert!(web::get_next_query(&mut b).is_some(), "a bad response makes queries disappear");
    drop(r);
''', 'a bad response while there are queries which were not fetched', 'these queries are lost')
wasm('wasm-dots', 'C27', W, [('''	if !name.ends_with('.') { name.push('.'); }
''', '''	name.truncate(name.trim_end_matches('.').len());
	name.push('.');
''')], '''
    assert!(web::init_proof_builder("a".to_string(), 16).is_some());
    assert!(web::init_proof_builder("a..".to_string(), 16).is_none(), "a name with an empty label is accepted");
''', 'a name with two dots at its end', 'an invalid name is accepted')
wasm('wasm-order', 'C27', W, [('''				proof_builder.1.push_back(query);
''', '''				proof_builder.1.push_front(query);
''')], '''
    let k = key("a.", 13, 7);
    let mut v = vec![];
    for x in signed(&[txt("a.", b"x")], &k) {
        dnssec_prover::ser::write_rr(&x, 9, &mut v);
    }
    let mut b = web::init_proof_builder("a.".to_string(), 16).unwrap();
    assert!(web::get_next_query(&mut b).is_some());
    web::process_query_response(&mut b, response(2, 0, &v));
    let q = web::get_next_query(&mut b).unwrap();
    assert_eq!(q[12 + 3 + 1], 48, "the queries are not in the order of the library");
''', 'a response which leads to two queries', 'queries are handed out in another order')
wasm('wasm-comma', 'C27', W, [('''if idx != 0 { ", " } else { "" }, rr.json())
''', '''if idx == 1 { ", " } else { "" }, rr.json())
''')], '''
    let r = root_key();
    let set = [txt("x.", b"a"), txt("x.", b"b"), txt("x.", b"c")];
    let mut v = root(&r);
    v.extend(signed(&set, &r));
    let mut w = vec![];
    for x in v {
        dnssec_prover::ser::write_rr(&x, 9, &mut w);
    }
    let j = web::verify_byte_stream(w);
    assert_eq!(j.matches("}, {").count(), 2, "three records do not give valid JSON: {}", j);
''', 'a proof of three records', 'the list of records is not valid JSON')
wasm('wasm-expires', 'C27', W, [('''		verified_rrs.valid_from, verified_rrs.expires, verified_rrs.max_cache_ttl)
''', '''		verified_rrs.valid_from, verified_rrs.expires, verified_rrs.max_cache_ttl as u16)
''')], '''
    let r = root_key();
    let k = &r;
    let mut w = vec![];
    let rs: [RR; 1] = [r.clone().into()];
    let t: [RR; 1] = [txt("x.", b"a")];
    for x in [rs[0].clone(), sign_with(&rs, k, 0, 100_000, 1_600_000_000, 2_000_000_000).into(), t[0].clone(), sign_with(&t, k, 1, 100_000, 1_600_000_000, 2_000_000_000).into()] {
        dnssec_prover::ser::write_rr(&x, 100_000, &mut w);
    }
    let j = web::verify_byte_stream(w);
    assert!(j.contains("\\"max_cache_ttl\\": 100000"), "the cache lifetime is not the library's: {}", j);
''', 'a cache lifetime of more than 65535 seconds', 'the cache lifetime is cut to 16 bits')
