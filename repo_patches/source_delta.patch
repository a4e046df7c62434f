From dda10acdb749615becc17cb9c2e8cf2c99cbcf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:54 +0000
Subject: [PATCH 01/26] fix: reject empty labels when building a Name

Only the root name itself may contain an empty label. Names such as
".." or "a..b." were accepted, and serialized with a zero-length label
in the middle, i.e. as some other name followed by garbage.
---
 src/rr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index fbe8f65..fde58ee 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -61,8 +61,10 @@ impl TryFrom<String> for Name {
 		if *s.as_bytes().last().unwrap_or(&0) != b"."[0] { return Err(()); }
 		if s.len() > 255 { return Err(()); }
 		if s.chars().any(|c| !c.is_ascii_graphic() || c == '"') { return Err(()); }
-		for label in s.split(".") {
-			if label.len() > 63 { return Err(()); }
+		if s != "." {
+			for label in s[..s.len() - 1].split(".") {
+				if label.is_empty() || label.len() > 63 { return Err(()); }
+			}
 		}
 
 		Ok(Name(s.to_ascii_lowercase()))
-- 
2.43.0


From 386b6fdfafcbbcc07815ca2e4d2f71bd198063b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:54 +0000
Subject: [PATCH 02/26] fix: reject over-long labels and dots inside labels in
 wire names

A wire label containing a '.' byte (possibly one using the reserved
label types with a length over 63) was parsed into the same Name as the
separate labels, letting two different wire names compare equal.
---
 src/ser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index dfd8993..9317c6b 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -86,7 +86,9 @@ fn do_read_wire_packet_labels(inp: &mut &[u8], wire_packet: &[u8], name: &mut St
 			do_read_wire_packet_labels(&mut &wire_packet[offs..], wire_packet, name, recursion_limit - 1)?;
 			break;
 		}
-		if inp.len() <= len { return Err(()); }
+		if len > 63 || inp.len() <= len { return Err(()); }
+		// `Name` has no escaping, so we cannot represent a label which itself contains a dot.
+		if inp[..len].contains(&b'.') { return Err(()); }
 		*name += core::str::from_utf8(&inp[..len]).map_err(|_| ())?;
 		*name += ".";
 		*inp = &inp[len..];
-- 
2.43.0


From 38aa245fc7cb6bab1add4e5c664f54b30c0d5e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:54 +0000
Subject: [PATCH 03/26] fix: reject invalid lengths in NSEC type bitmap windows

A window over 32 bytes long spilled into the next window, or panicked
for the last window.
---
 src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 9317c6b..ab9cfe9 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -66,7 +66,7 @@ pub(crate) fn read_nsec_types_bitmap(inp: &mut &[u8]) -> Result<[u8; 8192], ()>
 		let block = *inp.get(0).ok_or(())?;
 		let len = *inp.get(1).ok_or(())?;
 		*inp = &inp[2..];
-		if inp.len() < len as usize { return Err(()); }
+		if len == 0 || len > 32 || inp.len() < len as usize { return Err(()); }
 		res[block as usize * 32..block as usize * 32 + len as usize]
 			.copy_from_slice(&inp[..len as usize]);
 		*inp = &inp[len as usize..];
-- 
2.43.0


From e907f4344b38643513e9259350413d09b1be6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:54 +0000
Subject: [PATCH 04/26] fix: reject trailing record data after CNAME/DNAME/NS
 targets

This is attacker-controlled and previously hit a debug_assert (or
silently changed the record when re-serialized).
---
 src/rr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index fde58ee..8ec114b 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -384,7 +384,7 @@ impl StaticRecord for CName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -415,7 +415,7 @@ impl StaticRecord for DName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -860,7 +860,7 @@ impl StaticRecord for NS {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-- 
2.43.0


From 30e04f577480237c48dcfcaedb546c3618ed698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:54 +0000
Subject: [PATCH 05/26] fix: make the Ord and PartialOrd implementations of Txt
 agree

Ord was derived while PartialOrd was implemented by hand, so that the two
(and thus `cmp` and `<`) gave different orders.
---
 src/rr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 8ec114b..dbb6454 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -245,7 +245,7 @@ impl Record for RR {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A text resource record, containing arbitrary text data
 pub struct Txt {
 	/// The name this record is at.
@@ -259,8 +259,11 @@ pub struct Txt {
 /// The wire type for TXT records
 pub const TXT_TYPE: u16 = 16;
 impl PartialOrd for Txt {
-	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> {
-		Some(self.name.cmp(&o.name)
+	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(self.cmp(o)) }
+}
+impl Ord for Txt {
+	fn cmp(&self, o: &Txt) -> Ordering {
+		self.name.cmp(&o.name)
 			.then_with(|| {
 				// Compare in wire encoding form, i.e. compare in 255-byte chunks
 				for i in 1..(self.data.len() / 255) + 2 {
@@ -272,7 +275,7 @@ impl PartialOrd for Txt {
 					if !slice_cmp.is_eq() { return slice_cmp; }
 				}
 				Ordering::Equal
-			}))
+			})
 	}
 }
 impl StaticRecord for Txt {
-- 
2.43.0


From 8784e02ffa5d525a6d65eaf039fd588f8059cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:54 +0000
Subject: [PATCH 06/26] fix: write the correct RDLENGTH for empty TXT records

An empty TXT record contains one empty string, which takes one byte, but
was written with a length of zero, leaving a stray byte in the stream.
---
 src/rr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index dbb6454..2de758f 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -301,7 +301,8 @@ impl StaticRecord for Txt {
 		Ok(Txt { name, data: parsed_data })
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-		let len = (self.data.len() + (self.data.len() + 254) / 255) as u16;
+		// There is always at least one (possibly empty) string.
+		let len = (self.data.len() + core::cmp::max(1, (self.data.len() + 254) / 255)) as u16;
 		out.extend_from_slice(&len.to_be_bytes());
 
 		let mut data_write = &self.data[..];
-- 
2.43.0


From b0f27d234e06f1a473c1f9d410deae3f26289992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 07/26] fix: reject RRSIGs which do not fit in a record once
 decompressed

The length of the uncompressed record data overflowed a u16 in
write_u16_len_prefixed_data when handling a resolver's response.
---
 src/rr.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 2de758f..7b6b564 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -607,14 +607,19 @@ impl StaticRecord for RRSig {
 		out
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
-		Ok(RRSig {
+		let res = RRSig {
 			name, ty: read_u16(&mut data)?, alg: read_u8(&mut data)?,
 			labels: read_u8(&mut data)?, orig_ttl: read_u32(&mut data)?,
 			expiration: read_u32(&mut data)?, inception: read_u32(&mut data)?,
 			key_tag: read_u16(&mut data)?,
 			key_name: read_wire_packet_name(&mut data, wire_packet)?,
 			signature: data.to_vec(),
-		})
+		};
+		// If the key name was compressed, we may not be able to write the full record back out.
+		if 18 + name_len(&res.key_name) as usize + res.signature.len() > u16::MAX as usize {
+			return Err(());
+		}
+		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
 		let len = 2 + 1 + 1 + 4*3 + 2 + name_len(&self.key_name) + self.signature.len() as u16;
-- 
2.43.0


From 5bdb1382c66c1e91cd23ec25857e08be5c74cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 08/26] fix: generate valid JSON for RRSIG records

The colon after the expiration key was missing, and the type was "ds".
---
 src/rr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index 7b6b564..a193f84 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -596,7 +596,7 @@ impl StaticRecord for RRSig {
 	fn json(&self) -> String {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
-			"{{\"type\":\"ds\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\"{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
+			"{{\"type\":\"rrsig\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\":{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
 			self.name.0, self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
-- 
2.43.0


From 13f1253fba12b104a1c44804df553d79308fac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 09/26] fix: escape backslashes in names when generating JSON

Backslashes are valid in a Name but must be escaped in a JSON string.
---
 src/rr.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index a193f84..04321d5 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -23,6 +23,8 @@ pub struct Name(String);
 impl Name {
 	/// Gets the underlying human-readable domain name
 	pub fn as_str(&self) -> &str { &self.0 }
+	/// Gets this name as it should appear inside of a JSON string
+	fn json_escaped(&self) -> String { self.0.replace('\\', "\\\\") }
 	/// Gets the number of labels in this name
 	pub fn labels(&self) -> u8 {
 		if self.as_str() == "." {
@@ -284,10 +286,10 @@ impl StaticRecord for Txt {
 	fn json(&self) -> String {
 		if let Ok(s) = core::str::from_utf8(&self.data) {
 			if s.chars().all(|c| !c.is_control() && c != '"' && c != '\\') {
-				return format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":\"{}\"}}", self.name.0, s);
+				return format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":\"{}\"}}", self.name.json_escaped(), s);
 			}
 		}
-		format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":{:?}}}", self.name.0, &self.data[..])
+		format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":{:?}}}", self.name.json_escaped(), &self.data[..])
 	}
 	fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		let mut parsed_data = Vec::with_capacity(data.len().saturating_sub(1));
@@ -346,7 +348,7 @@ impl StaticRecord for TLSA {
 		let mut out = String::with_capacity(128+self.data.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"tlsa\",\"name\":\"{}\",\"usage\":{},\"selector\":{},\"data_ty\":{},\"data\":\"",
-			self.name.0, self.cert_usage, self.selector, self.data_ty
+			self.name.json_escaped(), self.cert_usage, self.selector, self.data_ty
 		).expect("Write to a String shouldn't fail");
 		for c in self.data.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -384,7 +386,7 @@ impl StaticRecord for CName {
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
 		format!("{{\"type\":\"cname\",\"name\":\"{}\",\"canonical_name\":\"{}\"}}",
-			self.name.0, self.canonical_name.0)
+			self.name.json_escaped(), self.canonical_name.json_escaped())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
@@ -415,7 +417,7 @@ impl StaticRecord for DName {
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
 		format!("{{\"type\":\"dname\",\"name\":\"{}\",\"delegation_name\":\"{}\"}}",
-			self.name.0, self.delegation_name.0)
+			self.name.json_escaped(), self.delegation_name.json_escaped())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
@@ -451,7 +453,7 @@ impl StaticRecord for DnsKey {
 		let mut out = String::with_capacity(128+self.pubkey.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"dnskey\",\"name\":\"{}\",\"flags\":{},\"protocol\":{},\"alg\":{},\"pubkey\":\"",
-			self.name.0, self.flags, self.protocol, self.alg
+			self.name.json_escaped(), self.flags, self.protocol, self.alg
 		).expect("Write to a String shouldn't fail");
 		for c in self.pubkey.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -522,7 +524,7 @@ impl StaticRecord for DS {
 		let mut out = String::with_capacity(128+self.digest.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"ds\",\"name\":\"{}\",\"key_tag\":{},\"alg\":{},\"digest_type\":{},\"digest\":\"",
-			self.name.0, self.key_tag, self.alg, self.digest_type
+			self.name.json_escaped(), self.key_tag, self.alg, self.digest_type
 		).expect("Write to a String shouldn't fail");
 		for c in self.digest.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -597,7 +599,7 @@ impl StaticRecord for RRSig {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"rrsig\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\":{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
-			self.name.0, self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0
+			self.name.json_escaped(), self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.json_escaped()
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -705,7 +707,7 @@ impl StaticRecord for NSec {
 		let mut out = String::with_capacity(256 + self.next_name.len());
 		write!(&mut out,
 			"{{\"type\":\"nsec\",\"name\":\"{}\",\"next_name\":\"{}\",\"types\":",
-			self.name.0, self.next_name.0,
+			self.name.json_escaped(), self.next_name.json_escaped(),
 		).expect("Write to a String shouldn't fail");
 		self.types.write_json(&mut out);
 		out += "}";
@@ -761,7 +763,7 @@ impl StaticRecord for NSec3 {
 		let mut out = String::with_capacity(256);
 		write!(&mut out,
 			"{{\"type\":\"nsec3\",\"name\":\"{}\",\"hash_algo\":{},\"flags\":{},\"hash_iterations\":{},\"salt\":{:?},\"next_name_hash\":{:?},\"types\":",
-			self.name.0, self.hash_algo, self.flags, self.hash_iterations, &self.salt[..], &self.next_name_hash[..]
+			self.name.json_escaped(), self.hash_algo, self.flags, self.hash_iterations, &self.salt[..], &self.next_name_hash[..]
 		).expect("Write to a String shouldn't fail");
 		self.types.write_json(&mut out);
 		out += "}";
@@ -806,7 +808,7 @@ impl StaticRecord for A {
 	const TYPE: u16 = A_TYPE;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"a\",\"name\":\"{}\",\"address\":{:?}}}", self.name.0, self.address)
+		format!("{{\"type\":\"a\",\"name\":\"{}\",\"address\":{:?}}}", self.name.json_escaped(), self.address)
 	}
 	fn read_from_data(name: Name, data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		if data.len() != 4 { return Err(()); }
@@ -834,7 +836,7 @@ impl StaticRecord for AAAA {
 	const TYPE: u16 = AAAA_TYPE;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"aaaa\",\"name\":\"{}\",\"address\":{:?}}}", self.name.0, self.address)
+		format!("{{\"type\":\"aaaa\",\"name\":\"{}\",\"address\":{:?}}}", self.name.json_escaped(), self.address)
 	}
 	fn read_from_data(name: Name, data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		if data.len() != 16 { return Err(()); }
@@ -865,7 +867,7 @@ impl StaticRecord for NS {
 	const TYPE: u16 = 2;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"ns\",\"name\":\"{}\",\"ns\":\"{}\"}}", self.name.0, self.name_server.0)
+		format!("{{\"type\":\"ns\",\"name\":\"{}\",\"ns\":\"{}\"}}", self.name.json_escaped(), self.name_server.json_escaped())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-- 
2.43.0


From 9293648ffc7d260396dd62f09989241b8446bc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 10/26] fix: correct the off-by-one when resolving timestamps
 past 2106

Timestamps wrap modulo 2^32, not 2^32 - 1.
---
 src/validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index c7f0450..476381c 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -284,7 +284,7 @@ fn resolve_time(time: u32) -> u64 {
 	// any timestamps before then are actually past 2106 instead.
 	// We ignore leap years for simplicity.
 	if time < 60*60*24*365*27 {
-		(time as u64) + (u32::MAX as u64)
+		(time as u64) + (1u64 << 32)
 	} else {
 		time.into()
 	}
-- 
2.43.0


From 93f615681959f1e8c557de0cb441404708197f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 11/26] fix: check all four RCODE bits of a response

RCODE 8 (NXRRSet) was treated as success.
---
 src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 1e02e2b..1003c36 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -128,7 +128,7 @@ fn handle_response(resp: &[u8], proof: &mut Vec<u8>, rrsig_key_names: &mut Vec<N
 	if flags & 0b1000_0000_0000_0000 == 0 {
 		return Err(());
 	}
-	if flags & 0b0111_1010_0000_0111 != 0 {
+	if flags & 0b0111_1010_0000_1111 != 0 {
 		return Err(());
 	}
 	if flags & 0b10_0000 == 0 {
-- 
2.43.0


From dc8094717d022e73eb90cfc875f735078624e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 12/26] fix: do not keep records from a rejected response in
 the proof

If a response failed to parse after some of its records were read, those
remained in the proof without being accounted for in its TTL.
---
 src/query.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 1003c36..22f711b 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -250,7 +250,9 @@ impl ProofBuilder {
 		if self.pending_queries == 0 { return Err(()); }
 
 		let mut rrsig_key_names = Vec::new();
-		let min_ttl = handle_response(&resp, &mut self.proof, &mut rrsig_key_names)?;
+		let proof_len = self.proof.len();
+		let min_ttl = handle_response(&resp, &mut self.proof, &mut rrsig_key_names)
+			.map_err(|()| self.proof.truncate(proof_len))?;
 		self.min_ttl = cmp::min(self.min_ttl, min_ttl);
 		self.pending_queries -= 1;
 
-- 
2.43.0


From 5568f30df3dd620dbd4179e32d38c0f55613b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 13/26] fix: do not panic when extending a QueryBuf past
 u16::MAX

As the documentation promises.
---
 src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 22f711b..3b29563 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -48,7 +48,8 @@ impl QueryBuf {
 	/// If the total length of this buffer exceeds [`u16::MAX`] after appending, the buffer's state
 	/// is undefined, however pushing data beyond [`u16::MAX`] will not panic.
 	pub fn extend_from_slice(&mut self, sl: &[u8]) {
-		let new_len = self.len.saturating_add(sl.len() as u16);
+		let new_len = cmp::min(self.len as usize + sl.len(), u16::MAX as usize) as u16;
+		let sl = &sl[..(new_len - self.len) as usize];
 		let was_heap = self.len > STACK_BUF_LIMIT;
 		let is_heap = new_len > STACK_BUF_LIMIT;
 		if was_heap != is_heap {
-- 
2.43.0


From 5070cdf3994a1e944f842b1a3731230e4a6e751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:40 +0000
Subject: [PATCH 14/26] fix: compare only the contents of QueryBufs

The derived PartialEq also compared the unused stack buffer, which may
hold stale data depending on how the buffer was built up.
---
 src/query.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 3b29563..ad4d9cf 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -27,7 +27,7 @@ const STACK_BUF_LIMIT: u16 = 32;
 const STACK_BUF_LIMIT: u16 = 2048;
 
 /// A buffer for storing queries and responses.
-#[derive(Clone, PartialEq, Eq)]
+#[derive(Clone)]
 pub struct QueryBuf {
 	buf: [u8; STACK_BUF_LIMIT as usize],
 	heap_buf: Vec<u8>,
@@ -74,6 +74,10 @@ impl QueryBuf {
 		}
 	}
 }
+impl PartialEq for QueryBuf {
+	fn eq(&self, o: &QueryBuf) -> bool { **self == **o }
+}
+impl Eq for QueryBuf {}
 impl ops::Deref for QueryBuf {
 	type Target = [u8];
 	fn deref(&self) -> &[u8] {
-- 
2.43.0


From 3cb0472f78b5cee6400b3c969db13d8d2ec37f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:07 +0000
Subject: [PATCH 15/26] fix: reject signatures over empty sets of records

No such signature can exist, and the checks of the signature against its
records (e.g. that the label count is sane) are skipped for them, leading
to an integer overflow when building the wildcard non-existence proof name.
---
 src/validation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 476381c..96f111d 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -71,6 +71,8 @@ pub(crate) fn bytes_to_rsa_pk<'a>(pubkey: &'a [u8])
 fn verify_rrsig<'a, RR: Record, Keys>(sig: &RRSig, dnskeys: Keys, mut records: Vec<&RR>)
 -> Result<(), ValidationError>
 where Keys: IntoIterator<Item = &'a DnsKey> {
+	// A signature never covers an empty set of records.
+	if records.is_empty() { return Err(ValidationError::Invalid); }
 	for record in records.iter() {
 		if sig.ty != record.ty() { return Err(ValidationError::Invalid); }
 	}
-- 
2.43.0


From 0f1b41ba991ccae2c30839c3446e9f3bc1402f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:07 +0000
Subject: [PATCH 16/26] fix: sort records into their canonical order when
 verifying RRSIGs

RRsets are signed sorted by their wire-encoded data, while the Ord of
some record types (e.g. NS) compares names as strings, which is not the
same, causing valid RRsets to fail validation.
---
 src/validation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 96f111d..838029c 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -94,7 +94,12 @@ where Keys: IntoIterator<Item = &'a DnsKey> {
 			signed_data.extend_from_slice(&sig.key_tag.to_be_bytes());
 			write_name(&mut signed_data, &sig.key_name);
 
-			records.sort_unstable();
+			// RFC 4034 section 6.3 sorts records by their wire-encoded data (without its length).
+			records.sort_by_cached_key(|record| {
+				let mut rdata = Vec::with_capacity(256);
+				record.write_u16_len_prefixed_data(&mut rdata);
+				rdata.split_off(2)
+			});
 
 			for record in records.iter() {
 				let record_labels = record.name().labels() as usize;
-- 
2.43.0


From 9a8bf43d0b5229d38a252530d2609268dfe992d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:07 +0000
Subject: [PATCH 17/26] fix: only let zones sign for names below them at a
 label boundary

The check was a plain string suffix match, such that the owner of a.com.
could sign records for xa.com.
---
 src/validation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 838029c..a4603a5 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -344,6 +344,12 @@ fn rfc4034_sort_test() {
 	assert_eq!(sorted, v);
 }
 
+/// Checks if `name` is equal to or a subdomain of `zone`.
+fn is_in_zone(name: &str, zone: &str) -> bool {
+	zone == "." || name.strip_suffix(zone)
+		.map(|prefix| prefix.is_empty() || prefix.ends_with(".")).unwrap_or(false)
+}
+
 /// Verifies the given set of resource records.
 ///
 /// Given a set of arbitrary records, this attempts to validate DNSSEC data from the [`root_hints`]
@@ -393,7 +399,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
 			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
 		{
-			if !rrsig.name.ends_with(zone) { return Err(ValidationError::Invalid); }
+			if !is_in_zone(&rrsig.name, zone) { return Err(ValidationError::Invalid); }
 			let signed_records = inp.iter()
 				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);
 			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
-- 
2.43.0


From 3206f6493e1acebb07681d162379a729d9d01261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:07 +0000
Subject: [PATCH 18/26] fix: visit each zone only once when verifying a proof

With no DS records following the root DNSKEYs, or when a zone signs a DS
record for itself, we'd loop forever, and with several signatures (or
signers) over one DS set zones were visited exponentially often. Also
reject wildcard DS records, which cannot delegate.
---
 src/validation.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index a4603a5..0e455cb 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -362,13 +362,15 @@ fn is_in_zone(name: &str, zone: &str) -> bool {
 /// [`VerifiedRRStream::expires`].
 pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, ValidationError> {
 	let mut zone = ".";
+	let mut visited_root = false;
+	let mut queued_zones: Vec<&str> = Vec::new();
 	let mut res = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
 	let mut latest_inception = 0;
 	let mut earliest_expiry = u64::MAX;
 	let mut min_ttl = u32::MAX;
-	'next_zone: while zone == "." || !pending_ds_sets.is_empty() {
+	'next_zone: while !visited_root || !pending_ds_sets.is_empty() {
 		let next_ds_set;
 		if let Some((next_zone, ds_set)) = pending_ds_sets.pop() {
 			next_ds_set = Some(ds_set);
@@ -377,6 +379,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			debug_assert_eq!(zone, ".");
 			next_ds_set = None;
 		}
+		visited_root = true;
 
 		let dnskey_rrsigs = inp.iter()
 			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
@@ -417,7 +420,13 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
-					if !pending_ds_sets.iter().any(|(pending_zone, _)| pending_zone == &rrsig.name.as_str()) {
+					// A zone can only delegate to zones below it (and not via a wildcard).
+					if rrsig.name.as_str() == zone || rrsig.labels != rrsig.name.labels() {
+						return Err(ValidationError::Invalid);
+					}
+					// Only ever visit each zone once.
+					if !queued_zones.contains(&rrsig.name.as_str()) {
+						queued_zones.push(&rrsig.name);
 						pending_ds_sets.push((
 							&rrsig.name,
 							signed_records.filter_map(|rr|
-- 
2.43.0


From 5e6e241cdba9ec81a69945dbb8dd37168f41a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:01 +0000
Subject: [PATCH 19/26] fix: do not accept NSEC/NSEC3 records proving a name
 exists as denial

An NSEC(3) at exactly the name in question, or an NSEC with a next name
below it, proves that the name exists, in which case no wildcard can
apply to it (or names below it). They were treated as proof of
non-existence, allowing existing records to be replaced by a wildcard.
Also do not mark proofs in other zones as found.
---
 src/validation.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 0e455cb..a6eef14 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -465,17 +465,18 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 
 	// First sort the proofs we're looking for so that the retains below avoid shifting.
 	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
-	'proof_search_loop: while let Some((name, zone, ty)) = rrs_needing_non_existence_proofs.pop() {
+	'proof_search_loop: while let Some((name, zone, _)) = rrs_needing_non_existence_proofs.pop() {
 		let nsec_search = res.iter()
 			.filter_map(|rr| if let RR::NSec(nsec) = rr { Some(nsec) } else { None })
 			.filter(|nsec| nsec.name.ends_with(zone.as_str()));
 		for nsec in nsec_search {
-			let name_matches = nsec.name.as_str() == name;
-			let name_contained = nsec_ord(&nsec.name,  &name) != Ordering::Greater &&
-				nsec_ord(&nsec.next_name, name) == Ordering::Greater;
-			if (name_matches && !nsec.types.contains_type(ty)) || name_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (name_matches && nsec.types.contains_type(*t)));
+			// Note that a name which exists (without the type we're looking for, or only because
+			// there's a name below it, i.e. `next_name` is) is never matched by a wildcard.
+			let name_contained = nsec_ord(&nsec.name,  &name) == Ordering::Less &&
+				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&
+				!is_in_zone(&nsec.next_name, name);
+			if name_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, z, _)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
@@ -534,12 +535,10 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			} else { continue };
 			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
 
-			let hash_matches = &start_hash[..] == name_hash.as_ref();
 			let hash_contained =
-				&start_hash[..] <= name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
-			if (hash_matches && !nsec3.types.contains_type(ty)) || hash_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (hash_matches && nsec3.types.contains_type(*t)));
+				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
+			if hash_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, z, _)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
-- 
2.43.0


From abfaeca78d8c9ce5964921404c91db43cd3e315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:01 +0000
Subject: [PATCH 20/26] fix: only use denial of existence records signed by the
 wildcard's zone

Any validated NSEC(3) with a name ending in the wildcard's zone was used,
including those from child zones and (by string suffix) unrelated zones.
---
 src/validation.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index a6eef14..f997967 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -366,6 +366,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	let mut queued_zones: Vec<&str> = Vec::new();
 	let mut res = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
+	let mut nsec_signers: Vec<(&RR, &Name)> = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
 	let mut latest_inception = 0;
 	let mut earliest_expiry = u64::MAX;
@@ -453,6 +454,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
 					}
 					for record in signed_records {
+						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
+							nsec_signers.push((record, &rrsig.key_name));
+						}
 						if !res.contains(&record) { res.push(record); }
 					}
 				},
@@ -466,9 +470,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	// First sort the proofs we're looking for so that the retains below avoid shifting.
 	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
 	'proof_search_loop: while let Some((name, zone, _)) = rrs_needing_non_existence_proofs.pop() {
-		let nsec_search = res.iter()
-			.filter_map(|rr| if let RR::NSec(nsec) = rr { Some(nsec) } else { None })
-			.filter(|nsec| nsec.name.ends_with(zone.as_str()));
+		// Only the zone which signed the wildcard can tell us that there is no closer match.
+		let nsec_search = nsec_signers.iter().filter(|(_, signer)| *signer == zone)
+			.filter_map(|(rr, _)| if let RR::NSec(nsec) = rr { Some(nsec) } else { None });
 		for nsec in nsec_search {
 			// Note that a name which exists (without the type we're looking for, or only because
 			// there's a name below it, i.e. `next_name` is) is never matched by a wildcard.
@@ -480,9 +484,13 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				continue 'proof_search_loop;
 			}
 		}
-		let nsec3_search = res.iter()
-			.filter_map(|rr| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None })
-			.filter(|nsec3| nsec3.name.ends_with(zone.as_str()));
+		// The hash in an NSEC3 record is always directly below the zone itself.
+		let nsec3_search = nsec_signers.iter().filter(|(_, signer)| *signer == zone)
+			.filter_map(|(rr, _)| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None })
+			.filter(|nsec3| {
+				zone.labels().checked_add(1) == Some(nsec3.name.labels()) &&
+					nsec3.name.trailing_n_labels(zone.labels()) == Some(zone.as_str())
+			});
 
 		// Because we will only ever have two entries, a Vec is simpler than a map here.
 		let mut nsec3params_to_name_hash = Vec::new();
-- 
2.43.0


From 22df31309f7513ff9551a42205da88889b49e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:01 +0000
Subject: [PATCH 21/26] fix: apply DNAMEs only to names below them and stop on
 loops

DNAMEs were applied to any name ending in the same characters (and to
their own name), were mis-assembled when involving the root, and any
CNAME/DNAME loop caused resolve_name to loop forever.
---
 src/validation.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index f997967..6451d19 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -561,6 +561,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	})
 }
 
+/// The maximum number of [`CName`]s and [`DName`]s which are followed when resolving a name.
+const MAX_REDIRECTIONS: usize = 255;
+
 impl<'a> VerifiedRRStream<'a> {
 	/// Given a name, resolve any [`CName`] records and return any verified records which were
 	/// pointed to by the original name.
@@ -574,7 +577,8 @@ impl<'a> VerifiedRRStream<'a> {
 	pub fn resolve_name<'b>(&self, name_param: &'b Name) -> Vec<&'a RR> where 'a: 'b {
 		let mut dname_name;
 		let mut name = name_param;
-		loop {
+		// CNAMEs and DNAMEs may form a loop, so stop following them at some point.
+		for _ in 0..MAX_REDIRECTIONS {
 			let mut cname_search = self.verified_rrs.iter()
 				.filter(|rr| rr.name() == name)
 				.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None });
@@ -584,11 +588,16 @@ impl<'a> VerifiedRRStream<'a> {
 			}
 
 			let mut dname_search = self.verified_rrs.iter()
-				.filter(|rr| name.ends_with(&**rr.name()))
+				.filter(|rr| name != rr.name() && is_in_zone(name, rr.name()))
 				.filter_map(|rr| if let RR::DName(dn) = rr { Some(dn) } else { None });
 			if let Some(dname) = dname_search.next() {
-				let prefix = name.strip_suffix(&*dname.name).expect("We just filtered for this");
-				let resolved_name = prefix.to_owned() + &dname.delegation_name;
+				// As the root name is only a ".", it is not separate from the "." ending the label
+				// before it.
+				let prefix = if dname.name.as_str() == "." { name.as_str() } else {
+					name.strip_suffix(&*dname.name).expect("We just filtered for this")
+				};
+				let target = &*dname.delegation_name;
+				let resolved_name = prefix.to_owned() + if target == "." { "" } else { target };
 				dname_name = if let Ok(name) = resolved_name.try_into() {
 					name
 				} else {
@@ -601,6 +610,7 @@ impl<'a> VerifiedRRStream<'a> {
 
 			return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();
 		}
+		Vec::new()
 	}
 }
 
-- 
2.43.0


From 9b77394625ede3af7efee7c61d2384a669f80bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:53 +0000
Subject: [PATCH 22/26] fix: accept DNSKEY sets which are also signed by keys
 no DS refers to

A zone's keys may be signed by the ZSK or another KSK as well. Depending
on the order of the signatures such proofs were rejected.
---
 src/validation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 6451d19..ba9e846 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -228,6 +228,11 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 
 	let mut found_unsupported_alg = false;
 	for sig in sigs {
+		// The keys may also be signed by keys which no DS refers to (e.g. the ZSK or, during a
+		// roll-over, another KSK). We cannot learn anything from such a signature.
+		let key_validated = validated_dnskeys.iter()
+			.any(|key| key.key_tag() == sig.key_tag && key.alg == sig.alg);
+		if !key_validated { continue; }
 		match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), records.clone()) {
 			Ok(()) => return Ok(sig),
 			Err(ValidationError::UnsupportedAlgorithm) => {
-- 
2.43.0


From ee79c0825377f8be75458aebaf562f61a3930696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:15 +0000
Subject: [PATCH 23/26] fix: Accept responses of the largest size in the WASM
 wrapper

A DNS message may be up to 65535 bytes long, but process_query_response
silently dropped responses of exactly that size, so no proof could ever
be built from one.
---
 wasmpack/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/src/lib.rs b/wasmpack/src/lib.rs
index 57fe0a0..e949a50 100644
--- a/wasmpack/src/lib.rs
+++ b/wasmpack/src/lib.rs
@@ -40,7 +40,7 @@ pub fn init_proof_builder(mut name: String, ty: u16) -> Option<WASMProofBuilder>
 /// After calling this, [`get_next_query`] should be called until pending queries are exhausted and
 /// no more pending queries exist, at which point [`get_unverified_proof`] should be called.
 pub fn process_query_response(proof_builder: &mut WASMProofBuilder, response: Vec<u8>) {
-	if response.len() < u16::MAX as usize {
+	if response.len() <= u16::MAX as usize {
 		let mut answer = QueryBuf::new_zeroed(response.len() as u16);
 		answer.copy_from_slice(&response);
 		if let Ok(queries) = proof_builder.0.process_response(&answer) {
-- 
2.43.0


From db6ead6399aa523dcd742f0f2db6ca97c1c34984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:41 +0000
Subject: [PATCH 24/26] fix: keep the HTTP server running when accepting a
 connection fails

---
 src/http.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 51a6c20..da853d9 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -46,7 +46,12 @@ mod imp {
 
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
 		loop {
-			let (mut socket, _) = listener.accept().await.expect("Failed to accept new TCP connection");
+			let mut socket = match listener.accept().await {
+				Ok((socket, _)) => socket,
+				// Errors are specific to the new connection or temporary (eg if too many clients
+				// are connected), so shouldn't stop us from serving anyone else.
+				Err(_) => { tokio::task::yield_now().await; continue; },
+			};
 			tokio::spawn(async move {
 				let mut response = ("400 Bad Request", "Bad Request");
 				'ret_err: loop { // goto label
-- 
2.43.0


From afe95bf32486bc6d415321a3d4a2d5d1781e4981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:23 +0000
Subject: [PATCH 25/26] fix: ignore bytes after the HTTP request line which are
 not UTF-8

---
 src/http.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index da853d9..70b8b2d 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -57,29 +57,24 @@ mod imp {
 				'ret_err: loop { // goto label
 					let mut buf = [0; 4096];
 					let mut buf_pos = 0;
-					'read_req: loop {
+					let request_len = 'read_req: loop {
 						if buf_pos == buf.len() { response.1 = "Request Too Large"; break 'ret_err; }
 						let read_res = { socket.read(&mut buf[buf_pos..]).await };
 						match read_res {
 							Ok(0) => return,
 							Ok(len) => {
 								buf_pos += len;
-								for window in buf[..buf_pos].windows(2) {
-									if window == b"\r\n" { break 'read_req; }
+								for (idx, window) in buf[..buf_pos].windows(2).enumerate() {
+									if window == b"\r\n" { break 'read_req idx; }
 								}
 							}
 							Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {},
 							Err(_) => return,
 						}
-					}
+					};
 					let request;
-					if let Ok(s) = std::str::from_utf8(&buf[..buf_pos]) {
-						if let Some((r, _)) = s.split_once("\r\n") {
-							request = r;
-						} else {
-							debug_assert!(false);
-							break 'ret_err;
-						}
+					if let Ok(r) = std::str::from_utf8(&buf[..request_len]) {
+						request = r;
 					} else {
 						break 'ret_err;
 					}
-- 
2.43.0


From a0eae02c402d977fa580e08e2b8a9f3476979718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:46 +0000
Subject: [PATCH 26/26] fix: accept the records of a wildcard when they were
 asked for by the wildcard's own name

The Labels field of a signature does not count the "*" label of a wildcard (RFC 4034, section 3.1.3). Thus, an answer for *.c itself
looked as if it had been expanded from *.c, and was rejected for lack of a proof that *.c does not exist.
---
 src/validation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index ba9e846..4fbfb31 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -456,7 +456,11 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						// a.b.c.
 						let proof_name = rrsig.name.trailing_n_labels(rrsig.labels + 1)
 							.ok_or(ValidationError::Invalid)?;
-						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
+						// The "*" label of a wildcard is not counted in its signature, so if the
+						// name is *.c and it was signed as *.c, nothing was expanded at all.
+						if proof_name != rrsig.name.as_str() || !proof_name.starts_with("*.") {
+							rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
+						}
 					}
 					for record in signed_records {
 						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
-- 
2.43.0

