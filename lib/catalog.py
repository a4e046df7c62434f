#!/usr/bin/env python3
"""The properties; writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props

VAL, RR, SER, QU = 'src/validation.rs', 'src/rr.rs', 'src/ser.rs', 'src/query.rs'
CAT = []


def p(id, title, statement, quant, why, mech, over=('inputs',), observe=(), hook=None):
    files = sorted({w.split(':')[0] for _, w in mech})
    CAT.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))


VRS = 'dnssec_prover::validation::verify_rr_stream'
p('C01', 'Only authenticated records are ever returned',
  'Whatever set of records is given, each record which validation returns is part of a complete set of records whose signature verifies with a zone key '
  'of a zone which contains the name, and that key is authenticated, through verified key-set signatures and DS digests of each zone above, by a built-in root trust anchor. '
  'Keys without the zone-key flag, with another protocol, or an algorithm other than the one in the signature authenticate nothing. '
  'No key, signature, DS or denial records are returned.',
  'all key, DS, RRSIG and record contents; all sets of names; all outcomes of the cryptographic checks',
  'the tests run a few captured chains with valid signatures and never a forged, misplaced or mixed one',
  [('walk down the zones, verifying each key set and record set', VAL + ': verify_rr_stream'), ('signature over a set', VAL + ': verify_rrsig'),
   ('key set through DS', VAL + ': verify_dnskeys, verify_dnskey_rrsig'), ('trust anchors', VAL + ': root_hints')], observe=[VRS])
p('C02', 'Zone keys are trusted only through a matching, supported DS or trust anchor',
  'The key set of a zone is used only if it is signed by a key of that zone for which an authenticated DS record (or trust anchor) of exactly that zone has the same algorithm and key tag '
  'and the digest of the owner name and key data. Digest types other than the supported ones never authenticate a key, and no weaker digest is relied on when the zone has a stronger supported one.',
  'all DS contents, key contents and digests', 'the tests have one DS record per zone, all of which match',
  [('DS matching and digest', VAL + ': verify_dnskeys'), ('DS records are authenticated first', VAL + ': verify_rr_stream'), ('digests', 'src/crypto/hash.rs: Hasher')], observe=[VRS])
p('C03', 'A zone speaks only for the names below it',
  'A signature by a zone is only ever relied on for names equal to or below that zone, on label boundaries, and a delegation is only taken from a zone above the delegated one. '
  'A name which merely ends with the characters of the zone\'s name is not below it.',
  'all combinations of zone, signer, owner and signature owner names', 'the tests contain no signer outside its zone and no name which is a textual suffix of another',
  [('label-wise containment', VAL + ': is_in_zone'), ('signer and owner are compared', VAL + ': verify_rr_stream, verify_rrsig')], observe=[VRS])
p('C04', 'Every valid proof is accepted, in any order, and all of it is returned',
  'A set of records in which each zone\'s keys, DS records and record sets are validly signed from a trust anchor down is accepted whatever order its records are in, and each of the signed record sets is returned in full, once. '
  'Additional keys, DS records and signatures by other keys of the same zone, and records of further zones, do not change that.',
  'chains of any of the listed shapes; orders of the records', 'the tests shuffle at random and check a handful of chains',
  [('search for the signers', VAL + ': verify_rr_stream'), ('choice of the key set signature', VAL + ': verify_dnskey_rrsig')], observe=[VRS])
p('C05', 'Validity window and cache lifetime bound every signature relied on',
  'The result\'s valid_from is no earlier than the inception, its expiry no later than the expiration, and its cache lifetime no longer than the original TTL of every signature relied on; they are exactly the tightest such values for a chain without alternatives. '
  'Signature times are interpreted in the 32 bit serial number arithmetic of RRSIG records around the present era, and an empty window is rejected.',
  'all inception, expiration and TTL values', 'the tests have a few fixed values',
  [('accumulating the limits', VAL + ': verify_rr_stream, verify_dnskeys'), ('serial times', VAL + ': resolve_time')], observe=[VRS])
p('C06', 'The work a hostile proof can cause is bounded',
  'Validation terminates for every set of records, checks each signature at most once per use, checks no further signature once one has failed, computes a number of digests that is bounded by the numbers of DS and key records, '
  'works through at most two sets of NSEC3 parameters per name, and none with more iterations than the limit. Zones which delegate to each other in a circle are visited once.',
  'all proofs, in particular with colliding keys, repeated and circular delegations, and many or expensive denial records', 'the tests have no hostile proof',
  [('zones pending and done', VAL + ': verify_rr_stream'), ('no retry after a failure', VAL + ': verify_rrsig, verify_dnskey_rrsig'), ('iteration limit', VAL + ': verify_rr_stream')], observe=[VRS])
p('C07', 'Wildcard answers need an NSEC record of the zone which excludes a closer match',
  'A record whose signature has fewer labels than its name (and is not at the name of the wildcard itself) is returned only if an authenticated NSEC record of the zone that signed it lies strictly before and its next name strictly after the next closer name, in the canonical order of names, and no name below that one exists; '
  'a valid covering record suffices. NSEC records which are themselves expanded from a wildcard, come from another zone, or match the name prove nothing.',
  'all names, label counts, NSEC ranges and signers', 'the tests have one zone with three names',
  [('names that need a proof, and their proofs', VAL + ': verify_rr_stream'), ('canonical order', VAL + ': nsec_ord')], observe=[VRS])
p('C08', 'Wildcard answers need an NSEC3 record of the zone which excludes a closer match',
  'When denial is by NSEC3, the iterated salted SHA-1 hash of the next closer name must lie strictly between the hash in the owner name and the next hash, both of 20 bytes, in a record directly below the zone which signed the wildcard. '
  'Records with unknown hash algorithms, any flags (such as opt-out) or too many iterations prove nothing, and a valid covering record suffices.',
  'all hashes, salts, flags, algorithms, iteration counts, owner names and signers', 'the tests have three captured records',
  [('hashing and comparing', VAL + ': verify_rr_stream'), ('base32hex', 'src/base32.rs: decode')], observe=[VRS])
p('C09', 'What is verified is the canonical form of exactly the signed set',
  'Each signature is checked over the RRSIG data without the signature and the records of the set in canonical order and form, with the original TTL and the owner name reduced to the wildcard if the label count says so. '
  'The order in which records were given does not matter.',
  'all record sets and orders', 'the tests have a few sets of up to three records',
  [('message construction', VAL + ': verify_rrsig'), ('canonical data and order', RR + ': StaticRecord::write_u16_len_prefixed_data, Ord'), ('names', SER + ': write_name')], observe=['ring signature verification'])
p('C10', 'Parsing any bytes as a proof terminates without panicking',
  'For every byte string, parsing it as a stream of records returns records or an error: it never panics, overflows, reads out of bounds or loops.',
  'all byte strings', 'the tests parse valid streams only; fuzzing samples',
  [('record stream', SER + ': parse_rr_stream, parse_rr'), ('record data', RR + ': read_from_data'), ('names', SER + ': read_wire_packet_name')], observe=['dnssec_prover::ser::parse_rr_stream'])
p('C11', 'Records are parsed to exactly what the bytes say, or rejected',
  'A record of a supported type is accepted only with class IN and data of exactly the form of its type, without anything left over, and its fields are the values at their positions in the data, in network byte order. '
  'Truncated or overlong data is an error, and the next record starts where the length says.',
  'all classes, TTLs, lengths and data of each type', 'the tests parse a few valid records',
  [('typed data', RR + ': read_from_data'), ('record header', SER + ': parse_rr'), ('readers', SER + ': read_u8, read_u16, read_u32, read_u8_len_prefixed_bytes')],
  observe=['dnssec_prover::ser::parse_rr_stream'])
p('C12', 'Names on the wire are read as the labels they are',
  'A name on the wire is accepted only if it is a sequence of labels of 1 to 63 graphic ASCII characters other than dots and double quotes, ended by the root, of at most 255 characters, and is then the lower case text of the labels; in a proof there is no compression. '
  'A valid name is never rejected.',
  'all byte strings in place of a name', 'the tests have valid names only', [('reading', SER + ': read_wire_packet_labels, read_wire_packet_name'), ('checks', RR + ': Name::try_from')],
  observe=['dnssec_prover::ser::parse_rr_stream'])
p('C13', 'Name accepts exactly the valid names, and counts and cuts labels correctly',
  'Text is accepted as a name only if it is a sequence of non-empty labels of up to 63 graphic ASCII characters (no double quotes) each followed by a dot, at most 255 characters in all, or the root; upper case is lowered. '
  'The label count and the last n labels are those of the text.',
  'all strings', 'the tests have a few valid names', [('construction', RR + ': Name::try_from'), ('labels', RR + ': Name::labels, Name::trailing_n_labels')], observe=['dnssec_prover::rr::Name'])
p('C14', 'Writing a record and parsing it returns the same record, in canonical form',
  'Every record that can be represented is written as its owner name, type, class IN, TTL and data in the canonical wire form of RFC 4034, and parsing that gives an equal record and nothing else. TXT data of any length is split into strings of 255 bytes and one rest.',
  'all records', 'the tests round-trip a few records', [('writing', SER + ': write_rr, write_name'), ('data', RR + ': write_u16_len_prefixed_data')], observe=['dnssec_prover::ser::write_rr', 'dnssec_prover::ser::parse_rr_stream'])
p('C15', 'Type bitmaps hold exactly the types that were set',
  'A bitmap which is read from NSEC or NSEC3 data contains a type if and only if its bit is set in its window; windows which are empty, longer than 32 bytes or cut short are rejected. A bitmap made from types contains exactly these and is written in canonical form.',
  'all bitmaps and sets of types', 'the tests have a few captured bitmaps', [('reading', SER + ': read_nsec_types_bitmap'), ('writing', SER + ': write_nsec_types_bitmap'), ('membership', RR + ': NSecTypeMask::contains_type')],
  observe=['dnssec_prover::rr::NSecTypeMask'])
p('C16', 'Key tags are those of RFC 4034', 'The key tag of every key is the checksum of RFC 4034 appendix B over the whole key data, for keys of every length.', 'all keys',
  'the tests have a few keys', [('checksum', RR + ': DnsKey::key_tag')], observe=['dnssec_prover::rr::DnsKey::key_tag'])
p('C17', 'Keys are handed to the signature check as encoded, or not at all',
  'An RSA key is used with exactly the exponent and modulus in its data, for both forms of the exponent length; a truncated or otherwise malformed key of any algorithm is never used and never causes a panic. The algorithm of the signature check is that of the key and the signature.',
  'all key data', 'the tests have a few well-formed keys', [('RSA key data', VAL + ': bytes_to_rsa_pk'), ('algorithms', VAL + ': verify_rrsig')], observe=['ring signature verification'])
p('C18', 'Name resolution follows CNAME and DNAME as DNS does',
  'Resolving a name in a verified set returns the records other than aliases whose owner is the name, or the name which CNAME and DNAME records of the set lead to: a CNAME replaces the name, a DNAME replaces its own name as a suffix of whole labels of longer names only. '
  'It terminates on circular aliases and on names which grow too long.',
  'all sets of records and names', 'the tests have a few aliases', [('following aliases', VAL + ': VerifiedRRStream::resolve_name')], observe=['dnssec_prover::validation::VerifiedRRStream::resolve_name'])
p('C19', 'Only authentic, successful responses are accepted, and added as they are',
  'A response becomes part of a proof only if it is a response to a single question without truncation, with response code zero and the authentic data bit set, and has an answer; its answer records and those DNSSEC records of the authority section which belong to it are added in the same order, uncompressed. '
  'A rejected response leaves the proof as it was.',
  'all response messages', 'the tests have no responses; only the network tests do', [('response handling', QU + ': handle_response, ProofBuilder::process_response'), ('header', QU + ': handle_response')],
  observe=['dnssec_prover::query::ProofBuilder::process_response'])
p('C20', 'Any bytes as a response, compressed in any way, are handled safely',
  'For every message, with compression pointers to anywhere, processing it returns; names made of endless or very long chains of pointers are rejected, names have at most 255 characters, and an accepted name is the one its labels and pointers spell.',
  'all byte strings as responses', 'the tests have no hostile responses', [('compressed names', SER + ': read_wire_packet_labels'), ('sections', QU + ': handle_response')], observe=['dnssec_prover::query::ProofBuilder::process_response'])
p('C21', 'The proof builder asks for each signer once and ends when all is answered',
  'After each accepted response the builder issues one DNSKEY and one DS query for each signer not asked for before (only DNSKEY for the root), and gives up when that exceeds its limit of queries; it awaits responses exactly while fewer were given than queries issued. A proof is available only when all were answered, and is the concatenation of what they added.',
  'all sequences of responses', 'the tests do not drive the builder without a network', [('state', QU + ': ProofBuilder')], over=('inputs', 'histories'), observe=['dnssec_prover::query::ProofBuilder'])
p('C22', 'Queries ask exactly what they should', 'A query is a well-formed message with recursion desired, one question with the name and type asked for, class IN, and an EDNS record with the DNSSEC OK bit.', 'all names and types',
  'the tests look at no query', [('query', QU + ': build_query')], observe=['dnssec_prover::query::ProofBuilder::new'])
p('C23', 'QueryBuf is a byte vector across its whole range', 'Whatever is appended to a query buffer in whatever pieces, it holds the concatenation, compares by its contents, and never loses bytes or panics when it moves from inline to heap storage.', 'all sequences of appends',
  'the tests have no buffers over the inline size', [('buffer', QU + ': QueryBuf')], over=('inputs', 'histories'), observe=['dnssec_prover::query::QueryBuf'])
p('C24', 'Record ordering and equality are consistent and canonical',
  'The order of records is a total order, agrees with equality and between its two forms, and TXT records with the same name are ordered by their wire data. Records are equal only if all fields are.',
  'all pairs and triples of records', 'one test sorts a few TXT records', [('orders', RR + ': Ord and PartialOrd implementations')], observe=['dnssec_prover::rr::RR'])
p('C25', 'The JSON form of every record is valid JSON which says what the record holds',
  'For every record, the JSON form is one valid JSON object, whatever bytes and characters the record contains, and its members hold the name, type and data of the record.',
  'all records', 'no test looks at the JSON', [('JSON', RR + ': StaticRecord::json'), ('escaping', RR + ': json_escaped')], observe=['dnssec_prover::rr::RR::json'])
p('C26', 'The built-in trust anchors are those of the root zone', 'The trust anchors are exactly the SHA-256 digests of the root key signing keys published by IANA, and nothing else is a starting point of trust.', 'the configuration built in',
  'no test looks at them; a chain can only use one', [('anchors', VAL + ': root_hints')], over=('configurations',), observe=['dnssec_prover::validation::root_hints'])

WA, HT = 'wasmpack/src/lib.rs', 'src/http.rs'
p('C27', 'The WASM wrappers say exactly what the library says',
  'For every byte string, verify_byte_stream returns valid JSON: the times, the cache lifetime and all records which the library verifies, or the error the library gives. '
  'For every name, with or without its final dot, and every sequence of responses of up to 65535 bytes, the wrapped proof builder hands out each query of the library builder once and in order, ignores bad responses, and gives the same proof exactly when there is one.',
  'all byte strings, names and sequences of responses', 'there are no tests of the wrappers', [('verification', WA + ': verify_byte_stream'), ('proof builder', WA + ': init_proof_builder, process_query_response, get_next_query, get_unverified_proof')],
  over=('inputs', 'histories'), observe=['dnssec_prover_wasm::verify_byte_stream', 'dnssec_prover_wasm::process_query_response'])
p('C28', 'The blocking client builds the same proof however its connection behaves',
  'Each build function connects to the given resolver, sends exactly the queries of the proof builder for the name and its own record type, each after its length, and never waits for a response to a query it has not sent. '
  'In whatever pieces and with whatever interruptions data is sent and received, it returns the proof and TTL which the responses make; a refused, broken or early closed connection, a bad response, or too many queries give an error, without a panic.',
  'all ways in which a connection delivers, splits, interrupts and ends data; all responses', 'the tests need a network and see only what it happens to do',
  [('driver', QU + ': build_proof_impl, build_proof'), ('framing', QU + ': send_query, read_response'), ('entry points', QU + ': build_a_proof, build_aaaa_proof, build_txt_proof, build_tlsa_proof')],
  over=('inputs', 'schedules', 'fault_sequences'), observe=['dnssec_prover::query::build_txt_proof'])
p('C29', 'The asynchronous client builds the same proof however its connection behaves',
  'Each asynchronous build function connects to the given resolver, sends exactly the queries of the proof builder for the name and its own record type, each after its length, and never waits for a response to a query it has not sent. '
  'In whatever pieces data is sent and received and whichever operations are not ready at first, it returns the proof and TTL which the responses make; a refused, broken or early closed connection, a bad response, or too many queries give an error, without a panic.',
  'all ways in which a connection delivers, splits, delays and ends data; all responses', 'the tests need a network and see only what it happens to do',
  [('driver', QU + ': build_proof_impl, build_proof_async'), ('framing', QU + ': send_query_async, read_response_async'), ('entry points', QU + ': build_a_proof_async, build_aaaa_proof_async, build_txt_proof_async, build_tlsa_proof_async')],
  over=('inputs', 'schedules', 'fault_sequences'), observe=['dnssec_prover::query::build_txt_proof_async'])
p('C30', 'The HTTP server answers every request with the proof it asks for, or refuses it',
  'A GET request for /dnssecproof with a valid name d and a type t (TXT, TLSA, A or AAAA in any case) is answered with status 200, the proof built for that name and type as the body, and a cache lifetime equal to its TTL; when there is no proof, or for another path, with 404; any other request line, or one not ended within 4096 bytes, with 400; each answer has its exact Content-Length. '
  'This holds for any bytes in any pieces, nothing is answered to connections which end before a request does, every connection is closed afterwards, and no client or resolver connection affects the answer to another client.',
  'all requests, pieces, orders in which tasks run, and responses of the resolver', 'the tests send three good requests and need a network',
  [('server', HT + ': imp::run_server'), ('configuration', HT + ': main')], over=('inputs', 'schedules', 'fault_sequences'), observe=['responses of http_proof_gen'])
p('C31', 'An algorithm is reported as unsupported exactly if a zone has chosen one',
  'Validation fails with UnsupportedAlgorithm only if no signature check failed and a zone is shown, by authenticated DS records, to use only types of digests which are not supported, or to have a zone key of an algorithm '
  'which is not supported, with which its keys are signed; this is never reported for the root or instead of a bad signature. A proof which is right but for one such zone is rejected with this error.',
  'all algorithms, digest types, keys, DS records and signatures', 'no test has an unsupported algorithm', [('digest types', VAL + ': verify_dnskeys'), ('signature algorithms', VAL + ': verify_rrsig'), ('errors', VAL + ': verify_rr_stream')],
  observe=[VRS])
p('C32', 'Honest responses make a proof which verifies and resolves to the answer',
  'When each query of the proof builder is answered as a validating resolver answers it, in any order, then every response is accepted, the proof which results is parsed and verified, what is verified are exactly the signed records of the answer, '
  'and the name resolves to the records asked for. This holds for names in zones of any depth up to what ten queries reach, for aliases within and across zones, for names below a DNAME with its unsigned synthesized CNAME, and for wildcards with either kind of denial.',
  'all orders of responses, record data and TTLs; the listed shapes of zones and answers', 'the tests which build and verify proofs need a network and see three names', [('proof builder', QU + ': ProofBuilder'), ('responses', QU + ': handle_response'),
  ('verification', VAL + ': verify_rr_stream'), ('resolution', VAL + ': VerifiedRRStream::resolve_name')],
  over=('inputs', 'schedules'), observe=['dnssec_prover::query::ProofBuilder', 'dnssec_prover::ser::parse_rr_stream', VRS])

NOTE = ('Every path of the compiled code within the stated bounds is executed symbolically and each assertion decided by z3 over all values; counterexamples are replayed natively before '
        'they are reported, and a sample of the explored paths is too. Trusted: rustc and LLVM up to the IR, z3, the executor (self-tested against native evaluation), and the '
        'oracles which stand for ring and bitcoin_hashes. Bounds: ')
TECH = 'symbolic execution of the LLVM IR of the real code with z3 deciding path conditions and assertions, bounded'
NA = []


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for c in CAT:
            f.write(json.dumps(c) + '\n')
    checks = []
    for c in CAT:
        if c['id'] not in props.PROPS:
            continue
        P = props.PROPS[c['id']]
        checks.append(dict(property=c['id'], quick_cmd='VERIF_TIER=quick python3 check.py ' + c['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + c['id'],
                           evidence_file='evidence/%s.json' % c['id'], technique=TECH, level='model_checking', level_note=NOTE + P.bounds + '.'))
    m = dict(version=1, setup_cmd='python3 lib/build.py', checks=checks, not_applicable=NA)
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for c in CAT:
        jsonschema.validate(c, json.load(open('/root/.vp/PROPERTIES.schema.json')))
        assert c['statement'].count('. ') <= 2, c['id']
    print(len(CAT), 'properties,', len(checks), 'checks')


if __name__ == '__main__':
    main()
