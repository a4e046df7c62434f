"""Which harnesses decide which property, with which bounds."""
import json, os



class T:
    def __init__(self, fn, *params, jobs=1, time=120, reach=(), max_steps=40000000, samples=6, rlimit=200000000, reach_always=False):
        self.fn, self.params, self.jobs, self.time, self.reach = fn, params, jobs, time, reach
        self.samples, self.rlimit, self.reach_always = samples, rlimit, reach_always
        self.max_steps = max(max_steps, 40000000) * 2  # far above the longest path, so that slower code which does the same is no hang

    def name(self):
        return self.fn + ''.join('-%s' % p for p in self.params)


class Prop:
    def __init__(self, quick, thorough=None, bounds='', outside='', assumptions=(), budget=(400, 3000)):
        self.q, self.t, self.bounds, self.outside, self.assumptions, self.b = quick, thorough or quick, bounds, outside, list(assumptions), budget

    def tasks(self, tier):
        return self.q() if tier == 'quick' else self.t()

    def budget(self, tier):
        return self.b[0] if tier == 'quick' else self.b[1]


COMMON_ASSUMPTIONS = [
    'rustc and LLVM translate the source to the IR that is executed (opt-level 1, debug assertions and overflow checks on); z3 answers correctly (models are re-evaluated)',
    'allocation succeeds; memory is one object per allocation, out-of-bounds and use-after-free accesses are reported',
    'the ring and bitcoin_hashes crates are replaced by oracles: what they compute is not checked, only how the repository uses them',
]


_HERE = os.path.dirname(os.path.abspath(__file__))


def reach_labels():
    try:
        return json.load(open(os.path.join(_HERE, 'reach.json')))
    except FileNotFoundError:
        return {}


def L(text, **kw):
    """One task per line: function, then comma separated parameters."""
    r = []
    for l in text.split('\n'):
        w = l.split()
        if w:
            k = dict(kw)
            p = [int(x) for x in w[1].split(',')] if len(w) > 1 and '=' not in w[1] else []
            for x in w[1:]:
                if '=' in x:
                    a, b = x.split('=')
                    k[a] = int(b)
            r.append(T(w[0], *p, **k))
    return r


PROPS = {}


def prop(id, quick, deep='', bounds='', outside='', assumptions=(), budget=(400, 3000)):
    q, d = BIG.get(id, ('', ''))
    quick, deep = quick + '\n' + q, deep + '\n' + d
    PROPS[id] = Prop(lambda: L(quick), lambda: L(quick, time=900) + L(deep, jobs=8, time=1500), bounds, outside, assumptions, budget)


SETS = """
val_set 2,2,0
val_set 3,2,0
val_set 2,3,1
val_set 3,1,1
val_set 2,2,2
val_set 2,2,3
"""
NAMES = """
val_names 3
val_names 12
val_names 48
val_names 19
val_names 76
"""
ROOT = """
val_root 4,4
val_root 4,2
val_root 4,1
val_root 4,3
val_root 4,5
val_root 4,7 jobs=8
"""
DS = """
val_ds 1,0
val_ds 2,0
val_ds 3,0
val_ds 1,3
val_ds 2,1
val_ds 1,4
val_ds 2,8
val_ds 1,16
val_ds 2,16
"""
SIGS = """
val_sigs 1
val_sigs 2
val_sigs 4
val_sigs 7
val_sigs 8 jobs=8
"""
ZONES = """
val_zone_names 0 jobs=8
val_zone_names 1 jobs=8
val_zone_names 2 jobs=8
"""
SHAPES = '\n'.join('val_shapes %d,%d' % (s, o) for s in range(10) for o in range(4))
COMPLETE = """
val_complete 0,0,0
val_complete 1,3,0
val_complete 3,3,0
val_complete 2,2,0
val_complete 2,4,0
val_complete 3,1,0
"""
KINDS = '\n'.join('val_kinds %d' % i for i in range(7)) + '\n'
TIMES = """
val_complete 1,1,5
val_complete 2,1,18
val_complete 0,0,3
val_complete 1,0,31
val_complete 2,0,63
"""

# the same on big inputs (h_big.rs)
BIG = {
    'C01': ('''
val_big 1,20,4,2,2,2 jobs=4
val_big 1,40,3,2,1,1 jobs=8
val_big 1,12,3,2,10,0 jobs=8
val_big 1,3,3,30,2,1 jobs=8
val_big 1,2,2,1,1,0
val_big 3,4,12,3,2,2 max_steps=60000000 jobs=8
val_big 5,3,13,3,2,0 max_steps=60000000 jobs=8
val_big 10,4,13,4,2,1 max_steps=60000000 jobs=8
val_big 2,3,33,9,3,1 max_steps=60000000 jobs=8
val_many 12,0
val_many 40,1 max_steps=60000000
''', '''
val_big 20,3,22,5,2,0 max_steps=200000000 jobs=8
val_big 2,12,64,20,8,0 max_steps=200000000 jobs=8
val_many 100,0 max_steps=60000000 jobs=8
'''),
    'C04': ('''
val_long 0,300,0
val_long 0,5000,1
val_long 0,60000,2
val_long 1,300,0
val_long 1,5000,1
val_long 1,65000,1
val_long 2,516,1
val_long 2,1030,0
val_long 2,5000,0
val_long 2,65000,0
val_long 3,5000,0
val_long 4,5000,0
val_long 5,5000,0
val_tags 0,0,0
val_tags 0,0,1
val_tags 0,1,1
val_tags 1,0,0
val_tags 1,0,1
val_tags 1,1,1
val_tags 2,0,0
val_tags 2,0,1
val_tags 2,1,1
val_big 1,20,4,2,2,2 jobs=4
val_big 1,40,3,2,1,1 jobs=8
val_big 1,12,3,2,10,0 jobs=8
val_big 1,3,3,30,2,1 jobs=8
val_big 1,2,2,1,1,0
val_big 3,4,12,3,2,2 max_steps=60000000 jobs=8
val_big 5,3,13,3,2,0 max_steps=60000000 jobs=8
val_big 10,4,13,4,2,1 max_steps=60000000 jobs=8
val_big 2,3,33,9,3,1 max_steps=60000000 jobs=8
val_many 12,0
val_many 40,1 max_steps=60000000
''', '''
val_big 20,3,22,5,2,0 max_steps=200000000 jobs=8
val_big 2,12,64,20,8,0 max_steps=200000000 jobs=8
val_many 100,0 max_steps=60000000 jobs=8
'''),
    'C09': ('''
val_long 0,300,0
val_long 0,5000,1
val_long 0,60000,2
val_long 1,300,0
val_long 1,5000,1
val_long 1,65000,1
val_long 2,516,1
val_long 2,1030,0
val_long 2,5000,0
val_long 2,65000,0
val_long 3,5000,0
val_long 4,5000,0
val_long 5,5000,0
val_big 1,20,4,2,2,2 jobs=4
val_big 1,40,3,2,1,1 jobs=8
val_big 1,12,3,2,10,0 jobs=8
val_big 1,3,3,30,2,1 jobs=8
val_big 1,2,2,1,1,0
val_big 3,4,12,3,2,2 max_steps=60000000 jobs=8
val_big 5,3,13,3,2,0 max_steps=60000000 jobs=8
val_big 10,4,13,4,2,1 max_steps=60000000 jobs=8
val_big 2,3,33,9,3,1 max_steps=60000000 jobs=8
''', '''
val_big 20,3,22,5,2,0 max_steps=200000000 jobs=8
val_big 2,12,64,20,8,0 max_steps=200000000 jobs=8
'''),
    'C02': ('''
val_long 2,516,1
val_long 2,1030,0
val_long 2,5000,0
val_long 2,65000,0
val_long 3,5000,0
val_long 4,5000,0
val_long 5,5000,0
val_tags 0,0,0
val_tags 0,0,1
val_tags 0,1,1
val_tags 1,0,0
val_tags 1,0,1
val_tags 1,1,1
val_tags 2,0,0
val_tags 2,0,1
val_tags 2,1,1
val_big 1,20,4,2,2,2 jobs=4
val_big 1,40,3,2,1,1 jobs=8
val_big 1,12,3,2,10,0 jobs=8
val_big 1,3,3,30,2,1 jobs=8
val_big 5,3,13,3,2,0 max_steps=60000000 jobs=8
val_big 2,3,33,9,3,1 max_steps=60000000 jobs=8
''', '''
val_big 20,3,22,5,2,0 max_steps=200000000 jobs=8
val_big 2,12,64,20,8,0 max_steps=200000000 jobs=8
'''),
    'C05': ('''
val_big 3,4,12,3,2,0 max_steps=60000000 jobs=8
''', '''
'''),
    'C07': ('''
wild_many 8,0,0,1
wild_many 20,0,1,3
wild_many 30,0,0,4
''', '''
wild_many 34,0,0,12
'''),
    'C08': ('''
wild_many 8,1,1,2
wild_many 20,2,0,4
wild_many 12,1,2,1
''', '''
wild_many 60,2,0,12 jobs=8 max_steps=20000000
'''),
    'C18': ('''
resolve_chain 5,0,2,2 max_steps=60000000
resolve_chain 10,1,1,3 max_steps=60000000
resolve_chain 17,2,3,1 max_steps=60000000
resolve_chain 64,2,2,2 max_steps=60000000
resolve_chain 128,1,2,3 max_steps=60000000
resolve_chain 254,0,12,2 max_steps=60000000
resolve_chain 254,2,2,1 max_steps=60000000
resolve_chain 254,1,1,0 max_steps=60000000
''', '''
'''),
    'C19': ('''
resp_hops 20,1
resp_hops 126,50
resp_many 3,3,1
resp_many 40,10,1
resp_many 1,60,1
resp_many 300,10,2
resp_many 12,300,1
''', '''
resp_many 2000,40,1 max_steps=60000000
resp_many 256,256,1 max_steps=60000000
'''),
    'C20': ('''
resp_hops 3,1
resp_hops 20,1
resp_hops 30,5
resp_hops 126,1
resp_hops 126,50
resp_hops 120,16
''', '''
'''),
    'C21': ('''
resp_many 40,10,1
resp_many 300,10,2
''', '''
'''),
    'C12': ('''
name_many 127,1
name_many 85,2
name_many 4,62
''', '''
'''),
    'C13': ('''
name_many 1,63
name_many 3,5
name_many 127,1
name_many 128,1
name_many 85,2
name_many 42,5
name_many 4,62
name_many 4,63
''', '''
name_many 63,3
name_many 64,3
'''),
    'C11': ('''
stream_many 12
stream_many 100 max_steps=60000000
stream_many 300 max_steps=60000000
''', '''
stream_many 1200 max_steps=200000000
'''),
    'C14': ('''
stream_many 12
stream_many 100 max_steps=60000000
stream_many 300 max_steps=60000000
''', '''
stream_many 1200 max_steps=200000000
'''),
    'C25': ('''
json_long 5,20,0
json_long 5,33,1
json_long 5,64,2
json_long 5,255,0
json_long 5,256,0
json_long 5,300,0
json_long 5,1000,1
json_long 5,3000,2
json_long 6,3,0 jobs=8
json_long 6,20,0 jobs=8
json_long 6,33,0 jobs=8
json_long 6,64,0 jobs=8
json_long 7,3,0 jobs=8
json_long 7,20,0 jobs=8
json_long 7,33,0 jobs=8
json_long 7,64,0 jobs=8
json_long 8,20,0 jobs=8
json_long 8,33,0 jobs=8
json_long 8,64,0 jobs=8
json_long 9,3,0 jobs=8
json_long 9,20,0 jobs=8
json_long 9,33,0 jobs=8
json_long 9,64,0 jobs=8
json_long 11,3,0 jobs=8
json_long 11,20,0 jobs=8
json_long 11,33,0 jobs=8
json_long 11,64,0 jobs=8
json_long 12,3,0 jobs=8
json_long 12,20,0 jobs=8
json_long 12,33,0 jobs=8
json_long 12,64,0 jobs=8
json_long 10,40,2 jobs=8
json_long 10,12,1
json_long 7,260,1 jobs=8
json_long 9,300,0 jobs=8
''', '''
json_long 12,255,1 jobs=8
json_long 11,255,0 jobs=8
json_long 6,1000,0 jobs=8
'''),
}

prop('C01', ROOT + SETS + NAMES + DS + SIGS + ZONES + """
val_two_keys 4 jobs=8
wild_nsec 0 jobs=8
wild_nsec3 6,1
wild_zones 0 jobs=8
val_loops 511,0,0 jobs=8
""", """
val_root 5,7
val_two_keys 5
val_set 4,2,0
val_set 4,1,1
val_set 3,3,1
val_names 51
val_names 13
wild_zones 3
""", bounds='chains of up to 10 zones (20) with up to 4 keys (12), 9 DS records (20) and 3 signatures (8) for everything, sets of up to 33 records (64), any of whose records may be missing or have an arbitrary other byte; up to 40 signed names (100) beside one which is not; '
     'key sets of one or two keys with 4 arbitrary bytes (6 when thorough) of key data and arbitrary flags, protocol and algorithm; all RRSIG '
     'fields arbitrary with a one byte signature; two-zone chains with names out of sets of up to 8; sets of 1-3 records (4) with up to 3 arbitrary '
     'bytes of data; every signature check and every digest may come out either way',
     outside='what ring and bitcoin_hashes compute; longer keys and signatures (C17 covers RSA keys of any form); more than three zones in one chain')
prop('C02', DS + """
val_names 3
val_names 12
val_names 19
val_names 76
val_sigs 8 jobs=8
val_root 4,1
val_loops 511,0,0 jobs=8
val_zone_names 0 jobs=8
""", """
val_ds 3,1
val_ds 2,3
val_ds 3,3
val_ds 2,5
""", bounds='chains of up to 5 zones (20) with up to 9 DS records (20), any of them missing or changed; '
     'one to three DS records of a zone, each with an arbitrary digest type, key tag and algorithm and one of the digests of the key, none, or '
     'one with arbitrary first and last bytes; key data arbitrary', outside='what the digests are: the hash functions are oracles')
prop('C03', ZONES + NAMES + """
wild_zones 0 jobs=8
val_loops 511,0,1 jobs=8
""", """
val_names 51
wild_zones 3
wild_zones 6
""", bounds='zone names, owner names, signer names and RRSIG owner names out of three sets of 8, chosen independently, among them names which are '
     'suffixes of each other without being subdomains', outside='names outside these sets (the comparison of names is decided for all short names in C12, C13, C24)')
prop('C04', COMPLETE + SHAPES + '\n' + KINDS, """
val_complete 3,4,0
val_complete 3,2,0
val_complete 2,3,0
""", bounds='chains of up to 10 zones (20) with up to 4 keys (12), 9 DS records (20) and 3 signatures (8) for everything, sets of up to 33 records (64), any of whose records may be missing or have an arbitrary other byte; up to 40 signed names (100) beside one which is not; '
     'chains of up to four zones with seven kinds of record sets, one or two of them in a proof, and ten shapes of proofs which real zones have '
     '(separate keys for the key set and the records, several DS, digests and algorithms, wildcards, sibling zones, aliases across zones); the records '
     'as they are, reversed, rotated by any amount, or with any two exchanged',
     outside='permutations other than these; proofs that need the last NSEC or NSEC3 record of a zone, which the repository means to reject')
prop('C05', TIMES + """
wild_times 0
wild_times 1
val_sigs 1
val_sigs 2
val_sigs 4
val_sigs 7
val_root 4,2
val_root 4,4
val_set 2,2,0
val_two_keys 4 jobs=8
val_shapes 0,0
val_shapes 1,0
val_shapes 3,2
""", """
val_complete 2,3,63
val_complete 3,0,255
""", bounds='inception, expiration and original TTL of every signature of a chain of up to three zones (four when thorough), and of the signatures over a wildcard expansion and its NSEC or NSEC3 record, arbitrary 32 bit values, all of them at once',
     outside='chains of more than four zones')
prop('C06', """
wild_nsec3_params 4,6
wild_nsec3_params 5,300 max_steps=60000000
val_loops 511,0,0 jobs=8
val_loops 511,0,1 jobs=8
wild_nsec3 1,2501
wild_nsec3 0,0
""" + DS + SIGS + NAMES + SETS, """
val_root 4,7
val_zone_names 0
wild_zones 3
""", bounds='up to 9 delegation links among three zones in any combination, with and without repetition; up to three DS records and four signatures; NSEC3 iteration counts up to 2501; five NSEC3 records with parameters of their own',
     outside='how long ring takes; proofs with more than about 30 records')
NSEC = """
wild_nsec 0 jobs=8
wild_nsec 1 jobs=8
wild_nsec 2 jobs=8
""" + '\n'.join('wild_nsec_chars %d' % i for i in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14)) + """
wild_zones 0 jobs=8
wild_zones 6 jobs=8
"""
prop('C07', NSEC + KINDS, """
wild_zones 3
wild_nsec_chars 7
""", bounds='up to 30 NSEC records (34) for up to 4 answers (12), any of which may be missing; '
     'owner, NSEC owner and next name out of sets of names, with any label count in either signature, and with up to three arbitrary letters in the names; '
     'NSEC records of two zones, two expansions at a time', outside='names of more than five labels')
prop('C08', """
wild_nsec3 0,0
wild_nsec3 1,2
wild_nsec3 2,0
wild_nsec3 6,1
wild_nsec3 24,0
wild_nsec3 48,1
wild_nsec3 1,2501
wild_nsec3_exact 0,0
wild_nsec3_exact 2,1
wild_nsec3_exact 1,3
wild_nsec3_exact 257,1
wild_nsec3_exact 700,8 max_steps=20000000
wild_nsec3_exact 0,255
wild_nsec3_label 0,32
wild_nsec3_label 1,32
wild_nsec3_label 2,32
wild_nsec3_label 1,31
wild_nsec3_label 1,33
wild_nsec3_label 1,24
wild_nsec3_label 1,40
wild_nsec3_two 3
wild_nsec3_iter 0,0 max_steps=20000000
wild_nsec3_iter 0,3 max_steps=20000000
wild_nsec3_iter 2500,1 max_steps=20000000
wild_nsec3_iter 1000,1 max_steps=20000000
wild_nsec3_iter 255,8
wild_nsec3_iter 256,8
wild_nsec3_iter 150,255
wild_zones 0 jobs=8
""", """
wild_nsec3 63,1
wild_nsec3 3,2500
wild_nsec3_exact 3,10
""", bounds='up to 20 NSEC3 records (60), any of which may be missing; owner labels of 24 to 40 characters, up to two of them arbitrary; '
     'salts of up to 3 arbitrary bytes, iteration counts 0, 1, 2, 3, 2501 (10, 2500), arbitrary flags and hash algorithm, next hashes of 20 arbitrary bytes, '
     'six start hashes, three lengths, four zones', outside='SHA-1 itself: the digests are arbitrary')
prop('C09', SETS + ROOT + NAMES + KINDS + """
wild_nsec 0 jobs=8
wild_nsec3 0,0
val_sigs 7
val_complete 3,0,0
val_shapes 0,0
val_shapes 3,0
val_shapes 6,0
""" + '\n'.join('roundtrip %d,2' % i for i in range(12)), """
val_set 4,2,0
val_set 4,1,1
val_set 3,3,1
val_set 3,2,2
""", bounds='chains of up to 10 zones (20) with up to 4 keys (12), 9 DS records (20) and 3 signatures (8) for everything, sets of up to 33 records (64), any of whose records may be missing or have an arbitrary other byte; up to 40 signed names (100) beside one which is not; '
     'sets of up to three records (four) of TXT, TLSA, NS and CNAME with arbitrary data in any order; the message of every signature check is compared byte '
     'by byte with RFC 4034 section 3.1.8.1 and 6', outside='sets of more than four records with arbitrary data')
prop('C10', '\n'.join('parse_total %d' % i for i in range(8)) + """
parse_total 8 jobs=8
parse_total 9 jobs=8
parse_lengths 0,0,12
parse_lengths 1,0,12
parse_lengths 2,0,12
parse_lengths 3,0,12
parse_lengths 4,0,12
parse_lengths 5,0,12
parse_lengths 6,0,12
parse_lengths 7,0,12
parse_lengths 7,18,24
parse_lengths 8,0,6
parse_lengths 9,0,12
parse_lengths 10,0,12
parse_lengths 11,0,12
parse_lengths 13,0,12
parse_typed 0,4,1
parse_typed 3,4,0
parse_typed 7,20,1
parse_typed 10,8,1
parse_typed 11,7,1
wire_name 4,2
bitmap_parse 2,0,0
bitmap_parse 2,1,0
wire_name_long 255,300
""", """
parse_total 10
parse_total 11
wire_name 6,0
parse_typed 8,5,0
""", bounds='record streams of up to 9 arbitrary bytes (11); records of every type with arbitrary class, TTL, length and up to 20 arbitrary bytes of data; long names',
     outside='record streams with more arbitrary bytes')
prop('C11', """
parse_typed 0,4,1
parse_typed 0,4,0
parse_typed 1,4,0
parse_typed 4,15,0
parse_typed 4,16,1
parse_typed 4,17,0
parse_typed 0,3,0
parse_typed 0,5,0
parse_typed 2,4,0
parse_typed 3,4,0
parse_typed 3,4,1
parse_typed 4,4,0
parse_typed 5,4,0
parse_typed 5,5,0
parse_typed 6,6,0
parse_typed 6,20,0
parse_typed 6,3,0
parse_typed 7,6,0
parse_typed 7,19,0
parse_typed 7,21,0
parse_typed 7,20,1
parse_typed 8,4,0
parse_typed 8,5,0 jobs=8
parse_typed 9,6,0
parse_typed 9,3,0
parse_typed 9,8,0
parse_typed 10,8,0
parse_typed 10,8,1
parse_typed 11,6,0
parse_typed 11,7,1
parse_typed 12,4,0
parse_typed 13,4,0
parse_total 6
parse_total 7
parse_lengths 0,0,200
parse_lengths 1,0,40
parse_lengths 2,0,40
parse_lengths 3,0,20
parse_lengths 3,250,262
parse_lengths 3,505,520
parse_lengths 4,0,200
parse_lengths 5,0,40
parse_lengths 6,0,200
parse_lengths 7,18,200
parse_lengths 9,0,200
parse_lengths 10,7,70
parse_lengths 10,255,280
parse_lengths 10,500,530
parse_lengths 11,0,200
""", """
parse_typed 8,7,0
parse_typed 5,6,0
parse_typed 10,9,0
parse_typed 11,8,0
""", bounds='streams of up to 300 records (1200); '
     'one record of each type (and of unknown types) with arbitrary class, TTL and RDLENGTH and 4 to 20 arbitrary bytes of data', outside='longer arbitrary data')
prop('C12', """
wire_name 3,0
wire_name 4,0
wire_name 5,0
wire_name 3,1
wire_name 4,1
wire_name 5,1
wire_name 3,2
wire_name 4,2
wire_name 3,3
wire_name 4,3
wire_name_long 200,300
wire_name_long 254,300
wire_name_long 255,300
wire_name_long 254,7
wire_name_long 255,7
wire_name_long 256,7
wire_name_long 254,51 jobs=8
""", """
wire_name 6,0
wire_name 6,1
wire_name 5,2
wire_name 5,3
wire_name_long 255,51
""", bounds='up to 5 arbitrary bytes (6) where a name is expected as owner or in the data of CNAME, RRSIG and NSEC records; names of 200 to 256 characters with arbitrary '
     'length or text bytes at several places', outside='longer names of arbitrary structure')
prop('C13', """
name_text 0,0,0
name_text 1,0,0
name_text 2,0,0
name_text 3,0,0
name_text 4,0,0
name_text 2,0,1
name_text 1,60,0
name_text 2,60,0
name_text 3,60,0
name_text 1,250,0
name_text 2,250,0
name_text 3,250,0
wire_name 5,0
""", """
name_text 5,0,0
name_text 6,0,0
name_text 3,0,1
name_text 4,60,0
name_text 5,250,0
""", bounds='names of up to 127 labels; '
     'text of up to 4 arbitrary ASCII characters (6) or 2 UTF-8 characters, alone and next to labels of 60 characters or names of 250', outside='more arbitrary characters')
RT = '\n'.join('roundtrip %d,%d' % (i, n) for i in range(12) for n in (0, 1, 3, 5)) + """
roundtrip 5,255
roundtrip 5,256
roundtrip 5,510
roundtrip 5,511
roundtrip 5,1000
roundtrip 6,300
roundtrip 9,256
roundtrip 11,255
roundtrip 11,254
roundtrip 7,1000
roundtrip 8,256
roundtrip 6,1000
""" + '\n'.join('roundtrip %d,%d,255,1' % (k, n) for k in (5, 6, 7, 8, 9) for n in range(0, 2295, 255)) + """
roundtrip 11,0,255,1
""" + '\n'.join('roundtrip %d,%d,%d,1' % (k, n - 2, 4) for k in (5, 6, 7, 8, 9) for n in (4096, 8192, 16384, 32768, 65000)) + '\n'
prop('C14', RT + """
bitmap_types 1,0
parse_typed 5,4,0
parse_typed 5,5,0
parse_typed 11,7,1
parse_typed 10,8,1
""", """
roundtrip 5,60000
bitmap_types 2,0
""", bounds='streams of up to 300 records (1200); '
     'every record type with arbitrary numbers, names of a few shapes with arbitrary characters, and data of 0 to 5 arbitrary bytes; arbitrary data of every length up to 2294 bytes, and of lengths '
     'around larger powers of two and 65000, in records with a short name', outside='arbitrary data of other lengths')
prop('C15', """
bitmap_parse 2,0,0
bitmap_parse 3,0,0 jobs=8
bitmap_parse 4,0,0 jobs=8
bitmap_parse 2,1,0
bitmap_parse 6,1,3
bitmap_parse 7,0,3 jobs=8
bitmap_parse 33,0,99
bitmap_parse 34,0,99
bitmap_parse 35,0,99
bitmap_parse 34,1,99
bitmap_types 1,0
bitmap_types 2,0 jobs=8
""", """
bitmap_parse 8,0,4
bitmap_parse 5,0,0
bitmap_parse 4,1,0
bitmap_types 1,1
bitmap_types 3,0
""", bounds='bitmaps of up to 4 arbitrary bytes; two windows with one arbitrary and one of three window numbers; windows of 31, 32 and 33 bytes; masks of one or two types in windows 0, 1 and 255',
     outside='three or more windows with arbitrary contents')
prop('C16', '\n'.join('key_tags %d' % i for i in (0, 1, 2, 3, 4, 5, 8, 16, 40)) + """
key_tags_long 260
key_tags_long 400
key_tags_long 514
key_tags_long 3000
""", """
key_tags 200
key_tags_long 20000
key_tags_long 65535
""", bounds='keys of up to 40 arbitrary bytes (200) with arbitrary flags, protocol and algorithm, and keys of up to 3000 bytes (65535) that are all ones but for some arbitrary bytes',
     outside='')
prop('C17', """
rsa_key 3,0,0
rsa_key 4,0,0
rsa_key 5,3,0
rsa_key 5,4,4
rsa_key 4,300,256
val_root 4,1
val_key_lengths 5
val_key_lengths 8
val_key_lengths 10
val_key_lengths 13
val_key_lengths 14
val_key_lengths 15
val_sigs 8 jobs=8
""", """
rsa_key 6,254,0
rsa_key 6,3,0
val_root 6,1
val_root 7,1
""", bounds='RSA keys of 3 to 5 arbitrary bytes, with both encodings of the exponent length, after up to 300 zeros; keys of each algorithm with 24 lengths up to 520 bytes; keys of every other algorithm with 4 arbitrary bytes',
     outside='longer arbitrary keys')
RES = """
resolve 2,0
resolve 2,1,2
resolve 2,1,12
resolve 2,1,22
resolve 2,1,112
resolve 2,1,122
resolve 2,1,212
resolve 2,1,221
resolve 3,1,33
resolve 3,1,233
resolve 0,1,0
resolve 4,1,214
resolve 4,1,241
resolve 5,1,215
resolve 5,1,255
resolve 1,2,111,11
resolve 2,2,112,22
resolve 2,2,121,210
resolve 2,2,211,121
resolve 2,2,212,121
resolve 2,2,221,220
resolve 2,2,210,201
resolve 1,3,111,111,11
resolve 2,3,111,112,22
"""
prop('C18', RES + """
resolve 2,3,21,212,210 jobs=8
resolve 2,3,211,111,11 jobs=8
resolve 2,4,212,211,121,20 jobs=8 max_steps=40000000
""", """
resolve 2,4,111,112,121,22
resolve 3,3,233,233,33
resolve 4,3,221,122,11
""", bounds='chains of 5, 10, 17, 64, 128 and 254 aliases, one of which may lead anywhere else; '
     'up to four records, A, TXT, CNAME and DNAME, whose names and targets, and the name looked up, are any names of up to four labels with an arbitrary letter in each; loops; long names',
     outside='chains of more than four aliases with arbitrary names; chains of more than 254 aliases')
prop('C19', """
resp_header 0
resp_header 1
""" + '\n'.join('resp_typed %d,%d,%d%s' % (t, {1: 4, 2: 3, 4: 17, 5: 3, 6: 6, 7: 19, 8: 3, 10: 8}.get(t, 5), int(t in (3, 9, 11, 13)) + 2 * (t in (1, 2, 5, 7, 8)), ' jobs=8' if t in (1, 2, 5, 7, 8) else '') for t in range(14)) + """
resp_records 0,1,1
resp_records 1,0,1
resp_records 0,2,0
resp_records 1,1,0
resp_records 2,0,0
resp_names 2,0
resp_names 3,0
resp_names 3,1 jobs=8
resp_any 5,1,0,1 jobs=8
""", """
resp_records 0,2,1 jobs=8
resp_names 4,1
resp_names 4,2
resp_names 4,3
resp_any 7,1,0,1
resp_typed 7,20,2
resp_typed 7,20,0
resp_typed 8,3,1
resp_typed 2,3,0
resp_typed 1,2,0
resp_typed 5,3,0
resp_typed 8,4,3
resp_typed 5,4,1
""", bounds='responses of up to 310 records (2040); '
     'every header with an arbitrary byte in each of its fields; up to two records of any type in either section with arbitrary names and contents of fixed lengths; one record of each type in the answer or authority section with arbitrary class, TTL, length and 4 to 16 arbitrary '
     'bytes of data; every pair of record types in the authority section; names with up to 3 arbitrary bytes (4), among them pointers', outside='messages with more records of arbitrary contents')
prop('C20', """
resp_any 0,0,0,0
resp_any 5,0,0,0
resp_any 12,0,0,0
resp_any 3,1,0,1
resp_any 4,0,1,1
resp_any 5,1,0,1 jobs=8
resp_names 2,0
resp_names 3,0
resp_names 3,1 jobs=8
resp_names 4,1 jobs=8
resp_names 4,2 jobs=8
resp_names 4,3 jobs=8
resp_long_names 100,100
resp_long_names 100,154
resp_long_names 100,155
resp_long_names 200,55
resp_typed 10,5,0
resp_typed 11,5,1
""", """
resp_any 7,1,0,1
resp_any 6,1,1,1
resp_names 5,1
resp_names 5,0
""", bounds='up to 12 arbitrary bytes as a message, up to 5 (7) after a header with arbitrary counts; up to 4 (5) arbitrary bytes, among them pointers to anywhere, in place of a name; '
     'long names made of pointers; up to 126 pointers which lead to each other, one of them arbitrary', outside='more arbitrary bytes')
prop('C21', """
builder_flow 1,1,0
builder_flow 2,2,0
builder_flow 3,1,1
builder_flow 3,1,2
builder_flow 2,1,1
builder_flow 2,2,2
builder_signer 1
builder_signer 3
builder_signer 4
builder_signer 6
builder_signer 7
builder_signer 31
builder_signer 13
builder_signer 111
builder_limit 5,0
builder_limit 5,1
builder_limit 6,0
builder_limit 6,1
builder_limit 9,0
builder_limit 12,1
builder_limit 4,2
builder_limit 5,2
builder_limit 5,3
builder_limit 9,3
builder_extra
resp_header 0
""", """
builder_flow 4,1,0
builder_flow 3,2,1
builder_flow 3,2,2
builder_flow 4,2,2
""", bounds='up to three responses (four) with up to two signatures each by any of four signers; any of the responses unacceptable in one of several ways; up to 12 zones at once or one after the other',
     outside='longer exchanges')
prop('C22', """
query_format 0,0
query_format 1,0
query_format 2,0
query_format 3,0
query_format 2,60
query_format 2,200
query_format 2,252
""", """
query_format 4,0
query_format 5,0
""", bounds='names of up to 3 arbitrary characters (5), and next to up to 252 fixed ones; any type', outside='')
QB = '\n'.join('querybuf %d,%d,%d' % (i, j, k) for i in (0, 1, 3, 4, 6) for j in (1, 2, 5, 7) for k in (0, 3, 7))
prop('C23', QB + """
querybuf 7,1,9
querybuf 8,1,9
querybuf 9,1,0
querybuf 9,9,1
""", '\n'.join('querybuf %d,%d,%d' % (i, j, k) for i in range(10) for j in range(10) for k in range(0, 10, 3)),
     bounds='buffers built from pieces of 0, 1, 2, 2047, 2048, 2049, 3000, 40000, 65534 and 65535 bytes, with arbitrary bytes in them', outside='other sizes')
prop('C24', '\n'.join('order_laws %d,%d,%d,2,2,2' % (k, k, k) for k in range(12)) + '\n' + '\n'.join('order_laws %d,%d,0,1,2,99' % (k, k) for k in range(12)) + '\n'
     + '\n'.join('order_laws %d,%d,0,1,1,99' % (a, b) for a in range(12) for b in range(a)) + """
txt_order 0,1
txt_order 1,2
txt_order 2,2
txt_order 3,1
txt_order 2,255
txt_order 255,256
txt_order 256,257
txt_order 300,510
txt_order_long 255,255
txt_order_long 510,511
txt_order_long 700,765
txt_order_long 765,1020
txt_order_long 1000,1000
txt_order_long 1020,1021
txt_order_long 1275,1276
txt_order_long 2000,2100
txt_order_long 5101,9000
""", """
order_laws 5,5,5,3,2,1
order_laws 7,7,7,1,2,3
order_laws 8,8,8,1,2,3
order_laws 6,6,6,1,2,3
""", bounds='every pair of record types, and every three records of a type, with arbitrary numbers, an arbitrary letter in each name and up to 2 (3) arbitrary bytes of data; TXT data of up to 510 bytes',
     outside='longer data')
prop('C25', """
json 0,0,0
json 1,0,0
json 2,0,1
json 3,0,1
json 4,0,1
json 2,0,2
json 5,0,0
json 5,1,0
json 5,2,0
json 6,1,0 jobs=8
json 7,1,0 jobs=8
json 8,1,0 jobs=8
json 9,1,0 jobs=8
json 10,1,0
json 11,0,0 jobs=8
""", """
json 5,3,0
json 6,2,0
json 11,1,0
""", bounds='data of up to 300 bytes (1000; text 3000) one of which is arbitrary, names of 255 characters, bitmaps of 40 types; '
     'every record type; TXT data of up to 2 (3) arbitrary bytes; names of up to two arbitrary characters; numbers of one to five digits', outside='')
prop('C26', """
anchors
""", bounds='the built-in constants', outside='that IANA still publishes these')
prop('C27', """
wasm_many 3,1
wasm_many 3,0
wasm_many 5,1
wasm_many 40,0 max_steps=20000000
wasm_many 40,1 max_steps=60000000
wasm_verify 0
wasm_verify 1
wasm_bytes 0,0
wasm_bytes 3,0
wasm_bytes 5,1
wasm_bytes 7,1
wasm_name 0
wasm_name 1
wasm_name 2
wasm_name 3
wasm_name 4
""" + '\n'.join('wasm_builder %d,1,0' % k for k in range(10)) + """
wasm_builder 1,0,1
wasm_builder 3,2,0
wasm_builder 7,0,1
wasm_builder 8,0,1
wasm_builder 8,0,0
""", """
wasm_bytes 6,0
wasm_bytes 9,1
wasm_name 5
wasm_builder 1,3,0
wasm_builder 3,3,1
""", bounds='proofs of one chain with records of five kinds, some values of the times, supported and other DS algorithms; up to 40 records in one set or in sets of their own, with lifetimes up to the largest; whole, cut short or with a byte too many; up to 7 arbitrary bytes (9); '
     'names of up to 4 arbitrary ASCII characters (5); ten sequences of responses with arbitrary signers, TTLs and header bytes, up to two of them bad or too long (3), of all sizes around the limits',
     outside='the JavaScript side; what wasm-bindgen generates; other proofs (C01 to C09 cover what is verified, C25 the JSON of records)')
NET = lambda f: '\n'.join('%s %d,%d,0' % (f, k, c) for k in range(10) for c in ((0, 1) if k not in (4, 7, 8) else (0,))).replace('4,0,0', '4,0,0 max_steps=30000000') + '\n' + """
F 0,0,0,1
F 2,0,0,1
F 0,0,0,3
F 0,0,0,4
F 0,0,0,5
F 1,0,0,4
F 0,2,0 jobs=4
F 0,0,2
F 0,0,12
F 0,1,1
F 0,0,11
F 0,0,111
F 0,1,200
F 1,0,2
F 1,0,11
F 1,1,10
F 1,1,200
F 1,0,200
F 2,1,200
F 3,0,12
F 3,1,200
F 4,0,11 max_steps=30000000
F 7,0,11
F 8,0,11
""".replace('F ', f + ' ')
NETDEEP = lambda f: """
F 4,0,200 max_steps=30000000
F 1,2,0
F 1,0,22
F 1,1,2
F 3,2,0
F 8,0,12
F 0,0,0,7
""".replace('F ', f + ' ')
prop('C28', NET('client_sync'), NETDEEP('client_sync'),
     bounds='ten sequences of responses of up to 65535 bytes with arbitrary signers, TTLs, record contents and header bytes; each piece whole, single bytes or (for short exchanges) one of three sizes every time; '
     'an end of the connection after any of the first 256 bytes; up to two interruptions and one error (two) at any system call; a refused connection; four types, any name of up to three characters before the final dot (five), and seven others of up to 254 bytes, three addresses',
     outside='what the kernel does; timeouts (there are none); more faults', assumptions=['the system calls behind std::net::TcpStream are replaced by ones which deliver, split, interrupt and fail as the harness decides'])
prop('C29', NET('client_async'), NETDEEP('client_async'),
     bounds='as C28, with operations which are not ready up to two times at any point in place of interruptions',
     outside='tokio itself; a future which is dropped before it is ready', assumptions=['tokio is replaced by a stub whose operations are ready, not ready, or fail as the harness decides'])
prop('C30', """
http_byte 1,0,0,200
http_byte 1,1,0,200
http_byte 1,2,0,200
http_byte 1,0,0,200,1
http_byte 1,1,0,200,1
http_byte 2,0,0,200
http_byte 2,1,0,200
http_byte 2,2,0,200
http_byte 2,0,0,200,1 jobs=4
http_byte 3,0,20,25
http_byte 3,1,14,20
http_args 0,0,0,0,1
http_args 1,0,1,0,1
http_args 2,0,0,0
http_args 0,4,0,0
http_args 0,0,1,2
http_args 0,0,2,0
http_args 0,0,3,0
http_args 0,0,4,0
http_args 0,0,5,0
http_args 0,0,6,0
http_args 0,0,7,0
http_args 0,0,8,0
http_args 0,0,9,0
http_args 0,0,0,111
http_args 0,0,1,110
http_args 0,0,1,12 jobs=4
http_byte 0,0,0,1,0,1
http_byte 0,0,0,1,0,2
http_byte 0,0,0,1,0,3
http_long
http_many 0,5,5,0
http_many 0,5,3,20000
http_many 0,5,2,10001
http_many 5,0,3,1,1 jobs=4
http_many 5,0,2,1,2
http_many 0,1,4,1
http_many 2,5,4,1
http_many 4,0,4,1
http_many 3,5,4,1
http_many 0,5,4,100
http_many 0,5,2,110
""", """
http_byte 3,0,0,200
http_byte 3,1,0,200
http_byte 3,2,0,200
http_byte 4,0,24,28
http_many 0,5,4,2,1
http_many 5,0,6,1
http_args 2,2,1,0
""", bounds='three requests in which any one, two or (in places; everywhere) three bytes next to each other are arbitrary; requests and endings around the largest size; pieces of any of three sizes each time for the first seven; '
     'ten sequences of responses of the resolver; up to two operations which are not ready, one error and refused connections; up to two connections which cannot be accepted at first; two clients at once, their tasks run in any order for the first five steps',
     outside='arbitrary requests of more symbolic bytes; more than three arbitrary bytes after the first line; more than two clients',
     assumptions=['tokio is replaced by a stub whose operations are ready, not ready, or fail as the harness decides'])
prop('C31', """
err_val 6,1,0
err_val 6,1,1
err_val 6,1,2
err_val 6,1,4
err_val 6,1,8
err_val 6,2,0
err_val 6,2,1
err_val 6,2,2
err_val 6,2,4
err_val 6,2,8
err_val 6,1,3
err_val 6,2,9
err_val 6,2,12 jobs=4
err_val 6,3,0 jobs=8
err_val 6,1,15 jobs=8
err_val 0,4,1
err_val 0,4,5
err_val 1,4 jobs=4
err_val 2,19
err_val 2,76
err_val 3,1,3
err_val 3,2,1
err_val 3,3,0
err_val 3,1,4
err_val 3,2,8
err_val 4,8
err_val 4,2
err_val 4,7
err_val 5,0 jobs=4
err_complete 0,1,0,0,0
err_complete 0,1,0,0,1
err_complete 0,1,0,0,2
err_complete 0,2,0,1,0
err_complete 0,2,0,1,1
err_complete 0,2,0,1,2
err_complete 0,1,1,0,0
err_complete 0,1,1,0,1
err_complete 0,1,1,0,2
err_complete 0,2,1,1,0
err_complete 0,2,1,1,1
err_complete 0,2,1,1,2
err_complete 0,1,2,0,0
err_complete 0,1,2,0,1
err_complete 0,1,2,0,2
err_complete 0,3,0,2,0
err_complete 0,3,0,2,1
err_complete 0,3,0,2,2
err_complete 0,1,0,3,0
err_complete 0,1,0,3,1
err_complete 0,1,0,3,2
err_complete 0,2,3,0,0
err_complete 0,2,3,0,1
err_complete 0,2,3,0,2
err_complete 0,12,0,0,0
err_complete 0,12,0,0,1
err_complete 0,12,0,0,2
err_complete 1,1,0,0,0
err_complete 1,1,0,0,1
err_complete 1,1,0,0,2
err_complete 1,2,0,1,0
err_complete 1,2,0,1,1
err_complete 1,2,0,1,2
err_complete 1,1,1,0,0
err_complete 1,1,1,0,1
err_complete 1,1,1,0,2
err_complete 1,2,1,1,0
err_complete 1,2,1,1,1
err_complete 1,2,1,1,2
err_complete 1,1,2,0,0
err_complete 1,1,2,0,1
err_complete 1,1,2,0,2
err_complete 1,3,0,2,0
err_complete 1,3,0,2,1
err_complete 1,3,0,2,2
err_complete 1,1,0,3,0
err_complete 1,1,0,3,1
err_complete 1,1,0,3,2
err_complete 1,2,3,0,0
err_complete 1,2,3,0,1
err_complete 1,2,3,0,2
err_complete 1,4,0,0,0
err_complete 1,4,0,0,1
err_complete 1,4,0,0,2
""", """
err_val 6,2,15
err_val 6,3,9
err_val 6,3,7
err_val 3,2,3
err_val 3,3,1
err_val 2,51
err_val 5,1
err_val 5,2
err_val 0,5,7
""", bounds='zones with two keys, up to three (in valid proofs twelve) DS records and two signatures, of any algorithms and digest types; a zone which is not supported below up to three and above up to three others; three orders of the records',
     outside='more keys with unsupported algorithms')
prop('C32', """
e2e 0,0,0,0
e2e 1,0,0,0
e2e 2,0,0,0
e2e 3,0,0,0
e2e 4,0,0,0 jobs=8
e2e 5,0,0,0
e2e 6,0,0,0 jobs=8
e2e 7,0,0,0
e2e 8,0,0,0
e2e 9,0,0,0
e2e 10,0,0,0
e2e 11,0,0,0
e2e 12,0,0,0
e2e 13,0,0,0
e2e 14,0,0,0
e2e 15,0,0,0
e2e 16,0,0,0
e2e 17,0,0,0
e2e 18,0,0,0
e2e 19,0,0,0
e2e 20,0,0,0 jobs=8
e2e 21,0,0,0
e2e 22,0,0,0
e2e 23,0,0,0
e2e 24,0,0,0
e2e 25,0,0,0
e2e 26,0,0,0
e2e 8,0,1,0
e2e 8,0,2,0
e2e 9,0,1,0
e2e 9,0,2,0
e2e 10,0,1,0
e2e 10,0,2,0
e2e 11,0,1,0
e2e 11,0,2,0
e2e 15,0,1,0
e2e 15,0,2,0
e2e 22,0,1,0
e2e 22,0,2,0
e2e 0,1,0,1
e2e 0,2,0,2
e2e 0,4,0,0
e2e 0,7,0,3
e2e 1,1,0,1
e2e 1,2,0,2
e2e 1,4,0,0
e2e 1,7,0,3
e2e 2,1,0,1
e2e 2,2,0,2
e2e 2,4,0,0
e2e 2,7,0,3
e2e 7,1,0,1
e2e 7,2,0,2
e2e 7,4,0,0
e2e 7,7,0,3
e2e 9,1,0,1
e2e 9,2,0,2
e2e 9,4,0,0
e2e 9,7,0,3
e2e 10,1,0,1
e2e 10,2,0,2
e2e 10,4,0,0
e2e 10,7,0,3
e2e 11,1,0,1
e2e 11,2,0,2
e2e 11,4,0,0
e2e 11,7,0,3
e2e 12,1,0,1
e2e 12,2,0,2
e2e 12,4,0,0
e2e 12,7,0,3
e2e 13,1,0,1
e2e 13,2,0,2
e2e 13,4,0,0
e2e 13,7,0,3
e2e 15,1,0,1
e2e 15,2,0,2
e2e 15,4,0,0
e2e 15,7,0,3
e2e 16,1,0,1
e2e 16,2,0,2
e2e 16,4,0,0
e2e 16,7,0,3
e2e 18,1,0,1
e2e 18,2,0,2
e2e 18,4,0,0
e2e 18,7,0,3
e2e 21,1,0,1
e2e 21,2,0,2
e2e 21,4,0,0
e2e 21,7,0,3
e2e 3,7,0,1 jobs=4
e2e 5,3,0,2
e2e 8,7,0,1
e2e 14,7,0,2
e2e 17,4,0,1
e2e 19,2,0,0
e2e 22,7,2,3
e2e_walk 0,8,0,3 jobs=4
e2e_walk 1,8,1,3 jobs=4
e2e_walk 2,8,2,3 jobs=4
e2e_walk 3,9,1,3 jobs=4
e2e_walk 4,14,0,3 jobs=4
e2e_walk 5,15,2,3 jobs=4
""", """
e2e_walk 0,11,0,3 jobs=8
e2e_walk 0,10,1,3 jobs=8
e2e_walk 0,9,2,3 jobs=8
e2e_walk 1,8,0,3 jobs=8
e2e_walk 1,15,1,3 jobs=8
e2e_walk 1,14,2,3 jobs=8
e2e_walk 2,13,0,3 jobs=8
e2e_walk 2,12,1,3 jobs=8
e2e_walk 2,11,2,3 jobs=8
e2e_walk 3,10,0,3 jobs=8
e2e_walk 3,9,1,3 jobs=8
e2e_walk 3,8,2,3 jobs=8
e2e_walk 4,15,0,3 jobs=8
e2e_walk 4,14,1,3 jobs=8
e2e_walk 4,13,2,3 jobs=8
e2e_walk 5,12,0,3 jobs=8
e2e_walk 5,11,1,3 jobs=8
e2e_walk 5,10,2,3 jobs=8
e2e_walk 0,8,0,4 jobs=8
e2e_walk 3,13,1,4 jobs=8
e2e_walk 5,11,2,4 jobs=8
e2e 4,7,0,1
e2e 6,7,0,1
e2e 20,7,0,1
e2e 0,3,0,2
e2e 0,5,0,2
e2e 0,6,0,2
e2e 1,3,0,2
e2e 1,5,0,2
e2e 1,6,0,2
e2e 2,3,0,2
e2e 2,5,0,2
e2e 2,6,0,2
e2e 3,3,0,2
e2e 3,5,0,2
e2e 3,6,0,2
e2e 4,3,0,2
e2e 4,5,0,2
e2e 4,6,0,2
e2e 5,3,0,2
e2e 5,5,0,2
e2e 5,6,0,2
e2e 6,3,0,2
e2e 6,5,0,2
e2e 6,6,0,2
e2e 7,3,0,2
e2e 7,5,0,2
e2e 7,6,0,2
e2e 8,3,0,2
e2e 8,5,0,2
e2e 8,6,0,2
e2e 9,3,0,2
e2e 9,5,0,2
e2e 9,6,0,2
e2e 10,3,0,2
e2e 10,5,0,2
e2e 10,6,0,2
e2e 11,3,0,2
e2e 11,5,0,2
e2e 11,6,0,2
e2e 12,3,0,2
e2e 12,5,0,2
e2e 12,6,0,2
e2e 13,3,0,2
e2e 13,5,0,2
e2e 13,6,0,2
e2e 14,3,0,2
e2e 14,5,0,2
e2e 14,6,0,2
e2e 15,3,0,2
e2e 15,5,0,2
e2e 15,6,0,2
e2e 16,3,0,2
e2e 16,5,0,2
e2e 16,6,0,2
e2e 17,3,0,2
e2e 17,5,0,2
e2e 17,6,0,2
e2e 18,3,0,2
e2e 18,5,0,2
e2e 18,6,0,2
e2e 19,3,0,2
e2e 19,5,0,2
e2e 19,6,0,2
e2e 20,3,0,2
e2e 20,5,0,2
e2e 20,6,0,2
e2e 21,3,0,2
e2e 21,5,0,2
e2e 21,6,0,2
e2e 22,3,0,2
e2e 22,5,0,2
e2e 22,6,0,2
""", bounds='27 shapes of zones and answers (up to four zones below the root, five aliases, wildcards denied by NSEC, NSEC3 or both), and every way of up to three steps (four), each of them an alias, a DNAME or a wildcard alias at any level, through six sets of zones to data or a wildcard at any level, every order of the responses, with and without name servers in the authority section, '
     'compressed names and records turned around; any data, original TTL, and TTL of one record in each response', outside='other shapes; resolvers which leave something out')
