"""Registry of the engine runs that decide each property."""
ASSUME = [
    'clang-18 -O0 IR of the sources (libc configuration of /repo, USE_DEBUG assertions on) is what is decided; sampled paths are re-run on the gcc -O3 build',
    'C library functions are modelled by the engine (memcpy, strlen, setjmp/longjmp, pthread, signals, allocation); allocation returns fresh disjoint 16-byte aligned blocks, realloc always moves, requests above 2^31 bytes fail',
    'word-wide reads of up to 7 bytes past the end of an object are tolerated but their value is arbitrary',
]
META = {}
J = []  # (property ids, job)

def job(props, name, file, entry, params=None, thorough=None, **k):
    d = dict(name=name, file=file, entry=entry, params=params or [{}], **k)
    if thorough is not None:
        d['thorough'] = thorough
    for p in props.split():
        J.append((p, d))

def grid(**k):
    out = [{}]
    for n, vs in k.items():
        out = [dict(o, **{n: v}) for o in out for v in vs]
    return out

def for_property(pid):
    return [dict(d) for p, d in J if p == pid]

def claimed():
    return sorted({p for p, d in J})

# ------------------------------------------------------------------ strings and numbers
W = 'h_swar.c'
BIG = [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]
job('S01', 'strlen', W, 'h_strlen', grid(n=list(range(0, 26)), al=[0, 1, 3, 4, 7]) + grid(n=BIG, al=[0, 5]), grid(n=range(0, 65), al=range(8)) + grid(n=BIG + [511, 512, 513, 1023, 1024], al=range(8)), covers=['done'], bound='all contents of strings of lengths 0..25 at 5 alignments and of larger lengths up to 257 (thorough: 0..64 at all 8 alignments, up to 1024)')
job('S01', 'strlen_any', W, 'h_strlen_any', grid(n=[9, 17], al=[0, 1, 3, 7]), grid(n=[9, 17, 25, 33], al=range(8)), covers=['full', 'short'], bound='all byte contents of buffers of 9 and 17 bytes, terminator anywhere')
job('S01', 'large', W, 'h_large_str', [dict(n=n, one=1) for n in list(range(70000, 70008)) + list(range(1100000, 1100008))], [dict(n=n, one=1) for n in list(range(65530, 65545)) + [70001] + list(range(1100000, 1100008)) + list(range(16800000, 16800008))], covers=['done'], bound='70 KB and 1 MB, a fixed text with symbolic bytes at the ends and at one more place', opts={'max-instr': 200000000})
job('S02', 'strcmp', W, 'h_strcmp', grid(n=range(0, 11), m=range(0, 11)) + grid(n=[15, 16, 17], m=[15, 16, 17]), grid(n=range(0, 26), m=range(0, 26)), covers=['equal', 'differ'], bound='all pairs of strings of lengths 0..10 and 15..17', topts={'max-time': 600})
job('S02', 'strcmp_align', W, 'h_strcmp', grid(n=[7, 8, 9], m=[8, 9], aa=[1, 4], ab=[0, 3]), grid(n=[7, 8, 9, 12, 16, 17], m=[7, 8, 9, 15, 16, 17], aa=range(8), ab=range(8)), bound='unaligned pairs')
job('S02', 'streq', W, 'h_streq', grid(n=range(0, 11), m=range(0, 11)) + grid(n=[16, 17, 24], m=[16, 17, 24]), grid(n=range(0, 26), m=range(0, 26)), covers=['equal', 'differ'], bound='all pairs of strings of lengths 0..10, and 16, 17, 24')
LONG = [48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]
SPB = 'symbolic bytes at both ends, around word boundaries and in the middle, a fixed text elsewhere'
job('S02', 'long', W, 'h_strcmp', [dict(n=n, m=n + d, sparse=1) for n in LONG for d in (0, 1)] + [dict(n=n, m=n, sparse=1, aa=3, ab=aa) for n in LONG for aa in (1, 3)], [dict(n=n, m=n + d, sparse=1, aa=x, ab=y) for n in LONG + [511, 512, 1023, 1024, 1025] for d in (0, 1, 9) for x in (0, 1, 7) for y in (0, 4)], bound='pairs of strings of 48..301 bytes, ' + SPB)
job('S02', 'streq_long', W, 'h_streq', [dict(n=n, m=n + d, sparse=1) for n in LONG for d in (0, 1)], [dict(n=n, m=n + d, sparse=1) for n in LONG + [1024, 1025] for d in (0, 1, 8)], bound='pairs of strings of 48..301 bytes, ' + SPB)
job('S02', 'large', W, 'h_large_str', [dict(n=70001), dict(n=70001, at=40000), dict(n=33000), dict(n=66000, at=65537)], [dict(n=n, at=at) for n in (33000, 65536, 65537, 70001) for at in (0, 8, 32767, 32768, 32999)] + [dict(n=16800000)], covers=['equal', 'differ'], bound='pairs of strings of 33 to 70 KB, a fixed text with symbolic bytes at the ends and at one more place', opts={'max-instr': 200000000})
job('S03', 'memchr', W, 'h_memchr', grid(n=range(0, 26), rev=[0, 1], mode=[0]) + grid(n=range(1, 20), rev=[0, 1], mode=[1, 2, 3]), grid(n=range(0, 49), rev=[0, 1], mode=[0]) + grid(n=range(1, 41), rev=[0, 1], mode=[1, 2, 3]), covers=['present', 'absent'], bound='all contents and bytes, lengths 0..25 (search), 1..19 (index variants), arbitrary bytes around the buffer')
job('S03', 'memchr_tight', W, 'h_memchr', grid(n=[1, 3, 7, 8, 9, 15, 16, 17], rev=[0, 1], mode=[0], pad=[0]), bound='buffers with nothing but the slack around them', native=False)
job('S03', 'long', W, 'h_memchr', grid(n=LONG, rev=[0, 1], mode=[0, 1], sparse=[1]), grid(n=LONG + [511, 512, 1023, 1024, 1025], rev=[0, 1], mode=[0, 1, 2, 3], sparse=[1], pad=[8, 9, 13]), bound='buffers of 48..300 bytes, ' + SPB)
job('S03', 'large', W, 'h_large_chr', grid(n=[70001], mode=[0, 1, 2, 3]) + [dict(n=65544, at=9), dict(n=65540, at=65539)], grid(n=[65536, 65537, 65544, 70001], at=[1, 9, 32768, 65535], mode=[0, 1, 2, 3]) + [dict(n=16800000)], covers=['present', 'absent'], bound='buffers of 64 to 70 KB, a fixed text with symbolic bytes at the ends and at one more place', opts={'max-instr': 200000000})
job('S03', 'hasbyte', W, 'h_hasbyte', covers=['has', 'has not'], bound='every 64-bit word and byte')
job('S03', 'words', W, 'h_words', covers=['done'], bound='every 64-bit word')
job('S04', 'atou8', W, 'h_atou8', grid(n=range(0, 9)), covers=['done'], bound='every decimal string of 0..8 digits, arbitrary bytes after it')
job('S04', 'atou', W, 'h_atou', grid(n=range(0, 21), mode=[0]), covers=['done'], bound='every decimal string of 0..20 digits with value below 2^64')
job('S04', 'atoi', W, 'h_atou', grid(n=range(1, 20), mode=[1], sign=[0, 1]), covers=['neg', 'pos'], bound='every optionally signed decimal string of 1..19 digits within the 64-bit range')
job('S05', 'itoa8', W, 'h_itoa8', grid(nd=range(1, 8), neg=[0, 1]) + [dict(nd=8, neg=0)], covers=['done'], bound='every integer of up to 8 characters')
job('S05', 'itoa', W, 'h_itoa', grid(nd=range(1, 20), neg=[0, 1]), covers=['done'], bound='every 64-bit signed integer, by digit count and sign', weight=3)
job('S05', 'itoa_edge', W, 'h_itoa_edge', covers=['done'], bound='extreme values')
job('S06', 'htou8', W, 'h_htou', grid(n=range(0, 9), mode=[0]), covers=['done'], bound='every hexadecimal string of 0..8 digits, either case, arbitrary bytes after it')
job('S06', 'htou', W, 'h_htou', grid(n=range(0, 17), mode=[1]), covers=['done'], bound='every hexadecimal string of 0..16 digits')
job('S07', 'utoa2p', W, 'h_utoa2p', covers=['done'], bound='every value below 100')
job('S07', 'utoap', W, 'h_utoap', grid(n=range(1, 21)), covers=['done'], bound='every width 1..20 and every value of at most that many digits')
def fit(g): return [d for d in g if d['ni'] + d['nf'] <= 19]
job('S08', 'atod', W, 'h_atod', fit(grid(ni=[1, 2, 5, 8, 9, 15, 17, 18], nf=[0, 1, 2, 3], sign=[1]) + grid(ni=[1, 3, 9], nf=list(range(4, 19)), sign=[1]) + grid(ni=[1, 8], nf=[0, 2], sign=[0]) + [dict(ni=3, nf=0, dot=1)]), fit(grid(ni=range(1, 19), nf=range(0, 19), sign=[0, 1])), covers=['neg', 'pos'], bound='every string of 1..18 integer and 0..18 fraction digits, at most 19 together (quick: a subset of the combinations), relative error at most 1e-15; the leading integer part must be present')
job('S09', 'strpos', W, 'h_strpos', grid(n=range(0, 9), m=[0, 1, 2]) + grid(n=range(2, 8), m=[3, 4]) + grid(n=[15, 16, 17, 18], m=[1]) + [dict(n=9, m=9), dict(n=10, m=9), dict(n=16, m=17), dict(n=17, m=16), dict(n=17, m=17)], grid(n=range(0, 13), m=[0, 1, 2]) + grid(n=range(2, 10), m=[3, 4, 5]) + grid(n=range(10, 34), m=[1]) + grid(n=[17, 18, 19, 20], m=[16, 17, 18, 19]), covers=['present', 'absent'], bound='every text of 0..8 and pattern of 0..4 bytes, and some longer ones')
job('S09', 'long', W, 'h_strpos', grid(n=LONG, m=[1], sparse=[1]) + [dict(n=15, m=2, sparse=1), dict(n=66, m=64, sparse=1), dict(n=66, m=65, sparse=1), dict(n=130, m=129, sparse=1), dict(n=258, m=257, sparse=1)], bound='texts of 15..300 bytes, ' + SPB, topts={'max-time': 600})
job('S09', 'patterns', W, 'h_strpos', [dict(pat=1, n=10)] + grid(pat=[2, 3, 4], n=[11]) + grid(pat=[5, 6, 7], n=[13]), grid(pat=[1, 2, 3, 4], n=[12]) + grid(pat=[5, 6, 7], n=[15]), covers=['present', 'absent'], bound='seven patterns whose parts repeat, every text of 10 to 13 bytes', topts={'max-time': 600})
job('S09', 'large', W, 'h_large_pos', [dict(n=40001), dict(n=70000, m=3), dict(n=67000, at=65600)], [dict(n=n, at=at, m=m) for n in (33000, 65536, 70001) for at in (3, 300, 32768) for m in (2, 3, 9)], covers=['present', 'absent'], bound='texts of 40 to 70 KB, a fixed text with symbolic bytes at the ends and at one more place', opts={'max-instr': 200000000})
job('S13', 'memdup', W, 'h_memdup', grid(n=[0, 1, 5, 7, 8, 9, 16, 17, 33]), grid(n=range(0, 60)), covers=['done'], bound='every content of 0..33 bytes')
job('S13', 'memdup_default', W, 'h_memdup_default', grid(n=[0, 1, 7, 8, 17]), covers=['done'], bound='every content')
job('S13', 'strcopy', W, 'h_strcopy', grid(n=range(0, 10), len=[0]) + [dict(n=9, len=k) for k in range(1, 10)] + [dict(n=17, len=0), dict(n=17, len=16), dict(n=17, len=9)] + [dict(n=k, len=k, raw=1) for k in (1, 2, 7, 8, 9, 17)], covers=['done'], bound='every content of 0..9 and 17 bytes, every count')
job('S13', 'long', W, 'h_memdup', grid(n=LONG + [1024, 1025], sparse=[1]), bound='48..1025 bytes, ' + SPB)
job('S13', 'strcopy_long', W, 'h_strcopy', [dict(n=n, len=k, sparse=1) for n in LONG + [600] for k in (0, n - 1, n // 2)], bound='48..600 bytes, ' + SPB)
job('S13', 'large', W, 'h_large_copy', [dict(n=70001), dict(n=70001, k=65537), dict(n=65535), dict(n=65536, k=65535)], [dict(n=n, k=k) for n in (4096, 32768, 65535, 65536, 65537, 1100003) for k in (0, 1, 4095)], covers=['done'], bound='64 to 70 KB, a fixed text with symbolic bytes at the ends and at one more place', opts={'max-instr': 200000000})
job('B01', 'encode', W, 'h_enc', grid(n=list(range(0, 14)) + [31, 32, 33]), grid(n=range(0, 70)), covers=['done'], bound='every NUL-free byte string of 0..13 and 31..33 bytes')
job('B01', 'long', W, 'h_enc', grid(n=LONG + [66, 1000], sparse=[1]), bound='48..1000 bytes, ' + SPB)
job('B01', 'large', W, 'h_large_b64', [dict(n=n) for n in (50000, 65537, 70001)], [dict(n=n) for n in (16384, 32768, 49151, 49152, 49153, 65535, 65536, 70000, 70001, 70002, 300000)], covers=['done'], bound='50 to 70 KB, a fixed text with symbolic bytes at the ends and at one more place; groups at both ends and every 333rd compared', opts={'max-instr': 200000000})
job('B02', 'roundtrip', W, 'h_round', grid(n=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16]), grid(n=range(1, 26)), covers=['done'], bound='every NUL-free byte string of 1..13 and 16 bytes')
job('B02', 'is_base64', W, 'h_isb64', grid(n=[0, 1, 2, 4, 5, 8, 9]), grid(n=range(0, 17)), covers=['bad', 'good'], bound='every text of 0..9 bytes')
job('B02', 'long', W, 'h_round', grid(n=[17, 24, 33, 48, 64, 65, 96, 100, 128, 129, 255, 256, 257, 300], sparse=[1]), covers=['done'], bound='17..300 bytes, ' + SPB)
job('B02', 'is_base64_long', W, 'h_isb64', grid(n=LONG, sparse=[1]), covers=['bad', 'good'], bound='48..300 bytes, ' + SPB)
job('B02', 'large', W, 'h_large_b64', [dict(n=70001, back=1), dict(n=50000, back=1), dict(n=70001, back=2)], [dict(n=n, back=b) for n in (49152, 49153, 65536, 70000, 70002) for b in (1, 2)], covers=['done'], bound='50 to 70 KB, a fixed text with symbolic bytes at the ends and at one more place', opts={'max-instr': 200000000})
job('B03', 'decode', W, 'h_dec', grid(n=[0, 1, 2, 3, 4, 5]), grid(n=[0, 1, 2, 3, 4, 5, 6]), covers=['not whole', 'over-padded', 'two pads', 'one pad', 'no pad'], bound='every text of 0..5 bytes', opts={'max-time': 300}, topts={'max-time': 900}, weight=2)
job('B03', 'decode_alpha', W, 'h_dec', grid(n=[6, 7, 8], alpha=[1]), grid(n=[6, 7, 8, 9, 10, 11, 12], alpha=[1]), covers=['over-padded', 'two pads', 'one pad', 'no pad'], bound='every text of 6..8 characters of the alphabet and padding', opts={'max-time': 300}, topts={'max-time': 900}, weight=2)
job('B03', 'decode_default', W, 'h_dec_default', covers=['initialised', 'fresh'], bound='the thread-scope variants')
U = 'h_strutil.c'
job('S10', 'split', U, 'h_split', grid(n=range(1, 8), m=[1], mode=[0]) + grid(n=range(1, 8), m=[2], mode=[0]) + grid(n=[2, 3, 4, 5, 6, 7], m=[3]) + grid(n=[3, 5], m=[1], mode=[1, 2]) + [dict(n=2, m=3), dict(n=4, m=5)], grid(n=range(1, 11), m=[1], mode=[0, 1, 2]) + grid(n=range(1, 9), m=[2, 3]), covers=['one piece', 'pieces'], bound='every string of 1..7 bytes split by every delimiter of 1..3 bytes')
job('S10', 'split_more', U, 'h_split_more', grid(mode=[0, 1, 2]), covers=['done'], bound='empty string, default delimiter, no counter')
job('S10', 'long', U, 'h_split_long', [dict(k=k) for k in (8, 9, 16, 17, 20, 33, 64, 65)] + [dict(k=300, m=2, cyc=4), dict(k=130, m=1, cyc=3), dict(k=3, mul=290, cyc=600), dict(k=2, mul=1100, cyc=1101), dict(k=4, m=256, mul=3, cyc=10), dict(k=4, m=300, mul=3, cyc=10)], bound='2..300 pieces and pieces of up to 1100 bytes, a few symbolic choices each')
job('S10', 'large', U, 'h_split_long', [dict(k=70001, cyc=2, m=1), dict(k=3, mul=40000, cyc=90000)], [dict(k=k, cyc=2, m=m) for k in (32769, 65536, 70001) for m in (1, 2)] + [dict(k=3, mul=40000, cyc=90000)], covers=['done'], bound='70 001 pieces, a text of 120 KB; a few symbolic bytes', opts={'max-instr': 200000000})
job('S11', 'concat', U, 'h_concat', [dict(k=0)] + [dict(k=1, lens=n) for n in range(0, 18)] + [dict(k=2, lens=a + 20 * b) for a in (0, 1, 7, 8, 9) for b in (0, 1, 7, 8)] + [dict(k=3, lens=a + 20 * b + 400 * c) for a in (0, 3, 8) for b in (0, 5) for c in (0, 2, 16)] + [dict(k=8, lens=sum((i * 3 % 10) * 20**i for i in range(8)), mode=m) for m in (0, 1, 2)] + [dict(k=2, lens=45, mode=m) for m in (1, 2)], covers=['done'], bound='up to 8 strings of listed lengths 0..17, all contents')
job('S11', 'long', U, 'h_concat_long', [dict(k=24, mul=7, cyc=40), dict(k=2, mul=300, cyc=601), dict(k=24, mul=3, cyc=5, mode=1), dict(k=12, mul=37, cyc=300), dict(k=17, mul=1, cyc=9)], bound='up to 24 strings, up to 600 bytes')
job('S11', 'large', U, 'h_concat_long', grid(k=[4], mul=[22000], cyc=[90000], mode=[0, 1]) + [dict(k=4, mul=70001, cyc=140003), dict(k=17, mul=7001, cyc=90000)], covers=['done'], bound='132 to 952 KB in four to 17 strings, of up to 140 KB; a few symbolic bytes', opts={'max-instr': 200000000})
job('S12', 'replace', U, 'h_replace', grid(n=range(0, 7), m=[1, 2], q=[0, 1, 2, 3]) + grid(n=[5, 6, 7], m=[3], q=[0, 2, 3, 5]) + grid(n=[4], m=[1], q=[2], mode=[1, 2]) + [dict(n=4, m=2, q=9)], grid(n=range(0, 9), m=[1, 2, 3], q=[0, 1, 2, 3, 4]) + grid(n=[4, 6], m=[1, 2], q=[2, 9], mode=[1, 2]), covers=['none', 'one', 'several'], bound='every haystack of 0..7 bytes, needle of 1..3, replacement of 0..5')
job('S12', 'long', U, 'h_replace_long', [dict(k=20, q=3), dict(k=300, q=0, m=2), dict(k=300, q=5, m=1), dict(k=70, q=1, m=3), dict(k=40, q=40, m=1), dict(k=4, q=300, m=2), dict(k=4, m=256, mul=3, cyc=10), dict(k=4, m=300, mul=3, cyc=10)], bound='up to 300 occurrences, replacements of up to 300 bytes')
job('S12', 'large', U, 'h_replace_long', [dict(k=66001, cyc=2, q=3)], [dict(k=66001, cyc=2, q=q, m=m) for q in (1, 3) for m in (1, 2)], covers=['done'], bound='66 000 occurrences; a few symbolic bytes', opts={'max-instr': 200000000})

# ------------------------------------------------------------------ scopes
D = 'h_defer.c'
job('D01', 'run', D, 'h_run', grid(n=[0, 1, 2, 3, 5], nest=[0, 2], mode=[0, 2, 9], how=[0]) + grid(n=[4], nest=[2], how=[1, 2, 3]) + grid(n=[15, 16, 17], nest=[1], how=[0, 2]) + [dict(n=33, nest=1, how=3), dict(n=12, nest=2)] + grid(n=[4, 16, 17], nest=[1], mode=[1, 3], thread=[1], how=[0, 1, 2, 3], rounds=[2]), grid(n=range(0, 20), nest=[2], mode=[0, 9], how=[0, 2]) + grid(n=range(0, 20), nest=[2], mode=[1, 3], thread=[1], how=[1, 3]) + grid(n=[31, 32, 33, 48, 49], nest=[1], how=[0, 1, 2, 3]) + grid(n=[3, 5], nest=[2], mode=[1], thread=[1], how=[0, 1, 2, 3], rounds=[3]), covers=['done'], bound='up to 17 (33) registrations with arbitrary data on smart pointers and the thread scope, at most two of which register up to 20 more or unwind the scope again while running; four ways of ending', opts={'max-time': 300}, topts={'max-time': 900})
job('D01', 'large', D, 'h_run', grid(n=[63, 64, 65, 127, 128, 129, 255, 256, 257, 600, 3000], nest=[0], how=[0, 2], mode=[0, 2]) + [dict(n=8200, nest=0, how=2, mode=2)] + [dict(n=65, nest=1, how=2)], [dict(n=n, nest=1, how=h) for n in (64, 65, 128, 129, 257) for h in (0, 2, 3)], bound='63..3000 (8200) pending functions')
job('D02', 'cancel', D, 'h_cancel', grid(n=[1, 2, 3, 4], ops=[3]) + grid(n=[2, 3], ops=[3], nest=[1]) + [dict(n=3, ops=4), dict(n=17, ops=2), dict(n=16, ops=2, how=2)] + grid(n=[2, 4], ops=[2], nest=[1], how=[0, 1, 2, 3]) + grid(n=[2, 3], ops=[2], nest=[1], mode=[1], thread=[1], how=[0, 1, 2, 3]), grid(n=[1, 2, 3, 4, 5], ops=[4]) + grid(n=[3, 4], ops=[3], nest=[1]) + grid(n=[15, 16, 17, 32], ops=[2], nest=[0, 1]) + grid(n=[3], ops=[3], nest=[1], mode=[1], thread=[1], how=[1, 3]), covers=['added', 'cancelled', 'fired'], bound='up to 17 registrations followed by up to 4 cancels, fires (of functions that defer more) or registrations, then unwinding', opts={'max-time': 300}, topts={'max-time': 900})
job('D02', 'cancel_sym', D, 'h_cancel', grid(n=[2, 3], ops=[1], sym=[1]), grid(n=[2, 3, 4, 5, 6], ops=[1], sym=[1]), bound='the index symbolic', opts={'max-time': 300}, topts={'max-time': 900})
job('D02', 'large', D, 'h_cancel', [dict(n=n, ops=2, pick=1, how=2) for n in (33, 64, 65, 128, 129)] + [dict(n=257, ops=1, pick=1, nest=1), dict(n=300, ops=2, pick=1), dict(n=300, ops=2, pick=1, mode=1, thread=1, how=1)], [dict(n=n, ops=2, pick=1, nest=1) for n in (48, 64, 65, 128, 129, 257)], bound='33..300 pending functions, cancelling and firing among the first, middle and last ones', topts={'max-time': 900})
E_ = 'h_mem.c'
job('D03', 'mem', E_, 'h_mem', grid(m=[0, 1, 2, 3], s=[0, 3], how=[0, 1]) + grid(m=[3], nest=[1], how=[0, 1]) + grid(m=[16, 17, 18, 33], api=[100], s=[0, 1]) + grid(m=[4], api=[101], s=range(0, 8)) + grid(m=[3], api=[8], s=range(0, 8), how=[1]) + grid(m=[2], api=[8], big=[1], s=[2, 4, 6], how=[1]) + grid(m=[3], thread=[1], how=[0, 1, 2, 3], nest=[1]) + grid(m=[17], api=[100], thread=[1], how=[2, 3]) + grid(m=[2], api=[6, 7], thread=[1], how=[2]), grid(m=[4, 5], s=[0, 3], how=[0, 1]) + grid(m=[4], nest=[1], how=[0, 1]) + grid(m=range(1, 50), api=[100], s=[0, 1, 2]) + grid(m=[4], thread=[1], how=[2, 3], nest=[1]), covers=['done'], bound='every sequence of up to 3 requests through 6 interfaces, and fixed sequences of up to 33, sizes 0..80, all contents', opts={'max-time': 300}, topts={'max-time': 900})
job('D03', 'arena', E_, 'h_scope_arena', grid(m=[0, 1, 2, 3], s=[0, 3]) + [dict(m=3, thread=1), dict(m=8, api=0, big=1), dict(m=40, api=0)], grid(m=[4], s=[0, 2, 5]) + [dict(m=8, api=0, big=1, s=s) for s in range(8)], covers=['done'], bound='a scope with an arena: up to 3 (40) requests and deferrals; the blocks are looked at by what was deferred', opts={'max-time': 300, 'max-instr': 60000000}, topts={'max-time': 900, 'max-instr': 60000000})
job('D03', 'large', E_, 'h_mem', grid(m=[2], big=[1], s=[0, 2, 4, 6], how=[0, 1]) + grid(m=[2], big=[1], s=[5], how=[2, 3], thread=[1]) + grid(m=[64, 65, 129, 257], api=[100], how=[0, 1]), covers=['done'], bound='blocks of 255..100001 (300003) bytes, 64..257 blocks', opts={'max-instr': 60000000})
job('D03', 'guard_large', E_, 'h_guard', grid(m=[2], big=[1], s=[0, 6]) + [dict(m=33, api=100), dict(m=65, api=100)], covers=['thrown'], bound='blocks of 255..100001 bytes, 65 blocks', opts={'max-instr': 60000000})
job('D03', 'guard', E_, 'h_guard', grid(m=[0, 1, 2, 3]) + grid(m=[16, 17, 18], api=[100]) + grid(m=[2], nest=[0], throw=[0], exit=[0, 1, 2]), grid(m=[4], s=[0, 2]) + grid(m=range(1, 50), api=[100]) + grid(m=[4], throw=[0], exit=[0, 1, 2]), covers=['thrown', 'normal'], bound='a guard section with up to 3 (18) requests, left normally or by an exception between any two of them', opts={'max-time': 300}, topts={'max-time': 900})
job('D02 D03', 'mid', E_, 'h_mid', grid(m=[1, 2], ops=[2], thread=[0, 1]) + [dict(m=3, ops=2), dict(m=17, ops=2), dict(m=18, ops=2, thread=1)], grid(m=[3], ops=[3], thread=[0, 1]) + grid(m=[17, 33, 65], ops=[4], thread=[0, 1]), covers=['done'], bound='up to 3 (18) requests, cancelled or fired by the index raii_last_mid/raii_mid gives', opts={'max-time': 300}, topts={'max-time': 900})
job('M04', 'fail', 'h_fail.c', 'h_fail', [dict(api=a, n=1) for a in (18, 19)] + [dict(api=a, n=0) for a in (18, 19)], covers=['failed', 'succeeded'], bound='an arena whose growth fails')
job('D04', 'fail', 'h_fail.c', 'h_fail', grid(api=range(0, 29), n=[0, 1, 16]) + grid(api=range(0, 14), n=[0, 16], thread=[1]), grid(api=range(0, 29), n=range(0, 34)), covers=['failed', 'succeeded'], bound='each of 29 allocating interfaces, each position of the failing allocation, with 0, 1 or 16 earlier requests on the scope')
job('A01', 'args', 'h_args.c', 'h_args', grid(pairs=[0, 1], how=[0, 1, 2, 3], scoped=[0], slen=[0, 5, 300]) + grid(pairs=[1], how=[1, 2], scoped=[1], slen=[5]), grid(pairs=[0, 1], how=[0, 1, 2, 3], scoped=[0, 1], slen=[0, 1, 7, 8, 9, 39, 255, 256, 257, 271, 272, 273, 399]), covers=['done'], bound='every pair of the 11 codes and longer formats of up to 131 arguments, arbitrary values, strings of up to 300 bytes')
job('A01', 'codes', 'h_args.c', 'h_args', grid(pairs=[0], rot=[1], how=[0, 1, 3], slen=[5]), grid(pairs=[0], rot=[1], how=[0, 1, 2, 3], slen=[0, 5, 300], scoped=[0, 1]), covers=['done'], bound='every code at every position up to 44')
job('A02', 'empty', 'h_args.c', 'h_empty', covers=['done'], bound='empty sets and sets nothing was read from')
job('A02', 'release', 'h_args.c', 'h_release', grid(n=[0, 1, 2, 3], other=[0, 1]), grid(n=[0, 1, 2, 3, 4], other=[0, 1]), covers=['explicit', 'own scope', 'thread scope', 'given scope'], bound='every sequence of up to 3 (thorough 4) retrievals through 4 accessors from sets of 1, 3 and 12 arguments', topts={'max-time': 900})
M = 'h_arena.c'
job('M01 M03 M04', 'ops', M, 'h_ops', grid(ops=[3], s0=[2, 4]) + grid(ops=[4], two=[0], s0=[2]) + [dict(ops=4, s0=3, nsz=2), dict(ops=5, two=0, s0=3, nsz=2), dict(ops=3, s0=8, nsz=4, th=10), dict(ops=3, s0=0, nsz=4, th=0), dict(ops=2, s0=0, nsz=9)], grid(ops=[4], s0=[0, 2, 4, 8]) + grid(ops=[5], two=[0], s0=[2, 4]) + [dict(ops=5, s0=3, nsz=2), dict(ops=6, two=0, s0=3, nsz=2)], covers=['done', 'fits', 'grows', 'recycled', 'cleared', 'freed'], bound='every program of up to 3 (5) operations alloc, calloc, clear, free on two arenas (one arena), sizes around the threshold', opts={'max-time': 300}, topts={'max-time': 900}, weight=2)
job('M02', 'calloc', M, 'h_ops', grid(ops=[3], s0=[2], two=[0, 1]) + [dict(ops=5, two=0, s0=3, nsz=2)], grid(ops=[4], s0=[0, 2, 4], two=[0, 1]), covers=['done', 'recycled', 'cleared'], bound='every program of up to 3 (5) operations', opts={'max-time': 300}, topts={'max-time': 900}, weight=2)
job('M01 M04', 'size', M, 'h_size', grid(grow=[0], th=[4, 8, 10]) + grid(grow=[6]), grid(grow=[0, 30], th=[4, 8, 10, 16]), covers=['done'], bound='every pair of sizes up to 4000, and sizes just beyond the room that is left')
job('M01 M02 M03', 'big', M, 'h_ops', [dict(ops=3, two=0, s0=12, nsz=4), dict(ops=3, two=1, s0=13, nsz=2), dict(ops=3, two=0, s0=12, nsz=2, shape=1)], covers=['done', 'recycled', 'cleared'], bound='every program of 3 operations with blocks of 65535..131074 bytes', opts={'max-instr': 60000000})
job('M01 M03 M04', 'keep', M, 'h_keep', [dict(th=1), dict(th=2), dict(th=3, size=7000, n=3), dict(th=0, size=12000, n=4, chunks=6), dict(th=100, size=110000, n=2, chunks=3)], covers=['done'], bound='3 or 4 arenas of 4 (6) chunks (2 of 3 with a threshold of 100), cleared or freed in any combination, two rounds')
job('M03', 'cycle', M, 'h_cycle', grid(n=[6], kind=[0, 1], th=[1, 2, 3]) + grid(n=[24], kind=[0, 1], th=[0, 5, 10]), grid(n=[6, 12], kind=[0, 1], th=range(1, 8)), covers=['done'], bound='repeated fill, clear and free', opts={'max-instr': 60000000})
job('M01 M02', 'overflow', M, 'h_overflow', covers=['done'], bound='every count and size whose product exceeds LONG_MAX (6 factors), every size near LONG_MAX')
job('M01 M04', 'threshold', M, 'h_threshold', covers=['room', 'refused'], bound='11 thresholds including those whose size overflows')
job('M04', 'none', M, 'h_none', covers=['done'], bound='every type tag but the arena\'s')
job('M01 M02', 'unique', M, 'h_unique', grid(n=[2, 3]), grid(n=[4]), covers=['done'], bound='arena smart pointers, every sequence of up to 3 requests', opts={'max-time': 300}, topts={'max-time': 900})
X = 'h_except.c'
KT = [1, 2, 4, 8, 0x10, 0x20, 0x100, 0x200]; KG = [0x40, 0x80]; KA = KT + KG
XO = dict(opts={'max-time': 200}, topts={'max-time': 900})
job('E01 E02 E03', 'nest', X, 'h_prog', grid(depth=[3], kinds0=KA, kinds=[0x7ff], body=[7], hand=[1]) + grid(depth=[4], kinds0=[4, 0x10], kinds=[0x51], body=[6]), grid(depth=[4], kinds0=KA, kinds=[0x1ff], body=[2, 8]) + grid(depth=[3], kinds0=KA, kinds=[0x7ff], body=[0x3f], hand=[3]), covers=['completed', 'uncaught', 'uncaught to be'], bound='every nesting of up to three (four) of eleven statement forms around a throw or none', **XO)
job('E01 E02 E03', 'hand', X, 'h_prog', grid(depth=[2], kinds0=KA, kinds=[0x3ff], body=[0x12e], hand=[0x67], post=[1]) + grid(depth=[2], kinds0=KT, kinds=[0x107], body=[0x6], hand=[0x43], handn=[0x80]) + [dict(depth=1, kinds=0x7ff, body=0x33f, hand=0x27f, symline=1)], grid(depth=[2], kinds0=KT, kinds=[0x33f], body=[0x12e], hand=[0x47], handn=[0x8d]) + grid(depth=[3], kinds0=KA, kinds=[0x3ff], body=[0xa], hand=[0x43]), covers=['completed', 'uncaught', 'uncaught to be'], bound='handlers that throw, rethrow, or run another statement, at up to two (three) levels; throws of exceptions, panics, equal names, signals', **XO)
job('E01 E02', 'fin', X, 'h_prog', grid(depth=[2], kinds0=[8, 0x10, 0x20, 0x200], kinds=[0x238], body=[3], bodyn=[0x81], finn=[0x87], fin=[3]) + [dict(depth=1, kinds=0x238, body=0x20f, hand=0x243, fin=0x20f), dict(depth=1, kinds=0x3ff, body=0x2b, hand=0x41, post=0xf)], grid(depth=[2], kinds0=[8, 0x10, 0x20, 0x200], kinds=[0x338], body=[0xb], bodyn=[0x81], finn=[0x8f], fin=[7], hand=[0x41]), covers=['completed', 'uncaught'], bound='finally sections that throw or run another statement; throws after a nested statement', **XO)
job('E04', 'protect', X, 'h_prog', grid(depth=[1], kinds=[0x33f], body=[0x12f], prots=[8], pnull=[0x7f], ract=[1]) + grid(depth=[2], kinds0=KT, kinds=[0x17], body=[6], prots=[0xc], hand=[0x43], ract=[1], pnull=[0x23]) + [dict(depth=1, kinds=0x17, body=0xf, prots=0xf, ract=0x41, hand=3), dict(depth=1, kinds=0x33f, body=0xe, hand=0x4f, hprot=1, prots=4), dict(depth=2, kinds0=4, kinds=0x37, body=0xe, hand=0x47, handn=0x80, hprot=1), dict(depth=2, kinds0=0x21, kinds=0x5, body=0x6, hand=0x43, handn=0x87, hprot=1, prots=4)], grid(depth=[2], kinds0=KA, kinds=[0x3ff], body=[0x7], prots=[0xf], pnull=[0x7f], hand=[0x43]) + grid(depth=[2], kinds0=KT, kinds=[0x17], body=[6], prots=[8], ract=[0x41], hand=[0x43]), covers=['completed', 'uncaught'], bound='up to three protected pointers per block, each NULL or unprotected or not, at two levels', **XO)
job('E04', 'many', X, 'h_many', [dict(n=6), dict(n=17)], [dict(n=n) for n in range(1, 30)], covers=['done'], bound='6 or 17 protected pointers in as many frames, any of them NULL, protected twice or given up')
job('E07', 'again', X, 'h_prog', grid(depth=[1], kinds=[0x33f], body=[0x2f], prots=[0xe], ract=[0x461]) + grid(depth=[1], kinds0=[0x40, 0x80], kinds=[0xc0], body=[0x2f], defs=[0xe], dact=[0x4a1], exit=[3]) + grid(depth=[2], kinds0=[4, 0x10, 0x40], kinds=[0x44], body=[6], defs=[4], dact=[0x21], prots=[4], ract=[0x21]), grid(depth=[2], kinds0=KA, kinds=[0xff], body=[6], defs=[4], dact=[0xe1], prots=[4], ract=[0x21]), covers=['completed', 'unwinding exception'], bound='release and deferred functions that throw, or use a try or guard of their own, at two levels', **XO)
job('E06 E07', 'uncaught', X, 'h_uncaught', [dict(tdefs=3), dict(tdefs=3, mem=1), dict(tdefs=17, acts=1, mem=1), dict(tdefs=17, acts=1), dict(tdefs=3, handlers=0), dict(tdefs=3, acts=1, recov=1)], [dict(tdefs=n) for n in range(2, 20)], covers=['uncaught'], bound='ten ways of raising outside of any handler, 3 (17) deferrals of the thread of which one raises again', **XO)
job('E06', 'none', X, 'h_uncaught', [dict(tdefs=0)], covers=['uncaught'], bound='the same, nothing deferred')
job('E06', 'first', X, 'h_first', bound='before the library was set up')
job('E06', 'nested', X, 'h_prog', grid(depth=[2], kinds0=KA, kinds=[0x7ff], body=[0x12e], tdefs=[3], defs=[4], prots=[4]) + [dict(depth=1, kinds=0x7ff, body=0x20a, tdefs=2, defs=4, prots=4, alloc=1)], covers=['uncaught'], bound='uncaught exceptions out of every nesting of two statement forms, three deferrals of the thread', **XO)
job('E05', 'signal', X, 'h_signal', grid(n=[1, 2], where=[0, 1], rounds=[2]) + [dict(n=1, rounds=20), dict(n=1, where=2)], grid(n=[3], where=[0, 1]) + [dict(n=2, where=2)], covers=['registered', 'delivered'], bound='up to two registrations or deliveries (repeated 2 or 20 times) of 12 signals, then one of each', **XO)
job('E05', 'table', X, 'h_table', grid(extra=[0, 1, 3]), covers=['done'], bound='32 registrations and up to 3 more')
job('E05', 'blocked', X, 'h_blocked', covers=['done'], bound='every pair of a blocked and a raised signal of 12')
job('E05', 'masked', X, 'h_masked', covers=['done'], bound='12 signals handled, 13 masks, three ways of leaving the handler')
job('E05', 'prog', X, 'h_prog', grid(depth=[2], kinds0=KA, kinds=[0x3ff], body=[0x121], hand=[1], defs=[4], prots=[4]), covers=['completed', 'uncaught'], bound='two signals in every nesting of two statement forms')
K_ = 'h_hooks.c'
job('E08', 'hooks', K_, 'h_hooks', grid(hooks=[0, 1, 2, 3]) + grid(depth=[3], hooks=[3], kinds0=[1, 2, 4, 8, 0x10], kinds=[0x1f]) + [dict(depth=3, hooks=1, kinds=0xb, swap=1), dict(depth=4, hooks=3, kinds=0xb, acts=3)], grid(depth=[3], hooks=[0, 1, 2, 3], kinds0=[1, 2, 4, 8, 0x10]) + grid(depth=[4], hooks=[3], kinds0=[1, 2, 4, 8, 0x10], kinds=[0x1f], acts=[2, 4]), covers=['completed', 'uncaught', 'uncaught to be'], bound='every nesting of two, three (four) of five statement forms around a throw of four kinds or none, every answer of the setup handler', **XO)
job('E08', 'install', K_, 'h_hooks', grid(hooks=[0, 1, 2, 3], install=[1], depth=[1, 2], swap=[0, 1]), covers=['completed', 'uncaught'], bound='the same with a guard section that changes both handlers', **XO)
job('D05', 'guard', X, 'h_prog', grid(depth=[2], kinds0=KG, kinds=[0xc6], defs=[4], dact=[0x23], exit=[7], body=[3]) + grid(depth=[1], kinds0=KG, kinds=[0xc0], body=[0x2f], defs=[8], dact=[0x2b], exit=[0xf]) + grid(depth=[2], kinds0=[4, 8, 0x10], kinds=[0xc0], defs=[8], dact=[9], body=[0x2f], exit=[7], hand=[0x43]) + grid(depth=[3], kinds0=KG, kinds=[0xc0], defs=[4], dact=[1], exit=[7], body=[3], alloc=[1]) + grid(depth=[2], kinds0=KG, kinds=[0xc6], defs=[4], dact=[0x23], exit=[3], body=[3], alloc=[1]) + grid(depth=[1], kinds0=KG, kinds=[0xc0], body=[0x2f], defs=[4], dact=[1], exit=[0xf], swap=[1, 2, 3]) + grid(depth=[1], kinds0=KG, kinds=[0xc0], body=[0x22f], defs=[4], dact=[0x22b], exit=[0xf], alloc=[1]), grid(depth=[2], kinds0=KG, kinds=[0xff], defs=[8], dact=[0x21], exit=[7], body=[7]) + grid(depth=[3], kinds0=KG, kinds=[0xc5], defs=[4], dact=[3], exit=[7], body=[3]), covers=['completed', 'uncaught'], bound='up to three nested guard sections with up to three deferrals each, left in four ways or by an exception, also of a deferred function', **XO)
job('D05', 'preset', X, 'h_prog', grid(depth=[2], kinds0=KG, kinds=[0xc0], defs=[4], dact=[1], exit=[7], body=[3], preset=[1, 2, 3]), covers=['completed'], bound='guard sections entered with custom handlers set', **XO)
job('D05', 'post', X, 'h_prog', grid(depth=[2], kinds0=KG, kinds=[0xc4], defs=[4], dact=[1], exit=[7], body=[3], post=[0xf]), covers=['completed', 'uncaught'], bound='exceptions after a nested statement')
job('D06', 'recover', X, 'h_prog', grid(depth=[1], kinds0=KG, kinds=[0xc0], body=[0x33f], defs=[4], dact=[0x31f], exit=[1], alloc=[1]) + grid(depth=[2], kinds0=[0x40, 4, 8, 0x100], kinds=[0xc4], body=[0x2a], defs=[4], dact=[0x13], hand=[0x41]) + grid(depth=[1], kinds0=KG, kinds=[0xc0], body=[0xa], defs=[8], dact=[0x11a], exit=[1, 4]), grid(depth=[1], kinds0=KG, kinds=[0xc0], body=[0x13f], defs=[8], dact=[0x11f], exit=[7]) + grid(depth=[2], kinds0=KA, kinds=[0xff], body=[0x2a], defs=[4], dact=[0x11f], hand=[0x41]), covers=['completed', 'uncaught'], bound='up to three deferred functions asking for five names after seven kinds of errors, two nested guards', **XO)
job('D06 E03', 'told', X, 'h_prog', [dict(depth=2, kinds0=4, bodyn=8, handn=0x80, kinds=0xc0, body=0xb, defs=4, dact=0x111), dict(depth=2, kinds0=0x20, bodyn=8, handn=0x80, finn=0x81, kinds=0xc0, body=0x209, defs=4, dact=0x111)], covers=['completed', 'uncaught'], bound='guards in handlers and finally sections of a panic')
job('D06 E03', 'empty', X, 'h_names', grid(n=[0], m=[0, 1]), covers=['went on', 'recovered'], bound='an empty message, an empty name')
job('D06', 'names', X, 'h_names', grid(n=[0, 1, 2], m=[0, 1, 2]) + [dict(n=3, m=3, twice=1), dict(n=5, m=5)], grid(n=range(0, 8), m=range(0, 8), twice=[0, 1]), covers=['went on', 'recovered'], bound='every message or exception name and every name asked for of up to 5 (7) bytes', **XO)

# ------------------------------------------------------------------ futures
F = 'h_future.c'
def fo(pre, t=300):
    return dict(opts={'max-time': t, 'preempt': pre, 'races': True}, topts={'max-time': 900, 'preempt': pre, 'races': True})
KF = [1 << k for k in range(11)]
ERRS = 0x4d8; OKS = 0x327
B1 = 'every schedule of one thread and its creator with up to 3 preemptions'
B2 = 'every schedule of two threads and their creator with one preemption'
job('T01', 'one', F, 'h_async', grid(n=[1], kinds=KF, modes=[7], own=[1], how=[0]) + grid(n=[1], kinds=[7], modes=[3], busy=[1]), covers=['done', 'raised'], bound=B1 + ', 11 kinds of thread functions, arbitrary value, argument and object', **fo(3))
job('T01', 'two', F, 'h_async', grid(n=[2], kinds0=[1, 2, 4, 0x20], kinds=[0x15], modes=[5], order=[1]) + grid(n=[2], kinds0=[1, 4], kinds=[5], modes=[1], own=[1], busy=[1]), grid(n=[2], kinds0=KF, kinds=[0x7ff], modes=[5], order=[1]) + grid(n=[3], kinds0=KF, kinds=[5], modes=[1]), covers=['done', 'raised'], bound=B2, **fo(1))
job('T01 T02', 'wide', F, 'h_async', grid(n=[17, 24, 40], kinds=[1], modes=[4], sym=[0]) + grid(n=[6], kinds=[9], modes=[4], sym=[0], order=[1]), covers=['done'], bound='17 to 40 threads, one order of running them; 6 threads any of which fail', **fo(-1))
job('T01 T02', 'wide_rev', F, 'h_async', grid(n=[17], kinds=[1], modes=[4], sym=[0]) + grid(n=[5], kinds=[9], modes=[4], sym=[0], own=[1], busy=[1]), covers=['done'], bound='the same, newest first', **fo(-2))
job('T02', 'one', F, 'h_async', grid(n=[1], kinds=KF, modes=[1, 4], own=[0, 1], how=[0, 2]), covers=['done', 'raised', 'polled done', 'polled not done'], bound=B1 + ', threads failing in five ways', **fo(3))
job('T02', 'two', F, 'h_async', grid(n=[2], kinds0=[8, 0x10, 0x80, 0x400], kinds=[0x29], modes=[4], order=[1], own=[1]) + grid(n=[2], kinds0=[1, 0x20, 0x40], kinds=[0x18], modes=[4], order=[1]) + grid(n=[2], kinds0=[8, 0x10], kinds=[0x58], modes=[4], busy=[1]), grid(n=[2], kinds0=KF, kinds=[0x7ff], modes=[4], order=[1], own=[1]) + grid(n=[3], kinds0=KF, kinds=[0x19], modes=[4]), covers=['done', 'raised'], bound=B2, **fo(1))
job('T02', 'spawn', F, 'h_spawn', grid(n=[2], kinds0=[8, 0x10, 0x400], kinds=[0x19], modes=[4], own=[0, 1]) + grid(n=[1], kinds=KF, modes=[4], own=[1]), grid(n=[2], kinds0=KF, kinds=[0x7ff], modes=[4], own=[1]) + grid(n=[3], kinds0=[8, 1], kinds=[0x19], modes=[4]), covers=['done', 'raised'], bound=B2, **fo(1))
job('T03', 'many', F, 'h_spawn', grid(n=[2], cpus=[1], kinds=[9], modes=[4], own=[0, 1]) + [dict(n=3, cpus=1, kinds=8, modes=4), dict(n=3, cpus=2, kinds=8, modes=4)], grid(n=[2, 3], cpus=[1, 2], kinds=[0xd], modes=[4], again=[0, 1]), covers=['done'], bound='more threads in a scope than processors (1 and 2)', **fo(1))
job('T03', 'wide', F, 'h_spawn', grid(n=[9, 24, 40], cpus=[4], kinds=[1], modes=[4], sym=[0], again=[0, 1]) + grid(n=[6], cpus=[2, 4], kinds=[9], modes=[4], sym=[0], poll=[1]), covers=['done'], bound='up to 40 threads in a scope, one order of running them; 6 threads any of which fail', **fo(-1))
job('T03', 'wide_rev', F, 'h_spawn', grid(n=[9, 24], cpus=[4], kinds=[1], modes=[4], sym=[0]) + grid(n=[5], cpus=[2], kinds=[9], modes=[4], sym=[0], own=[1]), covers=['done'], bound='the same, newest first', **fo(-2))
job('T03', 'spawn', F, 'h_spawn', grid(n=[2], kinds0=[1, 2, 4, 8, 0x20], kinds=[0xd], modes=[5]) + grid(n=[2], kinds0=[1, 4], kinds=[5], modes=[1], ex=[1], own=[1]) + grid(n=[2, 3], kinds=[9], modes=[4], again=[1]), grid(n=[2], kinds0=KF, kinds=[0x7ff], modes=[5]) + grid(n=[3], kinds0=[1, 4, 8], kinds=[0xd], modes=[1]) + grid(n=[4], kinds=[9], modes=[4], again=[1]), covers=['done', 'raised'], bound=B2, **fo(1))
job('T03', 'one', F, 'h_spawn', grid(n=[1], kinds=KF, modes=[7], own=[1], ex=[0, 1]), covers=['done', 'raised'], bound=B1, **fo(3))
job('T04', 'poll', F, 'h_async', grid(n=[1], kinds=KF, modes=[1, 4], how=[1, 2]), covers=['done', 'raised', 'waited', 'polled done', 'polled not done'], bound=B1, **fo(3))
job('T04', 'poll_two', F, 'h_async', grid(n=[2], kinds0=[1, 4, 8], kinds=[0x15], modes=[4], how=[1, 2], order=[1]), grid(n=[2], kinds0=KF, kinds=[0x7ff], modes=[4], how=[1, 2], order=[1]), covers=['done', 'raised', 'waited', 'polled done', 'polled not done'], bound=B2, **fo(1))
job('T04', 'finish', F, 'h_spawn', grid(n=[1], kinds=KF, modes=[4], poll=[1]) + grid(n=[2], kinds0=[1, 4, 8], kinds=[0xd], modes=[4], poll=[1]), grid(n=[2], kinds0=KF, kinds=[0x7ff], modes=[4], poll=[1]) + grid(n=[3], kinds0=[1, 8], kinds=[9], modes=[4], poll=[1]), covers=['done', 'raised', 'finished early'], bound=B2, **fo(1))
job('T05', 'one', F, 'h_async', grid(n=[1], kinds=KF, modes=[1, 4], own=[1], busy=[1], how=[0, 1, 2]), covers=['done', 'raised'], bound=B1, **fo(3))
job('T01 T05', 'size', F, 'h_async', grid(n=[1], kinds=[4, 0x200], modes=[1], hsize=[25, 5000, 70000], sym=[0]) , covers=['done'], bound='objects of 25 to 70000 bytes', **fo(1))
job('T03 T05', 'size_spawn', F, 'h_spawn', grid(n=[2], kinds=[4], modes=[1], hsize=[5000, 70000], sym=[0]) , covers=['done'], bound='objects of 5000 and 70000 bytes', **fo(0))
job('T05', 'two', F, 'h_async', grid(n=[2], kinds0=[1, 4, 8], kinds=[0xd], modes=[1], own=[1], busy=[1]), grid(n=[2], kinds0=KF, kinds=[0x7ff], modes=[5], own=[1], busy=[1]), covers=['done', 'raised'], bound=B2, **fo(1))
job('T05', 'spawn', F, 'h_spawn', grid(n=[2], kinds0=[1, 4, 8], kinds=[0xd], modes=[1], own=[1]) + grid(n=[1], kinds=KF, modes=[1], ex=[0, 1], own=[1], poll=[1]), grid(n=[2], kinds0=KF, kinds=[0x7ff], modes=[5], own=[1], ex=[0, 1]), covers=['done', 'raised'], bound=B2, **fo(1))
job('T02 T05', 'starved', F, 'h_retfail', grid(spawn=[0, 1]), covers=['done', 'raised'], bound='each position of a failing allocation in the thread: of what it returns, defers, or allocates in a guard section', **fo(3))
job('T05', 'nomem', F, 'h_nomem', grid(spawn=[0, 1], kinds=[1, 2]) + [dict(spawn=1, gone=1)] + grid(spawn=[0, 1], first=[1], cpus=[1, 4]), covers=['done', 'failed', 'no thread'], bound='each position of a failing allocation, or no thread to be had; one thread', **fo(2))
L = 'h_thread.c'
job('L01', 'threads', L, 'h_threads', grid(n=[2], ops0=[1 << k for k in range(9)], ops1=[0x1ff]) + grid(n=[2], k0=[2], k=[2], ops0=[0x12, 0x24, 0x81, 0x09], ops1=[0xb3]) + grid(n=[2], before=[1], k0=[2], k=[2], ops0=[0x83], ops1=[0x57]) + grid(n=[3], k0=[1], k=[1], ops0=[0x11, 0x82], ops1=[0x91], ops2=[0x1b]), grid(n=[2], k0=[2], k=[2], ops0=[3 << k for k in range(8)], ops1=[0x1ff]) + grid(n=[3], k0=[1], k=[1], ops0=[1 << k for k in range(9)], ops1=[0x1ff], ops2=[0x1ff]), covers=['done'], bound='every schedule of two (three) threads with up to 3 preemptions, each doing one of nine operations (two of some) on its own scope', **fo(3))
job('L01', 'futures', F, 'h_async', grid(n=[2], kinds0=[0x20, 0x80], kinds=[0x421], modes=[4], own=[1], busy=[1]), grid(n=[2], kinds0=KF, kinds=[0x7ff], modes=[4], own=[1], busy=[1]), covers=['done', 'raised'], bound=B2, **fo(1))
job('L01', 'one', F, 'h_async', grid(n=[1], kinds=KF, modes=[4], own=[1], busy=[1]), covers=['done', 'raised'], bound=B1, **fo(3))

# ------------------------------------------------------------------ types, compatibility headers
job('V01', 'tags', 'h_types.c', 'h_tags', covers=['value', 'instance', 'same'], bound='every pair of 32-bit tags', loose=True, opts={'max-time': 200})
job('V01', 'plain', 'h_types.c', 'h_plain', covers=['guard', 'zero'], bound='every 64-bit value, both booleans, every 32-bit status', loose=True)
job('V01', 'objects', 'h_types.c', 'h_objects', covers=['done'], bound='one object of each kind the library makes')
Q = 'h_queue.c'
QO = dict(opts={'max-time': 300}, topts={'max-time': 900}, srcs=[])
job('Q01', 'one', Q, 'h_queue', grid(kind=[0, 1, 2, 3, 4], ops=[4]) + grid(kind=[0, 1, 2, 3, 4], ops=[3], start=[3]) + grid(kind=[0, 1, 2, 4], ops=[2], static=[1]) + [dict(kind=3, ops=3, cookie=1)], grid(kind=[0, 1, 2, 3, 4], ops=[6], set=[0x57f]) + grid(kind=[0, 1, 2, 3, 4], ops=[4], start=[4]) + [dict(kind=3, ops=4, cookie=1)], covers=['done'], bound='every program of up to 4 (6) of eleven operations on one list of each of the five kinds, with 0 or 3 (4) elements', **QO)
job('Q01', 'two', Q, 'h_queue', grid(kind=[2, 3, 4], ops=[4], two=[1], set=[0x4a3]) + grid(kind=[2, 4], ops=[3], two=[1], start=[2]), grid(kind=[0, 1, 2, 3, 4], ops=[4], two=[1]) + grid(kind=[2, 4], ops=[6], two=[1], set=[0x4a3]), covers=['done'], bound='two lists, joined', **QO)
T_ = 'h_tree.c'
job('Q02', 'rb', T_, 'h_tree', grid(kind=[0], n=[4], rm=[4], query=[0, 1]) + grid(kind=[0], n=[5], rm=[3], late=[1]) + grid(kind=[0], n=[6], rm=[1], late=[1]) + grid(kind=[0], n=[3], rm=[2], mix=[1], dup=[1]) + grid(kind=[0], n=[0, 1, 2], rm=[1], query=[1], static=[0, 1]), grid(kind=[0], n=[7], rm=[1], late=[1]) + grid(kind=[0], n=[5], rm=[5]) + grid(kind=[0], n=[4], rm=[3], mix=[1], dup=[1]) + grid(kind=[0], n=[5], rm=[1], query=[1]), covers=['done', 'found', 'not found'], bound='every order of up to 6 (7) arbitrary 32-bit keys, then every choice of removals', **QO)
job('Q02', 'rb_runs', T_, 'h_tree', grid(kind=[0], n=[8, 12, 16], rm=[2], order=[1, 2, 3]) + grid(kind=[0], n=[9], rm=[4], order=[1, 2, 3]), grid(kind=[0], n=range(7, 17), rm=[3], order=[1, 2, 3]), covers=['done'], bound='ascending, descending and alternating runs of up to 16 keys, then 2 (4) removals', **QO)
job('Q02', 'splay', T_, 'h_tree', grid(kind=[1], n=[4], rm=[2], query=[0]) + grid(kind=[1], n=[3], rm=[3], query=[1]) + grid(kind=[1], n=[3], rm=[1], mix=[1], dup=[1]) + grid(kind=[1], n=[0, 1, 2], rm=[1], query=[1], static=[0, 1]) + grid(kind=[1], n=[8], rm=[2], order=[1, 2, 3], late=[1]), grid(kind=[1], n=[5], rm=[2]) + grid(kind=[1], n=[4], rm=[4], query=[1]) + grid(kind=[1], n=[3], rm=[3], mix=[1], dup=[1]), covers=['done', 'found', 'not found'], bound='every order of up to 4 (5) arbitrary 32-bit keys, then every choice of removals', **QO)

# ------------------------------------------------------------------ atomics
AT = 'h_atomic.c'
AO = lambda pre: dict(opts={'max-time': 200, 'preempt': pre, 'races': True}, topts={'max-time': 900, 'preempt': pre + 1, 'races': True}, srcs=[])
job('C02', 'ops', AT, 'h_ops', covers=['done'], bound='36 operations on 64-bit and pointer objects, every 64-bit old value, operand and expected value', srcs=[])
job('C02', 'sized', AT, 'h_sized', covers=['done'], bound='13 operations on signed and unsigned objects of 8, 16, 32 and 64 bits, every value', srcs=[])
job('C02', 'float', AT, 'h_float', covers=['done'], bound='load, store, exchange, compare and exchange of float and double, every bit pattern', srcs=[])
job('C02', 'flag', AT, 'h_flag', grid(n=[3]), grid(n=[5]), covers=['done'], bound='every program of 3 (5) flag operations', srcs=[])
job('C02', 'conc', AT, 'h_conc', grid(n=[2]), covers=['done'], bound='every pair of 14 operations by two threads, every operand, every schedule with up to 2 (3) preemptions', **AO(2))
job('C02', 'conc3', AT, 'h_conc', grid(n=[3], op0=[1, 0x80, 0x20], op1=[1, 0x80, 0x40], op2=[0x1001, 0x880]), grid(n=[3], op0=[1 << k for k in range(14)], op1=[0x81, 0x20, 0x2], op2=[0x1001, 0x880]), covers=['done'], bound='operations of three threads, every operand, up to 1 (2) preemptions', **AO(1))
job('C02 C01', 'message', AT, 'h_message', covers=['seen', 'waited', 'not seen'], bound='23 ways to publish and 12 to look, every schedule with up to 3 (4) preemptions', **AO(3))
job('C01', 'lock', AT, 'h_lock', grid(n=[2], rounds=[1, 2, 3]), grid(n=[2], rounds=[2, 4]), covers=['done'], bound='two threads that take the lock up to 3 (4) times, every schedule with up to 4 (5) preemptions', **AO(4))
job('C01', 'lock3', AT, 'h_lock', grid(n=[3], rounds=[1]), grid(n=[3], rounds=[1, 2]), covers=['done'], bound='three threads that take the lock once (twice), every schedule with up to 2 (3) preemptions', **AO(2))
job('C01', 'locks', AT, 'h_locks', covers=['done'], bound='two locks, one nested', **AO(4))

# ------------------------------------------------------------------ mmap on Windows
MM = 'h_mman.c'
WB = 'compiled as for 64-bit Windows against a model of the Windows calls it makes: every length and offset whose sum fits 63 bits, every protection, descriptor and failing call'
job('W02', 'map', MM, 'h_map', srcs=[], covers=['file', 'memory', 'fixed', 'beyond 4 GB', 'nothing', 'descriptor', 'no view'], bound=WB, loose=True)
job('W02', 'map_private', MM, 'h_map_private', srcs=[], covers=['file', 'fixed', 'beyond 4 GB'], bound=WB + '; private writable file mappings', loose=True)
job('W02', 'map_none', MM, 'h_map_none', srcs=[], covers=['nothing', 'descriptor'], bound=WB + '; mappings without access', loose=True)
job('W02', 'ops', MM, 'h_ops', grid(op=range(5)), srcs=[], covers=['fails', 'works'], bound='every address, length, protection; the Windows call fails or works', loose=True)
job('W02', 'protect_none', MM, 'h_protect_none', [dict(op=1)], srcs=[], covers=['fails', 'works'], bound='every address and length', loose=True)
job('W02', 'page', MM, 'h_page', srcs=[], bound='every page size', loose=True)
