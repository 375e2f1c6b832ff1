"""Which scenarios decide which property, how long each may take, and what
their bounds are. Times are in seconds of wall clock."""

SAMPLES = {"quick": 12, "thorough": 40}


def caps(s, cap):
    return [(x, cap) for x in s.split()]


def sc(p, s, cap=30):
    return [(p + "_" + x, cap) for x in s.split()]


COMMON_BOUNDS = (
    "integers are 64-bit words; document and insertion lengths range over 0..2^40 unless a scenario says otherwise; "
    "positions range over the whole document; replica ids are fixed numbers that differ only in their upper 32 bits (arbitrary ones in C13 and C14); histories have the stated number of "
    "symbolic steps; loops are not cut (a path ends when the code returns, a hang limit of steps per path is reported)")

ASSUMPTIONS = [
    "the LLVM IR that rustc emits for the harness (opt-level 2, panic=abort) is the program; the engine's model of that IR is validated by native replays of sampled paths",
    "formatting of integers in panic messages is stubbed; allocation never fails",
    "z3's answers are right; paths with an unknown answer are counted as not explored",
]

STEP_TXT = ("two peers (ids 1,2), three arbitrary steps (each: either peer inserts, deletes or receives everything outstanding), then full exchange; "
            "scripted histories of up to 6 edits among 2-3 peers with symbolic kinds, positions and lengths; "
            "one symbolic edit at either peer of documents of 20-60 runs grown by fixed histories (10 shapes), of runs cut into nine pieces, of adjacent runs of one author and of twenty insertions at one place, two edits of one or two peers or a deletion and two insertions (thorough: any three edits) of three peers within a window of some of them, "
            "two symbolic edits on documents of 5-10 runs; a part of these also with tree nodes of 4 children (cfg cola_small_nodes); edits after and concurrent with that of a stranger whose clock is 2^31, 2^32 or 2^62+2^32 (which stands for long histories); edits of two authors reaching a third in every order, some of them waiting, with repeats, and an encoding or fork made meanwhile")


def conv(p, bounds, **k):
    quick = sc(p, "v1 v2 p1 p2 p4 p6 p7 pa q1 q2 q5 l1 l3 r1 r2 t1 t2 t3 t5 b0 b1 b2 b4 b5 b6 b8 w1 w5 y0 y2 z1 z2 tt0 tt2 b9 b10 b11 w31") + sc(p, "steps3 p9 q4 q6 p8 pb", 20)
    small = sc(p, "w3 tt0 tt2 y0 q1 b0 b1 b2 b5 b8 b9 b10 b11", 20)
    if p == "c12":
        quick += sc(p, "t4", 25)
    thorough = quick + sc(p, "z3 w3 w8 we3 we5 we8 v3 s2 s0 p5 q3 l2 t4 t6 t7", 90) + sc(p, "three3 s1 s5", 100) + sc(p, "steps4", 200)
    return dict({"quick": [("dev", quick), ("small", small)], "thorough": [("dev", thorough), ("small", small + sc(p, "w31 w8 we3 we5 we8 w1 w5 s0 s1 t3 t5", 60))], "bounds": bounds + STEP_TXT}, **k)


PLAN = {
    "C01": conv("c01", "Final buffers compared span by span. "),
    "C02": conv("c02", "Length compared after every call, every offset checked. "),
    "C03": conv("c03", "Neighbours at the author compared with neighbours here at every integrated insertion. "),
    "C04": conv("c04", "Removed, kept and unseen text compared at every integrated deletion. "),
    "C12": conv("c12", "Author and range of every insertion compared at the author and at each receiver. "),
    "C05": {
        "quick": [("dev", sc("c05", "v1 v2 w1 w2 w3 l1 four par par2 par3 chain two chain2 chain4 big own three any3", 20) + sc("c05", "chain3", 15))],
        "thorough": [("dev", sc("c05", "v1 v2 w1 w2 w3 l1 four par par2 par3 chain two chain2 chain4 big own three any3", 60) + sc("c05", "chain3 three3", 300))],
        "bounds": "two or three symbolic edits by one to three authors (up to five fixed-position edits in the chains, the text's length symbolic) reach one peer in every order, drained at every moment; one scenario on a 30-run document",
    },
    "C06": {
        "quick": [("dev", sc("c06", "old old2 two own one chain chain3 again big", 20) + sc("c06", "chain2 again3 after", 12))],
        "thorough": [("dev", sc("c06", "old old2 two own one chain chain3 again big", 60) + sc("c06", "chain2 again3 after", 200))],
        "bounds": "one to three symbolic edits (four fixed-position edits in the chains) reach a peer in every order with one or two repeated deliveries at every moment; every edit repeated at every peer, its author included, before and after convergence",
    },
    "C07": {
        "quick": [("dev", sc("c07", "y1 y2 tt b9 b11 w9 a7 a1 t1 a8 a2 b0 b1 b2 b5 b6 b8 w1 w5 w8 a9 s1", 20) + sc("c07", "a6 a4 s5 z1", 15))],
        "thorough": [("dev", sc("c07", "y1 y2 tt b9 b11 w9 a7 a1 t1 a8 a2 b0 b1 b2 b5 b6 b8 w1 w5 w8 a9 s1 a6 s5", 60) + sc("c07", "a3 a4 a5 z1 z2", 180)), ("small", sc("c07", "a2 a7 a8 y1 y2 tt b0 b1 b5 b8 b9 b11 w1 w5 w9", 30))],
        "bounds": "anchors at every offset with both biases, made by any peer before or after up to two symbolic edits and followed by up to three; on 20-60 run documents one anchor followed by one edit within a window",
    },
    "C08": {
        "quick": [("dev", sc("c08", "y1 y2 tt b9 b11 w9 a7 a1 t1 a8 a2 b0 b1 b2 b5 b6 b8 w1 w5 w8 a9 s1", 20) + sc("c08", "a6 a3 s5 z1", 15))],
        "thorough": [("dev", sc("c08", "y1 y2 tt b9 b11 w9 a7 a1 t1 a8 a2 b0 b1 b2 b5 b6 b8 w1 w5 w8 a9 s1 a6 s5", 60) + sc("c08", "a3 a4 a5 z1 z2", 180)), ("small", sc("c08", "a2 a7 a8 y1 y2 tt b0 b1 b5 b8 b9 b11 w1 w5 w9", 30))],
        "bounds": "anchors made by any peer at every offset with both biases, resolved by every peer before and after exchange, with up to three symbolic edits around; 20-60 run documents with one edit",
    },
    "C09": {
        "quick": [("dev", sc("c09", "round x1 l1 o1 o2 o3 y1 y2 tt a0 a1 a2 a5 a8 e0 e1 e2 e5 e8 late3 late4", 20) + sc("c09", "x4 late x5 x2 large", 8))],
        "thorough": [("dev", sc("c09", "round x1 l1 o1 o2 o3 y1 y2 tt a0 a1 a2 a5 a8 e0 e1 e2 e5 e8 late3 late4", 60) + sc("c09", "y3 x4 late late2 l2 x5 x2 x3 round2 large large2 b0 b1 b2 b5 b8", 45)), ("small", sc("c09", "y1 y2 tt e0 e1 e2 e5 e8 a0 a1 a2 a5 a8 x1 late4", 30))],
        "bounds": "text and insertions of up to 20 characters (one scenario up to 2^16) with one or two symbolic edits before encoding and one after; backlogs of up to four waiting edits; documents of 14-60 runs with one symbolic edit or anchor after decoding",
        "assumptions": ["SHA-256's compression function is an uninterpreted injective function"],
    },
    "C10": {
        "quick": [("dev", sc("c10", "trunc flip alt2 alt9 moved proto short cross"))],
        "thorough": [("dev", sc("c10", "trunc flip alt2 alt9 moved proto short cross", 200))],
        "bounds": "encodings of five kinds of replicas; every truncation, every single byte and every window of 2 or 9 bytes replaced by arbitrary bytes, every protocol number, all byte strings of up to 33 bytes",
        "assumptions": ["SHA-256's compression function is an uninterpreted injective function (no collisions)"],
    },
    "C11": {
        "quick": [("dev", sc("c11", "v1 v2 y1 y2 tt f1 d1 d5 f4 fa ff f3 latef latec latef2 latec2 c1", 20) + sc("c11", "c2 b5", 8))],
        "thorough": [("dev", sc("c11", "v1 v2 y1 y2 tt f1 d1 d5 f4 fa ff f3 latef latec latef2 latec2 c1", 60) + sc("c11", "f2 c2 c3 b1 b5", 100)), ("small", sc("c11", "y1 y2 tt d1 d5 f1 fa latef", 30))],
        "bounds": "fork or clone before, between and after up to three symbolic edits, with up to two (symbolic) or four (fixed-position) edits in flight or waiting; 20-60 run documents with one symbolic edit after the fork",
    },
    "C13": {
        "quick": [("dev", sc("c13", "ins0 ins d0 d1 d2 d3 d4 d5 d6 d7 d8 d9 d10 anchor new fork decode") + sc("c13", "dx dy dz", 15)),
                  ("release", sc("c13", "ins0 d1 d4 d6 d10 anchor new fork decode"))],
        "thorough": [("dev", sc("c13", "ins0 ins d0 d1 d2 d3 d4 d5 d6 d7 d8 d9 d10 dx dy dz anchor new fork decode", 100)),
                     ("release", sc("c13", "ins0 ins d0 d1 d2 d3 d4 d5 d6 d7 d8 d9 d10 anchor new fork decode", 60))],
        "bounds": "all 64-bit arguments, all range forms of usize bounds, all 64-bit ids, on documents of any length up to 2^40 with up to one symbolic edit before; dev and release builds",
    },
    "C14": {
        "quick": [("dev", sc("c14", "degenerate encoded anchors steps2 pa b5 b1 p8", 20) + sc("c14", "values l0 l1", 10))],
        "thorough": [("dev", sc("c14", "degenerate encoded anchors steps2 pa b5 b1 p8", 60) + sc("c14", "values l0 l1 l2 l3 steps3 three", 100))],
        "bounds": "edits of up to three symbolic steps by two or three peers on texts of up to 20 characters, of one step on large texts (all lengths up to 2^40), encodings and anchors of one symbolic step, and values decoded from well-formed bytes with arbitrary 64-bit fields; serialized to and from an in-memory binary serde format of the harness",
    },
    "C15": {
        "quick": [("dev", sc("c15", "i1 i2 i3 i5 gi6 gi9 gi12 hi vi ai d1 d2 d3 gd6 gd9 gd12 hd vd ad", 20) + sc("c15", "d5 i10 gi20 gd20 d10", 7))],
        "thorough": [("dev", sc("c15", "i1 i2 i3 i5 gi6 gi9 gi12 hi vi ai d1 d2 d3 d5 gd6 gd9 gd12 hd vd ad", 60) + sc("c15", "i10 gi20 gd20 d10", 130))],
        "bounds": "arbitrary byte strings of up to 12 (insertions, deletions; partly 20) bytes; every well-formed edit of a set with 1-5 (partly 10) consecutive bytes replaced by arbitrary ones, or with arbitrary 64-bit fields",
    },
    "C16": {
        "quick": [("dev", sc("c16", "a1_20 a5_30 a8_20 a6_20 a2_14 b2_30 b3_33 b5_30 b6_20 b7_20 b8_20 b0_33 b1_20 w1_20 w5_30 w6_20 hd0 h7 h2 z1 z2 z3 y0 y1 y2 tt0 tt2 b9_9 b9_24 b10_28 b11_28", 20)),
                  ("small", sc("c16", "z2 y0 y2 tt0 tt2 ta0 ta1 ta2 ta3 ta4 ta5 ta6 ta8 t2 t0 t5 t8 t3 t4", 20) + sc("c16", "s0_4 s2_5", 8))],
        "thorough": [("dev", sc("c16", "a1_20 a5_30 a8_20 a6_20 a2_14 b0_20 b0_33 b1_15 b1_20 b1_40 b2_14 b2_30 b3_30 b3_33 b4_31 b5_30 b5_45 b6_20 b7_20 b8_20 b8_40 w1_20 w2_14 w5_30 w6_20 w8_20 h0 h1 h2 h3 h4 h5 h7 h8 hd0 hd1 hd3 hd4 hd5 hd8 w3 we3 we5 we8 z1 z2 z3 y0 y1 y2 tt0 tt1 tt2 b9_9 b9_24 b10_28 b10_60 b11_28 b11_60", 40)),
                     ("small", sc("c16", "w3 we3 we5 we8 z1 z2 y0 y1 y2 tt0 tt1 tt2 b9_24 b10_60 b11_60 ta0 ta1 ta2 ta3 ta4 ta5 ta6 ta8 t0 t1 t2 t3 t4 t5 t6 t8 steps3", 60) + sc("c16", "s0_4 s0_6 s1_4 s1_6 s2_5 s5_6 s5_10 s6_6 s8_6 steps4", 30))],
        "bounds": "one symbolic edit (every position, lengths up to 2^40) or one anchor at either peer of documents of 20-90 runs grown by fixed histories of 12 shapes, two edits within a window of some; one edit on documents of 180-700 steps; with tree nodes of 4 children (cfg cola_small_nodes) one edit on documents of 24-80 runs (3-4 levels) and two edits on documents of 4-6 steps",
        "assumptions": ["the code is generic in the node size: cfg cola_small_nodes changes only two constants"],
    },
    "C17": {
        "quick": [("dev", sc("c17", "partial partial2 partial3 mixed s2 s4 y1 y2 tt b9 b11 ba0 ba1 ba2 ba5 ba8 b0 b1 b2 b5 b8 s3 partial4", 20) + sc("c17", "s1", 15)),
                  ("small", sc("c17", "y1 y2 b9 b11 b1 b5 b8", 15))],
        "thorough": [("dev", sc("c17", "partial partial2 partial3 mixed s2 s4 y1 y2 tt b9 b11 ba0 ba1 ba2 ba5 ba8 b0 b1 b2 b5 b8 s3 partial4 s1", 60) + sc("c17", "mixed2 t0 t2 t1 t5 t8", 60)),
                     ("small", sc("c17", "y1 y2 tt b9 b11 b0 b1 b2 b5 b8 t0 t1 t2 t5 t8", 20)),
                     ("release", sc("c17", "partial partial2 partial3 mixed s2 s4 b0 b1 b2 b5 b8 s3", 20))],
        "bounds": "every memory access, pointer, uninitialised read, double free and leak checked in histories of up to three symbolic steps with forks, clones, anchors, encodings and backlogs, iterators dropped after any number of items, replicas dropped at the end; documents of 14-60 runs with one symbolic edit, of 4-6 steps with two",
    },
    "C18": {
        "quick": [("dev", sc("c18", "cut rand2 rand4 chg0 chg1 chg2 chg3 chg4", 20) + sc("c18", "val0 val1 val2 val3 val4 wid1 wid3 rand6", 6))],
        "thorough": [("dev", sc("c18", "cut rand2 rand4 rand6 chg0 chg1 chg2 chg3 chg4 val0 val1 val2 val3 val4", 60) + sc("c18", "wid0 wid1 wid2 wid3 wid4 rand8 rand10", 60))],
        "bounds": "contents of encodings of five kinds of replicas cut anywhere, with one byte arbitrary, with up to 10 bytes inserted in place of one, or with one number arbitrary (64-bit); arbitrary contents of up to 6 (partly 10) bytes",
        "assumptions": ["SHA-256's compression function is an uninterpreted injective function; the checksum of the altered contents is the right one"],
    },
}
