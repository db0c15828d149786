"""What each check runs and what it assumes."""
import props_aux

SEQ = ["the enumeration is exhaustive within the stated alphabets and bounds only",
       "the reference implementations in rs/vcommon/src/oracle.rs and in the property's harness are right"]
RNG = ["random draws come from the rand crate (its entropy source is replaced by explored choices; a draw in [0,1) takes the values on each side of every threshold)"]
SCHED = ["a data-race-free program: threads interact only through the primitives the facade controls (std::sync, std::thread, rayon, dashmap), so that running the code between two of them in one piece loses no behaviour; memory is sequentially consistent"]
CLI = ["the enumeration is exhaustive within the stated alphabets and bounds only",
       "the reference in py/*.py is right; the operating system delivers file contents faithfully",
       "thread schedules inside the program are those the operating system happens to produce, on 1, 2, 3 and 8 threads (C09-C19 control them)"]
FORM = ["Unicode normal forms are those of Python's unicodedata for code points assigned there"]

PROPS = {
    "C01": dict(kind="vseq", assumptions=SEQ + RNG, bounds="byte-complete base + every subset of 10 multi-byte tokens x 7 special lists x 6 processor lists x all texts of <=2 (thorough 3) of 16 pieces; all texts of 3 (4) pieces on 6 rich configurations with every dropout outcome (at most 256 per text); every Unicode scalar; sizes up to 300 kB"),
    "C02": dict(kind="vseq", assumptions=SEQ, bounds="all subsets of a pool of short tokens over {a,b} (byte-complete or not) under several score families incl. exact ties x all texts up to length 6 (8); multi-byte characters; every division of 8 tokens into construction / two later additions; token lengths around every power of two up to 70000 (131073); several 10 kB texts; scores of extreme magnitude, whose sums overflow or vanish, on all texts up to length 6; texts up to 1000001 bytes against dynamic programming; different texts of one length encoded one after the other from the same memory"),
    "C03": dict(kind="vseq", assumptions=SEQ + RNG, bounds="every outcome of every draw (two sides of p) for p in 4 (8) grid values, texts with up to 8 (10) multi-byte candidates: outcome is the best segmentation without the omitted candidates and its total probability is the binomial one; lattice population likewise; p<=0 and p>=1 with every kind of draw, through all five entry points; exact joint distributions of several texts in a batch, in a sequence and between special tokens; texts with up to 1500 candidates, each candidate omitted alone, all omitted, none omitted: one draw per occurrence and never for a single byte; up to 70001 (140000) candidates, where every bit of a draw's number is followed to the occurrence it decides"),
    "C04": dict(kind="vseq", assumptions=SEQ, bounds="all ordered lists of <=3 (4) special tokens from 9 overlapping ones (prefixes, suffixes, empty, multi-byte) x all texts of <=5 (7) of the letters occurring in them, with and without processors; ordinary mode; 10 kB texts; special tokens up to 100000 bytes, 257 nested prefixes, ids past 16 bits, texts up to 1 MB, every Unicode scalar as a special token; texts one after the other in the same memory"),
    "C05": dict(kind="vseq", assumptions=SEQ, bounds="all histories of <=4 (5) operations out of add base / add special (also duplicates and several at once) / clone / save+load from 5 starting tokenizers; after each: every id below the vocabulary size, ids beyond it up to u32::MAX, every token known or not; every history also with all of this observed after each step; 250000 tokens (base or special, three shapes), tokens of up to 1 MB cloned and dropped on a 2 MiB stack"),
    "C06": dict(kind="vseq", assumptions=SEQ, bounds="base tokens: every byte string of length 1-2, of length 3-5 (6) over 6 critical bytes, every Unicode scalar (quick: planes 0 and part of the others), also as special token; 39 awkward strings pairwise; all processor lists <=3 (4) x special lists x keep marks; scores: every binary exponent (quick: 1 in 8) x 60 mantissas x 2 signs, all -k.ddd; histories <=4 (5) of save/load/clone/add; up to 200000 tokens; every history also with the serialised text observed between its steps; tokens of 2..69 bytes and of 29 lengths up to 1000000"),
    "C07": dict(kind="vseq", assumptions=SEQ + ["file operations of the library go through the libc entry points open64/write/pwrite64/writev/read/rename/ftruncate64 (replaced in the harness)"], bounds="saving: every script of full/short/interrupted/ENOSPC/EIO/zero writes and failing opens with <=4 faults (large documents 2-3), over 4 previous states of the file; loading: every script of short/interrupted/failing reads with <=4 faults; every proper prefix; every single-byte change, insertion, removed or doubled range of a 300-byte document; every change of one (thorough: two) JSON nodes; all version strings <=4 over 6 letters; unknown fields in every place; all encoded values <=4 (5) over 12 characters; 200 processor entries"),
    "C08": dict(kind="vseq", assumptions=SEQ, bounds="all id sequences of length <=5 (6) over base tokens with partial and invalid UTF-8, special tokens and ids outside the vocabulary (just past the end, u32::MAX), both include settings, several vocabularies; batch decode; ids past 16 bits; characters cut at every place far into a stretch of up to 70000 base tokens; id lists one after the other in the same memory"),
    "C10": dict(kind="vseq", assumptions=SEQ, bounds="all 4096 sets of byte strings of length 1-2 over {a,0x00,0xff} x all texts up to length 4; all sets of <=3 (4) of 39 strings in several insertion orders and added later; reuse of the buffer; tokens up to 1000000 bytes on a 2 MiB stack; up to 300000 numbered tokens"),
    "C11": dict(kind="vseq", assumptions=SEQ + ["floating-point results are compared with relative tolerance 1e-9"], bounds="all 4096 sets of tokens of length 2-3 over {a,b} + bytes x 6 score families x all sentences up to length 6 (8), n in {0,1,2,3,4,7,16,1000}, marginals, against the list of all segmentations; sets of 2-3 tokens over three byte values; every ordered pair of sentences up to length 4 (5) on one lattice with 5 kinds of prior use; sentences up to 400 (1000) bytes with n up to 1500 against dynamic programming; sentences up to 1000000 bytes with exactly representable scores, on a 2 MiB stack"),
    "C12": dict(kind="vseq", also=["vreal"], aux="unicode", assumptions=SEQ + FORM, bounds="every assigned scalar under the four forms; every decomposable character or mark with 9 followers/predecessors, Hangul syllables with 7 followers, all sequences of 2-3 of 40 critical characters; crlf on all texts up to length 8 (10) over CR, LF, a, é and sizes to 100 kB; all 156 processor lists of length <=3 on all texts of <=3 (4) of 9 pieces, with special tokens around; runs of up to 70000 marks and periodic texts to 1 MiB in every alignment, against the reference forms"),
    "C17": dict(kind="vcli", also=["vreal"], assumptions=SEQ, bounds="all vocabularies of <=5 (6) tokens over three scores and keep marks x every size limit x 10 minima x force; extreme scores; arrangements of up to 257 (1000) tokens with every size limit; chains of two filters"),
    "C20": dict(kind="vcli", needs=["cli"], assumptions=SEQ, bounds="all documented examples; every named pattern against a hand-written description on all texts of <=3 of 34 characters, <=4 (5) of 13, operators <=4 of 21, 5-7 (8) of 6, and every Unicode scalar alone and after a letter or space; unions of all pairs of 59 named and custom patterns and triples of 8, all names at once; names in another case or spelling must be refused or mean a pattern of their own; data/exact.regex against the documented list; file round trips of 120 lists through the real `regex` and `generate` commands on all texts of <=3 of 15 characters; up to 1025 patterns at once, in process and through the command; the listing of `regex`"),
    "C09": dict(kind="vsched", assumptions=SEQ + SCHED, bounds="every batch of <=3 (4) out of 8 items (failing, empty, special tokens, equal lengths) on 2-3 threads with every division of the work and <=2 preemptions; batches of every size up to 17 (40) and 34 sizes up to 5000 on 1-8 threads with the failing item at every (selected) place and up to 400 (12) divisions of the work (fewest departures first); dropout with equal draws; 2 (3) concurrent callers with <=3 preemptions; batches of up to 100000 items and items of up to 1.1 MB"),
    "C13": dict(kind="vsched", also=["vreal"], assumptions=SEQ + RNG + SCHED, bounds='generation: all corpora of one text of <=3 and two texts of <=2 of {a,b,é,space}, all triples (thorough 4) of four words, texts with realistic source code on up to 100 samples x 9+ settings (allow patterns, maximum lengths, added and suggested tokens) x all target sizes around every cut (no ties broken) x every division into feed calls, on 1-8 threads; every outcome of the insertion draws (<=8192 per corpus) at three probabilities; counts past 2^16 and numbers of candidates past 2^17; option values of the real command; all schedules of 2-3 threads with <=1 preemption'),
    "C18": dict(kind="vsched", also=["vreal"], assumptions=SEQ + SCHED, bounds='every text of 2..6 (8) letters over {a,b} and of 2..4 (5) over {a,é,space}, all pairs and triples of 5 words x all starting vocabularies of a list x allow patterns x maximum lengths x numbers to merge x steps x scale factors; runs with ties at the cut are checked as sets of admissible choices; every number of samples 0..24 (80) on 1-8 threads with <=1 preemption; three rounds over all pairs of words of <=4 letters; vocabularies of up to 140000 (300000) tokens; option values of the real command'),
    "C19": dict(kind="vsched", also=["vreal"], assumptions=SEQ + SCHED, bounds='every pattern of a list of 10+ (with a hand-written matcher each) on every text of <=5 (7) of {a,b,é}, all pairs of texts of <=3 letters, all triples (up to 5) of four words x n from 0 past the number of idioms; every number of samples up to 48 (200), 333, 1000 on 1-8 threads; all schedules of 2-3 threads with <=2 preemptions (capped at 2500 / 100000 executions); counts and numbers of distinct matches past 2^16; option values of the real command'),
    "C24": dict(kind="vsched", also=["vreal"], assumptions=SEQ + RNG + SCHED, bounds='the progress protocol with 0-4 (6) samples, 1-3 workers and the reporter: all schedules with <=3,2,1 (4,3,2) preemptions; merging, pruning, generating and mining 0-3 (5) samples on 1-3 (4) threads together with their reporters under the scheduler; every number of samples 0..40 (130) on 1-16 threads; up to 140000 (200000) samples in the protocol, 20000 in merging and pruning, and 16385 (140000) through the real commands'),
    "C16": dict(kind="vsched", also=["vreal"], assumptions=SEQ + RNG + SCHED, bounds='every choice of <=3 (5) multi-byte tokens over {a,b} x 2 (3) score families x 3 keep-mark assignments x 6 corpora x 3 (all) target sizes x 7 settings of sub-iterations (0,1,2,5) and shrink factor, and larger vocabularies with multi-byte characters over 1-100 samples, against a brute-force implementation over all segmentations; comparisons closer than 1e-9 to a tie are skipped and counted'),
    "C15": dict(kind="vsched", also=["vreal"], assumptions=SEQ + RNG + SCHED, bounds='vocabularies over {a,b} with every choice of <=3 (4) multi-byte tokens x 5 score families x 4 keep-mark assignments x every second (every) target size from 0 to past the end x 5 settings of sub-iterations, shrink factor and dropout x 4 (7) corpora incl. none; every outcome of the dropout draws (capped at 300 / 20000 per setting); 256 bytes and ~400 words at realistic settings on 1 and 8 threads; vocabularies of up to 140000 (300000) tokens; option values of the real command'),
    "C14": dict(kind="vsched", also=["vreal"], assumptions=SEQ + RNG + SCHED, bounds='generate, mine, merge and prune over 5 corpora of 2-5 samples: all schedules of 2 threads with <=2 preemptions and 3 threads with <=1 (capped, see caps_hit), against the sequential reference; every number of samples 0..26 (90) and 97-333 on 1-16 threads with at most 1 preemption and with all or no work handed over'),
    "C21": dict(kind="cli", needs=["cli"], deadline_thorough=840, assumptions=CLI, bounds="all file contents up to 5 (7) of {NUL, x, y} x 16 proportions; 0..41 (139), 100, 255-257, 1000 samples x 35 proportions x 3 paddings; separators and 2-4 byte characters at every offset -3..2 from 2^6..2^17 (2^21); every content up to 4 (5) as the only file of mine, generate, merge and prune; all pairs and triples of 8 sources; all processor lists up to 2 (3); 10 kinds of bad sources at every place among <=2 good ones; all byte strings of <=3 (4) of 7 pieces that are not UTF-8; up to 1100 sources at once"),
    "C22": dict(kind="cli", needs=["cli", "py"], case_secs=300, deadline_thorough=840, assumptions=CLI + ["the outputs are loaded and used through the Python extension built from the same tree"], bounds="7 ways of generating (special tokens, processors, listed tokens, patterns) followed by every chain of 3 (4) out of 11 (14) prune/filter/merge commands, states merged when special tokens, processors, tokens, marks and scores (5 digits) agree; every command in place; 19 failing commands from every start"),
    "C23": dict(kind="pyext", needs=["py"], deadline_thorough=840, assumptions=CLI, bounds="8 tokenizers (byte-complete or not, empty, special tokens overlapping base tokens, all processors) x every history of <=2 (3), on two (one) of them 3 (4), out of 15 steps (additions, save/load, to_string/from_str, pickle protocols 2 and 5, copy, deepcopy, getstate/setstate, failing calls, copies that both change), every method observed after each; every text of <=4 (5) of 7 pieces with dropout 0 and 1; every id list of <=3 (4); each history also observed between its steps; keyword arguments as documented; unpickling in another process; 1-4 Python threads; every proper prefix of a file and 24 damaged files"),
}

RUST = ("vseq", "vcli", "vsched", "vreal")
AUX = {"unicode": props_aux.unicode_table}
NOT = {}
