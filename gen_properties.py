#!/usr/bin/env python3
"""Source of properties.jsonl (kept as data so the statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
ALL=["src/lib.rs","src/bup.rs","src/buzhash.rs","src/fastcdc.rs","src/gear.rs","src/gzip.rs","src/mii.rs","src/pigz.rs","src/ram.rs","src/zpaq.rs","src/zstd.rs"]
FCE="Chunk::find_chunk_edge return values (cut index, discard count)"
PUSH="ChunkIncr::push return values"
SL="ChunkIncr::iter_slices / iter_slices_strict items, take_rem, into_parts"

p("C01","Resumable search: boundaries do not depend on how data arrives",
 "For every chunker and configuration, the sequence of boundaries that the resumable whole-buffer search (Chunk::find_chunk_edge) reports for a stream depends only on the stream's bytes. It does not depend on how many bytes each call adds to the buffer, on calls that add none, on whether pending boundaries are drained before more data is appended, or on where the discarded prefix lets the caller trim the buffer.",
 ["schedules","inputs","configurations"],
 "all byte streams x all chunker configurations x all sequences of buffer growth, spurious re-polls and drains that respect the discard contract",
 "cuts_qc.rs samples one mostly default configuration per chunker on streams too short for most chunkers to cut more than once or twice (zstd never cuts there), always with growing buffers of at least one byte; cuts.rs uses one fixed stream.",
 ALL,[("per-algorithm search state carries hash/offset/count between calls","src/*.rs impl Chunk"),("look-back window kept by discard count","src/bup.rs, src/buzhash.rs, src/gzip.rs, src/zstd.rs find_chunk_edge")],[FCE],
 [("offset","first unexamined byte of the next buffer","*SearchState"),("state","rolling hash of the open chunk","*SearchState")])
p("C02","Incremental input: boundaries do not depend on how data is fragmented",
 "For every chunker and configuration, feeding a stream to the incremental interface (ChunkIncr::push), re-feeding after each reported boundary the bytes that follow it, yields the same absolute boundaries for every fragmentation of the stream. Empty fragments, single-byte fragments, fragments ending exactly on a boundary and arbitrarily large fragments make no difference.",
 ["schedules","inputs","configurations"],
 "all byte streams x all chunker configurations x all fragmentations, including empty fragments",
 "No test varies fragmentation of the incremental interface: cuts.rs feeds byte-by-byte and ignores the returned index, other tests feed one whole slice.",
 ALL,[("incremental state and internal window buffers","src/*.rs impl ChunkIncr")],[PUSH],
 [("window/buf","ring of the last window bytes","RollSumIncr, BuzHashIncr, GzipRsyncableIncr, ZstdIncr"),("l/i/idx/input_idx","bytes since last boundary","FastCdcState, RamState, ZpaqIncr, BuzHashIncr")])
p("C03","All interfaces of one chunker report the same boundaries",
 "For one configured chunker and one stream, the resumable search, the incremental interface and both slice iterators place every boundary at the same absolute offset, whatever the delivery history of each. Where the state of a live incremental session converts into search state, the search goes on from there with the same boundaries.",
 ["schedules","inputs","configurations"],
 "all streams x configurations x pairs of delivery histories, one per interface",
 "cuts.rs compares interfaces on a single 32 KiB stream per chunker and discards the index the incremental interface returns; cuts_qc.rs lists this comparison as a goal but never makes it.",
 ALL,[("search and incremental implementations share or mirror the same state machine","src/*.rs"),("slice iterators split at the index returned by push","src/lib.rs IterSlices, IterSlicesStrict")],[FCE,PUSH,SL])
p("C04","Slice iterators tile the input, also when cancelled and resumed",
 "The slices produced by either slice iterator are consecutive, non-empty (except that FastCDC, which may decide a boundary with the byte after it, may begin a further segment with an empty slice when the boundary is exactly where the segments meet), and together with the remainder obtained afterwards cover the given data exactly once, in order, with nothing lost, duplicated or altered. This also holds when the consumer abandons the iterator after any number of items and resumes with the chunker and remainder it got back, or goes on with a further segment of the same stream; every slice of the strict iterator ends on a boundary. An exhausted iterator stays exhausted, and asking it again changes nothing.",
 ["schedules","inputs","histories","configurations"],
 "all streams and segmentations x all points at which a consumer stops, takes the parts back, and resumes x all chunkers",
 "No existing test calls iter_slices_strict, into_parts or take_rem, and iter_slices is only used by a test that is compiled out.",
 ["src/lib.rs"]+ALL[1:],[("split_at the index returned by push","src/lib.rs IterSlices::next, IterSlicesStrict::next"),("into_parts / take_rem hand back chunker and remainder","src/lib.rs")],[SL])
p("C05","Every call is well-formed and every stream terminates with progress",
 "For any delivery history over any valid configuration, no call panics or fails to return, every returned index and discard count lies within the slice passed to that call, a discard never passes the boundary reported with it, and successive boundaries are strictly increasing, so no chunk is empty. A call that supplies no new byte after a call that found no boundary reports no boundary and discards nothing further, and draining a finite stream takes at most one boundary per byte.",
 ["schedules","inputs","configurations","fault_sequences"],
 "all streams x valid configurations x delivery histories with empty deliveries, re-polls, short and huge reads, end of stream",
 "Tests follow returned indexes on a few streams with default parameters; an out-of-range index, an empty chunk or a livelock needs particular parameters or a buffer ending on a particular byte.",
 ALL,[("index arithmetic of cut and discard","src/*.rs find_chunk_edge and push")],[FCE,PUSH,SL])
p("C06","Crash and restart from a recorded boundary reproduces the remaining cuts",
 "If chunking of a stream is interrupted at any instant and all in-memory chunker state is lost, starting a fresh chunker of the same configuration at any previously reported boundary reports exactly the boundaries after that point that the uninterrupted run reports. For zstd, the only chunker whose state spans chunks, this holds when the fresh chunker is started 32 bytes before that boundary.",
 ["crash_points","schedules","inputs","configurations"],
 "all crash instants x any number of repeated crashes x any already reported boundary as restart point x streams x configurations x both interfaces",
 "No test restarts a chunker; leaking state across a boundary (or an incomplete reset) is only visible when another boundary trigger falls within the leaked context after the cut.",
 ALL,[("state reset on boundary","reset() in src/*.rs, at every return of a boundary"),("zstd keeps only the last 32 bytes","src/zstd.rs RSYNC_LENGTH")],[FCE,PUSH])
p("C07","Snapshots of chunker state resume exactly and independently",
 "Where a chunker's state can be copied, a copy taken at any instant continues, with any later fragmentation of the remaining stream, to exactly the boundaries the original would report. Taking, using or dropping copies, and inspecting state with Debug formatting, never changes what the original reports.",
 ["crash_points","schedules","histories","inputs","configurations"],
 "all snapshot instants x all rollbacks to any earlier snapshot x streams x configurations of chunkers with copyable state",
 "No test clones a search state or incremental chunker mid-stream.",
 [f for f in ALL if f not in("src/mii.rs","src/zpaq.rs","src/zstd.rs")],[("derived Clone over all mutable fields, including boxed windows","src/*.rs state structs")],[FCE,PUSH])
p("C08","Concurrent streams are isolated and results are reproducible",
 "Any number of streams chunked at once from shared or separate configured instances, with their calls interleaved in any order, moved between threads, or nested inside or aborted (by a panic) from a user-supplied byte-hash callback, each get exactly the boundaries they get when chunked alone. Starting, abandoning or dropping other streams or instances has no effect, and repeating a run in another process gives the same results.",
 ["schedules","histories","configurations","fault_sequences"],
 "all interleavings of calls of many streams over shared instances x worker-thread assignment x callback re-entry and panics x abandoned streams",
 "Every test runs one stream at a time on one thread and drops its chunker afterwards.",
 ALL,[("configured instances are immutable, all mutable state is per stream","src/lib.rs Chunk, ToChunkIncr; impls"),("user callback invoked mid-update","src/buzhash.rs BuzHashHash::hash")],[FCE,PUSH,SL])
p("C09","Boundaries re-synchronise after a local corruption, insertion or deletion",
 "If two streams differ only by a local edit, then past the edit: for the windowed chunkers (bup, gzip, pigz, buzhash without a size limit, gear, mii; windows: configured length or k, pigz bit count, 32 bytes, w+1 bytes) the two make the same decision at every position where the edit and the latest boundary of each stream lie at least one window back, and zstd does at every position more than 32 bytes past the edit. For every chunker, once both place a boundary at the same position past the edit (for zstd, 32 bytes past it) all later boundaries coincide.",
 ["fault_sequences","inputs","configurations","schedules"],
 "all streams x sequences of flipped, lost, duplicated or inserted byte ranges x delivery histories of both copies x configurations",
 "The only test on this (rsyncable.rs) is compiled out; existing tests never compare two related streams.",
 ALL,[("window removal cancels each byte exactly once it leaves the window","src/bup.rs RollSumState::add, src/buzhash.rs add_overflow, src/gzip.rs, src/zstd.rs rotate"),("shift-out of old bytes","src/gear.rs, src/pigz.rs")],[FCE,PUSH])
p("C10","Configured chunk size limits hold under every delivery and restart",
 "Every completed chunk respects the configured limits, through every interface and delivery history: FastCDC (min <= normal <= max) chunks are at least min and at most max bytes; zpaq chunk lengths lie inside the configured range (by default 4 KiB to 508 KiB, as documented); RAM chunks are at least the window size; buzhash forces a boundary on the first byte past its maximum. A stream never holds an open chunk longer than the maximum without a boundary being reported, and a restart at a boundary does not change this.",
 ["schedules","inputs","configurations","crash_points"],
 "all streams, in particular with no natural trigger for longer than the maximum or with triggers right after the minimum x range forms (inclusive, exclusive, one-sided) x delivery histories x crashes",
 "Tests never reach the maximum: their streams are shorter than it, and none checks lengths near the minimum.",
 ["src/fastcdc.rs","src/zpaq.rs","src/buzhash.rs","src/ram.rs","src/range.rs"],[("size counters since last boundary","FastCdcState::push, Zpaq::split_here, BuzHash*::push/find_chunk_edge, RamState::push"),("range bound tests","src/range.rs under_min / exceeds_max")],[FCE,PUSH,SL])
p("C11","Memory and carry-over stay bounded however long the stream runs",
 "When a search call finds no boundary, the part of the buffer the caller must keep is never larger than the chunker's look-back window (bup, gzip and buzhash: the configured window; zstd: 32 bytes; all others: nothing), so a caller with a buffer one byte larger always makes progress. The memory held by a search state or incremental chunker stays below a bound fixed by its configuration, whatever the length of the stream and the number of boundaries.",
 ["schedules","histories","inputs","configurations"],
 "all stream lengths and delivery histories, including single-byte delivery into a minimal buffer and long stretches with no boundary, x configurations",
 "Nothing measures retained bytes or memory, and streams in tests are short.",
 ALL,[("discard count = len - window","src/bup.rs, src/buzhash.rs, src/gzip.rs, src/zstd.rs"),("fixed-size windows in incremental chunkers","RollSumIncr, BuzHashIncr, GzipRsyncableIncr, ZstdIncr")],[FCE,"heap bytes held across calls"])
p("C12","Boundaries are prompt and final at every truncation point",
 "At every instant, once the data delivered so far has been drained, the boundaries reported are exactly those of the full stream whose deciding byte has been delivered: the byte before the boundary, or the byte after it for FastCDC's incremental interface. Hence a stream cut short at any point yields a prefix of the full stream's boundaries, later data never adds a boundary earlier than one already reported, and none is reported late.",
 ["crash_points","schedules","inputs","configurations"],
 "all truncation points x streams x configurations x delivery histories before the truncation",
 "Tests only look at the final list of boundaries of complete streams, never at when each became known nor at what a torn stream reports.",
 ALL,[("decision made byte by byte with no look-ahead","src/*.rs inner loops"),("FastCDC early return on short input","src/fastcdc.rs FastCdcState::push")],[FCE,PUSH])
p("C13","Windowed chunkers refine their published trigger rule on live streams",
 "Under every delivery, crash and restart history, bup, gzip, pigz, gear, buzhash and zstd report a boundary exactly where the trigger rule of their published algorithm, evaluated from scratch over the last window of the open chunk (zstd: of the whole stream), holds with the configured parameters. bup's public digest always equals the rollsum of the last window of bytes rolled or pushed into the open chunk.",
 ["inputs","schedules","configurations","crash_points"],
 "all streams x parameters (window lengths, masks, moduli, bit counts, hash tables, salts) x delivery, crash and restart histories",
 "Fixed expected lists cover one or two streams per chunker with default parameters (window 64, k 67, 12 bits, ...); only bup has an oracle, at its default window and without following more than short inputs.",
 ["src/bup.rs","src/gzip.rs","src/pigz.rs","src/gear.rs","src/buzhash.rs","src/zstd.rs","src/buzhash_table.rs","src/gear_table/gear32.rs"],[("rolling update equals windowed definition","RollSumState::add, BuzHashState, GzipRsyncableState::add, ZstdState::rotate, PigzRsyncableState::add, GearState32::push")],[FCE,PUSH,"RollSumIncr::digest / at_split"])
p("C14","Chunk-scoped chunkers refine their published cut rule on live streams",
 "Under every delivery, crash and restart history, FastCDC, RAM, MII and zpaq report a boundary exactly where their published rule, evaluated from scratch over the open chunk with the configured parameters, holds: FastCDC's two-mask gear rule with minimum skip and maximum, RAM's byte not smaller than the maximum seen once the window is exceeded, MII's w consecutive increases, zpaq's order-1 predictive hash below its threshold inside the size range.",
 ["inputs","schedules","configurations","crash_points"],
 "all streams x parameters x delivery, crash and restart histories",
 "FastCDC's oracle checks only the first boundary of one whole-buffer push at default sizes; MII, RAM and zpaq have one or two fixed expected lists.",
 ["src/fastcdc.rs","src/ram.rs","src/mii.rs","src/zpaq.rs","src/gear_table/gear64.rs"],[("FastCdcState::push two-phase loop","src/fastcdc.rs"),("RamState::push","src/ram.rs"),("MiiIncr::push","src/mii.rs"),("ZpaqHash::feed, Zpaq::split_here","src/zpaq.rs")],[FCE,PUSH])
p("C15","Average chunk size follows the configured target",
 "On uniformly random data the mean chunk length tends to the value the configuration promises (2^n for gear, bup, zpaq, zstd; a quarter of the maximum for the go-dedup style zpaq constructors).",
 ["inputs","configurations"],"the distribution of random inputs x configurations",
 "Statistical statement over the input distribution; no test measures it.",
 ["src/gear.rs","src/zpaq.rs","src/zstd.rs","src/bup.rs"],[("mask / threshold derivation","msb_mask, max_hash_from_fragment_ave, hit_mask")],["mean chunk length"])
p("C16","Constructors derive their parameters as documented",
 "A chunker obtained from a convenience constructor or as a default (zpaq from an average, a range or a maximum; gear from a log2 size; pigz from a number of mask bits; zstd from a section size; every Default) chunks every stream, under every delivery and through every interface, exactly as one whose documented parameters are spelled out. For zpaq the average is the largest power of two not above a quarter of the maximum (64 times the minimum standing in for an unbounded maximum; 2^16 when both ends are unbounded), and the chunk limits are those of the given or derived range.",
 ["configurations","inputs","schedules"],
 "all valid constructor arguments x all streams x delivery histories",
 "Only zstd's default and three gear masks are tested; a parameter off by a factor shows only in where long streams are cut.",
 ["src/zpaq.rs","src/gear.rs","src/pigz.rs","src/zstd.rs","src/fastcdc.rs","src/bup.rs","src/gzip.rs","src/buzhash.rs"],[("parameter arithmetic","constructors, Default impls, src/zpaq.rs average_size_pow_2 / fragment derivation")],[FCE,PUSH,SL])
p("C17","Range helpers agree with standard range semantics",
 "For every range form and value, the range helper trait's containment, below-minimum and above-maximum tests agree with the standard library's bounds semantics, and exactly one of below, inside, above holds for non-empty ranges.",
 ["inputs"],"all bounds and items","Only a doc example runs.",
 ["src/range.rs"],[("RangeExt","src/range.rs")],["returned booleans"])
p("C18","States and instances that compare equal are interchangeable",
 "Where chunker states, incremental chunkers or configured instances can be compared, two that compare equal are interchangeable: from then on, given the same bytes (for searches, under equal instances and equal retained bytes) they report exactly the same boundaries for every continuation and fragmentation, whatever the two went through before. Comparing is reflexive and symmetric, a fresh copy equals its original, and comparing changes nothing.",
 ["histories","schedules","inputs","configurations"],
 "all pairs of histories that end in states comparing equal x continuations x fragmentations x configurations that differ in any parameter",
 "No test compares two states or instances; a comparison that leaves out a field is right for nearly every pair and only wrong for pairs with different pasts or one differing parameter.",
 [f for f in ALL if f not in("src/lib.rs",)],[("derived or hand-written PartialEq over all behaviour-relevant fields","src/*.rs impl/derive PartialEq")],["== between states, incremental chunkers, instances",FCE,PUSH])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
