#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json
TECH="deterministic simulation with fault injection: seeded search over "
NOTE=("Seeded exploration, not exhaustive: %s All of hash-roll runs as real code through its public API; storage, delivery, "
      "scheduler and consumers are simulated. Every violation is minimised and replayed from its file before it is reported.")
C={
"C01":("delivery schedules and reader faults of the resumable search, compared with whole-buffer delivery","Compares every disturbed session with an undisturbed one over the same bytes."),
"C02":("fragmentations and reader faults of the incremental interface, compared with a whole-slice feed","Compares every disturbed session with an undisturbed one over the same bytes."),
"C03":("independent delivery schedules of every interface over one object, compared with each other","One FastCDC disagreement is a known finding; the FastCDC boundaries it predicts are still checked exactly."),
"C04":("consumer cancellation, resumption and segmentation of the slice iterators, checked for exact tiling and real boundaries","Slices are checked by address and content against the segment."),
"C05":("schedules and fault mixes of every interface, each call checked as it returns","Panics, ranges, order, discard, re-poll, progress, and a watchdog for calls that do not return."),
"C06":("crash instants, lost log tails and restart points, compared with the uninterrupted run","Only the boundary log survives a crash."),
"C07":("snapshot, rollback, copy, drop and inspection instants, compared with the undisturbed run","mii, zpaq and zstd state cannot be copied; inspection is injected there."),
"C08":("interleavings, thread migration, nested calls from the byte-hash callback, callback panics and abandonment of many sessions, compared with solo runs and another process","Worker threads run one at a time under the scheduler, so data races inside one call are out of reach (the library has no unsafe code or shared mutable state)."),
"C09":("storage faults (flips, losses, duplications, insertions) and delivery faults of two copies of an object, compared position by position","Decisions are compared wherever the property requires agreement."),
"C10":("trigger-starved and trigger-dense objects, delivery faults and restarts, every completed and open chunk measured","Limits are computed from the configuration independently of the library."),
"C11":("long deliveries into a minimal ring buffer with allocation accounting","Heap bytes held across calls are measured by the harness's global allocator."),
"C12":("truncation instants: the boundaries known at every quiescent point compared with those of the full object","Every quiescent point of every session is compared."),
"C13":("delivery, crash and restart histories refined against from-scratch models of bup, gzip, pigz, gear, buzhash and zstd","The models are non-rolling definitions written from the published algorithms and the crate's documentation."),
"C14":("delivery, crash and restart histories refined against from-scratch models of FastCDC, RAM, MII and zpaq","The models are definitions over the open chunk."),
"C16":("the same delivery, crash and restart schedules for a chunker from a convenience constructor and from its spelled-out parameters, compared with each other and with the documented rule","Parameters are observed through the boundaries they produce, over many seeded streams; constructor arguments are generated over their valid range."),
"C18":("pairs of histories (crashes, resets, empty reads, different prefixes, instances differing in one parameter) whose states compare equal, both driven on with the same bytes under one schedule","A pair is judged only when the library itself says it is equal; how many equal pairs were reached is in the evidence."),
}
NA={
"C15":"A statement about the distribution of random input (mean chunk length); it depends on no schedule, fault, crash or history, so there is nothing for a simulator to drive and a finite sample decides nothing exactly.",
"C17":"Pure functions of a range and a value: no state, time, I/O, concurrency or history for a simulator to vary.",
}
m=dict(version=1,setup_cmd="./check.sh build",
 checks=[dict(property=k,quick_cmd=f"./check.sh {k}",thorough_cmd=f"./check.sh {k} --tier thorough",technique=TECH+t,level="exploration",level_note=NOTE%n) for k,(t,n) in C.items()],
 not_applicable=[dict(property=k,reason=r) for k,r in NA.items()],
 notes="No hooks in /repo: the library's public API is the seam. Defects repaired in /repo and the known finding are listed in known-findings.txt.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
