#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None),
                  _t=technique, _n=note))

GO = ["sha1cd.go", "sha1cdblock_generic.go", "sha1cdblock_amd64.go", "sha1cdblock_amd64.s", "sha1cdblock_arm64.go", "sha1cdblock_arm64.s", "sha1cdblock_noasm.go", "detection.go", "ubc/ubc.go", "ubc/const.go", "internal/const.go"]
C = ["cgo/sha1.c", "cgo/sha1.h", "cgo/sha1.go", "cgo/ubc_check.c", "cgo/ubc_check.go", "cgo/ubc_check.h", "cgo/fallback_no_cgo.go"]
T = "Trace monitor: every API call's result, recorded at the client boundary, compared with an independent executable reference model; "
N = "Held on the executions observed, not proved. Trusts the reference model in src/ref (FIPS 180 SHA-1 cross-checked with crypto/sha1; disturbance vectors derived from their definition), the Go and C toolchains and qemu."

prop("C01", "Inputs carrying no collision attack hash exactly as SHA-1 and are never flagged",
 "For every byte string that does not contain a block matching one of the listed attack patterns, Sum and the streaming hash return exactly the FIPS 180-4 SHA-1 digest and report no collision. This holds for every message length and for blocks that satisfy an attack's bit conditions without being an attack (near misses).",
 ["inputs"], "all messages without an attack block, all lengths, in the Go and in the C-backed package",
 "The tests hash a few dozen strings and five files; nothing exercises all residues of the length, blocks that pass the bit conditions and must be recompressed yet not flagged, or megabyte-long single writes.",
 GO + C, [("block compression", "sha1cdblock_generic.go:blockGeneric, sha1cdblock_amd64.s, sha1cdblock_arm64.s, cgo/sha1.c"), ("padding", "sha1cd.go:checkSum, cgo/sha1.c:SHA1DCFinal")],
 ["Sum", "Write/Sum", "CollisionResistantSum"],
 T + "generated clean messages, near-miss attack blocks, bulk and fragmented writes on native, noasm, emulated amd64-SHA-NI, arm64, 386 and big-endian builds", N)

prop("C02", "Known collision attacks are always flagged and get a safe digest",
 "Whenever a message contains the published collision blocks of SHAttered or of the SHAmbles chosen-prefix collision in their chaining-value context, whichever way it is split into writes and whatever follows them, the result is flagged and the digest is the hardened one (the attack block is compressed two more times), so that the two members of the colliding pair get different digests. Changing bits of the attack so that it stops being one yields the plain, unflagged SHA-1.",
 ["inputs", "histories"], "all suffixes, fragmentations, saved/restored intermediate states and reuses around the published attack blocks",
 "The tests hash four fixed files in one pattern of writes each; they compare a fixed digest, not the relation for every continuation, fragmentation or resumed state.",
 GO + C, [("collision check per block", "sha1cdblock_generic.go:checkCollision, detection.go:hasCollided, cgo/sha1.c:sha1_process"), ("safe hash", "sha1cdblock_generic.go (two extra rounds), cgo/sha1.c")],
 ["CollisionResistantSum", "Sum"],
 T + "attack prefixes continued, split, resumed and bit-flipped at random in 7 build configurations", N)

prop("C03", "Every listed disturbance vector is checked, exactly",
 "For each of the 32 published disturbance vectors, in the Go and in the C-backed hash: a block whose partner under that vector's message differences leads to the same chaining value is flagged and hardened, at any position, and a block for which no vector does so is not flagged. The vectors' type, position, message differences and starting step are those of the published counter-cryptanalysis.",
 ["inputs"], "all blocks, all 32 vectors, all chaining values",
 "Only the vectors used by the two published attacks occur in test data, so 30 of the 32 can be broken without any test noticing.",
 ["detection.go", "sha1cdblock_generic.go", "sha1cdblock_amd64.go", "sha1cdblock_arm64.go", "ubc/const.go", "cgo/sha1.c", "cgo/ubc_check.c"],
 [("recompression", "detection.go:hasCollided, cgo/sha1.c:sha1_recompression_step"), ("table", "ubc/const.go, cgo/ubc_check.c")],
 ["CollisionResistantSum", "ubc.SHA1_dvs"],
 "Fault injection and trace monitor: the run-time disturbance-vector table is given synthetic differences for which a partner collision is known to exist or not, and each verdict and digest is compared with the reference model; the table itself is compared with the vectors derived from their definition",
 N + " Real collisions for the other 30 vectors are unknown; local (zero-difference and computed-difference) collisions stand in for them and exercise the same code with every vector's own starting step and mask bit.")

prop("C04", "The unavoidable-bit-condition mask is exact",
 "For every expanded message, the bit-condition check (Go and C-backed) reports exactly the vectors all of whose published unavoidable bit conditions the message satisfies: no bit too few (an attack would go unchecked) and none too many.",
 ["inputs"], "all expanded messages (80 words), all 32 bits of the mask, both implementations",
 "Tests compare a handful of masks; each bit depends on 3 to 14 two-bit relations in different words, and a wrong one only shows on messages satisfying all the others.",
 ["ubc/ubc.go", "cgo/ubc_check.c", "cgo/ubc_check.go", "cgo/fallback_no_cgo.go"], [("CalculateDvMask", "ubc/ubc.go, cgo/ubc_check.c:ubc_check")], ["ubc.CalculateDvMask", "cgo.CalculateDvMask"],
 T + "messages constructed by linear algebra over GF(2) to satisfy all, all but one, or random subsets of each vector's conditions", N)

prop("C05", "All implementations and build configurations agree",
 "For the same sequence of calls, the pure Go code, the assembly-accelerated code, the C-backed package and its fallback give identical digests, collision verdicts, masks, saved states and errors, on every supported architecture, word size and byte order, with and without cgo and with any compiler optimisation level.",
 ["inputs", "histories", "configurations"], "all call sequences, all build configurations",
 "The test suite runs one configuration at a time on a few inputs, and never on 32-bit or big-endian targets, clang, or without cgo.",
 GO + C, [("build-tagged block functions", "sha1cdblock_*.go"), ("C library and fallback", "cgo/")], ["all exported functions"],
 T + "one workload executed in 10 (thorough: 29) build configurations, each judged against the same model, hence mutually equal", N)

prop("C06", "Digests depend only on the bytes written, not on how or when they are observed",
 "For every history of writes of any sizes, the digest and verdict are those of the concatenated bytes in one call; Sum, CollisionResistantSum, Size and BlockSize never change the hash they are called on, append to the given prefix without altering it, can be called any number of times at any point, and Write always consumes everything and returns no error. Distinct hash objects never influence each other.",
 ["histories", "inputs"], "all interleavings of writes and observers on several objects, all fragmentations",
 "Tests split one or two messages in two and call Sum once or twice; the state space of buffered bytes, position and pending collision is not covered.",
 ["sha1cd.go", "cgo/sha1.go", "cgo/sha1.c"], [("buffering", "sha1cd.go:Write, cgo/sha1.c:SHA1DCUpdate"), ("copy before finalising", "sha1cd.go:Sum, cgo/sha1.go:Sum")], ["Write", "Sum", "CollisionResistantSum", "Size", "BlockSize"],
 T + "random histories over several live objects, with caller buffers overwritten after each call and prefixes placed in roomy, tight and guarded memory", N,
 [dict(name="digest buffer", meaning="bytes of the incomplete block", where="sha1cd.go:digest.x,nx,len")])

prop("C07", "The collision verdict is sticky until Reset, and Reset forgets everything",
 "Once a hash has absorbed an attack block it stays flagged, through any further writes, sums and observations, until Reset (or until another state is loaded into it); a hash that has been Reset behaves exactly like a new one whatever happened before, and a new hash is never flagged.",
 ["histories"], "all sequences of write, sum, reset, save and load, including collisions discovered only while padding is processed",
 "No test reuses a hash after a collision, resets in the middle of a block after one, or observes twice around one.",
 ["sha1cd.go", "cgo/sha1.go", "cgo/sha1.c"], [("flag", "sha1cd.go:digest.col; cgo/sha1.c:found_collision"), ("Reset", "sha1cd.go:Reset, cgo/sha1.go:Reset, cgo/sha1.c:SHA1DCInit")], ["Reset", "CollisionResistantSum", "New"],
 T + "life-cycle histories mixing attack blocks, resets, restores and observers", N,
 [dict(name="collision flag", meaning="an attack block was absorbed", where="sha1cd.go:digest.col")])

prop("C08", "A saved state resumes exactly, verdict included, on any machine",
 "Saving a hash at any point and loading the state into any hash, possibly in another process, build or architecture, continues exactly as the original would have: same digests, same collision verdict, same later saved states. Saving does not disturb the hash, saved states are independent of each other, and equal histories give byte-identical states everywhere.",
 ["histories", "configurations"], "all save points, all histories before and after, all targets to load into, all architectures",
 "Tests save once at the middle of short strings, on one architecture, and never after a collision.",
 ["sha1cd.go"], [("MarshalBinary/UnmarshalBinary", "sha1cd.go")], ["MarshalBinary", "UnmarshalBinary"],
 T + "histories with saves and restores at every position, into fresh, dirty and flagged hashes, with expected state bytes fixed by the model on little- and big-endian, 32- and 64-bit builds", N)

prop("C09", "Malformed saved states are rejected without effect and never crash",
 "Loading a byte string of the wrong length or with a wrong identifier returns an error and leaves the hash exactly as it was; loading any well-formed string succeeds, never panics or reads outside its buffer, and leaves the hash usable whatever the string holds.",
 ["inputs", "histories"], "all byte strings, at all points of a hash's life",
 "Tests load a few truncated states into fresh hashes and look only at the error.",
 ["sha1cd.go"], [("validation", "sha1cd.go:UnmarshalBinary")], ["UnmarshalBinary"],
 T + "truncated, extended, bit-flipped and random states loaded between writes, followed by observation of the untouched hash", N)

prop("C10", "Independent hashes can be used concurrently without interference or data races",
 "Any number of goroutines or threads using their own hashes, calling the package-level functions, or only observing (Sum, CollisionResistantSum, Size, MarshalBinary) one shared hash obtain the same results as sequentially, with no data race, in the Go and in the C-backed package, including the very first calls in the process.",
 ["schedules"], "all schedules of concurrent users on any number of CPUs",
 "No test runs anything in parallel, so hidden shared scratch state or lazily built tables would go unnoticed.",
 GO + C, [("no package-level mutable state", "sha1cd.go, ubc/, cgo/"), ("copy before finalising", "sha1cd.go:Sum, cgo/sha1.go:Sum")], ["all exported functions"],
 "Go race detector on concurrent histories, ThreadSanitizer on the C library from pthreads, and the model-based trace monitor on every concurrent lane; overlapping call pairs and distinct interleavings are counted", N + " Schedules are those the stress workloads produced.")

prop("C11", "Memory discipline: no stray access, no undefined behaviour, no crash",
 "For every input and history, the library reads exactly the bytes it is given and writes only to its own memory and to the spare capacity a caller's slice offers for the result; it never modifies or retains the caller's data, performs no undefined behaviour or out-of-bounds or uninitialised access in Go, assembly or C, and never panics.",
 ["inputs", "histories", "schedules"], "all inputs at all alignments and page positions, under garbage collection, stack growth and preemption",
 "An assembly or C over-read by a few bytes, or a retained pointer, changes no digest in ordinary memory.",
 GO + C, [("assembly block loops", "sha1cdblock_amd64.s, sha1cdblock_arm64.s"), ("unsafe pointer passing", "cgo/sha1.go"), ("C buffer handling", "cgo/sha1.c:SHA1DCUpdate")], ["Write", "Sum", "UnmarshalBinary", "CalculateDvMask"],
 "AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, checkptr, cgocheck2 and GC-stress builds of the real code, plus guard pages, read-only pages and canaries around every buffer, with the trace monitor's verdicts", N + " Sanitizers do not instrument Go assembly; guard pages do.")

prop("C12", "Lengths are handled correctly up to the largest representable message",
 "The digest is right for messages of any length, including single writes beyond 2 and 4 GiB and states resumed near 2^32 and up to 2^61-1 bytes, on 32-bit and on 64-bit targets; counters do not truncate, wrap or lose bytes.",
 ["inputs", "histories"], "all lengths, all split points around counter boundaries",
 "Tests never hash more than a few hundred kilobytes.",
 ["sha1cd.go", "cgo/sha1.go", "cgo/sha1.c", "cgo/sha1.h"], [("length counters", "sha1cd.go:digest.len, cgo/sha1.h:SHA1_CTX.total"), ("length padding", "sha1cd.go:checkSum, cgo/sha1.c:SHA1DCFinal")], ["Write", "Sum", "MarshalBinary"],
 T + "4-GiB single writes of mapped zero pages and states loaded with chosen lengths around every power of two", N)

prop("C13", "Results do not depend on the CPU; optional instructions need to be present",
 "On every CPU of a supported architecture, whichever optional instruction sets it has or lacks, hashing never faults and gives the same digests and verdicts; accelerated code is used only when everything it executes is available.",
 ["configurations", "inputs"], "all combinations of CPU features",
 "Tests run on one CPU, which has every extension.",
 ["sha1cdblock_amd64.go", "sha1cdblock_amd64.s", "sha1cdblock_arm64.go", "sha1cdblock_arm64.s", "sha1cdblock_noasm.go"], [("feature detection", "sha1cdblock_amd64.go, sha1cdblock_arm64.go")], ["Write", "Sum"],
 T + "the same workload run on emulated CPU models and feature masks (20 configurations, thorough: 50), faults included", N)

prop("C14", "The cgo package behaves the same whether it is built with or without cgo",
 "A program using the cgo package compiles and behaves identically with cgo enabled and disabled, whatever the C compiler, its optimisation level and its alignment handling: same constants, same functions, same digests, verdicts and masks, same streaming and reset behaviour.",
 ["configurations", "inputs", "histories"], "all call sequences on the cgo package in every build of it",
 "The tests of the cgo package only run with cgo enabled and a single C compiler.",
 C, [("fallback", "cgo/fallback_no_cgo.go"), ("C library", "cgo/sha1.c, cgo/ubc_check.c")], ["cgo.New", "cgo.Sum", "cgo.CalculateDvMask", "cgo.Size", "cgo.BlockSize"],
 T + "one driver program compiled with gcc, clang, forced aligned access, ARM and without cgo", N)

prop("C15", "Every block of the message is examined, padding included",
 "An attack block is detected and hardened at whatever position it occurs: first, last or in the middle of a single large write, completed by a small write, across buffer boundaries, in the padding block, several times in one message, and after any number of blocks (beyond 4 GiB included), on every code path.",
 ["inputs", "histories"], "all positions, all write sizes, all mixtures of buffered and direct block processing",
 "Test data holds the attack blocks at one or two fixed offsets.",
 GO + C, [("block loop", "sha1cdblock_generic.go, sha1cdblock_amd64.go, sha1cdblock_arm64.go, cgo/sha1.c:SHA1DCUpdate/SHA1DCFinal")], ["CollisionResistantSum", "Sum"],
 "Fault injection and trace monitor: detectable blocks placed by the generator at every position, alone and together, and each verdict and digest compared with the reference model", N)

prop("C16", "The C library obeys its documented interface, switches included",
 "For every sequence of initialise, set switch, update and finalise calls on the bundled C library, on any little- or big-endian target and compiler, digest and verdict are those its header promises: initialisation gives safe hash, bit-condition filtering and detection on and reduced-round detection off, whatever the memory held before; each switch affects exactly what it names and only the context it is set on; contexts can be copied. Input is never modified and exactly twenty bytes are written.",
 ["inputs", "histories", "configurations"], "all call sequences, all combinations and times of setting the switches, all targets",
 "No test calls the C library except through the Go wrapper, with the default switches, on one little-endian machine.",
 ["cgo/sha1.c", "cgo/sha1.h", "cgo/ubc_check.c", "cgo/ubc_check.h"], [("switches", "cgo/sha1.c:SHA1DCInit, SHA1DCSet*"), ("block processing", "cgo/sha1.c:sha1_process, SHA1DCUpdate, SHA1DCFinal")],
 ["SHA1DCInit", "SHA1DCSet*", "SHA1DCUpdate", "SHA1DCFinal", "ubc_check"],
 "Trace monitor on the C library driven directly (hosted, under AddressSanitizer, UBSan and MemorySanitizer, and freestanding on seven emulated targets, three of them big-endian), every record compared with the reference model extended with the switches", N)

prop("C17", "Hashing needs bounded resources and time linear in the input",
 "Using hashes leaves nothing behind: no memory, goroutines, threads or descriptors accumulate, whatever is hashed, flagged, saved or rejected; a live hash occupies a fixed amount of memory and keeps none of the data written to it alive. The time to hash grows linearly with the data, however it is cut and whatever it contains, and observing costs the same at any point.",
 ["inputs", "histories"], "all histories, all amounts of data, including attack blocks and blocks satisfying many bit conditions",
 "A leak or a quadratic cost changes no result, and the tests hash too little for too short to feel one.",
 GO + C, [("state of fixed size", "sha1cd.go:digest, cgo/sha1.go:digest, cgo/sha1.h:SHA1_CTX"), ("bounded work per block", "detection.go, sha1cdblock_generic.go, cgo/sha1.c:sha1_process")], ["New", "Write", "Sum", "Reset", "MarshalBinary", "UnmarshalBinary"],
 "Resource monitor: Go and C heap, objects, goroutines, threads, mappings, descriptors, reachability of written buffers and CPU time sampled between phases that differ only in the amount of work; a limit counts as broken when passed in three runs out of three", N + " Limits are generous (12-fold for time), so small constant regressions are not reported.")

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    man = dict(version=1, setup_cmd="python3 check.py setup",
        checks=[dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
                     evidence_file="evidence/%s.json" % p["id"], technique=p["_t"], level="exploration", level_note=p["_n"]) for p in P],
        not_applicable=[], notes="No hooks in /repo: everything is observed through the exported API, from outside. Fix commits are listed in known_findings.txt.")
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
