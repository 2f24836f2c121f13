import json
F=lambda *a:["src/"+x for x in a]
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
      "why_tests_cant":why,"anchors":{"files":files,
      "mechanism":[{"name":n,"where":w} for n,w in mech],
      "state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
      "observe_at":list(observe),"hook_needed":hook}})

prop("C01","Single-packet decryption and encryption are inverses",
 "For every control word, every payload and every payload length, decrypting what the single-packet interface encrypted gives back the original payload byte for byte, and encrypting what it decrypted does too. This holds on every supported target, and includes lengths below 8 and lengths that are not a multiple of 8.",
 ["inputs","configurations"],"all 64-bit control words x all payloads x all lengths x all targets",
 "The tests hold two known vectors of 184 bytes under three control words; the space is 2^64 keys and 256^len payloads, and no test uses any other length.",
 F("dvbcsa_algo.c","dvbcsa_block.c","dvbcsa_stream.c","dvbcsa_key.c","dvbcsa_pv.h"),
 [("reverse CBC chaining run forwards/backwards over the whole blocks","src/dvbcsa_algo.c dvbcsa_decrypt, dvbcsa_encrypt"),
  ("block cipher rounds undone in reverse key order","src/dvbcsa_block.c dvbcsa_block_decrypt, dvbcsa_block_encrypt"),
  ("same keystream from the same first ciphertext block","src/dvbcsa_stream.c dvbcsa_stream_xor")],
 [("struct dvbcsa_key_s","expanded key: nibble-swapped word and 56 round bytes","src/dvbcsa_pv.h")],
 ["payload bytes after dvbcsa_encrypt followed by dvbcsa_decrypt on the same context"])

prop("C02","Single-packet results are DVB-CSA",
 "For every control word, payload and length, single-packet encryption and decryption produce exactly the bytes the DVB common scrambling algorithm defines: its key schedule, its 56-round block cipher in reverse chaining over the whole 8-byte blocks, its stream cipher seeded by the first scrambled block over everything after it including a trailing partial block, and payloads under 8 bytes left in the clear. All 64 bits of the control word take part as given; no bit is ignored or recomputed.",
 ["inputs","configurations"],"all control words x payloads x lengths x targets",
 "Known-answer tests cover two packets of 184 bytes; most of the 2048 key-permutation entries, most stream sum-table entries and every other length are never touched.",
 F("dvbcsa_algo.c","dvbcsa_block.c","dvbcsa_stream.c","dvbcsa_key.c","dvbcsa_pv.h"),
 [("key permutation tables and schedule","src/dvbcsa_key.c kperm, dvbcsa_key_schedule_block"),
  ("block S-box and permutation tables","src/dvbcsa_block.c dvbcsa_block_sbox, csa_block_perm"),
  ("stream registers, S-boxes, sum table and output taps","src/dvbcsa_stream.c"),
  ("chaining and the length split","src/dvbcsa_algo.c")],
 [("struct dvbcsa_key_s","expanded key","src/dvbcsa_pv.h")],
 ["payload bytes after dvbcsa_encrypt / dvbcsa_decrypt"])

prop("C03","A batch gives the single-packet result for each of its packets",
 "For every control word, every batch of up to the reported batch size, every mix of payloads and lengths and every permitted maximum length, each packet ends up exactly as the single-packet interface of the same build would leave it when applied to the packet's first min(length, maximum length) bytes. This holds for full and partial batches and in whichever slot the packet sits.",
 ["inputs","configurations"],"all control words x batch fills 0..capacity x length vectors x maxima 0,8..184 x slots x build configurations",
 "The tests drive only full batches at maximum length 184 under one control word; partial batches take different tail loops, shorter maxima and mixed lengths take different gates, and none of that is reached.",
 F("dvbcsa_bs_algo.c","dvbcsa_bs_block.c","dvbcsa_bs_stream.c","dvbcsa_bs_stream_kernel.inc","dvbcsa_bs_key.c","dvbcsa_bs_transpose_block.c","dvbcsa_bs_transpose_stream.c","dvbcsa_bs_transpose_stream32.c","dvbcsa_bs_transpose.h","dvbcsa_bs.h"),
 [("packet gather/scatter","src/dvbcsa_bs_algo.c dvbcsa_pkt_buf_load, dvbcsa_pkt_buf_store"),
  ("transposes with unrolled main loops and tail loops","src/dvbcsa_bs_transpose_*.c"),
  ("bitsliced block rounds and per-packet length gates","src/dvbcsa_bs_block.c, src/dvbcsa_bs_transpose_block.c"),
  ("bitsliced stream cipher","src/dvbcsa_bs_stream_kernel.inc")],
 [("struct dvbcsa_bs_pkt_buf","working copy of the packets of one call","src/dvbcsa_bs.h")],
 ["payload bytes of each packet after dvbcsa_bs_encrypt / dvbcsa_bs_decrypt"])

prop("C04","Packets of one batch never influence each other",
 "What happens to a packet in a batch depends only on its own payload and length, the key and the maximum length: never on another packet's payload or length, on how many packets the batch holds, on the slot the packet occupies, or on what an earlier call processed.",
 ["inputs","histories","configurations"],"all batches and all ways to vary the other packets, the fill and the slot; all build configurations",
 "Non-interference compares pairs of runs; the tests never vary one packet while holding another, and always fill the batch.",
 F("dvbcsa_bs_algo.c","dvbcsa_bs_block.c","dvbcsa_bs_stream.c","dvbcsa_bs_transpose_block.c","dvbcsa_bs_transpose_stream.c","dvbcsa_bs_transpose_stream32.c","dvbcsa_bs_transpose.h"),
 [("one lane per packet through every word operation","src/dvbcsa_bs_stream_kernel.inc, src/dvbcsa_bs_block.c"),
  ("exact bit transposes in and out","src/dvbcsa_bs_transpose.h"),
  ("per-packet length gates","src/dvbcsa_bs_transpose_block.c")],
 [("struct dvbcsa_bs_pkt_buf","packets side by side","src/dvbcsa_bs.h")],
 ["payload bytes of each packet after dvbcsa_bs_encrypt / dvbcsa_bs_decrypt"])

prop("C05","Bytes outside the processed part of a payload never change",
 "A call changes nothing in a payload beyond its declared length and nothing beyond the maximum length given for the batch; a payload (or processed part) shorter than 8 bytes is left entirely unchanged, as is everything when the maximum is 0. A packet longer than the maximum is processed exactly as if it had been cut at the maximum, its remaining bytes staying as they were.",
 ["inputs","configurations"],"all lengths (also beyond 184 and beyond the maximum) x all permitted maxima x both directions x build configurations",
 "The tests use lengths equal to the maximum or below it and never one above it, and never look at bytes behind a payload.",
 F("dvbcsa_algo.c","dvbcsa_bs_algo.c","dvbcsa_bs_block.c","dvbcsa_bs_stream.c","dvbcsa_bs_transpose_block.c"),
 [("length guard and length rounding","src/dvbcsa_algo.c"),
  ("copy-in/copy-out lengths, rounded length per packet","src/dvbcsa_bs_algo.c dvbcsa_pkt_buf_load, dvbcsa_pkt_buf_store"),
  ("offset/length gates","src/dvbcsa_bs_transpose_block.c")],
 [("len8","whole-block length per packet","src/dvbcsa_bs.h")],
 ["all bytes of the payload buffers after a call"])

prop("C06","No access outside the caller's buffers and the library's own objects",
 "With any batch that respects the reported batch size, any packet lengths whatever, and any permitted maximum length, no call reads or writes outside a payload's declared bytes, the descriptor array up to its terminator, the 8 control-word bytes, the key context as allocated, or the library's own tables and work areas; the same holds for the single-packet calls at any length. No result and no branch rests on memory that was never written.",
 ["inputs","configurations"],"all fills, length vectors (including lengths above 184), maxima, table indices and build configurations",
 "Out-of-bounds reads rarely change a test's output; no test uses a length above the buffer size, a partial batch, or every table index, and none runs under a checker.",
 F("dvbcsa_bs_algo.c","dvbcsa_bs.h","dvbcsa_bs_block.c","dvbcsa_bs_avx2.h","dvbcsa_bs_stream.c","dvbcsa_bs_stream_kernel.inc","dvbcsa_bs_transpose_block.c","dvbcsa_bs_transpose_stream.c","dvbcsa_bs_transpose_stream32.c","dvbcsa_algo.c","dvbcsa_stream.c","dvbcsa_block.c","dvbcsa_key.c"),
 [("fixed-size packet buffer","src/dvbcsa_bs.h struct dvbcsa_bs_pkt_buf"),
  ("masked table indices","src/dvbcsa_stream.c, src/dvbcsa_block.c, src/dvbcsa_bs_block.c, src/dvbcsa_bs_avx2.h"),
  ("register windows of the bitsliced ciphers","src/dvbcsa_bs_stream_kernel.inc, src/dvbcsa_bs_block.c")],
 [("struct dvbcsa_bs_pkt_buf","184 bytes per packet, one slot per lane","src/dvbcsa_bs.h")],
 ["every memory access made by an API call"])

prop("C07","Contexts can be shared: inputs are read-only and no state is hidden",
 "Encrypting and decrypting never write to the key context, and setting a key writes only to the context it is given; the library keeps no modifiable state of its own between or during calls. So any number of threads may process different packets with one context at the same time, or use different contexts, without interfering.",
 ["schedules","histories","configurations"],"all interleavings of concurrent calls, all call histories, all build configurations",
 "Tests are single-threaded; a race on a hidden static or a scratch field in the context does not show in sequential runs.",
 F("dvbcsa_algo.c","dvbcsa_bs_algo.c","dvbcsa_stream.c","dvbcsa_block.c","dvbcsa_key.c","dvbcsa_bs_stream.c","dvbcsa_bs_block.c","dvbcsa_bs_key.c","dvbcsa_pv.h","dvbcsa_bs.h"),
 [("const key and descriptor parameters","src/dvbcsa/dvbcsa.h"),("constant tables, work areas on the stack","src/*.c")],
 [("struct dvbcsa_key_s / struct dvbcsa_bs_key_s","shared contexts","src/dvbcsa_pv.h, src/dvbcsa_bs.h")],
 ["stores made by API calls and the objects they target"])

prop("C08","Setting a control word completely replaces the previous key",
 "After a control word is set, a context behaves exactly like a freshly allocated one given that control word, whatever the context held before (nothing, or any earlier control words), and whatever later happens to the caller's control-word bytes, which are neither modified nor referred to again.",
 ["histories","inputs","configurations"],"all previous context contents x all control words x both interfaces x build configurations",
 "Tests set each context once, straight after allocating it, with three fixed control words.",
 F("dvbcsa_key.c","dvbcsa_bs_key.c","dvbcsa_algo.c","dvbcsa_pv.h","dvbcsa_bs.h"),
 [("full expansion of the control word on each call","src/dvbcsa_key.c dvbcsa_key_set, src/dvbcsa_bs_key.c dvbcsa_bs_key_set")],
 [("struct dvbcsa_key_s / struct dvbcsa_bs_key_s","expanded key material","src/dvbcsa_pv.h, src/dvbcsa_bs.h")],
 ["results of a context that was keyed before, against a fresh one"])

prop("C09","Key contexts are allocated, aligned and released correctly",
 "Allocating a context returns either null, when and only when memory could not be obtained, or a block large enough and sufficiently aligned for every later use of that context in that build. Freeing it returns exactly that block to the allocator it came from, once; freeing null does nothing, and no other call allocates or keeps memory.",
 ["fault_sequences","histories","configurations"],"allocator success and failure x all alloc/set/use/free histories x build configurations (each allocator variant)",
 "Tests never make allocation fail; mispaired or undersized allocation usually goes unnoticed because of the allocator's own rounding.",
 F("dvbcsa_algo.c","dvbcsa_bs_algo.c","dvbcsa_bs.h","dvbcsa_pv.h"),
 [("allocator selection per build","src/dvbcsa_bs_algo.c dvbcsa_bs_key_alloc, dvbcsa_bs_key_free"),("plain allocation","src/dvbcsa_algo.c dvbcsa_key_alloc, dvbcsa_key_free")],
 [("context block","heap block returned to the caller","src/dvbcsa_bs_algo.c")],
 ["calls to the allocator, returned pointers"])

prop("C10","Length arithmetic is exact for every representable length",
 "The single-packet calls treat their length as the full unsigned value: no length, however large, is truncated, wrapped or taken as negative, so every whole block and every trailing byte of the payload is processed. The same holds for the lengths in batch descriptors.",
 ["inputs","configurations"],"all 2^32 length values x both directions x both interfaces",
 "Lengths near 2^31 or above 2^16 are never tested; a counter that is too narrow or signed behaves identically at 184 bytes.",
 F("dvbcsa_algo.c","dvbcsa_stream.c","dvbcsa_bs_algo.c"),
 [("loop counters and rounded lengths","src/dvbcsa_algo.c dvbcsa_encrypt, dvbcsa_decrypt; src/dvbcsa_stream.c dvbcsa_stream_xor")],
 [],["payload bytes after a call with a very long payload"])

prop("C11","The processor's multimedia state is clean when a call returns",
 "On builds that use registers shared with the floating-point unit, every API call that used them has restored the floating-point state by the time it returns, on every path, for every batch fill and maximum length; callers may use floating point right after any call.",
 ["inputs","configurations"],"all calls, fills and maxima, on the builds using such registers",
 "No test does floating-point arithmetic after a call, so a missing state reset is invisible.",
 F("dvbcsa_bs_algo.c","dvbcsa_bs_mmx.h","dvbcsa_bs_key.c"),
 [("state reset before the copy-out","src/dvbcsa_bs_algo.c BS_EMPTY"),("reset primitive of the backend","src/dvbcsa_bs_mmx.h")],
 [("x87/MMX tag word","shared register state","processor")],
 ["register state at return from each API call"])

prop("C12","The public interface is complete in every build, for C and C++",
 "Every build provides every function of the public header with exactly the declared type and C linkage, the header can be used on its own from C and from C++, and the library needs nothing beyond the C library. The reported batch size is one positive constant per build, equal to the number of packets one call really processes.",
 ["configurations","programs"],"all build configurations x client programs in C and C++",
 "Tests are C programs linked statically with one configuration at a time and use part of the interface.",
 F("dvbcsa/dvbcsa.h","dvbcsa_algo.c","dvbcsa_bs_algo.c","dvbcsa_key.c","dvbcsa_bs_key.c","Makefile.am"),
 [("linkage guard and prototypes","src/dvbcsa/dvbcsa.h"),("capacity constant per backend","src/dvbcsa_bs_*.h BS_BATCH_SIZE"),("source list","src/Makefile.am")],
 [],["link of client programs; value of dvbcsa_bs_batch_size()"])

prop("C13","Every build configuration computes the same results",
 "The word size and instruction set chosen at configuration time, the alternative S-box option, the byte order and the pointer width of the target affect speed only: for the same control word, payloads, lengths and maximum length, any two supported configurations leave identical bytes in every payload.",
 ["configurations","inputs"],"all pairs of configurations x all inputs",
 "Each configuration is tested separately on full batches under one control word; several supported combinations (32-bit x86, 32-bit Arm, alternative S-box with other word sizes) are never built here.",
 F("dvbcsa_bs.h","dvbcsa_bs_uint64.h","dvbcsa_bs_uint32.h","dvbcsa_bs_mmx.h","dvbcsa_bs_sse.h","dvbcsa_bs_avx2.h","dvbcsa_bs_neon.h","dvbcsa_bs_transpose.h","dvbcsa_bs_transpose_stream.c","dvbcsa_bs_transpose_stream32.c","dvbcsa_bs_block.c","dvbcsa_bs_key.c","dvbcsa_pv.h","dvbcsa_key.c","dvbcsa_stream.c"),
 [("per-backend word operations","src/dvbcsa_bs_*.h"),("byte-order dependent swaps, loads and stores","src/dvbcsa_bs_transpose.h, src/dvbcsa_pv.h"),("S-box variants","src/dvbcsa_bs_block.c")],
 [],["payload bytes, configuration against configuration"])

prop("C14","No alignment is required of the caller's memory",
 "Payload pointers and control-word pointers may have any alignment whatever; results are the same and no access assumes more alignment than the pointer has. Accesses to contexts and work areas never assume more alignment than those objects are given.",
 ["inputs","configurations"],"all pointer alignments x all calls x all build configurations and targets",
 "Test buffers happen to be aligned, and the host tolerates most misaligned accesses; other targets fault.",
 F("dvbcsa_pv.h","dvbcsa_algo.c","dvbcsa_stream.c","dvbcsa_bs_algo.c","dvbcsa_bs_key.c","dvbcsa_key.c","dvbcsa_bs_block.c","dvbcsa_bs_avx2.h","dvbcsa_bs_sse.h"),
 [("byte copies for all caller memory","src/dvbcsa_pv.h, src/dvbcsa_bs_algo.c"),("aligned context allocation","src/dvbcsa_bs_algo.c dvbcsa_bs_key_alloc")],
 [],["alignment assumed by each memory access"])

prop("C15","A batch is exactly the descriptors before the terminator",
 "A batch call processes every descriptor before the first one with a null data pointer and no other, in one call up to the reported batch size; an empty batch does nothing. Descriptors are never modified, nothing behind the terminator is looked at, and the terminator's length field is never relied upon.",
 ["inputs","configurations"],"all fills 0..capacity x descriptor contents x both directions x build configurations",
 "Tests always pass a full batch, with a terminator directly behind, and never an empty one.",
 F("dvbcsa_bs_algo.c","dvbcsa/dvbcsa.h"),
 [("terminated walks over the descriptor array","src/dvbcsa_bs_algo.c dvbcsa_pkt_buf_load, dvbcsa_pkt_buf_store")],
 [("n_packets","number of packets of the call","src/dvbcsa_bs.h")],
 ["descriptor accesses and the payloads changed by a call"])

prop("C16","Every call finishes, with work bounded by the sizes it is given",
 "Every call returns for every argument its contract allows: the single-packet calls after work proportional to the length, the batch calls after work bounded by the batch capacity and the maximum length whatever the packets contain or how long they claim to be, and setting a key after a fixed amount of work. How often any loop runs never depends on key or payload bytes.",
 ["inputs","configurations"],"all control words, payloads, lengths, fills and maxima x build configurations",
 "Tests run a handful of size combinations; an endless or wildly long loop at another fill, maximum or length (0, not a multiple of 8, above 184) is not met.",
 F("dvbcsa_algo.c","dvbcsa_stream.c","dvbcsa_block.c","dvbcsa_key.c","dvbcsa_bs_algo.c","dvbcsa_bs_block.c","dvbcsa_bs_stream.c","dvbcsa_bs_stream_kernel.inc","dvbcsa_bs_transpose_block.c","dvbcsa_bs_transpose_stream.c","dvbcsa_bs_transpose_stream32.c"),
 [("counted loops","all of src/*.c")],[],["loop bounds and exits on every path of an API call"])

prop("C17","Calls have no effect beyond their arguments",
 "No call performs input or output, touches files, environment, locale, signals or floating-point modes, starts threads, ends the process or returns anywhere but to its caller, as long as its contract is respected. The only services used are memory allocation and release, by the functions that allocate and free contexts, and plain memory copying.",
 ["programs","histories","configurations"],"all calls within contract, in all host programs, all non-debug build configurations",
 "An effect outside the payload bytes is not looked at by any test.",
 F("dvbcsa_algo.c","dvbcsa_stream.c","dvbcsa_block.c","dvbcsa_key.c","dvbcsa_bs_algo.c","dvbcsa_bs_key.c","dvbcsa_bs_block.c","dvbcsa_bs_stream.c"),
 [("debug output compiled out","src/dvbcsa_bs_algo.c DVBCSA_DEBUG"),("contract assertions","src/dvbcsa_bs_algo.c assert")],
 [],["external functions reachable from each API call"])

prop("C18","A maximum length outside the contract is refused before any harm",
 "When the maximum length given to a batch call is not a multiple of 8 or is above the documented limit of 184, the call is stopped by the contract assertion before any byte of any payload has been read or changed and before any work area could be overrun; it is never processed in part. Every value the contract permits is accepted.",
 ["inputs","configurations"],"all 2^32 maximum-length values x both directions x build configurations",
 "No test passes a maximum length other than 184.",
 F("dvbcsa_bs_algo.c","dvbcsa/dvbcsa.h"),
 [("contract assertions ahead of all processing","src/dvbcsa_bs_algo.c dvbcsa_bs_decrypt, dvbcsa_bs_encrypt")],
 [],["what an out-of-contract call does before it stops"])

prop("C19","Results do not rest on undefined behaviour",
 "Within the contract, no call shifts by a word's width or more, overflows a signed computation, or reads an object through an incompatible type in a way the language leaves undefined, so any conforming optimisation level yields the same bytes.",
 ["inputs","configurations","programs"],"all calls within contract x all conforming compilers and optimisation levels x build configurations",
 "Tests see one compiler at one optimisation level per target; undefined behaviour shows only when a compiler exploits it.",
 F("dvbcsa_pv.h","dvbcsa_bs_transpose_block.c","dvbcsa_bs_transpose_stream.c","dvbcsa_bs_transpose_stream32.c","dvbcsa_bs_block.c","dvbcsa_bs_key.c","dvbcsa_stream.c","dvbcsa_key.c","dvbcsa_bs_avx2.h"),
 [("alias-tolerant types for word views","src/dvbcsa_pv.h dvbcsa_u8_aliasing_t .. dvbcsa_u64_aliasing_t"),("unsigned arithmetic and in-range shifts","src/*.c")],
 [],["type and range of each operation an API call performs"])

prop("C20","The batch interface is faster than the single-packet interface",
 "Processing a full batch takes markedly less time per packet than processing its packets one by one, on every backend.",
 ["configurations"],"all targets and batch contents","Timing depends on the machine; the benchmarks print figures and decide nothing.",
 F("dvbcsa_bs_stream_kernel.inc","dvbcsa_bs_block.c"),[("bit-parallel processing","src/dvbcsa_bs_*.c")])
prop("C21","Execution time reveals nothing about key or payload",
 "The time and the memory access pattern of a call are independent of the control word and of the payload contents.",
 ["inputs","configurations"],"all key/payload pairs","Timing is not tested.",
 F("dvbcsa_stream.c","dvbcsa_block.c","dvbcsa_bs_block.c"),[("table look-ups (which do depend on data)","src/dvbcsa_block.c dvbcsa_block_sbox")])
prop("C22","The configuration step selects a backend the target supports",
 "On every host, configuring without options selects a working word size, and a requested backend the host cannot compile or run is refused.",
 ["configurations"],"all hosts, compilers and option combinations","Only the hosts of the test machine are configured.",
 ["configure.ac"],[("option and endianness tests","configure.ac")])
prop("C23","The AltiVec backend computes DVB-CSA",
 "A build for the AltiVec instruction set compiles and gives the same results as every other build: for each control word, payloads, lengths, maximum length and fill of its 128-packet batches, the same bytes.",
 ["inputs","configurations"],"all inputs on AltiVec targets (64- and 32-bit, both S-boxes)","The backend is not built by any tested configuration, and its whole-register shifts, byte order and constants are written specially for it.",
 F("dvbcsa_bs_altivec.h","dvbcsa_bs_transpose.h","dvbcsa_bs_transpose_stream.c","dvbcsa_bs_transpose_block.c","dvbcsa_bs_block.c","dvbcsa_bs_stream_kernel.inc"),[("AltiVec word operations","src/dvbcsa_bs_altivec.h")],
 [],["payload bytes, AltiVec build against default build"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
