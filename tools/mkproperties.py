import json
ALL=["src/rle8_extreme_cpu.h","src/rleX_extreme_cpu.h","src/rleX_extreme_cpu_encode.h","src/rleX_extreme_cpu_decode.h","src/rle24_extreme_cpu.h","src/rle48_extreme_cpu.h","src/rle128_extreme_cpu.h","src/rleX_Xsl.h","src/rleX_Xsl_short.h","src/rleX_Xsl_multibyte_encoder.h","src/rleX_Xsl_short_multibyte_encoder.h","src/rle8_low_entropy_cpu.c","src/rle8_low_entropy_short_cpu.c","src/rle_sh.c","src/rle8_mmtf.c","src/mmtf.c","src/bit_mmtf.c"]
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["return values and output buffers of the public compress / decompress functions declared in src/rle.h"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T="The tests run eight repository files and the first 16384 inputs of one enumerating fuzzer (one symbol per input, lengths counting up from 1); "
p("P01","Lossless round trip for every codec",
 "For every codec of the public interface and every non-empty input, compressing into a buffer of the advertised size succeeds, and decompressing the result returns exactly the original size and reproduces every byte of the input. This holds on every instruction set level the machine offers and for every alignment of the buffers.",
 ["inputs","configurations"],"every input (any mix of runs and literals, any length), each of the 120 codecs, each instruction set level, any buffer placement",
 T+"which run lengths, literal lengths, symbol reuse patterns, table states and tails meet in one input is sampled, and nothing above AVX2 is run.",
 ALL,[("encoders keep pending run / literal state and emit token + literals","src/rleX_extreme_cpu_encode.h, src/rle8_extreme_cpu.h, src/rleX_Xsl.h, src/rleX_Xsl_short.h"),("decoders reproduce literals and runs with wide copies","src/rleX_extreme_cpu_decode.h and the per instruction set copies in the same headers"),("symbol look-up tables kept in step by both sides","src/rleX_Xsl.h, src/rleX_Xsl_short.h")])
p("P02","Streams decode on every instruction set level",
 "A stream compressed on a machine with one set of vector instructions decompresses to the same original bytes on machines with any other set of vector instructions, in either direction.",
 ["inputs","configurations"],"every input, codec and pair (level that compressed, level that decompresses)",
 "The tests compress and decompress at the same level within one process, so an encoder and decoder variant that are wrong together, or a level-specific decoder that relies on its own encoder, go unnoticed.",
 ALL+["src/simd_platform.c"],[("one decoder per level selected at run time","src/rleX_extreme_cpu.h, src/rle8_extreme_cpu.h, src/rleX_Xsl.h, src/rleX_Xsl_short.h, src/rle8_low_entropy_cpu.c, src/mmtf.c"),("level specific encoders","src/rle8_extreme_cpu.h, src/mmtf.c, src/rle8_mmtf.c")],None,
 [("CPU feature flags","which variants may be used","src/simd_platform.c")])
p("P03","The advertised bound always suffices",
 "For every codec and every input, the size bound advertised for that codec and input size is enough: compression into a buffer of exactly that size succeeds, never reports a larger size, and never touches memory outside of the buffer. In particular incompressible and adversarial inputs never expand beyond the bound.",
 ["inputs","configurations"],"every input (notably ones where a small expansion per token accumulates), codec and level; output buffer of exactly the bound",
 "The tests allocate the largest bound of all codecs and use inputs that compress; an expansion that accumulates over thousands of tokens, or an overshoot of a few bytes at the end of the exact bound, needs inputs made for it and a guarded buffer.",
 ALL,[("bounds functions","src/rle8_extreme_cpu.c, src/rle_sh.c, src/rle8_mmtf.c, src/rle8_low_entropy_cpu.c, src/rle8_low_entropy_short_cpu.c, src/mmtf.c, src/bit_mmtf.c"),("minimum run lengths per token kind, so that no token costs more than it replaces","all encoders")])
p("P04","Too small output buffers are refused without damage",
 "When the output buffer is smaller than needed, every codec reports failure (or, for compression, possibly a complete valid stream that fits) and never writes outside the buffer it was given. A refused decompression leaves the buffer untouched, and so does compression of a size for which no bound is advertised (which is always refused).",
 ["inputs","configurations"],"every input, codec, level and output size from 0 to one byte less than needed",
 "No test passes a buffer that is too small.",
 ALL,[("size checks at the entry of each function against the bound / the size in the stream header","all compress and decompress entry points")])
p("P05","Missing arguments and truncated streams are rejected",
 "Every codec reports failure, without crashing and without touching the output, when it is given no input, no output, nothing to compress, or an empty, cut off or oversized stream or destination of size zero. Decompressing any strict prefix of a valid stream reports failure and writes nothing.",
 ["inputs","configurations"],"every codec, level, input, kind of missing argument and every prefix length of its stream",
 "No test passes absent arguments or truncated streams.",
 ALL,[("argument checks","all entry points"),("compressed size stored in the stream header and compared with the given size","all decompress entry points")])
p("P06","Streams are self-contained",
 "Decompression depends only on the bytes the compressor reported as the stream: those bytes copied to any other place, followed by any other bytes, and announced with their exact size or a larger one, give the same result.",
 ["inputs","histories"],"every stream, every place it is moved to, any bytes behind it, any announced size between the stream's and the buffer's",
 "The tests decompress in the buffer that was compressed into, at the same address; what lies behind is only ever the bitwise inverse of old contents, announced with the exact size.",
 ALL,[("terminating token / section sizes stored in the stream","all encoders and decoders")])
p("P07","Memory is only touched where documented",
 "Compression reads only the input and writes only the output buffer it was given, and leaves the input as it was. Decompression reads only the stream's buffer and writes only the announced output size plus the documented spare bytes, and leaves the stream as it was.",
 ["inputs","configurations"],"every input, codec, level and buffer placement, notably buffers that end right before inaccessible memory",
 "A stray read or write of a few bytes does not change any result in the tests' roomy heap buffers.",
 ALL,[("end-of-buffer limits of the vector loops","all encoders"),("spare bytes for wide stores","src/rle8_extreme_cpu.c, all decoders")])
p("P08","Results depend on the arguments only",
 "Compressing the same bytes with the same codec at the same instruction set level gives the same stream every time, whatever was compressed or decompressed before (calls that were refused, and the same call many times over, included), wherever the buffers are and whatever they held before. Decompression is equally independent of earlier calls.",
 ["histories","inputs"],"every sequence of calls (also refused ones, and very many) of any codecs on any inputs, any addresses, any previous contents of buffers and stack",
 "The tests never compare the stream of one call with that of another and always use the same order of codecs.",
 ALL,[("no static mutable state; all locals and tables initialized per call","all encoders and decoders")])
p("P09","Concurrent calls do not influence each other",
 "Calls made by several threads at the same time on different buffers give the same results as when made alone, for the same or different codecs, including when the very first calls of a process come from several threads at once.",
 ["schedules","inputs"],"every interleaving of two or more calls of any codecs, including first use",
 "The tests are single-threaded.",
 ALL+["src/simd_platform.c"],[("no shared mutable state besides the feature detection","all codecs"),("idempotent feature detection, flagged as done only at its end","src/simd_platform.c")],None,
 [("feature flags and the detected flag","written once by the first caller(s)","src/simd_platform.c")])
p("P10","Streams are interchangeable with the released format",
 "Streams written by the released version of each codec (including sectioned streams) decompress correctly with this tree, and streams written by this tree decompress correctly with the released version.",
 ["inputs","programs","configurations"],"every input, codec and level, in both directions between the recorded release and the current tree",
 "The tests only ever decompress what the same build has just compressed, so a change of the format on both sides passes.",
 ALL,[("token layouts, initial table contents, headers and terminators","all encoders and decoders")])
p("P11","Multi-lane move-to-front equals its plain definition",
 "Encoding replaces every byte by the number of distinct values used in its lane since that value last occurred (its position in the lane's recency list, initially in ascending order), for 16 or 32 interleaved lanes; decoding is the inverse. Exactly the input's number of bytes is written, for every size, alignment and instruction set level.",
 ["inputs","configurations"],"every byte sequence, both lane counts, both directions, every alignment of both buffers, every level",
 "The tests only check that decoding undoes encoding, which many wrong transforms satisfy, at one alignment.",
 ["src/mmtf.c"],[("aligned / unaligned, SSE2 / SSE4.1 / AVX2 variants","src/mmtf.c"),("partial last block","src/mmtf.c")],["output buffer of the encode / decode functions"])
p("P12","Bit transform equals its plain definition",
 "Encoding replaces every element (8 or 16 bit) by its exclusive or with the previous element, decoding is the inverse, and bytes that do not fill an element are copied; exactly the input's number of bytes is written.",
 ["inputs","configurations"],"every byte sequence, both element widths, both directions, every size, alignment and level",
 "The tests do not run these functions on anything but whole files in a round trip, if at all.",
 ["src/bit_mmtf.c"],[("element loop and remainder","src/bit_mmtf.c")],["output buffer of the encode / decode functions"])
p("P13","Low-entropy codecs: the separate information interface is consistent",
 "The compression information gathered for an input is a permutation of all byte values with marks only on values that occur (at most one in single mode); written out and read back it is the same information, in at most the documented space; and the body compressed with it decompresses with what was read back. The reported decompressed size of a stream is the input's, and is zero for a stream too short to tell.",
 ["inputs","configurations"],"every input, both code lengths, multi and single symbol mode, any previous contents of the structures",
 "The tests only call the one-shot functions; the separate interface, its permutation and its size limits are not looked at.",
 ["src/rle8_low_entropy_cpu.c","src/rle8_low_entropy_short_cpu.c"],[("gathering, sorting, writing and reading of the information","src/rle8_low_entropy_cpu.c")],["the information structures and the bytes written"])
p("P14","Sectioned streams work for every number of sections",
 "Compressing an input in any number of sections (up to its number of bytes) into a buffer of the bound advertised for that number succeeds, stays within the bound, and decompresses to the original, whatever follows the stream in memory. Too small buffers, cut off streams, zero sections, more sections than bytes and sizes whose bound does not fit 32 bits (it is 0 then) are refused without touching any memory that is not theirs.",
 ["inputs","configurations"],"every input and every number of sections from 1 to the input size, every level",
 "Nothing in the tests calls the sectioned functions.",
 ["src/rle8_low_entropy_cpu.c"],[("section table in the header, shared information, last section takes the remainder","src/rle8_low_entropy_cpu.c")])
p("P15","Long runs are actually compressed",
 "Whatever surrounds it, every long run of a repeated symbol that fits the codec's symbol size costs only a constant number of bytes in the stream (for the low-entropy codecs a small fraction of its length), so that an input made of long runs and few other bytes compresses to little more than those other bytes. Single-symbol codecs promise it for inputs in which one symbol has all the long runs and which have few other repetitions and few other occurrences of it; the experimental single-header codec may store the final run as it is.",
 ["inputs","configurations"],"every input with long runs (of any symbol, at any position, separated by anything or nothing), every codec of that symbol size and level",
 "The tests never look at the compressed size; an encoder that misses runs still round-trips.",
 ALL,[("run detection and thresholds for choosing a run over literals","all encoders")])
p("P16","More room than needed changes nothing",
 "Giving compression or decompression a larger output buffer than needed does not change the stream or the decompressed bytes and sizes, and decompression still writes nothing beyond 128 bytes behind the decompressed data.",
 ["inputs","configurations"],"every input, codec, level and every surplus of output capacity",
 "The tests use one capacity per file.",
 ALL,[("output capacity only used for the entry check; header bits written backwards from the end and moved","all entry points, src/rle_sh.c")])
p("P17","The tool's --test run fails exactly when a codec fails",
 "Run with --test, the command line tool ends with a failing status whenever the file is missing or empty, a codec reports failure, decompresses to another size, produces any wrong byte, leaves part of its output unwritten or depends on bytes behind its stream, and it ends with success when every codec restores the file. This does not depend on the other arguments, on which codec it is and on what codecs before it did; only the transforms that need vector instructions may be missing below their level.",
 ["inputs","configurations","fault_sequences"],"every file, combination of codec restrictions, level and number of runs, and every fault of any codec",
 "The tests are this very command; with working codecs nobody sees that it would not notice a broken one.",
 ["src/main.c"],[("scrambling of the bytes behind the stream, clearing of the output, comparison, exit status","src/main.c (main, Validate)")],["exit status of the tool, with a codec made to misbehave by link time interposition"])
p("P18","The tool runs and reports exactly the codecs that were asked for",
 "The command line's restrictions (kind, symbol size, packed, short, greedy, single or multi, alignment, look-up table size) select exactly the codecs that have all of the requested attributes, each of which is run the requested number of times on the file's bytes and reported in a row with its own name, compression ratio and entropy figure; --max-simd turns off exactly the instruction sets above the given one for all of them. Unknown, incomplete, doubled and contradictory arguments, and levels that the machine does not offer, are rejected with a failing status before any codec runs.",
 ["configurations","inputs"],"every combination and order of arguments, every file and level",
 "The tests use one argument combination without restrictions, and look at the exit status only.",
 ["src/main.c","src/codec_funcs.h"],[("argument parsing and per attribute codec lists","src/main.c (main, CodecMatchesArgs)"),("order of names and callbacks has to match the enumeration","src/codec_funcs.h"),("instruction set flags","src/main.c, src/simd_platform.c")],["calls that reach the codecs, the flags at that time, the printed table, the exit status"])
p("P19","The built-in fuzzer stops at the first failure and keeps the input",
 "The tool's fuzzing modes give every codec, one after the other, the same generated input, and stop with a failing status at the first codec call that fails, returns another size or restores anything but the input (in any bit of any byte); for wrong contents the input is left in fuzz-failure.bin. Without a failure they go on with new inputs (the iterative mode's with parts of every length from 1 to 280 and around 2^16); the random mode's incompressible parts are free of structure.",
 ["inputs","fault_sequences","histories"],"every fault of any codec call at any input of the iterative and the random mode",
 "The tests run the fuzzer on codecs that work; whether it would notice anything else is not tested.",
 ["src/rle_fuzz.c"],[("comparison of the buffers, size checks, scrambling behind the stream","src/rle_fuzz.c (fuzz, MemoryEquals)"),("input generation","src/rle_fuzz.c (fuzz_fill_buffer, fuzz_state_advance, fuzz_read_rand)")],["codec calls made by the tool, exit status, fuzz-failure.bin"])
p("P20","The tool's --analyze report describes the file",
 "For every file, --analyze ends normally and its report (numbers, lengths and length distribution of repetitions and distinct parts for symbols of 1 to 16 bytes, aligned and not, references to recent symbols, length relations, histograms) is what the file's bytes amount to, independent of anything outside of the file.",
 ["inputs"],"every non-empty file",
 "No test uses --analyze.",
 ["src/main.c"],[("single pass statistics for 16 symbol sizes","src/main.c (AnalyzeData)")],["printed report"])
p("P21","Only the available instruction sets are used",
 "On a machine (or with switches) that offers vector instructions only up to some level, compression and decompression with every codec execute no instruction that needs more than that level, and still restore the input.",
 ["inputs","configurations"],"every input, codec and level of compression and decompression",
 "The tests run on a machine that has all of the instruction sets, where a variant chosen one level too early works just as well.",
 ALL+["src/simd_platform.c"],[("choice of the variant at the entry of each function","all entry points"),("functions compiled for an instruction set by attribute, with helpers that are compiled for another one","src/simd_platform.h, all codecs")],["instructions executed by the code under test"])
p("P22","Instruction sets are detected as the machine offers them",
 "For every processor and operating system, the detection turns on exactly those instruction set switches whose instructions can be executed there (offered by the processor and, for AVX and above, with their registers enabled by the system), without executing anything that is not available itself. Switches that are turned off later stay off whatever is called.",
 ["configurations","histories"],"every combination of highest information leaf, feature bits, enabled register state and later changes of the switches",
 "The tests see one machine.",
 ["src/simd_platform.c","src/simd_platform.h"],[("cpuid / xgetbv bits","src/simd_platform.c (_DetectCPUFeatures)")],["the switches after the detection, with cpuid and xgetbv emulated"])
p("P23","Bit packing is dense and lossless",
 "For every pair of bit packing functions (1, 2, 3 and 4 bits; for aligned and for any addresses; in fixed groups and for any number of vectors) and every supported number of values below 2^N, packing and then unpacking gives the values back. The packed form has exactly N/8 bytes per value (rounded up), which is also what the functions return and all that they write or read, and it is the same for aligned and unaligned variants.",
 ["inputs"],"every pair of functions, supported number of values, values and buffer position",
 "No test calls these functions; the codec that uses some of them only does so for some lengths.",
 ["src/bitpack.h"],[("groups of 6, 3 and 1 vectors, tails","src/bitpack.h (all bitpack_encode*/bitpack_decode*)")],["values, packed bytes and returned pointers of the functions in src/bitpack.h"])
p("P24","The OpenCL decoder restores every sectioned stream",
 "On any working OpenCL device, rle8m_opencl_decompress restores every stream of rle8m_compress for every number of sections, whether or not and for whatever sizes rle8m_opencl_init was called before, whatever was decompressed before, and in whatever order the sections are processed; NULL, too little room, cut streams and streams without sections are refused. If an OpenCL call or an allocation fails, the call returns 0 (or still the right data), and later calls work again. rle8m_opencl_destroy gives back everything that was taken, exactly once, and the memory of host and device is only accessed where it was allocated.",
 ["inputs","histories","fault_sequences"],"every stream, every history of initializations, decompressions, clean-ups and refused calls, every single failing call, every order of work groups",
 "The OpenCL decoder is not part of the tested build, and there is no device.",
 ["src/rle8_ocl.c","src/rle8_ocl_kernel.h"],[("buffers, offsets, kernel arguments, clean-up","src/rle8_ocl.c (rle8m_opencl_init, rle8m_opencl_decompress, rle8m_opencl_destroy)"),("kernels","src/rle8_ocl_kernel.h")],["rle8m_opencl_* compiled with BUILD_WITH_OPENCL against a stand-in for OpenCL that compiles and runs the kernels on the CPU"])
p("P25","The benchmark reports what was measured",
 "Whatever time the codec calls take, every row of the tool's report gives the encoder's and the decoder's mean throughput over exactly the counted runs (all of them, without the dry run if there is one), the throughput of the fastest run and, with --sd, the throughputs at one standard deviation of the counted runs around the mean; pauses are not counted. Each codec is run until both the requested number of runs and the requested minimum time are reached, and no longer. A codec that fails in a benchmark is reported as failed, with the first wrong byte if it restores something else, and does not change what is reported about the others.",
 ["inputs","configurations","schedules","fault_sequences"],"every file, combination of arguments, duration of each codec call and failing codec",
 "The tests only look at the exit status, and their time is that of the machine.",
 ["src/main.c"],[("measuring loops, dry run, pauses, accumulated times, row output","src/main.c (main)"),("first difference","src/main.c (Validate)")],["the printed rows, the codec calls and the (simulated) time"])

p("P26","Compression is as effective as the released version's",
 "For every input, codec, instruction set level and number of sections, the stream is at most 2 % plus 24 bytes larger than the one that the released version writes for the same input: every kind of repetition that the released version makes use of (short and long ones, at any distance and alignment, of the same, of recurring or of always different symbols) is still made use of.",
 ["inputs","configurations"],"every input, codec and level, in sections or not, compared with the recorded release",
 "The tests do not look at the compressed size, so an encoder that stores what it could have compressed passes them.",
 ALL,[("detection of repetitions, thresholds of worthwhile runs, symbol table matches","all encoders")],["compressed size"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
try:
    import jsonschema
    for x in P: jsonschema.validate(x,s)
except ImportError: print('no jsonschema')
for x in P:
    assert len(x['title'])<=80
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
