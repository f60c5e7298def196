"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
              'observe_at': observe or [], 'state': state or [], 'hook_needed': None}})

prop('C01', 'Encoder output always has worst-case room',
 'Whenever encode, encodeTo or the native incremental encode starts encoding, the destination holds at least 2*n + 2*floor(2*n/L) + 66 bytes, where n is the input length and L the line size this very call encodes with. A supplied destination smaller than that makes the call throw before anything is written; a destination the library allocates is at least that large.',
 ['inputs'], 'every input length, line size, column offset and destination length',
 'The existing tests call encodeTo with one destination size per input and the incremental form never; an overflow of a few bytes usually corrupts memory silently.',
 ['src/yencode.cc', 'src/encoder.h'], [('size formula and the guard or allocation in each encode binding', 'src/yencode.cc: Encode, EncodeTo, EncodeIncr, YENC_MAX_SIZE')],
 ['the exception or the write past the end of the destination'])
prop('C02', 'Decoder output always has room for the whole input',
 'Whenever decode, decodeTo or the native incremental decode starts decoding n bytes, the destination holds at least n bytes. A supplied destination shorter than the input makes the call throw before anything is written or returned.',
 ['inputs'], 'every input and destination length, raw or not, any decoder state',
 'The tests decode in place or into library-allocated buffers only; no test passes a short destination.',
 ['src/yencode.cc', 'src/decoder.h'], [('length guard or allocation in each decode binding', 'src/yencode.cc: Decode, DecodeTo, DecodeIncr')])
prop('C03', 'Line size and column offset reach the encoder normalised or are refused',
 'For every call of encode, encodeTo and the native incremental encode with data to encode: line size 0 or absent encodes as 128, a negative line size throws, a column offset that is negative or larger than the line size throws, and one equal to the line size encodes as 0. Every other pair of values from 0 to 2^31-1 reaches the encoder unchanged, a larger value is refused or taken as 2^31-1, so the encoder only ever runs with a line size of at least 1 and a column from 0 to one less than the line size.',
 ['inputs'], 'every combination of the numeric arguments, present or absent',
 'Tests use a handful of valid sizes and never an out-of-range one; a wrong boundary shows only at exact equality.',
 ['src/yencode.cc'], [('argument parsing in the encode bindings', 'src/yencode.cc: Encode, EncodeTo, EncodeIncr')])
prop('C04', 'Native functions check argument types before using them',
 'No native function reads the contents or the length of an argument unless that argument was found to be a Buffer, and none reads a CRC from a Buffer not known to be exactly 4 bytes long; a call with a missing or wrongly typed Buffer argument throws. Numeric arguments are converted with a real type check or conversion, never by assuming the type, and no conversion that can run user code happens between measuring a Buffer and using it.',
 ['inputs'], 'every argument count and every type and value of each argument',
 'Tests only pass well-typed arguments; a missing check is undefined behaviour that often looks harmless.',
 ['src/yencode.cc'], [('HasInstance / length / type guards ahead of each use', 'src/yencode.cc: all eleven bindings')])
prop('C05', 'Native result memory is released exactly once and allocation failure throws',
 'Memory a native function allocates for its result is, on every path out of that function, either handed to the returned Buffer together with a release callback that frees that same memory exactly once, or freed; it is never freed and then used, and never leaked by an exception. If an allocation fails the call throws (or keeps the still valid block) instead of using a null pointer.',
 ['inputs', 'fault_sequences'], 'every path through every binding, every allocation succeeding or failing',
 'Tests never make an allocation fail and cannot see a leaked or doubly freed result.',
 ['src/yencode.cc'], [('malloc/realloc results, release callback, external Buffer creation', 'src/yencode.cc')])
prop('C06', 'Reported counts and consumed lengths are exact at any size',
 'Byte counts returned by encodeTo, decodeTo and the native incremental calls, and the lengths and shift amounts given to the CRC functions, are carried without narrowing: no 64-bit length is ever truncated to 32 bits or fewer on its way between JavaScript and the native kernels. The number reported as written or read is exactly how far the kernel advanced the corresponding pointer.',
 ['inputs'], 'all lengths up to the largest Buffer and all integers JavaScript can pass',
 'The tests use inputs of at most a few hundred kilobytes; a 32-bit truncation needs 2 GiB or more.',
 ['src/yencode.cc', 'src/crc.h'], [('conversions between size_t/int64_t and JavaScript numbers', 'src/yencode.cc')])
prop('C07', 'CRC bindings pass, default and return CRC values in the documented roles',
 'crc32, crc32_combine, crc32_zeroes, crc32_multiply and crc32_shift read 4-byte CRC arguments as big-endian, give each argument its documented role (data and starting CRC; first CRC, second CRC and length of the second data; length and starting CRC, and so on), use 0 (or 80000000 for crc32_shift) when the optional CRC is absent, treat negative lengths as removal, and return the result as a new 4-byte big-endian Buffer.',
 ['inputs'], 'every CRC value, length, shift amount and argument count',
 'Tests check a few dozen fixed CRC pairs; byte-order or role slips that agree on those values go unnoticed.',
 ['src/yencode.cc', 'src/crc.h'], [('read_crc32/pack_crc32 and the per-function argument plumbing', 'src/yencode.cc'), ('combine/zeros/unzero/powmod helpers', 'src/crc.h')])
prop('C08', 'maxSize always suffices for encodeTo and minSize never exceeds the output',
 'For every length and line size for which encodeTo accepts the line size, an output Buffer of maxSize(length, line_size) bytes is accepted by encodeTo: maxSize with the default escape ratio is at least the destination size that encodeTo demands. minSize(length, line_size) is never more than the length of what encode returns for length bytes with that line size: with L the line size encode uses, length + 2*floor((length-1)/L), and 0 for no data.',
 ['inputs'], 'every data length and every line size, including 0 and absent',
 'The two formulas live in different languages; the tests evaluate them at the sizes they happen to use and with a copy of maxSize of their own.',
 ['index.js', 'src/yencode.cc'], [('maxSize/minSize formulas', 'index.js'), ('YENC_MAX_SIZE guard', 'src/yencode.cc: EncodeTo')])
prop('C09', 'Native code shares no mutable state between calls or threads',
 'Encoding, decoding and CRC calls write no process-wide state: after one-time initialisation, which runs exactly once per process no matter how many threads load the module, every native global is only read. Results therefore cannot depend on calls made earlier or concurrently in other worker threads.',
 ['schedules', 'histories'], 'every interleaving of calls from any number of worker threads and any earlier calls',
 'The tests are single-threaded and load the module once.',
 ['src/yencode.cc', 'src/encoder.cc', 'src/decoder.cc', 'src/crc.cc', 'src/platform.cc', 'src/*_sse*.cc', 'src/*_avx*.cc', 'src/*_vbmi2.cc'],
 [('uv_once around initialisation', 'src/yencode.cc: module init'), ('dispatch pointers and lookup tables written only by init', 'src/*.cc')])
prop('C10', 'Instruction-set specific code only runs on CPUs that report the feature',
 'On x86, a code path compiled for an instruction-set extension is selected only when CPUID (and, for AVX and AVX-512, the operating system state reported by XGETBV) reports every extension that code was compiled to use. No function compiled for an extension can be reached without passing that selection.',
 ['configurations'], 'every CPU feature combination and operating system configuration',
 'The tests run on one CPU; a wrong feature bit is invisible until the library crashes with an illegal instruction elsewhere.',
 ['src/platform.cc', 'src/encoder.cc', 'src/decoder.cc', 'src/crc.cc', 'binding.gyp'],
 [('feature detection', 'src/platform.cc'), ('selection of implementations', 'src/encoder.cc: encoder_init, src/decoder.cc: decoder_init, src/crc.cc: crc32_init')])
prop('C11', 'Every CPU level installs a complete, matching set of implementations',
 'For every CPU level the initialiser can select, each of the three decode entry points (plain, dot-unstuffing, dot-unstuffing with end detection) is an implementation compiled for that same mode, the encoder and the three CRC operations are set, and every lookup table those implementations read has been allocated and filled before they can be called. No entry point is left unset or of another mode, and lower levels fall back to the portable one.',
 ['configurations'], 'every CPU level, including those the build machine does not have',
 'The tests exercise only the level of the build machine.',
 ['src/decoder*.cc', 'src/encoder*.cc', 'src/crc*.cc'], [('the *_init / *_set_funcs functions', 'src/')])
prop('C12', 'The portable decoder implements yEnc and NNTP decoding for any chunking',
 'The portable decoder, in each mode, removes CR and LF, subtracts 42 from every other byte and 106 from the byte after an unescaped =, with dot-unstuffing drops a dot that follows CRLF or starts the data, and with end detection stops right after CRLF[.]=y (control line) or CRLF.CRLF (article end) reporting which one. Output, reported end, position and state depend only on the bytes so far and not on how the stream was cut into chunks: continuing from the returned state equals decoding in one call.',
 ['inputs', 'histories'], 'every byte sequence, every way to cut it into chunks, every carried state, each decode mode',
 'The tests decode a few thousand short samples, and only through the SIMD code of this machine; the portable code also finishes every SIMD call.',
 ['src/decoder.cc'], [('scalar decode loops and their prologue/epilogue switches', 'src/decoder.cc: do_decode_noend_scalar, do_decode_end_scalar')])
prop('C13', 'Vector decoding hands over exactly at its boundaries',
 'A vectorised decode gives the same result as the portable decoder for every alignment, length, carried state and content of the data around the places where it switches between portable and vector code: special sequences that straddle those places (CRLF dot, CRLF.CRLF, CRLF[.]=y, an escape) are seen exactly once, the state passed in and out is the one the portable decoder would have, and source, destination and length advance together. This assumes that the vector kernel itself decodes its own block correctly.',
 ['inputs', 'configurations'], 'every alignment, length, state and byte content at the boundaries, for each vector width and mode',
 'A straddling sequence needs a particular alignment, length and state together; the tests sample few alignments and no carried states for most kernels.',
 ['src/decoder_common.h'], [('boundary handling around the kernel', 'src/decoder_common.h: _do_decode_simd')])
prop('C14', 'The portable encoder follows the yEnc escaping and line rules',
 'The portable encoder adds 42 to each byte and escapes (= then +64 more) exactly NUL, LF, CR and = everywhere, tab and space additionally at the start and end of a line and at the end of the data, and dot at the start of a line; it inserts CRLF before the next byte once a line has reached the line size. It reads only the input bytes and writes only as much as it returns plus at most three bytes, for every line size and starting column.',
 ['inputs'], 'every input, line size of at least 1 and starting column below it',
 'Tests compare a sample of inputs at a few line sizes, and on this machine the portable encoder only runs for line sizes below 12.',
 ['src/encoder.cc', 'src/encoder_common.h'], [('escape tables', 'src/encoder.cc: escapeLUT, escapedLUT'), ('portable loops', 'src/encoder.cc: do_encode_generic; src/encoder_common.h: do_encode_simd tail')])
prop('C15', 'CRC constants belong to the CRC-32 polynomial',
 'Every table and constant the CRC code uses is the right element of the CRC-32 (EDB88320, reflected) field: the power table holds x^(2^n) for n = 0..31, and the polynomial, folding and reduction constants of the carry-less multiplication paths equal the values their role prescribes.',
 ['inputs', 'configurations'], 'every table entry and constant, on every implementation level',
 'The higher power-table entries are used only for lengths of gigabytes and the other levels only on other CPUs; the tests reach neither.',
 ['src/crc.cc', 'src/crc_folding.cc', 'src/crc_folding_256.cc', 'src/crc_common.h'], [('crc_power and its variants, folding constants', 'src/crc*.cc')])
prop('C16', 'Vector CRC, multiplication and shift compute the CRC-32 for every input',
 'The carry-less multiplication CRC kernels return exactly the CRC-32 (IEEE, reflected) of their data continued from the starting value, for every length, every alignment and every content, and do not depend on bytes outside the data. CRC multiplication is multiplication modulo the CRC polynomial for all operands and CRC shift multiplies by x^n for every 32-bit n, on the portable and on the carry-less path.',
 ['inputs', 'configurations'], 'every length, alignment, content and starting value; every shift amount',
 'Tests use a few lengths and alignments; most remainder and alignment combinations of the folding code and most shift amounts are never run.',
 ['src/crc_folding.cc', 'src/crc_folding_256.cc', 'src/crc.cc'], [('crc_fold, partial_fold, crc32_multiply_clmul, crc32_shift_clmul', 'src/crc_folding.cc'), ('crc_fold, partial_fold', 'src/crc_folding_256.cc'), ('crc32_multiply_generic, crc32_shift_generic', 'src/crc.cc')])
prop('C17', 'decodeChunk speaks one state and end vocabulary',
 'decodeChunk accepts (data, state, output) with state and output optional, writes to the supplied output Buffer, and returns read, written, output, a boolean ended and a state string; the state strings it accepts and returns denote exactly the decoder states with those last characters, and the end strings exactly the end kinds. It never fails on any state string and any Buffer, and with empty data it changes nothing and returns the state it was given.',
 ['inputs', 'histories'], 'every state string, every Buffer, with and without output, every decoder result',
 'No existing test calls decodeChunk; the tests drive the native function with numeric states.',
 ['index.js', 'src/decoder.h'], [('state table and result mapping', 'index.js: decodeChunk, decodePrev'), ('state and end enumerations', 'src/decoder.h')])
prop('C18', 'Generated posts carry exact headers and trailers',
 'post and multi_post emit =ybegin (with part and total exactly when multi-part), =ypart (1-based inclusive byte range, multi-part only), the encoded data and =yend, separated by CRLF, with line, size, part, total, begin, end, pcrc32 and crc32 fields whose values are the ones of the actual call: the line size used for encoding, the byte length of the data, the running part number and position, the CRC of this data and, on the last part only, of the whole file. Filenames are cut to at most 256 characters and encoded with the module encoding setting.',
 ['inputs', 'histories'], 'every filename, data, size, number of parts and line size, at every part',
 'No existing test calls post or multi_post.',
 ['index.js'], [('post, YEncoder constructor, encode and single encode', 'index.js')])
prop('C19', 'A filename cannot add lines to a post',
 'No filename given to post or multi_post can place a CR, LF or NUL byte in the generated post: all of them are removed before the name is put into the =ybegin line, so the name always stays on that line.',
 ['inputs'], 'every filename string',
 'No existing test passes such a filename.',
 ['index.js'], [('removal of forbidden characters ahead of encoding the name', 'index.js')])
prop('C20', 'multi_post accounting is exact and rejected parts change nothing',
 'A multi_post encoder accepts exactly the announced number of parts and exactly the announced total size, throwing on an extra part, on data exceeding the size and on a last part that does not complete it. After each accepted part, part, pos and crc describe exactly the data accepted so far; a call that throws leaves all of them unchanged so that the sequence can continue.',
 ['histories', 'inputs'], 'every sequence of encode calls, accepted or rejected, with any data sizes',
 'No existing test uses multi_post.',
 ['index.js'], [('YEncoder.prototype.encode and _encodeSingle', 'index.js')])
prop('C21', 'from_post never throws on any Buffer and always terminates',
 'from_post, given any Buffer whatsoever, returns: either an object describing the post or a DecoderError with one of the three documented codes. It never throws, never loops forever, and what names appear in the post (including names of built-in object properties) has no influence on anything but the parsed properties.',
 ['inputs'], 'every byte sequence, including hostile ones',
 'Tests parse five posts; hostile input needs a particular combination of missing or odd lines.',
 ['index.js'], [('line collection and property parsing', 'index.js: from_post, decoderParseLines')])
prop('C22', 'from_post reports every integrity mismatch',
 'from_post adds the corresponding warning exactly when the condition holds: decoded length differs from the =yend size, data CRC differs from pcrc32, data CRC differs from crc32 (single-part posts only), part range contradicts the sizes, part numbers disagree or exceed the total, begin and end sizes disagree, a numeric field is not a number or is zero, a CRC field is malformed. Hex CRCs are compared without regard to case.',
 ['inputs'], 'every combination of header, part and trailer fields',
 'The tests cover five fixed posts, fewer than the number of warnings.',
 ['index.js'], [('warning conditions', 'index.js: from_post')])
prop('C34', 'from_post reads fields, positions, data and checksum exactly',
 'Given a post, from_post returns every property of its =ybegin, =ypart, =yend and any other =y lines with exactly the value written there (the name being the rest of its line), in props, grouped by line; yencStart, dataStart, dataEnd and yencEnd are exactly where the post, its data and its trailer start and end within the Buffer (dataStart and dataEnd absent if the post has no data); data is what decode gives for exactly the bytes between the header lines and the last =yend line, with the isRaw setting given, and crc32 is its CRC-32. A Buffer without start marker, without end marker or without required properties gives an Error with code no_start_found, no_end_found or missing_required_properties.',
 ['inputs'], 'every combination of field values and data',
 'The tests parse five fixed posts.',
 ['index.js'], [('line collection, property parsing, positions and decoding', 'index.js: from_post, decoderParseLines')])
prop('C23', 'JavaScript calls leave no hidden state behind',
 'No call of the JavaScript interface changes module-level state: apart from the encoding setting, which only the user writes, results depend only on the arguments and, for a YEncoder, on that instance. Two encoders or two from_post results never share mutable objects.',
 ['histories'], 'every sequence of calls',
 'Tests make each kind of call in one order only.',
 ['index.js'], [('module-level tables, regular expressions and prototypes', 'index.js')])
prop('C24', 'The documented interface exists and refers only to what exists',
 'Every documented function is exported under its documented name and bound to the native or JavaScript function of that meaning, receiving the arguments exactly as the caller gave them, and no exported function can reach an identifier or native function that does not exist.',
 ['inputs', 'histories'], 'every exported function and every path in it',
 'JavaScript resolves names when a line runs; the tests never run most lines of index.js.',
 ['index.js', 'src/yencode.cc'], [('module.exports and the native registration', 'index.js, src/yencode.cc')])
prop('C25', 'Input Buffers are never modified',
 'No encode, decode or CRC operation, at any CPU level, writes to the memory of its input; the only memory written is the destination and storage of its own (decoding in place, where both are the same, excepted).',
 ['inputs', 'configurations'], 'every input and every implementation level',
 'Tests seldom compare the input afterwards and run one CPU level.',
 ['src/*.cc', 'src/*.h'], [('const source pointers through all kernels', 'src/')])
prop('C26', 'Decoders never read beyond the input',
 'Every load the portable and the vectorised x86 decoders issue from the source lies within the input Buffer, for every length, alignment, carried state and content: a caller hands its kernel only whole, aligned rounds and keeps back as many bytes as the kernel looks ahead. The one thing allowed beyond is an aligned vector load that begins at an input byte (it cannot touch another page); what it brings in beyond the input does not influence the result.',
 ['inputs', 'configurations'], 'every input length and alignment, every x86 decode kernel and mode',
 'An over-read of a few bytes is invisible unless the Buffer ends at an unmapped page.',
 ['src/decoder.cc', 'src/decoder_common.h', 'src/decoder_sse_base.h', 'src/decoder_avx2_base.h', 'src/decoder_vbmi2.cc'], [('held-back length and look-ahead offsets', 'src/decoder_common.h: do_decode_simd')])
prop('C27', 'Vector decoders write no more than they have consumed',
 'In every round a vectorised x86 decode kernel writes only within as many bytes, from where its output stood, as the round consumes, and moves its output forward by at most that many: so for every input, alignment and content the output stays within the first N bytes of the destination for N bytes of input, scratch bytes of the compacting stores included.',
 ['inputs', 'configurations'], 'every input content and alignment, every x86 decode kernel and mode',
 'The scratch bytes of a compacting store matter only when a Buffer ends within a vector of the last output byte, which depends on alignment and content.',
 ['src/decoder_sse_base.h', 'src/decoder_avx2_base.h', 'src/decoder_vbmi2.cc'], [('compacting stores and the advance of the output', 'src/decoder_sse_base.h: do_decode_sse')])
prop('C30', 'All implementation levels produce identical output',
 'For every input, encoding, decoding and CRC give the same result on every CPU level as the portable implementation.',
 ['inputs', 'configurations'], 'every input and CPU level', 'Tests run one level on samples.',
 ['src/'], [('vector kernels', 'src/*_base.h')])
prop('C31', 'Decoding an encoded message returns the original',
 'For all data, line sizes and column offsets, decoding the output of encode gives back the data, raw or not.',
 ['inputs'], 'every input', 'Tests sample inputs.', ['src/'], [('encoder and decoder', 'src/')])
prop('C32', 'CRC values equal CRC-32 of the data',
 'crc32 of any data with any starting value is the CRC-32 (IEEE) of that data, on every implementation level.',
 ['inputs', 'configurations'], 'every input and level', 'Tests sample inputs on one level.', ['src/crc*.cc', 'crcutil-1.0'], [('folding kernels', 'src/crc_folding*.cc')])
prop('C33', 'Decoding in place reads no byte that was already overwritten',
 'decodeTo and decodeChunk with the same Buffer as data and output give the same result as with separate Buffers, at every implementation level: no decoder reads an input byte after output may have been written over it, for any input, alignment, carried state and content. A vector kernel loads all it needs of a round before it stores the round, stores nothing in a round it gives up, and looks at what follows its input before its first round.',
 ['inputs', 'configurations'], 'every input, carried state and x86 implementation level', 'It fails only where a match lies across the last bytes a kernel handles, or where output has not yet fallen behind the input.',
 ['src/decoder.cc', 'src/decoder_common.h', 'src/decoder_sse_base.h', 'src/decoder_avx2_base.h', 'src/decoder_vbmi2.cc'], [('in-situ decoding', 'README.md'), ('set this before the loop because we can\'t check src after it has been overwritten', 'src/decoder_sse_base.h: do_decode_sse')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
