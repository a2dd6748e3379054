DV = "contract-based deductive verification"
CB = DV + " (loop invariants on the real C, CBMC/CaDiCaL)"
CF = DV + " (loop invariants on gfortran's GENERIC form of the real Fortran, CBMC/CaDiCaL)"

prop("P01", "Integer packing stores every token at its bit position and unpacks it exactly",
     "Packing n strided integers at width w and bit offset o puts the w-bit token of element k (the value, for signed data the value plus 2^(w-1), or with a header the value minus the minimum shifted right by the recorded shift) in stream bits o+k*w .. o+(k+1)*w-1 and leaves every other bit of the stream unchanged; unpacking returns exactly the value of each token and touches only the strided elements. "
     "A header records the true minimum, maximum, element count, width and the smallest sufficient shift, so data whose range fits the width come back unchanged. "
     "A detected width (-1) is always between 1 and 32 and large enough for every element.",
     "all element counts, offsets, strides, values and widths 1..32, signed and unsigned, with and without header",
     "no stable test runs the integer packer; a sample of arrays cannot cover all alignments of token and word boundaries for every width, nor the extreme values",
     ["src/packers/compact_integer.c", "src/PUBLIC_INCLUDES/rmn/bitPacking.h"],
     "compact_integer: stuff/extract/discard macros carry a partially filled 32-bit word between tokens; constructHeader derives shift and width",
     level="proof", technique=CB, note="unbounded element count, offset and stride for each token width (quick: widths 1,7,8,13,16,24,31,32 and detected widths 1,13,32; thorough: all 32); native oracle replays failures")
prop("P02", "Packing of 16-bit and 8-bit integers is exact at every width and offset",
     "Packing n strided unsigned 16-bit or 8-bit integers without a header at width w and bit offset o stores each value modulo 2^w in its own consecutive w stream bits and changes no other bit of the stream. Unpacking returns exactly the stored values and writes only the strided elements; a detected width (-1) holds every element.",
     "all element counts, offsets, strides and values; widths 1..16 resp. 1..8",
     "no stable test runs these packers; correctness depends on every combination of alignment, width and stride",
     ["src/packers/compact_integer.c", "src/PUBLIC_INCLUDES/rmn/bitPacking.h"], "compact_short and compact_char: same macros instantiated on narrower element types",
     level="proof", technique=CB, note="unbounded element count, offset and stride for each width (quick: a sample of widths, thorough: all)")
prop("P03", "Float packing error stays below one quantization step of the block range",
     "For any block of finite floats and a token size from 1 to 16 bits, packing then unpacking returns every value less than one quantization step away (truncation to a 24-bit mantissa at the block's largest exponent aside), the step being the smallest power of two in mantissa units for which the range of the block fits the token. Constant blocks come back exactly; numbers below the smallest normal one count as zero. Every token fits the requested size; nothing past the stream, the header or the destination is written. "
     "A token size outside 1 to 16, a foreign header and another number of points are refused.",
     "all finite float blocks, all token sizes, all lengths including odd ones", "existing tests pack one smooth field; rounding, overflow of the largest token and exponent alignment depend on every bit pattern",
     ["src/packers/float_packer.c"], "float_packer_1 / float_unpacker_1: exponent-aligned mantissas shifted by a common amount with rounding and a cap",
     level="proof", technique=CB, note="blocks of 1 to 2^28-1 values, for one arbitrary element; the error bound is a lemma over the contracts of packer and unpacker")
prop("P04", "A bit slicer returns exactly the requested bits, in order, and writes them back",
     "Reading consecutive slices of widths 0..32 from a stream of 32-bit words returns the stream's bits in order, most significant first, whatever the sequence of widths and alignments; skipping advances by exactly the given number of bits. "
     "Writing slices produces a stream whose bits are exactly the concatenation of the slices (the last partial word completed with zeros by the flush), no word outside it being touched, so reading back what was written with the same widths returns the slices.",
     "all sequences of slice widths and all stream contents", "no stable test exercises the slicer; errors appear only at particular alignments of slice and word",
     ["src/primitives/f_bit_slicer.c"], "reservoir of pending bits refilled one word at a time", over=("inputs", "histories"),
     level="proof", technique=CB, note="object invariant of the slicer state proved preserved by every operation, hence for every sequence of operations")
prop("P05", "Packed reals read back within one quantization step of the range",
     "Packing a field of floats or doubles at a width of 1..32 bits writes in its header the number of elements, the width, the exponent of the step (a power of two, at most 2^(1-width) times the range) and the minimum; each token is the element's distance to the minimum in whole steps, fits the width, and every bit of it is at its place in the stream; other bits and the source are unchanged. "
     "Unpacking returns every element within one step (plus the truncation of the minimum to 24 bits and rounding) of the original, at the caller's stride, and nothing else is written. A constant field, any sign, any exponent up to 1e38, counts above 2^20 and missing values (which come back exactly as the tag, no valid value being taken for one) are included.",
     "all finite fields, element counts, widths, strides, bit offsets and both header styles", "the stable tests do not call the packer directly; errors need a minimum in a particular binade, a count above 2^20, a straddling alignment or a value colliding with the missing code",
     ["src/packers/compact.tmplc", "src/packers/compact.c", "include/bitPacking.h"], "header of biased exponents and truncated minimum, scale by powers of two, bit-stuffing loop shared with integer packing",
     level="proof", technique=CB, note="per token width (quick: a sample, thorough: 1..32); missing values by the native oracle only")
prop("M01", "Missing values survive encoding; valid values never turn into missing ones",
     "For every element type, encoding a field replaces every missing-value marker by one code that is above every valid value (integer fields: whose largest valid value is below the capacity of the packing width) and copies the valid values; decoding replaces exactly the largest value of the field by the marker, first element included, so encoding then decoding returns the field with missing values exactly where they were. A field without missing values is reported as such and its destination is left alone. Nothing outside the field is written.",
     "all field contents, lengths and element types (float, double, signed and unsigned 32/16/8-bit integers)", "no stable test covers it; failures need a field whose extreme value collides with the code or a missing value in a particular position",
     ["src/fstd98/fst_missing.c"], "fst_*_encode_missing / fst_*_decode_missing / fld_*_anal: code above the maximum, decoded by comparison with the field maximum",
     level="proof", technique=CB, note="per element type, fields of any length up to 2^26, finite values")
prop("D01", "Julian day conversions are exact inverses of the Gregorian calendar",
     "Every valid Gregorian date of years 1 to 9999 converts to its Julian day number, consecutive days have consecutive numbers, and converting the number back returns the same year, month and day; day-of-year results agree with the calendar's leap-year rule.",
     "every Julian day of the documented range, not sampled dates", "no stable test calls the conversions; errors hide in century, leap-day and year-end arithmetic",
     ["src/base/datec.f", "src/base/jdatec.f", "src/base/jjulien.f"], "integer-division date formulas")
prop("D02", "Date stamps and printable dates denote the same instant and convert back exactly",
     "For every representable instant, converting a date-time stamp to the printable or component form and back returns the same stamp, and stamps of later instants decode to later printable dates. Dates outside the representable range or malformed dates are refused with an error code rather than silently altered.",
     "all stamps and all printable dates of the supported range, both old and new style stamps", "module excluded from the stable tests; sampled dates miss boundary stamps and encodings",
     ["src/base/moduledate.f90"], "newdate modes, itdmag/idatmg/ dmagtp conversions")
prop("D03", "Adding an interval to a date and differencing are inverse, in every calendar",
     "Adding n hours to a stamp gives a stamp whose difference with the first is n; in the no-leap-year calendar February 29 never exists, in the 360-day calendar every month has 30 days, and subtracting what was added returns to the start date.",
     "all stamps and hour counts within range, all three calendar modes", "module excluded from the stable tests; interactions of calendar mode, leap days and resolution are combinatorial",
     ["src/base/moduledate.f90"], "incdatr/difdatr with the leap-year correction and the 360-day calendar arithmetic", over=("inputs", "configurations"))
prop("B01", "BURP element codes and block types encode and decode without loss",
     "Every decimal descriptor FXXYYY within range encodes to a 16-bit code and decodes back to itself, distinct descriptors get distinct codes, and array forms convert every element as the scalar forms do and touch nothing else. "
     "A block type assembled from nature, type and subtype gives back exactly these three when taken apart, and an invalid (below -1) block type is refused with nothing changed.",
     "all descriptors, arrays and block types", "no stable test; field packing errors only show for some digits", ["src/burp98_f/mrbcol.F90", "src/burp98_f/mrbdcl.F90", "src/burp98_f/mrbcov.F90", "src/burp98_f/mrbdcv.F90", "src/burp98_f/mrbtyp.F90"],
     "bit fields F(2) X(6) Y(8) of the element code; nature(4) type(7) subtype(4) fields of the block type",
     level="proof", technique=CF, note="all descriptors and arrays of any length")
prop("X01", "A record handle designates one record, and acts on that record only",
     "A handle built for any open file slot, directory page and record position decodes to exactly these, handles of distinct records differ and stay positive. "
     "Reading, describing, erasing or editing through a handle concerns exactly the record at that page and position, of the file that owns it, linked files included; it leaves every other record as it was. Handles that designate no record are refused, and files without write permission are never modified.",
     "all slots, pages, records and handles, all directory contents, linked or not, random and sequential handle coding", "tests use a handful of small files", ["src/fstd98/xdf98.c", "src/fstd98/fstd98.c", "src/fstd98/qstdir.h"], "bit-packed handles; walk of directory pages and linked files", over=("inputs", "histories"),
     level="proof", technique=CB, note="keys of standard files (9 words); the chain of directory pages is assumed in page order; erasing, editing and linked files also exercised natively by histories")
prop("X02", "Directory keys keep every descriptor; searches return exactly the matches",
     "Packing a record description into directory keys and unpacking it returns every field unchanged within its documented range; what does not fit is refused. A search matches a record exactly when every selected field is equal (dates by groups of eight 5-second steps, blank or -1 selects any), erased records excepted; it passes over no match, lists matches in directory order, and continues just after the last one found. "
     "Writing adds exactly one directory entry holding the keys of the record, or rewrites the one sought; it changes no other entry, and the record, page and size counts of the file stay exact.",
     "all key values, key descriptions, selection masks, directory contents and numbers of pages", "library parts excluded from stable tests; field overlap errors show only for particular values", ["src/fstd98/xdf98.c", "src/fstd98/fstd98.c", "src/fstd98/burp98.c", "src/fstd98/qstdir.h"],
     "key packing with per-key bit offsets and lengths; masked comparison of directory entries", over=("inputs", "histories"),
     level="proof", technique=CB, note="random-access files; linked files with a full last page are not written; sequential files by the native oracle only; packers and dates abstracted in the callers' contracts")
prop("S01", "A serialization container returns what was put in, in order, without overrun",
     "An insertion succeeds exactly when its position is valid and the object fits in the capacity; it stores the object's 64-bit elements at that position, zero-fills skipped elements, changes no other element and sets the top to its end; when it fails nothing changes and no memory outside the container is touched. "
     "An extraction succeeds exactly when enough data is held at its position, returns exactly the bytes stored there, writes nothing past the object and moves the extraction point only. Hence elements come out in the order they went in. Storage is released once, by its owner.",
     "all sequences of insertions and extractions, sizes, positions and contents", "one stable test runs a fixed sequence; overflow, repositioning and partial elements need particular histories", ["src/serializer/jar_mod.F90"],
     "jar_put_into / jar_get_outof as state transformers of content, top and bot", over=("inputs", "histories"),
     level="proof", technique=CF, note="capacity below 2^40 elements, any state, position and size; each operation preserves the container invariant, hence every history")
prop("E01", "Byte-, half-word and word-order conversions are exact on every buffer",
     "Swapping a buffer of n 32-bit words reverses the four bytes of each word and touches nothing else; the copying conversions give word k of the destination the bytes (byte-reversed), the halves (exchanged), the neighbour (pair-exchanged) or the same value as word k of the source and touch nothing past it. Each conversion applied twice restores the data; a count of zero or less changes nothing.",
     "all lengths and contents", "no stable test; off-by-one and partial-buffer errors depend on length", ["src/primitives/swap_buffer.c", "src/base/movlev.F90", "src/base/movr8r4.c"], "one conversion loop per word or word pair",
     level="proof", technique=CF, note="all lengths below 2^28 words")
prop("R01", "Checksums do not depend on how the data are cut into pieces",
     "The 16-, 24- and 32-bit cyclic checksums are the standard polynomial remainders of the bytes (of multi-byte tokens: most significant byte first), started, continued and finalised as the mode says. Updating a checksum piecewise over any partition of the tokens gives the same value as one pass, and any change of a single byte changes the checksum. An unknown width leaves the checksum alone. No byte outside the data is read.",
     "all byte strings, partitions, token sizes and previous checksums", "the selftest checks one fixed vector per width; most table entries and combinations of token size and length are never exercised", ["src/primitives/crc_16_24_32.c", "src/primitives/crc16_.c", "src/primitives/crc24_.c", "src/primitives/crc32_.c", "src/primitives/crc32.c"], "table-driven byte update; token order by index mask",
     level="proof", technique=CB, note="any data length below 2^31; every table entry against the polynomial")
prop("R02", "Decryption inverts encryption; digests do not depend on how data are cut",
     "Encrypting a message with a key and decrypting the result with the same key returns the message for every key and length, however either is cut into calls: byte k of the stream is combined with key byte k of the standard generator (first 1024 discarded) and nothing outside the buffer is touched. "
     "The message digest is that of RFC 1321 for every message, independent of how it is cut into updates; keyed digests follow the HMAC construction, keys longer than a block being hashed.",
     "all keys, messages, lengths and partitions", "the selftests use three keys of 8 bytes and seven short one-piece messages; buffering across block boundaries, long lengths and long keys are never exercised", ["src/primitives/arc4.c", "src/primitives/md5.c"], "key schedule and keystream in place; buffered digest update with 64-byte blocks",
     over=("inputs", "histories"), level="proof", technique=CB, note="any message length per call, lock-step with the reference generator and step by step with RFC 1321")
prop("O01", "Sorting routines return an ordered permutation of their input",
     "The index-returning sorts (reals, doubles, integers, strings) return a permutation of 1..n that puts the keys in non-decreasing order, whether the index is initialised by the routine or given as a permutation, without moving the keys or writing outside the n index entries; the in-place sorts leave the input elements, with their multiplicities, in non-decreasing order; reversing the rows of a field keeps every row intact.",
     "all arrays, lengths and starting permutations", "no stable test; ordering errors need particular inputs", ["src/base/ipsort.c", "src/base/sort.f", "src/base/isort.f", "src/base/permut.f"], "comb sort over an index with exclusive-or exchanges; comparison sorts",
     level="proof", technique=CB, note="index sorts: any length below 2^26, partial correctness; in-place heap sorts and row reversal: native oracle only")
prop("A01", "Base-40 text packing round-trips for every legal string",
     "Every string of up to six characters over the base-40 alphabet whose positional value fits a non-negative 32-bit word encodes to that value; a character outside the alphabet counts as a slash and does not disturb its neighbours. Decoding a non-negative word gives its eight base-40 digits as characters, so encoding then decoding returns the string and distinct strings get distinct words.",
     "all strings of up to six characters and all non-negative words", "no stable test; 2 billion words", ["src/base/cvt_base40.f"], "base-40 digits in a 32-bit word",
     level="proof", technique=CF, note="all strings of each length 0..6, all non-negative words")
prop("I01", "Vertical-level encodings decode to the value and kind they encode",
     "Encoding a level or time value of any kind within its documented range and decoding returns the same kind and a value equal to the encoded precision; re-encoding a decoded value returns the same code.",
     "all codes and kinds", "excluded from stable tests; 2^28 codes", ["src/fstd98/convip_plus.f90", "src/fstd98/convert_ip123.f90"], "20-bit mantissa, exponent and kind fields")
prop("Z01", "A field read from a standard file is the field written, for every data type",
     "For each data type of a standard file (raw, packed and IEEE reals, unsigned and signed integers, characters, complex; with or without compression, with or without missing values; element lengths 8, 16, 32, 64 bits) a record read back gives the field written, exactly or within the packing precision of its type: what the writer stores where and how wide is what the reader takes from there. "
     "Compressed records decode to the values the uncompressed form gives, missing values come back as missing exactly where they were, a record copied in image mode is the same record, the field of the caller is left as it was, nothing is written past the field, and neither side touches a byte outside its work buffer.",
     "all data types, widths, element lengths, dimensions, contents and record lengths", "stable tests write two types of one size; layouts differ per type, width, compressibility of the data and file organisation", ["src/fstd98/fstd98.c", "src/compresseur/c_zfstlib.c", "src/compresseur/armn_compress_32.c", "src/primitives/ieeepak.c", "src/packers"],
     "per-type switch in c_fstecr and in c_fstluk around packers and compressors", over=("inputs", "histories"),
     level="proof", technique=CB, note="storage form of writer and reader for every type, width and size below 2^26 elements; the compressors themselves are assumed lossless and exercised by the native oracle")
prop("T01", "Table searches return the bracketing or matching entry for every query",
     "Searching an ordered table of element descriptions returns the position of an entry equal to the query, or reports absence exactly when no entry equals it. Searching an ordered axis returns the unique interval that contains the value, a value outside the axis being given the nearest end interval; levels are located in increasing and in decreasing columns alike. Nothing is written except the result.",
     "all ordered tables, lengths and queries", "tests search one small table", ["src/burp98_f/bufrchr.F90", "src/interp/ez_cherche.inc", "src/interpv/Interp1D_FindPos_Body.inc"], "binary searches",
     level="proof", technique=CF, note="bufrchr up to 2^28 entries, ez_cherche up to 2^23 values; the level search interp1d_findpos is decided by the native oracle only")
prop("C01", "Character conversions keep every character, in order, inside the destination",
     "Conversions between Fortran strings, C strings and characters packed in words give character k of the result exactly the stated character of the source: word/string copies (most significant byte first), C to Fortran (blank padded to the declared length), Fortran to C (terminated; with trimming exactly the trailing blanks disappear), blank-padded copies (refused with -1 when they do not fit), Hollerith words of up to four characters, upper/lower case mapping (only letters change), descriptor strings of standard files. "
     "Narrow integer fields (8 and 16 bits) come back unchanged from their wider storage form. Nothing outside source and destination is read or written, whatever the lengths, empty and all-blank strings included.",
     "all strings, lengths and positions", "no stable test covers these; errors sit at empty, all-blank, exactly fitting strings and at non-ASCII characters",
     ["src/fstd98/r4astrg.c", "src/fstd98/strgr4a.c", "src/fstd98/FC_string.c", "src/base/ftnStrLen.c", "src/primitives/up2low.f", "src/primitives/rah2char.c", "src/primitives/ftn2c_helper_c.c", "src/fstd98/fstd98.c"], "byte and index arithmetic on little-endian words, trailing-blank loops",
     level="proof", technique=CB, note="all lengths below 2^28 (Hollerith: up to 4 characters); the array forms are covered by the native oracle only")
prop("W01", "Whiteboard variables return the last value put, under their access rules",
     "A get returns the value of the last successful put for the same name, type and size, names are case-insensitive, and a put that breaks a variable's write rule or type fails without changing it.",
     "all histories of puts and gets", "excluded from stable tests; rules interact over histories", ["src/whiteboard/WhiteBoard_c.c"], "line/page tables with option rules", over=("inputs", "histories"))
prop("N01", "Server message channels deliver every record once and in order",
     "Data written to a coupling channel are read once, in order and unchanged, whatever the interleaving and sizes of reads and writes.",
     "all schedules of both ends", "needs concurrent processes and failures", ["src/primitives/gossip_sock.c", "src/primitives/mgilib2.c"], "socket and shared-buffer protocols", over=("schedules", "fault_sequences"),
     na="the argument is about interleavings of several processes over sockets and files; no pre-installed deductive verifier handles C socket code with external processes, and contracts on the local buffers alone would not decide it")
prop("F01", "A standard file stays readable after an interrupted update",
     "If a program stops at any point while adding or erasing records, the file reopens with every previously closed record intact.",
     "all crash points of update sequences", "needs fault injection at every write", ["src/fstd98/xdf98.c", "src/fstd98/fstd98.c"], "header, directory page and data writes in order", over=("crash_points", "histories"),
     na="the guarantee is about the order in which separate write system calls reach the disk across the whole library and the file format does not promise it (no journal; the header is only rewritten at close): no function contract expresses it")
prop("V01", "Horizontal and spectral transforms are accurate to rounding",
     "Interpolating a field that the method reproduces exactly, or transforming and inverting, returns the field to within rounding error.",
     "all grids and fields", "tests compare one field with a reference", ["src/interp", "src/spectral", "src/base/fft_m8.f"], "floating-point numerical kernels",
     na="real-valued error analysis of Fortran floating-point kernels with trigonometric functions: no installed deductive verifier has a floating-point Fortran front end, and treating floats as reals would prove a different statement")
prop("U01", "Directive files are interpreted as their grammar says",
     "Every directive file is parsed into the same calls and assignments regardless of layout, and malformed input is reported.",
     "all directive texts", "tests parse one file", ["src/readlx/readlx.F90"], "EQUIVALENCE-based character parser with call-backs by address",
     na="the parser stores routine and variable addresses in integers and calls through them (rmtcall/peek/poke); neither the Fortran front end nor CBMC gives these a meaning, so no contract within reach decides it")
