#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SI, AI, NM = "secret-integers/src/lib.rs", "abstract-integers/src/abstract_int.rs", "abstract-integers/src/nat_mod.rs"
H = "hacspec/src/"
ARR, SEQ, MI, MATH, TR, UT, TM, PO, VI, MU = (H + f + ".rs" for f in
    ("array", "seq", "machine_integers", "math_integers", "traits", "util", "transmute", "poly", "vec_integers", "math_util"))
EX = "spec-examples/src/"
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))

prop("C01", "Machine-integer arithmetic is two's-complement arithmetic of the stated width",
     "For every secret integer type of 8 to 128 bits, signed or unsigned, addition, subtraction, multiplication, bitwise operations, shifts below the width and rotations give exactly the wrapping two's-complement result of that width, also through the compound-assignment forms. The checked operations return the exact result or panic when it does not fit, and the generic wrapping operations of public and secret integers agree with them. Minimum, maximum, zero, one, the printed decimal and hexadecimal forms and conversion from and to the public value are faithful.",
     ["inputs"], "all operand pairs and shift amounts of all ten integer types (the negation of the most negative signed value excepted)",
     "Unit tests add and multiply a handful of small numbers in one or two widths; overflow at each width and sign is never reached.",
     [SI, MI], [("wrapping operators", SI), ("Integer implementation of machine integers", MI)],
     "differential property-based testing against exact big-integer arithmetic reduced to the width (8-bit types exhaustively)",
     "Exhaustive for the 8-bit types, boundary-biased random pairs elsewhere. Trusts num-bigint and the compiler's own integers as the reference.")
prop("C02", "Comparisons and comparison masks agree with the numeric order",
     "For every public and secret machine-integer type, the comparison operations tell exactly whether the numeric relation holds, for all sign and width combinations. A comparison mask is all ones when the relation holds and all zeros otherwise, so it can be used to select without branching.",
     ["inputs"], "all operand pairs of all twenty public and secret integer types (secret signed types: the relations they implement)",
     "The existing tests compare a few small unsigned values; sign boundaries, adjacent values at the top of the range and public signed masks are not reached.",
     [SI, MI], [("comp_* masks", SI), ("*_bm masks and boolean comparisons", MI)],
     "differential property-based testing against the numeric order (8-bit types exhaustively)",
     "All 65536 pairs for 8-bit types; elsewhere pairs biased to equal, adjacent, complementary and sign-differing operands.")
prop("C03", "Conversions between integer types truncate and sign-extend like two's complement",
     "Every conversion offered between secret integer types, and between secret and public ones, keeps the value when it fits and otherwise keeps its low bits; widening a signed value preserves its sign. Converting and reading back never depends on the route taken, and decimal and hexadecimal text of an integer is that of its value.",
     ["inputs"], "all 128-bit patterns through all offered conversions",
     "Tests sample one or two conversions of small positive numbers.",
     [SI, TR], [("From conversions between secret types", SI), ("classify", TR)],
     "differential property-based testing of every conversion pair against the language's integer casts",
     "All 16-bit patterns exhaustively, boundary-biased 128-bit patterns otherwise.")
prop("C04", "Integer/byte encodings follow their byte order and invert each other",
     "Encoding an integer, a list of integers or a word array as bytes yields its little- or big-endian bytes in order, decoding those bytes returns the value, and each direction is the exact inverse of the other, for secret and public types and through every offered interface. Byte input whose length is not a whole number of words is refused, never silently cut. Extracting a single byte returns the byte at that position.",
     ["inputs"], "all words of 8 to 128 bits, lists and arrays of them, and byte buffers of any length",
     "Tests check fixed vectors for 32-bit words; the 16-, 64- and 128-bit, signed and multi-word paths are separate code.",
     [SI, TR, TM, ARR], [("slice encoders and decoders", SI), ("encoding traits", TR), ("free conversion functions", TM), ("byte-array to word views", ARR)],
     "round-trip and differential property-based testing against the standard library's byte encodings",
     "Random boundary-biased words and buffers for each width and interface.")
prop("C05", "Secret values cannot reach variable-time operations in a program that compiles",
     "A program that compares, divides, takes the remainder of, indexes with, branches on, or implicitly unwraps a secret value does not compile, for every secret machine, bounded, modular and array type and wherever in the program the use occurs. The same use on the public counterpart, and every documented operation on the secret type, does compile. The deliberate exits are the explicit declassification operations.",
     ["programs"], "programs built from every listed use on every secret type, placed alone, in functions, generics, closures, match arms and references",
     "Existing tests only contain programs that compile; nothing checks that a leaking program is refused, so an added trait implementation would go unnoticed.",
     [SI, AI, NM, ARR, MATH], [("absence of comparison, division and conversion implementations on secret types", SI), ("secret and public variants of the integer macros", MATH)],
     "grammar-based program generation judged by the compiler (rejected/accepted oracle per program)",
     "Every use on every type once, plus random placements. Documented exceptions are not judged: equality of secret byte sequences, element-wise remainder on secret arrays, conversion of a secret byte to an index.")
prop("C06", "Bounded integers compute exactly or refuse",
     "For integers declared with an arbitrary bound, signed or unsigned, secret or public, every arithmetic operation returns the exact mathematical result when it lies within the declared range and panics otherwise; it never wraps or clamps. Modular power and inverse return the canonical result for the given modulus, prime or not, and a non-zero element without an inverse is refused; comparisons follow the numeric order.",
     ["inputs", "configurations"], "operand pairs of 27 declared types from 4 to 513 bits",
     "Tests use a few literals in one 256-bit type, far from the bounds, where no operation can overflow.",
     [AI, MATH], [("range checks in the bounded-integer macro", AI), ("generic integer traits over it", MATH)],
     "differential property-based testing against exact big integers, operands solved to land on the bound",
     "Random operands biased so that results land at or next to the range limits; trusts num-bigint.")
prop("C07", "Bounded-integer conversions keep the value or refuse it",
     "Building a bounded integer from a literal, a big integer, a hexadecimal string or little-endian bytes yields exactly that value, or panics when it is out of range or malformed. Converting back, printing, powers of two, single-bit tests (of the two's complement, for a negative number) and byte encodings all describe the same value. Minimum and maximum of the declared range are accepted.",
     ["inputs", "configurations"], "values in and just outside the range, all literals, well-formed and malformed strings and byte strings, for 27 declared types",
     "Tests read a few valid constants; boundary, negative, malformed and over-long inputs are not covered.",
     [AI, MATH], [("constructors and conversions of the bounded-integer macro", AI)],
     "round-trip and differential property-based testing against big integers, with malformed-input generation",
     "Random inputs for each declared type; the hexadecimal form of an empty string for signed types is not judged.")
prop("C08", "Modular integers stay reduced and implement ring arithmetic modulo n",
     "Every value of a modular integer type is at all times the canonical representative below its modulus, whatever sequence of constructors and operations produced it. Addition, subtraction and multiplication agree with arithmetic modulo n, and constructors reduce their input or refuse it, never keep it unreduced.",
     ["inputs", "histories", "configurations"], "operands as arbitrary base integers and histories of ring operations for 27 types with moduli from 1 to 1000 bits, prime, composite and powers of two",
     "Tests check one field with small operands; the corner values around 0 and n and other moduli are not sampled.",
     [NM, MATH], [("reduction in constructors and operators", NM)],
     "stateful and differential property-based testing against big-integer arithmetic modulo n",
     "Random operands and histories per modulus; trusts num-bigint.")
prop("C09", "Inverses, powers, quotients and encodings of modular integers are correct",
     "The inverse of a modular integer multiplied by it gives one whenever it exists, for prime and composite moduli; the inverse of zero is zero, and a non-zero element without an inverse is refused. Powers equal repeated multiplication for every exponent; quotient and remainder are those of the representatives. Byte and hexadecimal encodings, comparisons and bit tests describe the canonical representative, and decoding an encoding returns the same element.",
     ["inputs", "configurations"], "elements and exponents over the full range for 27 modular types",
     "Tests invert and exponentiate a few elements of one prime field.",
     [NM, MATH], [("inverse, pow, conversions", NM), ("byte-sequence conversions of public modular integers", MATH)],
     "algebraic-law and differential property-based testing against big-integer arithmetic",
     "Random elements and exponents; trusts num-bigint.")
prop("C10", "Bit manipulation and masked selection do exactly what their condition says",
     "Reading, setting and copying single bits, rotation, and the branch-free conditional swap, set, add, subtract and multiply return the documented result for every operand, position and condition, for every public and secret machine-integer type; a rotation by the width of the type or more is refused. Branch-free division of unsigned integers returns quotient and remainder for every non-zero divisor.",
     ["inputs"], "all operands, bit positions and conditions of twenty integer types",
     "Tests try two or three values in one width.",
     [MU, TR, MI], [("conditional operations", MU), ("bit access", TR)],
     "differential property-based testing against plain bit arithmetic (8-bit types over all operand pairs)",
     "Conditions other than all-zeros and all-ones are documented as undefined and not judged; division is judged for unsigned types.")
prop("C11", "Modular operations on machine integers return the canonical residue",
     "Modular addition, subtraction and multiplication of machine integers return the representative in [0, n) of the exact result, modular reduction does so for negative values as well, and integer power is exact or overflows loudly for public integers and wraps like repeated multiplication for secret ones. The modular inverse returns the unique inverse below n when it exists and is refused otherwise.",
     ["inputs"], "operands and positive moduli of twenty integer types, where the documented intermediate fits the type",
     "Tests use two small moduli; large operands, negative operands and non-invertible elements are not covered.",
     [MI, MU], [("*_mod operations", MI), ("extended Euclid inverse", MU)],
     "differential property-based testing against big integers (8- and 16-bit inverses exhaustively over their domain)",
     "Inverses are judged where n*n is representable; unsigned modular addition and multiplication where the plain result is.")
prop("C12", "Sequences and arrays behave like fixed-length vectors under every history",
     "After any history of constructions, reads, writes, slices and copies, a sequence or array holds exactly the elements a plain vector would hold, its length never changes, and operations that yield a modified copy leave the original alone. An access, slice or update that does not lie inside the container is refused instead of touching other elements.",
     ["histories", "inputs"], "histories of up to 20 operations on containers of 30 types and lengths, with ranges inside and outside the container",
     "Tests check single calls with in-range constants; interactions of ranges, lengths and successive updates are not reached.",
     [SEQ, ARR, TR], [("update and sub-slice operations", TR), ("array macro", ARR), ("sequence macro", SEQ)],
     "stateful model-based testing against a plain vector",
     "Random histories; zero-length operations at out-of-range positions may be refused or be no-ops.")
prop("C13", "Chunking covers a container exactly once",
     "Splitting a container into chunks of any positive size yields ceil(length/size) chunks, all of full size except possibly the last, whose concatenation is the container; the reported chunk length is the number of elements returned. Writing chunks back in any order reproduces the container with exactly the written parts replaced, and a chunk of the wrong length is refused.",
     ["inputs", "histories"], "containers of 15 types, chunk sizes from 1 to beyond the length and all orders of writing",
     "Tests use one length and chunk size that divide nicely.",
     [SEQ, ARR], [("get_chunk, set_chunk, num_chunks", SEQ), ("the same for arrays", ARR)],
     "model-based property-based testing against slices of a plain vector",
     "Random containers, sizes and orders; chunk indices outside the container are not judged.")
prop("C14", "Element-wise operators act on each position independently",
     "Arithmetic and bitwise operators on arrays and sequences apply the element operation at every position and nothing else: the result has the operands' length and position i depends only on the operands' position i. Equality of public containers, and the explicit comparison of secret ones, holds exactly when lengths and all elements agree.",
     ["inputs"], "pairs of containers of 26 element types and lengths",
     "Tests add two or three small vectors; xor of public sequences, long and empty containers are not exercised.",
     [VI, ARR, SEQ], [("operator implementations", VI)],
     "differential property-based testing against a per-element model",
     "Operators that the library leaves unimplemented are not judged; arithmetic overflow of public elements must panic as the element type does.")
prop("C15", "Hexadecimal and word views of byte containers are faithful and validating",
     "Parsing a hexadecimal string yields the bytes it denotes in order, printing yields two lower-case digits per byte, and each inverts the other. Strings that are not hexadecimal, have odd length, carry signs or do not match the array length are refused. Views of byte arrays as words and of word arrays as bytes keep every byte at its place in the chosen byte order.",
     ["inputs"], "byte strings of any content, well-formed and malformed strings, and word arrays of every width",
     "Tests parse a few valid vectors.",
     [UT, ARR, SEQ], [("hex parser", UT), ("to_hex, from_hex and word views", ARR)],
     "round-trip property-based testing plus malformed-string generation",
     "Hexadecimal input is judged for byte arrays and byte sequences.")
prop("C16", "Polynomial addition, subtraction and multiplication are those of the ring",
     "For coefficient vectors of any lengths over the integers or modulo n, sum, difference and product are the coefficients of the exact polynomial result, reduced into [0, n) when a modulus is given. Padding with zero coefficients never changes the value, and degree and leading coefficient are reported correctly.",
     ["inputs"], "coefficient vectors of length 0 to 12 over 15 public and secret integer types, without and with prime and composite moduli",
     "Tests multiply a few fixed polynomials over one modulus.",
     [PO, VI], [("poly_add, poly_sub, poly_mul", PO)],
     "differential property-based testing against big-integer polynomials",
     "Judged when the intermediate values are representable in the coefficient type.")
prop("C17", "Polynomial division returns quotient and remainder",
     "Dividing polynomials returns q and r with dividend = q*divisor + r and deg r < deg divisor, both reduced, for every divisor whose leading coefficient allows it. A divisor that is zero or whose leading coefficient has no inverse is refused rather than producing a wrong answer.",
     ["inputs"], "dividends and divisors over Z and over prime and composite moduli in 8 integer types",
     "Tests divide three fixed pairs over one prime.",
     [PO], [("poly_div", PO)],
     "validity-predicate and differential property-based testing against exact long division",
     "Divisors with coefficients outside [0, n) and zero divided by zero are not judged; a shorter dividend over a non-invertible divisor may be refused or returned as the remainder.")
prop("C18", "Quotient-ring polynomials form the ring Z_n[x]/(m)",
     "Elements of a declared polynomial ring are always reduced modulo n and modulo the ring's polynomial; sums, differences, products, division and inverses satisfy the ring's laws and agree with exact polynomial arithmetic. An element's inverse times the element is one when the inverse exists and it is refused otherwise; no coefficient of a constructor's input is dropped.",
     ["inputs", "configurations"], "element pairs of 17 declared rings over prime and composite moduli, including AES's, Kyber's and NTRU-Prime-like ones",
     "Tests check one or two products in small rings.",
     [PO], [("poly! macro", PO), ("constant-time polynomial inversion", PO)],
     "algebraic-law and differential property-based testing against big-integer quotient-ring arithmetic",
     "Random dense, sparse and constant elements of each ring; the inversion is also run modulo arbitrary, also reducible, polynomials.")
prop("C19", "SHA-256 equals FIPS 180-4 for every message",
     "The hash of any byte string, of any length, is its SHA-256 digest; in particular at and around every padding and block boundary. The message is not altered.",
     ["inputs"], "byte strings of length 0 to several kilobytes (thorough: also beyond 2^29 bytes, where the length field needs 33 bits)",
     "Tests hash three short standard vectors; lengths at block boundaries are not among them.",
     [EX + "sha2/sha2.rs"], [("padding and compression", EX + "sha2/sha2.rs")],
     "differential property-based testing against an independent implementation, every length up to 576 bytes",
     "Reference written from the standard and self-tested on published vectors.")
prop("C20", "HMAC and HKDF equal RFC 2104 and RFC 5869 for every input",
     "The MAC of any text under a key of any length, and extraction and expansion for any salt, key material, info and output length up to 255 blocks, are the values the standards define; longer outputs are refused. Output has exactly the requested length and a shorter output is a prefix of a longer one.",
     ["inputs"], "keys around the block length, texts, salts, infos and output lengths 0 to 8160",
     "Tests run the RFC vectors only, none of which uses a key of exactly one block, an empty info at a boundary, or the largest output.",
     [EX + "hmac/hmac.rs", EX + "hkdf/hkdf.rs"], [("key padding and nesting", EX + "hmac/hmac.rs"), ("extract and expand", EX + "hkdf/hkdf.rs")],
     "differential property-based testing against an independent implementation, every key length to 131 and output length",
     "Reference written from the standards and self-tested on published vectors.")
prop("C21", "SHA-3 and SHAKE equal FIPS 202 for every message and output length",
     "The four fixed-length hashes and both extendable-output functions return the values FIPS 202 defines for every message and requested output length, including every position relative to the rate. A shorter extendable output is a prefix of a longer one.",
     ["inputs"], "byte strings of length 0 to several rates for all six functions and output lengths 0 to several rates",
     "Tests run a handful of standard vectors; multi-block squeezing and the last-byte padding corner are not covered for each rate.",
     [EX + "fips202/fips202.rs"], [("sponge and permutation", EX + "fips202/fips202.rs")],
     "differential property-based testing against an independent implementation, every length up to two rates",
     "Reference written from the standard (round constants and offsets derived, not copied) and self-tested on published vectors.")
prop("C22", "BLAKE2b equals RFC 7693 for every message",
     "The 64-byte BLAKE2b digest of any byte string equals the one RFC 7693 defines for the unkeyed hash, including the empty message and messages ending exactly on a block boundary.",
     ["inputs"], "byte strings of length 0 to several kilobytes",
     "Tests hash a few vectors, none empty or a multiple of the block length.",
     [EX + "blake2/blake2b.rs"], [("block loop and finalisation", EX + "blake2/blake2b.rs")],
     "differential property-based testing against an independent implementation, every length up to 640 bytes",
     "Reference written from the RFC and self-tested on published vectors. Only the documented 64-byte variant is claimed.")
prop("C23", "ChaCha20 equals RFC 8439 and decrypts what it encrypted",
     "The quarter round, the block function and the stream cipher return the values RFC 8439 defines for every key, nonce, counter and message, for every message length. Encrypting twice with the same key and nonce returns the message.",
     ["inputs"], "keys, nonces, counters, states and messages of 0 to several thousand bytes",
     "Tests run the RFC's two or three vectors.",
     [EX + "chacha20_poly1305/chacha20.rs"], [("quarter round, block, stream", EX + "chacha20_poly1305/chacha20.rs")],
     "differential property-based testing against an independent implementation, every length up to 399 bytes",
     "Reference written from the RFC and self-tested on its vectors.")
prop("C24", "Poly1305 equals RFC 8439 for every key and message",
     "The authenticator of any message under any 32-byte key is the value RFC 8439 defines, including keys and messages that drive the accumulator to the edges of the field and the final addition past 2^128. The key-generation form uses the first ChaCha20 block.",
     ["inputs"], "keys (also with extreme r and s) and messages of 0 to several thousand bytes, some solved so that the accumulator lands at a boundary",
     "Tests run a few vectors; wrap-around of the final addition and accumulator values near the prime are not hit.",
     [EX + "chacha20_poly1305/poly1305.rs"], [("field arithmetic, clamping and final addition", EX + "chacha20_poly1305/poly1305.rs")],
     "differential property-based testing against big-integer evaluation, with inputs solved for field boundaries",
     "Reference by big integers, self-tested on RFC vectors.")
prop("C25", "ChaCha20-Poly1305 seals as RFC 8439 and opens only genuine ciphertexts",
     "Encryption returns the ciphertext and tag RFC 8439 defines for every key, nonce, associated data and message. Decryption returns the message for exactly those tuples the reference accepts, and an error for every tuple with any bit of key, nonce, data, ciphertext or tag changed, moved, added or removed.",
     ["inputs"], "keys, nonces, associated data and messages of all length combinations, and tampered tuples",
     "Tests open one genuine vector; rejection of forgeries is hardly exercised.",
     [EX + "chacha20_poly1305/chacha20poly1305.rs"], [("padding, tag comparison", EX + "chacha20_poly1305/chacha20poly1305.rs")],
     "differential and metamorphic (tampering) property-based testing, every tag bit and length pair",
     "Reference self-tested on the RFC vector; a forged tuple is one the reference rejects.")
prop("C26", "AES equals FIPS 197 and counter mode is its own inverse",
     "The block function with 128- and 256-bit keys equals FIPS 197 for every key and block. Counter mode equals SP 800-38A with a 32-bit big-endian counter for every nonce, counter and message length, and decrypting an encryption returns the message.",
     ["inputs"], "keys, blocks, nonces, counters (also where the counter carries) and messages",
     "Tests run a few standard vectors.",
     [EX + "aes_gcm/aes.rs"], [("key expansion, rounds, counter mode", EX + "aes_gcm/aes.rs")],
     "differential property-based testing against an independent implementation, every length up to 199 bytes",
     "Reference derives the S-box from the field definition and is self-tested on FIPS 197 vectors.")
prop("C27", "AES-GCM seals as SP 800-38D and opens only genuine ciphertexts",
     "Authentication and encryption return the values SP 800-38D defines for every key, nonce, associated data and message. Decryption returns the message for exactly the tuples the reference accepts and an error for every tuple with any bit changed, moved, added or removed.",
     ["inputs"], "128- and 256-bit keys, nonces, associated data and messages of all length combinations, and tampered tuples",
     "Tests run a few vectors with short data; rejection is hardly exercised.",
     [EX + "aes_gcm/aesgcm.rs", EX + "aes_gcm/gf128.rs"], [("GHASH", EX + "aes_gcm/gf128.rs"), ("padding, tag", EX + "aes_gcm/aesgcm.rs")],
     "differential and metamorphic (tampering) property-based testing, every single-bit GHASH product exhaustively",
     "Reference self-tested on published GCM vectors.")
prop("C28", "X25519 equals RFC 7748 for every scalar and point",
     "Scalar multiplication returns the value RFC 7748 defines for every 32-byte scalar and point, including non-canonical, twist and small-order points and the ignored top bit. Public-key derivation is multiplication of the base point, and two parties derive the same shared secret.",
     ["inputs"], "32-byte scalars and points, including special points",
     "Tests run the RFC vectors; special points and public-key derivation are not covered.",
     [EX + "curve25519/curve25519.rs"], [("ladder, encoding, clamping", EX + "curve25519/curve25519.rs")],
     "differential property-based testing against affine curve arithmetic over big integers",
     "Reference uses affine group law on curve and twist and is self-tested on RFC 7748 vectors.")
prop("C29", "P-256 base-point multiplication is the group's scalar multiplication",
     "Multiplying the base point by any scalar below 2^256 returns the affine coordinates of that multiple on the curve of FIPS 186-4, including scalars near the group order and sparse ones.",
     ["inputs"], "scalars below 2^256 not divisible by the group order (which give the library's fixed answer)",
     "Tests run a fixed list of small and random multiples.",
     [EX + "p256/p256.rs"], [("Jacobian ladder", EX + "p256/p256.rs")],
     "differential property-based testing against the affine group law over big integers",
     "Reference self-tested on published multiples; multiples of the group order must give the library's (0,0).")
prop("C30", "Test-vector files are read exactly as written or refused",
     "Loading a JSON test-vector file yields records whose fields hold exactly the file's values, whatever its key order, white space, string escapes and additional keys, and in file order for lists. A file that is missing, truncated, malformed, followed by other text, or whose values have the wrong type or range or are absent or duplicated is refused; it is never read as something else.",
     ["inputs", "fault_sequences"], "records and lists of records with nested lists, in generated spellings, and files with injected faults",
     "The tests load one small well-formed file.",
     ["hacspec-dev/src/test_vectors.rs"], [("loader macro", "hacspec-dev/src/test_vectors.rs")],
     "round-trip property-based testing over generated JSON texts with fault injection",
     "An independent JSON writer; trusts the file system. Extra unknown keys are ignored by design.")
prop("C31", "Operations are silent, repeatable and leave their arguments alone",
     "No operation of the library or the example specifications writes to the standard output or error stream, whether it succeeds or reports an error value. Its borrowed arguments are unchanged afterwards and calling it again with the same arguments, after any other calls or while other threads call it, gives the same result or the same refusal.",
     ["inputs", "histories"], "about seventy operations across all crates on generated inputs, each executed twice, in two orders and concurrently",
     "The test runner captures and hides output, and tests never look at it; a leftover debug print of a secret passes every test.",
     [SI, AI, MU, PO, EX + "lib.rs"], [("pure functions without prints or state", H + "lib.rs")],
     "property-based testing with the process's standard streams monitored around every call, repeat-call metamorphic oracle",
     "Watches file descriptors 1 and 2; panics are allowed to print through the usual hook, which the harness mutes.")
prop("C32", "What executes never depends on a secret machine integer",
     "For operations on secret machine integers other than explicit declassification, on sequences and arrays of them, and for the example ciphers and hashes built only from them, the branches taken, the array positions touched and the divisors used depend only on public lengths, positions and shift amounts, never on secret values. This covers wrapping arithmetic, comparison masks, conditional selection, branch-free division, byte conversions, ChaCha20, SHA-2, SHA-3, BLAKE2b, HMAC and HKDF.",
     ["inputs", "programs"], "pairs of secrets of the same shape for about sixty operations, each executed with both",
     "A result-checking test cannot see how a result was computed: an early exit or a branch on a secret gives the same output.",
     [SI, MU, MI, EX + "sha2/sha2.rs", EX + "chacha20_poly1305/chacha20.rs"], [("mask-based comparisons", SI), ("conditional operations without branches", MU)],
     "property-based testing: two-run (noninterference) comparison of execution traces from compiler instrumentation, and generated shapes with secrets tainted (valgrind)",
     "Traces edges, non-constant array indices and divisors of code compiled without optimisation or debug assertions; says nothing about what an optimiser adds, nor about AES, GHASH, Poly1305 and big-integer types, which are documented as variable-time.")
prop("C33", "Random containers have the requested length and are drawn anew each time",
     "A random sequence, array or vector of elements has exactly the requested length, and each of its elements ranges over all values of the element type, in every bit and independently of its neighbours; a random ring element's coefficients range over [0, n). Two calls never return the same content for containers of sixteen bytes or more, whether made one after the other, in different threads or in different processes.",
     ["inputs", "schedules"], "lengths from 0 to 70000, all public and secret element types, thousands of draws, draws from concurrent threads and new processes",
     "No test draws a random container at all; a short, biased, repeating or fixed-seed draw would pass every test.",
     [SEQ, ARR, PO], [("Seq::random", SEQ), ("random and get_random_vec of arrays", ARR), ("random ring elements", PO)],
     "statistical property-based testing: invariants over many draws of generated length and type, with negligible error bounds",
     "Judges bit and byte statistics with a false-alarm probability below 2^-60; says nothing about the quality of the operating system's generator.")
prop("C34", "The stand-alone example specifications compute what they say",
     "The ChaCha20 example of the secret-integers crate encrypts and decrypts every message, under every key, nonce and starting counter, as RFC 8439 does. The field-multiplication example returns the product modulo 2^255 - 19 for all limbs its precondition admits, with limbs small enough for the next multiplication.",
     ["inputs"], "keys, nonces, counters up to the wrap, messages of every length to several blocks; limbs at all edges below 2^54",
     "The examples are only compiled; nothing runs them.",
     ["secret-integers/examples/chacha20.rs", "secret-integers/examples/dalek.rs", SI], [("secret-integer operators used in place", SI)],
     "differential property-based testing against an independent ChaCha20 and big-integer arithmetic",
     "Every length up to 519 bytes; the examples are compiled into the check from the working tree.")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none (no hooks were needed)", "enable": "nothing to enable: checks use the public interfaces of the crates in /repo", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "check.sh builds the harness (path dependencies on /repo's crates) and runs one property; see DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
import jsonschema
S = "/root/.vp/"
for line in open(os.path.join(ROOT, "properties.jsonl")):
    jsonschema.validate(json.loads(line), json.load(open(S + "PROPERTIES.schema.json")))
jsonschema.validate(manifest, json.load(open(S + "MANIFEST.schema.json")))
for p in P:
    for f in p["files"] + [m[1] for m in p["mech"]]:
        assert os.path.exists("/repo/" + f), f
    assert p["statement"].count(". ") <= 2 and len(p["statement"].split(". ")) <= 3, p["id"]
print(len(P), "properties")
