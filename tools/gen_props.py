#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long strings stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=hook)))

p("C01","SHA-256 digests equal FIPS 180-4 for every message",
 "For every byte string, the SHA-256 digest returned by the one-shot and the streaming API is exactly the FIPS 180-4 SHA-256 digest of that byte string, whatever its length and content and whatever total length the padding has to encode. Hashing never panics or fails.",
 ["inputs","configurations"],"all messages (every content, every length incl. the padding boundaries and totals beyond 2^32 bits), std and no_std builds",
 "The tests hash a handful of fixed strings plus one fixed byte pattern per length up to 256; nothing covers other contents, padding with totals over 64000 bytes, or both code paths for the same message.",
 ["src/sha256.rs","src/internal_macros.rs"],
 [dict(name="software_process_block / process_block_simd_x86_intrinsics compression",where="src/sha256.rs"),dict(name="engine_input_impl! buffering",where="src/internal_macros.rs"),dict(name="HashEngine::finalize padding",where="src/sha256.rs")],
 [dict(name="Engine.h",meaning="chaining value",where="src/sha256.rs"),dict(name="Engine.buffer/length",meaning="pending partial block and total byte count",where="src/sha256.rs")],
 ["sha256::Hash::hash","sha256::Engine::{input,finalize}"])
p("C02","SHA-256 hardware and portable paths agree and are chosen safely",
 "For every chaining state and every 64-byte block, the x86 SHA-extension code path and the portable code path produce the same next state, so a digest never depends on the CPU it was computed on. The accelerated path is entered only on a CPU that reports every instruction-set extension it uses.",
 ["inputs","configurations"],"all 2^256 chaining states x all 2^512 blocks x every combination of reported CPU features",
 "A test run executes on one CPU, hence one path, and never compares the two; a test cannot vary the feature-detection result.",
 ["src/sha256.rs"],
 [dict(name="Engine::process_block dispatch on is_x86_feature_detected!",where="src/sha256.rs"),dict(name="process_block_simd_x86_intrinsics",where="src/sha256.rs"),dict(name="software_process_block",where="src/sha256.rs")],
 [dict(name="Engine.h",meaning="chaining value written by either path",where="src/sha256.rs")],["sha256::Engine::input"])
p("C03","SHA-512, SHA-384 and SHA-512/256 digests equal FIPS 180-4",
 "For every byte string, the SHA-512, SHA-384 and SHA-512/256 digests returned by the library are exactly the FIPS 180-4 digests of that byte string: each variant uses its own initial value, 128-byte blocks with a 16-byte length field, and its own truncation. Hashing never panics or fails.",
 ["inputs","configurations"],"all messages, all lengths, three variants",
 "The tests hash a few fixed strings; SHA-512/256 and SHA-384 see no message longer than one or two blocks and no test looks at the padding boundary at 111/112 bytes for every variant.",
 ["src/sha512.rs","src/sha384.rs","src/sha512_256.rs","src/internal_macros.rs"],
 [dict(name="process_block",where="src/sha512.rs"),dict(name="finalize padding and truncation",where="src/sha512.rs, src/sha384.rs, src/sha512_256.rs")],
 [dict(name="Engine.h/length/buffer",meaning="chaining value, total length, pending bytes",where="src/sha512.rs")],["sha512::Hash::hash","sha384::Hash::hash","sha512_256::Hash::hash"])
p("C04","SHA-1 digests equal FIPS 180-4 for every message",
 "For every byte string, the SHA-1 digest returned by the library is exactly the FIPS 180-4 SHA-1 digest of that byte string, whatever its length and content. Hashing never panics or fails.",
 ["inputs"],"all messages, all lengths","Three short fixed strings and three constant-byte messages are tested.",
 ["src/sha1.rs","src/internal_macros.rs"],[dict(name="process_block",where="src/sha1.rs"),dict(name="finalize padding",where="src/sha1.rs")],
 [dict(name="Engine.h/length/buffer",meaning="chaining value, total length, pending bytes",where="src/sha1.rs")],["sha1::Hash::hash"])
p("C05","RIPEMD-160 digests equal the published algorithm for every message",
 "For every byte string, the RIPEMD-160 digest returned by the library is exactly the digest defined by the RIPEMD-160 specification (Dobbertin, Bosselaers, Preneel 1996), whatever its length and content. Hashing never panics or fails.",
 ["inputs"],"all messages, all lengths","Four short fixed strings and three constant-byte messages are tested; 160 hand-written round lines are exercised only through them.",
 ["src/ripemd160.rs","src/internal_macros.rs"],[dict(name="process_block! macro table of 160 steps",where="src/ripemd160.rs"),dict(name="finalize little-endian padding",where="src/ripemd160.rs")],
 [dict(name="Engine.h/length/buffer",meaning="chaining value, total length, pending bytes",where="src/ripemd160.rs")],["ripemd160::Hash::hash"])
p("C06","SipHash-2-4 equals its specification for every key and message",
 "For every 128-bit key and every byte string, the SipHash-2-4 value is the one defined by Aumasson and Bernstein, through every entry point: keyed or default engine, one-shot or streaming, byte-array or 64-bit-integer result. Converting the result between its byte form and its integer form is lossless and little-endian, and a new engine reports the keys it was given.",
 ["inputs"],"all keys, all messages, all lengths modulo 8 and modulo 256, all entry points",
 "The tests use one key and one byte pattern for lengths 0-63; the length byte wraps only at 256, which only the default key with a constant byte reaches.",
 ["src/siphash24.rs"],[dict(name="Engine::input tail handling with unchecked loads",where="src/siphash24.rs"),dict(name="finalize / from_engine_to_u64",where="src/siphash24.rs")],
 [dict(name="Engine.tail/ntail/length/state",meaning="pending bytes, total length and SipHash state",where="src/siphash24.rs")],["siphash24::Hash::{hash,hash_with_keys,hash_to_u64_with_keys,from_engine_to_u64,as_u64,from_u64}"])
p("C07","Streaming: the digest depends only on the bytes, not on how they were fed",
 "For every hash function and HMAC, feeding a message in any number of pieces of any sizes (including empty ones), through one engine or a clone taken midway, gives the same digest as hashing the concatenation at once, and all one-shot, engine-based and chunk-iterator entry points agree. The reported number of hashed bytes grows by exactly the number of bytes fed, and a clone and its original do not affect each other.",
 ["inputs","histories"],"all messages and all ways to cut them into successive calls, for all engines",
 "The tests feed byte by byte or all at once; cuts that straddle a block or word boundary from an arbitrary fill level, and the chunk-iterator entry point, are not exercised.",
 ["src/internal_macros.rs","src/lib.rs","src/siphash24.rs","src/hmac.rs","src/sha256t.rs"],
 [dict(name="engine_input_impl!",where="src/internal_macros.rs"),dict(name="HashEngine::{hash,hash_byte_chunks,n_bytes_hashed}",where="src/lib.rs"),dict(name="siphash24 Engine::input",where="src/siphash24.rs")],
 [dict(name="buffer fill level",meaning="length modulo block size",where="src/internal_macros.rs")],["HashEngine::{input,hash,hash_byte_chunks,finalize,n_bytes_hashed}"])
p("C08","Writer adapters feed the engine everything and never fail",
 "Every engine that can be used as a byte writer accepts each write completely: the write reports success and the full length of the buffer, has exactly the same effect on all later results as feeding the same bytes directly, and flushing succeeds and changes nothing. This holds for both the standard-library writer interface and the no-std one.",
 ["inputs","histories"],"all buffers, all engine fill levels, every writer implementation (SHA-1, SHA-256, SHA-512, RIPEMD-160, SipHash, tagged SHA-256, HMAC)",
 "The tests call write_all on three fixed buffers per engine from a fresh engine, and never inspect the returned count or flush; tagged SHA-256 has no writer test.",
 ["src/impls.rs"],[dict(name="impl_write! and hand-written Write impls",where="src/impls.rs")],None,["std::io::Write / bitcoin_io::Write for the engines"])
p("C09","HMAC equals RFC 2104 for every key and message",
 "For every underlying hash function, every key (empty, shorter than, equal to and longer than a block) and every message, the HMAC result is H((K xor opad) || H((K xor ipad) || message)) as defined by RFC 2104, with keys longer than one block hashed first and shorter keys zero-padded. The default engine is the HMAC with the empty key.",
 ["inputs","configurations"],"all keys and messages, for HMAC over SHA-1, SHA-256, SHA-384, SHA-512, SHA-512/256, RIPEMD-160, SipHash-2-4 and tagged SHA-256",
 "Only HMAC-SHA-256 is tested, with six keys (20, 4, 20, 25, 131, 131 bytes); the 64/65 and 128/129-byte boundaries and every other hash are untested.",
 ["src/hmac.rs"],[dict(name="Engine::new key preparation",where="src/hmac.rs"),dict(name="HashEngine::finalize for hmac::Engine",where="src/hmac.rs")],
 [dict(name="iengine/oengine",meaning="inner and outer hash engines",where="src/hmac.rs")],["hmac::Engine::new","hmac::Hash::from_engine"])
p("C10","Exported midstates resume hashing exactly",
 "For every engine (all hashes, tagged SHA-256 and HMAC), exporting the midstate after a whole number of blocks and resuming from it with the byte count reported by the engine yields an engine with the same byte count, the same midstate, and the same digest for every continuation. The exported midstate is the chaining value of the standard in the hash's own byte order, and resuming a block-based hash (the SHA family, tagged SHA-256, RIPEMD-160) with a byte count that is not a whole number of blocks is refused by a panic rather than accepted.",
 ["inputs","histories"],"all message prefixes that are a whole number of blocks, all continuations, all engines, all byte counts below 2^61",
 "Only SHA-256 has midstate tests, from one prefix; no test resumes any other engine.",
 ["src/sha256.rs","src/sha512.rs","src/sha384.rs","src/sha512_256.rs","src/sha1.rs","src/ripemd160.rs","src/siphash24.rs","src/hmac.rs","src/sha256t.rs"],
 [dict(name="HashEngine::{midstate,from_midstate}",where="src/*.rs")],
 [dict(name="Midstate",meaning="serialized chaining value",where="src/lib.rs")],["HashEngine::midstate","HashEngine::from_midstate"])
p("C11","Tagged and compile-time SHA-256 agree with ordinary SHA-256",
 "For every byte string, the const-context SHA-256 equals the run-time SHA-256 of the same bytes. For every tag, the const-context tag midstate is the SHA-256 state after SHA-256(tag) || SHA-256(tag), and a tagged hash built from it equals SHA-256(SHA-256(tag) || SHA-256(tag) || message) for every message.",
 ["inputs"],"all byte strings, tags and messages",
 "Tests compare one byte pattern per length up to 256, one tag and one one-byte message.",
 ["src/sha256.rs","src/sha256t.rs"],[dict(name="Midstate::const_hash / hash_tag",where="src/sha256.rs"),dict(name="sha256t::Engine / Hash",where="src/sha256t.rs")],None,
 ["sha256::Hash::const_hash","sha256::Midstate::hash_tag","sha256t::Hash::hash"])
p("C12","Crate features never change a digest",
 "For every message and every hash function, builds with the small-code feature, without the standard library, and with default features return the same digest, and so do optimised builds and builds with run-time checks enabled.",
 ["inputs","configurations"],"all messages x feature sets {default, no-default, small-hash with and without std} x {checked, optimised} builds",
 "Each feature set is tested on its own against the same few vectors; no test compares builds, and optimised builds are not tested at all.",
 ["src/sha256.rs","src/sha512.rs","src/ripemd160.rs","Cargo.toml"],[dict(name="small_hash vs fast_hash round implementations",where="src/sha256.rs, src/sha512.rs, src/ripemd160.rs")],None,["Hash::hash of every module"])
p("C13","Hex text form is exact, and parsing is its strict inverse",
 "For every hash or midstate value, the default and lower-hex text is exactly the bytes in order as two lower-case digits each, upper-hex is the same in upper case, and the alternate and debug forms only add the 0x prefix where the type does so. Parsing accepts exactly the strings of twice the byte length made of hex digits in either case and returns the denoted bytes, so parsing a printed value gives the value back; every other string is rejected with an error, never a panic.",
 ["inputs"],"all values of all hash types and the SHA-256 midstate; all strings",
 "Tests print and parse a few fixed digests per type; malformed strings, upper case and the remaining types are not tested.",
 ["src/internal_macros.rs","src/hmac.rs","src/sha256.rs","src/sha256t.rs"],[dict(name="arr_newtype_fmt_impl!, FromStr in hash_trait_impls!",where="src/internal_macros.rs"),dict(name="Display/LowerHex/UpperHex/FromStr for hmac::Hash",where="src/hmac.rs")],None,
 ["Display/LowerHex/UpperHex/Debug/FromStr"])
p("C14","Serde form round-trips and rejects malformed data",
 "For every hash or midstate value, serializing to a human-readable format emits the hex string and to a binary format emits exactly the raw bytes, and deserializing either gives the value back. Deserializing a byte string of any other length, or text that is not exactly the right number of hex digits, is an error and never a panic or a different value.",
 ["inputs"],"all values, both format kinds, all byte strings and texts offered by a deserializer, all hash types",
 "The serde tests round-trip one fixed value for a few types and never deserialize malformed data.",
 ["src/serde_macros.rs","src/hmac.rs"],[dict(name="HexVisitor / BytesVisitor / SerdeHash",where="src/serde_macros.rs")],None,["Serialize/Deserialize"])
p("C15","Byte views and conversions are exact and length-checked",
 "For every hash type, building a value from a slice succeeds exactly when the slice has the type's byte length, and the error otherwise reports both lengths and says so in its message; every conversion from and to bytes (array, slice, vector, reference, mutable reference, indexing) preserves the bytes and their order. Writing through a mutable reference view changes the underlying array and vice versa, and the all-zeros value is all zero bytes.",
 ["inputs"],"all byte strings of all lengths, all values, all index ranges, all hash types and the SHA-256 midstate",
 "Tests only call from_slice with correctly sized slices and view whole values; the unsafe reference casts and the error path are untested.",
 ["src/internal_macros.rs","src/hmac.rs","src/sha256t.rs","src/sha256.rs","src/lib.rs"],[dict(name="hash_type! / hash_trait_impls!",where="src/internal_macros.rs"),dict(name="unsafe reference casts",where="src/internal_macros.rs, src/hmac.rs, src/sha256t.rs"),dict(name="FromSliceError",where="src/lib.rs")],None,
 ["from_slice","from_byte_array","to_byte_array","as_byte_array","as_bytes","to_bytes","AsRef","Index","from_bytes_ref","from_bytes_mut","all_zeros"])
p("C16","Equality, ordering and hashing of hash values are coherent",
 "For every pair of values of one hash type, they compare equal exactly when their bytes are equal, and their ordering is the lexicographic order of their bytes with partial and total comparison and all comparison operators in agreement. Equal values feed identical data to a hasher and different values feed different data, clones equal their original, and a default value (where one exists) is all zeros.",
 ["inputs"],"all pairs of values of every hash type and the SHA-256 midstate",
 "No test compares two different values for order or feeds a hasher; tagged hashes implement these traits by hand.",
 ["src/internal_macros.rs","src/hmac.rs","src/sha256t.rs","src/sha256.rs"],[dict(name="derives and manual impls",where="src/sha256t.rs, src/internal_macros.rs, src/hmac.rs")],None,["PartialEq","Ord","PartialOrd","core::hash::Hash","Clone","Default"])
p("C17","Fixed-time comparison returns exactly byte equality",
 "For every two slices of equal length, the fixed-time comparison returns true exactly when all bytes are equal, whatever the length and position of the difference. For slices of different lengths it panics instead of returning a result.",
 ["inputs"],"all pairs of slices","31 hand-picked pairs of length one or two.",
 ["src/cmp.rs"],[dict(name="OR-accumulation and bit folding in fixed_time_eq",where="src/cmp.rs")],None,["cmp::fixed_time_eq"])
p("C18","Fixed-time comparison does not branch on or index by the data",
 "For slices of a given length, the sequence of branches taken and memory addresses accessed by the fixed-time comparison is the same for every content of the slices, in optimised as well as unoptimised builds; only the returned value depends on the content. In particular it never stops early at the first difference.",
 ["inputs","configurations"],"all contents of both slices at each length; checked and optimised builds",
 "Functional tests observe only the result, never the execution trace.",
 ["src/cmp.rs"],[dict(name="volatile accumulator loop",where="src/cmp.rs")],None,["cmp::fixed_time_eq"])
p("C19","Hashing stays within the memory it was given",
 "No safe call of the library reads or writes outside the slices, arrays and engine objects passed to it, reads bytes that were never initialised into its result, or panics on valid arguments, for every input content, length and engine fill level. This includes the unchecked and vectorised loads used for speed.",
 ["inputs","histories"],"all inputs, all lengths, all engine fill levels; builds without run-time checks",
 "A test that over-reads by a few bytes still passes; no test runs under a memory checker and unchecked loads have no assertion in release builds.",
 ["src/siphash24.rs","src/sha256.rs","src/cmp.rs","src/internal_macros.rs","src/hmac.rs"],[dict(name="load_int_le!, u8to64_le",where="src/siphash24.rs"),dict(name="SIMD loads",where="src/sha256.rs"),dict(name="buffer index arithmetic",where="src/internal_macros.rs")],None,["HashEngine::{input,finalize}","hmac::Engine::new","cmp::fixed_time_eq"])
p("C20","JSON schema describes exactly the serialized text",
 "For every hash type, the generated JSON schema is a string schema whose minimum and maximum length both equal the length of the serialized text of every value, and whose pattern every serialized text matches.",
 ["inputs","configurations"],"all values of all hash types with schema support",
 "The schema tests are in an extended-tests directory that the build does not run, and check fixed values.",
 ["src/internal_macros.rs","src/hmac.rs","src/sha256t.rs"],[dict(name="JsonSchema impls",where="src/internal_macros.rs, src/hmac.rs, src/sha256t.rs")],None,["schemars::JsonSchema"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
