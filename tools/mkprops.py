#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": files[0].rsplit("/", 1)[0] if len(files) == 1 else "files above"} for m in mech.split(",")]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

AC = "BlockCiphers/AES/"
CTR = [AC+"AES/AES_CTR/aes_ctr.cpp", AC+"AES_x86/AES_CTR/aes_ctr.cpp", AC+"AES_ARM/AES_CTR/aes_ctr.cpp"]
CFB = [AC+"AES/AES_CFB/aes_cfb.cpp", AC+"AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp", AC+"AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp"]
AEG = ["StreamCiphers/AEGIS/AEGIS/aegis_128.cpp", "StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp", "StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp"]
CHA = "StreamCiphers/ChaCha/chacha.cpp"; HC = "StreamCiphers/HC-128/hc128.cpp"; RAB = "StreamCiphers/Rabbit/rabbit.cpp"
SOS = "StreamCiphers/Sosemanuk/sosemanuk.cpp"; SER1 = "StreamCiphers/Sosemanuk/serpent.cpp"; SER2 = "BlockCiphers/Serpent/serpent.cpp"
SHA1 = "Hash/SHA/SHA-2/SHA-256/sha-256.cpp"; SHA2 = "Authentication/HMAC-SHA-256/sha-256.cpp"; HM = "Authentication/HMAC-SHA-256/hmac.cpp"
MD = "Legacy/MD5/md5.cpp"; DES = "Legacy/DES/des.cpp"; HEX = "Encoders/Hex/encoder.cpp"
JL = "AsymmetricCryptography/Joye_libert/joye_libert.cpp"
LHE = "AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp"
MU = "AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp"

p("C01", "AES-CTR equals the standard for every packet sequence",
  "In every implementation (portable, round-reduced, x86, ARM), after loading a 16-byte key and a 12-byte nonce, the output of each packet is the input XORed with AES-128(key, nonce || 32-bit big-endian counter), the counter starting at 1 (taken modulo 2^32) and each packet starting on a fresh counter block (a packet of n bytes consumes ceil(n/16) blocks, a last partial block uses the leading keystream bytes). Processing the output with a fresh state under the same key, nonce and packet sizes gives back the input. Loading a new nonce or key restarts the stream regardless of what the state processed before.",
  ["inputs", "histories", "configurations"], "all keys, nonces, packet lengths 0..2^31-1 and sequences of packets and reloads, in three implementations",
  "The repository's vectors are one key with whole-block lengths; partial tails, long counter runs (carries beyond one byte) and packet sequences are never compared with AES.",
  CTR, "per-block counter increment and endianness, keystream extraction of the partial tail, restoring the counter register after encryption",
  [("registers", "nonce and block counter"), ("round keys", "expanded key")])
p("C02", "AES-CFB follows CFB128 and round-trips under any packetisation",
  "In every implementation (portable, round-reduced, x86, ARM), each whole 16-byte block of a packet is encrypted as in CFB128: ciphertext = plaintext XOR E(register), where the register is the IV first and then the previous whole ciphertext block. A packet's trailing partial block is masked with mutually distinct byte positions of E(register). Decrypting with a state initialised with the same key and IV and the same packet boundaries returns the plaintext for any sequence of packet lengths, and initialising again restarts the stream regardless of history.",
  ["inputs", "histories", "configurations"], "all keys, IVs, messages and packet-length sequences, in four builds",
  "The shipped programs round-trip one message in one packet; round trips cannot see a keystream that is wrong on both sides, and no partial-length sequence is exercised.",
  CFB, "register update from the ciphertext (whole block and partial block), key expansion, round selection under the round-reduced build",
  [("register", "last 16 ciphertext bytes fed back"), ("round keys", "expanded key")])
p("C03", "AES-CFB resynchronises and feeds back exactly the recent ciphertext",
  "For any packetisation, AES-CFB decryption after a packet boundary depends on every one of the 12 most recent ciphertext bytes and on no ciphertext byte more than 19 bytes back (the register holds 16 bytes; order inside a 4-byte word is unspecified). A corrupted ciphertext byte flips only the same bits of its own plaintext byte within its block, and all plaintext is correct again once 16 ciphertext bytes of later blocks or packets have been consumed. After 16 ciphertext bytes the IV has no influence any more, the key always has.",
  ["inputs", "histories", "fault_sequences"], "all packet-length sequences and all corrupted ciphertext positions and bit patterns, and receivers that start with the wrong IV",
  "The tests never corrupt, drop or resynchronise a stream, and use a single packet, so the partial-block shift-register paths are never observed.",
  CFB, "partial register update for lengths 1..15, whole-block register update, keystream not fed back instead of ciphertext",
  [("register", "last 16 ciphertext bytes fed back")])
p("C04", "All builds of a cipher are interchangeable",
  "The portable, x86-intrinsic and ARM-intrinsic implementations of AES-CTR, AES-CFB and AEGIS produce byte-identical outputs, tags and verdicts for the same sequence of operations. Every component gives the same results whatever compiler (g++, clang++), optimisation level and processor (x86-64, 64-bit ARM; the big-integer components on x86-64) it is built with and for.",
  ["configurations", "inputs", "histories"], "all operation sequences across the implementation directories, compilers and optimisation levels",
  "Each program is built once without optimisation and compared only with its own expected vectors; no test compares one implementation's trace with another's.",
  CTR + CFB + AEG + [HC, RAB, SOS, DES, CHA, SHA1, MD], "same algorithm written three times; code relying on undefined shifts or uninitialised reads changes under optimisation")
p("C05", "AEGIS-128 encryption conforms and decryption inverts it",
  "In every implementation, for any key, IV, associated data and message of any lengths (including zero and lengths that are not multiples of 16), the ciphertext and the 16-byte tag are those of AEGIS-128. Decrypting that ciphertext with the same key, IV, associated data and tag reports success and yields exactly the plaintext.",
  ["inputs", "histories", "configurations"], "all keys, IVs, AD lengths, message lengths and reuse of one state for many packets, in three implementations",
  "The vectors cover a few short lengths and the example one message; most length residues of AD and message and state reuse are unchecked.",
  AEG, "state initialisation, zero-padded partial blocks of AD and message, finalisation over the two bit lengths",
  [("five-block state", "evolves with IV, AD and plaintext")])
p("C06", "AEGIS-128 rejects every forgery and releases no plaintext",
  "If the ciphertext, tag, associated data or IV presented to decryption differ in any bit or in length from what encryption produced under the key, decryption reports failure and no byte of the plaintext output buffer reveals decrypted data: it is all zero over the message length. A state remains fully usable after a rejected packet: the next genuine packet is accepted and decrypts correctly.",
  ["inputs", "fault_sequences", "histories"], "all single- and multi-bit modifications of ciphertext, tag, AD, IV, truncations and extensions, interleaved with genuine packets",
  "The tests decrypt genuine packets only (one tampered example at most); a verifier that ignores one tag byte or one AD byte passes all of them.",
  AEG, "tag recomputation over AD and plaintext, comparison of all 16 bytes, zeroisation before returning failure")
p("C07", "ChaCha conforms to RFC 7539 for 20, 12 and 8 rounds at any length",
  "For each of the 20-, 12- and 8-round builds, every packet equals the input XORed with the concatenated ChaCha blocks of the key and 12-byte nonce for counters 1, 2, 3, ... (a packet always starts at counter 1). The block function gives the 64-byte RFC 7539 block for any key, nonce and 32-bit counter, and the byte-order helper writes each 32-bit word with its bytes reversed to its output, leaving its input alone.",
  ["inputs", "configurations"], "all keys, nonces, counters and packet lengths, in three round variants",
  "The RFC vectors used are one key and 114 bytes for 20 rounds; the other round counts, counters with carries, and other lengths are never compared.",
  [CHA], "quarter round, counter handling, word/byte tail XOR", [("sixteen-word state", "constants, key, counter, nonce")])
p("C08", "HC-128 conforms and its keystream continues across packets",
  "After initialisation with any 16-byte key and IV, successive packets are XORed with the consecutive words of the HC-128 keystream of that key and IV (a packet of n bytes consumes ceil(n/4) words). The keystream never restarts or repeats from packet to packet, for any packet sizes and any total length.",
  ["inputs", "histories"], "all keys, IVs and packet-length sequences, totals well beyond the 1024-word table period",
  "Vectors check one short packet straight after initialisation; nothing checks a second packet or table wrap-around across packet boundaries.",
  [HC], "step counter selecting table P or Q and index, table update, word granularity at packet end",
  [("P, Q", "the two 512-word tables"), ("step counter", "position in the 1024-step cycle")])
p("C09", "Rabbit conforms and IV set-up is independent of history",
  "After loading any 16-byte key, and optionally any 8-byte IV, successive packets are XORed with consecutive 16-byte RFC 4503 keystream blocks (a packet of n bytes consumes ceil(n/16) blocks), including when the counters' addition carries occur at the exact wrap-around value. Loading an IV gives the keystream of that key and IV no matter how many packets or other IVs the state went through since the key was loaded.",
  ["inputs", "histories"], "all keys, IVs, packet sequences and re-IV histories, including key/IV pairs built to hit every carry boundary",
  "The RFC vectors use a handful of keys and no state reuse; the carry boundary has probability about 2^-32 per step, so only directed inputs reach it.",
  [RAB], "counter carry propagation, master-state copy and restore, key and IV set-up",
  [("X, C, carry", "working state"), ("master copies", "state after key set-up")])
p("C10", "Sosemanuk conforms for every key length, IV and packet sequence",
  "For any key of 1 to 32 bytes and any 16-byte IV, successive packets are XORed with consecutive 16-byte blocks of the Sosemanuk keystream (a packet of n bytes consumes ceil(n/16) blocks). Loading an IV restarts the stream of that key and IV regardless of history.",
  ["inputs", "histories"], "all keys of all lengths, IVs, packet-length sequences and re-IV histories",
  "The program checks eSTREAM vectors for a few keys over short streams in one packet; multi-packet continuity and most of the finite-state-machine paths in combination are unobserved.",
  [SOS, SER1], "Serpent-24 seeding, LFSR with alpha multiplication, finite state machine, Serpent-1 output",
  [("LFSR, R1, R2", "generator state")])
p("C11", "SHA-256 is correct for every message length, in both copies",
  "For every message of every byte length (zero, all residues modulo 64, and messages of gigabytes, past every 32-bit boundary of the bit and byte counts) the digest equals FIPS 180-4 SHA-256, in both the hash component and the copy bundled with HMAC.",
  ["inputs"], "all messages, all lengths up to several GiB",
  "The program hashes short constant strings; neither all padding residues nor messages too large for the stack or for 32-bit counters are reached.",
  [SHA1, SHA2], "padding decision, length encoding, block loop and its integer widths")
p("C12", "HMAC-SHA-256 tags are exact and validation is exact",
  "For any key length (shorter, equal to or longer than the hash block), any message including the empty one, and any tag length 1..32, the generated tag is the leading bytes of RFC 2104 HMAC-SHA-256. Validation accepts that tag and rejects every other tag of that length, every altered or differently long message, and every other effective key. One state validates and generates any number of messages in any order.",
  ["inputs", "histories", "fault_sequences"], "all keys, messages, tag lengths and single/multi-bit alterations; sequences of operations on one state",
  "The self-test checks a few RFC 4231 vectors and one validation; no altered tag at every byte position, no empty message, no long key with reuse.",
  [HM, SHA2], "inner/outer padded key, truncation, tag comparison over all bytes")
p("C13", "Encrypt-then-MAC composition protects every packet",
  "Composing the toolbox as its example does (IV || ciphertext authenticated by HMAC, then decrypted after validation; AES-CFB or HC-128 as the cipher) delivers every plaintext intact for every message and packet sequence, also after rejected deliveries in between. Any alteration, truncation or extension of a transmitted packet, and any recombination of the IV, ciphertext or tag of different packets, is rejected by validation, so altered data never reaches the application. The example program itself decrypts only bytes that a successful validation covered, and neither decrypts nor uses the IV of a packet whose tag is invalid.",
  ["inputs", "histories", "fault_sequences"], "all message sequences and all channel faults between sender and receiver",
  "The example sends one fixed packet over a perfect channel.",
  ["Example_AuthenticatedEncryption/example_ae.cpp", AC+"AES/AES_CFB/aes_cfb.cpp", HC, HM, SHA1, HEX],
  "cipher, MAC and encoder linked together in one program over one wire buffer")
p("C14", "MD5 is correct for every message and every chunking",
  "For every message and every way of splitting it into update calls (including empty and huge ones, totals past 512 MiB where the bit count exceeds 32 bits, and a single call near 4 GiB) the digest is RFC 1321 MD5, and the one-shot call agrees with the incremental one. Finalisation zeroises the whole context, so nothing of the message stays in it.",
  ["inputs", "histories"], "all messages, all splits, totals up to several GiB",
  "The test suite hashes seven short strings, each in one call.",
  [MD], "bit-count carry, partial buffer fill, loop bounds of update, padding")
p("C15", "DES conforms, decryption inverts it, and CTR mode is standard",
  "For any 8-byte key and data, ECB encryption of each 8-byte block equals FIPS 46-3 DES on big-endian bytes, and decryption with the decryption key schedule inverts it, parity bits of the key having no effect. CTR mode XORs block i with DES(initial counter block + i), the initial block being the first 8 nonce bytes and its low 32-bit big-endian word being incremented modulo 2^32; applying it twice from the same nonce restores the data.",
  ["inputs"], "all keys, data, block counts and nonces including counters about to wrap",
  "The shipped programs round-trip one buffer, which any invertible (even key-independent) transform passes.",
  [DES], "key schedule order, use of the round key of each round, byte order of load/store, counter increment")
p("C16", "The hex codec is exact and lossless",
  "Encoding n bytes writes exactly 2n upper-case hexadecimal digits, high nibble first, followed by a terminating zero; decoding any string of upper-case digits returns exactly the bytes it denotes; decode(encode(x)) = x for every byte string.",
  ["inputs"], "all byte values in all positions, all lengths",
  "The encoder has no test of its own; the example prints it.",
  [HEX], "nibble to digit mapping both ways, terminator")
p("C17", "Joye-Libert decryption inverts encryption and is additive",
  "For any valid key, any message in [0, 2^k) decrypts to itself, whether or not one variable holds both message and ciphertext (in encryption and in decryption). The product of any number of ciphertexts (and powers, and inverses) decrypts to the corresponding sum (multiple, difference) modulo 2^k. Encryption is randomised: encrypting the same message twice gives different ciphertexts, all in [1, N).",
  ["inputs", "programs"], "all messages incl. boundary values, all linear combinations, several message and key sizes, keys from the library and independently generated keys",
  "The program checks two messages and one addition under one fixed key.",
  [JL], "randomised encryption with y^m x^(2^k), bitwise discrete-log decryption modulo p")
p("C18", "Labeled homomorphic evaluation is correct for every program",
  "For every message size k, any messages in [0, 2^k), any distinct labels of any admissible length and any program built from the evaluation operations (two- and three-way products, additions and subtractions at both ciphertext levels, multiplication by a constant), decryption of the result with the labels' combined mask equals the program's value on the plaintexts modulo 2^k, also when the result of an addition, subtraction or multiplication by a constant replaces one of its operands. This holds for the single-key and for the multi-user variant, where each user decrypts with its own label secret. The mask of a label is a function of the seed and the label alone (whatever was encrypted before), lies in [0, 2^k), and differs for different labels of one seed. Every result stays reduced: first components in [0, 2^k), group elements in [1, N).",
  ["inputs", "programs", "histories"], "all small expression trees over random and boundary plaintexts, labels of many lengths, several key sizes",
  "The program checks one instance of each operation with labels of one length and small plaintexts.",
  [LHE, MU], "label mask from the stream cipher, plaintext-minus-mask first component, homomorphic second component, per-operation combination rules")
p("C19", "Key generation yields valid, independent key pairs",
  "For every supported message size k and key size, generated keys satisfy: p is a prime congruent to 1 modulo 2^k with (p-1)/2^k prime, N = p*q with q a distinct prime congruent to 3 modulo 4, and y is a quadratic non-residue modulo both p and q (Jacobi symbol 1 modulo N); p and q have about half the key size each (at most one bit more, fewer than 24 bits less). Separate calls, and separate processes, generate different keys.",
  ["inputs", "configurations", "histories"], "all (message size, key size) pairs in the supported range and repeated generation",
  "The programs use one size pair and only ever observe that their own round trip works.",
  [JL, LHE, MU], "prime search, choice of y, seeding of the random generator")
p("C20", "No memory-safety violation or undefined behaviour on valid input",
  "For every valid call (buffers exactly as large as documented, any length, 4-byte aligned buffers) no component reads or writes outside the buffers it was given or its own objects, and none executes undefined behaviour such as signed overflow, out-of-range shifts or invalid indexing (word accesses through byte pointers, which the toolbox uses throughout, are taken as given). Message size is limited only by the type of the length parameter, never by stack size.",
  ["inputs", "histories", "configurations"], "all lengths (each residue, zero, huge), all operation sequences, all components and builds",
  "Tests run uninstrumented on roomy stack arrays with a few sizes, so an over-read, a stack overflow on a big packet or an undefined shift passes.",
  CTR + CFB + AEG + [CHA, HC, RAB, SOS, SER2, SHA1, SHA2, HM, MD, DES, HEX, JL, LHE, MU], "word-wise loads and stores, tail loops, length arithmetic, stack arrays sized by the message")
p("C21", "Results never depend on uninitialised memory or stale state",
  "Every output is a function of the documented inputs only: no branch, address or output byte depends on uninitialised memory, on what the state object held before it was (re)initialised, or on leftovers of earlier calls on the stack or heap.",
  ["histories", "inputs"], "all operation sequences on states with arbitrary previous contents",
  "Tests start from zeroed or fresh process memory and use each state once.",
  CTR + CFB + AEG + [CHA, HC, RAB, SOS, SHA1, HM, MD, DES, JL, LHE, MU], "initialisation of every state field, of tail buffers and label buffers, of outputs for empty inputs")
p("C22", "Independent states can be used concurrently and interleaved",
  "Operations on distinct state objects never interfere: any interleaving in one thread, and any concurrent schedule in several threads, gives each state exactly the results it gives when used alone, without data races.",
  ["schedules", "histories"], "all interleavings and thread schedules of operations on distinct states",
  "All shipped programs are single-threaded with one or two states used one after another.",
  CTR + CFB + AEG + [CHA, HC, RAB, SOS, SER2, SHA1, SHA2, HM, MD, DES, HEX, JL, LHE], "absence of mutable globals and shared tables; everything lives in the caller's state")
p("C23", "No operation leaks memory",
  "Every operation releases whatever it allocates: in an unbounded sequence of operations the memory held on behalf of finished calls does not grow, in every component including those on big integers.",
  ["histories"], "all operation sequences, arbitrarily long",
  "Tests exit after a few operations and never look at the heap.",
  [JL, LHE, MU, SHA1, SHA2, HM, HC, CHA], "temporary big integers, random states and heap buffers are released on every path")
p("C24", "Library calls write nothing to standard output or error",
  "No library operation prints: keys, masks, labels, plaintexts or diagnostics never appear on standard output or standard error, for successful and for failing operations alike.",
  ["inputs", "histories"], "all operations of all components, on success and rejection paths",
  "The shipped programs print themselves and their tests look only for expected lines, so leaked secrets in between are not noticed.",
  [LHE, MU, JL, HM, HC, SHA1] + AEG[:1], "debug output left in library code")
p("C25", "Inputs stay unmodified and only declared outputs are written",
  "No operation modifies its message, associated data, key, nonce, IV or label inputs, and it writes only the declared extent of its outputs: every byte beyond the output length (and every output byte for empty messages) keeps its value. AEGIS decryption may clear the presented tag when it rejects.",
  ["inputs", "histories"], "all components, lengths and operation sequences",
  "Tests never re-check inputs or the bytes around outputs.",
  CTR + CFB + AEG + [CHA, HC, RAB, SOS, SHA1, SHA2, HM, MD, DES, HEX], "non-const pointers everywhere, word-wise stores near the end of buffers, in-place scratch use")
p("C26", "XOR stream ciphers work in place",
  "For AES-CTR, ChaCha, HC-128, Rabbit, Sosemanuk and DES-CTR, and for AES-CFB encryption, passing the same buffer as input and output gives the same result as separate buffers, for every length and packet sequence.",
  ["inputs", "histories"], "all lengths and packet sequences with output aliasing input",
  "Programs always use separate buffers.",
  CTR + CFB + [CHA, HC, RAB, SOS, DES], "each input word is read before the output word at the same position is written")
p("C27", "The Serpent component conforms for every key and block",
  "For any key of 1 to 32 bytes and any 16-byte block, the twelve output words are the outputs of Serpent rounds 12, 18 and 24 (the last one followed by the round-24 key addition) as specified for the 24-round Serpent used to seed Sosemanuk, in both copies of the component. The key schedule equals Serpent's, a short key being padded with a single 1 bit.",
  ["inputs"], "all keys of all lengths and all blocks, both copies",
  "The program prints the result for one key and block.",
  [SER2, SER1], "bitsliced S-boxes and their order, linear transformation, padded key schedule", [("round keys", "25 x 4 words")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
