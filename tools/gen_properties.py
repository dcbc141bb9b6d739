import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m,where=files[min(i,len(files)-1)]) for i,m in enumerate(mech)],observe_at=observe,hook_needed=None)))
p("C01","AES and SM4 compute the standard block cipher for every key and block",
"For every key and every 16-byte block, AES and SM4 encryption yields exactly the ciphertext the standard defines and decryption with the same context recovers the block; a key shorter than 16 bytes acts as that key extended by PKCS#7 padding and a longer one as its first 16 bytes. An initialised context can be used in both directions in any order, in place or out of place, any number of times, without its results changing.",
["inputs","histories"],"every key length and key/block bit pattern of the enumerated family, every sequence of encrypt/decrypt/re-key calls on one context up to the bound",
"The tests encrypt one block under one 16-byte key and print it; no other key length, no decrypt after encrypt on the same context, no re-keying.",
["src/aes/aes.c","src/sm4/sm4.c","src/utils/padding.c","include/wbcrypto/aes.h","include/wbcrypto/sm4.h"],
["key normalisation before the key schedule","separate encrypt and decrypt schedules","table-driven and reference SM4 rounds"],
["WBCRYPTO_aes_encrypt/decrypt, WBCRYPTO_sm4_encrypt/decrypt output blocks"])
p("C02","White-box ciphers compute the same function as the plain cipher",
"For every key, block and every choice of random encodings, the white-box AES, white-box SM4 and space-efficient white-box SM4 contexts produce exactly the output of plain AES or SM4 under the same (normalised) key, in each direction the context was generated for. For white-box SM4 this holds for every supported number of dummy rounds and every placement of them among the real rounds, and regenerating or generating several contexts never disturbs the others.",
["inputs","configurations","histories"],"all placements of 1 and 2 dummy rounds, all encoding-seed values of the family, all SE-WBSM4 constant pairs, both directions, all generate/use interleavings of two contexts up to the bound",
"Encodings and dummy placements are drawn at random: a test sees one draw of one key, mostly with the default dummy count.",
["src/wbaes/wbaes.c","src/wbaes/wbaes_local.c","src/wbsm4/wbsm4.c","src/wbsm4/wbsm4_gen.c","src/se_wbsm4/se_wbsm4.c","src/se_wbsm4/se_wbsm4_local.c","WBMatrix/src/WBMatrix.c"],
["input/output encodings cancel between consecutive tables","dummy rounds are identity on the real state","SE-WBSM4 constant pairs"],
["*_encrypt / *_decrypt output blocks after *_gen_table"])
p("C03","CBC encryption matches the standard and round-trips for every length",
"For every cipher, key, IV and message, CBC encryption equals standard CBC of the message PKCS#7-padded to a whole number of blocks (a multiple of 16 stays as it is) and CBC decryption returns exactly the message and its length. Neither direction changes the caller's input or key context, and each call depends only on its arguments, not on earlier calls.",
["inputs","histories"],"every message length 0..80 and larger ones, every padding-relevant final byte, every cipher and sequences of calls",
"The tests run one 32-byte message and look at the printed result.",
["src/modes/cbc128.c","src/utils/padding.c","src/aes/aes_modes.c","src/sm4/sm4_modes.c","src/wbaes/wbaes_modes.c","src/wbsm4/wbsm4_modes.c"],
["PKCS#7 merge/separate","chaining value update","capacity check"],
["WBCRYPTO_*_cbc_encrypt/decrypt output, use_olen, return value"])
p("C04","GCM equals the standard for every IV, AAD, message and call sequence",
"For every block cipher, IV of any length, associated data and message lengths, GCM ciphertext, recovered plaintext and tag (of every requested length up to 16) equal those defined by NIST SP 800-38D. This holds however the message is split over several encrypt or decrypt calls at 16-byte boundaries, in place or not, and a context that is given a new IV starts a fresh message whose result does not depend on anything processed before.",
["inputs","histories"],"all IV/AAD/message lengths up to the bound, all splittings, all operation sequences on one context up to the depth, counter start values that carry through every byte",
"One IV length, one AAD length, one message per test, one message per context.",
["src/modes/gcm128.c","include/wbcrypto/modes.h"],
["J0 derivation for 12-byte and other IVs","32-bit counter increment","GHASH over padded AAD and ciphertext plus length block","per-message state reset when the IV is set"],
["WBCRYPTO_gcm_* outputs, *_gcm_init of each cipher"])
p("C05","Parallel GCM gives the sequential result under every thread schedule",
"Parallel GCM encryption and decryption produce the same text and leave the context in the same state (same tag, same continuation) as the sequential functions for every message length, in place or not, whatever number of threads the runtime grants and however they interleave. No two threads touch the same memory without ordering, one of them writing.",
["schedules","inputs"],"all schedules of 1-4 threads up to a preemption bound, all message lengths up to the bound, in place and out of place",
"The tests do not call the parallel functions at all, and a run only ever samples one schedule.",
["src/modes/gcm_parallel.c","src/modes/gcm128.c"],
["partition of the block range over OpenMP threads","per-thread counter and scratch values","reduction of the partial GHASH values"],
["WBCRYPTO_gcm_parallel_encrypt/decrypt output, tag from WBCRYPTO_gcm_finish"])
p("C06","Encrypted files round-trip and any modification is rejected",
"For every file content, decrypting an encrypted file with the same key, IV and associated data restores it byte for byte, and the encrypted file is tag, size and GCM ciphertext as documented. If any byte of the encrypted file is altered, or it is truncated or extended, or key, IV or associated data differ, decryption reports failure and does not leave the forged plaintext behind as a result.",
["inputs","histories"],"all file lengths up to the bound around chunk borders, every single-byte alteration, every truncation and extension point, for every cipher and the two external-encoding variants",
"The tests encrypt and decrypt one file and never tamper with it.",
["src/modes/gcmfile.c","src/wbaes/wbaes_wbgcm_ee_file.c","src/wbaes/wbaes_wbgcm_mask_file.c"],
["header with tag and size","chunked GCM","tag comparison at the end of decryption"],
["WBCRYPTO_gcmfile_encrypt/decrypt return value and output file"])
p("C07","A file operation that hits an I/O error reports failure",
"Whenever any open, read, write, seek, flush or close performed by file encryption, file decryption, key-store or white-box key export/import fails or is cut short, the operation either still completes correctly or reports failure; it never reports success with a wrong or incomplete result, never crashes and leaves no open file behind. An input file distinct from the output is never changed.",
["fault_sequences"],"a fault at every I/O call of every operation (failing or short), and all pairs of faults",
"No test injects an I/O fault.",
["src/modes/gcmfile.c","src/utils/keystore.c","src/wbsm4/wbsm4_exkey.c","src/wbaes/wbaes_wbgcm_ee_file.c","src/wbaes/wbaes_wbgcm_mask_file.c"],
["return values of stdio calls","error cleanup path"],
["return value, resulting files, open descriptors"])
p("C08","FF1 and FF3 are length- and alphabet-preserving bijections per standard",
"For every radix 2-36, key, tweak and input length of at least two characters (shorter texts are refused), FF1 and FF3 encryption maps digit strings to digit strings of the same length and radix, is a bijection, and decryption is its inverse; within the lengths the standard allows, FF1 output equals NIST SP 800-38G FF1 (for every tweak length) and FF3 output equals the library's documented FF3 variant. This holds for every underlying block cipher.",
["inputs","configurations"],"every plaintext of every small domain (bijection checked completely), all radices, all lengths up to the bound, all tweak lengths up to the bound",
"A handful of strings with radix 10/36; bijectivity and inverse over a domain are never checked.",
["src/fpe/ff1.c","src/fpe/ff3.c","src/fpe/fpe_locl.c","src/fpe/init.c"],
["Feistel split for odd lengths","numeral/bignum conversion","round block construction with tweak padding","radix handling"],
["WBCRYPTO_ff1_*/ff3_* outputs"])
p("C09","FPE results depend only on key, tweak, radix and text",
"Format-preserving encryption, decryption and MAC results are a function of cipher key, tweak bytes, radix and text alone: they never depend on earlier calls, on other live contexts, on where buffers lie or on what memory contained before. Initialisation takes its own copy of the tweak and rejects an unsupported radix, and no operation modifies its context's key, its tweak or its input text.",
["histories","inputs"],"all operation sequences up to the depth over two contexts with different tweaks/radices, every tweak length 0..40, several initial memory fills",
"Tests use each context once in one fresh process.",
["src/fpe/init.c","src/fpe/ff1.c","src/fpe/ff3.c","src/fpe/ff1_cmac.c","src/fpe/ff3_gmac.c"],
["tweak copy with zero extension","per-call scratch buffers","MAC state reset"],
["outputs of WBCRYPTO_*_fpe_init + ff1/ff3 calls"])
p("C10","Authenticated FPE: same ciphertext, matching tags, and tamper detection",
"The MAC variants of FF1 and FF3 give exactly the ciphertext of plain FF1 and FF3, decryption recovers the text, and the tag produced by decrypting is identical to the tag produced by encrypting. Within the text lengths the algorithm's standard allows, a changed ciphertext character changes the tag that decryption computes, and so does a change of the tweak (of its first 16 bytes for FF3).",
["inputs","histories"],"all plaintexts of small domains, all single-character changes, all radices and lengths up to the bound, sequences of encrypt/decrypt on one or several contexts",
"The tests compare one tag pair.",
["src/fpe/ff1_cmac.c","src/fpe/ff3_gmac.c"],
["per-round MAC accumulation in both directions","subkey derivation","tag output"],
["WBCRYPTO_ff1_cmac_*/ff3_gmac_* text and tag"])
p("C11","Application FPE keeps format and protected characters and inverts",
"For every phone number, ID number and Chinese text (code points U+4E00 to U+9EFF), every sample pattern selecting at least two digits or one Chinese character, cipher and algorithm, encryption returns a NUL-terminated string of the same length and character class in which the characters not selected by the sample (and a trailing X of an ID number) are unchanged, and decryption with the same sample returns the original. For a fixed key, sample and protected characters the mapping is one-to-one, and it equals the underlying FF1/FF3 applied to the selected characters with the protected characters as tweak. Selections too short for this and Chinese texts containing other characters are refused with a failure result.",
["inputs","configurations"],"every sample pattern of the number formats with at least two selected characters, every Chinese code point of the supported range, all text lengths up to the bound, all eight cipher/algorithm combinations",
"One phone, one ID, one name with one sample each.",
["src/fpe_app/phone.c","src/fpe_app/idcard.c","src/fpe_app/cn_utf8.c","src/fpe_app/utf8_util.c","src/fpe_app/init.c"],
["selection/merge of characters by sample","base-12 coding of Chinese characters","tweak from protected characters"],
["WBCRYPTO_fpe_encrypt_*/decrypt_* output strings"])
p("C12","SM3 equals the standard for every message and every way of feeding it",
"The SM3 digest of every message equals the standard's digest, whether computed in one call or by any sequence of updates (including empty ones), and the message-length counter is correct across the 32-bit boundary. Contexts are independent of each other and re-initialising a context starts a new message.",
["inputs","histories"],"all message lengths up to the bound, all two- and three-way splits, interleavings of two contexts, lengths around 2^29 bytes",
"The tests check two fixed messages.",
["src/sm3/sm3.c","src/sm3/md32_common.h","src/sm3/sm3_local.h"],
["block buffering across updates","length encoding and padding in final"],
["WBCRYPTO_sm3_* digest"])
p("C13","Exported white-box SM4 keys re-import to an equivalent context",
"A white-box SM4 key exported to a file or byte string and imported into a context, fresh or already used with any direction or number of dummy rounds, gives exactly the exporting context's function, also after the exporting context is freed or regenerated. Importing something that is not a complete exported key reports failure rather than yielding a working-looking context or corrupting memory.",
["histories","inputs"],"all pairs of (exporter, importer) configurations, all export/import/free/regenerate sequences up to the depth, every truncation class of the exported data",
"One export/import pair into a like-configured context.",
["src/wbsm4/wbsm4_exkey.c","src/utils/keystore.c"],
["serialisation of round count, mode and tables","allocation of the importing context"],
["WBCRYPTO_wbsm4_key2file/file2key/key2bytes/bytes2key and *_encrypt/decrypt"])
p("C14","White-box GCM variants interoperate with GCM and authenticate",
"White-box GCM with external encodings yields, for every key, random encoding, IV, associated data and message, exactly the ciphertext and tag of standard AES-GCM, and decryption inverts it. The masked variant's decryption with the paired key recovers exactly what was encrypted and computes the same tag as encryption did; its ciphertext is the AES-GCM ciphertext passed through fixed invertible linear byte maps of the key and its tag is the likewise masked GCM tag of that ciphertext; any change of ciphertext, associated data or IV changes the tag, and results do not depend on earlier messages on the context or on how the data is split at 16-byte boundaries.",
["inputs","histories","configurations"],"all IV/AAD/message lengths up to the bound, all operation sequences on one context up to the depth, every seed of the encoding family, all single-byte changes",
"One message, one encoding draw; the masked tag is not compared.",
["src/wbaes/wbaes_wbgcm_ee_init.c","src/wbaes/wbaes_wbgcm_ee_mode.c","src/wbaes/wbaes_wbgcm_mask_init.c","src/wbaes/wbaes_wbgcm_mask_mode.c"],
["encoded GHASH multiplication tables","mask removal at output","state reset per IV"],
["WBCRYPTO_wbaes_wbgcm_ee_*/mask_* outputs"])
p("C15","Matrix and affine operations obey linear algebra over GF(2)",
"For every operand, the bit-matrix and affine operations compute the result linear algebra over GF(2) defines (products, sums, transposes, inverses, combinations of smaller matrices, parities and Hamming weights), at every dimension from 4 to 128. Every generated matrix or affine pair is a true pair of mutual inverses, and every generated nibble or byte permutation is a bijection with its inverse, for every state of the random generator.",
["inputs","configurations"],"all 2^16 4x4 matrices and all vectors, basis-complete families for larger dimensions, every random-generator state of the enumerated family",
"The library has no tests of its own matrix layer.",
["WBMatrix/src/WBMatrix.c","WBMatrix/src/random.c"],
["bit layout of rows","Gauss elimination with tracked inverse","pair generation"],
["WBMatrix public functions"])
p("C16","Outputs never exceed the stated capacity and too small a buffer is refused",
"Every function that takes an output capacity writes nothing beyond that capacity nor beyond the result it reports, and when the result does not fit it returns failure without writing out of bounds and without reading outside its input. Padding helpers, tags and digests write exactly the length they report.",
["inputs","configurations"],"all pairs of input length and capacity up to the bound for every such function, with guard bytes and exact-size buffers",
"Tests always pass generous buffers.",
["src/modes/cbc128.c","src/modes/gcm128.c","src/modes/gcm_parallel.c","src/utils/padding.c","src/wbaes/wbaes_wbgcm_ee_mode.c","src/wbaes/wbaes_wbgcm_mask_mode.c"],
["capacity checks before writing","padding length arithmetic"],
["return value, use_olen, guard bytes around the output buffer"])
p("C17","The MySQL function returns the library's FPE result for every row",
"For every mode, text and sample, including arguments that are not NUL-terminated, longer than the server's result buffer, or NULL, the MySQL function returns the application-level FPE result with its correct length, which the library decrypts to the original. It validates its arguments at initialisation and per row, reports errors through the server's protocol, and never writes outside the buffers the server or itself provided, whatever the order of rows, also when several statements run at once in different threads.",
["inputs","histories"],"all argument shapes (count, type, NULLs, constant or not, lengths), all row sequences up to the depth",
"The plugin is built but never run by the tests.",
["udf/mysql8.cpp","udf/mysql5.cpp","src/fpe_app/phone.c","src/fpe_app/idcard.c","src/fpe_app/cn_utf8.c"],
["argument validation","result buffer sized for the row","null/error flags"],
["fpe_init/fpe/fpe_deinit as called by the server"])
p("C18","Distinct contexts work independently in concurrent threads",
"Threads that use distinct contexts (FPE, MAC, GCM, file, digest, application-level FPE and MySQL function instances), possibly sharing one initialised cipher key context or white-box table that none of them changes, each get exactly the results they get alone, however their calls and the steps inside them interleave, also when these are the first calls of the process. No two such threads touch the same memory without ordering, one of them writing. (Generating white-box tables draws from process-wide random state and is not covered.)",
["schedules"],"all interleavings of the calls of every pair of 41 call programs, two and three threads, and all placements of one preemption at any memory access for the smaller ones",
"The tests are single-threaded; a race needs a particular interleaving.",
["include/wbcrypto/fpe.h","src/fpe/ff1.c","src/fpe/ff3.c","src/fpe/ff1_cmac.c","src/fpe/ff3_gmac.c","src/modes/gcm128.c","src/modes/gcmfile.c","src/fpe_app/idcard.c","src/fpe_app/cn_utf8.c","src/sm3/sm3.c","udf/mysql8.cpp"],
["no mutable static state","scratch data on the stack or in the context","read-only use of cipher contexts"],
["results and return values of every call in every thread; every memory access of the library"])
p("C19","Calls keep no memory and released contexts give everything back, erased",
"Whatever sequence of calls is made, successful, refused or failing, once its contexts are released with their release function (and exported keys with free) the process holds no more memory and no more open files than before, so that repeating it any number of times does not grow the process; releasing is safe at any point of a context's life. A row of the MySQL function likewise leaves nothing behind after fpe_deinit. A released AES, SM4 or GCM context leaves none of its round keys or hash keys in the memory it occupied.",
["histories","inputs"],"all sequences of up to 3 (quick) calls of 13 call families including refused and failing ones, all single calls over the lengths, radices, tweaks and samples of the bounds, repeated until steady",
"The tests exit right after a few calls; a leak or a stale key shows in no output.",
["src/aes/aes.c","src/sm4/sm4.c","src/wbaes/wbaes.c","src/wbsm4/wbsm4.c","src/wbsm4/wbsm4_gen.c","src/wbsm4/wbsm4_exkey.c","src/se_wbsm4/se_wbsm4.c","src/modes/gcm128.c","src/modes/gcmfile.c","src/modes/gcm_parallel.c","src/fpe/init.c","src/fpe/ff1.c","src/fpe/ff3.c","udf/mysql8.cpp"],
["release functions free what init, import and table generation allocated","cleanup labels on every way out","OPENSSL_cleanse before free"],
["live heap blocks, bytes and descriptors of the process between repetitions; contents of a block when it is freed"])
p("C20","Inputs are only read, and only as far as stated",
"Texts, messages, keys, tweaks, IVs of GCM, associated data, samples, file names, exported keys, the MySQL server's arguments and initialised cipher contexts used by a mode are never written, not even temporarily, so they may lie in read-only memory, and no call reads before or after the length (or terminating NUL) it was given, wherever the input lies in memory. Results do not depend on where the inputs lie or on the bytes around them. (The CBC chaining value is an in/out argument and excluded.)",
["inputs","configurations"],"every public call over the lengths of the bounds, each with its inputs in ordinary memory, at the end and at the beginning of a read-only area between inaccessible pages",
"A test's buffers are writable and surrounded by readable memory, so a stray read or a write that is undone later changes nothing.",
["src/utils/padding.c","src/modes/cbc128.c","src/modes/gcm128.c","src/modes/gcm_parallel.c","src/fpe/ff1.c","src/fpe/ff3.c","src/fpe_app/phone.c","src/fpe_app/idcard.c","src/fpe_app/cn_utf8.c","src/fpe_app/utf8_util.c","src/sm3/sm3.c","src/wbsm4/wbsm4_exkey.c","udf/mysql8.cpp"],
["copies instead of in-place edits","length-bounded loops over inputs"],
["memory faults on the inputs' pages, bytes of the inputs after each call, results"])
p("C21","A call that runs out of memory, or whose block function fails, reports failure and can be made again",
"When an allocation inside any call fails, or the caller's block function reports failure at any of its uses, the call neither crashes nor reports success with a wrong result: it returns failure (NULL, 0 or the MySQL error flag), it or a corresponding release gives all memory back, and the same call made again afterwards, without the fault, succeeds with the same result as if nothing had happened. If a call does report success in spite of the fault, its result is the right one.",
["faults","histories"],"every allocation and every use of the block function of the scenarios of the bounds, failing once or from there on",
"Tests run with memory to spare and ciphers that never fail, so no error path after an allocation or a block function is ever taken.",
["src/modes/cbc128.c","src/modes/gcm128.c","src/modes/gcm_parallel.c","src/modes/gcmfile.c","src/fpe/ff1.c","src/fpe/ff3.c","src/fpe/ff1_cmac.c","src/fpe/ff3_gmac.c","src/fpe_app/init.c","src/fpe_app/phone.c","src/wbsm4/wbsm4.c","src/wbsm4/wbsm4_exkey.c","src/wbaes/wbaes_wbgcm_mask_init.c","src/sm4/sm4.c","udf/mysql8.cpp"],
["checks of allocation and block function results","cleanup paths that release what was allocated"],
["return value of the faulted call","crash","result of the repeated call","blocks still allocated"])
p("C22","White-box key material is never in the clear, its tables are encoded, and each generation is fresh",
"After white-box tables have been generated (wbaes, wbsm4, se_wbsm4, white-box GCM in both modes, the application context), and after any use, export or import of them, neither the key nor any round key of its schedule can be found in the clear in memory the library keeps allocated, in its static memory, or in an exported key. No generated key-dependent table lacks its encodings: none is the plain T-box of the cipher up to the round key, none is one with only its input or only its output encoded (a fixed affine function of the S-box on the input side; within the output space of the S-box and linear layer on the output side), no four-bit XOR table is plain in its inputs or outputs, no byte-wise external encoding and no input of white-box GCM's byte tables is merely affine, the outputs of the tables are mixed across their bytes, and no two tables of a context are the same up to a constant. Two generations of the same key with different random numbers share no encoded table.",
["data","histories"],"every sequence of generation, use and export of the bounds, for every kind of tables and key length",
"Functional tests pass just as well with plain tables: encodings cancel out. Only looking at all of the memory and all of the tables, after every kind of step, tells.",
["src/wbaes/wbaes.c","src/wbaes/wbaes_wbgcm_ee_init.c","src/wbaes/wbaes_wbgcm_mask_init.c","src/wbsm4/wbsm4_gen.c","src/wbsm4/wbsm4_exkey.c","src/se_wbsm4/se_wbsm4.c","src/fpe_app/init.c"],
["random affine and non-linear encodings around each table","key schedules kept only while generating"],
["allocated memory, static memory and exported bytes against the key schedule","each table against the plain tables","tables of two generations against each other"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
