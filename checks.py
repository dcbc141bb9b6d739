"""What each check runs, with which bounds, and how it is described in the evidence."""
_lib = ["-fcommon", "-std=c99", "-fopenmp", "-w", "-g"]
FLAVOURS = {
    # address sanitizer, patterned stack and heap memory
    "san": dict(lib=_lib + ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"],
                har=["-std=gnu11", "-O1", "-g", "-w", "-fcommon", "-fsanitize=address"],
                cxx=["-std=gnu++17", "-O1", "-g", "-w", "-fsanitize=address", "-ftrivial-auto-var-init=pattern"],
                link=["-fsanitize=address", "-fopenmp"]),
    # every memory access calls into the controlled scheduler (harness/sched.c)
    "sched": dict(lib=["-fcommon", "-std=c99", "-fopenmp", "-w", "-g", "-O1", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove", "-U_FORTIFY_SOURCE"],
                  har=["-std=gnu11", "-O2", "-g", "-w", "-fcommon", "-U_FORTIFY_SOURCE"],
                  cxx=["-std=gnu++17", "-O1", "-g", "-w", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove", "-U_FORTIFY_SOURCE"],
                  link=["-Wl,--wrap=memcpy,--wrap=memset,--wrap=memmove,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock,--wrap=pthread_once"]),
    # the flags of the product, for deeper bounds
    "opt": dict(lib=_lib + ["-O3"], har=["-std=gnu11", "-O2", "-g", "-w", "-fcommon"], cxx=["-std=gnu++17", "-O2", "-g", "-w"], link=["-fopenmp"]),
}


def H(name, flavour, src=None, **kw):
    return dict(name=name, flavour=flavour, src=src or [name + ".c"], **kw)


_tech = "bounded exhaustive exploration of the real code against an executable reference model (stateless model checking)"
_note = ("Every execution in the stated bounds is run on the code rebuilt from /repo and compared with an independent model of the standard; "
         "trusted: that model (validated against OpenSSL and published vectors by setup_cmd), the compiler and the sanitizer. Nothing is claimed beyond the bounds.")
_rule = ("every case of the enumeration is one trace executed on the real code and compared step by step with an independent reference model; "
         "a state is the (hashed) model state after a step, counted once; transitions are the executed steps")
CHECKS = {
    "C01": dict(level="model_checking", technique=_tech, note=_note, harnesses=[H("c01", "san"), H("c01", "opt")], rule=_rule,
                bounds={"quick": "AES and SM4: all operation sequences of length 4 (5 in the optimised build) over 8 operations on two contexts; every value of every block and key byte over base blocks/keys; all one- and two-bit keys and blocks; key lengths 0..40; a context keyed again, for every pair of key lengths 0..40 and three relations of their content",
                        "thorough": "as quick with sequence length 5/6, more base values and walks of 2048x256 blocks"},
                assumptions=["keys and blocks outside the enumerated families are represented by the S-box input coverage the run measures"]),
    "C03": dict(level="model_checking", technique=_tech, note=_note, harnesses=[H("c03", "san"), H("c03", "opt")], rule=_rule,
                bounds={"quick": "aes, sm4, wbaes, wbsm4 and a user block function: message lengths 0..80 and 30 larger ones up to 69999, 4 contents, in place or not; every final byte x 3 run kinds x 13 lengths; every IV bit; all call sequences of length 4 over 5 calls",
                        "thorough": "as quick with 16 contents, sequences of length 6 and large messages for every cipher"}),
    "C02": dict(level="model_checking", technique=_tech, note=_note, rule=_rule,
                harnesses=[H("c02", "san", ldflags=["-Wl,--wrap=wRandomShuffleU8"], stack_mb=64), H("c02", "opt", ldflags=["-Wl,--wrap=wRandomShuffleU8"], stack_mb=64)],
                bounds={"quick": "wbsm4: all placements of 0, 1 and 2 dummy rounds in both directions; dummy counts 0..72 and 12 larger ones to 480; 300 (wbsm4, dummy counts 0-6), 300 (wbaes) and 2000 (se_wbsm4) random-encoding seeds per direction; key lengths 0..40; every value of every block byte and walks of 16384 blocks; all histories of length 3-4 over 7 operations on two contexts",
                        "thorough": "as quick with all placements of 3 dummy rounds, 4000-40000 seeds and histories of length 5"}),
    "C04": dict(level="model_checking", technique=_tech, note=_note, rule=_rule, harnesses=[H("c04", "san"), H("c04", "opt")],
                bounds={"quick": "GHASH: all 128x128 basis pairs and every value of every data byte under 16 keys; 60 counter starts per kind of upper bytes through every carry; IV lengths 0..80 and 19 larger ones up to 100000; AAD 0..50 x message 0..68 lengths, 4 variants; 41 larger lengths to 2 MiB, one 2^29-byte message, IVs and AADs of 2^29 bytes and more; tag lengths 0..39; all splittings of up to 6 blocks + tail for AAD and message; all valid call sequences of 3-6 calls over 15 operations on a context with a bystander context; toy block function plus aes, sm4, wbaes, wbsm4",
                        "thorough": "as quick with sequences up to 8 calls, 9-block splittings, a 100x140 length grid and messages beyond 2^32 bytes"}),
    "C05": dict(level="model_checking", technique=_tech, note=_note, rule=_rule, harnesses=[H("c05", "sched", ["c05.c", "sched.c"], optional_link=True), H("c05", "san", ["c05.c", "sched_real.c"], env={"OMP_WAIT_POLICY": "passive"})],
                bounds={"quick": "controlled OpenMP runtime: lengths 0..200, both directions, in place or not, 1-4 granted threads, all run-to-completion orders with happens-before race detection; all schedules with at most 1 preemption at every shared access (2, 3 and 4 threads, 1-130 bytes) and at most 2 preemptions (2 and 3 threads, up to 36 bytes); all sequences of 2-3 parallel/sequential calls; counter carries; aes, sm4, wbaes, wbsm4; messages up to 65000 bytes",
                        "thorough": "as quick with lengths 0..420, every length at each preemption bound and up to 20 million schedules per case"},
                assumptions=["the library's parallel regions use the OpenMP runtime; should it use an OpenMP entry point the controlled runtime lacks, only the real runtime is exercised and the evidence says so"]),
    "C06": dict(level="model_checking", technique=_tech, note=_note, rule=_rule, harnesses=[H("c06", "san")],
                bounds={"quick": "toy block function, aes, sm4, wbaes, wbsm4 and the two white-box GCM variants: file lengths 0..400 and 20 larger ones (all for toy and aes, chunk borders for the rest); 15 lengths x every byte altered (8 bits and two masks), every truncation, extensions to 160 bytes, each with and without a matching size field, every IV/AAD bit and length, other key, block exchanges, splices of two files, degenerate files; all histories of 3-5 operations over 7 on one pair of contexts",
                        "thorough": "as quick with every length and every bit for every cipher and histories one step longer"}),
    "C07": dict(level="fault_enumeration", technique="exhaustive fault enumeration on the real code (every I/O call x fault kind, and all pairs)", note=_note, rule=_rule,
                harnesses=[H("c07", "san", ldflags=["-Wl,--wrap=fopen,--wrap=fopen64,--wrap=fdopen,--wrap=open,--wrap=read,--wrap=write,--wrap=lseek,--wrap=close,--wrap=rename"])],
                bounds={"quick": "file encryption and decryption (9 lengths x 6 stream buffer sizes, 4 larger files), key store export/import (8 sizes x 6 buffer sizes), wbsm4 key export/import (64 KiB and 4 KiB buffers): a fault at every device-level call (fails, cut short, premature end, all later calls fail) and every pair of faults where the run makes at most 150 calls; byte-wise reads of over 1200 calls take every 64th call",
                        "thorough": "as quick with pairs up to 400 calls for every length and all calls of byte-wise runs up to 10000"}),
    "C08": dict(level="model_checking", technique=_tech, note=_note, rule=_rule, harnesses=[H("c08", "san"), H("c08", "opt")],
                bounds={"quick": "FF1 and FF3: every text of every domain radix^length up to 8000 texts for all 35 radices (bijection, inverse and standard value on each text, up to 4 key/tweak pairs); all radices x lengths 2..130; tweak lengths 0..300 and 8 larger ones up to 70000; every tweak bit; texts up to 2000 characters, for FF1 up to 20000 (over 256 blocks of round output) and for every radix the lengths where a half comes closest to a whole number of bytes; aes, sm4, wbaes, wbsm4 over all radices; texts shorter than two characters",
                        "thorough": "as quick with domains up to 300000 texts, lengths to 300 with 40 texts each, tweak lengths to 1100"}),
    "C09": dict(level="model_checking", technique=_tech, note=_note, rule=_rule, harnesses=[H("c09", "san"), H("c09", "opt")],
                bounds={"quick": "all sequences of 3 (4 in the optimised build) calls over 15 operations on four live contexts (two plain, two with MAC; different keys, tweaks, radices), with re-creation and refused texts; tweak lengths 0..40 x text lengths x 4 fills of stack and heap memory; all pairs of radices (text lengths 2..26), of text lengths 2..40 and of tweak lengths 0..34 used alternately; buffer offsets 0..15; radices 0..300 and 8 extreme ones; all pairs of real ciphers side by side",
                        "thorough": "as quick with sequences one call longer"}),
    "C10": dict(level="model_checking", technique=_tech, note=_note, rule=_rule, harnesses=[H("c10", "san"), H("c10", "opt")],
                bounds={"quick": "FF1-CMAC and FF3-GMAC: every text of every domain up to 4000 texts for all radices (text, inverse, equal tags in both directions, tags pairwise different); all radices x lengths 2..70 x 5 tweak lengths; every single-character change; tweak lengths 0..160 and every tweak bit; texts up to 1025 characters, for FF1-CMAC six up to 20000; aes, sm4, wbaes, wbsm4; all sequences of 4-5 calls over 8 operations on two contexts",
                        "thorough": "as quick with domains up to 70000 texts, lengths to 160 and sequences one call longer"},
                assumptions=["a 16-byte tag collision between enumerated texts would be reported; none exists in the enumerated families"]),
    "C11": dict(level="model_checking", technique=_tech, note=_note, rule=_rule, harnesses=[H("c11", "san"), H("c11", "opt")],
                bounds={"quick": "all 2^11 phone samples x 8 cipher/algorithm combinations, all 2^18 ID samples (aes without X, sm4 with X, both algorithms; few-selected/few-kept patterns elsewhere), sample lengths 0..n+6 for texts of 0..30 characters, all values of 2-4 selected digits, every Chinese code point alone and as protected character, all sample patterns of up to 8 Chinese characters, texts to 60 characters, other characters at every position, cut texts, key lengths 0..40, unknown names, all sequences of 4 requests over 8",
                        "thorough": "as quick with all ID patterns for aes and sm4, patterns to 10 characters, texts to 200 characters and sequences of 5"}),
    "C12": dict(level="model_checking", technique=_tech, note=_note, rule=_rule, harnesses=[H("c12", "san"), H("c12", "opt")],
                bounds={"quick": "message lengths 0..1200 x 8 contents and 7 larger ones; every value of every byte of messages of 14 lengths up to 129; all splits of up to 330 bytes into two and 200 bytes into three updates; chunk sizes 1..140; all sequences of 5 updates over 15 chunk sizes; all histories of 6 operations over 8 on two contexts; re-initialisation at every point; 12 ways of feeding 2^29-1 .. 2^32+100 bytes",
                        "thorough": "as quick with lengths to 5000, splits to 600/330, sequences of 6, histories of 7 and two more ways beyond 2^32 bytes"}),
    "C13": dict(level="model_checking", technique=_tech, note=_note, rule=_rule, harnesses=[H("c13", "san", shards=64, stack_mb=64), H("c13", "opt", shards=64, stack_mb=64)],
                bounds={"quick": "all pairs of exporter and importer configurations (2 directions x 0..3 dummy rounds, importer fresh or used), by file and by bytes, with re-export and regeneration; all histories of 3 (4 in the optimised build) operations over 8 on an exporter and two importers; truncation at every length near both ends and at every 24th table, extension by 1..64 bytes, every header bit, 18 other round counts, for keys with 0..2 dummy rounds; key store of 0..319 bytes with every truncation",
                        "thorough": "as quick with up to 5 dummy rounds, histories one operation longer and truncation at every 4th table"},
                assumptions=["a byte string is at least as long as its own length field says, as the interface carries no other length", "changed table contents are not detectable by the format and are not claimed"]),
    "C14": dict(level="model_checking", technique=_tech, note=_note, rule=_rule, harnesses=[H("c14", "san", stack_mb=64), H("c14", "opt", stack_mb=64)],
                bounds={"quick": "both variants, encryption and decryption side of each key pair: 400 random-encoding seeds, key lengths 0..40, every value of every text byte; IV lengths 0..80 and 16 larger ones; AAD 0..36 x message 0..68 lengths; larger lengths to 128 KiB and 2 MiB in pieces; IVs, AADs and ciphertexts of over 2^29 bytes; counter starts around every carry; tag lengths 0..40; all splittings of up to 5 blocks + tail; every bit, cut, extension, block exchange and moved border of 144 messages; all valid sequences of 2-6 calls over 10 operations on an encryption/decryption pair with a bystander",
                        "thorough": "as quick with 4000 seeds, an 80x130 grid, 520 MiB in pieces, 8-block splittings and sequences of 7"},
                assumptions=["the masked variant's per-byte maps are learnt from the encryption side with 9 probe blocks; everything else is predicted from them"]),
    "C15": dict(level="model_checking", technique=_tech, note=_note, rule=_rule, harnesses=[H("c15", "san", ldflags=["-Wl,--wrap=cus_random"], stack_mb=64), H("c15", "opt", ldflags=["-Wl,--wrap=cus_random"], stack_mb=64)],
                bounds={"quick": "all 65536 4x4 matrices (rank, inverse, transpose, all 16 vectors, 256 multipliers on both sides, affine composition); every entry of every row at dimensions 8..128 against basis and dense matrices; 12n-15n special matrices per dimension (every rank, zero row/column/diagonal place, rotations, triangles, companions); all 40320 8x8 permutation matrices; parity and weight of every value of every 16-bit lane over 3 backgrounds; generated pairs from 64x4000 .. 64x60 seeds per dimension, from every start matrix and every later draw at dimension 4, from every special start matrix with 12 draw patterns at every dimension; permutations from 16x40000 seeds, every draw value at every place and all pairs of draws; every entry of every block of every combination",
                        "thorough": "as quick with 8 times the seeds, 4096 multipliers per 4x4 matrix and 20 times the dense matrices"},
                assumptions=["draws are scripted at the call to cus_random; if the library stopped using it the seeds would remain"]),
    "C16": dict(level="model_checking", technique=_tech, note=_note, rule=_rule, harnesses=[H("c16", "san", stack_mb=64, env={"OMP_WAIT_POLICY": "passive"}), H("c16", "opt", stack_mb=64, env={"OMP_WAIT_POLICY": "passive"})],
                bounds={"quick": "CBC (aes, sm4, wbaes, wbsm4, user function): all pairs of length 0..100 and capacity 0..length+34, several alignments, exact-size guarded buffers; GCM and parallel GCM (the same five) and both white-box GCM variants: all pairs of length 0..70 and capacity 0..length+20, with the refused call followed by a valid one; claimed lengths around 2^31, 2^32, 2^33, 2^48, 2^63 and 2^64 against small buffers; tag lengths 0..63 and huge ones; padding helpers for lengths 0..600 x every last byte; padded lengths around every power of two; SM3 and the four FPE algorithms with exact buffers",
                        "thorough": "as quick with lengths to 200/140/2400/300"}),
    "C17": dict(level="model_checking", technique=_tech, note=_note, rule=_rule,
                harnesses=[H("c17", "san", ["c17.c", "@/udf/mysql8.cpp"], cflags=["-I/usr/include/mysql"]), H("c17", "opt", ["c17.c", "@/udf/mysql8.cpp"], cflags=["-I/usr/include/mysql"]),
                           H("c17m5", "san", ["c17.c", "@/udf/mysql5.cpp"], cflags=["-I/usr/include/mysql", "-Dmy_bool=bool"]),
                           H("c17s", "sched", ["c18.c", "sched.c", "@/udf/mysql8.cpp"], cflags=["-I/usr/include/mysql", "-DONLY_UDF"], optional_link=True),
                           H("c17s5", "sched", ["c18.c", "sched.c", "@/udf/mysql5.cpp"], cflags=["-I/usr/include/mysql", "-DONLY_UDF", "-Dmy_bool=bool"], optional_link=True)],
                bounds={"quick": "MySQL 8 and MySQL 5 plugin, called as the server does with unterminated exact-size arguments: 0..5 arguments of every type; 20 mode names x every NULL mask x 5 texts; all 2^11 phone samples; 1/31 of the 2^18 ID samples plus all with few selected or kept; rows of 0..40 bytes x sample lengths x announced lengths for every mode; a NUL byte at every place; Chinese rows of 1..400 characters against announcements 0..5000; all sample patterns of up to 8 characters; every code point; all sequences of 5 rows over 9 kinds on two instances; statements run at once by two threads: all interleavings of their calls and all schedules with at most 1 preemption at any access, three threads with at most 2 preemptions between calls, races",
                        "thorough": "as quick with all ID samples, rows to 80 bytes and 1300 characters, and sequences one row longer"},
                assumptions=["the MySQL 5 source is compiled against the MySQL 8 header with my_bool as bool"]),
    "C18": dict(level="model_checking", technique=_tech, note=_note, rule=_rule,
                harnesses=[H("c18", "sched", ["c18.c", "sched.c", "@/udf/mysql8.cpp"], cflags=["-I/usr/include/mysql"], optional_link=True)],
                bounds={"quick": "41 call programs (FF1, FF3, their MAC variants, GCM, parallel GCM, CBC, SM3, AES/SM4 keys and blocks, white-box blocks, both white-box GCM variants, files, key files, key exchange, matrices, application FPE, MySQL function): for all 861 pairs all interleavings of their calls (at most 1 preemption for the 15 slow programs), three threads with at most 2 preemptions, happens-before race detection on every byte; all schedules with at most 1 preemption at any access for the fast programs and related pairs; the same with every schedule in a new process for 18 programs (first use)",
                        "thorough": "as quick with 3 preemptions for slow pairs, all triples of the family, one preemption at any access for every program and every pair of fast ones"},
                assumptions=["sequentially consistent interleavings: justified by the absence of data races, which is checked", "code of libc and libcrypto is executed but its own accesses are not scheduling points"]),
    "C19": dict(level="model_checking", technique=_tech, note=_note, rule=_rule,
                harnesses=[H("c19", "opt", ["c19.c", "@/udf/mysql8.cpp"], cflags=["-I/usr/include/mysql"]), H("c19m5", "opt", ["c19.c", "@/udf/mysql5.cpp"], cflags=["-I/usr/include/mysql", "-Dmy_bool=bool", "-DONLY_MYSQL"])],
                bounds={"quick": "13 families of calls (ciphers with CBC, white-box ciphers with 0..2 dummy rounds, GCM and parallel GCM over five block functions, both white-box GCM variants, files of seven kinds, FF1/FF3 and their MAC variants, application FPE, MySQL 8 and 5 functions, key export and key store), each alphabet with refused and failing calls: all sequences of 1..3 calls (1..2 for slow families) followed by release, each run repeatedly until memory and descriptor use is steady; all radices x text lengths 0..70, tweaks 0..300, CBC lengths x capacities, GCM lengths 0..200, samples; erasure of AES, SM4 and GCM contexts after all histories of 3 operations",
                        "thorough": "as quick with sequences one call longer, text lengths to 200 and all capacities"},
                assumptions=["memory that stops growing after a few hundred repetitions counts as a cache, not as a leak", "tables of the masked white-box GCM and the application context have no release function and are not released by the harness"]),
    "C20": dict(level="model_checking", technique=_tech, note=_note, rule=_rule,
                harnesses=[H("c20", "opt", ["c20.c", "@/udf/mysql8.cpp"], cflags=["-I/usr/include/mysql"])],
                bounds={"quick": "every public call with its inputs (text, key, tweak, IV, AAD, sample, path, exported key, server arguments, initialised cipher context) once in ordinary memory, once read-only ending at an inaccessible page and once read-only beginning after one: key lengths 0..40, CBC lengths 0..130, GCM lengths 0..100 x 40 IV lengths, white-box GCM lengths 0..70, all radices x text lengths 0..64, tweaks 0..300, all phone and Chinese samples, 1/61 of the ID samples, MySQL rows, SM3 splits to 200 bytes, padding helpers, files to 300 bytes, key import with every header byte changed",
                        "thorough": "as quick with lengths to 1000 (CBC), 300 (GCM), 160 (FPE), 500 (SM3), 600 (files) and 1/7 of the ID samples"}),
    "C21": dict(level="model_checking", technique=_tech, note=_note, rule=_rule,
                harnesses=[H("c21", "opt", ["c21.c", "@/udf/mysql8.cpp"], cflags=["-I/usr/include/mysql"])],
                bounds={"quick": "113 scenarios: creation of 11 kinds of context, key set-up and use of 9 ciphers, CBC of 0/15/16/100 bytes, GCM and parallel GCM of 0..64 bytes with IVs of 12 and 37 bytes, white-box GCM, its mask tables, files of 0/300/2500 bytes of 8 kinds, FF1/FF3 and their CMAC/GMAC variants for texts of 2/11/60/400 symbols in radix 10/36/2, the application context and functions, the MySQL function, key export and import, SM3; in each, the k-th allocation fails (alone, or it and all later ones) for every k, and likewise the k-th use of the block function (every k to 20 and among the last 40, about 200 in between where there are more than 700); the same call made again must succeed",
                        "thorough": "as quick with every k in every scenario and every FPE configuration"}),
    "C22": dict(level="model_checking", technique=_tech, note=_note, rule=_rule,
                harnesses=[H("c22", "opt", ["c22.c"])],
                bounds={"quick": "13 kinds of tables (wbaes, se_wbsm4 each way, wbsm4 each way with 0/1/2 dummy rounds, white-box GCM ee and mask, the application with wbaes and wbsm4); every sequence of 1 and 2 operations among generation with two keys, use, modes, export as bytes and as file, and those of 3 that begin with key 1 and generate at most twice; key lengths 0..40; 14 pairs of random streams (of 6) for each kind; after every operation all allocated and static memory against every 8-byte window of key and schedules in both byte orders, and every table at every aligned place against 2 x 256 input and 8 output tests",
                        "thorough": "as quick with all sequences of up to 4 operations and the pairs of 16 random streams"}),
}
