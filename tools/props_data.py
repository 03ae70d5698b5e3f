prop("C01", "ECDH PSI reveals blinded items only to the parties entitled to the result",
     "In every ECDH-based intersection (two-party, three-party, with or without recovery) a party sends doubly blinded items and duplicate counts only to a party that is configured to obtain the result, and always sends them to such a party; it stores doubly blinded items for comparison only if it is itself entitled.",
     ["configurations", "inputs", "schedules"], "every choice of receiver, broadcast and recovery settings, every rank, every execution path of the sending code",
     "The tests run a handful of configurations and look at the result; a party that additionally leaks the other side's doubly blinded items computes the same result and passes.",
     ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/ecdh/receiver.cc", "psi/algorithm/ecdh/sender.cc", "psi/algorithm/ecdh/ecdh_3pc_psi.cc", "psi/algorithm/ecdh/ecdh_operator.cc"],
     [("target rank decides who may receive", "psi/algorithm/ecdh/ecdh_psi.cc EcdhPsiContext::MaskPeer, MaskSelf, SendDualMaskedBatch"), ("entry points choose the target rank", "psi/algorithm/ecdh/receiver.cc, sender.cc Online")],
     "information-flow labels over an interprocedural abstract interpretation of every entry point, per configuration valuation",
     "Covers every path the abstract interpreter enumerates from each entry point under each configuration valuation; container elements and loops are summarised. Trusts the models of yacl (link, curves) in stubs/ and the reduction of cryptography to labels; implicit flows and traffic volume are outside.")

prop("C02", "Raw items and the keys derived from them never leave a party unmasked",
     "In the OT- and OKVS-based protocols (KKRT, RR22 in both modes), the server-aided multi-party protocol, differentially private PSI and the keyword-PIR request, no message a party sends carries anything computed from its input items unless a pad unknown to the recipient has been applied (OT-extension or VOLE output, blinding scalar, or encryption under a key the recipient does not hold); an OKVS is sent only with pseudo-random values; the result itself is sent only as matched entries. Duplicate counts and sizes are exempt.",
     ["inputs", "configurations", "programs"], "every input, protocol, configuration and execution path that reaches a network send",
     "Tests check that the intersection is right; sending extra plaintext, or masking one batch too few, does not change it.",
     ["psi/algorithm/ecdh", "psi/algorithm/kkrt", "psi/algorithm/rr22", "psi/legacy/dp_psi/dp_psi.cc", "psi/algorithm/nty"],
     [("masking before send", "every *_psi.cc send function"), ("result broadcast only when configured", "psi/utils/bucket.cc HandleBucketResultBySender/Receiver")],
     "taint analysis (source: item readers; sanitisers: masking primitives; sinks: link sends)",
     "Explicit data flow on every abstract path from the protocol entry points; cryptographic strength of the masking primitives is trusted.")

prop("C03", "Private keys never reach the network, a log, a report or another file",
     "The private keys of the EC-based protocols (blinding scalars and their inverses, OPRF server and client keys, keys read from key files or the cache) and counting PIR's ElGamal key and linear function never flow, whole or in part, encoded or not, to a network send, a log line, an exception text, a field of a message not made for a key, or any file other than the configured key file, the checkpoint's key file and the cache's metadata; only products in the group, ciphertexts, hashes and comparisons leave.",
     ["inputs", "configurations", "programs"], "every path on which key material flows to an output of the process",
     "No test inspects logs, error texts or the bytes on the wire for key material.",
     ["psi/algorithm/ecdh/ub_psi", "psi/algorithm/dkpir", "psi/cryptor", "psi/utils/key.cc", "psi/interface.cc"],
     [("keys stay inside the cryptor", "psi/cryptor/ecc_cryptor.h, psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.h"), ("key files", "psi/algorithm/ecdh/ub_psi, psi/algorithm/dkpir")],
     "taint analysis from key fields to sends, log calls, exception texts and file writes",
     "Explicit data flow through every function of psi/ (field-based, flow-insensitive, calls by summary, virtual calls to every override); keys inside apsi, seal and the lattice code are not followed, nor is the debugging EcdhLogger interface.")

prop("C04", "Keys and seeds come from a cryptographic generator",
     "Every generator, cipher key and function parameter that takes a seed or private key is given a value that is neither a constant nor derived from a non-cryptographic source (clock, random_device, rand, the output of an ordinary engine) alone. Every freshly made object that holds a private key has it drawn in full, with the draw's failure refused, unless the caller supplies it. Spiral's secret noise never comes from the generator of its published randomness.",
     ["inputs", "histories"], "every construction of a secret on every path",
     "A predictable or constant key gives exactly the same intersection, so every functional test still passes.",
     ["psi/cryptor/ecc_cryptor.h", "psi/algorithm/rr22", "psi/algorithm/kkrt", "psi/algorithm/nty", "psi/legacy/dp_psi", "psi/algorithm/ecdh/ub_psi", "psi/algorithm/spiral"],
     [("secure generator", "yacl::crypto::SecureRand*, RAND_priv_bytes callers")],
     "origin (provenance) analysis of every secret-bearing field, argument and generator seed",
     "Decides where each secret's bits come from; the statistical quality of the generator is trusted.")

prop("C05", "Result files and counts are produced only for parties entitled to the result",
     "In two-party PSI a party writes an intersection result and reports its size exactly when it is the receiver or the result is broadcast; in unbalanced PSI exactly when it is configured to obtain the result; in the bucket operators exactly when the operator says it receives the result. Every other party writes no result (offline phases included) and, where a report carries a count, reports -1.",
     ["configurations", "inputs"], "every role, broadcast setting, protocol and join type",
     "Tests compare result files for a few configurations; a sender that also writes or reports a result in the others is invisible to them.",
     ["psi/interface.cc", "psi/kkrt", "psi/rr22", "psi/ecdh", "psi/proto/psi_v2.proto"],
     [("entitlement gate", "psi/interface.cc AbstractPsiParty::Finalize"), ("post-processing", "psi/algorithm/*/receiver.cc, sender.cc PostProcess")],
     "path-sensitive effect analysis per role and broadcast valuation",
     "All paths of Finalize and of the party classes under each valuation of role and broadcast setting.")

prop("C06", "A result is forwarded to the other party only when broadcasting is configured",
     "In the cuckoo/OKVS based protocols (KKRT, RR22), the bucketed operator framework and the N-party composition, the computed intersection (items or indices) is sent to another party only when the configuration asks for the result to be broadcast, and then it is sent and received on every path; the inner two-party rounds of the N-party protocol never broadcast.",
     ["configurations"], "every protocol and broadcast setting, every bucket and every path",
     "With broadcasting off no test looks at what is sent; with it on the tests see only a few sizes.",
     ["psi/utils/bucket.cc", "psi/algorithm/psi_operator.cc", "psi/algorithm/rr22", "psi/algorithm/kkrt", "psi/legacy/nparty_psi.cc"],
     [("broadcast gate", "psi/algorithm/psi_operator.cc Run; psi/utils/bucket.cc; psi/algorithm/rr22/rr22_psi.cc")],
     "information-flow labels with configuration valuations",
     "All abstract paths from each operator's entry point.")

prop("C07", "Unbalanced PSI discloses matches only to the side configured to see them",
     "In unbalanced PSI the client sends the matched indices and its duplicate counts to the server exactly when the server is configured to obtain the result; the server answers the client's blinded items in their order only when the client is configured to obtain the result and randomly permuted otherwise; the items the server caches and transfers offline are evaluated and permuted first; neither side ever sends an unblinded item.",
     ["configurations", "inputs"], "every client/server-get-result setting and path",
     "The tests check the parties' outputs, not what additionally crosses the wire.",
     ["psi/algorithm/ecdh/ub_psi"],
     [("result gates", "psi/algorithm/ecdh/ub_psi/client.cc, server.cc, ecdh_oprf_psi.cc")],
     "information-flow labels with configuration valuations",
     "All abstract paths from client and server entry points.")

prop("C08", "Recovery checkpoints never claim more than has been durably stored",
     "At every moment at which a process may crash, the progress recorded in a recovery checkpoint is covered by data already flushed to the stores it refers to (item counts are the store's own count, bucket counts are the buckets whose results are committed), the private key is on disk before a checkpoint refers to work done with it and is loaded again on restart, the checkpoint file is replaced atomically and rewritten on every change of the record, and a stage is recorded only after its work. On restart work resumes from no later than the smaller of the two parties' recorded progress, taken from the peer's record, the online stage is skipped only if both finished it, and remaining items keep their duplicate counts and stores their numbering.",
     ["crash_points", "histories", "schedules"], "every crash point during an intersection with recovery enabled, and every later restart",
     "The recovery tests stop the job at a few chosen points and only in the ECDH protocol.",
     ["psi/checkpoint/recovery.cc", "psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/kkrt", "psi/algorithm/rr22", "psi/utils/ec_point_store.cc"],
     [("flush before update", "psi/algorithm/ecdh/ecdh_psi.cc MaskPeer, RecvDualMaskedSelf"), ("commit before update", "psi/algorithm/rr22/receiver.cc, sender.cc"), ("resume at the minimum", "psi/algorithm/ecdh/ecdh_psi.cc RunEcdhPsi")],
     "typestate analysis (store dirty/flushed) on every path to a checkpoint update",
     "Ordering on every abstract path; that a flushed stream survives a crash is trusted.")

prop("C09", "A checkpoint is only resumed with the configuration and inputs it was made for",
     "A recovery checkpoint is resumed only when the whole recorded configuration and the recorded digest of the input keys equal this run's, which is checked before any phase of the protocol or any other use of the recovered state; on a mismatch the job stops. The digest is computed from the rows of this run's input, never taken over from an earlier input. The UB-PSI server uses a cache only with the key it was made with and only if the cache has its recorded length.",
     ["histories", "inputs"], "every earlier run that left a checkpoint and every later configuration or input",
     "Tests resume with unchanged inputs only.",
     ["psi/checkpoint/recovery.cc", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc"],
     [("digest comparison", "psi/checkpoint/recovery.cc MarkInitEnd, MarkPreProcessEnd")],
     "dominance analysis: comparison before every use of restored state",
     "All paths through the recovery and cache code.")

prop("C10", "What one party serialises the other party deserialises the same way",
     "For each pair of routines that write and read the same wire or file format, the reader consumes exactly the fields the writer produces, in the same order, widths and byte order, with nothing dropped, so that decoding an encoded message always gives the original back.",
     ["inputs", "programs"], "every message value of every encoder/decoder pair",
     "Round-trip tests exist for few formats and use few values; a field that is default in the sample can be dropped unnoticed.",
     ["psi/algorithm/ecdh/ecdh_psi.h", "psi/utils/serialize.h", "psi/algorithm/spiral/serialize.cc", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc", "psi/utils/ec_point_store.cc"],
     [("encoder/decoder pairs", "Serialize*/Deserialize*, Save*/Load* functions")],
     "structural comparison of the abstract field sequences written and read by each pair",
     "Field-by-field on the resolved program; the encodings of protobuf itself are trusted.",
     na="That decoding gives back every encoded value is a statement about byte contents (hand-written layouts of SEAL and lattice matrices, point stores and caches, whose lengths come from the data); comparing field sequences of the two routines decides neither widths nor contents and was not built into a sound check. Decided elsewhere: compatibility of the message schemas (C11), sizes of what was received (C12), the decoded dummy flag (C33).")

prop("C11", "Published configuration, checkpoint and wire messages stay compatible",
     "A configuration file, checkpoint, cache or network message produced with the published message definitions keeps its meaning: no published field or enum value changes its number, name, type, cardinality or oneof membership, and no number is reused.",
     ["histories", "programs"], "every message written by an earlier build or by the peer's build",
     "Tests always use one build for both ends.",
     ["psi/proto/psi.proto", "psi/proto/psi_v2.proto", "psi/proto/pir.proto", "psi/checkpoint/checkpoint.proto", "psi/utils/serializable.proto", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.proto"],
     [("message definitions", "psi/**/*.proto")],
     "comparison of the compiled descriptor set with a frozen schema table",
     "Exhaustive over all messages, fields and enum values of the compiled descriptors; the frozen table is the published schema at the pinned commit.")

prop("C12", "Sizes and indices received from the peer are checked before they index memory",
     "What a party receives over the link is checked before it reaches memory, in every two- and three-party protocol of the library: a copy whose length the peer chose goes into a destination sized from that length in whole items, or after the length was compared with the room there is; bytes are read out of a received buffer only after its size was compared with what is read; an index that was received is compared with an upper bound before it selects an element, also when it is handed to a callback that does so; a number that was received divides nothing before it is known not to be zero. A message that fails the check ends in an error; a log line is no check.",
     ["inputs", "fault_sequences"], "every byte string a peer may send",
     "Tests only ever receive well-formed messages from their own counterpart.",
     ["psi/algorithm/rr22", "psi/algorithm/kkrt", "psi/algorithm/nty", "psi/legacy/dp_psi/dp_psi.cc", "psi/algorithm/ecdh"],
     [("size checks on received buffers", "YACL_ENFORCE after Recv")],
     "taint analysis from received buffers to memcpy sizes and subscripts, with guard tracking",
     "Explicit data flow on every abstract path from each receive.")

prop("C13", "State shared between threads is only touched under its lock",
     "Every object shared between concurrently running tasks (progress reporting, recovery checkpoints, the operator registry, the unbalanced-PSI client, prefetching and shuffling batch readers) accesses its mutable state only while holding the mutex that protects it, exclusively for writes, and never locks a mutex it already holds.",
     ["schedules"], "every interleaving of the threads using these objects",
     "Tests run few threads and one schedule; a missing lock almost never shows.",
     ["psi/utils/progress.cc", "psi/checkpoint/recovery.cc", "psi/algorithm/psi_operator.cc", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc", "psi/utils/batch_provider_impl.cc", "psi/utils/arrow_csv_batch_provider.cc"],
     [("mutex members and lock guards", "the classes named in the statement")],
     "interprocedural lock-set analysis (guarded-by) of every method of every shared class",
     "Every access on every abstract path from every entry method; which objects are shared is a frozen table with reasons.")

prop("C14", "Every background task is joined and its failure reaches the caller",
     "The handle of every task started with std::async, a thread pool or std::thread is kept, and on every normal return the task has been joined; a failure of an asynchronous task is fetched with get() and rethrown, never swallowed by a handler around get() or inside the task. What a task writes is not read before the join, what it uses by reference outlives its future also when an exception unwinds the caller (a destructor waits, but does not rethrow), and a thread that waits or spins for another task's progress stops waiting when that task fails.",
     ["schedules", "fault_sequences"], "every interleaving and every point at which a task may fail",
     "Tests do not inject failures into background tasks.",
     ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/kkrt", "psi/algorithm/rr22", "psi/utils/arrow_csv_batch_provider.cc", "psi/interface.cc"],
     [("futures joined", "std::async users")],
     "typestate analysis of every future/thread from launch to get/join on every path",
     "All launch sites in the library.")

prop("C15", "Failures reported by I/O, parsing and cryptographic calls are not ignored",
     "A failure that the code can be told about is never carried past as if it had been success. In every function of psi/ (outside tests, mocks and experiment/): whenever one of the fallible calls below fails, the function either does not return normally, or returns a value that says so (and then the same holds for each function that calls it). The calls are: parsing a protobuf or JSON message (from memory, a string, a stream or a file), converting a message to JSON, base64 and number parsing, rapidjson parsing, the OpenSSL curve, big-number, random-byte and digest calls and FourQ/APSI point operations that return a status, `system()`, every arrow call returning a Status or Result, and opening a std file stream that is then used. Likewise the state of every std file stream that was written to or read in blocks is looked at after the last such operation before the function returns (a stream kept in a member: some method other than the destructor flushes or closes it and looks at its state), so a full disk or a truncated file is never taken for a complete one. Exempt: probing /proc and /sys, the optional trace file, destructors.",
     ["fault_sequences", "inputs"], "every failing write, read, parse or crypto call",
     "Tests do not provoke failing disks, truncated files or corrupt messages.",
     ["psi/utils", "psi/checkpoint", "psi/algorithm/ecdh/ub_psi", "psi/algorithm/dkpir"],
     [("ENFORCE around calls", "throughout")],
     "path-sensitive abstract interpretation that forks at every fallible call: the failed state must not survive a normal return",
     "All call sites in the library of the frozen list of fallible functions.")

prop("C16", "Every configurable choice is either handled or rejected, never silently ignored",
     "Every value of an enumeration that selects what is run is either handled as its name says or refused with an error: no switch over a protocol, role, mode, curve, OPRF or PSI type enumeration lets a value without a case carry on; protocol, role and intersection threshold select the party created (a threshold is refused where it is not supported); the modes of unbalanced PSI and of the DkPir sender do exactly their own steps; the launcher runs the one configuration it was given; a legacy PSI type creates its own operator and unsupported types are refused; input and output types other than CSV, roles of the wrong kind and outer joins without a left side are refused; and the advanced join type decides which matched, unmatched and filler rows each side writes, and in which order.",
     ["configurations"], "every value of every configuration enumeration, including ones added later",
     "Tests cover the popular values only.",
     ["psi/apps/psi_launcher/factory.cc", "psi/apps/psi_launcher/launch.cc", "psi/interface.cc", "psi/utils/join_processor.cc", "psi/cryptor/cryptor_selector.cc"],
     [("dispatch switches", "switch statements and if-chains on configuration enums")],
     "exhaustiveness check of switches, and abstract interpretation of each dispatch for every enumerator",
     "All switches and dispatch chains over the configuration enums.")

prop("C17", "Legacy and converted configurations keep every setting the user gave",
     "When a configuration is converted - the execute configurations of the public API to the current, unbalanced or legacy message and on to the in-memory PSI, its operators and the ECDH, KKRT and RR22 options; the APSI and DKPIR messages to their command options - every setting that has a counterpart arrives there unchanged (a setting left at zero may become a default; one that does not fit is refused), each protocol, curve, join type, source type and mode becomes the one of the same name, roles and left side follow the ranks, and each count of the run's report is returned under its own name.",
     ["configurations", "inputs"], "every combination of settings in the source configuration",
     "Tests convert a few configurations that set few fields.",
     ["psi/apps/psi_launcher/launch.cc", "psi/legacy/bucket_psi.cc", "psi/algorithm/rr22/rr22_psi.h"],
     [("field-by-field conversion", "psi/apps/psi_launcher/launch.cc")],
     "field-mapping (data-flow) analysis of each conversion function against a frozen mapping",
     "Every target field on every path of each conversion.")

prop("C18", "The elliptic curve that is configured is the one that is used, on both sides",
     "For every configured curve and every CPU feature combination, the cryptor (or OPRF party) created works on the group of that curve, maps items to points the same way on every platform and reports that curve in the parties' curve check; an invalid curve is refused; the client and server factories accept the same curves; the name and configuration tables map each curve to itself; and the operators and calls that take a curve get the configured one, never a fixed curve in its place.",
     ["configurations"], "every curve, platform feature and key setting",
     "Tests exercise both parties with the same selector, so a consistent mix-up is invisible; hardware-dependent branches run on one CPU only.",
     ["psi/cryptor/cryptor_selector.cc", "psi/cryptor/ecc_utils.h"],
     [("curve dispatch", "psi/cryptor/cryptor_selector.cc CreateEccCryptor")],
     "path-sensitive value analysis of the dispatch from curve to implementation",
     "Every curve value and every platform branch.")

prop("C19", "Parties agree on parameters before any item-derived data is exchanged",
     "In two-party PSI (ECDH, KKRT, RR22) no phase of the protocol starts and nothing derived from the items is sent before both parties' configurations have been exchanged and found equal in every field except the party-local ones (input and output location, key names, debug options, alignment, uniqueness of the own keys, count file, recovery folder), with different roles; ECDH exchanges additionally start only after target rank and curve of both parties were found equal. Disagreement stops the job.",
     ["configurations", "fault_sequences"], "every pair of configurations of the parties",
     "Tests start both parties with matching configurations; only few mismatches are tried.",
     ["psi/interface.cc", "psi/algorithm/ecdh/ecdh_psi.cc", "psi/factory.cc"],
     [("peer configuration check", "psi/interface.cc CheckPeerConfig; psi/algorithm/ecdh/ecdh_psi.cc CheckConfig")],
     "dominance analysis: agreement check before data exchange; field coverage of the comparison",
     "Every path from entry to the first data send; every compared field.")

prop("C20", "Counting PIR releases its seed only to a querier whose row count checks out",
     "In keyword PIR with duplicate counting the sender answers the blinded keys in an order fixed by a fresh secret seed, answers the data query only after the receiver has sent the ciphertext of its row count, and discloses the seed (and records the row count) only after the claimed row count has been verified against that ciphertext, the secret polynomial and key and the number of keys queried; a failed verification ends the query with an error. The count database holds only encryptions of counts masked by that polynomial.",
     ["inputs", "fault_sequences"], "every message of a possibly cheating receiver",
     "Tests have honest receivers.",
     ["psi/algorithm/dkpir/sender.cc", "psi/algorithm/dkpir/receiver.cc"],
     [("row-count verification", "psi/algorithm/dkpir/sender.cc")],
     "dominance analysis of the release by the verification",
     "All paths of the sender's query handling.")

prop("C21", "Malicious-mode OKVS PSI fixes its random challenge by a committed coin toss",
     "With malicious security the OKVS sender draws a fresh share and sends its full-length hash before it receives the peer's share and opens it only then; the receiver sends its own fresh share only after the hash arrived and aborts unless the opened share hashes to it; the challenge combines both shares, every output is Davis-Meyer-hashed under it, the VOLE runs in malicious mode, outputs are not truncated, and the low-communication mode is refused.",
     ["inputs", "configurations", "fault_sequences"], "every message of a cheating peer and every mode/compression setting",
     "Tests have honest peers.",
     ["psi/algorithm/rr22/rr22_oprf.cc", "psi/algorithm/rr22/rr22_psi.cc"],
     [("commit and open", "psi/algorithm/rr22/rr22_oprf.cc")],
     "ordering and value-flow analysis of the coin-toss messages",
     "All paths of sender and receiver in malicious mode.")

prop("C22", "Reported progress is always within bounds and reaches 100% when the work is done",
     "At every moment a reported percentage lies between 0 and 100, a composite's percentage is the weighted mean of its parts (unstarted parts counting zero), no part outside the configured ones is read, and marking a job done marks all its parts done, after which it reports 100% once every configured part has been started.",
     ["inputs", "histories", "schedules"], "every sequence of updates, sub-jobs and weights",
     "The tests run two scripted histories.",
     ["psi/utils/progress.cc"],
     [("clamping and weighting", "psi/utils/progress.cc Update, Get, Done")],
     "value-range and value-flow analysis of every producer of a progress figure",
     "Every path of every progress method; arithmetic overflow of size_t weights is excluded.")

prop("C23", "Both parties take part in the same sequence of collective exchanges",
     "Whenever one party performs a collective exchange (all-gather, broadcast, paired send/receive) that needs the other, the other party's code performs the matching one at the same position for the same configuration, so that no configuration deadlocks or cross-wires two exchanges.",
     ["configurations"], "every configuration under which both parties run",
     "Tests run few configurations; a mismatched exchange in another one hangs only there.",
     ["psi/interface.cc", "psi/algorithm/rr22", "psi/algorithm/kkrt", "psi/utils/bucket.cc", "psi/algorithm/ecdh/ub_psi"],
     [("paired exchange code", "sender.cc/receiver.cc pairs")],
     "comparison of the abstract communication sequences of both roles per configuration valuation",
     "Every pair of sender/receiver paths under equal valuations.",
     na="How many exchanges a party performs depends on runtime data of both sides (batches, recovered counts, which side is empty); a static comparison of the two communication sequences cannot relate those loops and would alarm on correct code. Decided elsewhere: that forwarding and its reception happen on every path (C06), every batch is answered (C01), parameters are agreed first (C19).")

prop("C24", "Memory handed across the C interface is sized, owned and released consistently",
     "Every buffer the C query interface hands out has enough memory for the elements it declares, declares exactly the elements of its source (binary data included) and is rebuilt on the way back with pointer and length; every release function frees every element and the buffer exactly once, in bounds, never reads released memory, and leaves the caller's buffer or handle empty so that releasing it again is harmless; an opaque handle is always converted to the one implementation type it was made from, and making it transfers ownership to the caller.",
     ["inputs", "histories"], "every content (including zero bytes and empty arrays), every order of calls and repeated release through the C interface",
     "The tests call the wrappers once with short printable strings; an off-by-one allocation, a leak, a dangling handle or a use after free is not observable in them.",
     ["psi/wrapper/apsi/api/wrapper_common.h", "psi/wrapper/apsi/api/wrapper_util.cc", "psi/wrapper/apsi/api/receiver_c_wrapper.cc", "psi/wrapper/apsi/api/sender_c_wrapper.cc"],
     [("buffer construction", "psi/wrapper/apsi/api/wrapper_util.cc MakeCString, MakeCStringArray"), ("release", "psi/wrapper/apsi/api/wrapper_common.h FreeCString, FreeCStringArray; FreeQueryResult, Bucket*Free"), ("handles", "psi/wrapper/apsi/api/*_c_wrapper.cc")],
     "ownership/typestate and symbolic-size analysis of every function of the C interface",
     "Every abstract path of every C function and conversion routine; sizes are compared as symbolic terms. malloc/free and unique_ptr semantics are trusted; exceptions crossing the interface are not part of the property.")

prop("C25", "Temporary files are removed and output streams are completed",
     "Temporary and intermediate files holding item data are created in a scoped location and removed when the object that owns them goes away, including on errors, and a result stream is flushed and closed before the operation reports success.",
     ["fault_sequences", "histories"], "every normal and exceptional end of a job",
     "Tests do not look at leftovers after failures.",
     ["psi/utils/hash_bucket_cache.cc", "psi/utils/ec_point_store.cc", "psi/utils/csv_checker.cc"],
     [("scoped temporary directories", "psi/utils")],
     "ownership and typestate analysis",
     "All creators of temporary files.",
     na="Which files are left behind depends on which exceptions and exits a run meets and on destructors of objects shared between threads, histories no static argument in reach enumerates soundly here. The static part, that a result stream is completed and its failure seen before success is reported, is decided under C15.")

prop("C26", "Parallel loop bodies never write the same memory without a lock",
     "In the library, every iteration range of a parallel loop, and every task started in a loop whose handle is kept with the others, writes only to its own variables, to atomics and to container elements selected by its own index (so that no other range or task writes or reads the same element), or holds a lock common to all the writers of that data; shared scratch values, counters, appended containers, maps that may insert and packed bits are never written without one. A task started in a loop does not refer to the loop's own variable.",
     ["schedules"], "every interleaving of the workers and every split of the range",
     "A race on a shared accumulator rarely shows in a short test.",
     ["psi/algorithm/rr22", "psi/algorithm/kkrt", "psi/cryptor", "psi/utils", "psi/algorithm/spiral", "psi/algorithm/sealpir"],
     [("index-partitioned writes", "yacl::parallel_for users")],
     "effect (write-set) analysis of every parallel body",
     "All parallel_for bodies and std::async/enqueue tasks started in loops; std::thread workers and calls through std::function are not followed.")

prop("C27", "Differentially private PSI subsamples and randomises before anything is sent",
     "In differentially private PSI the sender subsamples its items with the configured rate, in shuffled order, before any of them is masked, and returns the peer's doubly masked items in no particular order; the receiver sends (and returns) indices and their number only of matches subsampled and non-matches up-sampled at their configured rates and sorted together; every sampling decision comes from a generator seeded by the secure generator.",
     ["inputs", "schedules"], "every input and path",
     "The randomisation is invisible to a test that compares an approximate result.",
     ["psi/legacy/dp_psi/dp_psi.cc", "psi/legacy/dp_psi/dp_psi_utils.cc"],
     [("subsample, upsample", "psi/legacy/dp_psi/dp_psi.cc")],
     "taint analysis with the sampling steps as required sanitisers",
     "All paths of both roles; the calibration formulas are not decided.")

prop("C30", "The calibrated noise achieves the configured privacy budget",
     "For every item count and privacy budget the sampling rates and noise scale computed for differentially private PSI satisfy the budget.",
     ["inputs"], "every n, epsilon, delta",
     "Tests sample a few parameter values.",
     ["psi/legacy/dp_psi/dp_psi_utils.cc"], [("bisection", "psi/legacy/dp_psi/dp_psi_utils.cc ComputeEpsilon2, CalibrateAnalyticGaussianMechanism")],
     na="A numeric property of floating-point bisection over transcendental functions (erf, exp, log); no sound static argument in reach bounds it.")

prop("C31", "The intersection computed is exactly the set of common items",
     "For all inputs, every protocol outputs exactly the items both parties hold (except for the documented failure probability).",
     ["inputs"], "every pair of item sets",
     "Tests use a few sizes and distributions.",
     ["psi/algorithm"], [("protocol cores", "psi/algorithm/*")],
     na="Functional correctness of cryptographic protocols (curve arithmetic, OKVS solving, cuckoo placement) over unbounded inputs depends on runtime values; static analysis of the source cannot bound it. Its static parts (masking, codec symmetry, index handling, agreement) are claimed separately.")

prop("C32", "Lattice PIR answers decode to the queried record",
     "For all databases and queries the lattice-based PIR schemes return the queried record for the supported parameters.",
     ["inputs", "configurations"], "every database, index and parameter set",
     "Tests use a few database shapes.",
     ["psi/algorithm/spiral", "psi/algorithm/sealpir"], [("noise budget and NTT arithmetic", "psi/algorithm/spiral")],
     na="Depends on noise growth and modular arithmetic of concrete values; outside what static analysis of the source can decide.")

prop("C33", "The protocol is skipped for equal inputs only when the inputs are equal",
     "PSI is skipped and every row reported as intersection only when the key digests of all parties were compared and equal and no party has duplicate keys (in the legacy interface: the digests of the key columns were equal); the digest covers every key together with its length, so that different key sets never present the same bytes to the hash.",
     ["inputs", "configurations"], "every pair of inputs, including key sets whose concatenations coincide",
     "Tests use a few inputs; key sets with equal concatenation do not occur in them.",
     ["psi/interface.cc", "psi/utils/table_utils.cc", "psi/utils/csv_checker.cc", "psi/legacy/bucket_psi.cc"],
     [("digest shortcut", "psi/interface.cc AbstractPsiParty::Init"), ("key digest", "psi/utils/table_utils.cc KeyInfo::Make; psi/utils/csv_checker.cc CsvChecker")],
     "path-sensitive abstract interpretation: facts on the paths that set the skip flag; delimiting of hashed keys")
