T = 'the tests run a few random inputs of one size per component and mostly print timings; '
prop('P01', 'Big-integer and curve-point operations are exact',
 'Every big-integer operation returns the exact mathematical result (modular operations the canonical residue in [0,m)) and every curve-point operation (addition, subtraction, negation, scalar and multi-scalar multiplication, comparison, identity test) is the one of the prime-order group, for all operands including zero, negative numbers, multiples of the modulus and the identity. Operands that are not assigned stay unchanged.',
 ['inputs'], 'for all big integers, moduli, points and vectors of points of any length', T + 'no test compares the wrappers with arithmetic on edge operands',
 ['crypto/bigint.hpp', 'crypto/ec_point.hpp', 'crypto/ec_group.hpp'],
 ['BigInt and ECPoint methods and operators, GenRandomBigIntLessThan/Between, ECPointVectorMul'])
prop('P02', 'Everything written to a file or byte string reads back equal',
 'For every persistable object (numbers, points, blocks, vectors of them, keys, public parameters, ciphertexts, signatures, proofs, accounts, transactions) reading what was written yields an equal object and leaves the stream exactly at the next object, so consecutive objects and collections survive in order (numbers: non-negative and fitting their field length; vectors of plain bytes or blocks are read into objects of the right size). Byte-string encodings of numbers and points, and the byte strings proofs and ciphertexts contribute to transcripts, never coincide for two different values.',
 ['inputs', 'histories'], 'for all values of all fields, all collection sizes and all sequences of writes', T + 'almost no test reads back what it wrote',
 ['utility/serialization.hpp', 'crypto/bigint.hpp', 'crypto/ec_point.hpp', 'crypto/block.hpp', 'pke/elgamal.hpp', 'pke/exponential_elgamal.hpp', 'pke/twisted_exponential_elgamal.hpp', 'signature/schnorr.hpp', 'signature/accountable_ring_sig.hpp', 'zkp/nizk/nizk_plaintext_equality.hpp', 'zkp/bulletproofs/bullet_proof.hpp', 'adcp/adcp.hpp'],
 ['operator<< / operator>> pairs and ToByteString functions'])
prop('P03', 'The two-party channel delivers typed data unchanged and in order',
 'Whatever sequence of typed values (integers, bits, blocks, non-negative big integers fitting their field, curve points including the identity, strings, vectors of equally long byte strings) one endpoint sends, the other endpoint receiving the same sequence of types and lengths obtains exactly those values in that order, however the transport fragments or coalesces the bytes. Nothing is left over between messages.',
 ['inputs', 'histories', 'schedules'], 'for all values, lengths, sequences of messages and fragmentations of the byte stream', T + 'loopback hardly ever fragments, and few message types are exercised',
 ['netio/stream_channel.hpp'], ['NetIO Send*/Receive* pairs over SendDataInternal/ReceiveDataInternal'])
prop('P04', 'Symmetric primitives: PRG, AES, one-time pad and bit operations are exact',
 'Decryption inverts encryption for every key and message length the interfaces accept; pseudorandom output depends only on seed and stream position, is prefix-consistent across block boundaries and produces values in the requested range and number. Block bit operations, bit packing and bit-matrix transposition agree with their bitwise definition for every index and shape they accept.',
 ['inputs'], 'for all keys, seeds, lengths, indices and matrix shapes', T + 'the tests measure speed or one shape only',
 ['crypto/prg.hpp', 'crypto/aes.hpp', 'crypto/otp.hpp', 'crypto/block.hpp', 'utility/bit_operation.hpp'],
 ['PRG::GenRandom*, AES::*Enc/*Dec, OTP::Enc/Dec, Block helpers'])
prop('P05', 'ElGamal encryption: correct decryption, homomorphism and re-randomisation',
 'For the ElGamal, exponential and twisted ElGamal schemes (single and multi-recipient, with or without precomputation) decrypting an encryption returns the message for every key, message and randomness; re-encryption and re-randomisation keep the plaintext while changing the ciphertext; and homomorphic addition, subtraction and scalar multiplication yield ciphertexts of exactly the sum, difference or multiple of the plaintexts.',
 ['inputs'], 'for all keys, messages, randomness, scalars and recipient counts', T + 'they try random small messages with fresh keys',
 ['pke/elgamal.hpp', 'pke/exponential_elgamal.hpp', 'pke/twisted_exponential_elgamal.hpp'],
 ['Setup, KeyGen, Enc, Dec, ReEnc, ReRand, HomoAdd, HomoSub, ScalarMul, MREnc, parallel variants'])
prop('P06', 'Discrete-log recovery finds every exponent in the supported range',
 'For every exponent in the configured message range, the table-based search started from the matching group element reports success and that exponent, for every admissible range length, trade-off parameter and thread count. A saved and reloaded table behaves like the table that was built.',
 ['inputs', 'configurations', 'schedules'], 'for all exponents in range, range lengths, trade-off numbers and thread counts', T + 'they look up random exponents for one configuration',
 ['pke/calculate_dlog.hpp'], ['BuildTable, SaveTable, LoadTable, ShanksDLOG'])
prop('P07', 'Schnorr signatures: complete, exact acceptance, challenge binds everything',
 'A signature produced for any message under any key verifies; a triple is accepted exactly when it satisfies the Schnorr equation with a challenge that is a hash of the commitment and the whole message, so changing key, message or either signature component leads to rejection. Nonces and secret keys are drawn afresh and uniformly for every signature and key.',
 ['inputs'], 'for all keys, messages of any length and signatures', T + 'they only verify honest signatures on one message',
 ['signature/schnorr.hpp', 'crypto/hash.hpp'], ['Schnorr::KeyGen/Sign/Verify'])
prop('P08', 'Zero-knowledge proofs of true statements are always accepted',
 'For every statement with a valid witness, the proof produced by each of the non-interactive proof systems (discrete-log knowledge, discrete-log equality, plaintext knowledge, plaintext equality, encryption relation) is accepted by its verifier when both start from the same transcript, for every message, randomness, number of recipients and every list size that is a power of the chosen base, and both sides leave the transcript in the same state. Every response in a proof is reduced modulo the group order and masked by fresh randomness, so it does not disclose the witness.',
 ['inputs'], 'for all statements, witnesses, randomness, transcripts and sizes', T + 'they prove one random statement per run',
 ['zkp/nizk/nizk_dlog_knowledge.hpp', 'zkp/nizk/nizk_dlog_equality.hpp', 'zkp/nizk/nizk_plaintext_knowledge.hpp', 'zkp/nizk/nizk_plaintext_equality.hpp', 'zkp/nizk/nizk_enc_relation.hpp'],
 ['Prove/Verify of each proof system'])
prop('P09', 'Zero-knowledge verifiers accept exactly the specified equations',
 'Each non-interactive verifier accepts exactly when all verification equations of its protocol hold for a challenge that is a hash of everything it must bind (the prior transcript, the instance and every commitment of the proof), so that altering any element of the instance or of an accepted proof leads to rejection. No equation is skipped for any number of recipients or list size.',
 ['inputs'], 'for all instances, proofs (honest or adversarial), transcripts and sizes', T + 'they try one false statement with an honest prover at most',
 ['zkp/nizk/nizk_dlog_knowledge.hpp', 'zkp/nizk/nizk_dlog_equality.hpp', 'zkp/nizk/nizk_plaintext_knowledge.hpp', 'zkp/nizk/nizk_plaintext_equality.hpp', 'zkp/nizk/nizk_enc_relation.hpp'],
 ['Verify of each proof system and its challenge computation'])
prop('P10', 'Range proofs: complete for every in-range value, rejecting otherwise',
 'Aggregated range proofs, the inner-product argument and the range gadgets accept every honestly generated proof for all values inside the claimed range (both end points included), every bit length and aggregation number supported, and the ordinary and the fast verifier give the same answer. They reject when a value lies outside the range or when any element of instance or proof is altered.',
 ['inputs', 'configurations'], 'for all values, blinding factors, ranges, bit lengths and aggregation numbers', T + 'they try random values of one range length',
 ['zkp/bulletproofs/bullet_proof.hpp', 'zkp/bulletproofs/innerproduct_proof.hpp', 'gadget/range_proof.hpp'],
 ['Bullet::Prove/Verify/FastVerify, InnerProduct::Prove/Verify/FastVerify, Gadget::Prove*/Verify*'])
prop('P11', 'Accountable ring signatures: complete, bound to the message, traceable',
 'For every ring whose size is a power of two (at least 2), every signer position and message, a signature made with the key of a ring member verifies, and opening it with the opening key names exactly that member with a justification that its verifier accepts. A changed message, ring, or signature component is rejected.',
 ['inputs'], 'for all ring sizes, signer positions, keys and messages', T + 'one ring size and one position per run',
 ['signature/accountable_ring_sig.hpp'], ['Setup, KeyGen, Sign, Verify, Open, Justify'])
prop('P12', 'Confidential payments conserve money and need the owner',
 'An honestly created transfer (to one or to many recipients) with sufficient balance is accepted, and applying it debits the sender exactly the transferred total plus nothing else, credits each recipient exactly its amount, advances the sender\'s sequence number consistently and keeps the total balance constant. A transaction whose proofs or ciphertexts were altered, or that spends more than the balance, is rejected and changes nothing.',
 ['inputs', 'histories'], 'for all balances, amounts, numbers of recipients and sequences of transactions', T + 'one scripted scenario with fixed amounts',
 ['adcp/adcp.hpp'], ['CreateCTx/VerifyCTx/UpdateAccount/Miner to one and to many, SuperviseCTx, JustifyPolicy/AuditPolicy'])
prop('P13', 'Oblivious transfer delivers exactly the chosen messages',
 'In every base and extended oblivious transfer (random, one-sided and byte-string variants included), the receiver ends with exactly the messages selected by its choice bits and the sender\'s outputs are consistent with them, for every number of instances the protocol accepts and all messages and choices. The receiver\'s choices reach the sender only in masked form and the unchosen messages are masked by a value the receiver does not hold.',
 ['inputs', 'configurations'], 'for all messages, choice vectors, instance counts and base lengths', T + 'one size with random choices',
 ['mpc/ot/naor_pinkas_ot.hpp', 'mpc/ot/iknp_ote.hpp', 'mpc/ot/alsz_ote.hpp'], ['NPOT, IKNPOTE, ALSZOTE Send/Receive and RandomSend/RandomReceive'])
prop('P14', 'Private set operations output exactly the specified set function',
 'For all input sets, sizes and overlaps (empty and full included), private intersection, union, cardinality, cardinality-with-sum, private-ID and the membership tests they build on give the receiving party exactly the specified result, up to the negligible error of hashing.',
 ['inputs', 'configurations'], 'for all sets, set sizes and overlaps', T + 'one random instance of balanced sets per protocol',
 ['mpc/psi/cwprf_psi.hpp', 'mpc/pso/mqrpmt_psi.hpp', 'mpc/pso/mqrpmt_psu.hpp', 'mpc/pso/mqrpmt_psi_card.hpp', 'mpc/pso/mqrpmt_psi_card_sum.hpp', 'mpc/pso/mqrpmt_private_id.hpp', 'mpc/rpmt/cwprf_mqrpmt.hpp'],
 ['Send/Receive of each protocol'])
prop('P15', 'OPRF and equality tests: client output equals the keyed function',
 'For every key and every input list, the value the client obtains from the oblivious pseudorandom function equals the one the key owner evaluates on the same input, position by position. The private equality test marks exactly the positions where the two lists agree.',
 ['inputs'], 'for all keys, inputs and list sizes', T + 'random inputs of one size',
 ['mpc/oprf/ddh_oprf.hpp', 'mpc/oprf/ote_oprf.hpp', 'mpc/peqt/peqt_from_ddh.hpp'], ['Server/Client/Evaluate, DDHPEQT'])
prop('P16', 'Bloom filter never forgets an inserted element',
 'Once an element was inserted, alone or in a batch of any type, membership of it is reported in every later state of the filter, also after it was written out and read back in memory or on disk, for every capacity and error parameter. A filter that never received an element does not contain one by default.',
 ['inputs', 'histories', 'schedules'], 'for all element types and values, histories of insertions and thread interleavings', T + 'one insertion batch is queried once',
 ['filter/bloom_filter.hpp'], ['PlainInsert/Insert/Contain, WriteObject/ReadObject'])
prop('P17', 'Cuckoo filter never loses an element it accepted',
 'Every element whose insertion was reported successful is reported present until it is deleted, also through evictions and after the filter was written out and read back; deleting an element that was inserted does not make another inserted element disappear.',
 ['inputs', 'histories'], 'for all sequences of insertions, deletions and save/load steps', T + 'one batch at moderate load, no deletions mixed in',
 ['filter/cuckoo_filter.hpp'], ['Insert/Contain/Delete, WriteObject/ReadObject'])
prop('P18', 'Parallel execution gives the sequential result',
 'Every data-parallel computation of the library yields the same result as its sequential execution for every number of threads and every interleaving: no iteration reads or overwrites a location another iteration writes (except flags that only announce an answer that is already determined), scratch space shared through globals belongs to one thread at a time, and shared tables are updated atomically.',
 ['schedules', 'inputs'], 'for all thread counts, interleavings and input sizes', 'a test run observes one interleaving; ' + T,
 ['crypto/ec_point.hpp', 'mpc/ot/naor_pinkas_ot.hpp', 'mpc/psi/cwprf_psi.hpp', 'mpc/rpmt/cwprf_mqrpmt.hpp', 'zkp/bulletproofs/innerproduct_proof.hpp', 'filter/bloom_filter.hpp'],
 ['OpenMP parallel loops'])
prop('P19', 'Pedersen commitments and public parameters are well formed',
 'Committing is the homomorphic map given by the public bases: the commitment to a vector (of at most the capacity) is g^r times the product of h_i^m_i over all its entries, so it opens exactly to the committed values and randomness, and commitments to sums are sums of commitments. Setup provides exactly as many bases as the capacity; no base is the identity and every random base is a draw of its own. Bases that are derived (the second generator of twisted ElGamal and of Bulletproofs) are a deterministic function of public data, so parameters set up twice agree on them.',
 ['inputs'], 'for all vectors, lengths and randomness', T + 'no test opens a commitment',
 ['commitment/pedersen.hpp', 'crypto/ec_point.hpp', 'crypto/hash.hpp'], ['Pedersen::Setup/Commit, GenRandomECPointVector, Hash::StringToECPoint'])
prop('P20', 'Key-value encodings and vector OLE give consistent correlations',
 'Decoding an oblivious key-value store at an encoded key returns the value encoded for it, for every set of distinct keys for which encoding succeeds. The vector-OLE correlation holds in every position, and the pseudorandom function built on them agrees between the parties on every input.',
 ['inputs', 'configurations'], 'for all key/value sets, sizes and correlation lengths', T + 'one random instance',
 ['mpc/okvs/baxos.hpp', 'mpc/okvs/paxos.hpp', 'mpc/vole/vole.hpp', 'mpc/oprf/vole_oprf.hpp'], ['solve/decode, VOLE, VOLE-OPRF'])
prop('P21', 'Secrets come from fresh randomness in every run',
 'Every secret key, blinding factor, mask and nonce that an algorithm draws is an independent fresh draw from the random source in every execution: it is never derived from a constant or public seed, and two runs, two parties or two draws never share it. (The first balance ciphertext of a payment account is public data by design and is not covered.)',
 ['inputs', 'histories'], 'for all executions and all secret draws', 'a single run cannot see that two runs share their randomness; ' + T,
 ['crypto/prg.hpp', 'crypto/bigint.hpp', 'pke/elgamal.hpp', 'mpc/psi/cwprf_psi.hpp', 'mpc/rpmt/cwprf_mqrpmt.hpp', 'mpc/oprf/ote_oprf.hpp'],
 ['PRG::SetSeed, GenRandomBigIntLessThan and their callers'])
D = 'contract-based deductive verification (VC generation from the clang AST of /repo, term normal forms + z3); real-code replay harness'
CHECKS = {
 'P01': (D, 'proof', 'Every BigInt/ECPoint method, operator, constructor, vector helper and random generator is discharged against its contract for all operands, aliased ones included; OpenSSL is trusted through its documented contracts.'),
 'P02': (D, 'proof', 'Write-then-read and stream position discharged for every stream operator pair, file save/fetch pair and byte-string encoding of the library for all values; private-ID parameters only by the harness.'),
 'P03': (D, 'proof', 'Every Send/Receive pair discharged for all values, lengths and partial transfer counts; socket set-up only by the harness.'),
 'P04': (D, 'proof', 'AES modes, PRG, one-time pad and block vectors for all keys, seeds and lengths; bit operations, order and packing bit-precise for all operands; transposition and CBC for all contents at bounded shapes/lengths (labelled bounded); AES instructions assumed as documented.'),
 'P05': (D, 'proof', 'All obligations discharged for all keys, messages and randomness in both curve back ends; the discrete-log search enters through its contract (P06).'),
 'P07': (D, 'proof', 'All obligations discharged for all keys, messages and signatures; assumes SHA-256 collision-free for the binding obligations and the contracts listed in the evidence.'),
 'P08': (D, 'proof', 'Four proof systems for all inputs and all recipient numbers; encryption relation for all values at bounded list sizes (labelled bounded).'),
 'P09': (D, 'proof', 'Four verifiers for all instances and proofs; encryption relation for all values at bounded list sizes (labelled bounded).'),
 'P11': (D, 'other', 'All keys, messages and randomness at ring sizes 2 and 4 (8 in thorough), every signer position; KeyGen and Justify unbounded; real-code replay up to ring size 32.'),
 'P13': (D, 'proof', 'Both parties of every OT protocol executed against each other for all messages, choices, instance counts and base lengths the protocol accepts (multiples of 128); bit-matrix transposition and sparse packing by their P04 contracts; disclosure obligations are structural (masked by a value of the other party).'),
 'P19': (D, 'proof', 'Setup, Commit and the generators discharged for all vectors, lengths and randomness; hash-to-point by contract (function of its input), exercised by the harness.'),
 'P15': (D, 'proof', 'DDH OPRF (permuted included) and DDH equality test: both parties executed against each other for all inputs, sizes, permutations and draws; OT-extension OPRF: input encoding proved, the protocol itself only by the real-code harness (bounded, 2^3..2^11 inputs).'),
 'P14': (D, 'proof', 'cwPRF-PSI, mqRPMT (both curves, filter and permutation variant), PSI, PSU (blocks and byte strings), cardinality and cardinality-sum: both parties executed against each other for all sets, sizes and overlaps, sub-protocols by contract (OT: P13; filter: P16; collision-freeness assumed); private-ID and rrPKE mqRPMT only by the real-code harness (bounded).'),
 'P16': (D, 'proof', 'Loop invariant of PlainInsert (bits set stay set, the bit of every hash function gets set) and exact characterisation of PlainContain for every table, number of hash functions and byte string; insertion and query of every element type and batch over that contract; memory and file round trip of every field. The keyed hash is assumed to be a function; the constructor and unusual parameters are exercised by the harness.'),
 'P17': (D, 'proof', 'PlainInsert, PlainContain and PlainDelete at LLVM IR level for every table, element, victim state and eviction sequence (loop invariant: table plus tag in flight equals old table plus new element); key agreement of Insert/Contain/Delete for every element type and batch; memory and file round trip of every field. The keyed hash is assumed to be a function; the constructor (class invariant) is exercised by the harness.'),
 'P06': (D, 'proof', 'Table building, loading and search discharged for any numbers of baby steps, giant steps, build and search tasks, every generator and exponent (loop invariant of the giant-step search, slice decomposition, content of the loaded map also when another table was loaded before); 64-bit table keys assumed distinct; parameter arithmetic (powers of two, odd range lengths) and thread interleavings by the real-code replay.'),
 'P20': (D, 'other', 'Seed-tree functions of the vector OLE (FullEval, PuncEval, TransToBitVec) discharged by the deductive engine for all seeds, correction words and punctured positions at tree depths 1-5 (bounded); key-value store encode/decode, the OLE correlation and the oblivious PRF run as a bounded real-code check (their linear-system solver, carry-less-multiplication intrinsics and thread-team code are outside the engine).'),
 'P10': (D, 'other', 'Range gadgets (both types): completeness, exact acceptance condition and challenge binding discharged for every key, message, bound and bit length, the range proof entering by contract. Bullet and InnerProduct Prove/Verify/FastVerify: completeness, exact acceptance condition (textbook equations) and binding of every challenge discharged for all group elements, blinding factors, draws and challenges at vector lengths up to 8 (bounded), all values of bit lengths 1, 2 and 4; longer ranges and aggregation, out-of-range values and altered proofs by the real-code replay.'),
 'P12': (D, 'other', 'Payments to one recipient, account creation and the open and rate policies: completeness, exact acceptance condition (every component proof, on instances tied to the transaction), binding of every field, exact effect on both accounts, rejection without effect discharged for every amount, balance, key and randomness. Payments to many at 1 and 3 recipients (7 in thorough) and limit policies over 1-3 transactions (bounded). Range proof and table search enter by the contracts of P10 and P06. Histories with replays, altered and overspending transactions by the real-code replay.'),
 'P18': (D, 'proof', 'Frame obligations (disjointness of what distinct iterations touch, global writes of callees, per-thread scratch) for every OpenMP loop and all bounds; early-exit flags and non-loop parallel regions only by the harness.'),
 'P21': (D, 'proof', 'Two executions on the same arguments are shown to draw disjoint fresh values (key generation, encryption, signing, zero-knowledge commitments) and every message of the OT, PSI, mqRPMT and DDH protocols to depend on a fresh draw of its sender; system entropy, range proofs, ring signatures, OTE/VOLE-OPRF by the real-code replay.'),
}
NA = {p['id']: 'check not built yet' for p in P}
