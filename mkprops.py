#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json
P="c-impl/PQCrypto-SIDH/src/"
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   observe_at=list(observe),hook_needed=hook))
POIK=P+"poik.c"; POIKH=P+"poik.h"; RND=P+"random/random.c"
HOOK="POIK_SIM_PARAMS: scaled-down repetition count and chain lengths (poik.h)"
out=[]
out.append(prop("C01","Every honest proof verifies",
 "A proof produced by an honest prover from any valid starting curve is accepted by the verifier, for every parameter size, every worker count and thread schedule, every entropy stream (including streams with rare values such as low-order or backtracking candidate points), every way the bytes are chunked by the operating system, and with the library's debug assertions on or off. The honest run itself never aborts or fails.",
 ["schedules","inputs","configurations","fault_sequences"],
 "All start curves (all models of j=1728, j=0, walk endpoints, previous verifier output), all interleavings of 1..16 workers, all entropy streams with retryable device faults.",
 "The tests prove and verify two hops from one start curve per size under whatever schedule and entropy the machine gives.",
 [POIK,POIKH,"c-impl/prove.c","c-impl/verify.c",RND],
 [("Random_Isogeny_Chain_A/B avoid backtracking",POIK),("Instance completes the SIDH ladder",POIK),("Isogeny_A model change above (0,0)",POIK),("worker index hand-out",POIK)],
 observe=["exit status and stdout of prove/verify","Generate, Prove, Verify"],hook=HOOK))
out.append(prop("C02","The verdict depends on the proof alone",
 "Verification of a given proof returns the same verdict under every thread schedule, worker count, entropy stream and progress-indicator setting, whatever was verified before in the same process and whatever other callers verify at the same time. In particular a proof with a single invalid response, at any position, is rejected under every interleaving.",
 ["schedules","histories","configurations"],
 "All interleavings of the worker pool with the coordinating thread, all positions of the bad response, all call histories in one process, concurrent callers.",
 "test.c verifies one good and one bit-flipped proof once each; a lost rejection needs a particular interleaving or position.",
 [POIK],[("okay flag and early stop in Worker_Unpack_Response",POIK),("run_threads joins every worker before the verdict is read",POIK),("challenge re-derivation",POIK)],
 state=[("thread_state.idx","next unclaimed repetition",POIK),("okay","no response has failed",POIK)],observe=["Verify()","exit status of verify"],hook=HOOK))
out.append(prop("C03","A corrupted or spliced proof never verifies",
 "If a proof file is altered in storage or transit so that it denotes a different proof (flipped bits, lost, zeroed, duplicated or swapped blocks or lines, truncation, responses or fields exchanged within the proof or taken from another valid proof, swapped or replaced end curves), the verifier rejects it with a non-zero exit status and prints no curve.",
 ["fault_sequences","inputs"],
 "Every byte, field, response and block of the file, and compositions of up to three corruptions. Alterations that denote the same proof (another spelling of the same values) and deliberate algebraic re-randomisation into another valid proof are out of scope.",
 "test.c flips one fixed bit (byte 345) of one proof.",
 [POIK,"c-impl/verify.c"],[("Unpack_Response",POIK),("Challenge over the complete commitment",POIK),("memcmp of challenge and tags",POIK),("Parse",POIK)],
 observe=["exit status and stdout of verify"],hook=HOOK))
out.append(prop("C04","A lying prover is rejected",
 "No prover obtains acceptance for a proof in which some opened walk is not a chain of cyclic isogenies of the prescribed full degree without backtracking between valid supersingular curves, even when it computes all commitments and the challenge consistently and adapts to the verifier. Such proofs (backtracking 2- or 3-walks, kernels of wrong order, invalid or singular curves, responses not matching the challenge) are rejected.",
 ["inputs","fault_sequences"],
 "All Byzantine prover strategies in the catalogue of DESIGN.md, at every position of the walk and every repetition, with the rest of the transcript honest.",
 "The tests contain no dishonest prover that recomputes the Fiat-Shamir transcript.",
 [POIK],[("kernel order checks in Isogeny_A/Isogeny_B",POIK),("image of the dual kernel in Unpack_Chain_A/B",POIK),("Check_Curve on E0, E1 and E2",POIK)],
 observe=["Verify()","exit status of verify"],hook=HOOK))
out.append(prop("C05","Prover and verifier follow the published proof system",
 "Proofs made by this prover are accepted by an independent implementation of the specified verifier (as in the Sage verifier: domain-separated SHAKE256 commitments to nonce and j-invariant, challenge trits derived from both end-curve invariants and all commitments, canonical curve models between steps), and proofs made by an independent honest prover are accepted by this verifier; on any other transcript both verifiers agree.",
 ["inputs","configurations","histories"],
 "All transcripts exchanged between the two implementations, honest, corrupted or Byzantine, for every parameter size.",
 "The tests only run the C prover against the C verifier, so a change made consistently to both passes.",
 [POIK,"sage-impl/verify.sage"],[("hash_hiding",POIK),("Challenge / sample_ternary",POIK),("canonical_model",POIK)],
 observe=["proof text","Verify()"],hook=HOOK))
out.append(prop("C06","Success status means the complete output was written",
 "If prove or verify exits with status 0, its complete output (the whole proof, or both curve lines) has been accepted by the operating system; when any write fails, the disk fills up, memory or threads cannot be obtained, or the process is killed, the status is not 0. Diagnostics and progress output, or their failure, never alter what is written to standard output.",
 ["fault_sequences","crash_points"],
 "Every write, flush, allocation and thread creation as failure point; every buffer size; every kill point; stderr faults.",
 "The tests write to a healthy disk.",
 ["c-impl/prove.c","c-impl/verify.c",POIK],[("return values of Dump/Dump_Fp2 checked","c-impl/prove.c"),("fprintf/fputc results checked",POIK)],
 observe=["exit status, bytes accepted by the output device"],hook=HOOK))
out.append(prop("C07","Hostile or failing input is refused cleanly",
 "On any input that is not a valid proof or curve (garbage, truncation at any byte, read errors, out-of-range tags, arbitrary field values, singular or degenerate curves and points), verify and prove terminate with a non-zero exit status and a diagnostic, print nothing on standard output, and do not crash, abort, hang or access memory out of bounds.",
 ["inputs","fault_sequences"],
 "All byte streams on stdin with all read-fault placements.",
 "No test feeds malformed input to the programs.",
 [POIK,"c-impl/prove.c","c-impl/verify.c"],[("Parse, Parse_Fp2 return values",POIK),("Check_Curve",POIK)],
 observe=["exit status, stdout, stderr"],hook=HOOK))
out.append(prop("C08","Entropy faults never weaken a proof",
 "Short reads, interruptions, errors and outages of the system entropy source only delay proving: the bytes used are exactly the delivered ones, so a single-worker run produces the same proof as with a healthy source delivering the same bytes, and nothing is produced while the source stays unavailable. Every published commitment nonce consists of freshly delivered entropy, and no delivered entropy is used for two nonces, across repetitions, threads and successive proofs.",
 ["fault_sequences","schedules","histories"],
 "All sequences of open/read results of the entropy device, all interleavings of workers reading it, consecutive proofs of one secret.",
 "Tests use a healthy /dev/urandom and cannot see where bytes went.",
 [RND,POIK],[("retry loop with running offset in randombytes",RND),("randombytes_strict",POIK)],
 state=[("lock","cached descriptor of the entropy device",RND)],observe=["simulated entropy device, proof text"],hook=HOOK))
out.append(prop("C09","A proof discloses only what the challenge opens",
 "For each repetition the published response reveals exactly the parts selected by its challenge: nonces of unopened commitments, the secret walk (its kernel points and intermediate curves, in any model) and values shared between repetitions or between two proofs of the same secret never appear. Opened 2-walks are published through freshly randomised kernel generators.",
 ["inputs","schedules","histories"],
 "All secrets, challenges, schedules, and pairs of proofs of one secret.",
 "Tests only check that proofs verify; leaking variants verify too.",
 [POIK],[("Pack_Response",POIK),("random odd multiple in Pack_Chain_A",POIK),("hash_hiding nonce",POIK)],
 observe=["proof text, entropy trace, struct secret"],hook=HOOK))
out.append(prop("C10","Workers are free of data races",
 "No two threads of one proving or verification call make conflicting unsynchronised accesses to shared memory (including the entropy source's cached state on first use), and no repetition is processed twice or skipped, under any interleaving and worker count.",
 ["schedules"],
 "All interleavings at the granularity of single memory accesses.",
 "Races need specific preemption points; the test machine samples a few schedules.",
 [POIK,RND],[("atomic index",POIK),("per-repetition output slots",POIK),("pthread_join before results are read",POIK)],
 state=[("thread_state.idx","next unclaimed repetition",POIK),("lock","cached entropy descriptor",RND)],observe=["instrumented memory accesses"],hook=HOOK))
out.append(prop("C11","Calls terminate and leave nothing behind",
 "Every Generate, Prove and Verify call terminates within a bounded number of steps once injected faults and stalls stop, whatever the schedule, worker count (including an unknown processor count), verdict or progress-indicator setting. Afterwards all threads it started have ended, all memory it allocated is freed, and at most one entropy descriptor stays open per process.",
 ["schedules","fault_sequences","histories"],
 "All schedules including starved and stalled workers, entropy outages, rejected proofs, repeated calls.",
 "A hang or leak needs a specific schedule or fault; tests do not count resources.",
 [POIK,RND],[("idx forced to the end on rejection",POIK),("join loop",POIK),("free(inst)",POIK)],
 observe=["simulated thread, allocator and descriptor tables"],hook=HOOK))
out.append(prop("C12","Only valid start curves are accepted",
 "Generating from or verifying against a curve succeeds if and only if the encoded coefficient is a Montgomery curve with (p+1)^2 points over GF(p^2), i.e. a supersingular curve in the class reachable from j=1728; ordinary, singular, twisted or otherwise invalid coefficients are refused and valid ones never are. The answer does not depend on the entropy drawn.",
 ["inputs","fault_sequences"],
 "All coefficients (walk endpoints in all models, special j-invariants, twists, random, singular, subfield, non-reduced encodings) and all entropy streams.",
 "Tests only start from j=1728 and from one verified curve.",
 [POIK],[("Check_Curve, proves_order",POIK)],observe=["Generate()","exit status of prove"],hook=HOOK))
out.append(prop("C13","The ceremony advances only through verified links",
 "In the documented prove/verify sequence run over an unreliable network with crashing participants, every curve published by the verifier is the end curve of a proof that starts exactly at the previously published curve; a proof's two curves are the canonical models of the secret's end curves, so the text a prover is given (in canonical form) reappears unchanged as its proof's start. Once faults stop, a restarted participant's next contribution is accepted.",
 ["fault_sequences","crash_points","histories"],
 "All sequences of message loss, duplication, reordering, corruption and participant or coordinator crashes over several rounds.",
 "The tests run two rounds without faults.",
 [POIK,"c-impl/prove.c","c-impl/verify.c","README.md"],[("pack_curve canonical model",POIK),("verify prints E0 then E1 only on success","c-impl/verify.c")],
 observe=["proof text, verify stdout"],hook=HOOK))
out.append(prop("C14","Proof files round-trip and have the published shape",
 "Writing a proof and reading it back yields the identical proof for every content of every field, however the stream is chunked; reading succeeds only if all fields are present. At the shipped parameters files consist of two curve lines followed by 219, 219, 329 and 438 responses (sizes 434, 503, 610, 751), with 32/32/48/64-byte commitments, 64/64/96/128-byte nonces, 2-walks of 4 and 3-walks of 7 points.",
 ["inputs","configurations","fault_sequences"],
 "All field contents and tag sequences, all stream chunkings and truncation points, all four shipped parameter sets.",
 "Tests round-trip two proofs per size and never look at the text.",
 [POIK,POIKH],[("Dump/Parse",POIK),("parameter table",POIKH)],observe=["Dump(), Parse()"]))
out.append(prop("C15","Key encapsulation agrees over a faulty network",
 "For every parameter set, plain and compressed, fast and portable builds in any mix, a ciphertext delivered unmodified to the holder of the matching key decapsulates to the sender's shared secret, however messages are delayed, duplicated or reordered, however many sessions run concurrently in threads of one process, after any crash and restart from the stored key, and under entropy-source short reads and retryable errors. Every key pair and every encapsulation draws its secrets from freshly delivered entropy.",
 ["schedules","fault_sequences","histories","configurations"],
 "All delivery orders, session interleavings, restart points and entropy fault sequences.",
 "The tests run sessions one after another in one process of one build.",
 [P+"sike.c",P+"compression/sike_compressed.c",P+"compression/sidh_compressed.c",RND],[("stateless re-entrant API",P+"sike.c"),("public key stored in the secret key",P+"sike.c")],
 observe=["crypto_kem_keypair/enc/dec"]))
out.append(prop("C16","A modified ciphertext yields only the rejection key",
 "Decapsulating a ciphertext altered in transit (any bit, byte, field or block, or one addressed to another key) never yields the sender's shared secret: it yields the pseudorandom key derived by SHAKE256 from the receiver's secret seed and the received ciphertext, repeatably, across restarts and builds, and later decapsulations of the genuine ciphertext are unaffected.",
 ["fault_sequences","inputs","histories"],
 "All corruptions of the ciphertext, all receiver histories, both builds. For compressed ciphertexts, alterations that leave every validated component unchanged (unused flag bits, congruent scalars, non-reduced field elements) may instead yield the key derived from the message and the received ciphertext; they never yield the sender's secret.",
 "The KATs never exercise rejection; test_SIKE flips a low bit of a few random bytes and only checks inequality.",
 [P+"sike.c",P+"compression/sike_compressed.c",P+"compression/sidh_compressed.c"],[("re-encryption check and ct_cmov of s",P+"sike.c"),("validate_ciphertext",P+"compression/sidh_compressed.c")],
 observe=["crypto_kem_dec"]))
out.append(prop("C17","Key exchange agrees under any interleaving",
 "Two parties running the ephemeral key exchange derive the same secret whenever each received the other's unmodified public key, for every parameter set, plain and compressed, fast and portable builds in any mix, in any message order, with any number of sessions interleaved in threads of one process and under entropy-source short reads and retryable errors; private keys always lie in the documented range and consist of freshly delivered entropy.",
 ["schedules","fault_sequences","configurations"],
 "All session interleavings, delivery orders and entropy fault sequences.",
 "The tests run one exchange at a time in one build.",
 [P+"sidh.c",P+"compression/sidh_compressed.c",RND],[("random_mod_order_A/B masking",P+"sidh.c"),("no shared mutable state",P+"sidh.c")],
 observe=["EphemeralKeyGeneration_*, EphemeralSecretAgreement_*"]))
out.append(prop("N01","Field arithmetic is exact for all operands",
 "Addition, subtraction, multiplication, squaring, inversion and reduction in GF(p) and GF(p^2) return the mathematically correct value for every operand pair, identically in the assembly and the portable implementation.",
 ["inputs"],"All operand values.","Random operands hit carry corner cases with negligible probability.",
 [P+"fpx.c",P+"P434/AMD64/fp_x64_asm.S",P+"P434/generic/fp_generic.c"],[("Montgomery reduction",P+"fpx.c")]))
out.append(prop("N02","Secret-dependent code runs in constant time",
 "Execution time and memory access pattern of key generation, encapsulation and decapsulation do not depend on secret data.",
 ["inputs"],"All secrets.","Tests do not measure side channels.",[P+"fpx.c",P+"sike.c"],[("ct_compare, ct_cmov, swap_points",P+"fpx.c")]))
out.append(prop("N03","Parameters reach the claimed statistical security",
 "The repetition counts and walk lengths give the statistical distance and soundness error claimed in the paper.",
 ["configurations"],"All four parameter sets.","A mathematical statement about constants.",["scripts/statistical_parameters.py",POIKH],[("stat_distance_two/three","scripts/statistical_parameters.py")]))
with open("/verif/properties.jsonl","w") as f:
    for p in out: f.write(json.dumps(p,ensure_ascii=False)+"\n")
