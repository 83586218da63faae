// Exposes the public PoIK API of the variant under test (compiled with the variant's own flags).
#include <stddef.h>
#include <stdio.h>
#include <stdbool.h>
#include <poik.h>
struct sim_variant {
    int bits, reps, width, height, hash_bytes, hide_bytes, fp_bytes, threading, debug;
    size_t sz_secret, sz_proof, sz_fp2, off_E, off_P, off_pE0, off_pE1;
    void *Generate, *Prove, *Verify, *Dump_Fp2, *Dump, *Parse_Fp2, *Parse;
    FILE **progress;
    void *prove_main, *verify_main;
};
int sim_prove_main(int, char **);
int sim_verify_main();
const struct sim_variant sim_variant_poik = {
    POIK_BITS, POIK_REPS, POIK_WIDTH, POIK_HEIGHT, HASH_BYTES, HIDE_BYTES, SIDH_BYTES/2,
#ifdef THREADING
    1,
#else
    0,
#endif
#ifdef NDEBUG
    0,
#else
    1,
#endif
    sizeof(struct secret), sizeof(struct proof), sizeof(packed_fp2), offsetof(struct secret, E), offsetof(struct secret, P), offsetof(struct proof, E0), offsetof(struct proof, E1),
    (void *) Generate, (void *) Prove, (void *) Verify, (void *) Dump_Fp2, (void *) Dump, (void *) Parse_Fp2, (void *) Parse,
    &Progress_Indicator_File, (void *) sim_prove_main, (void *) sim_verify_main,
};
