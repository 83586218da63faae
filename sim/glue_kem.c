// Exposes the public KEM and key-exchange API of one build (parameter set x compression x field arithmetic).
#include <stddef.h>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(x) #x
#define STR(x) STR_(x)
#if KEM_COMP
    #if KEM_BITS == 434
        #include "P434/P434_compressed_api.h"
    #elif KEM_BITS == 503
        #include "P503/P503_compressed_api.h"
    #elif KEM_BITS == 610
        #include "P610/P610_compressed_api.h"
    #else
        #include "P751/P751_compressed_api.h"
    #endif
    #define KEMFN(f) CAT(CAT(f##_SIKEp, KEM_BITS), _compressed)
    #define KEXFN(f) CAT(CAT(f##_SIDHp, KEM_BITS), _Compressed)
#else
    #if KEM_BITS == 434
        #include "P434/P434_api.h"
    #elif KEM_BITS == 503
        #include "P503/P503_api.h"
    #elif KEM_BITS == 610
        #include "P610/P610_api.h"
    #else
        #include "P751/P751_api.h"
    #endif
    #define KEMFN(f) CAT(f##_SIKEp, KEM_BITS)
    #define KEXFN(f) CAT(f##_SIDHp, KEM_BITS)
#endif
#define RNDFN(f) CAT(f##_SIDHp, KEM_BITS)
struct sim_kem { int bits, comp, gen; size_t pk, sk, ss, ct, skA, skB, kexpk, kexss; void *keypair, *enc, *dec, *rndA, *rndB, *genA, *genB, *agreeA, *agreeB; };
const struct sim_kem KEM_SYM = { KEM_BITS, KEM_COMP, KEM_GEN, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_CIPHERTEXTBYTES, SIDH_SECRETKEYBYTES_A, SIDH_SECRETKEYBYTES_B, SIDH_PUBLICKEYBYTES, SIDH_BYTES,
    (void *) KEMFN(crypto_kem_keypair), (void *) KEMFN(crypto_kem_enc), (void *) KEMFN(crypto_kem_dec), (void *) RNDFN(random_mod_order_A), (void *) RNDFN(random_mod_order_B),
    (void *) KEXFN(EphemeralKeyGeneration_A), (void *) KEXFN(EphemeralKeyGeneration_B), (void *) KEXFN(EphemeralSecretAgreement_A), (void *) KEXFN(EphemeralSecretAgreement_B) };
