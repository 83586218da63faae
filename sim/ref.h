// Independent reference model of the proof system (written from the specification, shares no code with /repo).
#pragma once
#include "core.h"
#include <memory>

namespace ref {
std::string shake256(const std::string &in, size_t outlen);
std::string hex(const std::string &s);

struct Params { int bits, reps, W, H, hash, hide; };
typedef std::string FE;             // packed GF(p^2) element: real || imag, little endian, fp_bytes each
struct Resp { int tag = 0; std::string a, b; FE E2; std::vector<FE> x; };   // a,b: LEFT r2,h3 / BOTTOM r2,r3 / RIGHT h2,r3
struct Proof { FE E0, E1; std::vector<Resp> resp; };
bool operator==(const Resp &, const Resp &); bool operator==(const Proof &, const Proof &);

struct Secret { std::vector<FE> E, K; };        // canonical models
struct Instance { std::string r2, r3, h2, h3; std::vector<FE> leftE, left, botE, bot, rightE, right; };

// text format
std::string dump_fe(const FE &, int fpb);
std::string dump(const Params &, const Proof &, std::vector<std::pair<size_t,size_t>> *lines = nullptr);
// tolerant parser (whitespace, hex case); returns false if some field is missing or malformed
bool parse(const Params &, const std::string &text, Proof &, size_t *used = nullptr);
bool parse_fe(int fpb, const std::string &t, size_t &pos, FE &);
int fp_bytes(int bits);

struct Model {
    Params P; int fpb; std::string dummy;
    virtual ~Model() {}
    // deterministic randomness for the reference's own sampling
    virtual void seed(u64) = 0;
    virtual std::string rnd(size_t n) = 0;
    virtual bool canonical_enc(const FE &) = 0;             // both coordinates < p
    virtual FE reduce(const FE &) = 0;
    virtual bool valid_curve(const FE &A) = 0;              // (p+1)^2 points
    virtual FE canonical(const FE &A) = 0;
    virtual std::vector<FE> models(const FE &A) = 0;
    virtual std::vector<FE> model_points(const FE &A, const FE &x) = 0;    // x of the same point in every model
    virtual FE mont_repr(const FE &) = 0;                   // value as stored by code working in the Montgomery domain (words, padded)
    virtual FE jinv(const FE &A) = 0;
    virtual FE random_point(const FE &A, int l, int e, const FE *avoid_top = nullptr) = 0;   // x of a random point of order l^e (e<=0: full); top l-torsion multiple != avoid_top
    virtual FE random_x(const FE &A, int side) = 0;         // x on the curve (side 1) or its twist (0)
    virtual FE top(const FE &A, const FE &K, int l, int e) = 0;   // x of [l^(e-1)]K
    // walk step from (A,K): canonical codomain, and the x of the dual-kernel l-torsion point there
    virtual bool step(const FE &A, const FE &K, int l, FE &A2, FE &back, const std::vector<FE> *push = nullptr, std::vector<FE> *pushed = nullptr) = 0;
    virtual bool has_order(const FE &A, const FE &K, int l) = 0;   // full order l^e
    // chain check as the verifier does: ok iff every K_i has full order and no junction backtracks
    virtual bool chain(const FE &A, const std::vector<FE> &K, int l, FE &A2, std::string *why) = 0;
    virtual FE scalar_mul(const FE &A, const FE &K, u64 k) = 0;
    virtual bool dlog2(const FE &A, const FE &P, const FE &Q, std::vector<u8> &bits) = 0;   // r (up to sign) with Q = r P in a cyclic group of order 2^e2, bit k at [k]; false if there is none
    virtual FE fe(u64 re, u64 im) = 0;
    virtual FE add(const FE &, const FE &) = 0; virtual FE mul(const FE &, const FE &) = 0; virtual FE neg(const FE &) = 0; virtual FE conj(const FE &) = 0; virtual bool square(const FE &) = 0; virtual FE sqrt(const FE &) = 0; virtual FE inv(const FE &) = 0;
    virtual FE point_above(const FE &A, const FE &T, int l) = 0; // random point K of full order whose top l-torsion multiple is T
    virtual FE singular_point(const FE &A, int l) = 0;           // A=+-2: point of "order" l^e in the singular group law (empty if none found)
    virtual FE kernel_on_any(const FE &A, int l, int e) = 0;     // tries to find x with exact x-only order l^e on an arbitrary coefficient (empty if none)
    int e_of(int l) const { return l == 2 ? e2 : e3; } int e2, e3;

    std::string commit(const std::string &r, const FE &j) { return shake256(std::string("\x02") + r + j, P.hash); }
    std::vector<int> challenge(const FE &j0, const FE &j1, const std::vector<std::string> &h2, const std::vector<std::string> &h3);
    // full verifier
    bool verify(const Proof &, std::string *why = nullptr);
    // derive the commitments opened by a response; false if the response is invalid
    bool open(const FE &E0, const FE &E1, const Resp &, std::string &h2, std::string &h3, std::string *why);
    Secret generate(const FE &A0);
    Instance instance(const Secret &);
    Resp respond(const Instance &, int tag);
    Proof prove(const Secret &, int jobs = 1, Proof *alt1 = nullptr, Proof *alt2 = nullptr);   // alt: the responses the prover would give for the other two challenges
    std::vector<FE> walk(const FE &A, int l, int n, FE &end);
    // a transcript with chosen tags made by grinding the unopened commitments (small REPS only)
    Proof grind(const FE &E0, const FE &E1, std::vector<Resp> resp, const std::vector<std::pair<std::string,std::string>> &opened, int differ = -1, bool *okp = nullptr);
    bool curves_checked = true;
};
std::unique_ptr<Model> make(const Params &);
}
