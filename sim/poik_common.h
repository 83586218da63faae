// Helpers shared by the PoIK families.
#pragma once
#include "core.h"
#include "ref.h"
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <set>
#include <algorithm>
namespace sim {
extern "C" const Variant sim_variant_poik;
static const Variant &v = sim_variant_poik;
using ref::FE; using ref::Proof; using ref::Resp; using std::string; using std::vector;
typedef vector<std::pair<string,string>> Comms;
struct PoolProof { vector<vector<Resp>> all; Proof p; string text; vector<std::pair<size_t,size_t>> lines; Comms h; vector<FE> secretE, secretK; };

ref::Params params();
ref::Model &model();                    // reseeded per run
extern vector<PoolProof> pool;          // honest reference proofs: 0,1 same statement; 2 continues at E1
void prepare_pool();                    // cached on disk (they depend on the reference only)
void prepare_one();
bool opened(const PoolProof &);
// verdict of the reference for q, reusing what is known about base
bool ref_verdict(const PoolProof &base, const Proof &q, string *why);
bool ref_verdict_full(const Proof &q, string *why);

enum { C_SCHED = 1, C_ENT = 2, C_RARE = 4, C_IO = 8, C_STALL = 16, C_RACE = 32, C_ALL = C_SCHED | C_ENT | C_RARE | C_IO | C_STALL };
ProcCfg draw_cfg(int what);
ProcResult cli_verify(const ProcCfg &, const string &text);
ProcResult cli_prove(const ProcCfg &, const string *curve);     // null: --initial
string two_lines(const Proof &p);
FE load_fe(const void *p); void store_fe(void *p, const FE &);
bool api_parse(const string &text, void *prf);                  // through the code's own Parse on a memory stream
string api_dump(const void *prf);
bool verify_in_process(void *prf);
FE draw_start_curve(bool allow_special, string *what);
void require_clean(const char *what, const ProcResult &r);      // crash / memory error / hang are violations anywhere
u64 budget();
bool misspell(string &t, string *what);
Proof alter(const PoolProof &b, string *what);               // one altered place (fam_poik.cpp)
}
