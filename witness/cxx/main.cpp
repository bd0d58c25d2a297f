// Random histories of the C++ classes over a stand-in for the core library that knows what is alive.
#include <adv/ADouble.hpp>
#include <adv/AContext.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <ctime>
#include <map>
#include <new>
#include <set>
#include <string>
#include <utility>
#include <vector>

// ---- memory: nothing is given back while a history runs, released blocks are overwritten
static bool track = false; static std::string err; static long live_blocks = 0;
struct Ent { void* p; size_t n; bool live; }; static Ent ents[1 << 16]; static size_t n_ents = 0;
static void fail(const std::string& s) { if (err.empty()) err = s; }
void* operator new(size_t n) {
  void* p = malloc(n ? n : 1); if (!p) abort();
  if (track && n_ents < (1 << 16)) { ents[n_ents++] = Ent{p, n, true}; live_blocks++; }
  return p;
}
static void release(void* p) noexcept {
  if (!p) return;
  for (size_t i = n_ents; i-- > 0;) if (ents[i].p == p) {
    if (!ents[i].live) { static char m[] = "a block of memory is released twice"; bool t = track; track = false; fail(m); track = t; return; }
    ents[i].live = false; live_blocks--; memset(p, 0xDD, ents[i].n); return;      // kept: the address stays unique
  }
  if (track) { bool t = track; track = false; fail("memory that was never handed out is released"); track = t; return; }
  free(p);
}
void operator delete(void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }

// ---- the stand-in for the core library
typedef unsigned long long u64;
static u64 mix(u64 a, u64 b) { u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull); x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return x; }
struct adv_adouble { u64 v; }; struct adv_acontext { u64 id; };
struct Off { bool t; Off() : t(track) { track = false; } ~Off() { track = t; } };
static std::map<const void*, u64>* nums; static std::map<const void*, u64>* ctxs; static std::set<const void*>* gone;
static std::vector<std::string>* trace; static u64 n_ctx = 0; static u64 seen = 0; static std::vector<void*>* pool;
static adv_adouble* mk(u64 v) { auto p = (adv_adouble*)malloc(sizeof(adv_adouble)); pool->push_back(p); p->v = v; (*nums)[p] = v; return p; }
static u64 num(const void* p, const char* who) { auto i = nums->find(p); if (i != nums->end()) return i->second; fail(std::string(who) + (gone->count(p) ? ": a number is used after its release" : ": not a number of the core library")); return 0; }
static u64 ctx(const void* p, const char* who) { auto i = ctxs->find(p); if (i != ctxs->end()) return i->second; fail(std::string(who) + (gone->count(p) ? ": a recording is used after its release" : ": not a recording of the core library")); return 0; }
static void ev(const std::string& s) { trace->push_back(s); }
static std::string h(u64 x) { char b[32]; snprintf(b, 32, "%llx", x); return b; }
static u64 of_double(double d) { u64 b; memcpy(&b, &d, 8); return mix(3, b); }
static u64 op2(const char* n, u64 a, u64 b) { u64 c = 7; for (const char* p = n; *p; p++) c = mix(c, *p); return mix(mix(c, a), b); }
extern "C" {
adv_acontext* adv_acontext_new() { Off o; auto p = (adv_acontext*)malloc(sizeof(adv_acontext)); pool->push_back(p); (*ctxs)[p] = ++n_ctx; return p; }
void adv_acontext_free(adv_acontext* p) { Off o; ctx(p, "adv_acontext_free"); ctxs->erase(p); gone->insert(p); }
adv_adouble* adv_acontext_new_independent(adv_acontext* p) { Off o; u64 c = ctx(p, "adv_acontext_new_independent"); ev("indep " + h(c)); return mk(mix(mix(11, c), trace->size())); }
void adv_acontext_set_dependent(adv_acontext* p, const adv_adouble* v) { Off o; u64 c = ctx(p, "adv_acontext_set_dependent"); seen = num(v, "adv_acontext_set_dependent"); ev("dep " + h(c) + " " + h(seen)); }
void adv_adouble_free(adv_adouble* p) { Off o; num(p, "adv_adouble_free"); nums->erase(p); gone->insert(p); }
adv_adouble* adv_adouble_default() { Off o; return mk(of_double(0.0)); }
adv_adouble* adv_adouble_copy(const adv_adouble* p) { Off o; return mk(num(p, "adv_adouble_copy")); }
adv_adouble* adv_adouble_from_value(double d) { Off o; return mk(of_double(d)); }
#define B(N) void adv_##N(const adv_adouble* a, const adv_adouble* b, adv_adouble** r) { Off o; u64 x = num(a, "adv_" #N), y = num(b, "adv_" #N); ev(#N " " + h(x) + " " + h(y)); *r = mk(op2(#N, x, y)); }
#define U(N) void adv_##N(const adv_adouble* a, adv_adouble** r) { Off o; u64 x = num(a, "adv_" #N); ev(#N " " + h(x)); *r = mk(op2(#N, x, 0)); }
B(op_add) B(op_sub) B(op_mul) B(op_div) B(min) B(max) U(sin) U(cos) U(tan) U(abs) U(exp) U(ln)
}

// ---- histories
static u64 rng = 1; static u64 rnd(u64 n) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return n ? (rng >> 11) % n : 0; }
using adv::ADouble; using adv::AContext;
static const int N = 5, M = 3;
static std::string* hist; static char last[4096];
static void note(const std::string& s) { *hist += (hist->empty() ? "" : "; ") + s; snprintf(last, sizeof last, "%s", hist->c_str()); }
static void crash(int s) { char b[5200]; int n = snprintf(b, sizeof b, "FAIL history [%s]: the program dies with signal %d\n", last, s); if (write(1, b, n)) {} _exit(1); }

struct Mem { alignas(16) char b[sizeof(ADouble) > sizeof(AContext) ? sizeof(ADouble) : sizeof(AContext)]; };
static u64 cases = 0; static std::set<u64>* distinct;

static bool history(int len) {
  static Mem d[N], c[M], home; bool dl[N] = {}, cl[M] = {}; u64 want[N]; u64 cid[M];   // cid 0: holds nothing (or nobody knows)
  trace->clear(); nums->clear(); ctxs->clear(); gone->clear(); for (auto p : *pool) free(p); pool->clear();
  for (size_t i = 0; i < n_ents; i++) free(ents[i].p); n_ents = 0; live_blocks = 0; err.clear(); hist->clear(); last[0] = 0; n_ctx = 0;
  auto D = [&](int i) -> ADouble& { return *reinterpret_cast<ADouble*>(d[i].b); }; auto C = [&](int i) -> AContext& { return *reinterpret_cast<AContext*>(c[i].b); };
  auto& O = *reinterpret_cast<AContext*>(home.b);
  std::vector<std::string> exp; std::string what; u64 code = 5;
  auto on = [&](auto f) { track = true; f(); track = false; };
  on([&] { new (home.b) AContext(); });
  auto look = [&](ADouble& x) { size_t k = trace->size(); on([&] { O.set_dependent(x); }); trace->resize(k); return seen; };
  for (int step = 0; step <= len && err.empty(); step++) {
    std::vector<int> L, F; for (int i = 0; i < N; i++) (dl[i] ? L : F).push_back(i);
    std::vector<int> K, G; for (int i = 0; i < M; i++) (cl[i] ? K : G).push_back(i);
    int o = rnd(20); code = mix(code, o);
    auto pick = [&](std::vector<int>& v) { int r = v[rnd(v.size())]; code = mix(code, r); return r; };
    auto is = [&](int k) { return "x" + std::to_string(k); }; auto ks = [&](int k) { return "ctx" + std::to_string(k); };
    static const double vals[] = {-1.75, 0.25, 0.0, -0.0, 1.0, 2.5}; double val = vals[rnd(6)]; code = mix(code, of_double(val));
    if (o == 0 && F.size()) { int i = pick(F); note(is(i) + "()"); on([&] { new (d[i].b) ADouble(); }); dl[i] = true; want[i] = of_double(0.0); }
    else if (o <= 2 && F.size()) { int i = pick(F); note(is(i) + "(double)"); on([&] { new (d[i].b) ADouble(val); }); dl[i] = true; want[i] = of_double(val); }
    else if (o == 3 && F.size() && L.size()) { int i = pick(F), j = pick(L); note(is(i) + "(" + is(j) + ")"); on([&] { new (d[i].b) ADouble(D(j)); }); dl[i] = true; want[i] = want[j]; }
    else if (o == 4 && F.size() && L.size()) { int i = pick(F), j = pick(L); note(is(i) + "(move(" + is(j) + "))"); on([&] { new (d[i].b) ADouble(std::move(D(j))); }); dl[i] = true; want[i] = want[j]; want[j] = look(D(j)); }
    else if (o <= 6 && L.size()) { int i = pick(L), j = pick(L); note(is(i) + "=" + is(j)); on([&] { ADouble& r = (D(i) = D(j)); if (&r != &D(i)) fail("assignment does not return its object"); }); want[i] = want[j]; }
    else if (o <= 8 && L.size()) { int i = pick(L), j = pick(L); note(is(i) + "=move(" + is(j) + ")"); u64 x = want[j]; on([&] { D(i) = std::move(D(j)); }); if (i != j) want[i] = x; want[j] = look(D(j)); }
    else if (o == 9 && L.size()) { int i = pick(L); note("~" + is(i)); on([&] { D(i).~ADouble(); }); dl[i] = false; }
    else if (o <= 12 && L.size()) {
      int k = rnd(6), i = pick(L), j = pick(L), t = pick(L); code = mix(code, k); static const char* nm[] = {"op_add", "op_sub", "op_mul", "op_div", "min", "max"};
      note(is(t) + "=" + nm[k] + "(" + is(i) + "," + is(j) + ")"); u64 a = want[i], b = want[j];
      on([&] { switch (k) { case 0: D(t) = D(i) + D(j); break; case 1: D(t) = D(i) - D(j); break; case 2: D(t) = D(i) * D(j); break; case 3: D(t) = D(i) / D(j); break; case 4: D(t) = adv::min(D(i), D(j)); break; default: D(t) = adv::max(D(i), D(j)); } });
      exp.push_back(std::string(nm[k]) + " " + h(a) + " " + h(b)); want[t] = op2(nm[k], a, b); }
    else if (o <= 14 && L.size()) {
      int k = rnd(4), i = pick(L), t = pick(L); code = mix(code, k + 50); static const char* nm[] = {"op_add", "op_sub", "op_mul", "op_div"};
      note(is(t) + "=" + nm[k] + "(double," + is(i) + ")"); u64 a = of_double(val), b = want[i];
      on([&] { switch (k) { case 0: D(t) = val + D(i); break; case 1: D(t) = val - D(i); break; case 2: D(t) = val * D(i); break; default: D(t) = val / D(i); } });
      exp.push_back(std::string(nm[k]) + " " + h(a) + " " + h(b)); want[t] = op2(nm[k], a, b); }
    else if (o == 15 && L.size()) {
      int k = rnd(6), i = pick(L), t = pick(L); code = mix(code, k + 90); static const char* nm[] = {"sin", "cos", "tan", "abs", "exp", "ln"};
      note(is(t) + "=" + nm[k] + "(" + is(i) + ")"); u64 a = want[i];
      on([&] { switch (k) { case 0: D(t) = adv::sin(D(i)); break; case 1: D(t) = adv::cos(D(i)); break; case 2: D(t) = adv::tan(D(i)); break; case 3: D(t) = adv::abs(D(i)); break; case 4: D(t) = adv::exp(D(i)); break; default: D(t) = adv::ln(D(i)); } });
      exp.push_back(std::string(nm[k]) + " " + h(a)); want[t] = op2(nm[k], a, 0); }
    else if (o == 16) {
      if (G.size() && rnd(2)) { int i = pick(G);
        if (K.size() && rnd(2)) { int j = pick(K); note(ks(i) + "(move(" + ks(j) + "))"); on([&] { new (c[i].b) AContext(std::move(C(j))); }); cl[i] = true; cid[i] = cid[j]; cid[j] = 0; }
        else { note(ks(i) + "()"); on([&] { new (c[i].b) AContext(); }); cl[i] = true; cid[i] = n_ctx; } }
      else if (K.size()) { int i = pick(K); note("~" + ks(i)); on([&] { C(i).~AContext(); }); cl[i] = false; } }
    else if (o == 17 && K.size()) { int i = pick(K), j = pick(K); note(ks(i) + "=move(" + ks(j) + ")"); on([&] { C(i) = std::move(C(j)); }); if (i != j) cid[i] = cid[j]; cid[j] = 0; }
    else if (o >= 18) { std::vector<int> W; for (int k : K) if (cid[k]) W.push_back(k); if (W.empty() || L.empty()) continue; int k = pick(W), i = pick(L);
      if (o == 18) { note(is(i) + "=" + ks(k) + ".new_independent()"); exp.push_back("indep " + h(cid[k])); on([&] { D(i) = C(k).new_independent(); }); want[i] = mix(mix(11, cid[k]), exp.size()); }
      else { note(ks(k) + ".set_dependent(" + is(i) + ")"); on([&] { C(k).set_dependent(D(i)); }); exp.push_back("dep " + h(cid[k]) + " " + h(want[i])); } }
    else continue;
    if (!err.empty()) break;
    if (*trace != exp) { size_t k = 0; while (k < trace->size() && k < exp.size() && (*trace)[k] == exp[k]) k++; fail("the core library is asked for [" + (k < trace->size() ? (*trace)[k] : "nothing") + "], expected [" + (k < exp.size() ? exp[k] : "nothing") + "]"); break; }
    for (int i = 0; i < N && err.empty(); i++) if (dl[i] && look(D(i)) != want[i]) fail(is(i) + " has the wrong value");
  }
  if (err.empty()) {
    for (int i = 0; i < N; i++) if (dl[i]) on([&] { D(i).~ADouble(); });
    for (int i = 0; i < M; i++) if (cl[i]) on([&] { C(i).~AContext(); });
    on([&] { O.~AContext(); });
    if (err.empty() && !nums->empty()) fail("numbers of the core library are never released");
    if (err.empty() && !ctxs->empty()) fail("recordings of the core library are never released");
    if (err.empty() && live_blocks) fail("memory of the wrapper is never released");
  }
  cases++; distinct->insert(code);
  return err.empty();
}

int main(int, char** v) {
  rng = 88172645463325252ull ^ (strtoull(v[1], 0, 10) * 0x9E3779B97F4A7C15ull); double secs = atof(v[2]);
  nums = new std::map<const void*, u64>; ctxs = new std::map<const void*, u64>; gone = new std::set<const void*>; trace = new std::vector<std::string>; pool = new std::vector<void*>; hist = new std::string; distinct = new std::set<u64>;
  signal(SIGSEGV, crash); signal(SIGABRT, crash); signal(SIGBUS, crash); signal(SIGFPE, crash); signal(SIGILL, crash);
  timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); bool ok = true;
  for (;;) {
    if (!(ok = history(1 + (int)(cases < 4000 ? cases / 400 : rnd(30))))) break;
    if (cases > 2000 && cases <= 2004) printf("SAMPLE %s\n", hist->c_str());
    clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
  }
  printf("CASES %llu DISTINCT %zu\n", cases, distinct->size());
  if (!ok) { printf("FAIL history [%s]: %s\n", hist->c_str(), err.c_str()); return 1; }
}
