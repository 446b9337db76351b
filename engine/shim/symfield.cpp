// Symbolic implementation of the prime_field API (same ABI as include/linear_gkr/prime_field.h).
//
// A u512b either holds a concrete 512-bit integer or (hi.hi == MAGIC) a handle to a symbolic
// value: a node of a ring term DAG plus an integer interval [lo,hi] for the represented integer.
// Concrete-only operations are performed exactly (mod 2^512, GMP).  The contracts used for the
// operations are the ones property A-series checks decide for the real prime_field.cpp:
//   + -      exact mod 2^512             *  exact when both operands are < 2^256
//   %  mod   canonical residue when the operand is in [0, 2^508)
// An operation used outside its contract yields a fresh unconstrained symbol ("taint") and a
// trace record, so the solver sees an arbitrary value there.
#include "symfield.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <tuple>
#include <vector>
#include <string>
#include <unistd.h>
#include <execinfo.h>

namespace symx {
using std::string; using std::vector;
typedef __uint128_t u128;
static const u128 MAGIC = ((u128)0x5A17C0DE5EED5EEDULL << 64) | 0xC0FFEE11D00DFEEDULL;

static mpz_class P, TWO508, TWO512, TWO256, TWO511;
static bool ready = false;

enum Op { SYM, CST, ADD, SUB, MUL };
struct Ring { Op op; int a, b; mpz_class c; string name; mpz_class shadow; };
struct Val { int ring; mpz_class lo, hi; };
static vector<Ring> R;
static vector<Val> V;
static std::map<std::tuple<int,int,int>, int> cons;
static std::map<mpz_class, int> csts;
static std::map<string, int> symtab;
static vector<string> lines;
static vector<int> decisions; static size_t dec_pos = 0;
static std::map<std::pair<int,int>, bool> rel;  // (a,b) -> a>=b known facts between value handles
static long n_range = 0, n_taint = 0, n_events = 0;
static int flip_mode = 0;
string random_prefix = "c";
static gmp_randstate_t rs;
static long max_nodes = 4000000;

static void setup()
{
  if (ready) return;
  ready = true;
  const char *ps = getenv("SYMX_P");
  P = mpz_class(ps ? ps : "16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
  TWO508 = mpz_class(1) << 508; TWO512 = mpz_class(1) << 512; TWO256 = mpz_class(1) << 256; TWO511 = mpz_class(1) << 511;
  gmp_randinit_mt(rs);
  const char *sd = getenv("SYMX_SEED");
  gmp_randseed_ui(rs, sd ? strtoul(sd, 0, 10) : 1);
  const char *d = getenv("SYMX_DECISIONS");
  if (d) for (const char *q = d; *q; ++q) if (*q == '0' || *q == '1' || *q == 'd') decisions.push_back(*q == 'd' ? 2 : *q - '0');
  const char *f = getenv("SYMX_FLIP");
  flip_mode = f ? atoi(f) : 0;
}
static mpz_class mod_p(const mpz_class &x) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), P.get_mpz_t()); return r; }
static int mkc(const mpz_class &x0)
{
  mpz_class x = mod_p(x0);
  auto it = csts.find(x);
  if (it != csts.end()) return it->second;
  R.push_back({CST, 0, 0, x, "", x});
  return csts[x] = R.size() - 1;
}
static int mksym(const string &name)
{
  auto it = symtab.find(name);
  if (it != symtab.end()) return it->second;
  mpz_class r; mpz_urandomm(r.get_mpz_t(), rs, P.get_mpz_t());
  R.push_back({SYM, 0, 0, 0, name, r});
  return symtab[name] = R.size() - 1;
}
static int mk(Op op, int a, int b)
{
  if (R[a].op == CST && R[b].op == CST)
  {
    const mpz_class &x = R[a].c, &y = R[b].c;
    return mkc(op == ADD ? mpz_class(x + y) : op == SUB ? mpz_class(x - y) : mpz_class(x * y));
  }
  if (op == ADD) { if (R[a].op == CST && R[a].c == 0) return b; if (R[b].op == CST && R[b].c == 0) return a; }
  if (op == SUB) { if (R[b].op == CST && R[b].c == 0) return a; if (a == b) return mkc(0); }
  if (op == MUL)
  {
    if ((R[a].op == CST && R[a].c == 0) || (R[b].op == CST && R[b].c == 0)) return mkc(0);
    if (R[a].op == CST && R[a].c == 1) return b;
    if (R[b].op == CST && R[b].c == 1) return a;
  }
  if ((op == ADD || op == MUL) && a > b) std::swap(a, b);
  auto key = std::make_tuple((int)op, a, b);
  auto it = cons.find(key);
  if (it != cons.end()) return it->second;
  mpz_class s = op == ADD ? mpz_class(R[a].shadow + R[b].shadow) : op == SUB ? mpz_class(R[a].shadow - R[b].shadow) : mpz_class(R[a].shadow * R[b].shadow);
  R.push_back({op, a, b, 0, "", mod_p(s)});
  if ((long)R.size() > max_nodes) { note("TOOBIG"); finish("toobig"); _exit(3); }
  return cons[key] = R.size() - 1;
}
static std::map<std::tuple<int,string,string>, int> vcons;
static int mkv(int ring, const mpz_class &lo, const mpz_class &hi)
{
  V.push_back({ring, lo, hi});
  return V.size() - 1;
}

// ---- packing -------------------------------------------------------------------------------
typedef prime_field::u512b u512;
static bool is_sym(const u512 &x) { return x.hi.hi == MAGIC; }
static int handle(const u512 &x) { return (int)(unsigned long long)x.lo; }
static u512 pack(int h)
{
  u512 r; memset((void*)&r, 0, sizeof r);
  r.lo = (u128)(unsigned)h | ((u128)0x5EED5EED5EED5EEDULL << 64);
  r.mid = MAGIC; r.hi.lo = 0x51515151; r.hi.mid = 0x15151515; r.hi.hi = MAGIC;
  return r;
}
static mpz_class from128(u128 x) { mpz_class h((unsigned long)(x >> 64)), l((unsigned long)(unsigned long long)x); return (h << 64) + l; }
static u128 to128(const mpz_class &x)
{
  mpz_class m = x & ((mpz_class(1) << 128) - 1);
  mpz_class l = m & ((mpz_class(1) << 64) - 1), h = m >> 64;
  return ((u128)mpz_get_ui(h.get_mpz_t()) << 64) | mpz_get_ui(l.get_mpz_t());
}
static mpz_class cval(const u512 &x)
{
  mpz_class h = (from128(x.hi.hi) << 128) + (mpz_class((unsigned long)x.hi.mid) << 64) + mpz_class((unsigned long)x.hi.lo);
  return (h << 256) + (from128(x.mid) << 128) + from128(x.lo);
}
static u512 cpack(const mpz_class &v0)
{
  mpz_class v; mpz_fdiv_r_2exp(v.get_mpz_t(), v0.get_mpz_t(), 512);
  u512 r; memset((void*)&r, 0, sizeof r);
  r.lo = to128(v); r.mid = to128(v >> 128);
  mpz_class h = v >> 256;
  u128 l = to128(h); r.hi.lo = (unsigned long long)l; r.hi.mid = (unsigned long long)(l >> 64); r.hi.hi = to128(h >> 128);
  return r;
}
// symbolic view of any operand; concrete integers above 2^511 are read as negative (mod 2^512)
static int lift(const u512 &x)
{
  if (is_sym(x)) return handle(x);
  mpz_class c = cval(x);
  if (c >= TWO511) c -= TWO512;
  return mkv(mkc(c), c, c);
}
static u512 taint(const char *why)
{
  char b[64]; snprintf(b, sizeof b, "taint%ld", n_taint++);
  int s = mksym(b);
  lines.push_back(string("T ") + b + " " + why);
  return pack(mkv(s, 0, P - 1));
}
static u512 add(const u512 &x, const u512 &y)
{
  if (!is_sym(x) && !is_sym(y)) return cpack(cval(x) + cval(y));
  int a = lift(x), b = lift(y);
  mpz_class lo = V[a].lo + V[b].lo, hi = V[a].hi + V[b].hi;
  int r = mk(ADD, V[a].ring, V[b].ring);
  return pack(mkv(r, lo, hi));
}
static u512 sub(const u512 &x, const u512 &y)
{
  if (!is_sym(x) && !is_sym(y)) return cpack(cval(x) - cval(y));
  int a = lift(x), b = lift(y);
  mpz_class lo = V[a].lo - V[b].hi, hi = V[a].hi - V[b].lo;
  auto it = rel.find({a, b});
  if (it != rel.end()) { if (it->second) { if (lo < 0) lo = 0; } else { if (hi > -1) hi = -1; } }
  int r = mk(SUB, V[a].ring, V[b].ring);
  return pack(mkv(r, lo, hi));
}
static u512 mul(const u512 &x, const u512 &y)
{
  if (!is_sym(x) && !is_sym(y))
  {
    mpz_class a = cval(x), b = cval(y);
    if (a == 0 || b == 0) return cpack(0);
    mpz_class m = TWO256 - 1;
    return cpack((a & m) * (b & m));
  }
  int a = lift(x), b = lift(y);
  if (V[a].lo < 0 || V[a].hi >= TWO256 || V[b].lo < 0 || V[b].hi >= TWO256) return taint("mul-operand-not-below-2^256");
  int r = mk(MUL, V[a].ring, V[b].ring);
  return pack(mkv(r, V[a].lo * V[b].lo, V[a].hi * V[b].hi));
}
static u512 rem(const u512 &x)
{
  if (!is_sym(x))
  {
    mpz_class c = cval(x);
    if (c >= TWO508) lines.push_back("T - concrete-rem-operand-not-below-2^508");
    return cpack(mod_p(c));
  }
  int a = handle(x);
  if (V[a].lo < 0 || V[a].hi >= TWO508) return taint("rem-operand-not-in-[0,2^508)");
  if (V[a].lo >= 0 && V[a].hi < P) return x;
  if (R[V[a].ring].op == CST) return cpack(R[V[a].ring].c);
  return pack(mkv(V[a].ring, 0, P - 1));
}
static string site()
{
  void *bt[6]; int n = backtrace(bt, 6);
  char b[64]; snprintf(b, sizeof b, "%p", n > 3 ? bt[3] : (void*)0);
  return b;
}
// integer comparison a >= b
static bool ge(const u512 &x, const u512 &y)
{
  if (!is_sym(x) && !is_sym(y)) return cval(x) >= cval(y);
  int a = lift(x), b = lift(y);
  if (V[a].lo >= V[b].hi) return true;
  if (V[a].hi < V[b].lo) return false;
  // undetermined: fork on the range predicate
  bool out;
  ++n_range;
  out = (flip_mode == 0) ? false : (flip_mode == 1) ? true : ((n_range * 2654435761u >> (flip_mode & 15)) & 1);
  // refine
  if (V[b].lo == V[b].hi) { if (out) { if (V[a].lo < V[b].lo) V[a].lo = V[b].lo; } else { if (V[a].hi > V[b].lo - 1) V[a].hi = V[b].lo - 1; } }
  else if (V[a].lo == V[a].hi) { if (out) { if (V[b].hi > V[a].lo) V[b].hi = V[a].lo; } else { if (V[b].lo < V[a].lo + 1) V[b].lo = V[a].lo + 1; } }
  rel[{a, b}] = out;
  lines.push_back(string("G ") + (out ? "1" : "0"));
  return out;
}
static bool eq(const u512 &x, const u512 &y)
{
  if (!is_sym(x) && !is_sym(y)) return cval(x) == cval(y);
  int a = lift(x), b = lift(y);
  bool canon = V[a].lo >= 0 && V[a].hi < P && V[b].lo >= 0 && V[b].hi < P;
  if (!canon)
  {
    if (V[a].hi < V[b].lo || V[b].hi < V[a].lo) return false;
    lines.push_back("T - noncanonical-equality");
  }
  if (V[a].ring == V[b].ring) return true;
  bool out = R[V[a].ring].shadow == R[V[b].ring].shadow;
  bool dflt = out;
  if (dec_pos < decisions.size()) { int d = decisions[dec_pos]; if (d != 2) out = d; }
  ++dec_pos; ++n_events;
  char buf[200]; snprintf(buf, sizeof buf, "E %ld %d %d %d %d %s", n_events - 1, V[a].ring, V[b].ring, (int)out, (int)dflt, site().c_str());
  lines.push_back(buf);
  return out;
}

// ---- integers of unbounded range, for the GMP stand-in (an operation is exact on the represented integers) ----
static u512 zpack(int ring, const mpz_class &lo, const mpz_class &hi) { return R[ring].op == CST && lo == hi ? cpack(lo) : pack(mkv(ring, lo, hi)); }
u512 zadd(const u512 &x, const u512 &y) { return add(x, y); }
u512 zsub(const u512 &x, const u512 &y) { return sub(x, y); }
static mpz_class sval(const u512 &x) { mpz_class c = cval(x); if (c >= TWO511) c -= TWO512; return c; }
u512 zmul(const u512 &x, const u512 &y)
{
  setup();
  if (!is_sym(x) && !is_sym(y)) return cpack(sval(x) * sval(y));
  if (!is_sym(x) && sval(x) == 0) return x;
  if (!is_sym(y) && sval(y) == 0) return y;
  int a = lift(x), b = lift(y);
  mpz_class c[4] = {V[a].lo * V[b].lo, V[a].lo * V[b].hi, V[a].hi * V[b].lo, V[a].hi * V[b].hi}, lo = c[0], hi = c[0];
  for (int i = 1; i < 4; ++i) { if (c[i] < lo) lo = c[i]; if (c[i] > hi) hi = c[i]; }
  return pack(mkv(mk(MUL, V[a].ring, V[b].ring), lo, hi));
}
// remainder of the truncating division, as GMP's operator% (sign of the dividend)
u512 zrem(const u512 &x, const u512 &m)
{
  setup();
  if (is_sym(m)) return taint("remainder-by-symbolic");
  mpz_class n = sval(m);
  if (!is_sym(x)) { mpz_class r; mpz_tdiv_r(r.get_mpz_t(), sval(x).get_mpz_t(), n.get_mpz_t()); return cpack(r); }
  if (n != P) return taint("remainder-by-another-modulus");
  int a = handle(x);
  mpz_class lo = V[a].lo, hi = V[a].hi;
  if (lo >= 0 && hi < P) return x;
  if (lo >= 0 && R[V[a].ring].op == CST) return cpack(R[V[a].ring].c);
  return pack(mkv(V[a].ring, lo >= 0 ? mpz_class(0) : mpz_class(1 - P), hi <= 0 ? mpz_class(0) : mpz_class(P - 1)));
}
bool zge(const u512 &x, const u512 &y)
{
  setup();
  if (!is_sym(x) && !is_sym(y)) return sval(x) >= sval(y);
  return ge(x, y);
}
bool zeq(const u512 &x, const u512 &y)
{
  setup();
  if (!is_sym(x) && !is_sym(y)) return sval(x) == sval(y);
  return eq(x, y);
}
u512 zred(const u512 &x)      // canonical residue
{
  setup();
  if (!is_sym(x)) return cpack(mod_p(sval(x)));
  int a = handle(x);
  if (V[a].lo >= 0 && V[a].hi < P) return x;
  if (R[V[a].ring].op == CST) return cpack(R[V[a].ring].c);
  return pack(mkv(V[a].ring, 0, P - 1));
}
string zstr(const u512 &x)
{
  setup();
  if (!is_sym(x)) return sval(x).get_str();
  return "h" + std::to_string(handle(x));
}
u512 zparse(const string &s)
{
  setup();
  if (s.size() && s[0] == 'h')
  {
    int h = atoi(s.c_str() + 1);
    if (V[h].lo < 0) return taint("text-of-an-integer-that-may-be-negative");
    return pack(h);
  }
  return cpack(mpz_class(s, 10));
}
u512 zsym(const string &name) { setup(); return pack(mkv(mksym(name), 0, P - 1)); }
u512 zint(long x) { setup(); return cpack(mpz_class(x)); }
u512 zuint(unsigned long x) { setup(); return cpack(mpz_class(x)); }
bool zsymbolic(const u512 &x) { return is_sym(x); }
u512 ztaint(const char *why) { setup(); return taint(why); }
// An integer some of whose bits are symbols (0 or 1), the rest known: routines that look at single bits run on these,
// forking on the bits they test.
struct Bits { mpz_class base; std::map<unsigned long, int> pos; };   // position -> index of the bit's value
static std::map<int, Bits> bitsof;                                     // by ring
static std::map<int, int> decided;
static bool bit_is_one(int v)
{
  auto it = decided.find(v);
  if (it != decided.end()) return it->second;
  return decided[v] = eq(pack(v), cpack(mpz_class(1)));
}
static u512 mkbits(const Bits &b)
{
  if (b.pos.empty()) return cpack(b.base);
  int r = mkc(b.base);
  mpz_class hi = b.base;
  for (auto &q : b.pos) { mpz_class w = mpz_class(1) << q.first; r = mk(ADD, r, mk(MUL, mkc(w), V[q.second].ring)); hi += w; }
  bitsof[r] = b;
  return pack(mkv(r, b.base, hi));
}
u512 zbitval(const string &prefix, const u512 &base, const vector<unsigned long> &pos)
{
  setup();
  Bits b; b.base = sval(base);
  for (size_t k = 0; k < pos.size(); ++k)
  {
    mpz_clrbit(b.base.get_mpz_t(), pos[k]);
    b.pos[pos[k]] = mkv(mksym(prefix + std::to_string(k)), 0, 1);
  }
  return mkbits(b);
}
u512 zbits(int what, const u512 &x, const u512 &y, unsigned long n)
{
  setup();
  if (is_sym(x))
  {
    auto it = bitsof.find(V[handle(x)].ring);
    if (it == bitsof.end() || (what == 2 && is_sym(y))) return taint("bits-of-symbolic-integer");
    const Bits b = it->second;
    Bits r;
    if (what == 4)
    {
      auto p = b.pos.find(n);
      return cpack(mpz_class(p == b.pos.end() ? mpz_tstbit(b.base.get_mpz_t(), n) : (int)bit_is_one(p->second)));
    }
    if (what == 3)
    {
      if (n != 2) return taint("size-in-base-of-symbolic-integer");
      unsigned long top = b.base == 0 ? 0 : mpz_sizeinbase(b.base.get_mpz_t(), 2);
      for (auto p = b.pos.rbegin(); p != b.pos.rend() && p->first + 1 > top; ++p) if (bit_is_one(p->second)) top = p->first + 1;
      return cpack(mpz_class(top ? top : 1));
    }
    mpz_class m = what == 2 ? sval(y) : mpz_class(0);
    if (what == 0) r.base = b.base >> n; else if (what == 1) r.base = b.base << n; else r.base = b.base & m;
    for (auto &p : b.pos)
    {
      if (what == 0) { if (p.first >= n) r.pos[p.first - n] = p.second; }
      else if (what == 1) r.pos[p.first + n] = p.second;
      else if (mpz_tstbit(m.get_mpz_t(), p.first)) r.pos[p.first] = p.second;
    }
    return mkbits(r);
  }
  if (is_sym(y)) return taint("bits-of-symbolic-integer");
  mpz_class a = sval(x), r;
  if (what == 0) r = a >> n; else if (what == 1) r = a << n; else if (what == 2) r = a & sval(y);
  else if (what == 3) r = (unsigned long)mpz_sizeinbase(a.get_mpz_t(), (int)n); else r = (unsigned long)mpz_tstbit(a.get_mpz_t(), n);
  return cpack(r);
}
unsigned long zget(const u512 &x)
{
  mpz_class a;
  if (is_sym(x))
  {
    auto it = bitsof.find(V[handle(x)].ring);
    if (it == bitsof.end()) { taint("machine-word-of-symbolic-integer"); return 0; }
    a = it->second.base;
    for (auto &p : it->second.pos) if (bit_is_one(p.second)) mpz_setbit(a.get_mpz_t(), p.first);
  }
  else a = sval(x);
  return mpz_get_ui(a.get_mpz_t());
}

// ---- public --------------------------------------------------------------------------------
prime_field::field_element sym(const string &name)
{
  setup();
  prime_field::field_element r; r.value = pack(mkv(mksym(name), 0, P - 1)); return r;
}
static int ring_of(const prime_field::field_element &x)
{
  if (is_sym(x.value)) return V[handle(x.value)].ring;
  return mkc(cval(x.value));
}
void out(const string &name, const prime_field::field_element &x)
{
  setup();
  string canon = "1";
  if (is_sym(x.value)) { const Val &v = V[handle(x.value)]; if (v.lo < 0 || v.hi >= P) canon = "0"; }
  else if (cval(x.value) >= P) canon = "0";
  lines.push_back("O " + name + " " + std::to_string(ring_of(x)) + " " + canon);
}
void note(const string &t) { lines.push_back("N " + t); }
static bool done = false;
void finish(const string &verdict)
{
  if (done) return; done = true;
  const char *fn = getenv("SYMX_TRACE");
  FILE *f = fn ? fopen(fn, "w") : stdout;
  if (!f) _exit(4);
  fprintf(f, "P %s\n", P.get_str().c_str());
  for (size_t i = 0; i < R.size(); ++i)
  {
    const Ring &r = R[i];
    if (r.op == SYM) fprintf(f, "S %zu %s %s\n", i, r.name.c_str(), r.shadow.get_str().c_str());
    else if (r.op == CST) fprintf(f, "C %zu %s\n", i, r.c.get_str().c_str());
    else fprintf(f, "%c %zu %d %d\n", r.op == ADD ? '+' : r.op == SUB ? '-' : '*', i, r.a, r.b);
  }
  for (auto &l : lines) fprintf(f, "%s\n", l.c_str());
  fprintf(f, "V %s events=%ld range=%ld taint=%ld\n", verdict.c_str(), n_events, n_range, n_taint);
  fclose(f);
}
static void on_abort(int sig) { finish(sig == SIGABRT ? "abort" : sig == SIGALRM ? "timeout" : "crash"); _exit(0); }
struct Boot { Boot() { setup(); signal(SIGABRT, on_abort); signal(SIGSEGV, on_abort); signal(SIGFPE, on_abort); signal(SIGBUS, on_abort); signal(SIGALRM, on_abort);
  const char *t = getenv("SYMX_ALARM"); alarm(t ? atoi(t) : 300); } } boot;
static long n_random = 0;
static const long MAGIC_IN = 1900000000L;      // integers MAGIC_IN+k in circuit files stand for the symbolic input k
} // namespace symx

// ================= the ABI =================
extern "C" void symx_touch(const void *, int) __attribute__((weak));
#define TOUCH(b) do { if (symx_touch) { symx_touch(this, sizeof *this); symx_touch(&(b), sizeof(b)); } } while (0)
namespace prime_field
{
  using namespace symx;
  u256b mod; u512b mod_512, minus_mod_512; bool initialized = false;
  u256b one, zero, my_factor;
  u256b::u256b() { lo = mid = 0; hi = 0; }
  u256b::u256b(const unsigned long long &x) { lo = x; mid = 0; hi = 0; }
  u256b::u256b(const __uint128_t &x) { lo = (unsigned long long)x; mid = (unsigned long long)(x >> 64); hi = 0; }
  u256b::u256b(const char *x, int len, int base)
  {
    setup();
    mpz_class v(std::string(x, len), base); u512b t = cpack(v);
    lo = (unsigned long long)t.lo; mid = (unsigned long long)(t.lo >> 64); hi = t.mid;
  }
  static mpz_class v256(const u256b &x) { return (from128(x.hi) << 128) + (mpz_class((unsigned long)x.mid) << 64) + mpz_class((unsigned long)x.lo); }
  u256b u256b::operator*(const u256b &x) const { u512b t = cpack(v256(*this) * v256(x)); u256b r; r.lo = (unsigned long long)t.lo; r.mid = (unsigned long long)(t.lo >> 64); r.hi = t.mid; return r; }
  int u256b::testBit(int i) { mpz_class v = v256(*this); return mpz_tstbit(v.get_mpz_t(), i); }
  int u256b::bitLen() { mpz_class v = v256(*this); return v == 0 ? 0 : mpz_sizeinbase(v.get_mpz_t(), 2); }
  u512b::u512b(const u256b &x) { lo = ((__uint128_t)x.mid << 64) | x.lo; mid = x.hi; hi.lo = 0; hi.mid = 0; hi.hi = 0; }
  u512b::u512b(const __uint128_t &x) { lo = x; mid = 0; hi.lo = 0; hi.mid = 0; hi.hi = 0; }
  u512b::u512b(const char *x, int len, int base) { setup(); *this = zparse(std::string(x, len)); }
  u512b::u512b() { lo = mid = 0; hi.lo = 0; hi.mid = 0; hi.hi = 0; }
  u512b u512b::operator+(const u512b &x) const { TOUCH(x); return add(*this, x); }
  u512b u512b::operator-(const u512b &x) const { TOUCH(x); return sub(*this, x); }
  u512b u512b::operator*(const u512b &x) const { TOUCH(x); return mul(*this, x); }
  u512b u512b::operator%(const u256b &x) const { TOUCH(x); return rem(*this); }
  bool u512b::operator!=(const u512b &x) const { TOUCH(x); return !eq(*this, x); }
  bool u512b::operator>=(const u512b &x) const { TOUCH(x); return ge(*this, x); }
  bool u512b::operator<(const u512b &x) const { TOUCH(x); return !ge(*this, x); }
  bool u512b::operator>(const u512b &x) const { TOUCH(x); return !ge(x, *this); }
  void init(std::string s, int base)
  {
    setup(); initialized = true;
    mod = u256b(s.c_str(), s.length(), base);
    if (v256(mod) != P) symx::note("MODULUS " + v256(mod).get_str());
    one = u256b((unsigned long long)1); zero = u256b((unsigned long long)0);
    mod_512 = u512b(mod); minus_mod_512 = cpack(-P);
  }
  void init_random() {}
  field_element::field_element() {}
  field_element::field_element(const int x)
  {
    if ((long)x >= MAGIC_IN) { *this = symx::sym("x" + std::to_string((long)x - MAGIC_IN)); return; }
    value = u512b(u256b((unsigned long long)x));
  }
  field_element::field_element(const unsigned long long x)
  {
    if ((long)x >= MAGIC_IN && x < 2147483648ULL) { *this = symx::sym("x" + std::to_string((long)x - MAGIC_IN)); return; }
    value = u512b(u256b(x));
  }
  static u512b canon2(const u512b &s) { // value in [0,2p) reduced by one conditional subtraction
    if (!is_sym(s)) { mpz_class c = cval(s); return c >= P ? cpack(c - P) : s; }
    int a = handle(s);
    if (V[a].lo < 0 || V[a].hi >= 2 * P) return taint("add-operands-not-canonical");
    if (R[V[a].ring].op == CST) return cpack(R[V[a].ring].c);
    return pack(mkv(V[a].ring, 0, P - 1));
  }
  field_element field_element::operator+(const field_element &b) const { TOUCH(b); field_element r; r.value = canon2(add(value, b.value)); return r; }
  field_element field_element::operator-(const field_element &b) const
  {
    TOUCH(b);
    field_element r;
    if (!is_sym(value) && !is_sym(b.value))
    {
      mpz_class x = cval(value), y = cval(b.value);
      r.value = cpack(x >= y ? mpz_class(x - y) : mpz_class(x + P - y)); return r;
    }
    int x = lift(value), y = lift(b.value);
    if (V[x].lo < 0 || V[x].hi >= P || V[y].lo < 0 || V[y].hi >= P) { r.value = taint("sub-operands-not-canonical"); return r; }
    int g = mk(SUB, V[x].ring, V[y].ring);
    if (R[g].op == CST) { r.value = cpack(R[g].c); return r; }
    r.value = pack(mkv(g, 0, P - 1)); return r;
  }
  field_element field_element::operator*(const field_element &b) const { TOUCH(b); field_element r; r.value = rem(mul(b.value, value)); return r; }
  field_element field_element::operator/(const field_element &b) const { TOUCH(b); abort(); }
  field_element field_element::mul_non_mod(const field_element &b) const { TOUCH(b); field_element r; r.value = mul(b.value, value); return r; }
  bool field_element::operator==(const field_element &b) const { TOUCH(b); return eq(value, b.value); }
  bool field_element::operator!=(const field_element &b) const { TOUCH(b); return !eq(value, b.value); }
  field_element random() { return symx::sym(symx::random_prefix + std::to_string(symx::n_random++)); }
}
