// std::thread under the control of the check: a started thread runs to completion on its own stack, either at once or,
// at the first join, in the order PAR_ORDER gives.  With PAR_LOG_ACCESS (symbolic build: the repository's sources are compiled with
// -fsanitize=thread, whose callbacks land here) every memory access of a thread that is concurrent with another is recorded.
#include <vector>
#include <map>
#include <string>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <new>
#include <ucontext.h>
#include <sys/mman.h>
#include "symx_api.h"
#include <memory>
#include <functional>
#include <chrono>
#include <iostream>
#define private public
#include <thread>
#undef private
extern "C" char __executable_start;
namespace {
struct Th { std::thread::_State *st; bool run, joined; ucontext_t ctx; };
std::vector<Th *> region;               // the threads started since the last moment none was outstanding
int outstanding = 0, cur = -1, nregion = 0, busy = 0;
ucontext_t main_ctx;
std::vector<char *> stacks;
const size_t STK = 1 << 20;
struct Acc { unsigned long rpc, wpc; bool r, w; };
typedef std::map<unsigned long, Acc> Log;       // by 4-byte word
std::map<int, Log> tlog;                         // thread -> log
std::map<std::string, Log> mlog;                 // main thread, by the set of threads outstanding at the access
std::map<std::pair<int, int>, int> conc;
void body() { region[cur]->st->_M_run(); }
void run(int k)
{
	Th *t = region[k];
	if (t->run) return;
	t->run = true;
	while ((int)stacks.size() <= k)
	{
		void *m = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		stacks.push_back((char *)m);
	}
	getcontext(&t->ctx);
	t->ctx.uc_stack.ss_sp = stacks[k]; t->ctx.uc_stack.ss_size = STK; t->ctx.uc_link = &main_ctx;
	makecontext(&t->ctx, body, 0);
	cur = k;
	swapcontext(&main_ctx, &t->ctx);
	cur = -1;
}
void dump(const std::string &who, Log &l)
{
	char b[200];
	for (auto i = l.begin(); i != l.end();)
	{
		auto j = i; unsigned long end = i->first;
		while (j != l.end() && j->first == end && j->second.r == i->second.r && j->second.w == i->second.w && j->second.rpc == i->second.rpc && j->second.wpc == i->second.wpc) { end += 4; ++j; }
		snprintf(b, sizeof b, "acc %d %s %lx %lx %lx %lx", nregion, who.c_str(), i->first, end, i->second.r ? i->second.rpc : 0, i->second.w ? i->second.wpc : 0);
		symx::note(b);
		i = j;
	}
}
void done()
{
	++busy;
#ifdef PAR_LOG_ACCESS
	for (auto &c : conc) symx::note("conc " + std::to_string(nregion) + " " + std::to_string(c.first.first) + " " + std::to_string(c.first.second));
	for (auto &t : tlog) dump(std::to_string(t.first), t.second);
	for (auto &t : mlog) dump("m" + t.first, t.second);
#endif
	tlog.clear(); mlog.clear(); conc.clear();
	for (auto t : region) delete t;
	region.clear(); ++nregion; --busy;
}
void access(const void *a, unsigned long n, bool w, void *pc)
{
	if (!outstanding || busy || !n) return;
	++busy;
	Log *l;
	if (cur >= 0) l = &tlog[cur];
	else
	{
		std::string m;
		for (size_t k = 0; k < region.size(); ++k) if (!region[k]->joined) m += "," + std::to_string(k);
		l = &mlog[m];
	}
	unsigned long p = (unsigned long)pc - (unsigned long)&__executable_start;
	for (unsigned long x = (unsigned long)a & ~3ul; x < (unsigned long)a + n; x += 4)
	{
		auto it = l->find(x);
		if (it == l->end()) { Acc z = {0, 0, false, false}; it = l->insert(std::make_pair(x, z)).first; }
		if (w) { if (!it->second.w) it->second.wpc = p; it->second.w = true; }
		else { if (!it->second.r) it->second.rpc = p; it->second.r = true; }
	}
	--busy;
}
}
void std::thread::_M_start_thread(_State_ptr s, void (*)())
{
	++busy;
	Th *t = new Th; t->st = s.release(); t->run = t->joined = false;
	int k = region.size();
	for (int j = 0; j < k; ++j) if (!region[j]->joined) conc[std::make_pair(j, k)] = 1;
	region.push_back(t); ++outstanding;
	unsigned long id = k + 1;
	memcpy((void *)&_M_id, &id, sizeof id);
	--busy;
	const char *o = getenv("PAR_ORDER");
	if (!o || !*o) run(k);
}
void std::thread::join()
{
	unsigned long id; memcpy(&id, (void *)&_M_id, sizeof id);
	int k = (int)id - 1;
	if (k < 0 || k >= (int)region.size() || region[k]->joined) abort();
	if (!region[k]->run)
	{
		const char *o = getenv("PAR_ORDER");
		if (o && *o == 'L')             // each thread as late as its own join allows; L<n>: thread n after everything started by then
		{
			if (o[1] && atoi(o + 1) == k) for (size_t j = 0; j < region.size(); ++j) if ((int)j != k) run(j);
			run(k);
		}
		else
		{
		for (const char *q = o; q && *q; ++q) if (*q >= '0' && *q <= '9' && *q - '0' < (int)region.size()) run(*q - '0');
		for (size_t j = 0; j < region.size(); ++j) run(j);
		}
	}
	region[k]->joined = true; --outstanding;
	id = 0; memcpy((void *)&_M_id, &id, sizeof id);
	if (!outstanding) done();
}
#ifdef PAR_LOG_ACCESS
// memory freed while threads are outstanding is not handed out again, so that one address is one object within a region
void operator delete(void *p) noexcept { if (!outstanding) free(p); }
void operator delete[](void *p) noexcept { if (!outstanding) free(p); }
void operator delete(void *p, size_t) noexcept { if (!outstanding) free(p); }
void operator delete[](void *p, size_t) noexcept { if (!outstanding) free(p); }
#define PC __builtin_return_address(0)
extern "C" {
void symx_touch(const void *p, int n) { access(p, n, false, PC); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false, PC); } void __tsan_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
	void __tsan_read_write##n(void *p) { access(p, n, false, PC); access(p, n, true, PC); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, false, PC); access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true, PC); return memset(d, c, n); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
// a program that synchronises by other means than start and join is outside the encoding; the link then fails
}
#endif
