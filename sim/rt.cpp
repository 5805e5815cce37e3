// Deterministic simulation runtime: scheduler, clock, synchronisation primitives, heap, race detector.
// Compiled without instrumentation; the library under test and the harnesses are compiled with
// -fsanitize=thread and linked against the __tsan_* entry points below instead of libtsan.
#include "rt.h"
#include "sim.h"

#include <errno.h>
#include <link.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/single_threaded.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unwind.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define CALLER ((u64)__builtin_return_address(0))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" int __real_memcmp(const void*, const void*, size_t);
extern "C" char __data_start, _end;

namespace rt
{

// ------------------------------------------------------------------ basics

static inline u64 splitmix(u64& s)
{
	u64 z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
u64 mix(u64 a, u64 b) { u64 s = a * 0x9e3779b97f4a7c15ull + b; return splitmix(s); }

struct Rng
{
	u64 s;
	u64 next() { return splitmix(s); }
	u32 below(u32 n) { return n ? (u32)((next() >> 11) % n) : 0; }
	bool oneIn(u32 n) { return n && below(n) == 0; }
	bool permille(u32 p) { return below(1000) < p; }
};

static const u64 A_BASE = 0x100000000000ull, A_SIZE = 512ull << 20;		// simulated heap (never reused within a run)
static const u64 B_BASE = 0x108000000000ull, B_SIZE = 8ull << 30;		// driver heap
static const u64 C_BASE = 0x110000000000ull, C_SIZE = 1ull << 30;		// runtime bookkeeping
static const u64 ST_BASE = 0x120000000000ull; static const u64 ST_ONE = 256 << 10;
static const u32 MAXF = 256;
static const u64 ST_SIZE = ST_ONE * MAXF;
static const u64 SHA_BASE = 0x140000000000ull, SHST_BASE = 0x150000000000ull, SHG_BASE = 0x160000000000ull;
static const u64 STATE_BASE = 0x170000000000ull;						// one byte per 8 bytes of A

static void* mapFixed(u64 at, u64 size)
{
	void* p = mmap((void*)at, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void*)at)
	{ static const char m[] = "sim: cannot map region\n"; ssize_t r = write(2, m, sizeof(m) - 1); (void)r; _exit(99); }
	return p;
}

static u64 g_cptr = 0;
static void* callocC(size_t n)
{
	if (!g_cptr) { mapFixed(C_BASE, C_SIZE); g_cptr = C_BASE; }
	u64 p = (g_cptr + 15) & ~15ull;
	g_cptr = p + n;
	if (g_cptr > C_BASE + C_SIZE) { _exit(98); }
	return (void*)p;
}

template < typename T > struct RVec
{
	T* d; u32 n, cap;
	void push(const T& v)
	{
		if (n == cap)
		{
			u32 nc = cap ? cap * 2 : 256;
			T* nd = (T*)callocC(sizeof(T) * nc);
			for (u32 i = 0; i < n; ++i) nd[i] = d[i];
			d = nd; cap = nc;
		}
		d[n++] = v;
	}
};

// ------------------------------------------------------------------ heap

enum { GFree0 = 0, GAlloc = 8, GFreed = 0x40, GIgnore = 0x28 };			// 1..8: that many valid bytes; 0x20 bit: allocated, no race detection

struct Hdr { u64 size; u32 magic; u32 off; };
static const u32 MAGIC_LIVE = 0xA110CA7E, MAGIC_FREE = 0xF4EEF4EE;

static bool g_heapInit = false, g_driverHeap = false;
static u64 g_aptr, g_bptr;
struct BFree { BFree* next; };
static BFree* g_bfree[64];
static u64 g_allocCount = 0, g_freeCount = 0;

static void heapInit()
{
	g_heapInit = true;
	mapFixed(A_BASE, A_SIZE); g_aptr = A_BASE + 64;
	mapFixed(B_BASE, B_SIZE); g_bptr = B_BASE + 64;
	mapFixed(STATE_BASE, A_SIZE / 8);
}

static inline bool inA(u64 p) { return p - A_BASE < A_SIZE; }
static inline bool inB(u64 p) { return p - B_BASE < B_SIZE; }
static inline u8* stateOf(u64 p) { return (u8*)(STATE_BASE + (p - A_BASE) / 8); }

void useDriverHeap() { g_driverHeap = true; }
void useSimHeap() { g_driverHeap = false; }

static void* allocA(size_t size, size_t align)
{
	if (align < 16) align = 16;
	u64 p = (g_aptr + sizeof(Hdr) + align - 1) & ~(u64)(align - 1);
	u64 end = (p + size + 7) & ~7ull;
	if (size > A_SIZE || end + 32 > A_BASE + A_SIZE) { errno = ENOMEM; return NULL; }
	g_aptr = end + 16;														// 16 bytes of red zone at least
	Hdr* h = (Hdr*)(p - sizeof(Hdr));
	h->size = size; h->magic = MAGIC_LIVE; h->off = 0;
	u8* st = stateOf(p);
	size_t g = size / 8;
	for (size_t i = 0; i < g; ++i) st[i] = GAlloc;
	if (size & 7) st[g] = (u8)(size & 7);
	++g_allocCount;
	return (void*)p;
}

static unsigned bClass(size_t n) { unsigned c = 4; while (((size_t)1 << c) < n) ++c; return c; }
static void* allocB(size_t size, size_t align)
{
	if (align <= 16)
	{
		unsigned c = bClass(size + sizeof(Hdr));
		if (g_bfree[c]) { BFree* f = g_bfree[c]; g_bfree[c] = f->next; Hdr* h = (Hdr*)((u64)f - sizeof(Hdr)); h->size = size; h->magic = MAGIC_LIVE; return f; }
		u64 p = g_bptr + sizeof(Hdr);
		g_bptr += (u64)1 << c;
		if (g_bptr > B_BASE + B_SIZE) { errno = ENOMEM; return NULL; }
		Hdr* h = (Hdr*)(p - sizeof(Hdr)); h->size = size; h->magic = MAGIC_LIVE; h->off = c;
		return (void*)p;
	}
	u64 p = (g_bptr + sizeof(Hdr) + align - 1) & ~(u64)(align - 1);
	g_bptr = (p + size + 15) & ~15ull;
	Hdr* h = (Hdr*)(p - sizeof(Hdr)); h->size = size; h->magic = MAGIC_LIVE; h->off = 0;
	return (void*)p;
}

static void* alloc(size_t size, size_t align)
{
	if (UNLIKELY(!g_heapInit)) heapInit();
	return g_driverHeap ? allocB(size, align) : allocA(size, align);
}

// ------------------------------------------------------------------ fibers

typedef u32 Clk;
struct VC { Clk c[MAXF]; };

enum FState { FRunnable, FBlocked, FDone };
enum Why { WNone, WMutex, WCond, WSem, WJoin, WSleep, WOnce, WGuard, WRw, WFutex };
static const char* const g_whyNames[] = { "-", "mutex", "condition variable", "semaphore", "join", "sleep", "once", "static init guard", "rw or spin lock", "futex" };
static const char* const g_kindNames[] = { "", "lock", "trylock", "unlock", "cond wait", "signal", "broadcast", "sem wait", "sem post", "create", "join", "once", "static init", "atomic", "mem", "clock", "yield", "sleep", "user", "exit", "cond woke" };
enum Kind { KLock = 1, KTry, KUnlock, KCondWait, KSignal, KBroadcast, KSemWait, KSemPost, KCreate, KJoin, KOnce, KGuard, KAtomic, KMem, KClock, KYield, KSleep, KUser, KExit, KCondWoke };

struct Fiber
{
	u32 id; FState state; void* sp;
	void* (*fn)(void*); void* arg; void* ret; bool detached; bool joined; bool harness; const char* name;
	Why why; u64 wobj; int dlKind; s64 deadline; int wres;					// dlKind: -1 none, else clockid
	u32 n, fn_n;															// points, fault draws
	u32 quiet, noFaults; unsigned allocPermille;
	int prio;
	VC* vc;
	char* tls; int err;
	u64 cs[512]; u32 csn; u64 lastSite;
	void* keys[64];
	u32 runLen;
	bool cancelPending, cancelOff, cancelling; _Unwind_Exception cancelExc; void* cancelJmp[5]; u64 base;	// pthread_cancel
	u64 pollJumps;															// in waitFor: look again after that many idle jumps
};

static Fiber g_main0;
static Fiber* g_cur = &g_main0;
static Fiber* g_fib[MAXF];
static u32 g_nfib = 1;
static u32 g_live[MAXF]; static u32 g_nlive = 0;							// ids of fibers not done

static bool g_on = false;													// inside a simulated run
static bool g_ended = false;
static bool g_races = true;
static bool g_trace = false;
static bool g_thorough = false;
static bool g_replaying = false;
static bool g_grace = false;
static u64 g_graceSteps, g_graceJumps;
static u64 g_stepLimit = 150000;
static u64 g_accessBudget = 60000000;
static u64 g_now = 1000000000000ull;
static s64 g_rtOff;
static s64 g_nextDl = INT64_MAX;
static u64 g_seq = 0;
static u64 g_evHash = 1469598103934665603ull, g_schedHash = 1099511628211ull;
static Config g_cfg;
static Result* g_res;
static bool g_wantRecords;
static Scenario* g_scenario;
static Rng g_rw, g_rs, g_rf;
static u64 g_faultSalt;
static RVec<u32> g_recW; static RVec<SRec> g_recS; static RVec<FRec> g_recF;
static const Replay* g_replay;
static u32 g_wIdx = 0;
static u32 g_pctPoints[64]; static u32 g_npct = 0; static int g_lowPrio = -1;
static u64 g_steps = 0, g_accesses = 0, g_switches = 0, g_preempts = 0, g_idleJumps = 0;

static char* g_tlsAddr = NULL; static size_t g_tlsSize = 0, g_tlsInit = 0; static const char* g_tlsImage = NULL;

static void hash(u64 v) { g_evHash = (g_evHash ^ v) * 1099511628211ull; g_evHash ^= g_evHash >> 29; }

static void fail(const char* cls, const char* msg, u64 pc, Status st = StViolation) __attribute__((noreturn));
static void finish(Status st) __attribute__((noreturn));

static void strcpyN(char* d, const char* s, size_t n) { size_t i = 0; for (; i + 1 < n && s[i]; ++i) d[i] = s[i]; d[i] = 0; }

static u32 captureStack(Fiber* f, u64 pc, u64* out)
{
	u32 k = 0;
	if (pc) out[k++] = pc;
	for (u32 i = f->csn; i > 0 && k < MaxStack; --i)
		out[k++] = f->cs[(i < 512 ? i : 511) - 1];
	return k;
}

static void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void trace(const char* fmt, ...)
{
	if (!g_trace) return;
	char b[1024];
	int n = snprintf(b, sizeof(b), "[%6llu] %12.6f T%-2u ", (unsigned long long)g_steps, (g_now - 1000000000000ull) / 1e9, g_cur->id);
	va_list ap; va_start(ap, fmt);
	n += vsnprintf(b + n, sizeof(b) - n - 2, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof(b) - 2) n = sizeof(b) - 2;
	b[n++] = '\n';
	ssize_t r = write(3, b, n); (void)r;
}

static void bump(Named* arr, u32& cnt, const char* name)
{
	for (u32 i = 0; i < cnt; ++i)
		if (!strncmp(arr[i].name, name, NameLen - 1)) { ++arr[i].count; return; }
	if (cnt < MaxNames) { strcpyN(arr[cnt].name, name, NameLen); arr[cnt].count = 1; ++cnt; }
}
static u32 g_nfaults = 0, g_nprobes = 0;
static void countFault(const char* name) { bump(g_res->faults, g_nfaults, name); g_res->nfaults = g_nfaults; trace("FAULT %s", name); }

// ------------------------------------------------------------------ vector clocks

struct SyncEnt { u64 key; VC* vc; };
static SyncEnt* g_sync = NULL; static u32 g_syncCap = 0, g_syncN = 0;

static VC* newVC() { return (VC*)callocC(sizeof(VC)); }
static inline void vcJoin(VC* d, const VC* s) { for (u32 i = 0; i < g_nfib; ++i) if (s->c[i] > d->c[i]) d->c[i] = s->c[i]; }
static inline void vcCopy(VC* d, const VC* s) { for (u32 i = 0; i < g_nfib; ++i) d->c[i] = s->c[i]; }

static SyncEnt* syncFind(u64 key, bool create)
{
	if (!g_sync)
	{
		if (!create) return NULL;
		g_syncCap = 4096; g_sync = (SyncEnt*)callocC(sizeof(SyncEnt) * g_syncCap);
	}
	u32 h = (u32)(mix(key, 7) & (g_syncCap - 1));
	while (g_sync[h].key && g_sync[h].key != key) h = (h + 1) & (g_syncCap - 1);
	if (g_sync[h].key) return &g_sync[h];
	if (!create) return NULL;
	if (g_syncN * 2 > g_syncCap)
	{
		SyncEnt* old = g_sync; u32 oc = g_syncCap;
		g_syncCap *= 2; g_sync = (SyncEnt*)callocC(sizeof(SyncEnt) * g_syncCap);
		for (u32 i = 0; i < oc; ++i)
			if (old[i].key)
			{
				u32 k = (u32)(mix(old[i].key, 7) & (g_syncCap - 1));
				while (g_sync[k].key) k = (k + 1) & (g_syncCap - 1);
				g_sync[k] = old[i];
			}
		return syncFind(key, true);
	}
	++g_syncN;
	g_sync[h].key = key; g_sync[h].vc = newVC();
	return &g_sync[h];
}

static inline void acquire(u64 key)
{
	if (!g_on) return;
	if (SyncEnt* e = syncFind(key, false)) vcJoin(g_cur->vc, e->vc);
}
static inline void releaseJoin(u64 key) { if (!g_on) return; vcJoin(syncFind(key, true)->vc, g_cur->vc); ++g_cur->vc->c[g_cur->id]; }
static inline void releaseStore(u64 key) { if (!g_on) return; vcCopy(syncFind(key, true)->vc, g_cur->vc); ++g_cur->vc->c[g_cur->id]; }
static inline void syncClear(u64 key) { if (!g_on) return; if (SyncEnt* e = syncFind(key, false)) __real_memset(e->vc, 0, sizeof(VC)); }

// ------------------------------------------------------------------ race detector

struct Cell { u32 pc; Clk clk; u8 fid; u8 mask; u8 fl; u8 pad; };			// fl: 1 write, 2 atomic, 4 free
static const u32 CELLS = 4;

static u64 g_gBase, g_gSize;

static inline Cell* cellsOf(u64 a)
{
	if (inA(a)) return (Cell*)(SHA_BASE + (a - A_BASE) / 8 * (CELLS * sizeof(Cell)));
	if (a - ST_BASE < ST_SIZE) return (Cell*)(SHST_BASE + (a - ST_BASE) / 8 * (CELLS * sizeof(Cell)));
	if (a - g_gBase < g_gSize) return (Cell*)(SHG_BASE + (a - g_gBase) / 8 * (CELLS * sizeof(Cell)));
	return NULL;
}

static void reportRace(Fiber* f, u64 a, const Cell& c, u8 fl, u64 pc) __attribute__((noreturn, noinline));
static void reportRace(Fiber* f, u64 a, const Cell& c, u8 fl, u64 pc)
{
	char m[512];
	snprintf(m, sizeof(m), "data race at %#llx: %s%s by T%u (%s) is not ordered with earlier %s%s by T%u (%s)", (unsigned long long)a,
		fl & 2 ? "atomic " : "", fl & 4 ? "free" : fl & 1 ? "write" : "read", f->id, f->name ? f->name : "?",
		c.fl & 2 ? "atomic " : "", c.fl & 4 ? "free" : c.fl & 1 ? "write" : "read", (unsigned)c.fid, g_fib[c.fid] && g_fib[c.fid]->name ? g_fib[c.fid]->name : "?");
	g_res->nstack2 = 1; g_res->stack2[0] = c.pc;
	fail("race", m, pc);
}

static inline void raceGranule(Fiber* f, Cell* cells, u64 a, u8 mask, u8 fl, u64 pc)
{
	VC* vc = f->vc;
	Clk my = vc->c[f->id];
	Cell* slot = NULL; Cell* empty = NULL; Cell* dead = NULL;
	for (u32 i = 0; i < CELLS; ++i)
	{
		Cell& c = cells[i];
		if (!c.mask) { if (!empty) empty = &c; continue; }
		if (c.fid == f->id)
		{
			if (c.clk == my && c.mask == mask && (c.fl == fl || ((c.fl & 1) && !(c.fl & 2) && !(fl & 1)))) return;	// already covered
			if ((c.mask & mask) == c.mask && ((fl & 1) || !(c.fl & 1)) && ((c.fl & 2) || !(fl & 2))) { if (!slot) slot = &c; }
			continue;
		}
		if (c.clk <= vc->c[c.fid])
		{
			if ((c.mask & mask) == c.mask && ((fl & 1) || !(c.fl & 1)) && ((c.fl & 2) || !(fl & 2))) dead = &c;
			continue;
		}
		if ((c.mask & mask) && ((c.fl | fl) & 1) && !((c.fl & 2) && (fl & 2)))
			reportRace(f, a, c, fl, pc);
	}
	if (!slot) slot = dead;
	if (!slot) slot = empty;
	if (!slot) slot = &cells[(a / 8 + my + f->id) % CELLS];
	slot->pc = (u32)pc; slot->clk = my; slot->fid = (u8)f->id; slot->mask = mask; slot->fl = fl;
}

static void badAccess(u64 a, u64 size, u8 fl, u64 pc, const char* cls, const char* what) __attribute__((noreturn, noinline));
static void badAccess(u64 a, u64 size, u8 fl, u64 pc, const char* cls, const char* what)
{
	char m[256];
	snprintf(m, sizeof(m), "%s of %llu byte(s) at %#llx: %s", fl & 1 ? "write" : "read", (unsigned long long)size, (unsigned long long)a, what);
	fail(cls, m, pc);
}

static inline void checkHeap(u64 a, u64 size, u8 fl, u64 pc)
{
	for (u64 g = a & ~7ull; g < a + size; g += 8)
	{
		u8 s = *stateOf(g);
		if (LIKELY(s == GAlloc)) continue;
		if (s == GFreed) badAccess(a, size, fl, pc, "use-after-free", "memory was freed");
		if (s & 0x20) continue;
		u64 lim = g + s, end = a + size < g + 8 ? a + size : g + 8;
		if (end > lim) badAccess(a, size, fl, pc, "heap-overflow", "outside of an allocated block");
	}
}

static void point(Kind kind, u64 obj, u64 pc);
static bool memPoint(u64 pc, Fiber* f);

static inline __attribute__((always_inline)) void access(u64 a, u64 size, u8 fl, u64 pc)
{
	if (!g_on) return;
	Fiber* f = g_cur;
	if (f->quiet) return;
	if (UNLIKELY(++g_accesses > g_accessBudget)) fail("livelock", "a thread keeps running without ever finishing", pc);
	if (UNLIKELY(!size)) return;
	bool a_ = inA(a);
	if (a_) checkHeap(a, size, fl, pc);
	else if (UNLIKELY(a < 4096)) badAccess(a, size, fl, pc, "null-access", "null pointer");
	if (g_cfg.memMod && !(fl & 2) && (u64)(a - (ST_BASE + f->id * ST_ONE)) >= ST_ONE && memPoint(pc, f))
	{
		point(KMem, 0, pc);
		if (a_) checkHeap(a, size, fl, pc);
	}
	if (!g_races || g_nlive <= 1) return;
	if (a_ && (*stateOf(a) & 0x20)) return;
	u64 g = a & ~7ull, end = a + size;
	Cell* c = cellsOf(a);
	if (!c) return;
	for (; g < end; g += 8, c += CELLS)
	{
		unsigned lo = g < a ? (unsigned)(a - g) : 0, hi = end - g < 8 ? (unsigned)(end - g) : 8;
		raceGranule(f, c, g, (u8)(((1u << hi) - 1) & ~((1u << lo) - 1)), fl, pc);
	}
}

static void checkSyncObj(u64 a, u64 pc)
{
	if (g_on && !g_cur->quiet && inA(a)) checkHeap(a, 4, 0, pc);
}

static void freeAny(void* ptr, u64 pc)
{
	if (!ptr) return;
	u64 p = (u64)ptr;
	Hdr* h = (Hdr*)(p - sizeof(Hdr));
	if (inB(p))
	{
		if (h->off) { h->magic = MAGIC_FREE; BFree* f = (BFree*)ptr; f->next = g_bfree[h->off]; g_bfree[h->off] = f; }
		return;
	}
	if (!inA(p)) return;
	if (g_driverHeap) return;
	if (h->magic != MAGIC_LIVE)
	{
		if (g_on) fail(h->magic == MAGIC_FREE ? "double-free" : "bad-free", h->magic == MAGIC_FREE ? "block freed twice" : "free of something that is not a heap block", pc);
		return;
	}
	if (g_on && g_races && !g_cur->quiet && g_nlive > 1 && !(*stateOf(p) & 0x20))
	{
		u64 n = h->size < 1024 ? h->size : 1024;
		Cell* c = cellsOf(p);
		for (u64 g = p; g < p + n; g += 8, c += CELLS) raceGranule(g_cur, c, g, 0xff, 1 | 4, pc);
	}
	h->magic = MAGIC_FREE;
	u8* st = stateOf(p);
	for (u64 i = 0; i < (h->size + 7) / 8; ++i) st[i] = GFreed;
	__real_memset(ptr, 0xDD, h->size);
	++g_freeCount;
}

// ------------------------------------------------------------------ outcome

static void exportRecords()
{
	if (!g_wantRecords) return;
	Result* r = g_res;
	r->nW = g_recW.n < MaxW ? g_recW.n : MaxW; for (u32 i = 0; i < r->nW; ++i) r->W[i] = g_recW.d[i];
	r->nS = g_recS.n < MaxS ? g_recS.n : MaxS; for (u32 i = 0; i < r->nS; ++i) r->S[i] = g_recS.d[i];
	r->nF = g_recF.n < MaxF ? g_recF.n : MaxF; for (u32 i = 0; i < r->nF; ++i) r->F[i] = g_recF.d[i];
	r->truncated = g_recW.n > MaxW || g_recS.n > MaxS || g_recF.n > MaxF;
}

static void finish(Status st)
{
	g_on = false;
	Result* r = g_res;
	u64 hist = g_schedHash;
	for (u32 i = 0; i < g_recW.n; ++i) hist = mix(hist, g_recW.d[i]);
	for (u32 i = 0; i < g_recF.n; ++i) hist = mix(hist, mix(((u64)g_recF.d[i].kind << 32) | g_recF.d[i].fid, ((u64)g_recF.d[i].n << 32) | g_recF.d[i].val));
	r->evHash = g_evHash; r->schedHash = g_schedHash; r->histHash = hist; r->steps = g_steps; r->accesses = g_accesses;
	r->switches = g_switches; r->preempts = g_preempts; r->simNs = g_now - 1000000000000ull; r->fibers = g_nfib - 1;
	r->idleJumps = g_idleJumps; r->wDraws = g_wIdx; r->cfg = g_cfg;
	if (st != StOk || g_wantRecords) exportRecords();
	__sync_synchronize();
	r->status = st;
	_exit(0);
}

static void fail(const char* cls, const char* msg, u64 pc, Status st)
{
	if (g_ended) _exit(97);
	g_ended = true;
	bool on = g_on; g_on = false;
	if (!on && !g_res) { ssize_t r = write(2, msg, strlen(msg)); (void)r; _exit(96); }
	strcpyN(g_res->cls, cls, sizeof(g_res->cls));
	strcpyN(g_res->msg, msg, sizeof(g_res->msg));
	g_res->nstack = captureStack(g_cur, pc, g_res->stack);
	hash(mix(strlen(cls), (u64)cls[0]));
	trace("VIOLATION %s: %s", cls, msg);
	g_wantRecords = true;
	finish(st);
}

static void hang(const char* what) __attribute__((noreturn));
static void hang(const char* what)
{
	static char m[6000]; int n = 0;
	n += snprintf(m + n, sizeof(m) - n, "%s;", what);
	for (u32 i = 0; i < g_nlive && n < 5000; ++i)
	{
		Fiber* f = g_fib[g_live[i]];
		n += snprintf(m + n, sizeof(m) - n, " T%u(%s) %s", f->id, f->name ? f->name : "?", f->state == FRunnable ? "runnable" : "blocked on ");
		if (f->state == FBlocked) n += snprintf(m + n, sizeof(m) - n, "%s%s", g_whyNames[f->why], f->dlKind >= 0 ? " (timed)" : "");
		u64 st[8]; u32 k = 0;
		for (u32 j = f->csn; j > 0 && k < 6; --j) st[k++] = f->cs[(j < 512 ? j : 511) - 1];
		for (u32 j = 0; j < k && n < 5800; ++j) n += snprintf(m + n, sizeof(m) - n, " @%llx", (unsigned long long)st[j]);
		n += snprintf(m + n, sizeof(m) - n, ";");
	}
	fail("hang", m, 0);
}

// ------------------------------------------------------------------ scheduler

extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8, %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

static void switchTo(Fiber* t)
{
	Fiber* f = g_cur;
	if (t == f) return;
	++g_switches;
	t->runLen = 0;
	g_schedHash = mix(g_schedHash, ((u64)f->id << 8 | t->id) ^ f->lastSite);
	u64 cv = mix(f->lastSite, t->lastSite) % CovBits;
	g_res->cov[cv / 8] |= (u8)(1 << (cv % 8));
	hash(((u64)f->id << 32) | t->id);
	__real_memcpy(f->tls, g_tlsAddr, g_tlsSize);
	f->err = errno;
	g_cur = t;
	__real_memcpy(g_tlsAddr, t->tls, g_tlsSize);
	errno = t->err;
	sim_switch(&f->sp, t->sp);
}

static inline s64 clockOf(int clk) { return clk == CLOCK_REALTIME ? (s64)g_now + g_rtOff : (s64)g_now; }
static inline s64 expiry(const Fiber* f)									// in monotonic ns
{ return f->dlKind < 0 ? INT64_MAX : f->dlKind == CLOCK_REALTIME ? f->deadline - g_rtOff : f->deadline; }

static void recomputeDl()
{
	g_nextDl = INT64_MAX;
	for (u32 i = 0; i < g_nlive; ++i)
	{
		Fiber* f = g_fib[g_live[i]];
		if (f->state == FBlocked) { s64 e = expiry(f); if (e < g_nextDl) g_nextDl = e; }
	}
}

static void wake(Fiber* f, int res) { f->state = FRunnable; f->wres = res; f->wobj = 0; f->why = WNone; f->dlKind = -1; }

static void wakeExpired()
{
	if ((s64)g_now < g_nextDl) return;
	for (u32 i = 0; i < g_nlive; ++i)
	{
		Fiber* f = g_fib[g_live[i]];
		if (f->state == FBlocked && expiry(f) <= (s64)g_now) wake(f, ETIMEDOUT);
	}
	recomputeDl();
}

static u32 runnableOthers(Fiber* f, Fiber** out)
{
	u32 n = 0;
	for (u32 i = 0; i < g_nlive; ++i)
	{
		Fiber* x = g_fib[g_live[i]];
		if (x != f && x->state == FRunnable) out[n++] = x;
	}
	return n;
}

static Fiber* cyclicNext(Fiber* f, Fiber** o, u32 n)						// the runnable fiber with the next higher id, wrapping
{
	Fiber* best = NULL; u32 bd = ~0u;
	for (u32 i = 0; i < n; ++i)
	{
		u32 d = (o[i]->id + MAXF - f->id) % MAXF;
		if (d < bd) { bd = d; best = o[i]; }
	}
	return best;
}

struct SMap { u64 key; u32 val; u32 used; };
static SMap* g_smap = NULL; static u32 g_smapCap = 0;
static SMap* g_fmap = NULL; static u32 g_fmapCap = 0;
static void mapInit(SMap*& m, u32& cap, u32 n) { cap = 64; while (cap < n * 2) cap *= 2; m = (SMap*)callocC(sizeof(SMap) * cap); }
static void mapPut(SMap* m, u32 cap, u64 k, u32 v) { u32 h = (u32)(mix(k, 3) & (cap - 1)); while (m[h].used && m[h].key != k) h = (h + 1) & (cap - 1); m[h].key = k; m[h].val = v; m[h].used = 1; }
static bool mapGet(SMap* m, u32 cap, u64 k, u32& v)
{
	if (!m) return false;
	u32 h = (u32)(mix(k, 3) & (cap - 1));
	while (m[h].used) { if (m[h].key == k) { v = m[h].val; return true; } h = (h + 1) & (cap - 1); }
	return false;
}
static inline u64 sKey(u32 fid, u32 n) { return ((u64)fid << 32) | n; }
static inline u64 fKey(u32 kind, u32 fid, u32 n) { return mix(((u64)kind << 8) | fid, n); }

enum { FKSpurious = 1, FKStall, FKJump, FKEintr, FKAlloc };

// One fault decision. In generation `want` says what the generator wants (0 = none); returns the value in force.
static u32 faultDecision(u32 kind, u32 fid, u32 n, u32 want)
{
	if (g_replaying) { u32 v; return mapGet(g_fmap, g_fmapCap, fKey(kind, fid, n), v) ? v : 0; }
	if (want) { FRec r = { kind, fid, n, want }; g_recF.push(r); }
	return want;
}

static Fiber* g_handTo;	// fair phase: who gets a mutex that was just released
static u64 g_stalledNs;
static Fiber* decide(Fiber* f, Fiber** o, u32 n, bool canStay, bool isYield, bool site)
{
	// default
	Fiber* def = (canStay && !isYield) ? f : cyclicNext(f, o, n);
	if (canStay && !isYield && f->runLen > 6000) def = cyclicNext(f, o, n);
	if (g_grace && g_handTo) { Fiber* h = g_handTo; g_handTo = NULL; for (u32 i = 0; i < n; ++i) if (o[i] == h) return h; }
	if (g_grace) { if (canStay && !isYield && f->runLen < 60) return f; return cyclicNext(f, o, n); }
	if (g_replaying)
	{
		u32 v;
		if (mapGet(g_smap, g_smapCap, sKey(f->id, f->n), v))
		{
			if (canStay && v == f->id) return f;
			for (u32 i = 0; i < n; ++i) if (o[i]->id == v) return o[i];
		}
		return def;
	}
	Fiber* c = def;
	bool forced = def != f;
	switch (g_cfg.policy)
	{
	case PolRandom:
		if (forced || g_rs.oneIn(g_cfg.p1)) c = o[g_rs.below(n)];
		break;
	case PolBounded:
	{
		bool hit = false;
		for (u32 i = 0; i < g_npct; ++i) if (g_pctPoints[i] == g_steps) hit = true;
		if (forced || hit) c = o[g_rs.below(n)];
		break;
	}
	case PolPct:
	{
		for (u32 i = 0; i < g_npct; ++i) if (g_pctPoints[i] == g_steps) f->prio = g_lowPrio--;
		if (isYield || (forced && canStay)) f->prio = g_lowPrio--;
		Fiber* best = canStay && !isYield && !forced ? f : NULL;
		for (u32 i = 0; i < n; ++i) if (!best || o[i]->prio > best->prio) best = o[i];
		c = best;
		break;
	}
	case PolSites:
		if (forced || (site ? g_rs.oneIn(2) : g_rs.oneIn(g_cfg.p1))) c = o[g_rs.below(n)];
		break;
	}
	if (c != def) { SRec r = { f->id, f->n, c->id }; g_recS.push(r); }
	return c;
}

static u64 siteOf(Fiber* f, u64 pc)
{
	u64 s = pc;
	for (u32 i = f->csn, k = 0; i > 0 && k < 3; --i, ++k) s = s * 0x9e3779b97f4a7c15ull + f->cs[(i < 512 ? i : 511) - 1];
	return mix(s, 11);
}

static bool memPoint(u64 pc, Fiber* f)
{
	if (g_cfg.memMod == 1) return true;
	u64 s = pc * 0x9e3779b97f4a7c15ull + (f->csn ? f->cs[(f->csn < 512 ? f->csn : 511) - 1] : 0);
	return mix(s, 5) % g_cfg.memMod == g_cfg.memRem;
}

static const int VT_BASE = 4200000;
static u64 g_cycleKey = 0, g_cycleFirst = 0; static u32 g_cycleCount = 0;

// Threads that wait for each other's mutexes in a cycle, for as long as a minute: a deadlock, also when the waits are timed and retried.
static void checkLockCycle()
{
	u64 key = 0;
	for (u32 i = 0; i < g_nlive && !key; ++i)
	{
		Fiber* s = g_fib[g_live[i]]; Fiber* f = s;
		for (u32 k = 0; k < g_nlive; ++k)
		{
			if (f->state != FBlocked || f->why != WMutex) { f = NULL; break; }
			int o = ((pthread_mutex_t*)f->wobj)->__data.__owner - VT_BASE;
			if (o < 0 || o >= (int)g_nfib || g_fib[o]->state == FDone) { f = NULL; break; }
			f = g_fib[o];
			if (f == s) break;
		}
		if (f == s) key = mix(s->id, s->wobj) | 1;
	}
	if (!key || key != g_cycleKey) { g_cycleKey = key; g_cycleCount = 0; g_cycleFirst = g_now; return; }
	if (++g_cycleCount > 15 && g_now - g_cycleFirst > 60000000000ull) hang("deadlock: threads wait for each other's mutexes");
}

static void advanceIdle()
{
	checkLockCycle();
	if (g_nextDl == INT64_MAX) recomputeDl();
	if (g_nextDl == INT64_MAX) hang("deadlock: every thread is blocked and no timer is pending");
	++g_idleJumps;
	if (!g_grace && g_idleJumps > 4000) { g_grace = true; g_graceSteps = g_steps + 400000; g_graceJumps = g_idleJumps + 3000; trace("GRACE"); }
	if (g_grace && g_idleJumps > g_graceJumps) hang("no progress: only timed waits keep expiring");
	for (u32 i = 0; i < g_nlive; ++i) { Fiber* f = g_fib[g_live[i]]; if (UNLIKELY(f->pollJumps && g_idleJumps >= f->pollJumps && f->state == FBlocked && f->why == WSleep)) { f->pollJumps = 0; f->deadline = (s64)g_now; recomputeDl(); } }
	if ((s64)g_now < g_nextDl) g_now = (u64)g_nextDl;
	wakeExpired();
}

static void maybeFaults(Fiber* f)
{
	if (g_grace || f->noFaults) return;
	if (g_cfg.spuriousOn)
	{
		u32 want = 0;
		if (!g_replaying && g_rf.oneIn(g_cfg.spuriousRate))
		{
			u32 cnt = 0, ids[MAXF];
			for (u32 i = 0; i < g_nlive; ++i) { Fiber* x = g_fib[g_live[i]]; if (x->state == FBlocked && x->why == WCond) ids[cnt++] = x->id; }
			if (cnt) want = ids[g_rf.below(cnt)] + 1;
		}
		if (g_replaying || want)
			if (u32 v = faultDecision(FKSpurious, f->id, f->n, want))
			{
				Fiber* x = v - 1 < g_nfib ? g_fib[v - 1] : NULL;
				if (x && x->state == FBlocked && x->why == WCond) { countFault("spurious-wakeup"); wake(x, 0); recomputeDl(); }
			}
	}
	if (g_cfg.stallsOn)
	{
		u32 want = !g_replaying && g_nextDl != INT64_MAX && g_nextDl - (s64)g_now <= 5000000000ll && g_stalledNs < 10000000000ull && g_rf.oneIn(g_cfg.stallRate);
		if (g_replaying || want)
			if (faultDecision(FKStall, f->id, f->n, want) && g_nextDl != INT64_MAX && (s64)g_now < g_nextDl)
			{
				countFault("stalled-threads");
				g_stalledNs += (u64)g_nextDl - g_now;
				g_now = (u64)g_nextDl;
				wakeExpired();
			}
	}
	if (g_cfg.jumpsOn)
	{
		u32 want = !g_replaying && g_rf.oneIn(g_cfg.jumpRate) ? 1 + g_rf.below(1000000) : 0;
		if (g_replaying || want)
			if (u32 v = faultDecision(FKJump, f->id, f->n, want))
			{
				countFault("clock-jump");
				s64 j = (s64)(v % 7200) * 1000000000ll;								// up to 2 h
				if (v & 1) j = -j;
				if (v % 5 == 0) j /= 1000;
				g_rtOff += j;
				recomputeDl(); wakeExpired();
			}
	}
}

static void point(Kind kind, u64 obj, u64 pc)
{
	Fiber* f = g_cur;
	if (!g_on || f->quiet) return;
	++f->n; ++g_steps; ++f->runLen;
	g_now += g_cfg.tick;
	u64 site = siteOf(f, pc);
	f->lastSite = site;
	hash(((u64)kind << 56) ^ ((u64)f->id << 48) ^ obj ^ (g_now << 8));
	if (UNLIKELY(g_steps > g_stepLimit))
	{
		if (!g_grace) { g_grace = true; g_graceSteps = g_steps + 800000; g_graceJumps = g_idleJumps + 3000; trace("GRACE"); }
		else if (g_steps > g_graceSteps) hang("no progress within the step bound, with fair scheduling and no faults");
	}
	if (UNLIKELY(g_trace) && kind != KMem && kind != KAtomic && kind != KClock) trace("%s %llx", g_kindNames[kind], (unsigned long long)obj);
	if ((s64)g_now >= g_nextDl) wakeExpired();
	if (g_cfg.faultsOn) maybeFaults(f);
	Fiber* o[MAXF]; u32 n = runnableOthers(f, o);
	if (!n) return;
	bool siteHit = g_cfg.policy == PolSites && site % (g_cfg.k ? g_cfg.k : 1) == g_cfg.d % (g_cfg.k ? g_cfg.k : 1);
	Fiber* t = decide(f, o, n, true, kind == KYield, siteHit);
	if (t != f)
	{
		++g_preempts;
		if (g_trace) trace("preempted -> T%u", t->id);
		switchTo(t);
	}
}

static int block(Why why, u64 obj, int dlKind, s64 deadline)
{
	Fiber* f = g_cur;
	f->state = FBlocked; f->why = why; f->wobj = obj; f->dlKind = dlKind; f->deadline = deadline; f->wres = 0;
	s64 e = expiry(f); if (e < g_nextDl) g_nextDl = e;
	if ((s64)g_now >= g_nextDl) wakeExpired();
	if (g_trace) trace("blocks on %s %llx", g_whyNames[why], (unsigned long long)obj);
	++f->n;
	for (;;)
	{
		Fiber* o[MAXF]; u32 n = runnableOthers(f, o);
		bool self = f->state == FRunnable;
		if (!n && self) break;
		if (!n) { advanceIdle(); continue; }
		Fiber* t = self ? decide(f, o, n, true, false, false) : decide(f, o, n, false, false, false);
		if (t != f) switchTo(t);
		break;
	}
	if (f->state != FRunnable) fail("internal", "woken while blocked", 0, StInternal);
	return f->wres;
}

static void wakeAllOn(u64 obj, Why why)
{
	for (u32 i = 0; i < g_nlive; ++i)
	{
		Fiber* f = g_fib[g_live[i]];
		if (f->state == FBlocked && f->wobj == obj && f->why == why) wake(f, 0);
	}
}

// ------------------------------------------------------------------ fiber creation

static void runKeyDtors(Fiber* f);

// pthread_cancel: as in glibc, the stack of the thread is unwound by force at the next cancellation point
static _Unwind_Reason_Code cancelStop(int, _Unwind_Action a, _Unwind_Exception_Class, _Unwind_Exception*, _Unwind_Context* ctx, void* arg)
{
	Fiber* f = (Fiber*)arg;
	if ((a & _UA_END_OF_STACK) || (u64)_Unwind_GetCFA(ctx) >= f->base) __builtin_longjmp(f->cancelJmp, 1);
	return _URC_NO_REASON;
}
static void cancelSwallowed(_Unwind_Reason_Code, _Unwind_Exception*) { fail("terminate", "the interruption of a thread was caught and not passed on", 0); }
static bool cancelDue() { Fiber* f = g_cur; return f->cancelPending && !f->cancelOff && !f->cancelling; }
static void cancelPoint()
{
	Fiber* f = g_cur;
	if (!g_on || !cancelDue()) return;
	f->cancelling = true; trace("is cancelled");
	f->cancelExc.exception_class = 0; f->cancelExc.exception_cleanup = &cancelSwallowed;
	_Unwind_ForcedUnwind(&f->cancelExc, &cancelStop, f);
	fail("internal", "the stack of a cancelled thread cannot be unwound", 0, StInternal);
}

static void __attribute__((noinline)) fiberBody(Fiber* f) { f->base = (u64)__builtin_dwarf_cfa(); f->ret = f->fn(f->arg); asm volatile ("" ::: "memory"); }
static void fiberMain()
{
	Fiber* volatile fv = g_cur; Fiber* f = fv;
	if (__builtin_setjmp(f->cancelJmp)) { f = fv; f->ret = PTHREAD_CANCELED; f->quiet = 0; f->noFaults = 0; }
	else
	try { fiberBody(f); }
	catch (const std::exception& ex) { static char m[1024]; snprintf(m, sizeof(m), "exception left a thread function: %.900s", ex.what()); fail("terminate", m, 0); }
	catch (...) { fail("terminate", "exception left a thread function", 0); }
	runKeyDtors(f);
	point(KExit, f->id, 0);
	trace("thread ends");
	f->state = FDone;
	f->why = WNone;
	for (u32 i = 0; i < g_nlive; ++i) if (g_live[i] == f->id) { for (u32 j = i; j + 1 < g_nlive; ++j) g_live[j] = g_live[j + 1]; --g_nlive; break; }
	wakeAllOn((u64)f, WJoin);
	++f->n;
	if (f->id == 1) finish(StOk);
	for (;;)
	{
		Fiber* o[MAXF]; u32 n = runnableOthers(f, o);
		if (!n) { advanceIdle(); continue; }
		switchTo(decide(f, o, n, false, false, false));
		break;
	}
	_exit(95);
}

static Fiber* newFiber(void* (*fn)(void*), void* arg, const char* name)
{
	if (g_nfib >= MAXF) fail("internal", "too many threads in one run", 0, StInternal);
	Fiber* f = (Fiber*)callocC(sizeof(Fiber));
	f->id = g_nfib; g_fib[g_nfib++] = f;
	f->fn = fn; f->arg = arg; f->name = name; f->state = FRunnable; f->dlKind = -1;
	f->vc = newVC();
	if (g_cur->vc) vcCopy(f->vc, g_cur->vc);
	f->vc->c[f->id] = 1;
	if (g_cur->vc) ++g_cur->vc->c[g_cur->id];
	f->tls = (char*)callocC(g_tlsSize + 16);
	__real_memcpy(f->tls, g_tlsImage, g_tlsInit);
	f->prio = (int)(g_replaying ? 0 : g_rs.below(1000000)) + 1;
	f->noFaults = 0;
	u64 base = ST_BASE + (u64)f->id * ST_ONE;
	mprotect((void*)base, 4096, PROT_NONE);
	u64* sp = (u64*)(base + ST_ONE - 64);
	*--sp = 0;																// alignment / fake return address
	*--sp = (u64)&fiberMain;
	for (int i = 0; i < 6; ++i) *--sp = 0;
	--sp; ((u32*)sp)[0] = 0x1f80; ((u32*)sp)[1] = 0x037f;
	f->sp = sp;
	g_live[g_nlive++] = f->id;
	return f;
}

// ------------------------------------------------------------------ configuration of a run

Config makeConfig(u64 seed, unsigned flags, bool thorough)
{
	Rng c = { mix(seed, 0xC0F1) };
	Config g; __real_memset(&g, 0, sizeof(g));
	static const u32 ticks[] = { 20, 200, 1000, 5000, 50000 };
	g.tick = ticks[c.below(5)];
	g.rtOffset = 1600000000000000000ull + (u64)c.below(1000000000);
	u32 pol = c.below(100);
	g.policy = pol < 35 ? PolRandom : pol < 60 ? PolPct : pol < 75 ? PolBounded : PolSites;
	static const u32 p1s[] = { 2, 3, 5, 10, 30 };
	g.p1 = p1s[c.below(5)];
	if (g.policy == PolSites) { static const u32 ps[] = { 10, 40, 200, 100000 }; g.p1 = ps[c.below(4)]; static const u32 ks[] = { 3, 7, 17, 41, 97 }; g.k = ks[c.below(5)]; g.d = c.below(g.k); }
	if (g.policy == PolPct || g.policy == PolBounded) { g.d = 1 + c.below(5); g.k = 64u << c.below(8); if (g.policy == PolBounded) g.d += c.below(6); }
	u32 mm = c.below(100);
	if (mm < 12) { g.memMod = 1; }
	else if (mm < 35) { static const u32 ms[] = { 5, 13, 37, 101 }; g.memMod = ms[c.below(4)]; g.memRem = c.below(g.memMod); }
	if (flags & sim::RaceSitesOnly) { g.memMod = 0; }
	g.faultsOn = c.below(100) >= 30;
	if (g.faultsOn)
	{
		g.stallsOn = !(flags & sim::NoStalls) && c.below(100) < 45; static const u32 sr[] = { 30, 100, 400, 1500 }; g.stallRate = sr[c.below(4)];
		g.spuriousOn = !(flags & sim::NoSpurious) && c.below(100) < 45; static const u32 pr[] = { 20, 100, 400, 1500 }; g.spuriousRate = pr[c.below(4)];
		g.eintrOn = !(flags & sim::NoEintr) && c.below(100) < 40; static const u32 er[] = { 20, 100, 400 }; g.eintrRate = er[c.below(3)];
		g.jumpsOn = !(flags & sim::NoClockJumps) && c.below(100) < 30; static const u32 jr[] = { 100, 500, 3000 }; g.jumpRate = jr[c.below(3)];
	}
	return g;
}

Scenario g_scenarios[64];
unsigned g_nscenarios = 0;

static int phdrCb(struct dl_phdr_info* info, size_t, void*)
{
	for (int i = 0; i < info->dlpi_phnum; ++i)
		if (info->dlpi_phdr[i].p_type == PT_TLS)
		{
			const ElfW(Phdr)& p = info->dlpi_phdr[i];
			u64 tp; asm("movq %%fs:0, %0" : "=r"(tp));
			u64 al = p.p_align ? p.p_align : 1;
			u64 off = (p.p_memsz + al - 1) & ~(al - 1);
			g_tlsAddr = (char*)(tp - off); g_tlsSize = p.p_memsz; g_tlsInit = p.p_filesz; g_tlsImage = (const char*)(info->dlpi_addr + p.p_vaddr);
		}
	return 1;																// the first object is the executable
}

static void onSignal(int sig, siginfo_t* si, void* uc)
{
	char m[160];
	u64 pc = (u64)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
	if (sig == SIGVTALRM) fail("livelock", "a thread keeps running without ever finishing (CPU bound)", pc);
	snprintf(m, sizeof(m), "signal %d (%s) at address %p", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "?", si->si_addr);
	u64 a = (u64)si->si_addr;
	if (sig == SIGSEGV && a - ST_BASE < ST_SIZE && (a - ST_BASE) % ST_ONE < 4096) fail("stack-overflow", m, pc);
	fail("crash", m, pc);
}

static void* rootMain(void* a) { ((Scenario*)a)->fn(); return NULL; }

void run(Scenario* s, u64 seed, const Replay* replay, Result* r, bool traceOn, bool wantRecords, bool thorough)
{
	g_res = r; g_scenario = s; g_trace = traceOn; g_wantRecords = wantRecords; g_thorough = thorough;
	r->status = StNone;
	__libc_single_threaded = 0;
	useSimHeap();
	if (!g_heapInit) heapInit();
	g_cptr = 0;
	mapFixed(ST_BASE, ST_SIZE);
	mapFixed(SHA_BASE, A_SIZE / 8 * CELLS * sizeof(Cell));
	mapFixed(SHST_BASE, ST_SIZE / 8 * CELLS * sizeof(Cell));
	g_gBase = (u64)&__data_start & ~7ull; g_gSize = (u64)&_end - g_gBase;
	mapFixed(SHG_BASE, (g_gSize / 8 + 2) * CELLS * sizeof(Cell));
	dl_iterate_phdr(&phdrCb, NULL);

	static char alt[32768];
	stack_t ss; __real_memset(&ss, 0, sizeof(ss)); ss.ss_sp = alt; ss.ss_size = sizeof(alt); sigaltstack(&ss, NULL);
	struct sigaction sa; __real_memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = &onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM };
	for (int sg : sigs) sigaction(sg, &sa, NULL);
	struct itimerval it; __real_memset(&it, 0, sizeof(it)); it.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &it, NULL);
	alarm(120);

	g_rw.s = mix(seed, 0x3031); g_rs.s = mix(seed, 0x3032); g_rf.s = mix(seed, 0x3033); g_faultSalt = mix(seed, 0x3034);
	if (replay)
	{
		g_replaying = true; g_replay = replay; g_cfg = replay->cfg;
		mapInit(g_smap, g_smapCap, replay->nS);
		for (u32 i = 0; i < replay->nS; ++i) mapPut(g_smap, g_smapCap, sKey(replay->S[i].fid, replay->S[i].n), replay->S[i].val);
		mapInit(g_fmap, g_fmapCap, replay->nF);
		for (u32 i = 0; i < replay->nF; ++i) mapPut(g_fmap, g_fmapCap, fKey(replay->F[i].kind, replay->F[i].fid, replay->F[i].n), replay->F[i].val);
	}
	else
	{
		g_cfg = makeConfig(seed, s->flags, thorough);
		if (g_cfg.policy == PolPct || g_cfg.policy == PolBounded)
			for (u32 i = 0; i < g_cfg.d && i < 64; ++i) g_pctPoints[g_npct++] = 1 + g_rs.below(g_cfg.k);
	}
	g_rtOff = (s64)g_cfg.rtOffset - 1000000000000ll;
	g_races = !(s->flags & sim::NoRaces);
	g_main0.vc = newVC(); g_main0.vc->c[0] = 1; g_fib[0] = &g_main0; g_main0.name = "driver"; g_main0.state = FDone;
	g_main0.tls = (char*)callocC(g_tlsSize + 16);
	Fiber* f = newFiber(&rootMain, s, "root");
	g_on = true;
	__real_memcpy(g_main0.tls, g_tlsAddr, g_tlsSize);
	g_cur = f;
	__real_memcpy(g_tlsAddr, f->tls, g_tlsSize);
	sim_switch(&g_main0.sp, f->sp);
	_exit(94);
}

} // namespace rt

using namespace rt;

// ------------------------------------------------------------------ harness API

namespace sim
{
	uint32_t W(uint32_t n)
	{
		if (n <= 1) return 0;
		u32 v;
		if (g_replaying) v = g_wIdx < g_replay->nW ? g_replay->W[g_wIdx] % n : 0;
		else { v = g_rw.below(n); g_recW.push(v); }
		++g_wIdx;
		hash(v + 77);
		return v;
	}

	static u32 kindHash(const char* k) { u32 h = 2166136261u; for (; *k; ++k) h = (h ^ (u8)*k) * 16777619u; return h | 0x80000000u; }

	static uint32_t faultDraw(const char* kind, uint32_t want0)
	{
		Fiber* f = g_cur;
		u32 n = f->fn_n++;
		u32 kh = kindHash(kind);
		bool kindOn = mix(g_faultSalt, kh) % 100 < 65;
		return faultDecision(kh, f->id, n, kindOn ? want0 : 0);
	}

	bool fault(const char* kind, unsigned permille)
	{
		if (!g_on || !g_cfg.faultsOn || g_grace || g_cur->noFaults) return false;
		u32 want = !g_replaying && g_rf.permille(permille) ? 1 : 0;
		if (!faultDraw(kind, want)) return false;
		countFault(kind);
		hash(0xfa17);
		return true;
	}

	uint32_t faultValue(const char* kind, uint32_t n)
	{
		if (!g_on || !g_cfg.faultsOn || g_grace || n <= 1 || g_cur->noFaults) return 0;
		u32 want = g_replaying ? 0 : g_rf.below(n);
		u32 v = faultDecision(kindHash(kind), g_cur->id, g_cur->fn_n++, want) % n;
		hash(v);
		return v;
	}

	bool faultsEnabled() { return g_cfg.faultsOn; }
	bool stallsEnabled() { return g_cfg.stallsOn; }
	bool clockJumpsEnabled() { return g_cfg.jumpsOn; }
	AllocFaults::AllocFaults(unsigned permille) : _prev(g_cur->allocPermille) { g_cur->allocPermille = g_cfg.faultsOn ? permille : 0; }
	AllocFaults::~AllocFaults() { g_cur->allocPermille = _prev; }
	uint64_t nowNs() { return g_now - 1000000000000ull; }
	void hbRelease(const void* key) { rt::releaseJoin((uint64_t)key ^ 0x4000000000000000ull); }
	void hbAcquire(const void* key) { if (rt::g_on) rt::acquire((uint64_t)key ^ 0x4000000000000000ull); }
	uint64_t seq() { return ++g_seq; }
	int self() { return (int)g_cur->id; }
	void probe(const char* name0) { char name[NameLen]; strcpyN(name, name0, NameLen); for (char* c = name; *c; ++c) if (*c == ' ') *c = '-'; bump(g_res->probes, g_nprobes, name); g_res->nprobes = g_nprobes; }
	void note(const char* fmt, ...)
	{
		char b[768];
		va_list ap; va_start(ap, fmt);
		vsnprintf(b, sizeof(b), fmt, ap);
		va_end(ap);
		u64 h = 0; for (const char* p = b; *p; ++p) h = h * 131 + (u8)*p;
		hash(h);
		trace("%s", b);
	}
	void violation(const char* cls, const std::string& msg) { fail(cls, msg.c_str(), CALLER); }
	void point() { rt::point(KUser, 0, CALLER); }
	void sleepUs(uint64_t us) { if (g_on) { rt::point(KSleep, 0, CALLER); block(WSleep, 0, CLOCK_MONOTONIC, (s64)(g_now + us * 1000)); recomputeDl(); } }
	void setDaemonOk() { }
	void setStepLimit(uint64_t steps) { g_stepLimit = steps; }
	void setRaceDetection(bool on) { g_races = on; }
	bool thoroughTier() { return g_thorough; }
	Quiet::Quiet() { ++g_cur->quiet; }
	Quiet::~Quiet() { --g_cur->quiet; }
	NoFaults::NoFaults() { ++g_cur->noFaults; }
	NoFaults::~NoFaults() { --g_cur->noFaults; }

	static void* clientMain(void* p)
	{
		std::function<void ()>* f = (std::function<void ()>*)p;
		(*f)();
		delete f;
		return NULL;
	}

	static void joinFiber(Fiber* t)
	{
		rt::point(KJoin, t->id, CALLER);
		while (t->state != FDone) block(WJoin, (u64)t, -1, 0);
		if (g_on) vcJoin(g_cur->vc, t->vc);
	}

	Client::Client(const std::function<void ()>& f, const char* name) : _id(0)
	{
		std::function<void ()>* p = new std::function<void ()>(f);
		Fiber* t = newFiber(&clientMain, p, name);
		t->harness = true;
		_id = (int)t->id;
		trace("starts client T%u (%s)", t->id, name);
		rt::point(KCreate, t->id, CALLER);
	}
	Client::~Client() { Join(); }
	void Client::Join() { if (_id) { joinFiber(g_fib[_id]); } }
	bool Client::Done() const { return g_fib[_id]->state == FDone; }
	bool Client::Blocked() const { return g_fib[_id]->state == FBlocked; }

	bool waitFor(const std::function<bool ()>& pred, uint64_t timeoutUs, uint64_t stepUs)
	{
		u64 end = g_now + timeoutUs * 1000;
		u64 step = stepUs, maxStep = timeoutUs / 300 > stepUs ? timeoutUs / 300 : stepUs;
		bool grace = false;
		for (;;)
		{
			bool r; { Quiet q; r = pred(); }
			if (r) return true;
			if (g_now >= end)
			{
				// faults stop and scheduling becomes fair; the same bound again
				if (grace) return false;
				grace = true;
				if (!g_grace) { g_grace = true; g_graceSteps = g_steps + 400000; g_graceJumps = g_idleJumps + 6000; trace("GRACE"); }
				end = g_now + timeoutUs * 1000; step = stepUs;
			}
			g_cur->pollJumps = g_idleJumps + 300; sleepUs(step); g_cur->pollJumps = 0;	// (others may tick often meanwhile: do not oversleep what is waited for)
			step += step / 4; if (step > maxStep) step = maxStep;
		}
	}

	Registrar::Registrar(const char* name, unsigned weight, ScenarioFn fn, unsigned flags)
	{ Scenario s = { name, weight, fn, flags }; g_scenarios[g_nscenarios++] = s; }
}

// ------------------------------------------------------------------ instrumentation entry points

EXPORT void __tsan_init() { }
EXPORT void __tsan_func_entry(void* pc) { if (g_on) { Fiber* f = g_cur; if (f->csn < 512) f->cs[f->csn] = (u64)pc; ++f->csn; if (UNLIKELY(f->csn > 20000)) fail("stack-overflow", "unbounded recursion", (u64)pc); } }
EXPORT void __tsan_func_exit() { if (g_on) { Fiber* f = g_cur; if (f->csn) --f->csn; } }
#define RW(n) \
	EXPORT void __tsan_read##n(void* p) { access((u64)p, n, 0, CALLER); } \
	EXPORT void __tsan_write##n(void* p) { access((u64)p, n, 1, CALLER); } \
	EXPORT void __tsan_unaligned_read##n(void* p) { access((u64)p, n, 0, CALLER); } \
	EXPORT void __tsan_unaligned_write##n(void* p) { access((u64)p, n, 1, CALLER); } \
	EXPORT void __tsan_volatile_read##n(void* p) { access((u64)p, n, 0, CALLER); } \
	EXPORT void __tsan_volatile_write##n(void* p) { access((u64)p, n, 1, CALLER); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, size_t n) { access((u64)p, n, 0, CALLER); }
EXPORT void __tsan_write_range(void* p, size_t n) { access((u64)p, n, 1, CALLER); }
EXPORT void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((u64)p, 8, 1, CALLER); }
EXPORT void __tsan_vptr_read(void** p) { access((u64)p, 8, 0, CALLER); }

static inline void atomPre(void* p, u64 size, bool w, u64 pc)
{
	if (!g_on || g_cur->quiet) return;
	if (inA((u64)p)) checkHeap((u64)p, size, w, pc);
	point(KAtomic, (u64)p, pc);
	access((u64)p, size, (w ? 1 : 0) | 2, pc);
}
static inline bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void atomRmw(void* p, int mo) { if (!g_on) return; mo &= 0x7fff; if (isAcq(mo)) acquire((u64)p); if (isRel(mo)) releaseJoin((u64)p); }

#define ATOMS(B, T) \
	EXPORT T __tsan_atomic##B##_load(const volatile T* a, int mo) { atomPre((void*)a, sizeof(T), false, CALLER); T v = *a; if (isAcq(mo & 0x7fff) && g_on) acquire((u64)a); return v; } \
	EXPORT void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { atomPre((void*)a, sizeof(T), true, CALLER); *a = v; if (g_on) { if (isRel(mo & 0x7fff)) releaseStore((u64)a); else syncClear((u64)a); } } \
	EXPORT T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { atomPre((void*)a, sizeof(T), true, CALLER); T o = *a; *a = v; atomRmw((void*)a, mo); return o; } \
	EXPORT T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { atomPre((void*)a, sizeof(T), true, CALLER); T o = *a; *a = o + v; atomRmw((void*)a, mo); return o; } \
	EXPORT T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { atomPre((void*)a, sizeof(T), true, CALLER); T o = *a; *a = o - v; atomRmw((void*)a, mo); return o; } \
	EXPORT T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { atomPre((void*)a, sizeof(T), true, CALLER); T o = *a; *a = o & v; atomRmw((void*)a, mo); return o; } \
	EXPORT T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { atomPre((void*)a, sizeof(T), true, CALLER); T o = *a; *a = o | v; atomRmw((void*)a, mo); return o; } \
	EXPORT T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { atomPre((void*)a, sizeof(T), true, CALLER); T o = *a; *a = o ^ v; atomRmw((void*)a, mo); return o; } \
	EXPORT T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { atomPre((void*)a, sizeof(T), true, CALLER); T o = *a; *a = ~(o & v); atomRmw((void*)a, mo); return o; } \
	EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { atomPre((void*)a, sizeof(T), true, CALLER); T o = *a; if (o == *c) { *a = v; atomRmw((void*)a, mo); return 1; } *c = o; if (isAcq(fmo & 0x7fff) && g_on) acquire((u64)a); return 0; } \
	EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { atomPre((void*)a, sizeof(T), true, CALLER); T o = *a; if (o == *c) { *a = v; atomRmw((void*)a, mo); return 1; } *c = o; if (isAcq(fmo & 0x7fff) && g_on) acquire((u64)a); return 0; } \
	EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { atomPre((void*)a, sizeof(T), true, CALLER); T o = *a; if (o == c) { *a = v; atomRmw((void*)a, mo); } else if (isAcq(fmo & 0x7fff) && g_on) acquire((u64)a); return o; }
ATOMS(8, uint8_t) ATOMS(16, uint16_t) ATOMS(32, uint32_t) ATOMS(64, uint64_t)
static const u64 FENCE_KEY = 0x5;
EXPORT void __tsan_atomic_thread_fence(int) { if (!g_on) return; point(KAtomic, 0, CALLER); acquire(FENCE_KEY); releaseJoin(FENCE_KEY); }
EXPORT void __tsan_atomic_signal_fence(int) { }

extern "C" void* __wrap_memcpy(void* d, const void* s, size_t n) { if (g_on && n) { access((u64)s, n, 0, CALLER); access((u64)d, n, 1, CALLER); } return __real_memcpy(d, s, n); }
extern "C" void* __wrap_memmove(void* d, const void* s, size_t n) { if (g_on && n) { access((u64)s, n, 0, CALLER); access((u64)d, n, 1, CALLER); } return __real_memmove(d, s, n); }
extern "C" void* __wrap_memset(void* d, int c, size_t n) { if (g_on && n) access((u64)d, n, 1, CALLER); return __real_memset(d, c, n); }
extern "C" int __wrap_memcmp(const void* a, const void* b, size_t n) { return __real_memcmp(a, b, n); }

// ------------------------------------------------------------------ heap entry points

EXPORT void* malloc(size_t n)
{
	void* p = alloc(n, 16);
	if (g_on && p) __real_memset(p, 0xCB, n);
	return p;
}
EXPORT void free(void* p) { freeAny(p, CALLER); }
EXPORT void* calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) return NULL; void* p = alloc(a * b, 16); if (p) __real_memset(p, 0, a * b); return p; }
EXPORT void* realloc(void* o, size_t n)
{
	if (!o) return malloc(n);
	if (!n) { free(o); return NULL; }
	Hdr* h = (Hdr*)((u64)o - sizeof(Hdr));
	void* p = alloc(n, 16);
	if (!p) return NULL;
	__real_memcpy(p, o, h->size < n ? h->size : n);
	freeAny(o, CALLER);
	return p;
}
EXPORT int posix_memalign(void** out, size_t al, size_t n) { void* p = alloc(n, al); if (!p) return ENOMEM; *out = p; return 0; }
EXPORT void* aligned_alloc(size_t al, size_t n) { return alloc(n, al); }
EXPORT void* memalign(size_t al, size_t n) { return alloc(n, al); }
EXPORT size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((u64)p - sizeof(Hdr)))->size : 0; }

static void* opNew(size_t n, size_t al)
{
	Fiber* f = g_cur;
	if (UNLIKELY(f->allocPermille) && g_on && !f->quiet && !g_grace && !f->noFaults && !std::uncaught_exception())
	{
		u32 want = !g_replaying && mix(g_faultSalt, 0xA110C) % 100 < 65 && g_rf.permille(f->allocPermille) ? 1 : 0;
		u32 k = f->fn_n++;
		if ((want || g_replaying) && faultDecision(FKAlloc, f->id, k, want)) { f->allocPermille = 0; countFault("bad-alloc"); throw std::bad_alloc(); }
	}
	void* p = alloc(n ? n : 1, al);
	if (!p) throw std::bad_alloc();
	if (g_on) __real_memset(p, 0xCB, n);
	return p;
}
void* operator new(size_t n) { return opNew(n, 16); }
void* operator new[](size_t n) { return opNew(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return opNew(n, 16); } catch (...) { return NULL; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return opNew(n, 16); } catch (...) { return NULL; } }
void operator delete(void* p) noexcept { freeAny(p, CALLER); }
void operator delete[](void* p) noexcept { freeAny(p, CALLER); }
void operator delete(void* p, size_t) noexcept { freeAny(p, CALLER); }
void operator delete[](void* p, size_t) noexcept { freeAny(p, CALLER); }
void operator delete(void* p, const std::nothrow_t&) noexcept { freeAny(p, CALLER); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { freeAny(p, CALLER); }

extern "C" void* __real___cxa_allocate_exception(size_t n);
extern "C" void* __wrap___cxa_allocate_exception(size_t n)
{
	void* p = __real___cxa_allocate_exception(n);
	// reference counts of exception objects are handled inside libstdc++, which is not instrumented
	if (inA((u64)p)) { u8* st = stateOf((u64)p); for (size_t i = 0; i < (n + 7) / 8; ++i) if (st[i] && st[i] != GFreed) st[i] |= 0x20; }
	return p;
}

// ------------------------------------------------------------------ pthread

#define MD(m) ((m)->__data)
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	int kind = a ? (*(const int*)a & 3) : 0;
	__real_memset(m, 0, sizeof(*m));
	MD(m).__kind = kind;
	if (g_on) syncClear((u64)m);
	return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m)
{
	if (g_on && !g_cur->quiet)
	{
		checkSyncObj((u64)m, CALLER);
		if (MD(m).__owner && MD(m).__owner != VT_BASE + (int)g_cur->id) fail("mutex-destroyed-locked", "a mutex is destroyed while another thread holds it", CALLER);
	}
	return 0;
}
static bool mutexTake(pthread_mutex_t* m)
{
	int me = VT_BASE + (int)g_cur->id;
	if (MD(m).__owner == 0) { MD(m).__owner = me; MD(m).__count = 1; MD(m).__lock = 1; acquire((u64)m); return true; }
	if (MD(m).__owner == me && MD(m).__kind == PTHREAD_MUTEX_RECURSIVE) { ++MD(m).__count; return true; }
	return false;
}
static int mutexLock(pthread_mutex_t* m, int clk, s64 dl, u64 pc, bool pt = true)
{
	if (pt) point(KLock, (u64)m, pc);
	for (;;)
	{
		checkSyncObj((u64)m, pc);
		if (mutexTake(m)) return 0;
		if (MD(m).__owner == VT_BASE + (int)g_cur->id && MD(m).__kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
		if (!g_on || g_cur->quiet) fail("internal", "mutex contention outside of the simulation", pc, StInternal);
		if (clk >= 0 && clockOf(clk) >= dl) return ETIMEDOUT;
		int r = block(WMutex, (u64)m, clk, dl);
		if (r == ETIMEDOUT) { recomputeDl(); if (MD(m).__owner) return ETIMEDOUT; }
	}
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { return mutexLock(m, -1, 0, CALLER); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m)
{
	point(KTry, (u64)m, CALLER);
	checkSyncObj((u64)m, CALLER);
	return mutexTake(m) ? 0 : EBUSY;
}
// times that no clock reaches are cut
static s64 toNs(const struct timespec* t) { return t->tv_sec > 4000000000ll ? 4000000000000000000ll : (s64)t->tv_sec * 1000000000ll + t->tv_nsec; }
// a lock that timed out is only reported as a possible deadlock by the code: running out of memory in that report is not one of the faults simulated
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { int r = mutexLock(m, CLOCK_REALTIME, toNs(t), CALLER); if (r == ETIMEDOUT) g_cur->allocPermille = 0; return r; }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) { return mutexLock(m, c, toNs(t), CALLER); }
// the waiter of a mutex which follows the current fiber cyclically
static Fiber* nextWaiter(u64 m)
{
	Fiber* best = NULL; u32 bd = ~0u;
	for (u32 i = 0; i < g_nlive; ++i)
	{
		Fiber* x = g_fib[g_live[i]];
		if (x->state != FBlocked || x->why != WMutex || x->wobj != m) continue;
		u32 d = (x->id - g_cur->id) & 0xffff;
		if (d < bd) { bd = d; best = x; }
	}
	return best;
}

static int mutexUnlock(pthread_mutex_t* m, u64 pc, bool pt)
{
	checkSyncObj((u64)m, pc);
	if (MD(m).__owner != VT_BASE + (int)g_cur->id) return EPERM;
	if (--MD(m).__count) return 0;
	releaseStore((u64)m);
	MD(m).__owner = 0; MD(m).__lock = 0;
	if (g_on) { if (g_grace && pt) g_handTo = nextWaiter((u64)m); wakeAllOn((u64)m, WMutex); if (pt) point(KUnlock, (u64)m, pc); }
	return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) { return mutexUnlock(m, CALLER, true); }

// rwlocks, for code that may use them
struct RwState { int readers, writer, waiters; };
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { __real_memset(l, 0, sizeof(*l)); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) { RwState* s = (RwState*)l; point(KLock, (u64)l, CALLER); while (s->writer) block(WRw, (u64)l, -1, 0); ++s->readers; acquire((u64)l); return 0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) { RwState* s = (RwState*)l; point(KLock, (u64)l, CALLER); while (s->writer || s->readers) block(WRw, (u64)l, -1, 0); s->writer = 1; acquire((u64)l); return 0; }
static int rwTimed(pthread_rwlock_t* l, bool write, clockid_t clk, const struct timespec* t, u64 pc)
{
	RwState* s = (RwState*)l;
	point(KLock, (u64)l, pc);
	while (s->writer || (write && s->readers))
	{
		if (clockOf(clk) >= toNs(t)) return ETIMEDOUT;
		if (block(WRw, (u64)l, clk, toNs(t)) == ETIMEDOUT) { recomputeDl(); if (s->writer || (write && s->readers)) return ETIMEDOUT; }
	}
	if (write) s->writer = 1; else ++s->readers;
	acquire((u64)l);
	return 0;
}
EXPORT int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* t) { return rwTimed(l, false, CLOCK_REALTIME, t, CALLER); }
EXPORT int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* t) { return rwTimed(l, true, CLOCK_REALTIME, t, CALLER); }
EXPORT int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t) { return rwTimed(l, false, c, t, CALLER); }
EXPORT int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t) { return rwTimed(l, true, c, t, CALLER); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { RwState* s = (RwState*)l; point(KTry, (u64)l, CALLER); if (s->writer) return EBUSY; ++s->readers; acquire((u64)l); return 0; }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { RwState* s = (RwState*)l; point(KTry, (u64)l, CALLER); if (s->writer || s->readers) return EBUSY; s->writer = 1; acquire((u64)l); return 0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) { RwState* s = (RwState*)l; releaseJoin((u64)l); if (s->writer) s->writer = 0; else --s->readers; if (g_on) { wakeAllOn((u64)l, WRw); point(KUnlock, (u64)l, CALLER); } return 0; }
EXPORT int pthread_spin_init(pthread_spinlock_t* l, int) { *(volatile int*)l = 0; return 0; }
EXPORT int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
EXPORT int pthread_spin_lock(pthread_spinlock_t* l) { point(KLock, (u64)l, CALLER); while (*(volatile int*)l) block(WRw, (u64)l, -1, 0); *(volatile int*)l = 1; acquire((u64)l); return 0; }
EXPORT int pthread_spin_trylock(pthread_spinlock_t* l) { point(KTry, (u64)l, CALLER); if (*(volatile int*)l) return EBUSY; *(volatile int*)l = 1; acquire((u64)l); return 0; }
EXPORT int pthread_spin_unlock(pthread_spinlock_t* l) { releaseStore((u64)l); *(volatile int*)l = 0; if (g_on) { wakeAllOn((u64)l, WRw); point(KUnlock, (u64)l, CALLER); } return 0; }

struct CondState { int clock; int waiters; };
EXPORT int pthread_condattr_init(pthread_condattr_t* a) { *(int*)a = CLOCK_REALTIME; return 0; }
EXPORT int pthread_condattr_destroy(pthread_condattr_t*) { return 0; }
EXPORT int pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) { *(int*)a = c; return 0; }
EXPORT int pthread_condattr_getclock(const pthread_condattr_t* a, clockid_t* c) { *c = *(const int*)a; return 0; }
EXPORT int pthread_condattr_setpshared(pthread_condattr_t*, int) { return 0; }
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { __real_memset(c, 0, sizeof(*c)); ((CondState*)c)->clock = a ? *(const int*)a : CLOCK_REALTIME; return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t* c)
{
	if (g_on && !g_cur->quiet)
	{
		checkSyncObj((u64)c, CALLER);
		for (u32 i = 0; i < g_nlive; ++i)
			if (g_fib[g_live[i]]->state == FBlocked && g_fib[g_live[i]]->wobj == (u64)c) fail("cond-destroyed-in-use", "a condition variable is destroyed while a thread waits on it", CALLER);
	}
	return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int clk, s64 dl, u64 pc)
{
	point(KCondWait, (u64)c, pc);
	checkSyncObj((u64)c, pc); checkSyncObj((u64)m, pc);
	if (MD(m).__owner != VT_BASE + (int)g_cur->id) return EPERM;
	if (!g_on) fail("internal", "condition wait outside of the simulation", pc, StInternal);
	unsigned count = MD(m).__count;
	MD(m).__count = 1;
	if (clk >= 0 && clockOf(clk) >= dl)
	{
		mutexUnlock(m, pc, true);
		mutexLock(m, -1, 0, pc);
		MD(m).__count = count;
		cancelPoint();
		return ETIMEDOUT;
	}
	// enqueue and unlock atomically
	releaseStore((u64)m);
	MD(m).__owner = 0; MD(m).__lock = 0; MD(m).__count = 0;
	wakeAllOn((u64)m, WMutex);
	int r = cancelDue() ? 0 : block(WCond, (u64)c, clk, dl);
	if (r == ETIMEDOUT) recomputeDl();
	int lr = mutexLock(m, -1, 0, pc);
	(void)lr;
	MD(m).__count = count;
	cancelPoint();
	return r;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, -1, 0, CALLER); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{ if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL; return condWait(c, m, ((CondState*)c)->clock, toNs(t), CALLER); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* t) { return condWait(c, m, clk, toNs(t), CALLER); }
EXPORT int pthread_cond_broadcast(pthread_cond_t* c)
{
	checkSyncObj((u64)c, CALLER);
	point(KBroadcast, (u64)c, CALLER);
	checkSyncObj((u64)c, CALLER);
	if (g_on) wakeAllOn((u64)c, WCond);
	return 0;
}
EXPORT int pthread_cond_signal(pthread_cond_t* c)
{
	checkSyncObj((u64)c, CALLER);
	point(KSignal, (u64)c, CALLER);
	if (!g_on) return 0;
	Fiber* w[MAXF]; u32 n = 0;
	for (u32 i = 0; i < g_nlive; ++i) { Fiber* f = g_fib[g_live[i]]; if (f->state == FBlocked && f->why == WCond && f->wobj == (u64)c) w[n++] = f; }
	if (!n) return 0;
	u32 pick = 0;
	++g_cur->n;
	if (n > 1)
	{
		if (g_replaying) { u32 v; if (mapGet(g_smap, g_smapCap, sKey(g_cur->id, g_cur->n), v)) pick = v % n; }
		else { pick = g_rs.below(n); if (pick) { SRec r = { g_cur->id, g_cur->n, pick }; g_recS.push(r); } }
	}
	wake(w[pick], 0);
	return 0;
}

EXPORT int sem_init(sem_t* s, int, unsigned v) { __real_memset(s, 0, sizeof(*s)); *(int*)s = (int)v; if (g_on) syncClear((u64)s); return 0; }
EXPORT int sem_destroy(sem_t* s)
{
	if (g_on && !g_cur->quiet)
	{
		checkSyncObj((u64)s, CALLER);
		for (u32 i = 0; i < g_nlive; ++i)
			if (g_fib[g_live[i]]->state == FBlocked && g_fib[g_live[i]]->wobj == (u64)s) fail("sem-destroyed-in-use", "a semaphore is destroyed while a thread waits on it", CALLER);
	}
	return 0;
}
static bool eintr(bool enabled = true)
{
	Fiber* f = g_cur;
	if (!enabled || !g_on || !g_cfg.eintrOn || g_grace || f->noFaults) return false;
	u32 want = !g_replaying && g_rf.permille(g_cfg.eintrRate) ? 1 : 0;
	u32 k = f->fn_n++;
	if (!faultDecision(FKEintr, f->id, k, want)) return false;
	countFault("eintr");
	errno = EINTR;
	return true;
}
static int semWait(sem_t* s, int clk, s64 dl, u64 pc)
{
	point(KSemWait, (u64)s, pc);
	cancelPoint();
	for (;;)
	{
		checkSyncObj((u64)s, pc);
		if (*(int*)s > 0) { --*(int*)s; acquire((u64)s); return 0; }
		if (eintr()) return -1;
		if (clk >= 0 && clockOf(clk) >= dl) { errno = ETIMEDOUT; return -1; }
		cancelPoint();
		int r = block(WSem, (u64)s, clk, dl);
		cancelPoint();
		if (r == ETIMEDOUT) { recomputeDl(); if (*(int*)s <= 0) { errno = ETIMEDOUT; return -1; } }
	}
}
EXPORT int sem_wait(sem_t* s) { return semWait(s, -1, 0, CALLER); }
EXPORT int sem_timedwait(sem_t* s, const struct timespec* t) { if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { errno = EINVAL; return -1; } return semWait(s, CLOCK_REALTIME, toNs(t), CALLER); }
EXPORT int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) { return semWait(s, c, toNs(t), CALLER); }
EXPORT int sem_trywait(sem_t* s) { point(KTry, (u64)s, CALLER); if (*(int*)s > 0) { --*(int*)s; acquire((u64)s); return 0; } errno = EAGAIN; return -1; }
EXPORT int sem_post(sem_t* s)
{
	checkSyncObj((u64)s, CALLER);
	point(KSemPost, (u64)s, CALLER);
	checkSyncObj((u64)s, CALLER);
	releaseJoin((u64)s);
	++*(int*)s;
	if (g_on) wakeAllOn((u64)s, WSem);
	return 0;
}
EXPORT int sem_getvalue(sem_t* s, int* v) { *v = *(int*)s; return 0; }

static Fiber* fiberOf(pthread_t t) { return (Fiber*)t; }
EXPORT int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	if (!g_on) fail("internal", "thread created outside of the simulation", CALLER, StInternal);
	Fiber* f = newFiber(fn, arg, "thread");
	int ds = 0;
	if (a && pthread_attr_getdetachstate(a, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) f->detached = true;
	*t = (pthread_t)f;
	trace("creates T%u", f->id);
	point(KCreate, f->id, CALLER);
	return 0;
}
EXPORT int pthread_join(pthread_t t, void** r)
{
	Fiber* f = fiberOf(t);
	point(KJoin, f->id, CALLER);
	if (f->joined || f->detached) fail("bad-thread-handle", f->joined ? "thread joined twice" : "detached thread joined", CALLER);
	f->joined = true;
	while (f->state != FDone) { block(WJoin, (u64)f, -1, 0); if (f->state != FDone && cancelDue()) { f->joined = false; cancelPoint(); } }
	if (g_on) vcJoin(g_cur->vc, f->vc);
	if (r) *r = f->ret;
	return 0;
}
EXPORT int pthread_detach(pthread_t t) { fiberOf(t)->detached = true; return 0; }
EXPORT pthread_t pthread_self() { return (pthread_t)g_cur; }
EXPORT int pthread_setname_np(pthread_t, const char*) { return 0; }
EXPORT int pthread_cancel(pthread_t t)
{
	Fiber* f = fiberOf(t);
	point(KUser, 0, CALLER);
	if (g_on && f->joined && f->state == FDone) fail("bad-thread-handle", "a thread that was joined already is cancelled", CALLER);
	if (f->state == FDone || !g_on) return ESRCH;
	f->cancelPending = true;
	if (f->state == FBlocked && !f->cancelOff && !f->cancelling && ((f->why == WSleep && f->wobj) || f->why == WCond || f->why == WSem || f->why == WJoin)) wake(f, 0);
	return 0;
}
EXPORT int pthread_setcancelstate(int n, int* o)
{
	if (n != PTHREAD_CANCEL_ENABLE && n != PTHREAD_CANCEL_DISABLE) return EINVAL;
	point(KUser, 0, CALLER);
	Fiber* f = g_cur;
	if (o) *o = f->cancelOff ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
	f->cancelOff = n == PTHREAD_CANCEL_DISABLE;
	return 0;
}
EXPORT int pthread_setcanceltype(int, int* o) { if (o) *o = PTHREAD_CANCEL_DEFERRED; return 0; }
EXPORT void pthread_testcancel() { point(KUser, 0, CALLER); cancelPoint(); }
EXPORT int pthread_getschedparam(pthread_t, int* p, struct sched_param* s) { *p = SCHED_OTHER; s->sched_priority = 0; return 0; }
EXPORT int pthread_setschedparam(pthread_t, int, const struct sched_param*) { return 0; }
EXPORT int pthread_kill(pthread_t t, int)
{
	Fiber* f = fiberOf(t);
	point(KUser, 0, CALLER);
	if (g_on && f->joined && f->state == FDone) fail("bad-thread-handle", "signal sent to a thread that was joined already", CALLER);
	return f->state == FDone ? ESRCH : 0;
}
EXPORT int pthread_sigmask(int, const sigset_t*, sigset_t*) { return 0; }
EXPORT int sched_yield() { point(KYield, 0, CALLER); return 0; }

EXPORT int pthread_once(pthread_once_t* o, void (*fn)())
{
	volatile int* s = (volatile int*)o;										// 0 new, 1 running, 2 done
	point(KOnce, (u64)o, CALLER);
	for (;;)
	{
		if (*s == 2) { acquire((u64)o); return 0; }
		if (*s == 0) break;
		block(WOnce, (u64)o, -1, 0);
	}
	*s = 1;
	try { fn(); }
	catch (...) { *s = 0; if (g_on) { releaseStore((u64)o); wakeAllOn((u64)o, WOnce); } throw; }
	releaseStore((u64)o);
	*s = 2;
	if (g_on) { wakeAllOn((u64)o, WOnce); point(KOnce, (u64)o, CALLER); }
	return 0;
}

extern "C" int __cxa_guard_acquire(uint64_t* g)
{
	volatile u8* b = (volatile u8*)g;
	point(KGuard, (u64)g, CALLER);
	for (;;)
	{
		if (b[0]) { acquire((u64)g); return 0; }
		if (!b[1]) { b[1] = 1; return 1; }
		if (!g_on) fail("internal", "recursive static initialisation", CALLER, StInternal);
		block(WGuard, (u64)g, -1, 0);
	}
}
extern "C" void __cxa_guard_release(uint64_t* g)
{
	volatile u8* b = (volatile u8*)g;
	releaseStore((u64)g);
	b[1] = 0; b[0] = 1;
	if (g_on) { wakeAllOn((u64)g, WGuard); point(KGuard, (u64)g, CALLER); }
}
extern "C" void __cxa_guard_abort(uint64_t* g)
{
	volatile u8* b = (volatile u8*)g;
	releaseStore((u64)g);
	b[1] = 0;
	if (g_on) { wakeAllOn((u64)g, WGuard); point(KGuard, (u64)g, CALLER); }
}

static void (*g_keyDtor[64])(void*); static bool g_keyUsed[64];
EXPORT int pthread_key_create(pthread_key_t* k, void (*d)(void*))
{
	for (u32 i = 1; i < 64; ++i)
		if (!g_keyUsed[i])
		{
			g_keyUsed[i] = true; g_keyDtor[i] = d; *k = i;
			g_main0.keys[i] = NULL;
			for (u32 j = 0; j < g_nfib; ++j) if (g_fib[j]) g_fib[j]->keys[i] = NULL;
			return 0;
		}
	return EAGAIN;
}
EXPORT int pthread_key_delete(pthread_key_t k) { if (k < 64) g_keyUsed[k] = false; return 0; }
EXPORT void* pthread_getspecific(pthread_key_t k) { return k < 64 ? g_cur->keys[k] : NULL; }
EXPORT int pthread_setspecific(pthread_key_t k, const void* v) { if (k >= 64 || !g_keyUsed[k]) return EINVAL; g_cur->keys[k] = (void*)v; return 0; }
namespace rt
{
	static void runKeyDtors(Fiber* f)
	{
		for (int round = 0; round < 4; ++round)
		{
			bool any = false;
			for (u32 i = 1; i < 64; ++i)
				if (f->keys[i]) { void* v = f->keys[i]; f->keys[i] = NULL; if (g_keyUsed[i] && g_keyDtor[i]) { any = true; g_keyDtor[i](v); } }
			if (!any) break;
		}
	}
}

// ------------------------------------------------------------------ clocks and sleeping

EXPORT int clock_gettime(clockid_t c, struct timespec* t)
{
	if (!g_on) { t->tv_sec = 1600000000; t->tv_nsec = 0; if (!g_driverHeap) return 0; return (int)syscall(SYS_clock_gettime, c, t); }
	point(KClock, (u64)c, CALLER);
	if (!g_cur->quiet) g_now += 1;
	s64 v = clockOf(c);
	t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
	return 0;
}
EXPORT int clock_getres(clockid_t, struct timespec* t) { if (t) { t->tv_sec = 0; t->tv_nsec = 1; } return 0; }
EXPORT int gettimeofday(struct timeval* t, void*)
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
EXPORT time_t time(time_t* o) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
static int doSleep(s64 ns, struct timespec* rem, u64 pc)
{
	point(KSleep, 0, pc);
	if (!g_on) return 0;
	cancelPoint();
	s64 left = ns;
	if (eintr())
	{
		// interrupted after a part of the time
		u32 part = g_replaying ? 0 : g_rf.below(4);
		part = faultDecision(FKEintr, g_cur->id, g_cur->fn_n++, part);
		s64 slept = ns / 4 * part;
		if (slept > 0) { block(WSleep, 1, CLOCK_MONOTONIC, (s64)g_now + slept); recomputeDl(); cancelPoint(); }
		left = ns - slept;
		if (rem) { rem->tv_sec = left / 1000000000; rem->tv_nsec = left % 1000000000; }
		errno = EINTR;
		return -1;
	}
	block(WSleep, 1, CLOCK_MONOTONIC, (s64)g_now + ns);
	recomputeDl();
	cancelPoint();
	return 0;
}
EXPORT int nanosleep(const struct timespec* t, struct timespec* rem)
{
	if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000 || t->tv_sec < 0) { errno = EINVAL; return -1; }
	return doSleep(toNs(t), rem, CALLER);
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem)
{
	s64 ns = toNs(t);
	if (flags & TIMER_ABSTIME) { ns -= clockOf(c); if (ns < 0) ns = 0; }
	return doSleep(ns, rem, CALLER) ? errno : 0;
}
EXPORT int usleep(useconds_t us) { return doSleep((s64)us * 1000, NULL, CALLER); }
EXPORT unsigned sleep(unsigned s) { struct timespec rem = { 0, 0 }; return doSleep((s64)s * 1000000000ll, &rem, CALLER) ? (unsigned)rem.tv_sec : 0; }

// ------------------------------------------------------------------ identity and environment

extern "C" long __real_syscall(long n, ...);
// Exit handlers registered during a run are kept: the harness can play the end of the process.
struct ExitHandler { void (*fn)(void*); void (*fn0)(); void* arg; };
static ExitHandler g_exit[4096];
static u32 g_nexit;
extern "C" int __real___cxa_atexit(void (*f)(void*), void* a, void* d);
extern "C" int __real_atexit(void (*f)());
extern "C" int __wrap___cxa_atexit(void (*f)(void*), void* a, void* d)
{
	if (!g_on) return __real___cxa_atexit(f, a, d);
	point(KUser, 0, CALLER);
	if (g_nexit >= 4096) return -1;
	ExitHandler& h = g_exit[g_nexit++]; h.fn = f; h.fn0 = 0; h.arg = a;
	return 0;
}
extern "C" int __wrap_atexit(void (*f)())
{
	if (!g_on) return __real_atexit(f);
	point(KUser, 0, CALLER);
	if (g_nexit >= 4096) return -1;
	ExitHandler& h = g_exit[g_nexit++]; h.fn = 0; h.fn0 = f; h.arg = 0;
	return 0;
}
namespace sim
{
	unsigned liveThreads()
	{
		unsigned n = 0;
		for (u32 i = 0; i < g_nlive; ++i) if (!g_fib[g_live[i]]->harness) ++n;
		return n;
	}
	unsigned runExitHandlers()
	{
		unsigned n = 0;
		while (g_nexit) { ExitHandler h = g_exit[--g_nexit]; ++n; if (h.fn) h.fn(h.arg); else h.fn0(); }
		return n;
	}
}

// What the standard library waits on (std::future): wait and wake, relative (WAIT) or absolute (WAIT_BITSET) times
static long futex(u64 addr, int op, int val, const struct timespec* t, u64 pc)
{
	int cmd = op & 127;
	if (cmd == 1 || cmd == 10)
	{
		point(KSemPost, addr, pc);
		long woken = 0;
		for (u32 i = 0; i < g_nlive && woken < val; ++i) { Fiber* x = g_fib[g_live[i]]; if (x->state == FBlocked && x->why == WFutex && x->wobj == addr) { wake(x, 0); ++woken; } }
		if (woken) recomputeDl();
		return woken;
	}
	if (cmd != 0 && cmd != 9) { errno = ENOSYS; return -1; }
	point(KSemWait, addr, pc);
	if (*(volatile int*)addr != val) { errno = EAGAIN; return -1; }
	if (eintr()) return -1;
	int clk = !t ? -1 : cmd == 9 && (op & 256) ? CLOCK_REALTIME : CLOCK_MONOTONIC;
	s64 dl = !t ? 0 : cmd == 0 ? (s64)g_now + toNs(t) : toNs(t);
	if (t && clockOf(clk) >= dl) { errno = ETIMEDOUT; return -1; }
	int r = block(WFutex, addr, clk, dl);
	if (r == ETIMEDOUT) { recomputeDl(); errno = ETIMEDOUT; return -1; }
	return 0;
}

extern "C" long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f)
{
	if (g_on && n == SYS_futex) return futex((u64)a, (int)b, (int)c, (const struct timespec*)d, CALLER);
	if (g_on && n == SYS_gettid) return VT_BASE + g_cur->id;
	return __real_syscall(n, a, b, c, d, e, f);
}
EXPORT pid_t gettid() { return g_on ? (pid_t)(VT_BASE + g_cur->id) : (pid_t)__real_syscall(SYS_gettid); }
EXPORT pid_t getpid() { return g_on ? (pid_t)VT_BASE : (pid_t)__real_syscall(SYS_getpid); }
EXPORT pid_t getpgid(pid_t p) { return g_on ? (pid_t)VT_BASE : (pid_t)__real_syscall(SYS_getpgid, p); }
EXPORT int prctl(int, ...) { return 0; }
EXPORT int sched_getcpu() { return 0; }

extern "C" void abort()
{
	if (g_res && (g_on || !g_ended)) fail("abort", "the process was aborted (fatal error, std::terminate or failed assertion)", CALLER);
	_exit(93);
}
extern "C" void __assert_fail(const char* e, const char*, unsigned, const char*)
{ static char m[512]; snprintf(m, sizeof(m), "assertion failed: %.400s", e); fail("abort", m, CALLER); }
