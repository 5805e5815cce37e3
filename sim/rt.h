// Internal interface between the runtime (rt.cpp) and the driver (driver.cpp).
#ifndef VERIF_RT_H
#define VERIF_RT_H
#include <stdint.h>
#include <stddef.h>

namespace rt
{
	typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t s64;

	static const unsigned MaxNames = 64, NameLen = 48, MaxStack = 24, CovBits = 1 << 16;
	static const unsigned MaxW = 1 << 16, MaxS = 1 << 18, MaxF = 1 << 14;

	struct SRec { u32 fid, n, val; };
	struct FRec { u32 kind, fid, n, val; };

	enum Policy { PolRandom, PolPct, PolBounded, PolSites, PolCount };

	struct Config				// everything a replay needs besides the decision lists
	{
		u64 tick;				// virtual ns added per scheduling point
		u64 rtOffset;			// CLOCK_REALTIME - CLOCK_MONOTONIC at start
		u32 memMod, memRem;		// memory accesses whose site hash % memMod == memRem are points; 0 = none
		u32 faultsOn, stallsOn, spuriousOn, eintrOn, jumpsOn;
		// generation only
		u32 policy, p1, d, k;
		u32 stallRate, spuriousRate, eintrRate, jumpRate;	// 1 in N (points) / permille for eintr
	};

	struct Named { char name[NameLen]; u64 count; };

	enum Status { StNone, StOk, StViolation, StInternal };

	struct Result				// in memory shared between the child that runs and its worker
	{
		volatile u32 status;
		char cls[160];
		char msg[6000];
		u32 nstack; u64 stack[MaxStack];
		u32 nstack2; u64 stack2[MaxStack];
		u64 evHash, schedHash, histHash;
		u64 steps, accesses, switches, preempts, simNs, fibers, idleJumps, wDraws;
		u32 nfaults, nprobes;
		Named faults[MaxNames];
		Named probes[MaxNames];
		u8 cov[CovBits / 8];
		Config cfg;
		u32 nW, nS, nF, truncated;
		u32 W[MaxW]; SRec S[MaxS]; FRec F[MaxF];
	};

	struct Replay
	{
		Config cfg;
		u32 nW, nS, nF;
		const u32* W; const SRec* S; const FRec* F;
	};

	struct Scenario { const char* name; unsigned weight; void (*fn)(); unsigned flags; };
	extern Scenario g_scenarios[64];
	extern unsigned g_nscenarios;

	// Runs a scenario in this process (a forked child) and never returns; the outcome is in *r.
	void run(Scenario* s, u64 seed, const Replay* replay, Result* r, bool trace, bool wantRecords, bool thorough) __attribute__((noreturn));
	void useDriverHeap();		// from now on malloc serves the driver's own region
	void useSimHeap();
	Config makeConfig(u64 seed, unsigned flags, bool thorough);
	u64 mix(u64 a, u64 b);
}
#endif
