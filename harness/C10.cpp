// C10: Mutex, ConditionVariable, Semaphore, Barrier, SyncValue, locks
#include "common.h"
#include <stingraykit/thread/Barrier.h>
#include <stingraykit/thread/SyncValue.h>
#include <stingraykit/thread/GenericSemaphoreLock.h>
#include <stingraykit/SystemException.h>

namespace
{
	// Interrupted system calls are reported as an exception: the caller tries again.
	bool SemWait(const Semaphore& s, s64 timeoutUs)
	{
		for (;;)
			try { if (timeoutUs < 0) { s.Wait(); return true; } else return s.TimedWait(Us(timeoutUs)); }
			catch (const SystemException&) { sim::probe("interrupted wait"); }
	}

	// Mutual exclusion, recursion, visibility
	void Locks()
	{
		SilenceLog();
		Mutex m; int owner = -1, depth = 0, plain = 0, total = 0; bool hold = sim::WP(25);
		Mutex* pm = &m; int *po = &owner, *pd = &depth, *pp = &plain, *pt = &total;
		Clients cs;
		int n = sim::WR(2, 4);
		for (int c = 0; c < n; ++c)
			Spawn(cs, "client", [=]
			{
				int k = sim::WR(1, 5);
				for (int i = 0; i < k; ++i)
				{
					int rec = sim::W(3);
					MutexLock l(*pm);
					{ sim::Quiet q; SIM_CHECK(*po == -1 && *pd == 0, "not-exclusive", "two threads hold one mutex"); *po = c; *pd = 1; }
					++*pp; sim::point();
					if (hold && sim::WP(40)) sim::sleepUs(sim::WPick(std::vector<u64>{ 500, 4000000, 7000000 }));
					for (int r = 0; r < rec; ++r)
					{
						MutexLock l2(*pm);
						sim::Quiet q; SIM_CHECK(*po == c, "not-exclusive", "a mutex is taken while its owner holds it recursively");
					}
					if (rec == 2)
					{
						{ sim::Quiet q; SIM_CHECK(*po == c, "not-exclusive", "releasing an inner recursive lock released the mutex"); *po = -1; *pd = 0; }
						{
							MutexUnlock ul(l);
							sim::point();
						}
						sim::Quiet q; SIM_CHECK(*po == -1, "not-exclusive", "two threads hold one mutex after MutexUnlock"); *po = c; *pd = 1;
					}
					++*pp;
					sim::Quiet q; SIM_CHECK(*po == c, "not-exclusive", "another thread took the mutex"); *po = -1; *pd = 0; *pt += 2;
				}
			});
		Clients* pc = &cs;
		SIM_CHECK(sim::waitFor([pc] { return AllDone(*pc); }, 3600000000ull, 5000), "hang", "a mutex is never granted");
		JoinAll(cs);
		SIM_CHECK(plain == total, "not-exclusive", "updates under the mutex got lost: " << plain << " of " << total);
	}

	// Condition variable: broadcast wakes every waiter, timed waits are not early
	void Conditions()
	{
		SilenceLog();
		Mutex m; ConditionVariable cv; int epoch = 0, waiting = 0;
		Mutex* pm = &m; ConditionVariable* pc = &cv; int *pe = &epoch, *pw = &waiting;
		int rounds = sim::WR(1, 3), n = sim::WR(1, 3); bool spurious = sim::faultsEnabled();
		Clients cs;
		for (int c = 0; c < n; ++c)
			Spawn(cs, "waiter", [=]
			{
				for (int e = 1; e <= rounds; ++e)
				{
					MutexLock l(*pm);
					while (*pe < e)
					{
						int how = sim::W(3);
						u64 t0 = sim::nowNs(), us = sim::WPick(std::vector<u64>{ 0, 200, 1000, 5000 });
						if (how == 0) pc->Wait(*pm);
						else if (how == 1)
						{
							bool signalled = pc->TimedWait(*pm, Us(us));
							if (!signalled) { sim::probe("timed out"); SIM_CHECK(sim::nowNs() - t0 + 2000 >= us * 1000, "early-timeout", "a wait of " << us << " us timed out after " << (sim::nowNs() - t0) << " ns"); }
						}
						else
						{
							++*pw;			// only waits that must be woken count
							pc->Wait(*pm);
							--*pw;
						}
					}
				}
			});
		(void)spurious;
		for (int e = 1; e <= rounds; ++e)
		{
			sim::sleepUs(sim::W(5) * 300);
			MutexLock l(m);
			epoch = e;
			if (sim::WP(50)) { cv.Broadcast(); }
			else { MutexUnlock ul(l); cv.Broadcast(); }
		}
		Clients* pcs = &cs;
		SIM_CHECK(sim::waitFor([pcs] { return AllDone(*pcs); }, 3600000000ull, 1000), "hang", "a waiter is not woken by a broadcast");
		JoinAll(cs);
	}

	// Semaphore: counting
	void Semaphores()
	{
		SilenceLog();
		int initial = sim::W(3), posts = sim::W(7), n = sim::WR(1, 4);
		Semaphore s(initial);
		int posted = 0, passed = 0, inside = 0;
		const Semaphore* ps = &s; int *pp = &posted, *pa = &passed, *pi = &inside;
		bool jumps = sim::clockJumpsEnabled();
		(void)pi;
		Clients cs; int total = 0;
		std::vector<int> want(n);
		for (int c = 0; c < n; ++c)
		{
			int k = sim::WR(1, 3);
			want[c] = k;
			Spawn(cs, "waiter", [=]
			{
				for (int i = 0; i < k; ++i)
				{
					bool timed = sim::WP(40); u64 us = sim::WPick(std::vector<u64>{ 0, 300, 2000 }), t0 = sim::nowNs();
					bool ok = SemWait(*ps, timed ? (s64)us : -1);
					sim::Quiet q;
					if (ok) { ++*pa; SIM_CHECK(*pa <= initial + *pp, "too-many", *pa << " waits passed a semaphore with " << initial << " initial units and " << *pp << " signals"); }
					else
					{
						sim::probe("timed out");
						if (!jumps) SIM_CHECK(sim::nowNs() - t0 + 2000 >= us * 1000, "early-timeout", "a wait of " << us << " us timed out after " << (sim::nowNs() - t0) << " ns");
					}
				}
			});
			total += k;
		}
		Spawn(cs, "signaller", [=]
		{
			for (int i = 0; i < posts; ++i)
			{
				if (sim::WP(50)) sim::sleepUs(sim::W(4) * 300);
				{ sim::Quiet q; ++*pp; }
				if (i + 1 < posts && sim::WP(20)) { { sim::Quiet q; ++*pp; } ps->Signal(2); ++i; }
				else ps->Signal();
			}
		});
		cs.back()->Join();
		// whoever can pass passes
		sim::waitFor([&] { return AllDone(cs) || passed == initial + posted; }, 3600000000ull, 1000);
		{ sim::Quiet q; SIM_CHECK(AllDone(cs) || passed == initial + posted, "lost-signal", "only " << passed << " waits passed a semaphore with " << initial << " initial units and " << posted << " signals, and others still wait"); }
		int more = 0;
		while (!sim::waitFor([&] { return AllDone(cs); }, 5000, 500) && more < 40) { { sim::Quiet q; ++posted; ++more; } s.Signal(); sim::sleepUs(3000); }
		SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 3600000000ull, 500), "lost-signal", "a waiter is not released by signals");
		JoinAll(cs);
		int rest = 0;
		while (SemWait(s, 0)) ++rest;
		SIM_CHECK(passed + rest == initial + posted, "lost-signal", passed << " waits passed and " << rest << " units are left of " << initial << " initial units and " << posted << " signals");
	}

	void SemaphoreAsLock()
	{
		SilenceLog();
		Semaphore s(1); int inside = 0, plain = 0; Semaphore* ps = &s; int *pi = &inside, *pp = &plain;
		Clients cs; int n = sim::WR(2, 3), total = 0;
		for (int c = 0; c < n; ++c)
		{
			int k = sim::WR(1, 3); total += k;
			Spawn(cs, "client", [=]
			{
				for (int i = 0; i < k; )
					try
					{
						GenericSemaphoreLock<Semaphore> l(*ps);
						{ sim::Quiet q; SIM_CHECK(++*pi == 1, "not-exclusive", "two threads are inside a semaphore lock"); }
						++*pp; sim::point(); ++i;
						sim::Quiet q; --*pi;
					}
					catch (const SystemException&) { sim::probe("interrupted wait"); }
			});
		}
		JoinAll(cs);
		SIM_CHECK(plain == total, "not-exclusive", "updates under a semaphore lock got lost");
	}

	void Barriers()
	{
		SilenceLog();
		int n = sim::WR(1, 4), rounds = sim::WR(1, 4), extra = sim::WP(30) ? sim::WR(1, 2) : 0;
		Barrier b(n); Barrier* pb = &b;
		// With more threads than parties every round takes any n of them, so only totals are checked then.
		int arrived = 0, left = 0; std::vector<int> arrivedIn(rounds * 4), trues(rounds * 4);
		int *pa = &arrived, *pl = &left; std::vector<int> *pin = &arrivedIn, *pt = &trues;
		Clients cs;
		int threads = extra ? n + extra : n;
		int perThread = extra ? 1 : rounds;
		if (extra) { while (threads % n) ++threads; }
		int groups = 0;
		for (int c = 0; c < threads; ++c)
			Spawn(cs, "party", [=]
			{
				for (int r = 0; r < perThread; ++r)
				{
					if (sim::WP(50)) sim::sleepUs(sim::W(4) * 250);
					{ sim::Quiet q; ++*pa; ++(*pin)[r]; }
					bool last = pb->Wait();
					sim::Quiet q;
					if (!extra)
					{
						SIM_CHECK((*pin)[r] == n, "barrier-early", "a party is released from round " << r << " when " << (*pin)[r] << " of " << n << " have arrived");
						if (last) { SIM_CHECK(++(*pt)[r] == 1, "barrier-true", "two parties are told that they left round " << r << " last"); }
					}
					++*pl;
					SIM_CHECK(*pl <= (*pa / n) * n, "barrier-early", *pl << " parties left a barrier of " << n << " when " << *pa << " arrived");
				}
			});
		(void)groups;
		Clients* pcs = &cs;
		SIM_CHECK(sim::waitFor([pcs] { return AllDone(*pcs); }, 3600000000ull, 1000), "hang", "a party of a barrier is not released (" << left << " of " << arrived << " left)");
		JoinAll(cs);
		if (!extra) for (int r = 0; r < rounds; ++r) SIM_CHECK(trues[r] == 1, "barrier-true", trues[r] << " parties were told that they left round " << r << " last");
	}

	struct Pair { int a, b; Pair(int x = 0) : a(x), b(x) { } };

	void Sync()
	{
		SilenceLog();
		SyncValue<Pair> v; SyncValue<int> cnt(0); SyncValue<Pair>* pv = &v; SyncValue<int>* pn = &cnt;
		Clients cs; int n = sim::WR(2, 4), total = 0;
		for (int c = 0; c < n; ++c)
		{
			int k = sim::WR(1, 5);
			std::vector<int> ops; for (int i = 0; i < k; ++i) { ops.push_back(sim::W(6)); if (ops.back() == 0 || ops.back() == 4) ++total; }
			Spawn(cs, "client", [=]
			{
				for (int op : ops)
				{
					if (op == 0) { SyncValue<int>::Lock l(*pn); int& r = l; int o = r; sim::point(); r = o + 1; }
					else if (op == 4) { SyncValue<int>::Lock l = **pn; l = int(l) + 1; }
					else if (op == 1) { int x = sim::W(100); *pv = Pair(x); }
					else if (op == 2) { SyncValue<Pair>::Lock l = **pv; int x = sim::W(100); l->a = x; sim::point(); l->b = x; }
					else if (op == 3) { Pair p = pv->Get(); SIM_CHECK(p.a == p.b, "torn", "a synchronized value is read half changed: " << p.a << ", " << p.b); }
					else { const SyncValue<Pair>& cv = *pv; SyncValue<Pair>::ConstLock l = *cv; int a = l->a; sim::point(); SIM_CHECK(a == l->b, "torn", "a locked value changes"); }
				}
			});
		}
		JoinAll(cs);
		SIM_CHECK(cnt.Get() == total, "lost-update", "a synchronized counter shows " << cnt.Get() << " after " << total << " increments");
	}
}

SIM_SCENARIO(locks, 3) { Locks(); }
SIM_SCENARIO(conditions, 3) { Conditions(); }
SIM_SCENARIO(semaphores, 3) { Semaphores(); }
SIM_SCENARIO(semaphore_lock, 1) { SemaphoreAsLock(); }
SIM_SCENARIO(barriers, 4) { Barriers(); }
SIM_SCENARIO(sync_value, 3) { Sync(); }
