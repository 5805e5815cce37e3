// C06: ThreadPool
#include "common.h"
#include <mutex>
#include <stingraykit/thread/ThreadPool.h>
#include <stingraykit/thread/TimedCancellationToken.h>

namespace
{
	struct Rec { int id = 0, runs = 0; bool accepted = false, failed = false, done = false; };
	typedef std::shared_ptr<Rec> RecPtr;

	struct World
	{
		std::vector<RecPtr> recs;
		int active = 0, maxThreads = 1, peak = 0, completed = 0;
		bool destroying = false, destroyed = false;
		std::multiset<std::string> handled, expected;
		ThreadPool* pool = NULL;

		RecPtr NewRec() { sim::Quiet q; RecPtr r = std::make_shared<Rec>(); r->id = (int)recs.size(); recs.push_back(r); return r; }

		// how: 0 TryQueue, 1 Queue, 2 WaitQueue, 3 WaitQueue with a timeout, 4 WaitQueue with a token cancelled by somebody
		void Submit(int kind, int how, int dur, unsigned af)
		{
			RecPtr r = NewRec();
			std::shared_ptr<int> payload(new int(0));
			*payload = 100 + r->id;
			World* w = this;
			ThreadPool::Task task = Fn<void (const ICancellationToken&)>([w, r, payload, kind, dur] (const ICancellationToken& t) { w->Run(r, *payload, kind, dur, t); });
			bool ok = false;
			try
			{
				sim::AllocFaults faults(af);
				switch (how)
				{
				case 0: ok = pool->TryQueue(task); break;
				case 1: pool->Queue(task); ok = true; break;
				case 2: pool->WaitQueue(task, DummyCancellationToken()); ok = true; break;
				case 3:
				{
					u64 t0 = sim::nowNs(); u64 us = 200 + sim::W(4) * 300;
					try { pool->WaitQueue(task, TimedCancellationToken(Us(us))); ok = true; }
					catch (const TimeoutException&) { SIM_CHECK(sim::nowNs() - t0 + 2000 >= us * 1000, "early-timeout", "queueing timed out after " << (sim::nowNs() - t0) << " ns of " << us << " us"); sim::probe("wait timed out"); }
					catch (const OperationCancelledException&) { SIM_CHECK(sim::nowNs() - t0 + 2000 >= us * 1000, "early-timeout", "queueing gave up after " << (sim::nowNs() - t0) << " ns of " << us << " us"); sim::probe("wait timed out"); }
					break;
				}
				case 4:
				{
					CancellationToken tk; bool cancelled = false;
					sim::Client c([&] { sim::sleepUs(sim::W(4) * 300); { sim::Quiet q; cancelled = true; } tk.Cancel(); }, "canceller");
					try { pool->WaitQueue(task, tk); ok = true; }
					catch (const OperationCancelledException&) { SIM_CHECK(cancelled, "false-cancel", "queueing reports cancellation though nobody cancelled"); sim::probe("wait cancelled"); }
					break;
				}
				}
			}
			catch (const std::bad_alloc&) { sim::probe("bad_alloc while queueing"); ok = false; }
			catch (const stingray::Exception& e) { if (how != 1) throw; }
			sim::Quiet q;
			if (ok) r->accepted = true;
			else
			{
				SIM_CHECK(r->runs == 0, "rejected-task-run", "task " << r->id << " ran although queueing it failed");
				r->failed = true; sim::probe("rejected");
			}
		}

		void Run(const RecPtr& r, int payload, int kind, int dur, const ICancellationToken& t)
		{
			{
				sim::Quiet q;
				SIM_CHECK(!destroyed, "task-after-destruction", "task " << r->id << " runs after the pool was destroyed");
				SIM_CHECK(++r->runs == 1, "task-run-twice", "task " << r->id << " is run a second time");
				SIM_CHECK(!r->failed, "rejected-task-run", "task " << r->id << " runs although queueing it failed");
				SIM_CHECK(++active <= maxThreads, "too-many", active << " tasks run at once, the limit is " << maxThreads);
				SIM_CHECK(payload == 100 + r->id, "payload", "task " << r->id << " sees " << payload);
				if (active > peak) peak = active;
			}
			sim::point();
			if (kind == 1) sim::sleepUs(dur);
			if (kind == 3) t.Sleep(Us(dur * 3));
			if (kind == 4) Submit(sim::W(2), 0, 100, 0);
			if (kind == 5) Submit(1, 4, 100, 0);
			sim::point();
			{ sim::Quiet q; --active; ++completed; r->done = true; if (kind == 2) expected.insert("t" + std::to_string(r->id)); }
			if (kind == 2) ThrowSome("t" + std::to_string(r->id));
		}
		bool AllAcceptedDone() const { for (auto& r : recs) if (r->accepted && !r->done) return false; return true; }
	};

	void Scenario(optional<TimeDuration> profile, unsigned af, int clients, int tasks, bool nested)
	{
		SilenceLog();
		World w; World* pw = &w;
		w.maxThreads = sim::WR(1, 4);
		optional<TimeDuration> idle;
		if (sim::WP(60)) idle = Ms(20 + sim::W(4) * 15);
		bool logs = sim::WP(15);	// the default handler of exceptions writes them to the log
		w.pool = logs ? new ThreadPool("pool", w.maxThreads, profile, idle) : new ThreadPool("pool", w.maxThreads, profile, idle, Fn<void (const std::exception&)>([pw] (const std::exception& e) { sim::Quiet q; pw->handled.insert(e.what()); }));
		Clients cs;
		int nc = sim::WR(1, clients);
		for (int c = 0; c < nc; ++c)
		{
			int n = sim::WR(1, tasks);
			Spawn(cs, "client", [pw, n, nested, af]
			{
				for (int i = 0; i < n; ++i)
				{
					static const int hows[] = { 0, 1, 2, 0, 3, 2, 4 };
					pw->Submit(sim::W(nested ? 6 : 4), hows[sim::W(7)], 100 + sim::W(4) * 250, af);
					if (sim::WP(30)) sim::sleepUs(sim::WP(25) ? 30000 * sim::WR(1, 4) : sim::W(6) * 400);
				}
			});
		}
		JoinAll(cs);
		bool settle = nested || sim::WP(65);	// tasks must not queue into a pool that is being destroyed
		if (settle)
		{
			SIM_CHECK(sim::waitFor([pw] { return pw->AllAcceptedDone(); }, 600000000ull, 2000), "task-lost", "an accepted task is not run within ten minutes of simulated time");
			// full capacity again
			bool gate = false; bool* g = &gate;
			int started = 0; int* ps = &started;
			for (int i = 0; i < w.maxThreads; ++i)
			{
				RecPtr r = w.NewRec();
				bool ok = false;
				ThreadPool::Task t = Fn<void (const ICancellationToken&)>([pw, r, g, ps] (const ICancellationToken&)
				{
					{ sim::Quiet q; ++r->runs; ++*ps; ++pw->active; SIM_CHECK(pw->active <= pw->maxThreads, "too-many", pw->active << " tasks run at once"); }
					for (;;) { { sim::Quiet q; if (*g) break; } sim::sleepUs(700); }
					sim::Quiet q; --pw->active; r->done = true;
				});
				for (int k = 0; k < 2000 && !ok; ++k) { ok = w.pool->TryQueue(t); if (!ok) sim::sleepUs(1000); }
				SIM_CHECK(ok, "capacity", "after all tasks finished, task " << i + 1 << " of " << w.maxThreads << " could not be queued within 2 s");
				r->accepted = true;
			}
			SIM_CHECK(sim::waitFor([pw, ps] { return *ps == pw->maxThreads; }, 600000000ull, 1000), "capacity", "only " << started << " of " << w.maxThreads << " tasks run at the same time");
			SIM_CHECK(!w.pool->TryQueue(Fn<void (const ICancellationToken&)>([] (const ICancellationToken&) { })), "too-many", "a task is accepted while all workers are busy");
			SIM_CHECK(!w.pool->CanQueue(), "too-many", "CanQueue while all workers are busy");
			{ sim::Quiet q; gate = true; }
			SIM_CHECK(sim::waitFor([pw] { return pw->AllAcceptedDone(); }, 600000000ull, 1000), "task-lost", "an accepted task does not finish");
			SIM_CHECK(logs || sim::waitFor([pw] { return pw->handled == pw->expected; }, 600000000ull, 1000), "exceptions", w.expected.size() << " tasks threw, the exception handler was called " << w.handled.size() << " times (or for other exceptions)");
		}
		else if (sim::WP(50)) sim::sleepUs(sim::W(5) * 300);
		w.destroying = true;
		delete w.pool;
		sim::Quiet q;
		w.destroyed = true;
		SIM_CHECK(w.active == 0, "task-after-destruction", w.active << " tasks still run after the pool was destroyed");
		for (auto& r : w.recs) SIM_CHECK(r->runs <= (r->accepted ? 1 : 0), r->accepted ? "task-run-twice" : "rejected-task-run", "task " << r->id << " ran " << r->runs << " times");
	}
}

SIM_SCENARIO(plain, 6) { Scenario(null, 0, 3, 5, false); }
SIM_SCENARIO(nested, 2) { Scenario(null, 0, 2, 4, true); }
SIM_SCENARIO(alloc_faults, 2) { Scenario(null, 30, 2, 5, false); }
SIM_SCENARIO(profiled, 1) { Scenario(TimeDuration::FromMilliseconds(1), 0, 2, 3, false); }

// Every worker is busy until it is told to finish; somebody waits to queue: each worker that becomes free, whichever it is, must let one of the waiting in,
// although all the others stay busy.
SIM_SCENARIO(waiting, 3)
{
	SilenceLog();
	struct S { int started = 0, done = 0, active = 0, max = 0; std::vector<bool> open; std::vector<bool> over; bool all = false; } s; S* ps = &s;
	s.max = sim::WR(1, 4); s.open.assign(s.max, false); s.over.assign(s.max, false);
	optional<TimeDuration> idle; if (sim::WP(40)) idle = Ms(20 + sim::W(4) * 15);
	std::unique_ptr<ThreadPool> pool(new ThreadPool("pool", s.max, null, idle, Fn<void (const std::exception&)>([] (const std::exception&) { })));
	int rounds = sim::WR(1, 3);
	for (int round = 0; round < rounds; ++round)
	{
		bool throwing = sim::WP(25), blocking = sim::WP(60);
		for (int i = 0; i < s.max; ++i)
		{
			bool ok = false;
			ThreadPool::Task t = Fn<void (const ICancellationToken&)>([ps, i, throwing] (const ICancellationToken&)
			{
				{ sim::Quiet q; ++ps->active; SIM_CHECK(ps->active <= ps->max, "too-many", ps->active << " tasks run at once"); }
				for (;;) { { sim::Quiet q; if (ps->open[i] || ps->all) break; } sim::sleepUs(700); }
				{ sim::Quiet q; --ps->active; ps->over[i] = true; }
				if (throwing) ThrowSome("blocker");
			});
			for (int k = 0; k < 4000 && !ok; ++k) { ok = pool->TryQueue(t); if (!ok) sim::sleepUs(1000); }
			SIM_CHECK(ok, "capacity", "task " << i + 1 << " of " << s.max << " could not be queued into an idle pool within 4 s");
		}
		if (sim::WP(30)) sim::sleepUs(60000);
		ThreadPool* pp = pool.get();
		int waiters = sim::WR(1, s.max);
		Clients cs;
		for (int i = 0; i < waiters; ++i)
			Spawn(cs, "waiter", [pp, ps, blocking]
			{
				if (sim::WP(40)) sim::sleepUs(sim::W(4) * 300);
				pp->WaitQueue(Fn<void (const ICancellationToken&)>([ps, blocking] (const ICancellationToken&)
				{
					{ sim::Quiet q; ++ps->started; ++ps->active; SIM_CHECK(ps->active <= ps->max, "too-many", ps->active << " tasks run at once"); }
					while (blocking) { { sim::Quiet q; if (ps->all) break; } sim::sleepUs(700); }
					sim::Quiet q; --ps->active; ++ps->done;
				}), DummyCancellationToken());
			});
		std::vector<int> order; for (int i = 0; i < s.max; ++i) order.push_back(i);
		for (int i = s.max - 1; i > 0; --i) std::swap(order[i], order[sim::W(i + 1)]);
		int opened = 0;
		for (int i : order)
		{
			if (sim::WP(60)) sim::sleepUs(sim::W(4) * 2000);
			{ sim::Quiet q; s.open[i] = true; }
			++opened;
			int want = blocking ? std::min(opened, waiters) : waiters;
			if (opened <= waiters) SIM_CHECK(sim::waitFor([ps, want] { return ps->started >= want; }, 600000000ull, 1000), "wake-up-lost", opened << " of " << ps->max << " workers are free, " << ps->started << " of " << waiters << " waiting tasks got in, " << want << " should");
		}
		{ sim::Quiet q; s.all = true; }
		JoinAll(cs);
		SIM_CHECK(sim::waitFor([ps, waiters] { return ps->done == waiters && !ps->active && std::count(ps->over.begin(), ps->over.end(), true) == ps->max; }, 600000000ull, 1000), "task-lost", "an accepted task does not finish");
		sim::Quiet q; s.all = false; s.started = s.done = 0; s.open.assign(s.max, false); s.over.assign(s.max, false);
	}
}

// Tasks and the exception handler take a mutex under which the users queue: no call of the pool may hold a mutex of its own while it runs them.
SIM_SCENARIO(lock_order, 2)
{
	SilenceLog();
	std::recursive_mutex app; std::recursive_mutex* pa = &app;
	struct S { int active = 0, max = 0, ran = 0, accepted = 0, handled = 0, thrown = 0; } s; S* ps = &s;
	s.max = sim::WR(1, 3);
	optional<TimeDuration> idle; if (sim::WP(50)) idle = Ms(20 + sim::W(4) * 15);
	std::unique_ptr<ThreadPool> pool(new ThreadPool("pool", s.max, null, idle, Fn<void (const std::exception&)>([ps, pa] (const std::exception&) { std::lock_guard<std::recursive_mutex> l(*pa); sim::point(); sim::Quiet q; ++ps->handled; })));
	ThreadPool* pp = pool.get();
	Clients cs; int nc = sim::WR(1, 3);
	for (int c = 0; c < nc; ++c)
	{
		int n = sim::WR(1, 5);
		Spawn(cs, "user", [=]
		{
			for (int i = 0; i < n; ++i)
			{
				bool throwing = sim::WP(20), nested = sim::WP(20);
				ThreadPool::Task t = Fn<void (const ICancellationToken&)>([=] (const ICancellationToken&)
				{
					{ sim::Quiet q; SIM_CHECK(++ps->active <= ps->max, "too-many", ps->active << " tasks run at once"); }
					{
						std::lock_guard<std::recursive_mutex> l(*pa); sim::point();
						if (nested) { pp->CanQueue(); bool ok = pp->TryQueue(Fn<void (const ICancellationToken&)>([=] (const ICancellationToken&) { std::lock_guard<std::recursive_mutex> l2(*pa); sim::Quiet q; ++ps->ran; })); sim::Quiet q; if (ok) ++ps->accepted; }
					}
					{ sim::Quiet q; --ps->active; ++ps->ran; if (throwing) ++ps->thrown; }
					if (throwing) ThrowSome("task");
				});
				if (sim::WP(70))
				{
					std::lock_guard<std::recursive_mutex> l(*pa);
					sim::point();
					if (sim::WP(30)) pp->CanQueue();
					bool ok = false;
					if (sim::WP(50)) ok = pp->TryQueue(t); else try { pp->Queue(t); ok = true; } catch (const std::exception&) { }
					sim::Quiet q; if (ok) ++ps->accepted;
				}
				else { pp->WaitQueue(t, DummyCancellationToken()); sim::Quiet q; ++ps->accepted; }
				if (sim::WP(30)) sim::sleepUs(sim::WP(30) ? 40000 * sim::WR(1, 3) : sim::W(4) * 300);
			}
		});
	}
	JoinAll(cs);
	SIM_CHECK(sim::waitFor([ps] { return ps->ran == ps->accepted && ps->handled == ps->thrown; }, 600000000ull, 1000), "task-lost", s.ran << " of " << s.accepted << " accepted tasks ran, " << s.handled << " of " << s.thrown << " exceptions were handled");
	pool.reset();
	sim::Quiet q; SIM_CHECK(s.ran == s.accepted && s.handled == s.thrown, "task-run-twice", s.ran << " tasks ran, " << s.accepted << " were accepted");
}
