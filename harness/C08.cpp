// C08: ExecutionDeferrer, ExecutionDeferrerWithTimer
#include "common.h"
#include <mutex>
#include <stingraykit/timer/Timer.h>

namespace
{
	struct Rec
	{
		int id = 0, kind = 0, runs = 0;
		u64 delayUs = 0, intervalUs = 0, setNs = 0, retNs = 0, setSeq = 0, retSeq = 0;
		bool accepted = false, running = false, inside = false;
		bool dead = false;				// a Cancel that began after this Defer had returned is over
	};
	typedef std::shared_ptr<Rec> RecPtr;

	struct World
	{
		std::vector<RecPtr> recs;
		int cancelling = 0; u64 cancelEpoch = 0;
		int active = 0;
		bool destroyed = false;
		ExecutionDeferrer* def = NULL;
		ExecutionDeferrerWithTimer* defT = NULL;

		void Defer(int kind, u64 delay, u64 interval, u64 dflt)
		{
			RecPtr r; World* w = this;
			{
				sim::Quiet q;
				r = std::make_shared<Rec>(); r->id = (int)recs.size(); r->kind = kind; r->delayUs = delay ? delay : dflt; r->intervalUs = interval;
				recs.push_back(r);
				r->setNs = sim::nowNs(); r->setSeq = sim::seq();
			}
			std::shared_ptr<int> payload(new int(0)); *payload = 100 + r->id;
			Tracked t;
			Rec* raw = r.get();
			Timer::TaskType task = Fn<void ()>([w, raw, payload, t] { w->Run(raw, *payload, t); });
			if (defT) { if (delay) defT->Defer(task, Us(delay)); else defT->Defer(task); }
			else if (interval) def->Defer(task, Us(delay), Us(interval));
			else if (delay) def->Defer(task, Us(delay));
			else def->Defer(task);
			sim::Quiet q;
			r->accepted = true; r->retNs = sim::nowNs(); r->retSeq = sim::seq();
		}

		void Cancel()
		{
			u64 s; bool alone; u64 ep;
			{ sim::Quiet q; s = sim::seq(); alone = !cancelling; ++cancelling; ep = ++cancelEpoch; }
			if (defT) defT->Cancel(); else def->Cancel();
			sim::Quiet q;
			--cancelling;
			if (!alone || ep != cancelEpoch || cancelling) { sim::probe("overlapping cancels"); return; }
			for (auto& r : recs)
				if (r->accepted && r->retSeq < s)
				{
					SIM_CHECK(!r->running, "running-after-cancel", "function " << r->id << " is running although Cancel returned");
					r->dead = true;
				}
		}

		void Run(Rec* r, int payload, const Tracked& t)
		{
			{
				sim::Quiet q;
				u64 now = sim::nowNs();
				SIM_CHECK(!destroyed, "run-after-destruction", "function " << r->id << " runs after the deferrer was destroyed");
				SIM_CHECK(!r->dead, "run-after-cancel", "function " << r->id << " runs although it was cancelled");
				++r->runs;
				SIM_CHECK(++active == 1, "concurrent", "two deferred functions run at once");
				SIM_CHECK(r->intervalUs || r->runs == 1, "run-twice", "function " << r->id << " runs a second time");
				SIM_CHECK(payload == 100 + r->id, "payload", "function " << r->id << " sees " << payload);
				u64 due = r->setNs + (r->delayUs + (r->runs - 1) * r->intervalUs) * 1000;
				SIM_CHECK(now + 2000 >= due, "early", "run " << r->runs << " of function " << r->id << " starts " << (due - now) << " ns before its time");
				for (auto& o : recs)
					if (o.get() != r && o->accepted && r->accepted && o->setSeq > r->retSeq)
						SIM_CHECK(o->retNs + 2000 >= due, "superseded-run", "function " << r->id << " runs although it was superseded by " << o->id << ", " << (due - o->retNs) << " ns before it was due");
				r->running = r->inside = true;
			}
			t.Touch();
			sim::point();
			if (r->kind == 1) sim::sleepUs(100 + sim::W(4) * 400);
			sim::point();
			t.Touch();
			int kind;
			{ sim::Quiet q; r->running = false; --active; kind = r->kind; }
			if (kind != 2) r->inside = false;
			if (kind == 3) ThrowSome("deferred");
			if (kind == 2)						// (this releases the function object)
			{
				RecPtr me; World* w = this; { sim::Quiet q; me = recs[r->id]; }
				w->Cancel();
				sim::Quiet q; me->inside = false;
			}
		}
	};

	void Scenario(int clients, bool withTimer, bool periodic, bool self)
	{
		SilenceLog();
		World w; World* pw = &w;
		u64 dflt = 300 + sim::W(4) * 700;
		Timer* timer = NULL;
		if (withTimer) w.defT = new ExecutionDeferrerWithTimer("deferrer", Us(dflt));
		else
		{
			timer = new Timer("timer", null, Fn<void (const std::exception&)>([] (const std::exception&) { }));
			w.def = new ExecutionDeferrer(*timer, Us(dflt));
		}
		Clients cs;
		int nc = sim::WR(1, clients); bool race = !self && !periodic && sim::WP(35);	// nothing is cancelled: one of the functions nothing superseded runs
		if (race) nc = sim::WR(2, 3);
		for (int c = 0; c < nc; ++c)
		{
			int n = sim::WR(1, 6);
			Spawn(cs, "client", [pw, n, dflt, periodic, withTimer, self, race]
			{
				for (int i = 0; i < n; ++i)
				{
					int op = sim::W(8);
					if (op < 4) pw->Defer(self ? 1 + sim::W(2) : sim::W(2) * (withTimer ? 1 : 1 + 2 * sim::W(2)), sim::WP(50) ? 100 + sim::W(5) * 500 : 0, 0, dflt);
					else if (op == 4 && periodic) pw->Defer(sim::W(2), 100 + sim::W(5) * 400, 500 + sim::W(4) * 500, dflt);
					else if (op < 6 && !race) pw->Cancel();
					else sim::sleepUs(sim::W(10) * (race ? 20 : 400));
				}
			});
		}
		JoinAll(cs);
		if (race && !w.recs.empty())
		{
			std::vector<RecPtr> last;
			{ sim::Quiet q; for (auto& r : w.recs) { bool over = false; for (auto& o : w.recs) over = over || o->setSeq > r->retSeq; if (!over) last.push_back(r); } if (last.size() > 1) sim::probe("overlapping Defers"); }
			SIM_CHECK(sim::waitFor([&] { for (auto& r : last) if (r->runs) return true; return false; }, 600000000ull, 1000), "not-run", "none of the " << last.size() << " functions deferred last is run");
		}
		if (sim::WP(70))
		{
			// the last deferred function runs (once), if nothing cancelled it
			pw->Defer(sim::W(2), sim::WP(50) ? 100 + sim::W(5) * 500 : 0, 0, dflt);
			RecPtr last; bool selfCancel = false;
			{ sim::Quiet q; last = w.recs.back(); for (auto& r : w.recs) if (r->kind == 2) selfCancel = true; }
			if (selfCancel) sim::sleepUs(20000);
			else
			{
				SIM_CHECK(sim::waitFor([&] { return last->runs == 1; }, 600000000ull, 1000), "not-run", "the last deferred function is not run");
				sim::sleepUs(10000);
				SIM_CHECK(last->runs == 1, "run-twice", "the last deferred function ran " << last->runs << " times");
			}
		}
		if (sim::WP(30)) pw->Cancel();
		// a function that cancels its own deferrer must be over before the deferrer is destroyed
		if (self) pw->Cancel();
		if (self) SIM_CHECK(sim::waitFor([pw] { for (auto& r : pw->recs) if (r->inside) return false; return true; }, 600000000ull, 500), "hang", "a deferred function hangs");
		if (self) pw->Cancel();
		if (withTimer) delete w.defT; else delete w.def;
		{
			sim::Quiet q; w.destroyed = true;
			SIM_CHECK(!w.active, "run-after-destruction", "a deferred function still runs after the deferrer was destroyed");
		}
		sim::sleepUs(8000);
		delete timer;
		SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are left");
	}

	// One thread: Defer / Cancel / wait, against a sequential model with wide time margins
	void Sequential()
	{
		SilenceLog();
		Timer* timer = new Timer("timer", null);
		u64 dflt = 40000;
		ExecutionDeferrer* d = new ExecutionDeferrer(*timer, Us(dflt));
		int ran[16] = { };
		int* pr = ran;
		int n = sim::WR(2, 8), pending = -1; u64 due = 0; int expect[16] = { };
		for (int i = 0; i < n; ++i)
		{
			int op = sim::W(6);
			u64 before = pending >= 0 ? due : ~0ull;
			if (op < 3)
			{
				u64 delay = sim::WP(50) ? 20000 + sim::W(4) * 30000 : 0;
				Timer::TaskType task = Fn<void ()>([pr, i] { sim::Quiet q; ++pr[i]; });
				if (delay) d->Defer(task, Us(delay)); else d->Defer(task);
				pending = i; due = sim::nowUs() + (delay ? delay : dflt);
			}
			else if (op < 4) { d->Cancel(); pending = -1; }
			else
			{
				bool toEnd = pending < 0 || sim::WP(50);
				if (toEnd) { if (pending >= 0) { if (due > sim::nowUs()) sim::sleepUs(due - sim::nowUs()); sim::sleepUs(15000); expect[pending] = 1; pending = -1; } else sim::sleepUs(60000); }
				else if (due > sim::nowUs() + 30000) sim::sleepUs((due - sim::nowUs() - 25000) / 2);
			}
			if (pending >= 0 && sim::nowUs() + 3000 > due) break;
			if (op < 4 && before != ~0ull && sim::nowUs() + 3000 > before) break;	// (the call was so slow that the former function may have run before it was superseded)
			sim::Quiet q;
			for (int k = 0; k < 16; ++k) SIM_CHECK(ran[k] == expect[k], "sequence", "function of step " << k << " ran " << ran[k] << " times at step " << i << ", expected " << expect[k]);
		}
		delete d;
		delete timer;
	}
}

SIM_SCENARIO(plain, 5) { Scenario(3, false, false, false); }
SIM_SCENARIO(periodic, 3) { Scenario(3, false, true, false); }
SIM_SCENARIO(with_timer, 2) { Scenario(2, true, false, false); }
SIM_SCENARIO(self_cancel, 2) { Scenario(3, false, false, true); }
SIM_SCENARIO_F(sequential, 3, sim::NoStalls) { Sequential(); }

// The deferred functions take a mutex under which the users defer: Defer may not hold a mutex of the deferrer which a running function would need.
SIM_SCENARIO(lock_order, 2)
{
	SilenceLog();
	std::recursive_mutex app; std::recursive_mutex* pa = &app; int ran = 0, *pr = &ran, deferred = 0, *pd = &deferred;
	std::unique_ptr<Timer> timer; std::unique_ptr<ExecutionDeferrer> d; std::unique_ptr<ExecutionDeferrerWithTimer> dt;
	if (sim::WP(30)) dt.reset(new ExecutionDeferrerWithTimer("deferrer", Us(300)));
	else { timer.reset(new Timer("timer", null, Fn<void (const std::exception&)>([] (const std::exception&) { }))); d.reset(new ExecutionDeferrer(*timer, Us(300))); }
	ExecutionDeferrer* p = d.get(); ExecutionDeferrerWithTimer* pt = dt.get();
	bool last = false, *pl = &last;
	auto defer = [=](bool final)
	{
		Timer::TaskType f = Fn<void ()>([=] { std::lock_guard<std::recursive_mutex> l(*pa); sim::point(); sim::Quiet q; ++*pr; if (final) *pl = true; });
		u64 us = 100 + sim::W(5) * 300;
		if (p) p->Defer(f, Us(us)); else pt->Defer(f, Us(us));
		sim::Quiet q; ++*pd;
	};
	bool underLock = sim::WP(80);
	Clients cs; int nc = sim::WR(1, 3);
	for (int c = 0; c < nc; ++c)
	{
		int n = sim::WR(1, 5);
		Spawn(cs, "user", [=] { for (int i = 0; i < n; ++i) { { std::unique_lock<std::recursive_mutex> l(*pa, std::defer_lock); if (underLock) l.lock(); defer(false); } if (sim::WP(60)) sim::sleepUs(sim::W(6) * 300); else if (sim::WP(30)) { if (p) p->Cancel(); else pt->Cancel(); } } });
	}
	JoinAll(cs);
	defer(true);
	SIM_CHECK(sim::waitFor([pl] { return *pl; }, 600000000ull, 1000), "not-run", "the last deferred function is not run");
	d.reset(); dt.reset(); timer.reset();
	sim::Quiet q; SIM_CHECK(ran <= deferred, "run-twice", ran << " runs of " << deferred << " functions");
}
