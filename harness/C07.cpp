// C07: Timer
#include "common.h"
#include <stingraykit/timer/Timer.h>
#include <mutex>

namespace
{
	enum Kind { Plain, Sleeps, Throws, AddsTask, ResetsSelf, ResetsOther, SetsTimeout, Locks };	// Locks: needs a mutex under which the users set and reset other tasks
	enum Type { Added, Once, Periodic, Far };	// Far: due only long after the run

	struct Rec
	{
		int id = 0, client = 0, kind = 0, type = 0, runs = 0;
		u64 delayUs = 0, intervalUs = 0, setNs = 0, acceptedNs = 0, setSeq = 0, acceptedSeq = 0;
		bool accepted = false, refused = false, running = false, releaseStarted = false, released = false;
		Token token;
		std::shared_ptr<TaskLifeToken> life;
	};
	typedef std::shared_ptr<Rec> RecPtr;
	typedef std::weak_ptr<Rec> RecWeak;

	struct Locker { std::recursive_mutex* m; explicit Locker(std::recursive_mutex* m) : m(m) { } ~Locker() { std::lock_guard<std::recursive_mutex> l(*m); sim::point(); } };

	struct World
	{
		std::vector<RecPtr> recs;
		int active = 0;
		int oom = 0;		// per mille of the allocations of those who set tasks
		bool logs = false, settling = false, destroyed = false, profiled = false;
		std::multiset<std::string> handled, expected;
		Timer* timer = NULL;
		std::recursive_mutex user;

		RecPtr NewRec(int client, int type, int kind, u64 delay, u64 interval)
		{
			sim::Quiet q;
			RecPtr r = std::make_shared<Rec>();
			r->id = (int)recs.size(); r->client = client; r->type = type; r->kind = kind; r->delayUs = delay; r->intervalUs = interval;
			recs.push_back(r);
			return r;
		}

		void Start(const RecPtr& r)
		{
			World* w = this;
			std::shared_ptr<int> payload(new int(0));
			*payload = 100 + r->id;
			Tracked t;
			Rec* raw = r.get();
			std::shared_ptr<Locker> locker; if (r->kind == Locks) locker = std::make_shared<Locker>(&user);
			Timer::TaskType task = Fn<void ()>([w, raw, payload, t, locker] { w->Run(raw, *payload, t); });
			locker.reset();
			{ sim::Quiet q; r->setNs = sim::nowNs(); r->setSeq = sim::seq(); if (r->type == Added && r->client >= 0 && sim::faultsEnabled() && r->id % 3 == 0) r->life = std::make_shared<TaskLifeToken>(); }
			Token tok;
			try
			{
				sim::AllocFaults af(oom);
				if (r->type == Added) { if (r->life) timer->AddTask(task, r->life->GetExecutionTester()); else timer->AddTask(task); }
				else if (r->type == Once) tok = r->id % 5 ? timer->SetTimeout(Us(r->delayUs), task) : timer->SetTimer(Us(r->delayUs), TimeDuration::Max(), task);	// an interval that never ends is one run
				else if (r->type == Far)
				{
					const TimeDuration delay = r->id % 3 == 0 ? TimeDuration::Max() : r->id % 3 == 1 ? TimeDuration::Max() - Us(sim::W(4) * 2000) : TimeDuration::FromHours(24 * 365 * (1 + sim::W(200)));
					tok = r->id % 2 ? timer->SetTimeout(delay, task) : timer->SetTimer(delay, sim::WP(50) ? Us(500) : TimeDuration::Max(), task);
				}
				else if (r->delayUs == r->intervalUs) tok = timer->SetTimer(Us(r->intervalUs), task);
				else tok = timer->SetTimer(Us(r->delayUs), Us(r->intervalUs), task);
			}
			catch (const std::bad_alloc&) { sim::probe("a task refused for lack of memory"); sim::Quiet q; r->refused = true; }
			task = Timer::TaskType(&Nop);
			sim::Quiet q;
			r->token = std::move(tok); sim::hbRelease(r.get());
			if (r->refused) return;
			r->accepted = true; r->acceptedNs = sim::nowNs(); r->acceptedSeq = sim::seq();
		}
		static void Nop() { }

		// r->token is taken so that only one thread releases it
		bool Release(const RecPtr r, bool inTask)
		{
			Token tok; std::shared_ptr<TaskLifeToken> life;
			{
				sim::Quiet q;
				if (!r->accepted || r->releaseStarted) return false;
				if (!r->token && !r->life) return false;
				r->releaseStarted = true; sim::hbAcquire(r.get());
				tok = std::move(r->token); life = r->life;
			}
			if (life) life->Release();
			tok.Reset();
			sim::Quiet q;
			r->released = true;
			if (!inTask) SIM_CHECK(!r->running, "running-after-reset", "task " << r->id << " is running although its token was reset");
			return true;
		}

		void Run(Rec* r, int payload, const Tracked& t)
		{
			sim::NoFaults nf;
			World* w = this;
			int id; int kind; int client;
			{
				sim::Quiet q;
				u64 now = sim::nowNs();
				id = r->id; kind = r->kind; client = r->client;
				SIM_CHECK(!r->refused, "refused-runs", "task " << id << " runs although the call which set it failed for lack of memory");
				SIM_CHECK(!destroyed, "task-after-destruction", "task " << id << " runs after the timer was destroyed");
				SIM_CHECK(!r->released, "task-after-reset", "task " << id << " runs after its token was reset");
				SIM_CHECK(r->type != Far, "early", "task " << id << ", which is due in many years, runs " << (now - r->setNs) / 1000 << " us after it was set");
				SIM_CHECK(++active == 1, "tasks-concurrent", "two tasks of the timer run at once (task " << id << ")");
				++r->runs;
				SIM_CHECK(r->type == Periodic || r->runs == 1, "task-run-twice", "one-shot task " << id << " is run a second time");
				SIM_CHECK(payload == 100 + id, "payload", "task " << id << " sees " << payload);
				u64 due = r->setNs + (r->delayUs + (r->runs - 1) * r->intervalUs) * 1000;
				SIM_CHECK(now + 2000 >= due, "early", "run " << r->runs << " of task " << id << " starts " << (due - now) << " ns before its time");
				if (r->runs == 1)
					for (auto& o : recs)
					{
						if (o.get() == r || !o->accepted || o->runs || o->releaseStarted || o->type == Far) continue;
						// o was in the queue when this task was taken from it, and was due before it
						if (o->acceptedSeq < r->setSeq || o->acceptedNs < due)
							if (o->acceptedNs + o->delayUs * 1000 + 2000 < due || (o->acceptedSeq < r->setSeq && o->delayUs == 0 && r->delayUs == 0))
								SIM_CHECK(false, "order", "task " << id << " runs before task " << o->id << ", which is due earlier and was set before");
					}
				r->running = true;
			}
			t.Touch();
			sim::point();
			if (kind == Sleeps) sim::sleepUs(100 + sim::W(6) * 400);
			else if (kind == Locks) { std::lock_guard<std::recursive_mutex> l(user); sim::point(); }
			else if (settling) ;
			else if (kind == AddsTask) { RecPtr n = NewRec(-1, Added, Plain, 0, 0); Start(n); }
			else if (kind == SetsTimeout) { RecPtr n = NewRec(-1, Once, Plain, sim::W(4) * 300, 0); Start(n); }
			else if (kind == ResetsOther)
			{
				RecPtr o; { sim::Quiet q; o = recs[sim::W((uint32_t)recs.size())]; }
				if (o.get() != r && o->kind != Locks) Release(o, true);	// (its captured object would need the mutex of a user who may be waiting for this task)
			}
			sim::point();
			t.Touch();
			bool self = false;
			{ sim::Quiet q; r->running = false; --active; if (kind == Throws) expected.insert("t" + std::to_string(id)); self = kind == ResetsSelf && !profiled; }	// (resetting a token inside its own task is reported as an error, but must not hang)
			if (self) { RecPtr me; { sim::Quiet q; me = w->recs[id]; } w->Release(me, true); return; }		// the task object is gone now
			if (kind == Throws) ThrowSome("t" + std::to_string(id));
		}
		bool AllDone() const
		{
			for (auto& r : recs) if (r->accepted && !r->releaseStarted && !r->runs && r->type != Far) return false;
			return logs || handled == expected;
		}
	};

	void Scenario(optional<TimeDuration> profile, int clients, int ops, bool raceDestroy, int oom = 0)
	{
		SilenceLog();
		World w; World* pw = &w;
		w.logs = sim::WP(15);	// the default handler of exceptions writes them to the log
		if (oom) Timer warm("warm", profile);	// (a singleton which runs out of memory stays unusable)
		while (!w.timer)
			try { sim::AllocFaults f(oom ? 60 : 0); w.timer = w.logs ? new Timer("timer", profile) : new Timer("timer", profile, Fn<void (const std::exception&)>([pw] (const std::exception& e) { sim::Quiet q; pw->handled.insert(e.what()); })); }
			catch (const std::bad_alloc&) { sim::probe("a timer is not created for lack of memory"); }
		w.oom = oom;
		w.profiled = profile.is_initialized();
		Clients cs;
		int nc = sim::WR(1, clients);
		for (int c = 0; c < nc; ++c)
		{
			int n = sim::WR(1, ops);
			Spawn(cs, "client", [pw, c, n]
			{
				std::vector<RecPtr> mine;
				for (int i = 0; i < n; ++i)
				{
					int op = sim::W(8); std::unique_lock<std::recursive_mutex> lock(pw->user, std::defer_lock); if (op < 5 && sim::WP(25)) lock.lock();
					if (op < 2)
					{
						int kind = sim::W(6); if (kind == 5) kind = Locks; if (kind == ResetsSelf) kind = ResetsOther;
						RecPtr r = pw->NewRec(c, Added, kind, 0, 0); pw->Start(r);
						sim::Quiet q; mine.push_back(r);
					}
					else if (op < 4) { RecPtr r = pw->NewRec(c, Once, sim::W(8), sim::W(6) * sim::WR(1, 8) * 150, 0); pw->Start(r); sim::Quiet q; mine.push_back(r); }
					else if (op < 5 && sim::WP(25)) { RecPtr r = pw->NewRec(c, Far, sim::W(7), 0, 0); pw->Start(r); sim::probe("a task due in many years"); sim::Quiet q; mine.push_back(r); }
					else if (op < 5)
					{
						u64 iv = 400 + sim::W(5) * 500; u64 first = sim::WP(50) ? iv : sim::W(4) * 300;
						RecPtr r = pw->NewRec(c, Periodic, sim::W(8), first, iv); pw->Start(r); sim::Quiet q; mine.push_back(r);
					}
					else if (op < 7)
					{
						RecPtr r; { sim::Quiet q; std::vector<RecPtr>& v = sim::WP(30) ? pw->recs : mine; if (!v.empty()) r = v[sim::W((uint32_t)v.size())]; }
						if (r && r->kind != Locks && sim::WP(40)) lock.lock();
						if (r && pw->Release(r, false)) sim::probe("token reset");
					}
					else sim::sleepUs(sim::W(8) * 300);
				}
			});
		}
		JoinAll(cs);
		bool settle = sim::WP(70);
		{ sim::Quiet q; w.settling = true; }	// from here on tasks add no further tasks
		if (settle)
		{
			SIM_CHECK(sim::waitFor([pw] { return pw->AllDone(); }, 600000000ull, 2000), "task-lost", "a due task is not run (or an exception not reported) within ten minutes of simulated time");
			// periodic tasks keep running
			std::vector<std::pair<RecPtr, int>> per;
			{ sim::Quiet q; for (auto& r : w.recs) if (r->type == Periodic && r->accepted && !r->releaseStarted) per.push_back(std::make_pair(r, r->runs)); }
			auto* pp = &per;
			SIM_CHECK(sim::waitFor([pp] { for (auto& p : *pp) if (!p.first->releaseStarted && p.first->runs < p.second + 2) return false; return true; }, 600000000ull, 2000), "periodic-stopped", "a periodic task does not run any more");
		}
		Clients late;
		if (raceDestroy)
			for (int k = 0; k < 2; ++k)
				Spawn(late, "releaser", [pw, k]
				{
					std::vector<RecPtr> v; { sim::Quiet q; v = pw->recs; }
					for (size_t i = k; i < v.size(); i += 2) { std::unique_lock<std::recursive_mutex> lock(pw->user, std::defer_lock); if (v[i]->kind != Locks && sim::WP(50)) lock.lock(); pw->Release(v[i], false); sim::point(); }
				});
		delete w.timer;
		{
			sim::Quiet q;
			w.destroyed = true;
			SIM_CHECK(w.active == 0, "task-after-destruction", "a task still runs after the timer was destroyed");
			for (auto& r : w.recs) if (r->type == Added && r->client >= 0 && r->accepted && !r->releaseStarted) SIM_CHECK(r->runs == 1, "task-lost", "task " << r->id << " was added to the timer but not run when the timer is gone");
		}
		JoinAll(late);
		sim::sleepUs(20000);
		std::vector<RecPtr> v; { sim::Quiet q; v = w.recs; }
		for (auto& r : v) pw->Release(r, false);
		SIM_CHECK(Tracked::Live() == 0, "task-leak", Tracked::Live() << " captured objects are left when the timer and all tokens are gone");
		for (auto& r : v) if (r->life && !r->releaseStarted) r->life->Release();
	}

	// One periodic task alone: its rate
	void Rate()
	{
		SilenceLog();
		std::vector<u64> at; std::vector<u64>* pa = &at;
		Timer* t = new Timer("timer", null);
		u64 iv = 30000 + sim::W(4) * 20000, first = sim::W(3) * 15000;
		u64 dur = sim::W(3) * 500;
		u64 t0 = sim::nowNs();
		Token tok = t->SetTimer(Us(first), Us(iv), Fn<void ()>([pa, dur] { { sim::Quiet q; pa->push_back(sim::nowNs()); } if (dur) sim::sleepUs(dur); }));
		sim::sleepUs(first + iv * 12);
		tok.Reset();
		size_t n; { sim::Quiet q; n = at.size(); }
		SIM_CHECK(n >= (sim::faultsEnabled() ? 4 : 9) && n <= 13, "rate", "a task with an interval of " << iv << " us ran " << n << " times in 12 intervals");
		for (size_t i = 0; i < n; ++i) SIM_CHECK(at[i] + 2000 >= t0 + (first + i * iv) * 1000, "early", "run " << i << " is early");
		delete t;
	}

	// Short tasks and no stalled threads: every one starts soon after it is due, whatever the timer waits for
	void Latency()
	{
		SilenceLog();
		struct Rec { u64 due = 0, interval = 0; size_t runs = 0; bool released = false; };
		std::vector<std::unique_ptr<Rec>> recs; Timer* t = new Timer("timer", null); std::vector<Token> tokens; std::vector<Rec*> active;
		size_t ops = sim::WR(3, 12); const u64 allowance = 800000000;
		auto pending = [&] { sim::Quiet q; bool any = false; for (auto& r : recs) if (!r->released && !r->interval && !r->runs && r->due < sim::nowNs() + 30000000000ull) any = true; return any; };
		for (size_t k = 0; k < ops; ++k)
		{
			{ sim::Quiet q; recs.emplace_back(new Rec()); } Rec* r = recs.back().get(); size_t id = k;
			u64 delayUs = sim::W(4); delayUs = delayUs == 0 ? sim::W(2) * 500 : delayUs == 1 ? sim::WR(1000, 60000) : delayUs == 2 ? sim::WR(1, 8) * 1000000 : 600000000ull + sim::W(5) * 100000000;
			int kind = sim::W(3); u64 ivUs = sim::WR(1, 5) * 200000;
			std::function<void ()> f = [r, id, allowance]
			{
				sim::Quiet q; u64 now = sim::nowNs(); ++r->runs;
				SIM_CHECK(now <= r->due + allowance, "late", "run " << r->runs << " of task " << id << " starts " << (now - r->due) / 1000 << " us after its time though the timer had nothing to do");
				r->due = r->interval ? now + r->interval : ~0ull;
			};
			sim::note("task %zu kind %d delay %llu us", id, kind, (unsigned long long)delayUs);
			r->due = sim::nowNs() + (kind == 2 ? 0 : delayUs * 1000); if (kind == 1) r->interval = ivUs * 1000;
			u64 before = r->due;
			if (kind == 0) tokens.push_back(t->SetTimeout(Us(delayUs), Fn<void ()>(f)));
			else if (kind == 1) tokens.push_back(t->SetTimer(Us(delayUs), Us(ivUs), Fn<void ()>(f)));
			else { t->AddTask(Fn<void ()>(f)); tokens.push_back(Token()); }
			(void)before; active.push_back(r);
			if (sim::WP(50)) sim::sleepUs(sim::WP(70) ? sim::W(40000) : sim::WR(1, 3) * 1000000);
			if (sim::WP(20)) { size_t i = sim::W(tokens.size()); if (tokens[i]) { tokens[i].Reset(); sim::Quiet q; recs[i]->released = true; } }
		}
		bool any = true; for (int i = 0; any && i < 60; ++i) { sim::sleepUs(500000); any = pending(); }
		{
			sim::Quiet q; u64 now = sim::nowNs();
			for (size_t i = 0; i < recs.size(); ++i) if (!recs[i]->released && recs[i]->due != ~0ull) SIM_CHECK(now <= recs[i]->due + allowance, "late", "task " << i << " is not run " << (now - recs[i]->due) / 1000 << " us after its time though the timer had nothing to do");
		}
		tokens.clear(); delete t;
	}
}

SIM_SCENARIO(plain, 6) { Scenario(null, 3, 6, false); }
SIM_SCENARIO(release_while_destroying, 3) { Scenario(null, 2, 6, true); }
SIM_SCENARIO(alloc_faults, 2) { Scenario(null, 3, 6, sim::WP(40), sim::WR(20, 250)); }
SIM_SCENARIO(profiled, 1) { Scenario(Ms(1), 2, 4, false); }
SIM_SCENARIO_F(rate, 1, sim::NoStalls) { Rate(); }
SIM_SCENARIO_F(latency, 4, sim::NoStalls) { Latency(); }

// Tasks and captured objects which need a mutex of the application, under which others set and reset tasks and while the timer goes
SIM_SCENARIO(lock_order, 2)
{
	SilenceLog();
	std::recursive_mutex app; std::recursive_mutex* pa = &app; int ran = 0; int* pr = &ran;
	Timer* t = new Timer("timer", null); std::vector<Token> kept; Clients cs;
	for (int i = sim::WR(1, 4); i; --i)
	{
		std::shared_ptr<Locker> lk = std::make_shared<Locker>(pa); bool due = sim::WP(60);
		stingray::function<void ()> f = Fn<void ()>([pa, pr, lk] { std::lock_guard<std::recursive_mutex> l(*pa); sim::point(); sim::Quiet q; ++*pr; });
		lk.reset();
		if (sim::WP(30)) t->AddTask(f);
		else { Token tok = t->SetTimeout(due ? Us(sim::W(4) * 200) : Ms(3600000), f); kept.push_back(tok); }
	}
	for (int c = sim::WR(1, 2); c; --c)
	{
		std::shared_ptr<std::vector<Token> > mine = std::make_shared<std::vector<Token> >();
		for (int i = sim::WR(1, 4); i; --i) { Token tok = sim::WP(50) ? t->SetTimeout(Ms(3600000), Fn<void ()>([] { })) : t->SetTimer(Us(100 + sim::W(3) * 300), Us(300), Fn<void ()>([] { sim::point(); })); mine->push_back(tok); }
		Spawn(cs, "user", [pa, mine] { while (!mine->empty()) { if (sim::WP(30)) sim::sleepUs(sim::W(6) * 100); std::lock_guard<std::recursive_mutex> l(*pa); sim::point(); mine->pop_back(); } });
	}
	if (sim::WP(70)) sim::sleepUs(sim::W(8) * 100);
	delete t;
	JoinAll(cs);
	kept.clear();
}
