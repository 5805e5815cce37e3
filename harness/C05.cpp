// C05: ThreadlessTaskExecutor
#include "common.h"
#include <stingraykit/thread/ThreadlessTaskExecutor.h>

namespace
{
	struct Rec
	{
		int id = 0, client = 0, kind = 0, runs = 0;
		bool accepted = false, refused = false, started = false, running = false, released = false, releaseStarted = false, mayBeCleared = false, mustNotRun = false;
		u64 added = 0, acceptedAt = 0;
		std::shared_ptr<TaskLifeToken> token;
	};
	typedef std::shared_ptr<Rec> RecPtr;


	struct World
	{
		std::vector<RecPtr> recs;
		int active = 0, polls = 0, clearing = 0;
		bool groupCancelled = false; unsigned af = 0;
		u64 lastPollStart = 0;
		std::map<int, int> polling;						// fiber -> depth
		std::map<int, u64> lastStarted;
		std::multiset<std::string> handled, expected;
		std::unique_ptr<ThreadlessTaskExecutor> ex;

		void Add(int client, int kind, int dur, bool tok)
		{
			RecPtr r;
			{
				sim::Quiet q;
				r = std::make_shared<Rec>(); r->id = (int)recs.size(); r->client = client; r->kind = kind; r->added = sim::seq();
				if (tok) r->token = std::make_shared<TaskLifeToken>();
				if (clearing) r->mayBeCleared = true;
				recs.push_back(r);
			}
			std::shared_ptr<int> payload(new int(0));
			*payload = 500 + r->id;
			World* w = this;
			Tracked t;
			stingray::function<void ()> task = Fn<void ()>([w, r, payload, t, dur] { w->Run(r, *payload, t, dur); });
			try
			{
				sim::AllocFaults f(af);
				if (tok) ex->AddTask(task, r->token->GetExecutionTester());
				else ex->AddTask(task);
			}
			catch (const std::bad_alloc&) { sim::probe("add failed"); sim::Quiet q; r->refused = true; SIM_CHECK(!r->runs, "refused-run", "task " << r->id << " was run although adding it failed"); return; }
			sim::Quiet q;
			r->accepted = true; r->acceptedAt = sim::seq();
		}

		void Run(const RecPtr& r, int payload, const Tracked& t, int dur)
		{
			sim::NoFaults nf;
			{
				sim::Quiet q;
				SIM_CHECK(!r->refused, "refused-run", "task " << r->id << " is run although adding it failed");
				SIM_CHECK(++r->runs == 1, "task-run-twice", "task " << r->id << " is run a second time");
				SIM_CHECK(++active == 1, "tasks-concurrent", "two tasks run at the same time (task " << r->id << ")");
				SIM_CHECK(polling[sim::self()] > 0, "outside-poll", "task " << r->id << " runs outside of ExecuteTasks");
				SIM_CHECK(!r->released, "task-after-release", "task " << r->id << " runs after its life token was released");
				SIM_CHECK(!r->mustNotRun, "task-after-clear", "task " << r->id << " runs although ClearTasks dropped it");
				SIM_CHECK(payload == 500 + r->id, "payload", "task " << r->id << " sees " << payload);
				u64& last = lastStarted[r->client];
				SIM_CHECK(last < r->added, "order", "task " << r->id << " of client " << r->client << " runs after a task that client added later");
				last = r->added;
				r->started = r->running = true;
			}
			t.Touch();
			sim::point();
			if (r->kind == 1) sim::sleepUs(dur);
			if (r->kind == 3) Add(100 + r->id, 0, 0, false);
			if (r->kind == 4) Poll(false);
			sim::point();
			t.Touch();
			{ sim::Quiet q; r->running = false; --active; if (r->kind == 2) expected.insert("t" + std::to_string(r->id)); }
			if (r->kind == 2) ThrowSome("t" + std::to_string(r->id));
		}

		void Poll(bool cancelled)
		{
			{
				sim::Quiet q;
				if (!polls) groupCancelled = false;
				if (polls) sim::probe("concurrent polls");
				++polls; ++polling[sim::self()]; lastPollStart = sim::seq();
				if (cancelled) groupCancelled = true;
			}
			if (cancelled)
			{
				CancellationToken tk;
				sim::Client c([&] { sim::sleepUs(sim::W(3) * 200); tk.Cancel(); }, "canceller");
				ex->ExecuteTasks(tk);
			}
			else
				try { sim::AllocFaults f(af); ex->ExecuteTasks(); }
				catch (const std::bad_alloc&) { sim::probe("poll failed"); sim::Quiet q; groupCancelled = true; }
			sim::Quiet q;
			--polls; --polling[sim::self()];
			if (!polls && !groupCancelled)
				for (auto& r : recs)
					if (r->accepted && r->acceptedAt < lastPollStart && !r->releaseStarted && !r->mayBeCleared && !r->mustNotRun)
						SIM_CHECK(r->runs == 1, "task-left", "task " << r->id << " was added before the last ExecuteTasks began, all polls have returned, but it was not run");
		}

		void Clear()
		{
			u64 s;
			{ sim::Quiet q; ++clearing; s = sim::seq(); for (auto& r : recs) if (!r->started) r->mayBeCleared = true; }
			ex->ClearTasks();
			sim::Quiet q;
			--clearing;
			for (auto& r : recs)
				if (r->accepted && r->acceptedAt < s && !r->started && !taskPopped(r)) r->mustNotRun = true;
		}
		// A task taken by a poller that has not reached the task's body yet may still run after ClearTasks.
		bool taskPopped(const RecPtr&) const { return polls > 0; }
	};

	void Scenario(optional<TimeDuration> profile, int adders, int pollers, int tasks, bool clear, unsigned af = 0)
	{
		SilenceLog();
		World w; World* pw = &w; w.af = af;
		bool logs = sim::WP(15);	// the default handler of exceptions writes them to the log
		if (logs) w.ex.reset(new ThreadlessTaskExecutor("tl", profile));
		else w.ex.reset(new ThreadlessTaskExecutor("tl", profile, Fn<void (const std::exception&)>([pw] (const std::exception& e) { sim::NoFaults nf; sim::Quiet q; pw->handled.insert(e.what()); })));
		Clients cs;
		int na = sim::WR(1, adders), np = sim::WR(1, pollers);
		for (int c = 0; c < na; ++c)
		{
			int n = sim::WR(1, tasks);
			Spawn(cs, "adder", [pw, c, n]
			{
				std::vector<RecPtr> mine;
				for (int i = 0; i < n; ++i)
				{
					static const int kinds[] = { 0, 0, 1, 2, 3, 4, 0, 2 };
					pw->Add(c, kinds[sim::W(8)], 100 + sim::W(3) * 300, sim::WP(30));
					if (sim::WP(25)) sim::sleepUs(sim::W(4) * 300);
					if (sim::WP(30))
					{
						RecPtr r;
						{ sim::Quiet q; for (auto& x : pw->recs) if (x->client == c && x->token && !x->releaseStarted) r = x; if (r) r->releaseStarted = true; }
						if (r)
						{
							r->token->Release();
							sim::Quiet q;
							SIM_CHECK(!r->running, "running-after-release", "task " << r->id << " still runs after its token's release returned");
							r->released = true;
						}
					}
				}
			});
		}
		for (int c = 0; c < np; ++c)
		{
			int n = sim::WR(1, 4);
			Spawn(cs, "poller", [pw, n, clear]
			{
				for (int i = 0; i < n; ++i)
				{
					pw->Poll(sim::WP(20));
					if (sim::WP(30)) sim::sleepUs(sim::W(4) * 300);
					if (clear && sim::WP(25)) pw->Clear();
				}
			});
		}
		JoinAll(cs);
		w.af = 0;
		w.Poll(false);
		{
			sim::Quiet q;
			for (auto& r : w.recs)
				if (r->accepted && !r->releaseStarted && !r->mayBeCleared) SIM_CHECK(r->runs == 1, "task-lost", "task " << r->id << " was accepted but ran " << r->runs << " times");
			SIM_CHECK(logs || w.handled == w.expected, "exceptions", w.expected.size() << " tasks threw, the exception handler was called " << w.handled.size() << " times (or for other exceptions)");
		}
		w.ex.reset();
		for (auto& r : w.recs) if (r->token) r->token->Release();
		sim::Quiet q;
		w.recs.clear();
		SIM_CHECK(Tracked::Live() == 0, "task-leak", Tracked::Live() << " captured objects outlive the executor");
	}
}

SIM_SCENARIO(plain, 5) { Scenario(null, 2, 2, 5, false); }
SIM_SCENARIO(clear, 2) { Scenario(null, 2, 2, 5, true); }
SIM_SCENARIO(alloc_faults, 2) { Scenario(null, 2, 2, 5, sim::WP(30), sim::WR(20, 250)); }
SIM_SCENARIO(many, 1) { Scenario(null, 4, 4, 8, false); }
SIM_SCENARIO(profiled, 1) { Scenario(TimeDuration::FromMilliseconds(1), 2, 2, 3, false); }

// A captured object whose destruction takes a lock of the application, which other threads hold while adding tasks.
SIM_SCENARIO(lock_order, 1)
{
	SilenceLog();
	Mutex app;
	struct Locker { Mutex* m; Locker(Mutex* m) : m(m) { } ~Locker() { MutexLock l(*m); } };
	int ran = 0, n = sim::WR(2, 4);
	ThreadlessTaskExecutor ex("ex", null);
	Clients cs;
	for (int c = 0; c < 2; ++c)
		Spawn(cs, "adder", [&]
		{
			for (int i = 0; i < n; ++i)
			{
				std::shared_ptr<Locker> lk = std::make_shared<Locker>(&app);
				stingray::function<void ()> t = Fn<void ()>([&ran, &app, lk] { MutexLock l(app); sim::Quiet q; ++ran; });
				lk.reset();
				MutexLock l(app);
				ex.AddTask(t);
			}
		});
	Spawn(cs, "poller", [&] { for (int i = 0; i < 3; ++i) { ex.ExecuteTasks(); sim::point(); } });
	JoinAll(cs);
	ex.ExecuteTasks();
	SIM_CHECK(ran == 2 * n, "task-lost", ran << " of " << 2 * n << " tasks ran");
}
