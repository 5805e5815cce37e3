// C04: ThreadTaskExecutor
#include "common.h"
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/TaskLifeToken.h>

namespace
{
	struct Rec
	{
		int id, client, kind;
		int runs = 0; bool accepted = false, threw = false, released = false, releaseStarted = false, running = false, mayMiss = false;
		u64 added = 0, started = 0;
		int payload = 0;
		std::shared_ptr<TaskLifeToken> token;
	};
	typedef std::shared_ptr<Rec> RecPtr;

	struct World
	{
		std::vector<RecPtr> recs;
		int active = 0, executorFiber = 0;
		std::multiset<std::string> handled, expectedHandled;
		bool destroyed = false;
		std::map<int, u64> lastStarted;
		unique_ptr<ThreadTaskExecutor> ex;

		RecPtr NewRec(int client) { sim::Quiet q; RecPtr r = std::make_shared<Rec>(); r->id = (int)recs.size(); r->client = client; recs.push_back(r); return r; }
	};


	void RunTask(World& w, const RecPtr& r, int payload, const Tracked& t, int kind, int dur);

	// kind: 0 plain, 1 sleeps, 2 throws, 3 adds a task, 4 releases its own token
	void Add(World& w, int client, int kind, int dur, bool withToken, unsigned allocFaults)
	{
		RecPtr r = w.NewRec(client); r->kind = kind;
		if (withToken || kind == 4) { sim::Quiet q; r->token = std::make_shared<TaskLifeToken>(); }
		{ sim::Quiet q; r->added = sim::seq(); }
		int* payload = new int(0);
		*payload = 1000 + r->id;													// instrumented write, must be visible to the task
		Tracked t;
		std::shared_ptr<int> keep(payload);
		World* pw = &w;
		stingray::function<void ()> task = Fn<void ()>([pw, r, payload, keep, t, kind, dur] { RunTask(*pw, r, *payload, t, kind, dur); });
		try
		{
			sim::AllocFaults af(allocFaults);
			if (r->token) w.ex->AddTask(task, r->token->GetExecutionTester());
			else w.ex->AddTask(task);
			r->accepted = true;
		}
		catch (const std::bad_alloc&) { sim::probe("add failed"); }
		sim::Quiet q;
		task = Fn<void ()>([] { });
	}

	void RunTask(World& w, const RecPtr& r, int payload, const Tracked& t, int kind, int dur)
	{
		{
			sim::Quiet q;
			SIM_CHECK(!w.destroyed, "task-after-destruction", "task " << r->id << " runs after the executor's destructor returned");
			SIM_CHECK(++r->runs == 1, "task-run-twice", "task " << r->id << " is run a second time");
			SIM_CHECK(++w.active == 1, "tasks-concurrent", "two tasks of one executor run at the same time (task " << r->id << ")");
			SIM_CHECK(!r->released, "task-after-release", "task " << r->id << " runs after its life token was released");
			if (!w.executorFiber) w.executorFiber = sim::self();
			SIM_CHECK(w.executorFiber == sim::self() && sim::self() != 1, "wrong-thread", "task " << r->id << " runs in thread " << sim::self() << ", others in " << w.executorFiber);
			SIM_CHECK(payload == 1000 + r->id, "payload", "task " << r->id << " sees " << payload);
			u64& last = w.lastStarted[r->client];
			SIM_CHECK(last < r->added, "order", "task " << r->id << " of client " << r->client << " runs after a task the client added later");
			last = r->added;
			r->running = true;
		}
		t.Touch();
		sim::point();
		if (kind == 1) sim::sleepUs(dur);
		if (kind == 3) Add(w, 100 + r->id, 0, 0, false, 0);
		if (kind == 4) { r->releaseStarted = true; r->token->Release(); }
		sim::point();
		t.Touch();
		{ sim::Quiet q; r->running = false; --w.active; }
		if (kind == 2) { { sim::Quiet q; r->threw = true; w.expectedHandled.insert("task " + std::to_string(r->id)); } ThrowSome("task " + std::to_string(r->id)); }
	}

	void Scenario(optional<TimeDuration> profile, int maxClients, int maxTasks, bool allocFaults)
	{
		SilenceLog();
		World w;
		bool slowHandler = sim::WP(20);
		World* pw = &w;
		stingray::function<void (const std::exception&)> handler = Fn<void (const std::exception&)>([pw, slowHandler] (const std::exception& e)
		{
			{ sim::Quiet q; SIM_CHECK(!pw->destroyed, "handler-after-destruction", "exception handler runs after destruction"); pw->handled.insert(e.what()); }
			if (slowHandler) sim::point();
		});
		if (allocFaults) ThreadTaskExecutor warm("warm", profile);	// (a singleton which runs out of memory stays unusable)
		while (!w.ex)
			try { sim::AllocFaults f(allocFaults ? 60 : 0); w.ex.reset(new ThreadTaskExecutor("ex", profile, handler)); }
			catch (const std::bad_alloc&) { sim::probe("an executor is not created for lack of memory"); }
		int nClients = sim::WR(1, maxClients);
		unsigned af = allocFaults && sim::WP(50) ? 150 : 0;
		Clients cs;
		for (int c = 0; c < nClients; ++c)
		{
			int n = sim::WR(1, maxTasks);
			Spawn(cs, "adder", [pw, c, n, af, maxTasks]
			{
				std::vector<RecPtr> mine;
				for (int i = 0; i < n; ++i)
				{
					static const int kinds[] = { 0, 0, 1, 2, 3, 4, 0, 2 };
					int kind = kinds[sim::W(8)];
					bool tok = sim::WP(40);
					size_t before; { sim::Quiet q; before = pw->recs.size(); }
					(void)before;
					Add(*pw, c, kind, sim::W(3) * 400 + 50, tok, af);
					{ sim::Quiet q; for (auto& r : pw->recs) if (r->client == c && r->token && r->kind != 4 && !r->releaseStarted && std::find(mine.begin(), mine.end(), r) == mine.end()) mine.push_back(r); }
					if (sim::WP(25)) sim::sleepUs(sim::W(4) * 300);
					if (!mine.empty() && sim::WP(50))
					{
						RecPtr r = mine[sim::W(mine.size())];
						if (!r->releaseStarted)
						{
							r->releaseStarted = true;
							sim::probe(r->running ? "release while running" : r->runs ? "release after run" : "release before run");
							r->token->Release();
							sim::Quiet q;
							SIM_CHECK(!r->running, "running-after-release", "task " << r->id << " still runs after its token's release returned");
							r->released = true;
						}
					}
				}
			});
		}
		JoinAll(cs);
		if (sim::WP(30)) sim::sleepUs(sim::W(4) * 500);
		bool busy; { sim::Quiet q; busy = w.active; }
		if (busy) sim::probe("destroyed while a task runs");
		w.ex.reset();
		{
			sim::Quiet q;
			w.destroyed = true;
			SIM_CHECK(w.active == 0, "task-running-after-destruction", "a task is still running after the executor's destructor returned");
			for (auto& r : w.recs)
			{
				if (r->accepted && !r->releaseStarted) SIM_CHECK(r->runs == 1, "task-lost", "task " << r->id << " (client " << r->client << ") was accepted but ran " << r->runs << " times");
				if (r->kind == 4 && r->accepted) SIM_CHECK(r->runs == 1, "task-lost", "task " << r->id << " was accepted but ran " << r->runs << " times");
				if (!r->accepted) SIM_CHECK(r->runs == 0, "rejected-task-run", "task " << r->id << " ran although adding it failed");
			}
			SIM_CHECK(w.handled == w.expectedHandled, "exceptions", w.expectedHandled.size() << " tasks threw, the exception handler was called " << w.handled.size() << " times (or for other exceptions)");
		}
		sim::sleepUs(5000);
		for (auto& r : w.recs) if (r->token) r->token->Release();
		sim::Quiet q;
		w.recs.clear();
		SIM_CHECK(Tracked::Live() == 0, "task-leak", Tracked::Live() << " captured objects outlive the executor");
	}
}

SIM_SCENARIO(plain, 6) { Scenario(null, 3, 5, false); }
SIM_SCENARIO(alloc_faults, 1) { Scenario(null, 2, 5, true); }
SIM_SCENARIO(profiled, 1) { Scenario(TimeDuration::FromMilliseconds(1), 2, 3, false); }
SIM_SCENARIO(many, 1) { Scenario(null, 5, 14, false); }

// A captured object whose destruction takes a lock of the application, which other threads hold while adding tasks.
SIM_SCENARIO(lock_order, 1)
{
	SilenceLog();
	Mutex app;
	struct Locker { Mutex* m; Locker(Mutex* m) : m(m) { } ~Locker() { MutexLock l(*m); } };
	int ran = 0, n = sim::WR(2, 4);
	{
		ThreadTaskExecutor ex("ex", null);
		Clients cs;
		for (int c = 0; c < 2; ++c)
			Spawn(cs, "adder", [&]
			{
				for (int i = 0; i < n; ++i)
				{
					std::shared_ptr<Locker> lk = std::make_shared<Locker>(&app);
					stingray::function<void ()> t = Fn<void ()>([&ran, &app, lk] { MutexLock l(app); sim::Quiet q; ++ran; });
					lk.reset();
					MutexLock l(app);
					ex.AddTask(t);
				}
			});
		JoinAll(cs);
	}
	SIM_CHECK(ran == 2 * n, "task-lost", ran << " of " << 2 * n << " tasks ran");
}

// An idle executor must pick up a task soon: nothing but the new task wakes it.
SIM_SCENARIO_F(prompt, 2, sim::NoStalls | sim::NoClockJumps)
{
	SilenceLog();
	ThreadTaskExecutor ex("ex", null);
	int n = sim::WR(1, 5);
	for (int i = 0; i < n; ++i)
	{
		if (sim::WP(50)) sim::sleepUs(sim::W(5) * 200);
		bool done = false; bool* p = &done;
		u64 t0 = sim::nowUs();
		ex.AddTask(Fn<void ()>([p] { sim::Quiet q; *p = true; }));
		SIM_CHECK(sim::waitFor([p] { return *p; }, 60000000, 1000), "not-run", "a task added to an idle executor was not run within a minute of simulated time");
		SIM_CHECK(sim::nowUs() - t0 < 2000000, "late", "a task added to an idle executor took " << sim::nowUs() - t0 << " us");
	}
}
