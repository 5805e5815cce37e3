// C22: Thread, PosixThreadEngine, thread-local data, thread registry
#include "common.h"
#include <stingraykit/thread/posix/ThreadLocal.h>
#include <stingraykit/thread/DisableInterruptionPoints.h>
#include <stingraykit/thread/ThreadOperation.h>
#include <stingraykit/diagnostics/ExecutorsProfiler.h>

namespace
{
	struct TlsA
	{
		static int& Live() { static int n = 0; return n; }
		static int& Mode() { static int m = 0; return m; }
		int* Value; int Owner;
		TlsA() : Value(new int(0)), Owner(sim::self()) { sim::Quiet q; ++Live(); }
		~TlsA();
	};
	struct TlsB
	{
		static int& Live() { static int n = 0; return n; }
		std::vector<int> Values;
		TlsB() { sim::Quiet q; ++Live(); }
		~TlsB() { sim::Quiet q; --Live(); }
	};
	STINGRAYKIT_DECLARE_THREAD_LOCAL(TlsA, LocalA); STINGRAYKIT_DEFINE_THREAD_LOCAL(TlsA, LocalA);
	STINGRAYKIT_DECLARE_THREAD_LOCAL(TlsB, LocalB); STINGRAYKIT_DEFINE_THREAD_LOCAL(TlsB, LocalB);
	TlsA::~TlsA()
	{
		SIM_CHECK(Owner == sim::self(), "tls-shared", "per-thread data of another thread is released");
		if (Mode() & 1) LocalB::Get().Values.push_back(1);
		if (Mode() & 2) { std::string n = Thread::GetCurrentThreadName(); sim::note("name %s", n.c_str()); }
		*Value = -1; delete Value; Value = nullptr;
		sim::Quiet q; --Live();
	}

	struct Record
	{
		int runs = 0; bool entered = false, left = false, throws = false, sawCancel = false, destroyBegun = false, refused = false, created = false;
		ThreadId id = 0; u64 startNs = 0; int index = 0;
		int* In = nullptr; int* Out = nullptr;
		std::vector<std::unique_ptr<Record>> children;
		~Record() { delete In; delete Out; }
	};
	std::vector<Record*>& Alive() { static std::vector<Record*> v; return v; }

	struct Plan { int kind, work, throws, tls, timeoutUs, children; std::string name; };
	Plan MakePlan(int depth)
	{
		Plan p; p.kind = sim::W(5); p.work = sim::W(4); p.throws = sim::WP(25) ? (int)sim::WR(1, 2) : 0; p.tls = sim::W(3); p.timeoutUs = sim::WP(30) ? (int)sim::W(5) * 400 : sim::WP(20) ? 2000000000 : -1; p.children = depth ? (int)sim::W(3) : 0;
		static const char* names[] = { "worker", "", "a thread with a very long name indeed", "x" }; p.name = names[sim::W(4)];
		return p;
	}

	ThreadPtr Start(Record* r, Plan plan, int depth);
	void Stop(Record* r, ThreadPtr& t)
	{
		{ sim::Quiet q; r->destroyBegun = true; }
		const u64 t0 = sim::nowNs();
		t.reset();
		SIM_CHECK(sim::nowNs() - t0 < 120 * 1000000000ull, "slow-stop", "destruction of a thread object takes " << (sim::nowNs() - t0) / 1000000000 << " s");
		SIM_CHECK(r->left && r->runs == 1, "not-joined", "destruction of a thread object returned though its function ran " << r->runs << " times and has " << (r->left ? "" : "not ") << "ended");
		SIM_CHECK(*r->Out == *r->In + 1, "lost-write", "what a thread wrote is not seen after it was joined");
		bool gone = false;
		{ sim::Quiet q; auto& a = Alive(); a.erase(std::find(a.begin(), a.end(), r)); }
		(void)gone;
	}

	unsigned& Oom() { static unsigned n = 0; return n; }	// per mille of the allocations of those who create threads

	void Body(Record* r, const Plan& plan, int depth, const ICancellationToken& token)
	{
		sim::NoFaults nf;
		{
			sim::Quiet q; ++r->runs; SIM_CHECK(!r->refused, "not-joined", "the function of a thread whose construction failed for lack of memory begins after that"); SIM_CHECK(r->runs == 1, "ran-twice", "a thread function runs twice"); r->entered = true; r->startNs = sim::nowNs();
			r->id = Thread::GetCurrentThreadId();
			for (Record* o : Alive()) SIM_CHECK(o == r || !o->entered || o->left || o->id != r->id, "thread-id", "two threads have the same id");
		}
		struct Leave { Record* r; ~Leave() { sim::Quiet q; r->left = true; } } leave = { r };
		SIM_CHECK(*r->In == 40 + r->index, "lost-write", "a thread does not see what its creator wrote");
		SIM_CHECK(Thread::GetCurrentThreadName() == plan.name, "thread-name", "the name of the thread is '" << Thread::GetCurrentThreadName() << "'");
		if (plan.tls)
		{
			TlsA& a = LocalA::Get(); SIM_CHECK(*a.Value == 0 && a.Owner == sim::self(), "tls-shared", "new per-thread data is not new"); *a.Value = r->index + 1;
			if (plan.tls == 2) LocalB::Get().Values.assign(3, r->index);
		}
		std::vector<ThreadPtr> ts; std::vector<Record*> rs;
		for (int i = 0; i < plan.children; ++i)
		{
			Record* c = new Record; { sim::Quiet q; r->children.emplace_back(c); c->index = 100 * (r->index + 1) + i; }
			ThreadPtr t = Start(c, MakePlan(depth - 1), depth - 1);
			if (t) { ts.push_back(t); rs.push_back(c); }
		}
		for (int i = 0; i < plan.work; ++i) { sim::point(); if (i == 1) Thread::Yield(); }
		Mutex m; ConditionVariable cv;
		switch (plan.kind)
		{
		case 0: break;
		case 1: while (token) { MutexLock l(m); cv.Wait(m, token); } { sim::Quiet q; r->sawCancel = true; } break;
		case 2: while (token) Thread::SleepMicroseconds(300); { sim::Quiet q; r->sawCancel = true; } break;
		case 3: token.Sleep(TimeDuration::FromHours(1)); { sim::Quiet q; r->sawCancel = true; } break;
		case 4: { u64 t0 = sim::nowNs(); Thread::SleepMicroseconds(700); SIM_CHECK(sim::nowNs() - t0 + 2000 >= 700000, "slept-short", "a sleep ended early"); break; }
		}
		if (r->sawCancel)
		{
			sim::Quiet q;
			SIM_CHECK(r->destroyBegun || (Oom() && !r->created) || (plan.timeoutUs >= 0 && sim::nowNs() - r->startNs + 3000000 >= u64(plan.timeoutUs) * 1000), "false-cancel", "the token of a thread is cancelled though the thread is not being destroyed");
		}
		if (plan.tls) SIM_CHECK(*LocalA::Get().Value == r->index + 1, "tls-shared", "per-thread data was changed by another thread");
		if (plan.tls == 2) SIM_CHECK(LocalB::Get().Values == std::vector<int>(3, r->index), "tls-shared", "per-thread data was changed by another thread");
		while (!ts.empty()) { size_t i = sim::W((u32)ts.size()); Stop(rs[i], ts[i]); ts.erase(ts.begin() + i); rs.erase(rs.begin() + i); }
		*r->Out = *r->In + 1;
		if (plan.throws) { sim::Quiet q; r->throws = true; }
		if (plan.throws == 1) ThrowSome("thread function");
		if (plan.throws == 2) STINGRAYKIT_THROW(LogicException("thread function"));
	}

	ThreadPtr Start(Record* r, Plan plan, int depth)
	{
		r->In = new int(40 + r->index); r->Out = new int(0);
		{ sim::Quiet q; Alive().push_back(r); }
		ThreadPtr t;
		try { sim::AllocFaults af(Oom()); t.reset(new Thread(plan.name, Fn<void (const ICancellationToken&)>([=](const ICancellationToken& token) { Body(r, plan, depth, token); }), plan.timeoutUs >= 0 ? optional<TimeDuration>(Us(plan.timeoutUs)) : optional<TimeDuration>())); }
		catch (const std::bad_alloc&)	// (it may have been running already: it is cancelled and joined then)
		{
			sim::probe("a thread is not created for lack of memory"); sim::Quiet q; r->refused = true;
			SIM_CHECK(r->entered == r->left, "not-joined", "the construction of a thread object failed but its function is still running");
			auto& a = Alive(); a.erase(std::find(a.begin(), a.end(), r));
			return ThreadPtr();
		}
		{ sim::Quiet q; r->created = true; }
		return t;
	}

	void Threads(unsigned oom)
	{
		SilenceLog(); Oom() = oom;
		TlsA::Mode() = sim::W(4);
		{ sim::Quiet q; Alive().clear(); }
		ExecutorsProfiler::Instance();
		unsigned base = sim::liveThreads();
		if (sim::WP(50)) *LocalA::Get().Value = -77;
		int own; { sim::Quiet q; own = TlsA::Live(); }
		int n = sim::WR(1, 4);
		std::vector<std::unique_ptr<Record>> records; std::vector<ThreadPtr> ts;
		for (int i = 0; i < n; ++i)
		{
			records.emplace_back(new Record); records[i]->index = i;
			ThreadPtr t = Start(records[i].get(), MakePlan(1), 1);
			if (t) ts.push_back(t); else { records.pop_back(); --n; --i; }
			if (sim::WP(30)) sim::sleepUs(sim::W(5) * 300);
		}
		// ids and names as seen from outside; the thread may have renamed nothing
		for (int i = 0; i < n; ++i)
			if (sim::WP(40))
			{
				ThreadId id = ts[i]->GetId();
				SIM_CHECK(sim::waitFor([&] { return records[i]->entered; }, 10000000), "hang", "a thread does not start");
				SIM_CHECK(id == records[i]->id, "thread-id", "the id of the thread object is not the one seen inside");
			}
		// destroy them in any order, some from other threads
		Clients cs; std::vector<Record*> order; for (auto& r : records) order.push_back(r.get());
		while (!ts.empty())
		{
			size_t i = sim::W((u32)ts.size());
			Record* r = order[i];
			if (sim::WP(40))
			{
				ThreadPtr* t = new ThreadPtr; t->swap(ts[i]);
				Spawn(cs, "destroyer", [=] { if (sim::WP(50)) sim::sleepUs(sim::W(4) * 400); Stop(r, *t); delete t; });
			}
			else Stop(r, ts[i]);
			ts.erase(ts.begin() + i); order.erase(order.begin() + i);
		}
		Clients* pc = &cs;
		SIM_CHECK(sim::waitFor([pc] { return AllDone(*pc); }, 60000000, 1000), "hang", "destruction of a thread object hangs");
		JoinAll(cs);
		SIM_CHECK(sim::liveThreads() == base, "left-running", "a thread is still running after every thread object is gone");
		SIM_CHECK(TlsA::Live() == own, "tls-leak", TlsA::Live() - own << " per-thread objects are alive after their threads ended");
		SIM_CHECK(TlsB::Live() == 0, "tls-leak", TlsB::Live() << " per-thread objects are alive after their threads ended");
	}
	SIM_SCENARIO(threads, 50) { Threads(0); }
	SIM_SCENARIO(alloc_faults, 15) { Threads(sim::WR(20, 250)); }

	// Thread infos, backtrace requests and the registry while threads come and go
	void Registry()
	{
		SilenceLog();
		TlsA::Mode() = 0;
		ExecutorsProfiler::Instance();
		unsigned base = sim::liveThreads();
		Clients cs; int n = sim::WR(1, 3);
		struct Shared { std::vector<IThreadInfoPtr> infos; std::vector<ThreadId> live, dead; } sh; Shared* ps = &sh;
		Mutex mx; Mutex* pm = &mx; bool stop = false; bool* pstop = &stop;
		for (int c = 0; c < n; ++c)
			Spawn(cs, "owner", [=]
			{
				int k = sim::WR(1, 3);
				for (int i = 0; i < k; ++i)
				{
					bool ren = sim::WP(40), longer = sim::WP(50);
					std::string name = "t" + std::to_string(c) + "." + std::to_string(i);
					ThreadPtr t(new Thread(name, Fn<void (const ICancellationToken&)>([=](const ICancellationToken& token)
					{
						SIM_CHECK(Thread::GetCurrentThreadName() == name, "thread-name", "wrong name in a thread");
						{ MutexLock l(*pm); ps->infos.push_back(Thread::GetCurrentThreadInfo()); ps->live.push_back(Thread::GetCurrentThreadId()); }
						if (ren) { Thread::SetCurrentThreadName(name + "r"); SIM_CHECK(Thread::GetCurrentThreadName() == name + "r", "thread-name", "renaming is not seen"); }
						if (longer) token.Sleep(TimeDuration::FromSeconds(5));
						MutexLock l(*pm); ps->live.erase(std::find(ps->live.begin(), ps->live.end(), Thread::GetCurrentThreadId()));
					})));
					ThreadId id = t->GetId();
					if (sim::WP(50)) sim::sleepUs(sim::W(4) * 300);
					t.reset();
					bool known = true;
					try { ThreadEngine::GetPthreadIdFromThreadId(id); } catch (const std::exception&) { known = false; }
					SIM_CHECK(!known, "registry", "a thread which ended is still registered");
				}
			});
		Spawn(cs, "watcher", [=]
		{
			int k = sim::WR(1, 6);
			for (int i = 0; i < k; ++i)
			{
				std::vector<IThreadInfoPtr> v; ThreadId id = 0; bool have = false;
				{ MutexLock l(*pm); v = ps->infos; if (!ps->live.empty()) { id = ps->live.front(); have = true; try { ThreadEngine::GetPthreadIdFromThreadId(id); } catch (const std::exception&) { have = false; SIM_CHECK(false, "registry", "a running thread is not registered"); } } }
				for (auto& p : v) { SIM_CHECK(p, "thread-info", "a thread has no info"); std::string s = p->GetName(); SIM_CHECK(s.size() >= 4 && s[0] == 't', "thread-name", "the info of a thread has the name '" << s << "'"); p->RequestBacktrace(); }
				sim::sleepUs(sim::W(4) * 300);
			}
		});
		(void)pstop; (void)stop;
		Clients* pc = &cs;
		SIM_CHECK(sim::waitFor([pc] { return AllDone(*pc); }, 60000000, 1000), "hang", "threads do not end");
		JoinAll(cs);
		for (auto& p : sh.infos) p->RequestBacktrace();
		SIM_CHECK(sim::liveThreads() == base, "left-running", "a thread is still running after every thread object is gone");
	}
	SIM_SCENARIO(registry, 25) { Registry(); }

	// Threads which are interrupted: they unwind at an interruption point, never where interruptions are disabled, and are joined as usual
	struct Guest
	{
		bool interruptBegun = false, interrupted = false, entered = false, left = false, finished = false; int guarded = 0, objects = 0;
	};
	struct Local { Guest* g; explicit Local(Guest* g) : g(g) { sim::Quiet q; ++g->objects; } ~Local() { sim::point(); sim::Quiet q; --g->objects; } };
	struct GuestEnd { Guest* g; ~GuestEnd() { sim::Quiet q; g->left = true; if (!g->finished) { SIM_CHECK(g->interruptBegun, "false-interrupt", "a thread which nobody interrupted is unwound"); SIM_CHECK(!g->guarded, "guarded-interrupt", "a thread is interrupted although interruptions are disabled"); sim::probe("thread unwound"); } } };

	void Nap(Guest* g, int how, u64 us, Mutex& m, ConditionVariable& cv)
	{
		bool must; { sim::Quiet q; must = g->interrupted && !g->guarded; }
		switch (how)
		{
		case 0: Thread::InterruptionPoint(); break;
		case 1: Thread::SleepMicroseconds(us); break;
		case 2: { MutexLock l(m); cv.TimedWait(m, Us(us)); break; }
		default: { MutexLock l(m); Local inner(g); cv.TimedWait(m, Us(us)); break; }
		}
		SIM_CHECK(!must, "not-interrupted", "a thread goes on behind an interruption point although it was interrupted before");
	}

	void Interrupts()
	{
		SilenceLog();
		ExecutorsProfiler::Instance(); TlsA::Mode() = 0;
		unsigned base = sim::liveThreads();
		int n = sim::WR(1, 3); std::vector<std::unique_ptr<Guest> > gs; std::vector<ThreadPtr> ts; Mutex m; ConditionVariable cv; Mutex* pm = &m; ConditionVariable* pc = &cv;
		for (int i = 0; i < n; ++i)
		{
			gs.emplace_back(new Guest); Guest* g = gs.back().get(); int rounds = sim::WR(1, 12); bool endless = sim::WP(40); Tracked t;
			ts.push_back(ThreadPtr(new Thread("guest", Fn<void (const ICancellationToken&)>([=](const ICancellationToken& token)
			{
				GuestEnd end = { g }; Local l(g); Tracked mine = t; TlsA& tls = LocalA::Get(); (void)tls;
				{ sim::Quiet q; g->entered = true; }
				for (int k = 0; endless ? (bool)token : k < rounds; ++k)
				{
					int how = sim::W(4); u64 us = 100 + sim::W(5) * 400;
					if (sim::WP(60)) Nap(g, how, us, *pm, *pc);
					else
					{
						auto guarded = [=]
						{
							{ sim::Quiet q; ++g->guarded; }
							for (int j = sim::WR(1, 3); j; --j)
							{
								Nap(g, sim::W(4), us, *pm, *pc);
								if (sim::WP(30)) { EnableInterruptionPoints again(false); Nap(g, sim::W(4), us, *pm, *pc); }
								if (sim::WP(30)) { Thread inside("inside", Fn<void (const ICancellationToken&)>([](const ICancellationToken&) { Thread::SleepMicroseconds(200); })); }
								if (sim::WP(20)) { { sim::Quiet q; --g->guarded; } { EnableInterruptionPoints on(true); Nap(g, sim::W(4), us, *pm, *pc); { sim::Quiet q; ++g->guarded; } } }
							}
							sim::Quiet q; --g->guarded;
						};
						if (sim::WP(50)) { EnableInterruptionPoints off(false); guarded(); }
						else DisableInterruptionPoints(stingray::function<void ()>(Fn<void ()>(guarded)))();
						SIM_CHECK(ThreadEngine::EnableInterruptionPoints(true), "interruption-state", "interruptions stay disabled after the scope which disabled them");
					}
				}
				sim::Quiet q; g->finished = true;
			}))));
		}
		for (int i = 0; i < n; ++i)
		{
			if (sim::WP(60)) sim::sleepUs(sim::W(10) * 300);
			Guest* g = gs[i].get();
			if (sim::WP(65))
			{
				{ sim::Quiet q; g->interruptBegun = true; }
				ts[i]->Interrupt();
				{ sim::Quiet q; g->interrupted = true; }
				if (sim::WP(60)) SIM_CHECK(sim::waitFor([g] { return g->left; }, 60000000), "hang", "an interrupted thread does not end");
			}
			ts[i].reset();
			SIM_CHECK(g->left == g->entered, "not-joined", "destruction of a thread object returned though its function has not ended");
			SIM_CHECK(!g->objects, "interrupt-leak", g->objects << " objects are left on the stack of an interrupted thread");
			if (!g->interruptBegun) SIM_CHECK(g->finished, "false-interrupt", "a thread which nobody interrupted did not finish");
		}
		SIM_CHECK(Tracked::Live() == 0, "interrupt-leak", Tracked::Live() << " captured objects are left of interrupted threads");
		SIM_CHECK(sim::liveThreads() == base, "left-running", "a thread is still running after every thread object is gone");
		SIM_CHECK(TlsA::Live() == 0, "tls-leak", TlsA::Live() << " per-thread objects are alive after their threads ended");
	}
	SIM_SCENARIO(interrupts, 20) { Interrupts(); }
}
