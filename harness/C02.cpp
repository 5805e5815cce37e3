// C02: after the token of a connection is reset the handler is not running and never starts
#include "common.h"
#include <stingraykit/signal/signals.h>
#include <stingraykit/signal/SignalToFuture.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/ObservableValue.h>

namespace
{
	struct Handler
	{
		int id = 0, running = 0, begun = 0, refs = 0;
		bool released = false, selfReset = false, async = false;
		std::map<int, int> depth;
		int* resource = new int(9);
		std::unique_ptr<Token> token;
		bool resetInside = false;
	};

	struct World
	{
		std::deque<Handler> all;
		Handler* New() { sim::Quiet q; all.emplace_back(); all.back().id = (int)all.size() - 1; return &all.back(); }
	};

	// Called with the token reset or destroyed by this thread
	void AfterReset(Handler* h)
	{
		int inside;
		{
			sim::Quiet q;
			inside = h->depth[sim::self()];
			SIM_CHECK(h->running == inside, "running-after-reset", "handler " << h->id << " is running in another thread after the reset of its token returned");
			h->released = true;
		}
		if (!inside) { *h->resource = 0; delete h->resource; }
	}

	void ResetToken(Handler* h)
	{
		std::unique_ptr<Token> t; { sim::Quiet q; t = std::move(h->token); }
		if (!t) return;
		sim::hbAcquire(h);
		switch (sim::W(3)) { case 0: t->Reset(); break; case 1: *t = Token(); break; case 2: { Token moved(std::move(*t)); break; } }
		AfterReset(h);
		sim::Quiet q; t.reset();
	}

	void Body(Handler* h, int steps, const Tracked& t)
	{
		{ sim::Quiet q; SIM_CHECK(!h->released, "ran-after-reset", "handler " << h->id << " starts after the reset of its token returned"); ++h->running; ++h->begun; ++h->depth[sim::self()]; }
		t.Touch();
		for (int i = 0; i < steps; ++i) { SIM_CHECK(*h->resource == 9, "used-after-reset", "a handler uses what was freed after the reset"); sim::point(); if (i == 2) sim::sleepUs(300); }
		bool self; { sim::Quiet q; self = h->resetInside && h->token; }
		if (self) ResetToken(h);
		t.Touch();
		SIM_CHECK(*h->resource == 9, "used-after-reset", "a handler uses what was freed after the reset");
		sim::Quiet q; --h->running; --h->depth[sim::self()];
	}

	stingray::function<void (int)> MakeHandler(Handler* h) { int steps = sim::W(4); Tracked t; return Fn<void (int)>([h, steps, t](int) { Body(h, steps, t); }); }

	template < typename S > bool Connect(const S& s, Handler* h, const ITaskExecutorPtr& ex, bool current)
	{
		{ sim::Quiet q; h->async = bool(ex); }
		auto f = MakeHandler(h);
		Token t = ex ? s.connect(ex, f, current) : s.connect(f, current);
		{ sim::Quiet q; h->token.reset(new Token(std::move(t))); }
		sim::hbRelease(h);
		return true;
	}

	// Emits, connects, resets and destroys at the same time
	template < typename SignalT > void Barrier(std::function<SignalT* ()> make, bool executors)
	{
		SilenceLog();
		{
			World w; World* pw = &w;
			std::unique_ptr<SignalT> s(make()); SignalT* ps = s.get();
			ITaskExecutorPtr ex; if (executors) ex = make_shared_ptr<ThreadTaskExecutor>("worker", optional<TimeDuration>());
			int n = sim::WR(1, 3); bool current = sim::WP(50), stop = false, *pstop = &stop;
			for (int i = 0; i < n; ++i) { Handler* h = w.New(); h->resetInside = sim::WP(20); Connect(*s, h, executors && sim::WP(75) ? ex : ITaskExecutorPtr(), current && !h->resetInside); }
			// an executor is not destroyed from its own thread
			ITaskExecutorPtr keep; for (Handler& h : w.all) if (h.resetInside) keep = ex;
			Clients cs; int emitters = sim::WR(1, 2), users = sim::WR(1, 2);
			auto* conn = new signal_connector<void (int)>(s->connector());
			for (int t = 0; t < emitters; ++t)
			{
				auto* inv = new typename SignalT::Invoker(s->invoker());
				Spawn(cs, "emitter", [=] { typename SignalT::Invoker invoker(*inv); delete inv; int c = sim::WR(1, 5); for (int i = 0; i < c; ++i) invoker(i); });
			}
			for (int t = 0; t < users; ++t)
			{
				auto* myEx = new ITaskExecutorPtr(ex); auto* myConn = new signal_connector<void (int)>(*conn);
				Spawn(cs, "user", [=]
				{
					{
						ITaskExecutorPtr e(*myEx); delete myEx; signal_connector<void (int)> connector(*myConn); delete myConn;
						int ops = sim::WR(1, 5);
						for (int o = 0; o < ops; ++o)
							switch (sim::W(4))
							{
							case 0: { Handler* h = pw->New(); Connect(connector, h, executors && sim::WP(75) ? e : ITaskExecutorPtr(), false); break; }
							case 1: case 2: { Handler* victim = nullptr; { sim::Quiet q; for (Handler& h : pw->all) if (h.token && !h.resetInside && (!victim || sim::WP(50))) victim = &h; } if (victim) ResetToken(victim); break; }
							case 3: sim::sleepUs(sim::W(3) * 200); break;
							}
					}
				});
			}
			delete conn;
			(void)ps; (void)pstop;
			if (sim::WP(50)) { sim::sleepUs(sim::W(4) * 300); s.reset(); }
			if (executors && sim::WP(40)) { sim::sleepUs(sim::W(4) * 300); ex.reset(); }
			for (Handler& h : w.all) if (sim::WP(50) && h.token && !h.resetInside) ResetToken(&h);
			JoinAll(cs);
			if (sim::WP(50)) s.reset();
			if (sim::WP(50)) ex.reset();
			for (Handler& h : w.all) { sim::sleepUs(sim::W(2) * 200); bool t; { sim::Quiet q; t = bool(h.token); } if (t) ResetToken(&h); }
			sim::sleepUs(sim::W(3) * 500);
			SIM_CHECK(sim::waitFor([&] { for (Handler& h : w.all) if (h.running) return false; return true; }, 60000000), "hang", "a handler does not end");
		}
		SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are left");
	}

	typedef signal<void (int)> Default;
	typedef signal<void (int), signal_policies::threading::ExternalMutexPointer> External;
}

SIM_SCENARIO_F(synchronous, 4, sim::NoSpurious)
{ Barrier<Default>([] { return new Default; }, false); }

SIM_SCENARIO_F(executors, 4, sim::NoSpurious)
{ Barrier<Default>([] { return new Default; }, true); }

SIM_SCENARIO_F(external_mutex, 2, sim::NoSpurious)
{ bool ex = sim::WP(30); Barrier<External>([] { return new External(signal_policies::threading::ExternalMutexPointer(make_shared_ptr<Mutex>())); }, ex); }

SIM_SCENARIO_F(with_state, 2, sim::NoSpurious)
{ bool ex = sim::WP(40); Barrier<Default>([] { return new Default(stingray::function<void (const stingray::function<void (int)>&)>(Fn<void (const stingray::function<void (int)>&)>([](const stingray::function<void (int)>& f) { f(-1); sim::point(); f(-2); }))); }, ex); }

// A handler resets another handler's token: in the same emission that one is not invoked any more
SIM_SCENARIO_F(inside_handler, 2, sim::NoSpurious)
{
	SilenceLog();
	{
		World w; Default s; Default* ps = &s;
		int n = sim::WR(2, 4), killer = sim::W(n);
		std::vector<Handler*> hs; for (int i = 0; i < n; ++i) hs.push_back(w.New());
		Handler** ph = hs.data();
		int killAt = sim::W(2), emission = 0, *pe = &emission;
		for (int i = 0; i < n; ++i)
		{
			Handler* h = hs[i]; bool kills = i == killer; Tracked t;
			auto f = Fn<void (int)>([=](int)
			{
				Body(h, 1, t);
				bool now; { sim::Quiet q; now = kills && *pe == killAt; }
				if (now) { int v = sim::W(n); if (ph[v] == h) { { sim::Quiet q; ++h->running; ++h->depth[sim::self()]; } ResetToken(h); { sim::Quiet q; --h->running; --h->depth[sim::self()]; } } else ResetToken(ph[v]); }
				t.Touch();
			});
			h->token.reset(new Token(s.connect(f)));
		}
		Clients cs; bool other = sim::WP(50);
		Default::Invoker* inv = new Default::Invoker(s.invoker());
		if (other) Spawn(cs, "resetter", [=] { for (int i = 0; i < n; ++i) if (i != killer && sim::WP(50)) ResetToken(ph[i]); });
		for (int i = 0; i < 3; ++i) { { sim::Quiet q; emission = i; } (*ps)(i); }
		delete inv;
		JoinAll(cs);
		for (Handler* h : hs) ResetToken(h);
	}
	SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are left");
}

// Queued invocations of a threadless executor are dropped by a reset
SIM_SCENARIO_F(queued, 2, sim::NoSpurious)
{
	SilenceLog();
	{
		World w; World* pw = &w; Default s; Default* ps = &s; (void)pw;
		shared_ptr<ThreadlessTaskExecutor> ex = make_shared_ptr<ThreadlessTaskExecutor>("tl", optional<TimeDuration>());
		int n = sim::WR(1, 3); std::vector<Handler*> hs;
		for (int i = 0; i < n; ++i) { Handler* h = w.New(); h->resetInside = sim::WP(30); Connect(s, h, ex, false); hs.push_back(h); }
		Handler** ph = hs.data();
		Clients cs; bool threaded = sim::WP(60);
		auto emit = [=] { int c = sim::WR(1, 4); for (int i = 0; i < c; ++i) (*ps)(i); };
		auto reset = [=] { for (int i = 0; i < n; ++i) { bool mine; { sim::Quiet q; mine = !ph[i]->resetInside; } if (mine && sim::WP(60)) ResetToken(ph[i]); } };
		auto* own = new shared_ptr<ThreadlessTaskExecutor>(ex);
		auto poll = [=] { int c = sim::WR(1, 3); for (int i = 0; i < c; ++i) (*own)->ExecuteTasks(DummyCancellationToken()); };
		if (threaded) { Spawn(cs, "emitter", emit); Spawn(cs, "poller", poll); Spawn(cs, "resetter", reset); }
		else for (int i = 0; i < 5; ++i) switch (sim::W(3)) { case 0: emit(); break; case 1: poll(); break; case 2: reset(); break; }
		JoinAll(cs); delete own;
		if (sim::WP(50)) ex->ExecuteTasks(DummyCancellationToken());
		for (Handler* h : hs) ResetToken(h);
		if (sim::WP(50)) ex->ExecuteTasks(DummyCancellationToken());
		if (sim::WP(30)) ex->ClearTasks();
	}
	SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are left");
}

// The connection of an observable value, also when the observer goes away while it is set
SIM_SCENARIO_F(observable_value, 2, sim::NoSpurious)
{
	SilenceLog();
	{
		World w; World* pw = &w; (void)pw;
		std::unique_ptr<ObservableValue<int> > v(new ObservableValue<int>(1)); ObservableValue<int>* pv = v.get();
		int n = sim::WR(1, 3); std::vector<Handler*> hs;
		for (int i = 0; i < n; ++i) { Handler* h = w.New(); Connect(v->OnChanged(), h, null, true); hs.push_back(h); }
		Handler** ph = hs.data();
		Clients cs; int setters = sim::WR(1, 2);
		for (int t = 0; t < setters; ++t) Spawn(cs, "setter", [=] { int c = sim::WR(1, 4); for (int i = 0; i < c; ++i) pv->Set(t * 100 + i); });
		Spawn(cs, "resetter", [=] { for (int i = 0; i < n; ++i) if (sim::WP(70)) ResetToken(ph[i]); });
		JoinAll(cs);
		if (sim::WP(50)) v.reset();
		for (Handler* h : hs) ResetToken(h);
	}
	SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are left");
}

// A wrapper which turns a signal into a future goes away while the signal is emitted
SIM_SCENARIO_F(signal_to_future, 1, sim::NoSpurious)
{
	SilenceLog();
	Default s; Default* ps = &s; bool emitted = false, *pe = &emitted; int first = -1, *pf = &first;
	std::unique_ptr<SignalToFutureWrapper<int> > w(new SignalToFutureWrapper<int>(s.connector()));
	shared_future<int> f = w->GetFuture();
	Clients cs;
	Spawn(cs, "emitter", [=] { int c = sim::WR(1, 3); for (int i = 0; i < c; ++i) { (*ps)(i + 5); sim::Quiet q; *pe = true; if (*pf < 0) *pf = 5; } });
	sim::sleepUs(sim::W(3) * 100);
	bool before; { sim::Quiet q; before = emitted; }
	w.reset();
	bool broken = false; int got = 0;
	try { got = f.get(); } catch (const std::exception&) { broken = true; }
	SIM_CHECK(!(before && broken), "not-invoked", "a future made of a signal is broken though the signal was emitted");
	SIM_CHECK(broken || got == 5, "wrong-value", "a future made of a signal gives " << got);
	JoinAll(cs);
}
