// C23: TaskLifeToken, TaskLifeHolder, LocalExecutionGuard, CancellableFunction, AsyncFunction
#include "common.h"
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/function/CancellableFunction.h>
#include <stingraykit/function/AsyncFunction.h>

namespace
{
	// What the oracle knows about one generation of a token
	struct Life
	{
		int running = 0, begun = 0, refused = 0;
		bool releaseBegun = false, released = false;
		int* Resource = new int(9);
		std::set<int> runners;				// fibers inside, with repetition in depth
		std::map<int, int> depth;
		~Life() { }
	};

	void Enter(Life* l)
	{
		sim::Quiet q;
		SIM_CHECK(!l->released, "ran-after-release", "a guarded call starts after the release of its token returned");
		++l->running; ++l->begun; ++l->depth[sim::self()];
	}
	void Leave(Life* l)
	{ sim::Quiet q; --l->running; --l->depth[sim::self()]; }

	void AfterRelease(Life* l)
	{
		int inside;
		{ sim::Quiet q; l->released = true; inside = l->depth[sim::self()]; SIM_CHECK(l->running == inside, "running-after-release", "a guarded call is still running in another thread after the release of its token returned"); }
		// what the guarded calls use is taken away
		if (!inside) { *l->Resource = 0; delete l->Resource; }
	}

	struct Work
	{
		Life* L; int steps; int* reached; Tracked t;
		void operator () () const { Run(); }
		int Run() const
		{
			Enter(L);
			t.Touch();
			for (int i = 0; i < steps; ++i) { SIM_CHECK(*L->Resource == 9, "used-after-release", "a guarded call uses what was freed after the release"); sim::point(); if (i == 1) sim::sleepUs(200); }
			t.Touch();
			SIM_CHECK(*L->Resource == 9, "used-after-release", "a guarded call uses what was freed after the release");
			Leave(L);
			return 5;
		}
	};

	enum Kind { Guard, Nested, VoidFunction, ValueFunction, KindCount };

	void Call(Life* l, const FutureExecutionTester& tester, int kind, int steps, bool* allowed)
	{
		bool relBefore, rel; { sim::Quiet q; relBefore = l->released; }
		int b0; { sim::Quiet q; b0 = l->begun; } (void)b0;
		bool ran = false;
		Work w = { l, steps, nullptr, Tracked() };
		switch (kind)
		{
		case Guard:
		case Nested:
		{
			LocalExecutionGuard g(tester);
			if (g)
			{
				ran = true; w();
				if (kind == Nested)
				{
					LocalExecutionGuard g2(tester);
					bool again; { sim::Quiet q; again = l->releaseBegun; }
					SIM_CHECK(bool(g2) || again, "refused-early", "a nested guarded call is refused though the token is not released");
					if (g2) w();
					sim::Quiet q; SIM_CHECK(!l->released, "running-after-release", "the release returned while a guarded call is running");
				}
			}
			break;
		}
		case VoidFunction:
		{
			bool* pr = &ran;
			auto f = MakeCancellableFunction(Fn<void ()>([w, pr] { *pr = true; w(); }), tester);
			f();
			break;
		}
		case ValueFunction:
		{
			bool* pr = &ran;
			auto f = MakeCancellableFunction(Fn<int ()>([w, pr] { *pr = true; return w.Run(); }), tester);
			try { int v = f(); SIM_CHECK(ran && v == 5, "wrong-result", "a guarded function returned " << v); }
			catch (const std::exception& ex) { SIM_CHECK(!ran && std::string(ex.what()).find("was cancelled") != std::string::npos, "wrong-error", "a guarded function failed with " << ex.what()); }
			break;
		}
		}
		{ sim::Quiet q; rel = l->releaseBegun; }
		SIM_CHECK(!relBefore || !ran, "ran-after-release", "a guarded call ran after the release");
		SIM_CHECK(ran || rel, "refused-early", "a guarded call is refused though its token is not released");
		if (allowed) *allowed = ran;
	}

	template < typename TokenT > void Direct()
	{
		SilenceLog();
		int generations = sim::WR(1, 3);
		std::unique_ptr<TokenT> token(new TokenT); TokenT* pt = token.get(); (void)pt;
		std::deque<Life> lives;
		bool selfRelease = sim::WP(20);
		for (int g = 0; g < generations; ++g)
		{
			lives.emplace_back(); Life* l = &lives.back();
			FutureExecutionTester tester = token->GetExecutionTester();
			Clients cs; int n = sim::WR(1, 3);
			for (int c = 0; c < n; ++c)
			{
				auto* own = new FutureExecutionTester(tester);
				Spawn(cs, "caller", [=]
				{
					FutureExecutionTester t(*own); delete own;
					int k = sim::WR(1, 4);
					for (int i = 0; i < k; ++i)
					{
						Call(l, t, sim::W(KindCount), sim::W(4), nullptr);
						if (sim::WP(30)) sim::sleepUs(sim::W(4) * 200);
					}
				});
			}
			if (sim::WP(70)) sim::sleepUs(sim::W(6) * 200);
			bool reset = g + 1 < generations, inside = selfRelease && sim::WP(60);
			if (inside)
			{
				LocalExecutionGuard gd(tester); SIM_CHECK(bool(gd), "refused-early", "a guarded call is refused though its token is not released");
				Enter(l); { sim::Quiet q; l->releaseBegun = true; }
				if (reset) token->Reset(); else token->Release();
				AfterRelease(l); Leave(l);
				sim::probe("released from inside");
			}
			else
			{
				{ sim::Quiet q; l->releaseBegun = true; }
				if (reset) token->Reset(); else token->Release();
				AfterRelease(l);
			}
			if (!reset && sim::WP(40)) token->Release();
			if (sim::WP(40)) { LocalExecutionGuard gd(tester); SIM_CHECK(!gd, "ran-after-release", "a guarded call is allowed after the release"); }
			Clients* pc = &cs;
			SIM_CHECK(sim::waitFor([pc] { return AllDone(*pc); }, 10000000, 500), "hang", "guarded calls hang");
			JoinAll(cs);
			sim::Quiet q; SIM_CHECK(l->running == 0, "oracle", "unbalanced");
		}
		token.reset();
		SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are alive at the end");
	}
	SIM_SCENARIO(token, 25) { Direct<TaskLifeToken>(); }
	SIM_SCENARIO(holder, 25) { Direct<TaskLifeHolder>(); }

	// Holder destroyed without an explicit release, several holders of one thread, release by several threads
	void Destroyed()
	{
		SilenceLog();
		std::unique_ptr<TaskLifeHolder> h(new TaskLifeHolder); Life life; Life* l = &life;
		FutureExecutionTester tester = h->GetExecutionTester();
		FutureExecutionTester dummy = TaskLifeToken::CreateDummyTaskToken().GetExecutionTester();
		TaskLifeToken dead = TaskLifeToken::CreateDeadTaskToken();
		{ LocalExecutionGuard a(dummy), b(dead.GetExecutionTester()), c((FutureExecutionTester(null))); SIM_CHECK(bool(a) && !b && bool(c), "dummy", "a dummy token forbids or a dead one allows a call"); }
		Clients cs; int n = sim::WR(1, 3);
		for (int c = 0; c < n; ++c)
		{
			auto* own = new FutureExecutionTester(tester);
			Spawn(cs, "caller", [=] { FutureExecutionTester t(*own); delete own; int k = sim::WR(1, 3); for (int i = 0; i < k; ++i) Call(l, t, sim::W(KindCount), sim::W(4), nullptr); });
		}
		if (sim::WP(70)) sim::sleepUs(sim::W(6) * 200);
		{ sim::Quiet q; l->releaseBegun = true; }
		h.reset(); AfterRelease(l);
		Clients* pc = &cs;
		SIM_CHECK(sim::waitFor([pc] { return AllDone(*pc); }, 10000000, 500), "hang", "guarded calls hang");
		JoinAll(cs);
	}
	SIM_SCENARIO(destroyed, 10) { Destroyed(); }

	// Asynchronous functions posted to an executor
	void Async()
	{
		SilenceLog();
		shared_ptr<ThreadTaskExecutor> ex(make_shared_ptr<ThreadTaskExecutor>("executor", null));
		std::unique_ptr<TaskLifeToken> token(new TaskLifeToken); Life life; Life* l = &life;
		int n = sim::WR(1, 3); bool stopEarly = sim::WP(25);
		Clients cs; int values = 0, brokens = 0, errors = 0; int *pv = &values, *pb = &brokens, *pe = &errors;
		for (int c = 0; c < n; ++c)
		{
			auto* own = new FutureExecutionTester(token->GetExecutionTester()); ITaskExecutorPtr* pex = new ITaskExecutorPtr(ex);
			Spawn(cs, "caller", [=]
			{
				FutureExecutionTester t(*own); delete own; ITaskExecutorPtr e(*pex); delete pex;
				int k = sim::WR(1, 4);
				std::vector<std::pair<int, std::unique_ptr<future<int>>>> fs;
				for (int i = 0; i < k; ++i)
				{
					int kind = sim::W(3), steps = sim::W(4), arg = sim::W(100);
					Work w = { l, steps, nullptr, Tracked() };
					if (kind == 0)
						MakeAsyncFunction(e, Fn<void (int)>([w](int) { w(); }), t)(arg);
					else
					{
						bool thr = kind == 2;
						auto f = MakeAsyncFunction(e, Fn<int (int)>([w, thr](int a) { w(); if (thr) ThrowSome("async error"); return a + 1; }), t);
						fs.emplace_back(thr ? -1 : arg + 1, std::unique_ptr<future<int>>(new future<int>(f(arg))));
					}
					if (sim::WP(30)) sim::sleepUs(sim::W(4) * 300);
				}
				e.reset();
				for (auto& f : fs)
					try
					{
						int v = f.second->get();
						SIM_CHECK(f.first >= 0 && v == f.first, "wrong-result", "an asynchronous call gave " << v << " instead of " << f.first); sim::Quiet q; ++*pv;
					}
					catch (const std::exception& exc)
					{
						std::string w = exc.what(); bool broken = w.find("BrokenPromise") != std::string::npos; bool rel; { sim::Quiet q; rel = l->releaseBegun; }
						SIM_CHECK(broken ? rel : (f.first == -1 && w.find("async error") != std::string::npos), "wrong-error", "an asynchronous call failed with " << w);
						sim::Quiet q; broken ? ++*pb : ++*pe;
					}
			});
		}
		if (sim::WP(70)) sim::sleepUs(sim::W(8) * 300);
		if (stopEarly)
		{
			{ sim::Quiet q; l->releaseBegun = true; }
			token->Release(); AfterRelease(l);
		}
		Clients* pc = &cs;
		SIM_CHECK(sim::waitFor([pc] { return AllDone(*pc); }, 600000000, 1000), "hang", "a caller of an asynchronous function never gets its result");
		JoinAll(cs);
		if (!stopEarly) { { sim::Quiet q; l->releaseBegun = true; } token->Release(); AfterRelease(l); SIM_CHECK(brokens == 0, "lost-result", "an asynchronous call was dropped"); }
		ex.reset();
		SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are alive at the end");
	}
	SIM_SCENARIO(async, 40) { Async(); }
}
