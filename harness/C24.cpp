// C24: tokens, token pools and maps, multi-tokens, holders, scope exits, finalizers, object pools, action transactions
#include "common.h"
#include <stingraykit/Token.h>
#include <stingraykit/FunctionToken.h>
#include <stingraykit/ObjectToken.h>
#include <stingraykit/MultiToken.h>
#include <stingraykit/Holder.h>
#include <stingraykit/ScopeExit.h>
#include <stingraykit/Finalizer.h>
#include <stingraykit/ObjectPool.h>
#include <stingraykit/ActionTransaction.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>

namespace
{
	enum Behaviour { Plain, Throws, Waits, Adds, BehaviourCount };

	// One resource and what may release it
	struct Res
	{
		int id, key, behaviour = Plain, runs = 0, running = 0, runner = -1;
		uint64_t added = 0, addEnded = 0, runAt = 0, releaseBegunBeforeRun = 0;
		bool owned = true;				// some token still keeps it
		std::function<void ()> inside;
		Res(int i, int k) : id(i), key(k) { }
	};

	struct World
	{
		std::deque<Res> all;
		std::vector<std::pair<uint64_t, int> > releases;	// begin and key (-1: everything)
		bool dying = false;
		Res* New(int key = 0) { sim::Quiet q; all.emplace_back((int)all.size(), key); return &all.back(); }
		void Release(int key) { sim::Quiet q; releases.push_back(std::make_pair(sim::seq(), key)); }
		void CheckDone(const char* when, uint64_t before = ~0ull, int key = -1)
		{
			sim::Quiet q;
			for (Res& r : all)
				if (r.addEnded && r.addEnded < before && (key < 0 || key == r.key))
				{
					SIM_CHECK(r.runs, "not-released", "the release action of resource " << r.id << " has not run " << when);
					SIM_CHECK(!r.running, "not-released", "the release action of resource " << r.id << " is not finished " << when);
				}
		}
	};

	struct Act
	{
		World* w; Res* r; Tracked t;
		void operator () () const
		{
			sim::NoFaults nf;
			t.Touch();
			{
				sim::Quiet q;
				SIM_CHECK(!r->runs, "released-twice", "the release action of resource " << r->id << " runs again");
				++r->runs; ++r->running; r->runAt = sim::seq(); r->runner = sim::self();
				SIM_CHECK(!r->owned, "released-early", "the release action of resource " << r->id << " runs while its token is still held");
				bool allowed = w->dying || !r->addEnded;
				for (auto& x : w->releases) if ((x.second < 0 || x.second == r->key)) allowed = true;
				SIM_CHECK(allowed, "released-early", "the release action of resource " << r->id << " runs though nothing released it");
			}
			sim::point();
			if (r->inside) r->inside();
			t.Touch();
			{ sim::Quiet q; --r->running; }
			if (r->behaviour == Throws) ThrowSome("release action");
		}
	};

	Token NewToken(World* w, Res* r) { return MakeFunctionToken(Fn<void ()>(Act{ w, r, Tracked() })); }

	void Disown(Res* r) { sim::Quiet q; r->owned = false; }

	// Another thread which uses the pool while a release action waits for it
	template < typename F > void UseFromOtherThread(F f)
	{
		sim::Client c(f, "other");
		bool ok = sim::waitFor([&] { return c.Done(); }, 60000000);
		SIM_CHECK(ok, "deadlock", "another thread cannot use the pool while a release action runs");
		c.Join();
	}

	template < typename PoolT, typename AddF, typename ReleaseF, typename ContainsF >
	void PoolScenario(int keys, AddF add, ReleaseF release, ContainsF contains, bool threads)
	{
		SilenceLog();
		World w; World* pw = &w;
		std::unique_ptr<PoolT> pool(new PoolT); PoolT* pp = pool.get();
		std::function<void (int, bool)> addOne = [=](int key, bool plain)
		{
			Res* r = pw->New(key);
			if (!plain && sim::WP(40))
			{
				r->behaviour = 1 + sim::W(threads ? 3 : 2);
				if (!threads && r->behaviour == Waits) r->behaviour = Adds;
			}
			if (r->behaviour == Waits) r->inside = [=] { UseFromOtherThread([=] { if (contains(*pp, key)) sim::probe("not empty"); Res* n = pw->New(key); Token t; { sim::NoFaults nf; t = NewToken(pw, n); } Disown(n); { sim::NoFaults nf; add(*pp, key, std::move(t), true); } { sim::Quiet q; n->addEnded = sim::seq(); } }); };
			if (r->behaviour == Adds) r->inside = [=] { sim::NoFaults nf; Res* n = pw->New(key); Token t = NewToken(pw, n); Disown(n); add(*pp, key, std::move(t), false); sim::Quiet q; n->addEnded = sim::seq(); };
			bool built = false, move = sim::WP(50);
			try
			{
				Token t;
				{ sim::NoFaults nf; t = NewToken(pw, r); }
				built = true;
				{ sim::Quiet q; if (move) r->owned = false; r->added = sim::seq(); }
				try { sim::AllocFaults a(60); add(*pp, key, t, move); } catch (...) { Disown(r); throw; }
				{ sim::Quiet q; r->addEnded = sim::seq(); r->owned = false; }
				sim::point();
			}
			catch (const std::bad_alloc&)
			{ sim::probe("add failed"); sim::Quiet q; SIM_CHECK(built, "unexpected", "building a token failed"); r->owned = false; }
			// a failed add has released it: the copy was the only one left
		};
		{
			Clients cs; int n = threads ? sim::WR(2, 3) : 1;
			for (int c = 0; c < n; ++c)
				Spawn(cs, "user", [=]
				{
					int ops = sim::WR(2, 7);
					for (int o = 0; o < ops; ++o)
					{
						int key = sim::W(keys);
						switch (sim::W(4))
						{
						case 0: case 1: addOne(key, false); break;
						case 2: { bool all = sim::WP(50) || keys == 1; pw->Release(all ? -1 : key); try { sim::AllocFaults a(all ? 0 : 60); release(*pp, all ? -1 : key); } catch (const std::bad_alloc&) { sim::probe("release failed"); SIM_CHECK(!all, "unexpected", "releasing everything fails"); } break; }
						case 3: if (contains(*pp, key)) sim::probe("not empty"); break;
						}
					}
				});
			JoinAll(cs);
		}
		if (!threads || sim::WP(50))
		{
			uint64_t before; int key = keys > 1 && sim::WP(50) ? (int)sim::W(keys) : -1; { sim::Quiet q; before = sim::seq(); }
			pw->Release(key); release(*pool, key); w.CheckDone("after a release which nothing disturbs", before, key);
			if (key < 0) { bool any = false; { sim::Quiet q; for (Res& r : w.all) if (r.addEnded && !r.runs) any = true; } for (int k = 0; k < keys; ++k) if (!any) SIM_CHECK(!contains(*pool, k), "still-there", "a released pool is not empty"); }
		}
		if (!threads && sim::WP(50)) { addOne(0, true); SIM_CHECK(w.all.back().runs || contains(*pool, 0), "lost-token", "a pool with a token says it is empty"); }
		// actions run by the destruction may not use the pool
		{ sim::Quiet q; w.dying = true; for (Res& r : w.all) if (!r.runs) { r.inside = nullptr; } }
		pool.reset();
		w.CheckDone("after the destruction of its pool");
		{ sim::Quiet q; for (Res& r : w.all) SIM_CHECK(r.runs == 1, "not-released", "the release action of resource " << r.id << " ran " << r.runs << " times"); }
		SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are left");
	}
}

SIM_SCENARIO_F(token_pool, 4, sim::NoSpurious)
{
	PoolScenario<TokenPool>(1,
		[](TokenPool& p, int, const Token& t, bool move) { if (move) p += std::move(const_cast<Token&>(t)); else p.Add(t); },
		[](TokenPool& p, int) { p.Release(); }, [](TokenPool& p, int) { return !p.Empty(); }, true);
}

SIM_SCENARIO_F(token_map, 4, sim::NoSpurious)
{
	PoolScenario<TokenMap<int> >(3,
		[](TokenMap<int>& p, int k, const Token& t, bool move) { if (move) p[k] += std::move(const_cast<Token&>(t)); else p[k] += t; },
		[](TokenMap<int>& p, int k) { if (k < 0) p.release_all(); else p.release(k); }, [](TokenMap<int>& p, int k) { return p.contains(k); }, true);
}

namespace
{
	// Pools for one thread: an action which adds to the pool being released is not supported by the map
	template < typename PoolT, bool Map > struct OneThread
	{
		template < typename P > static void Add(P& p, int k, const Token& t, bool move, FalseType) { (void)k; if (move) p += std::move(const_cast<Token&>(t)); else p.Add(t); }
	};
}

SIM_SCENARIO_F(threadless_pool, 1, sim::NoSpurious)
{
	PoolScenario<ThreadlessTokenPool>(1,
		[](ThreadlessTokenPool& p, int, const Token& t, bool move) { if (move) p += std::move(const_cast<Token&>(t)); else p.Add(t); },
		[](ThreadlessTokenPool& p, int) { p.Release(); }, [](ThreadlessTokenPool& p, int) { return !p.Empty(); }, false);
}

SIM_SCENARIO_F(threadless_map, 1, sim::NoSpurious)
{
	SilenceLog();
	World w; World* pw = &w;
	{
		ThreadlessTokenMap<std::string> m;
		int ops = sim::WR(2, 10);
		const char* names[] = { "a", "b", "c" };
		for (int o = 0; o < ops; ++o)
		{
			int key = sim::W(3);
			switch (sim::W(5))
			{
			case 0: case 1: case 2:
			{
				Res* r = w.New(key); if (sim::WP(25)) r->behaviour = Throws;
				try { Token t; { sim::NoFaults nf; t = NewToken(pw, r); } sim::AllocFaults a(60); Disown(r); if (sim::WP(50)) m[names[key]] += t; else m[names[key]] += std::move(t); sim::Quiet q; r->addEnded = sim::seq(); } catch (const std::bad_alloc&) { }
				break;
			}
			case 3: { uint64_t b = sim::seq(); w.Release(key); m.release(names[key]); w.CheckDone("after the release of its key", b, key); SIM_CHECK(!m.contains(names[key]), "still-there", "a released key is there"); break; }
			case 4: if (sim::WP(30)) { uint64_t b = sim::seq(); w.Release(-1); m.release_all(); w.CheckDone("after the release of all keys", b); } break;
			}
		}
		w.dying = true;
	}
	w.CheckDone("after the destruction of its map");
	for (Res& r : w.all) SIM_CHECK(r.runs == 1, "not-released", "the release action of resource " << r.id << " ran " << r.runs << " times");
	SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are left");
}

// A holder used by several threads, and copies of a token dropped by several threads
SIM_SCENARIO_F(token_holder, 3, sim::NoSpurious)
{
	SilenceLog();
	World w; World* pw = &w; w.Release(-1);
	std::unique_ptr<TokenHolder> holder(new TokenHolder); TokenHolder* ph = holder.get();
	int last = -1; int* pl = &last; bool lastKnown = true; bool* plk = &lastKnown;
	Clients cs; int n = sim::WR(1, 3);
	if (n > 1) lastKnown = false;
	for (int c = 0; c < n; ++c)
		Spawn(cs, "user", [=]
		{
			int ops = sim::WR(1, 6);
			for (int o = 0; o < ops; ++o)
			{
				if (sim::WP(20)) { ph->Reset(); sim::Quiet q; if (*plk && *pl >= 0) SIM_CHECK(pw->all[*pl].runs == 1, "not-released", "a holder kept its token over a reset"); *pl = -1; continue; }
				Res* r = pw->New(); if (sim::WP(30)) r->behaviour = Throws;
				Token t = NewToken(pw, r);
				int how = sim::W(4);
				if (sim::WP(20)) r->inside = [=] { UseFromOtherThread([=] { Token e; ph->Set(e); }); sim::Quiet q; if (*plk) *pl = -1; };
				if (how & 1) Disown(r);
				switch (how)
				{
				case 0: ph->Set(t); break;
				case 1: ph->Set(std::move(t)); break;
				case 2: *ph = t; break;
				case 3: *ph = std::move(t); break;
				}
				{
					sim::Quiet q;
					if (*plk)
					{
						if (*pl >= 0) SIM_CHECK(pw->all[*pl].runs == 1, "not-released", "the replaced token of a holder is not released");
						bool interfered = false; for (Res& x : pw->all) if (x.inside) interfered = true;
						if (interfered) *plk = false;
						else if (how & 1) SIM_CHECK(!r->runs, "released-early", "the token just set is released");
						*pl = r->id;
					}
					r->owned = false;
				}
			}
		});
	JoinAll(cs);
	{ sim::Quiet q; for (Res& r : w.all) if (!r.runs) r.inside = nullptr; }
	holder.reset();
	for (Res& r : w.all) SIM_CHECK(r.runs == 1, "not-released", "the release action of resource " << r.id << " ran " << r.runs << " times");
	SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are left");
}

SIM_SCENARIO_F(shared_token, 3, sim::NoSpurious)
{
	SilenceLog();
	World w; World* pw = &w; w.Release(-1);
	Res* r = w.New(); if (sim::WP(30)) r->behaviour = Throws;
	int live = 1; int* plive = &live;
	Token t = NewToken(pw, r);
	Clients cs; int n = sim::WR(2, 3);
	for (int c = 0; c < n; ++c)
	{
		{ sim::Quiet q; ++live; }
		Token* own = new Token(t);
		Spawn(cs, "owner", [=]
		{
			Token mine(std::move(*own)); delete own;
			int ops = sim::W(4);
			for (int o = 0; o < ops; ++o)
			{
				switch (sim::W(3))
				{
				case 0: { Token copy(mine); sim::point(); SIM_CHECK(bool(copy), "lost", "a copy of a token is empty"); break; }
				case 1: { Token other(std::move(mine)); mine.Set(std::move(other)); break; }
				case 2: { Token other; other.Set(mine); mine = other; break; }
				}
				sim::Quiet q; SIM_CHECK(!r->runs, "released-early", "the release action runs while a token is held");
			}
			SIM_CHECK(mine.IsInitialized(), "lost", "a token became empty");
			{ sim::Quiet q; if (!--*plive) r->owned = false; }
			if (sim::WP(50)) mine.Reset(); else mine = null;
		});
	}
	{ sim::Quiet q; if (!--live) r->owned = false; }
	t.Reset();
	JoinAll(cs);
	SIM_CHECK(r->runs == 1, "not-released", "the release action of a shared token ran " << r->runs << " times");
	SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are left");
}

namespace
{
	template < typename BuilderT > void Multi(bool forward)
	{
		SilenceLog();
		World w; World* pw = &w; w.Release(-1);
		std::vector<Res*> order; Token result; bool failed = false; int n = sim::WR(0, 5);
		int throwAt = sim::WP(30) ? (int)sim::W(n + 1) : -1;
		try
		{
			BuilderT b; Token spare;
			for (int i = 0; i < n; ++i)
			{
				if (i == throwAt) throw std::runtime_error("half way");
				Res* r = w.New(); if (sim::WP(25)) r->behaviour = Throws;
				Token t; { sim::NoFaults nf; t = NewToken(pw, r); } Disown(r);
				sim::AllocFaults a(50);
				if (sim::WP(50)) b % t; else b % std::move(t);
				order.push_back(r);
			}
			if (throwAt == n) throw std::runtime_error("half way");
			sim::AllocFaults a(100);
			result = b;
		}
		catch (const std::exception&) { failed = true; }
		bool allRun = true, noneRun = true;
		for (Res* r : order) if (r->runs) noneRun = false; else allRun = false;
		if (failed) { sim::probe("building failed"); SIM_CHECK(allRun, "not-released", "tokens of a multi-token which failed half way are not released"); }
		else
		{
			SIM_CHECK(noneRun, "released-early", "a token of a multi-token is released while the multi-token lives");
			if (sim::WP(50)) { Token copy(result); result.Reset(); sim::Quiet q; for (Res* r : order) SIM_CHECK(!r->runs, "released-early", "a token of a shared multi-token is released"); }
			result.Reset();
		}
		for (Res& r : w.all) SIM_CHECK(r.runs == 1, "not-released", "the release action of resource " << r.id << " ran " << r.runs << " times");
		for (size_t i = 1; i < order.size(); ++i)
			SIM_CHECK((order[i - 1]->runAt < order[i]->runAt) == forward, "order", "a multi-token released its tokens in a wrong order");
		SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are left");
	}
}

SIM_SCENARIO(multi_token, 2)
{ if (sim::WP(50)) Multi<ForwardMultiTokenBuilder>(true); else Multi<ReverseMultiTokenBuilder>(false); }

// Undo of actions: a model of what must be undone is kept beside
SIM_SCENARIO(action_transaction, 5)
{
	SilenceLog();
	struct A { int id; bool throws, undoThrows; int runs = 0, undone = 0; bool done = false; };
	std::deque<A> actions; std::vector<int> undo; bool committed = false, rolled = false;
	std::vector<int> undoOrder;
	auto* pu = &undoOrder;
	{
		std::unique_ptr<ActionTransaction> t(new ActionTransaction);
		int n = sim::WR(1, 6);
		for (int i = 0; i < n; ++i)
		{
			actions.emplace_back(); A* a = &actions.back(); a->id = i; a->throws = sim::WP(20); a->undoThrows = sim::WP(20);
			Tracked keep;
			ActionTransaction::ActionFunc f = Fn<void ()>([a] { SIM_CHECK(!a->runs, "action-twice", "an action runs twice"); ++a->runs; if (a->throws) ThrowSome("action"); a->done = true; });
			ActionTransaction::RollbackFunc u = Fn<void ()>([a, pu, keep]
			{
				keep.Touch();
				SIM_CHECK(a->done, "undone-not-done", "action " << a->id << " which did not succeed is undone");
				SIM_CHECK(!a->undone, "undone-twice", "action " << a->id << " is undone twice");
				++a->undone; pu->push_back(a->id);
				if (a->undoThrows) ThrowSome("undo");
			});
			bool ok = false, bad = false;
			try { sim::AllocFaults al(80); t->Execute(f, u); ok = true; }
			catch (const std::bad_alloc&) { bad = true; sim::probe("execute failed"); }
			catch (const std::exception&) { SIM_CHECK(a->throws, "unexpected", "an action which does not throw failed"); }
			SIM_CHECK(bad || ok == a->done, "unexpected", "the outcome of an action is reported wrong");
			if (bad) SIM_CHECK(!a->done || true, "", "");
			if (bad && a->done) undo.push_back(i);			// it succeeded and must be undone
			if (ok) undo.push_back(i);
			SIM_CHECK(undoOrder.empty(), "undone-early", "an action is undone while the transaction goes on");
			if (!ok && sim::WP(50)) break;
		}
		if (sim::WP(30)) { t->Commit(); committed = true; }
		else if (sim::WP(50))
		{
			try { t->Rollback(); rolled = true; } catch (const std::exception&) { sim::probe("rollback failed"); }
		}
		if (committed || rolled)
		{
			bool threw = false;
			try { switch (sim::W(3)) { case 0: t->Commit(); break; case 1: t->Rollback(); break; case 2: t->Execute(Fn<void ()>([] { SIM_CHECK(false, "action-after-end", "a finished transaction executes an action"); }), Fn<void ()>([] { })); } }
			catch (const std::exception&) { threw = true; }
			SIM_CHECK(threw, "usable-after-end", "a finished transaction accepts an operation");
		}
	}
	std::reverse(undo.begin(), undo.end());
	if (committed) undo.clear();
	std::ostringstream got, want; for (int i : undoOrder) got << i << " "; for (int i : undo) want << i << " ";
	SIM_CHECK(got.str() == want.str(), "wrong-undo", "undone: " << got.str() << "expected: " << want.str());
	SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are left");
}

namespace
{
	struct Handles
	{
		std::map<int, int> open; int next = 1, released = 0; bool throwing = false; int throws = 0;
		int Open() { open[next] = 1; return next++; }
		void Close(int h)
		{
			SIM_CHECK(open.count(h) && open[h] == 1, "released-twice", "handle " << h << " is released again or was never held");
			open[h] = 0; ++released;
			if (throwing && sim::WP(40)) { ++throws; ThrowSome("close"); }
		}
		void CheckAllClosed(int except = 0) { for (auto& x : open) SIM_CHECK(x.second == (x.first == except ? 1 : 0), x.second ? "not-released" : "released-early", "handle " << x.first << (x.second ? " is not released" : " is released while it is held")); }
	};
}

SIM_SCENARIO(scoped_holder, 2)
{
	SilenceLog();
	Handles h; Handles* ph = &h; h.throwing = sim::WP(50);
	int held = 0;
	{
		std::unique_ptr<ScopedHolder<int> > s;
		auto cleanup = Fn<void (int)>([ph](int x) { ph->Close(x); });
		if (sim::WP(50)) { held = h.Open(); s.reset(new ScopedHolder<int>(held, cleanup)); } else s.reset(new ScopedHolder<int>(cleanup));
		int ops = sim::W(6);
		for (int o = 0; o < ops; ++o)
		{
			SIM_CHECK(s->Valid() == (held != 0), "wrong-state", "a holder says it holds " << s->Valid());
			if (held) SIM_CHECK(s->Get() == held, "wrong-handle", "a holder gives another handle");
			int t0 = h.throws;
			switch (sim::W(3))
			{
			case 0: try { s->Clear(); SIM_CHECK(h.throws == t0, "lost-error", "an exception of the release action is lost"); } catch (const std::exception&) { sim::probe("cleanup threw"); } held = 0; break;
			case 1: { int n = h.Open(); try { s->Set(n); held = n; } catch (const std::exception&) { h.open[n] = 0; held = 0; sim::probe("cleanup threw"); } break; }
			case 2: { bool threw = false; int g = 0; try { g = s->Release(); } catch (const std::exception&) { threw = true; } SIM_CHECK(threw == !held && (threw || g == held), "wrong-handle", "a holder released a wrong handle"); if (held) { SIM_CHECK(h.open[held] == 1, "released-early", "a handed over handle is released"); h.open[held] = 0; } held = 0; break; }
			}
			h.CheckAllClosed(held);
		}
	}
	h.CheckAllClosed();
}

SIM_SCENARIO(void_holder, 1)
{
	SilenceLog();
	int open = 0, *po = &open; bool throwing = sim::WP(50); bool held = sim::WP(50); if (held) open = 1;
	bool shared = sim::WP(50);
	auto cleanup = Fn<void ()>([po, throwing] { SIM_CHECK(*po == 1, "released-twice", "a holder releases again"); *po = 0; if (throwing && sim::WP(40)) ThrowSome("close"); });
	{
		std::unique_ptr<ScopedHolder<void> > s; std::unique_ptr<SharedHolder<void> > a, b;
		if (shared) { a.reset(held ? new SharedHolder<void>(SharedHolder<void>::CreateInitialized(cleanup)) : new SharedHolder<void>(cleanup)); b.reset(new SharedHolder<void>(*a)); }
		else s.reset(new ScopedHolder<void>(cleanup, held));
		int ops = sim::W(6);
		for (int o = 0; o < ops; ++o)
		{
			auto* x = sim::WP(50) || !a ? b.get() : a.get();
			SIM_CHECK((shared ? x->Valid() : s->Valid()) == held, "wrong-state", "a holder says it is valid: " << !held);
			switch (sim::W(3))
			{
			case 0: try { shared ? x->Clear() : s->Clear(); } catch (const std::exception&) { } held = false; break;
			case 1: try { shared ? x->Set() : s->Set(); held = true; open = 1; } catch (const std::exception&) { held = false; } break;
			case 2: if (shared && a) { a.reset(); } break;
			}
			SIM_CHECK((open == 1) == held, held ? "released-early" : "not-released", "a holder holds " << held << " but the resource is " << (open ? "open" : "closed"));
		}
	}
	SIM_CHECK(!open, "not-released", "a holder left its resource open");
}

SIM_SCENARIO_F(shared_holder, 1, sim::NoSpurious)
{
	SilenceLog();
	Handles h; Handles* ph = &h;
	{
		int held = h.Open(); auto cleanup = Fn<void (int)>([ph](int x) { sim::Quiet q; ph->Close(x); });
		SharedHolder<int> s(held, cleanup);
		if (sim::WP(30)) { s.Clear(); h.CheckAllClosed(); SIM_CHECK(!s.Valid(), "wrong-state", "a cleared holder is valid"); held = h.Open(); s.Set(held); h.CheckAllClosed(held); }
		int left = 0, *pleft = &left;
		Clients cs; int n = sim::WR(1, 3);
		for (int c = 0; c < n; ++c) { ++left; auto* own = new SharedHolder<int>(s); Spawn(cs, "owner", [=] { { SharedHolder<int> mine(*own); delete own; SIM_CHECK(mine.Valid() && mine.Get() == held, "released-early", "a shared holder lost its handle"); sim::point(); sim::Quiet q; SIM_CHECK(ph->open[held] == 1, "released-early", "a handle is released while it is held"); --*pleft; } }); }
		s = SharedHolder<int>();
		JoinAll(cs);
	}
	h.CheckAllClosed();
}

SIM_SCENARIO(scope_exit, 1)
{
	SilenceLog();
	int runs = 0, *pr = &runs, macro = 0, *pm = &macro; bool cancel = sim::WP(30), throws = sim::WP(30), leave = sim::WP(30);
	try
	{
		Tracked t;
		ScopeExitInvoker s(Fn<void ()>([pr, throws, t] { t.Touch(); ++*pr; if (throws) throw std::runtime_error("exit"); }));
		STINGRAYKIT_SCOPE_EXIT(MK_PARAM(int*, pm), MK_PARAM(bool, throws))
			++*pm; if (throws) throw std::runtime_error("exit");
		STINGRAYKIT_SCOPE_EXIT_END;
		SIM_CHECK(!runs && !macro, "released-early", "a scope exit runs before the end of its scope");
		if (cancel) { s.Cancel(); SIM_CHECK(Tracked::Live() == 1, "leak", "a cancelled scope exit keeps its function"); }
		if (leave) throw std::logic_error("leave");
	}
	catch (const std::logic_error&) { SIM_CHECK(leave, "unexpected", "an exception of a scope exit escapes"); }
	SIM_CHECK(runs == (cancel ? 0 : 1), "not-released", "a scope exit ran " << runs << " times");
	SIM_CHECK(macro == 1, "not-released", "a scope exit block ran " << macro << " times");
	SIM_CHECK(Tracked::Live() == 0, "leak", Tracked::Live() << " captured objects are left");
}

// The owner goes in any thread, the deletion happens once in the thread of the executor
SIM_SCENARIO_F(finalizer, 2, sim::NoSpurious)
{
	SilenceLog();
	static int deleted, thread, executorThread; static bool last; deleted = 0; thread = executorThread = -1; last = false;
	struct Obj { int v = 5; ~Obj() { sim::Quiet q; SIM_CHECK(v == 5, "released-twice", "an object is deleted twice"); v = 0; SIM_CHECK(last, "released-early", "an object is deleted while it is owned"); ++deleted; thread = sim::self(); } };
	int owners = 0, *po = &owners;
	{
		ThreadTaskExecutorPtr ex = make_shared_ptr<ThreadTaskExecutor>("finalizer", optional<TimeDuration>());
		bool known = false, *pk = &known;
		ex->AddTask(Fn<void ()>([pk] { sim::Quiet q; executorThread = sim::self(); *pk = true; }));
		sim::waitFor([&] { return known; }, 60000000);
		Clients cs; int n = sim::WR(1, 3);
		{
			shared_ptr<Obj> p(new Obj, Finalizer(ex));
			for (int c = 0; c < n; ++c) { ++owners; auto* own = new shared_ptr<Obj>(p); Spawn(cs, "owner", [=] { shared_ptr<Obj> mine(*own); delete own; sim::point(); SIM_CHECK(mine->v == 5, "released-early", "an owned object is deleted"); { sim::Quiet q; if (!--*po) last = true; } }); }
			sim::Quiet q; ++owners;
			if (!--owners) last = true;
			// the reference of this thread goes last or not
			sim::hbRelease(&owners);
			if (!owners) last = true; else ++owners;
			if (!--owners) last = true;
			if (owners == 0) last = true;
		}
		JoinAll(cs);
		{ sim::Quiet q; last = true; }
		if (sim::WP(50)) SIM_CHECK(sim::waitFor([] { return deleted; }, 60000000), "not-released", "the object is not deleted");
	}
	SIM_CHECK(deleted == 1, "not-released", "an object with a finalizer was deleted " << deleted << " times");
	SIM_CHECK(thread == executorThread, "wrong-thread", "an object with a finalizer is deleted in a wrong thread");
}

SIM_SCENARIO(attached_token, 1)
{
	SilenceLog();
	World w; World* pw = &w; w.Release(-1);
	static bool destroyed; destroyed = false;
	static World* sw; sw = pw;
	struct Obj { ~Obj() { destroyed = true; for (Res& r : sw->all) SIM_CHECK(r.runs == 1, "order", "an object goes before its attached token is released"); } };
	{
		shared_ptr<Obj> raw = make_shared_ptr<Obj>(); int n = sim::WR(1, 3); shared_ptr<Obj> p;
		bool attacher = sim::WP(50), keepRaw = sim::WP(30);
		std::vector<Token> ts;
		for (int i = 0; i < n; ++i) { Res* r = w.New(); if (sim::WP(30)) r->behaviour = Throws; ts.push_back(NewToken(pw, r)); r->owned = false; }
		if (attacher) { TokenAttacher<Obj> a(raw); for (Token& t : ts) if (sim::WP(50)) a % t; else a % std::move(t); p = a; }
		else { p = raw; for (Token& t : ts) p = sim::WP(50) ? AttachToken(p, t) : AttachToken(p, std::move(t)); }
		SIM_CHECK(p.get() == raw.get(), "wrong-object", "attaching a token changes the object");
		ts.clear();
		if (!keepRaw) raw.reset();
		shared_ptr<Obj> q(p); p.reset();
		for (Res& r : w.all) SIM_CHECK(!r.runs, "released-early", "an attached token is released while the object is owned");
		SIM_CHECK(!destroyed, "released-early", "an object with an attached token is destroyed while it is owned");
		q.reset();
		for (Res& r : w.all) SIM_CHECK(r.runs == 1, "not-released", "an attached token is not released with the object");
		SIM_CHECK(destroyed == !keepRaw, "not-released", "an object with an attached token is not destroyed");
	}
	SIM_CHECK(destroyed, "not-released", "an object is not destroyed");
}

SIM_SCENARIO_F(object_pool, 2, sim::NoSpurious)
{
	SilenceLog();
	static int alive; alive = 0; static std::map<int, int>* owned; std::map<int, int> ownedStore; owned = &ownedStore; static bool over; over = false;
	struct Obj { int id; Obj(int i) : id(i) { sim::Quiet q; ++alive; } ~Obj() { sim::Quiet q; --alive; SIM_CHECK((*owned)[id] == 0, "released-early", "an object of a pool is destroyed while it is owned"); SIM_CHECK(id >= 0, "released-twice", "an object is destroyed twice"); id = -1; } };
	{
		ObjectPool pool; ObjectPool* pp = &pool; int next = 0, *pn = &next;
		Clients cs; int n = sim::WR(1, 3);
		for (int c = 0; c < n; ++c)
			Spawn(cs, "user", [=]
			{
				int ops = sim::WR(1, 5); std::deque<std::pair<int, shared_ptr<Obj> > > mine;
				for (int o = 0; o < ops; ++o)
					switch (sim::W(3))
					{
					case 0: { int id; { sim::Quiet q; id = (*pn)++; (*owned)[id] = 1; } auto p = make_shared_ptr<Obj>(id); mine.push_back(std::make_pair(id, p)); bool ok = true; try { sim::AllocFaults a(60); pp->AddObject(p); } catch (const std::bad_alloc&) { ok = false; } (void)ok; break; }
					case 1: pp->CollectGarbage(); break;
					case 2: if (!mine.empty()) { { sim::Quiet q; SIM_CHECK(mine.front().second->id == mine.front().first, "released-early", "an owned object is gone"); (*owned)[mine.front().first] = 0; } mine.pop_front(); } break;
					}
				while (!mine.empty()) { { sim::Quiet q; (*owned)[mine.front().first] = 0; } mine.pop_front(); }
			});
		JoinAll(cs);
		if (sim::WP(50)) { pool.CollectGarbage(); SIM_CHECK(!alive, "not-released", alive << " objects without owners outlive a collection"); }
	}
	SIM_CHECK(!alive, "not-released", alive << " objects outlive their pool");
}
