// C11: future, shared_future, promise
#include "common.h"
#include <stingraykit/future.h>
#include <stingraykit/thread/TimedCancellationToken.h>

namespace
{
	struct TestError : public std::runtime_error
	{
		int Id;
		explicit TestError(int id) : std::runtime_error("test error #" + std::to_string(id) + "#"), Id(id) { }
	};

	// A value made of several cells on the heap: a torn, lost or unpublished one is visible; a copy may throw
	struct Payload
	{
		static int& Live() { static int n = 0; return n; }
		int* Cells;
		explicit Payload(int id) : Cells(new int[3]) { Cells[0] = id; Cells[1] = id * 7; Cells[2] = ~id; sim::Quiet q; ++Live(); }
		Payload(const Payload& o) : Cells(nullptr)
		{
			if (sim::fault("value copy throws", 30)) throw TestError(-1);
			Cells = new int[3]; for (int i = 0; i < 3; ++i) { Cells[i] = o.Cells[i]; if (i == 1) sim::point(); }
			sim::Quiet q; ++Live();
		}
		Payload& operator = (const Payload& o) { Payload c(o); std::swap(c.Cells, Cells); return *this; }
		~Payload() { Cells[0] = -1; Cells[1] = -1; Cells[2] = -1; delete[] Cells; sim::Quiet q; --Live(); }
		int Id() const { SIM_CHECK(Cells[1] == Cells[0] * 7 && Cells[2] == ~Cells[0], "torn-value", "a delivered value is torn: " << Cells[0] << " " << Cells[1] << " " << Cells[2]); return Cells[0]; }
	};

	template < typename T > struct Ops;
	template < > struct Ops<Payload>
	{
		static void Set(promise<Payload>& p, int id) { p.set_value(Payload(id)); }
		static int Get(const shared_future<Payload>& f) { return f.get().Id(); }
		static int Get1(future<Payload>& f) { return f.get().Id(); }
	};
	std::vector<int>& Refs() { static std::vector<int> v; return v; }
	template < > struct Ops<int&>
	{
		static void Set(promise<int&>& p, int id) { p.set_value(Refs()[id]); }
		static int Get(const shared_future<int&>& f) { return int(&f.get() - &Refs()[0]); }
		static int Get1(future<int&>& f) { return int(&f.get() - &Refs()[0]); }
	};
	template < > struct Ops<void>
	{
		static void Set(promise<void>& p, int) { p.set_value(); }
		static int Get(const shared_future<void>& f) { f.get(); return -2; }
		static int Get1(future<void>& f) { f.get(); return -2; }
	};

	// What a get or wait may give: value id >= 0 (or -2 for void), exception of id, or broken
	struct State
	{
		bool isVoid = false;
		std::set<int> valuesBegun, exceptionsBegun; std::set<int> valuesOk, valuesRejected;
		bool destroyBegun = false, destroyed = false, exceptionDone = false;
		bool resultSet = false;				// some call that leaves a result behind has returned
		int delivered = -100;				// what the first getter saw
		u64 begunNs = 0;
		bool Possible() const { return !valuesBegun.empty() || !exceptionsBegun.empty() || destroyBegun; }
		void Deliver(int id)
		{
			SIM_CHECK(delivered == -100 || delivered == id, "different-results", "two futures of one promise gave different results: " << delivered << " and " << id);
			delivered = id;
			if (id >= 2000) SIM_CHECK(destroyBegun, "false-broken", "broken promise though the promise was not destroyed");
			else if (id >= 1000) SIM_CHECK(exceptionsBegun.count(id - 1000), "alien-result", "an exception nobody set");
			else if (id == -2) SIM_CHECK(isVoid && !valuesBegun.empty(), "alien-result", "a result nobody set");
			else SIM_CHECK(valuesBegun.count(id), "alien-result", "a value nobody set: " << id);
		}
		void Final() const
		{
			SIM_CHECK(valuesOk.size() <= 1, "two-values", "two set_value calls succeeded");
			if (!valuesOk.empty() && delivered != -100) SIM_CHECK(delivered == (isVoid ? -2 : *valuesOk.begin()), "wrong-result", "the value set successfully was not the one delivered: " << delivered);
			if (!valuesOk.empty() || delivered == -100) return;
			if (delivered == 2000) SIM_CHECK(exceptionsBegun.empty() , "lost-exception", "broken promise delivered although an exception was set");
		}
	};

	template < typename F > int Observe(State* s, const F& get)
	{
		int r;
		try { r = get(); }
		catch (const RethrownException& e)
		{
			std::string w = e.what();
			size_t p = w.find("test error #");
			SIM_CHECK((p != std::string::npos) != (w.find("BrokenPromise") != std::string::npos), "alien-exception", "unexpected exception: " << w);
			r = p != std::string::npos ? 1000 + atoi(w.c_str() + p + 12) : 2000;
		}
		catch (const TestError& e) { SIM_CHECK(e.Id == -1, "alien-exception", "exception " << e.Id); sim::probe("copy failed in get"); return -1; }
		sim::Quiet q; s->Deliver(r); return r;
	}

	template < typename T > void Shared()
	{
		SilenceLog();
		{ sim::Quiet q; Refs().assign(8, 0); }
		State st; State* s = &st; st.isVoid = std::is_same<T, void>::value;
		std::unique_ptr<promise<T>> p(new promise<T>()); promise<T>* pp = p.get();
		shared_future<T> sf = p->get_future().share(); auto* psf = &sf;
		CancellationToken cancel; CancellationToken* pc = &cancel; bool cancelBegun = false; bool* pcb = &cancelBegun;
		Clients setters, waiters; int ids = 0;
		int ns = sim::W(4), nw = sim::WR(1, 3);
		for (int c = 0; c < ns; ++c)
		{
			int id = ids++; bool exc = sim::WP(40);
			Spawn(setters, "setter", [=]
			{
				if (sim::WP(60)) sim::sleepUs(sim::W(6) * 300);
				bool already; { sim::Quiet q; already = s->resultSet; (exc ? s->exceptionsBegun : s->valuesBegun).insert(id); }
				if (exc)
				{
					pp->set_exception(MakeExceptionPtr(TestError(id)));
					sim::Quiet q; s->resultSet = true;
				}
				else
					try
					{
						Ops<T>::Set(*pp, id);
						sim::Quiet q; SIM_CHECK(!already, "second-set", "a second set succeeded"); s->valuesOk.insert(id); s->resultSet = true;
					}
					catch (const PromiseAlreadySatisfied&)
					{ sim::Quiet q; SIM_CHECK(s->valuesBegun.size() + s->exceptionsBegun.size() > 1, "false-satisfied", "the only set failed as already satisfied"); s->valuesRejected.insert(id); s->resultSet = true; }
					catch (const TestError&)
					{ sim::Quiet q; s->valuesBegun.erase(id); sim::probe("copy failed in set"); }
				if (!already) { }
			});
		}
		for (int c = 0; c < nw; ++c)
		{
			auto* own = new shared_future<T>(*psf);
			Spawn(waiters, "waiter", [=]
			{
				shared_future<T> f(*own); delete own;
				int k = sim::WR(1, 4);
				for (int i = 0; i < k; ++i)
				{
					int how = sim::W(c == 0 ? 6 : 5);
					bool set0, possible; { sim::Quiet q; set0 = s->resultSet; }
					if (how == 0)
					{
						bool r = f.is_ready();
						sim::Quiet q; SIM_CHECK(!r || s->Possible(), "false-ready", "ready though nothing was set"); SIM_CHECK(r || !set0, "result-invisible", "not ready after a result was set");
					}
					else if (how == 1)
					{
						bool v = f.has_value(), e = f.has_exception();
						sim::Quiet q; SIM_CHECK(!(v && e), "two-results", "has a value and an exception"); SIM_CHECK(!v || !s->valuesBegun.empty(), "false-ready", "has a value nobody set");
						SIM_CHECK(!e || !s->exceptionsBegun.empty() || s->destroyBegun, "false-ready", "has an exception nobody set");
						SIM_CHECK(!set0 || v || e, "result-invisible", "no result after it was set");
					}
					else if (how == 2)
						Observe(s, [&] { return Ops<T>::Get(f); });
					else
					{
						u64 t0 = sim::nowNs(), us = sim::WPick(std::vector<u64>{ 0, 200, 1000, 5000 });
						future_status st = how == 3 ? f.wait() : how == 4 ? f.wait(TimedCancellationToken(Us(us))) : f.wait(*pc);
						u64 t1 = sim::nowNs();
						sim::Quiet q; possible = s->Possible();
						SIM_CHECK(st != future_status::ready || possible, "false-ready", "a wait returned ready though nothing was set");
						SIM_CHECK(st == future_status::ready || !set0, "result-invisible", "a wait did not return ready though the result was there");
						SIM_CHECK(st != future_status::timeout || (how == 4 && t1 - t0 + 2000 >= us * 1000), "false-timeout", "a wait timed out early after " << (t1 - t0) / 1000 << " us, kind " << how);
						SIM_CHECK(st != future_status::cancelled || (how == 5 && *pcb) || (how == 4 && t1 - t0 + 2000 >= us * 1000), "false-cancel", "a wait reports cancelled, kind " << how);
						if (how == 3) SIM_CHECK(st == future_status::ready, "false-return", "a plain wait returned without a result");
					}
				}
			});
		}
		bool early = sim::WP(40), doCancel = sim::WP(60);
		if (sim::WP(70)) sim::sleepUs(sim::W(8) * 300);
		if (early) sf = shared_future<T>(), (void)0;
		if (doCancel && sim::WP(50)) { { sim::Quiet q; cancelBegun = true; } cancel.Cancel(); }
		JoinAll(setters);
		bool drop = sim::WP(50);
		{ sim::Quiet q; if (drop && st.valuesOk.empty() && st.valuesRejected.empty()) st.destroyBegun = true; }
		if (drop) { p.reset(); sim::Quiet q; st.destroyed = true; st.resultSet = true; }
		if (doCancel && !cancelBegun) { { sim::Quiet q; cancelBegun = true; } cancel.Cancel(); }
		Clients* pw = &waiters;
		if (!drop && !st.resultSet)
		{
			sim::sleepUs(sim::W(4) * 500);
			int id = ids++;
			{ sim::Quiet q; st.valuesBegun.insert(id); }
			for (;;) try { Ops<T>::Set(*pp, id); break; } catch (const TestError&) { }
			sim::Quiet q; st.valuesOk.insert(id); st.resultSet = true;
		}
		SIM_CHECK(sim::waitFor([pw] { return AllDone(*pw); }, 60000000, 1000), "hang", "a waiter of a future is not woken though the result is there");
		JoinAll(waiters);
		if (sf.valid()) Observe(s, [&] { return Ops<T>::Get(sf); });
		if (!cancelBegun) cancel.Cancel();
		sf = shared_future<T>(); p.reset();
		sim::Quiet q; st.Final();
		SIM_CHECK(Payload::Live() == 0, "leak", Payload::Live() << " values are alive after every promise and future is gone");
	}
	SIM_SCENARIO(value, 30) { Shared<Payload>(); }
	SIM_SCENARIO(voids, 15) { Shared<void>(); }
	SIM_SCENARIO(refs, 15) { Shared<int&>(); }

	// One future, retrieved once, got once; promise and future in different threads, promise swapped around
	template < typename T > void Single()
	{
		SilenceLog();
		{ sim::Quiet q; Refs().assign(8, 0); }
		int n = sim::WR(1, 3);
		std::vector<std::unique_ptr<promise<T>>> ps; std::vector<int> implOf(n); std::vector<bool> retrieved(n);
		std::vector<State> states(n);
		for (int i = 0; i < n; ++i) { ps.emplace_back(new promise<T>()); implOf[i] = i; states[i].isVoid = std::is_same<T, void>::value; }
		Clients cs; auto* pst = &states; Clients* pcs = &cs;
		int steps = sim::WR(2, 12), ids = 0;
		for (int k = 0; k < steps; ++k)
		{
			int i = sim::W(n), j = sim::W(n);
			if (!ps[i]) continue;
			switch (sim::W(4))
			{
			case 0:
				if (i != j && ps[j]) { ps[i]->swap(*ps[j]); std::swap(implOf[i], implOf[j]); }
				break;
			case 1:
			{
				int impl = implOf[i];
				try
				{
					std::shared_ptr<future<T>> f(new future<T>(ps[i]->get_future()));
					SIM_CHECK(!retrieved[impl], "retrieved-twice", "the future of one promise was retrieved twice");
					retrieved[impl] = true;
					bool share = sim::WP(30); int how = sim::W(3);
					future<T>* pf = f.get(); auto* keep = new std::shared_ptr<future<T>>(f);
					Spawn(cs, "getter", [=]
					{
						State* s = &(*pst)[impl];
						if (sim::WP(50)) sim::sleepUs(sim::W(4) * 300);
						if (how == 1) { pf->wait(); SIM_CHECK(pf->is_ready(), "false-ready", "not ready after the wait"); }
						if (share)
						{
							shared_future<T> sf(pf->share());
							SIM_CHECK(!pf->valid() && sf.valid(), "validity", "share leaves the future valid");
							Observe(s, [&] { return Ops<T>::Get(sf); }); Observe(s, [&] { return Ops<T>::Get(sf); });
						}
						else
						{
							Observe(s, [&] { return Ops<T>::Get1(*pf); });
							SIM_CHECK(!pf->valid(), "validity", "get leaves the future valid");
							bool thrown = false;
							try { Ops<T>::Get1(*pf); } catch (const RethrownException&) { } catch (const std::runtime_error&) { thrown = true; }
							SIM_CHECK(thrown, "validity", "a second get of one future succeeded");
						}
						keep->reset(); delete keep;
					});
					f.reset();
				}
				catch (const FutureAlreadyRetrieved&)
				{ SIM_CHECK(retrieved[impl], "not-retrieved", "a future never retrieved is reported as retrieved"); }
				break;
			}
			case 2:
			{
				State* s = &states[implOf[i]]; int id = ids++ % 8; bool exc = sim::WP(30); bool already; { sim::Quiet q; already = s->resultSet; }
				if (exc)
				{
					{ sim::Quiet q; if (!already) s->exceptionsBegun.insert(id); }
					ps[i]->set_exception(MakeExceptionPtr(TestError(id)));
					sim::Quiet q; s->resultSet = true;
				}
				else
					try
					{
						{ sim::Quiet q; if (!already) s->valuesBegun.insert(id); }
						Ops<T>::Set(*ps[i], id);
						SIM_CHECK(!already, "second-set", "a second set succeeded");
						sim::Quiet q; s->resultSet = true; s->valuesOk.insert(id);
					}
					catch (const PromiseAlreadySatisfied&) { SIM_CHECK(already, "false-satisfied", "the first set failed as already satisfied"); }
					catch (const TestError&) { sim::Quiet q; if (!already) s->valuesBegun.erase(id); }
				break;
			}
			case 3:
				if (sim::WP(40))
				{
					State* s = &states[implOf[i]];
					{ sim::Quiet q; if (!s->resultSet) s->destroyBegun = true; s->resultSet = true; }
					ps[i].reset();
				}
				break;
			}
		}
		for (int i = 0; i < n; ++i)
			if (ps[i])
			{
				State* s = &states[implOf[i]];
				{ sim::Quiet q; if (!s->resultSet) s->destroyBegun = true; s->resultSet = true; }
				ps[i].reset();
			}
		SIM_CHECK(sim::waitFor([pcs] { return AllDone(*pcs); }, 60000000, 1000), "hang", "a getter is not woken though the result is there");
		JoinAll(cs);
		sim::Quiet q;
		for (auto& s : states) s.Final();
		SIM_CHECK(Payload::Live() == 0, "leak", Payload::Live() << " values are alive after every promise and future is gone");
	}
	SIM_SCENARIO(single, 25) { Single<Payload>(); }
	SIM_SCENARIO(singleVoid, 10) { Single<void>(); }
}
