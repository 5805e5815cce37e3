// C13: Singleton, SafeSingleton, PhoenixSingleton, call_once
#include "common.h"
#include <stingraykit/Singleton.h>
#include <stingraykit/SafeSingleton.h>
#include <stingraykit/PhoenixSingleton.h>
#include <stingraykit/thread/call_once.h>

namespace
{
	struct State { int begun = 0, finished = 0, dyingBegun = 0, destroyed = 0; int throwFirst = 0; bool slow = false; bool other = false; };

	const unsigned Magic = 0x5ca1ab1e;

	template < int N > struct Base
	{
		static State& S() { static State s; return s; }			// made before the threads start
		unsigned* Cells; unsigned Tail;
		Base()
		{
			State& s = S(); bool fail;
			{ sim::Quiet q; SIM_CHECK(s.begun - s.destroyed == (s.begun ? s.begun - s.destroyed : 0) && (s.finished == s.destroyed || s.finished == 0), "constructed-twice", "the instance is constructed again while it exists"); fail = s.begun++ < s.throwFirst; }
			Cells = new unsigned[2]; Cells[0] = Magic; Tail = 0; sim::point();
			if (s.slow) sim::sleepUs(500 + sim::W(3) * 700);
			if (fail) { delete[] Cells; if (s.other) throw 42; ThrowSome("no instance"); }
			Cells[1] = ~Magic; Tail = Magic;
			sim::Quiet q; ++s.finished;
		}
		~Base()
		{
			State& s = S();
			{ sim::Quiet q; SIM_CHECK(s.dyingBegun == s.destroyed && s.dyingBegun < s.finished, "destroyed-twice", "the instance is destroyed twice"); ++s.dyingBegun; }
			Cells[0] = Cells[1] = 0; Tail = 0; sim::point(); delete[] Cells;
			sim::Quiet q; ++s.destroyed;
		}
		void Use() const
		{
			State& s = S();
			{ sim::Quiet q; SIM_CHECK(s.finished > 0, "half-made", "the instance is handed out before it is constructed"); SIM_CHECK(s.dyingBegun < s.finished, "handed-out-dead", "the instance is used after its destruction began"); }
			SIM_CHECK(Cells[0] == Magic && Cells[1] == ~Magic && Tail == Magic, "half-made", "the instance is not completely constructed");
		}
	};

	struct Plain : public Base<0>, public Singleton<Plain> { STINGRAYKIT_SINGLETON_WITH_TRIVIAL_CONSTRUCTOR(Plain); };
	struct Plain2 : public Base<1>, public Singleton<Plain2> { STINGRAYKIT_SINGLETON(Plain2); public: Plain2() { Plain::Instance().Use(); }
		// what it uses lives at least as long
		~Plain2() { bool ok = false; try { Plain::Instance().Use(); ok = true; } catch (const std::exception&) { } SIM_CHECK(ok, "destroyed-early", "a singleton which another one was made with is destroyed before it"); } };

	void Prepare(State& s)
	{
		sim::Quiet q;
		s = State(); s.throwFirst = 0; s.slow = false;
	}

	void PlainSingleton()
	{
		SilenceLog();
		State& s = Base<0>::S(); State& s2 = Base<1>::S(); Prepare(s); Prepare(s2);
		{ bool t = sim::WP(25); bool sl = sim::WP(50); bool sl2 = sim::WP(50); sim::Quiet q; s.throwFirst = t ? 1000 : 0; s.slow = sl; s2.slow = sl2; }
		Plain* seen = nullptr; Plain** ps = &seen; State* pst = &s;
		Clients cs; int n = sim::WR(2, 4); bool nested = sim::WP(40), throws = s.throwFirst > 0;
		for (int c = 0; c < n; ++c)
			Spawn(cs, "user", [=]
			{
				int k = sim::WR(1, 3);
				for (int i = 0; i < k; ++i)
				{
					if (sim::WP(40)) sim::sleepUs(sim::W(4) * 300);
					try
					{
						if (nested && sim::WP(60)) { Plain2& p2 = Plain2::Instance(); p2.Use(); }
						else
						{
							Plain& p = Plain::Instance(); p.Use();
							sim::Quiet q; SIM_CHECK(!*ps || *ps == &p, "two-instances", "two callers got different instances"); *ps = &p;
							SIM_CHECK(!throws, "half-made", "an instance is handed out though its constructor threw");
						}
					}
					catch (const std::exception& ex)
					{
						sim::Quiet q; std::string w = ex.what();
						SIM_CHECK(throws, "refused", "the instance is refused though it was created: " << w);
						SIM_CHECK(w.find("could not be created") != std::string::npos, "wrong-error", "unexpected error " << w);
						SIM_CHECK(pst->begun > 0, "refused", "refused before construction was tried");
					}
				}
			});
		Clients* pc = &cs;
		SIM_CHECK(sim::waitFor([pc] { return AllDone(*pc); }, 10000000, 500), "hang", "requests of a singleton hang");
		JoinAll(cs);
		SIM_CHECK(s.begun <= 1 && s2.begun <= 1, "constructed-twice", "a singleton was constructed " << s.begun << " times");
		if (!nested) SIM_CHECK(s.begun == 1 && Plain::IsAlive() == !throws, "alive", "IsAlive is wrong");
		bool made = s.finished > 0;
		if (sim::WP(60))
		{
			sim::runExitHandlers();
			SIM_CHECK(s.destroyed == s.finished && s2.destroyed == s2.finished, "not-destroyed", "an instance was not destroyed at the end of the process");
			if (made)
			{
				bool refused = false;
				try { Plain::Instance().Use(); } catch (const std::exception& ex) { refused = std::string(ex.what()).find("already destroyed") != std::string::npos; }
				SIM_CHECK(refused && !Plain::IsAlive(), "handed-out-dead", "a destroyed instance is not refused");
			}
		}
	}
	SIM_SCENARIO(plain, 25) { PlainSingleton(); }

	struct Safe : public Base<2> { };

	void Safes()
	{
		SilenceLog();
		State& s = Base<2>::S(); Prepare(s);
		{ bool t = sim::WP(20); bool sl = sim::WP(50); sim::Quiet q; s.throwFirst = t ? 1000 : 0; s.slow = sl; }
		bool throws = s.throwFirst > 0; State* ps = &s; int exits = 0; int* pe = &exits; Safe* seen = nullptr; Safe** pseen = &seen; bool exitBegun = false; bool* peb = &exitBegun;
		auto get = [=](bool alloc)
		{
			bool dying, before; { sim::Quiet q; dying = ps->dyingBegun > 0; before = *peb; }
			shared_ptr<Safe> p;
			try { sim::AllocFaults af(alloc ? 200 : 0); p = SafeSingleton<Safe>::Instance(); }
			catch (const std::bad_alloc&) { sim::probe("allocation failed in Instance"); return p; }
			if (p)
			{
				SIM_CHECK(!dying, "handed-out-dead", "a safe singleton was handed out after its destruction began");
				p->Use();
				sim::Quiet q; SIM_CHECK(!*pseen || *pseen == p.get(), "two-instances", "two callers got different instances"); *pseen = p.get();
				SIM_CHECK(!throws, "half-made", "an instance is handed out though its constructor threw");
			}
			else { sim::Quiet q; SIM_CHECK(throws || *peb, "refused", "the instance is refused though it exists"); if (!throws && !before) sim::probe("refused while ending"); }
			return p;
		};
		Clients cs; int n = sim::WR(2, 4);
		bool first = sim::WP(60);
		if (first) { shared_ptr<Safe> p(get(false)); SIM_CHECK(throws || p, "refused", "the first request got nothing"); }
		for (int c = 0; c < n; ++c)
			Spawn(cs, "user", [=]
			{
				int k = sim::WR(1, 4); std::vector<shared_ptr<Safe>> kept;
				for (int i = 0; i < k; ++i)
				{
					if (sim::WP(30)) sim::sleepUs(sim::W(4) * 200);
					shared_ptr<Safe> p(get(first && sim::WP(20)));
					if (p && sim::WP(40)) kept.push_back(p);
					if (p) p->Use();
					if (!kept.empty() && sim::WP(30)) { kept.front()->Use(); kept.erase(kept.begin()); }
				}
				for (auto& p : kept) p->Use();
			});
		bool early = first && sim::WP(70);
		if (early)
		{
			if (sim::WP(60)) sim::sleepUs(sim::W(5) * 300);
			{ sim::Quiet q; exitBegun = true; }
			sim::runExitHandlers(); *pe = 1;
		}
		Clients* pc = &cs;
		SIM_CHECK(sim::waitFor([pc] { return AllDone(*pc); }, 10000000, 500), "hang", "requests of a safe singleton hang");
		JoinAll(cs);
		SIM_CHECK(throws ? s.finished == 0 : s.finished == 1, "constructed-twice", "the instance was constructed " << s.finished << " times");
		if (!early) { SIM_CHECK(s.destroyed == 0, "destroyed-early", "the instance is destroyed before the end"); sim::Quiet q; exitBegun = true; }
		if (!early) sim::runExitHandlers();
		SIM_CHECK(s.destroyed == s.finished, "not-destroyed", "the instance was not destroyed with its last reference");
		{ shared_ptr<Safe> p(SafeSingleton<Safe>::Instance()); SIM_CHECK(!p, "handed-out-dead", "a destroyed safe singleton is handed out"); }
	}
	SIM_SCENARIO(safe, 35) { Safes(); }

	struct Phoenix : public Base<3> { };

	void LateUse() { PhoenixSingleton<Phoenix>::Instance().Use(); sim::probe("used while the process ends"); }

	void Phoenixes()
	{
		SilenceLog();
		State& s = Base<3>::S(); Prepare(s);
		int fails = sim::WP(30) ? (int)sim::WR(1, 3) : 0;
		{ bool sl = sim::WP(50), o = sim::WP(30); sim::Quiet q; s.throwFirst = fails; s.slow = sl; s.other = o; }
		bool late = sim::WP(50);
		if (late) atexit(&LateUse);
		Phoenix* seen = nullptr; Phoenix** pseen = &seen; int thrown = 0; int* pt = &thrown;
		Clients cs; int n = sim::WR(2, 4);
		for (int c = 0; c < n; ++c)
			Spawn(cs, "user", [=]
			{
				int k = sim::WR(1, 3);
				for (int i = 0; i < k; ++i)
				{
					if (sim::WP(30)) sim::sleepUs(sim::W(4) * 200);
					try
					{
						Phoenix& p = PhoenixSingleton<Phoenix>::Instance(); p.Use();
						sim::Quiet q; SIM_CHECK(!*pseen || *pseen == &p, "two-instances", "two callers got different instances"); *pseen = &p;
					}
					catch (const std::exception&) { sim::Quiet q; ++*pt; }
					catch (int) { sim::Quiet q; ++*pt; }
				}
			});
		Clients* pc = &cs;
		SIM_CHECK(sim::waitFor([pc] { return AllDone(*pc); }, 60000000, 500), "hang", "requests of a phoenix singleton hang");
		JoinAll(cs);
		SIM_CHECK(s.finished <= 1 && thrown == s.begun - s.finished, "constructed-twice", "constructed " << s.finished << " times in " << s.begun << " tries, " << thrown << " errors reached callers");
		bool made = s.finished == 1;
		{ sim::Quiet q; s.throwFirst = 0; seen = nullptr; }
		sim::runExitHandlers();
		SIM_CHECK(s.destroyed == s.finished && s.finished == int(made) + int(late), "not-destroyed", "constructed " << s.finished << " and destroyed " << s.destroyed << " times in all");
		if (sim::WP(50)) { PhoenixSingleton<Phoenix>::Instance().Use(); sim::runExitHandlers(); SIM_CHECK(s.destroyed == s.finished, "not-destroyed", "not destroyed after it came back"); }
	}
	SIM_SCENARIO(phoenix, 25) { Phoenixes(); }

	STINGRAYKIT_DEFINE_ONCE_FLAG(flag0); STINGRAYKIT_DEFINE_ONCE_FLAG(flag1);
	int ran[2], done[2], fail[2]; int* datum[2];
	template < int N > void Action()
	{
		bool f; { sim::Quiet q; SIM_CHECK(!done[N], "constructed-twice", "a once action runs again after it was done"); f = ran[N]++ < fail[N]; }
		if (sim::WP(40)) sim::sleepUs(400);
		sim::point();
		if (f) ThrowSome("once");
		datum[N] = new int(N + 5);
		sim::Quiet q; ++done[N];
	}
	void Once()
	{
		SilenceLog();
		{ sim::Quiet q; for (int i = 0; i < 2; ++i) { ran[i] = done[i] = 0; datum[i] = nullptr; } }
		fail[0] = sim::WP(30) ? sim::WR(1, 2) : 0; fail[1] = 0;
		Clients cs; int n = sim::WR(2, 4); int thrown = 0; int* pt = &thrown;
		for (int c = 0; c < n; ++c)
			Spawn(cs, "caller", [=]
			{
				int k = sim::WR(1, 3);
				for (int i = 0; i < k; ++i)
				{
					int w = sim::W(2);
					try { stingray::call_once(w ? flag1 : flag0, w ? &Action<1> : &Action<0>); SIM_CHECK(datum[w] && *datum[w] == w + 5, "half-made", "a caller proceeds before the once action is done"); }
					catch (const std::exception&) { sim::Quiet q; ++*pt; }
				}
			});
		Clients* pc = &cs;
		SIM_CHECK(sim::waitFor([pc] { return AllDone(*pc); }, 10000000, 500), "hang", "callers of call_once hang");
		JoinAll(cs);
		for (int i = 0; i < 2; ++i) { SIM_CHECK(done[i] <= 1, "constructed-twice", "a once action was done twice"); delete datum[i]; }
		SIM_CHECK(thrown == ran[0] + ran[1] - done[0] - done[1], "wrong-error", "exceptions of a once action are lost");
	}
	SIM_SCENARIO(once, 15) { Once(); }
}
