// C03: observable values and signals with a populator: the state and then every change, nothing lost, nothing twice
#include "common.h"
#include <stingraykit/ObservableValue.h>
#include <stingraykit/signal/ValueFromSignalObtainer.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>

namespace
{
	struct Sub
	{
		int id; bool async = false, current = true;
		uint64_t connBegin = 0, connEnd = 0, disBegin = 0, disEnd = 0;
		std::vector<std::string> got; std::vector<uint64_t> when;
		int running = 0;
		std::unique_ptr<Token> token; int throwAt = -1;
	};
	struct Write { std::string value; uint64_t begin, end; };

	struct World
	{
		std::deque<Sub> subs; std::deque<Write> writes; std::vector<std::string> history; std::vector<uint64_t> historyAt;
		Sub* New() { sim::Quiet q; subs.emplace_back(); subs.back().id = (int)subs.size() - 1; return &subs.back(); }
	};

	void Receive(Sub* s, const std::string& v)
	{
		{ sim::Quiet q; SIM_CHECK(!s->running, "concurrent", "an observer gets two changes at once"); ++s->running; }
		sim::point();
		bool thrown = false;
		{ sim::Quiet q; s->got.push_back(v); s->when.push_back(sim::seq()); --s->running; thrown = s->throwAt == (int)s->got.size(); }
		if (thrown) ThrowSome("observer");
	}

	// where a run of values begins in the history; the history has consecutive values different, but values may repeat
	bool MatchAt(const World& w, const std::vector<std::string>& got, size_t from)
	{
		for (size_t i = 0; i < got.size(); ++i) if (from + i >= w.history.size() || w.history[from + i] != got[i]) return false;
		return true;
	}

	std::string Join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += x + " "; return r; }

	// history[0] is the initial state; historyAt[i]: seen by the first observer (inside the writer's lock)
	void Check(World& w, bool everyone, const std::function<bool (const std::string&)>& populates)
	{
		for (size_t i = 1; i < w.history.size(); ++i) SIM_CHECK(w.history[i] != w.history[i - 1], "equal-announced", "a set of an equal value is announced: " << w.history[i]);
		for (Sub& s : w.subs)
		{
			if (!s.connEnd) continue;
			// candidates: the state may be any which was current between the begin and the end of connecting
			bool found = false; std::string why;
			for (size_t k = 0; k < w.history.size() && !found; ++k)
			{
				if (w.historyAt[k] > s.connEnd) continue;								// became current only after connecting
				if (k + 1 < w.history.size() && w.historyAt[k + 1] < s.connBegin) continue;	// replaced before connecting
				bool pop = s.current && populates(w.history[k]);
				std::vector<std::string> want;
				for (size_t i = k + (pop ? 0 : 1); i < w.history.size(); ++i)
				{
					if (s.disEnd && w.historyAt[i] > s.disEnd) break;
					want.push_back(w.history[i]);
				}
				// must contain everything announced before the disconnection began
				size_t least = 0;
				for (size_t i = k + (pop ? 0 : 1); i < w.history.size(); ++i) if ((!s.disBegin || w.historyAt[i] < s.disBegin) && (i == k || !s.async || !s.disBegin)) least = i + 1 - (k + (pop ? 0 : 1));
				if (s.async && s.disBegin) least = 0;
				if (s.got.size() <= want.size() && s.got.size() >= least && std::equal(s.got.begin(), s.got.end(), want.begin())) found = true;
				else why += "\n  from " + w.history[k] + ": " + Join(want) + (least != want.size() ? "(at least " + std::to_string(least) + ")" : "");
			}
			SIM_CHECK(found, "wrong-history", "observer " << s.id << (s.async ? " (async)" : "") << " got " << Join(s.got) << "\nof the history " << Join(w.history) << why);
		}
		(void)everyone;
	}

	struct StringOps { typedef ObservableValue<std::string> V; static std::string Text(const std::string& v) { return v; } static std::string Value(int i) { return "value-which-is-rather-long-" + std::to_string(i); } };
	struct IntOps { typedef ObservableValue<int> V; static std::string Text(int v) { return std::to_string(v); } static int Value(int i) { return i; } };
	// equality only of the tens
	struct TensEquals : public comparers::EqualsComparerBase<TensEquals>
	{ bool DoCompare(int a, int b) const { return a / 10 == b / 10; } };
	struct TensOps { typedef ObservableValue<int, TensEquals> V; static std::string Text(int v) { return std::to_string(v); } static int Value(int i) { return i; } };
	struct ConditionalOps { typedef ObservableValue<int, comparers::Equals, ObservableValuePolicies::ConditionalPopulation> V; static std::string Text(int v) { return std::to_string(v); } static int Value(int i) { return i; } };
	struct DisabledOps { typedef ObservableValue<int, comparers::Equals, ObservableValuePolicies::DisabledPopulation> V; static std::string Text(int v) { return std::to_string(v); } static int Value(int i) { return i; } };

	template < typename Ops, typename MakeT > void Observable(MakeT make, const std::function<bool (const std::string&)>& populates, bool executors, bool tens = false)
	{
		SilenceLog();
		typedef typename Ops::V V;
		World w; World* pw = &w;
		ITaskExecutorPtr ex; if (executors) ex = make_shared_ptr<ThreadTaskExecutor>("observers", optional<TimeDuration>());
		std::unique_ptr<V> v(make(Ops::Value(0))); V* pv = v.get();
		w.history.push_back(Ops::Text(Ops::Value(0))); w.historyAt.push_back(sim::seq());
		// the first observer, always there: what it sees under the lock is the history
		Token first = v->OnChanged().connect(Fn<void (decltype(Ops::Value(0)))>([pw, pv](decltype(Ops::Value(0)) x) {
			{ sim::Quiet q; pw->history.push_back(Ops::Text(x)); pw->historyAt.push_back(sim::seq()); }
			auto now = pv->Get(); sim::Quiet q; SIM_CHECK(Ops::Text(now) == Ops::Text(x), "announced-before-set", "an observer is told of " << Ops::Text(x) << " while the value is " << Ops::Text(now));
		}), false);
		auto connect = [=](const ITaskExecutorPtr& e)
		{
			Sub* s = pw->New();
			{ sim::Quiet q; s->async = bool(e) && sim::WP(70); s->current = sim::WP(85); if (sim::WP(10)) s->throwAt = sim::WR(1, 3); }
			auto f = Fn<void (decltype(Ops::Value(0)))>([s, pv](decltype(Ops::Value(0)) x)
			{
				if (!s->async) { auto now = pv->Get(); sim::Quiet q; SIM_CHECK(Ops::Text(now) == Ops::Text(x), "announced-before-set", "an observer is told of " << Ops::Text(x) << " while the value is " << Ops::Text(now)); }
				Receive(s, Ops::Text(x));
			});
			{ sim::Quiet q; s->connBegin = sim::seq(); }
			Token t = s->async ? pv->OnChanged().connect(e, f, s->current) : pv->OnChanged().connect(f, s->current);
			{ sim::Quiet q; s->token.reset(new Token(std::move(t))); s->connEnd = sim::seq(); }
			return s;
		};
		auto disconnect = [=](Sub* s) { { sim::Quiet q; s->disBegin = sim::seq(); } s->token->Reset(); sim::Quiet q; s->disEnd = sim::seq(); };
		int early = sim::W(3); for (int i = 0; i < early; ++i) connect(ex);
		Clients cs; int writers = sim::WR(1, 3), users = sim::WR(1, 2), range = sim::WP(40) ? 3 : 100;
		for (int t = 0; t < writers; ++t)
			Spawn(cs, "writer", [=]
			{
				int n = sim::WR(1, 5);
				for (int i = 0; i < n; ++i)
				{
					auto x = Ops::Value(range == 3 ? (int)sim::W(3) : tens ? (int)sim::W(40) : 100 * (t + 1) + i);
					uint64_t begin, end; { sim::Quiet q; begin = sim::seq(); }
					if (sim::WP(50)) pv->Set(x); else *pv = x;
					{ sim::Quiet q; end = sim::seq(); pw->writes.push_back(Write{ Ops::Text(x), begin, end }); }
					if (writers == 1) { auto r = pv->Get(); sim::Quiet q; SIM_CHECK(tens || Ops::Text(r) == Ops::Text(x), "read-back", "a writer set " << Ops::Text(x) << " and reads " << Ops::Text(r)); }
				}
			});
		for (int t = 0; t < users; ++t)
		{
			auto* own = new ITaskExecutorPtr(ex);
			Spawn(cs, "user", [=]
			{
				{
					ITaskExecutorPtr e(*own); delete own;
					int n = sim::WR(1, 5); std::vector<Sub*> mine;
					for (int i = 0; i < n; ++i)
						switch (sim::W(4))
						{
						case 0: case 1: mine.push_back(connect(e)); break;
						case 2: if (!mine.empty()) { disconnect(mine.back()); mine.pop_back(); } break;
						case 3:
						{
							size_t h0; { sim::Quiet q; h0 = pw->history.size() - 1; }
							uint64_t b; { sim::Quiet q; b = sim::seq(); }
							int how = sim::W(3); std::string got;
							if (how == 0) got = Ops::Text(pv->Get());
							else if (how == 1) got = Ops::Text(*pv);
							else { auto o = GetVectorFromSignal(pv->OnChanged()); sim::Quiet q; if (o.empty()) { bool ok = false; for (size_t k = h0; k < pw->history.size(); ++k) ok |= !populates(pw->history[k]); SIM_CHECK(ok, "no-state", "the state is not sent"); break; } SIM_CHECK(o.size() == 1, "state-twice", "the state is sent " << o.size() << " times"); got = Ops::Text(o[0]); }
							sim::Quiet q; bool ok = false; (void)b;
							for (size_t k = h0; k < pw->history.size(); ++k) if (pw->history[k] == got) ok = true;
							SIM_CHECK(ok, "stale-read", "a reader gets " << got << " which is not the value at any time of the read; history " << Join(pw->history) << "from " << h0);
							break;
						}
						}
				}
			});
		}
		JoinAll(cs);
		auto last = v->Get();
		SIM_CHECK(w.history.back() == Ops::Text(last), "last-value", "the last announced value is " << w.history.back() << " but the value is " << Ops::Text(last));
		// every queued change arrives
		if (executors)
		{
			bool fence = false, *pf = &fence;
			ex->AddTask(Fn<void ()>([pf] { sim::Quiet q; *pf = true; }));
			SIM_CHECK(sim::waitFor([&] { return fence; }, 60000000), "hang", "an executor with observers does not proceed");
		}
		for (Sub& s : w.subs)
			if (s.token && !s.disBegin && (s.current || !s.got.empty()) && populates(Ops::Text(last)))
				SIM_CHECK(!s.got.empty() && s.got.back() == Ops::Text(last), "not-converged", "observer " << s.id << " ends with " << (s.got.empty() ? std::string("nothing") : s.got.back()) << " but the value is " << Ops::Text(last));
		{ sim::Quiet q; Check(w, true, populates); }
		// what was set is a value somebody wrote, and each change is one write
		if (range != 3 && !tens) { std::set<std::string> seen; for (size_t i = 0; i < w.history.size(); ++i) SIM_CHECK(seen.insert(w.history[i]).second, "written-twice", "one write is announced twice: " << w.history[i]); for (Write& x : w.writes) SIM_CHECK(seen.count(x.value), "write-lost", "a write is not announced: " << x.value); }
		for (Sub& s : w.subs) s.token.reset();
		if (sim::WP(50)) { v.reset(); first.Reset(); } else { first.Reset(); v.reset(); }
	}
	bool Always(const std::string&) { return true; }
}

SIM_SCENARIO_F(value, 5, sim::NoSpurious)
{ Observable<IntOps>([](int x) { return new IntOps::V(x); }, &Always, sim::WP(40)); }

SIM_SCENARIO_F(text_value, 3, sim::NoSpurious)
{ Observable<StringOps>([](const std::string& x) { return new StringOps::V(x); }, &Always, sim::WP(40)); }

SIM_SCENARIO_F(coarse_equality, 1, sim::NoSpurious)
{ Observable<TensOps>([](int x) { return new TensOps::V(x); }, &Always, false, true); }

SIM_SCENARIO_F(shared_mutex, 1, sim::NoSpurious)
{ shared_ptr<Mutex> m = make_shared_ptr<Mutex>(); Observable<IntOps>([m](int x) { return new IntOps::V(m, x); }, &Always, sim::WP(40)); }

SIM_SCENARIO_F(conditional_state, 1, sim::NoSpurious)
{ Observable<ConditionalOps>([](int x) { return new ConditionalOps::V(x, ObservableValuePolicies::PopulateIfDiffers(0)); }, [](const std::string& s) { return s != "0"; }, sim::WP(40)); }

SIM_SCENARIO_F(no_state, 1, sim::NoSpurious)
{ Observable<DisabledOps>([](int x) { return new DisabledOps::V(x); }, [](const std::string&) { return false; }, sim::WP(40)); }

// A set of items announced by a signal with a populator, as documented with signal_locker
namespace
{
	struct Items
	{
		std::vector<int> items;
		signal<void (CollectionOp, int)> OnChanged;
		Items() : OnChanged(stingray::function<void (const stingray::function<void (CollectionOp, int)>&)>(Fn<void (const stingray::function<void (CollectionOp, int)>&)>([this](const stingray::function<void (CollectionOp, int)>& slot) { for (int x : items) { slot(CollectionOp::Added, x); sim::point(); } }))) { }
		void Add(int x) { signal_locker l(OnChanged); items.push_back(x); OnChanged(CollectionOp::Added, x); }
		void Remove(size_t at) { signal_locker l(OnChanged); if (at >= items.size()) return; int x = items[at]; items.erase(items.begin() + at); OnChanged(CollectionOp::Removed, x); }
	};
	struct Replica { std::multiset<int> items; int events = 0; std::unique_ptr<Token> token; bool bad = false; };
}

SIM_SCENARIO_F(populator, 4, sim::NoSpurious)
{
	SilenceLog();
	ITaskExecutorPtr ex; if (sim::WP(50)) ex = make_shared_ptr<ThreadTaskExecutor>("observers", optional<TimeDuration>());
	Items c; Items* pc = &c; std::deque<Replica> replicas; std::deque<Replica>* pr = &replicas;
	auto connect = [=](const ITaskExecutorPtr& e)
	{
		Replica* r; { sim::Quiet q; pr->emplace_back(); r = &pr->back(); }
		auto f = Fn<void (CollectionOp, int)>([r](CollectionOp op, int x)
		{
			sim::Quiet q; ++r->events;
			if (op == CollectionOp::Added) r->items.insert(x);
			else { auto it = r->items.find(x); SIM_CHECK(it != r->items.end(), "wrong-history", "an observer is told of the removal of " << x << " which it does not have"); r->items.erase(it); }
		});
		Token t = e && sim::WP(60) ? pc->OnChanged.connect(e, f) : pc->OnChanged.connect(f);
		sim::Quiet q; r->token.reset(new Token(std::move(t)));
	};
	Clients cs; int writers = sim::WR(1, 3), users = sim::WR(1, 3);
	for (int t = 0; t < writers; ++t)
		Spawn(cs, "writer", [=] { int n = sim::WR(1, 6); for (int i = 0; i < n; ++i) if (sim::WP(65)) pc->Add(sim::W(4)); else pc->Remove(sim::W(3)); });
	for (int t = 0; t < users; ++t)
	{
		auto* own = new ITaskExecutorPtr(ex);
		Spawn(cs, "user", [=] { ITaskExecutorPtr e(*own); delete own; int n = sim::WR(1, 3); for (int i = 0; i < n; ++i) { connect(e); std::vector<int> now = GetVectorFromSignal(pc->OnChanged.connector()); (void)now; } });
	}
	JoinAll(cs);
	if (ex) { bool fence = false, *pf = &fence; ex->AddTask(Fn<void ()>([pf] { sim::Quiet q; *pf = true; })); SIM_CHECK(sim::waitFor([&] { return fence; }, 60000000), "hang", "an executor with observers does not proceed"); }
	std::multiset<int> want(c.items.begin(), c.items.end());
	for (Replica& r : replicas) SIM_CHECK(r.items == want, "not-converged", "an observer ends with " << r.items.size() << " items of " << want.size());
	std::vector<int> now = GetVectorFromSignal(c.OnChanged.connector()); SIM_CHECK(now == c.items, "wrong-state", "the state sent differs from the state");
	for (Replica& r : replicas) r.token.reset();
}
