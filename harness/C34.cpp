// C34: views of a collection show and announce what the collection does
#include "common.h"
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/DictionaryCaster.h>
#include <stingraykit/collection/DictionaryKeysSet.h>
#include <stingraykit/collection/ListCaster.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/SetCaster.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalSet.h>

namespace
{
	typedef std::vector<std::pair<int, int> > State;
	std::string V(int n) { char b[64]; snprintf(b, sizeof(b), "value-%06d-longer-than-a-short-string", n); return b; }
	int N(const std::string& s)
	{
		int n = -1; SIM_CHECK(s.size() == 39 && sscanf(s.c_str(), "value-%06d-longer", &n) == 1 && s == V(n), "wrong-content", "an item is garbage: '" << s << "'");
		return n;
	}
	std::string Cast(const int& n) { return V(n); }
	bool BackCast(const std::string& s, int& n) { int v = N(s); if (v >= 900) return false; n = v; return true; }		// there is nothing behind the greatest ones
	std::string Show(const State& s) { std::string r; char b[40]; for (auto& p : s) { snprintf(b, sizeof(b), "%d:%d ", p.first, p.second); r += b; } return "[ " + r + "]"; }
	State Reversed(State s) { std::reverse(s.begin(), s.end()); return s; }
	size_t Index(const State& s, int k) { size_t i = 0; while (i < s.size() && s[i].first < k) ++i; return i; }
	bool Has(const State& s, int k) { size_t i = Index(s, k); return i < s.size() && s[i].first == k; }

	template < typename T, typename F > State Drain(const shared_ptr<IEnumerator<T> >& e, const F& f) { State r; for (; e->Valid(); e->Next()) r.push_back(f(e->Get())); return r; }
	std::pair<int, int> KeyOnly(int k) { return std::make_pair(k, 0); }
	std::pair<int, int> ValueOnly(const std::string& v) { return std::make_pair(N(v), 0); }
	std::pair<int, int> Both(const KeyValuePair<int, std::string>& p) { return std::make_pair(p.Key, N(p.Value)); }

	// What is announced, applied to a replica
	struct Replica
	{
		State s; bool dead, seen; std::string name; int calls;
		Replica() : dead(false), seen(false), calls(0) { }
		void Entry(CollectionOp op, int k, int v, bool list)
		{
			size_t i = list ? k : Index(s, k); bool has = list ? i < s.size() : Has(s, k);
			if (op == CollectionOp::Added) { SIM_CHECK(list ? i <= s.size() : !has, "announcement", name << ": 'added " << k << "' is announced for " << Show(s)); s.insert(s.begin() + i, std::make_pair(list ? 0 : k, v)); }
			else if (op == CollectionOp::Removed) { SIM_CHECK(has && s[i].second == v, "announcement", name << ": 'removed " << k << ":" << v << "' is announced for " << Show(s)); s.erase(s.begin() + i); }
			else { SIM_CHECK(has, "announcement", name << ": 'updated " << k << "' is announced for " << Show(s)); s[i].second = v; }
		}
		void Called() { seen = true; ++calls; SIM_CHECK(!dead, "announcement", name << ": something is announced which nobody listens to any more"); }
	};

	// Sources
	struct ODict
	{
		typedef MapObservableDictionary<int, int> Src;
		static State Read(Src& s) { return Drain(s.GetEnumerator(), [](const KeyValuePair<int, int>& p) { return std::make_pair(p.Key, p.Value); }); }
		static void Change(Src& s)
		{
			int k = sim::W(7), v = sim::W(4);
			switch (sim::W(9))
			{
			case 0: case 1: s.Add(k, v); break;
			case 2: case 3: case 4: s.Set(k, v); break;
			case 5: case 6: s.Remove(k); break;
			case 7: { int m = sim::WR(2, 3); s.RemoveWhere(Fn<bool (const int&, const int&)>([m](const int& k, const int& v) { return (k + v) % m == 0; })); break; }
			default: s.Clear();
			}
		}
	};
	struct TDict
	{
		typedef TransactionalDictionary<int, int> Src;
		static State Read(Src& s) { return Drain(s.GetEnumerator(), [](const KeyValuePair<int, int>& p) { return std::make_pair(p.Key, p.Value); }); }
		static void Change(Src& s)
		{
			auto t = s.StartTransaction(DummyCancellationToken());
			for (int n = sim::WR(1, 6); n; --n)
			{
				int k = sim::W(7), v = sim::W(3);
				switch (sim::W(9))
				{
				case 0: case 1: t->Add(k, v); break;
				case 2: case 3: case 4: t->Set(k, v); break;
				case 5: case 6: t->Remove(k); break;
				case 7: { int m = sim::WR(2, 3); t->RemoveWhere(Fn<bool (const int&, const int&)>([m](const int& k, const int& v) { return (k + v) % m == 0; })); break; }
				default: t->Clear();
				}
			}
			if (sim::WP(85)) t->Commit();
		}
	};
	struct OList
	{
		typedef ArrayObservableList<int> Src;
		static State Read(Src& s) { return Drain(s.GetEnumerator(), [](int v) { return std::make_pair(0, v); }); }
		template < typename T > static void One(T& s)
		{
			int v = sim::W(5); size_t n = s.GetCount(), i = sim::W(n + 1);
			try
			{
				switch (sim::W(9))
				{
				case 0: case 1: if (n < 12) s.Add(v); break;
				case 2: if (n < 12) s.Insert(i, v); break;
				case 3: case 4: s.Set(i, v); break;
				case 5: s.RemoveAt(i); break;
				case 6: s.Remove(v); break;
				case 7: s.RemoveAll(Fn<bool (const int&)>([v](const int& x) { return x == v; })); break;
				default: if (sim::WP(40)) s.Clear();
				}
			}
			catch (const IndexOutOfRangeException&) { }
		}
		static void Change(Src& s) { One(s); }
	};
	struct TList
	{
		typedef TransactionalList<int, comparers::Equals> Src;
		static State Read(Src& s) { return Drain(s.GetEnumerator(), [](int v) { return std::make_pair(0, v); }); }
		static void Change(Src& s) { auto t = s.StartTransaction(DummyCancellationToken()); for (int n = sim::WR(1, 6); n; --n) OList::One(*t); if (sim::WP(85)) t->Commit(); }
	};
	struct OSet
	{
		typedef SortedObservableSet<int> Src;
		static State Read(Src& s) { return Drain(s.GetEnumerator(), &KeyOnly); }
		template < typename T > static void One(T& s)
		{
			int k = sim::W(8);
			switch (sim::W(8))
			{
			case 0: case 1: case 2: case 3: s.Add(k); break;
			case 4: case 5: s.Remove(k); break;
			case 6: s.RemoveWhere(Fn<bool (const int&)>([k](const int& x) { return (x + k) % 3 == 0; })); break;
			default: if (sim::WP(50)) s.Clear();
			}
		}
		static void Change(Src& s) { One(s); }
	};
	struct TSet
	{
		typedef TransactionalSet<int> Src;
		static State Read(Src& s) { return Drain(s.GetEnumerator(), &KeyOnly); }
		static void Change(Src& s) { auto t = s.StartTransaction(DummyCancellationToken()); for (int n = sim::WR(1, 6); n; --n) OSet::One(*t); if (sim::WP(85)) t->Commit(); }
	};

	// Asking views, under the mutex
	template < typename View > void AskKeys(View& v, const State& s, const std::string& name)
	{
		int k = sim::W(8); bool has = Has(s, k); size_t i = Index(s, k); State f = Drain(v.Find(k), &KeyOnly), r = Drain(v.ReverseFind(k), &KeyOnly), back = Drain(v.Reverse()->GetEnumerator(), &KeyOnly); bool c = v.Contains(k), e = v.IsEmpty(); size_t n = v.GetCount();
		sim::Quiet q; SIM_CHECK(c == has && e == s.empty() && n == s.size() && back == Reversed(s) && f == (has ? State(s.begin() + i, s.end()) : State()) && r == (has ? Reversed(State(s.begin(), s.begin() + i + 1)) : State()), "wrong-content", name << ": asked about " << k << " it answers wrong, it should show " << Show(s));
	}
	template < typename View > void AskDict(View& v, const State& s, const std::string& name)
	{
		int k = sim::W(8); bool has = Has(s, k); size_t i = Index(s, k); State f = Drain(v.Find(k), &Both), r = Drain(v.ReverseFind(k), &Both), back = Drain(v.Reverse()->GetEnumerator(), &Both); bool c = v.ContainsKey(k), e = v.IsEmpty(); size_t n = v.GetCount();
		std::string out, got; bool t = v.TryGet(k, out), g = true; try { got = v.Get(k); } catch (const KeyNotFoundException&) { g = false; }
		bool values = t == has && g == has && (!has || (N(out) == s[i].second && got == out));
		sim::Quiet q; SIM_CHECK(values && c == has && e == s.empty() && n == s.size() && back == Reversed(s) && f == (has ? State(s.begin() + i, s.end()) : State()) && r == (has ? Reversed(State(s.begin(), s.begin() + i + 1)) : State()), "wrong-content", name << ": asked about " << k << " it answers wrong, it should show " << Show(s));
	}
	template < typename View > void AskSet(View& v, const State& s, const std::string& name)
	{
		int k = sim::WP(10) ? 900 : sim::W(8); bool has = Has(s, k); size_t i = Index(s, k); State f = Drain(v.Find(V(k)), &ValueOnly), r = Drain(v.ReverseFind(V(k)), &ValueOnly), back = Drain(v.Reverse()->GetEnumerator(), &ValueOnly); bool c = v.Contains(V(k)), e = v.IsEmpty(); size_t n = v.GetCount();
		sim::Quiet q; SIM_CHECK(c == has && e == s.empty() && n == s.size() && back == Reversed(s) && f == (has ? State(s.begin() + i, s.end()) : State()) && r == (has ? Reversed(State(s.begin(), s.begin() + i + 1)) : State()), "wrong-content", name << ": asked about " << k << " it answers wrong, it should show " << Show(s));
	}
	std::pair<int, int> ListItem(const std::string& v) { return std::make_pair(0, N(v)); }
	template < typename View > void AskList(View& v, const State& s, const std::string& name)
	{
		int x = sim::WP(10) ? 900 : sim::W(6); size_t i = sim::W(8), at = std::find(s.begin(), s.end(), std::make_pair(0, x)) - s.begin(); bool has = at < s.size(), in = i < s.size(); State back = Drain(v.Reverse()->GetEnumerator(), &ListItem); bool c = v.Contains(V(x)), e = v.IsEmpty(); size_t n = v.GetCount(); optional<size_t> idx = v.IndexOf(V(x));
		std::string out, got; bool t = v.TryGet(i, out), g = true; try { got = v.Get(i); } catch (const IndexOutOfRangeException&) { g = false; }
		bool values = t == in && g == in && (!in || (N(out) == s[i].second && got == out));
		sim::Quiet q; SIM_CHECK(values && c == has && idx.is_initialized() == has && (!has || *idx == at) && e == s.empty() && n == s.size() && back == Reversed(s), "wrong-content", name << ": asked about " << x << " and " << i << " it answers wrong, it should show " << Show(s));
	}

	// Views
	struct OKeys : ODict
	{
		typedef IReadonlyObservableSet<int> View; static const char* Name() { return "the keys of a dictionary"; }
		static shared_ptr<View> Make(const shared_ptr<Src>& s) { return GetDictionaryKeys(s); }
		static State Map(State s) { for (auto& p : s) p.second = 0; return s; }
		static State Show(View& v) { return Drain(v.GetEnumerator(), &KeyOnly); }
		static void Ask(View& v, const State& s) { AskKeys(v, s, Name()); }
		static Token Connect(View& v, Replica* r) { return v.OnChanged().connect(Fn<void (CollectionOp, const int&)>([r](CollectionOp op, const int& k) { sim::NoFaults nf; sim::Quiet q; r->Called(); SIM_CHECK(op != CollectionOp::Updated, "announcement", r->name << ": a key is announced as updated"); r->Entry(op, k, 0, false); })); }
	};
	struct ODictCast : ODict
	{
		typedef IReadonlyObservableDictionary<int, std::string> View; static const char* Name() { return "a cast dictionary"; }
		static shared_ptr<View> Make(const shared_ptr<Src>& s) { return make_shared_ptr<ObservableDictionaryCaster<int, int, std::string> >(s, &Cast, &BackCast); }
		static State Map(State s) { return s; }
		static State Show(View& v) { return Drain(v.GetEnumerator(), &Both); }
		static void Ask(View& v, const State& s) { AskDict(v, s, Name()); }
		static Token Connect(View& v, Replica* r) { return v.OnChanged().connect(Fn<void (CollectionOp, const int&, const std::string&)>([r](CollectionOp op, const int& k, const std::string& x) { sim::NoFaults nf; sim::Quiet q; r->Called(); r->Entry(op, k, N(x), false); })); }
	};
	struct TKeys : TDict
	{
		typedef IReadonlyTransactionalSet<int> View; static const char* Name() { return "the keys of a transactional dictionary"; }
		static shared_ptr<View> Make(const shared_ptr<Src>& s) { return GetDictionaryKeys(s); }
		static State Map(State s) { for (auto& p : s) p.second = 0; return s; }
		static State Show(View& v) { return Drain(v.GetEnumerator(), &KeyOnly); }
		static void Ask(View& v, const State& s) { AskKeys(v, s, Name()); }
		static Token Connect(View& v, Replica* r)
		{
			return v.OnChanged().connect(Fn<void (const View::DiffTypePtr&)>([r](const View::DiffTypePtr& d)
			{
				sim::NoFaults nf; std::vector<int> keys; int n = 0;
				for (int pass = 0; pass < 2; ++pass) for (auto e = d->GetEnumerator(); e->Valid(); e->Next(), ++n) { auto x = e->Get(); sim::Quiet q; if (pass) { SIM_CHECK((size_t)n < 2 * keys.size() && keys[n - keys.size()] == x.Item, "announcement", r->name << ": a difference changes when it is read again"); continue; } keys.push_back(x.Item); r->Entry(x.Op, x.Item, 0, false); }
				sim::Quiet q; SIM_CHECK(r->calls == -1 || n, "announcement", r->name << ": nothing is announced as a change"); r->Called();
				std::sort(keys.begin(), keys.end()); SIM_CHECK(std::unique(keys.begin(), keys.end()) == keys.end(), "announcement", r->name << ": a key is removed and added at once");
			}));
		}
	};
	struct TDictCast : TDict
	{
		typedef IReadonlyTransactionalDictionary<int, std::string> View; static const char* Name() { return "a cast transactional dictionary"; }
		static shared_ptr<View> Make(const shared_ptr<Src>& s) { return make_shared_ptr<TransactionalDictionaryCaster<int, int, std::string> >(s, &Cast, &BackCast); }
		static State Map(State s) { return s; }
		static State Show(View& v) { return Drain(v.GetEnumerator(), &Both); }
		static void Ask(View& v, const State& s) { AskDict(v, s, Name()); }
		static Token Connect(View& v, Replica* r) { return v.OnChanged().connect(Fn<void (const View::DiffTypePtr&)>([r](const View::DiffTypePtr& d) { sim::NoFaults nf; { sim::Quiet q; r->Called(); } for (auto e = d->GetEnumerator(); e->Valid(); e->Next()) { auto x = e->Get(); sim::Quiet q; r->Entry(x.Op, x.Item.Key, N(x.Item.Value), false); } })); }
	};
	struct OListCast : OList
	{
		typedef IReadonlyObservableList<std::string> View; static const char* Name() { return "a cast list"; }
		static shared_ptr<View> Make(const shared_ptr<Src>& s) { return make_shared_ptr<ObservableListCaster<int, std::string> >(s, &Cast, &BackCast); }
		static State Map(State s) { return s; }
		static State Show(View& v) { return Drain(v.GetEnumerator(), &ListItem); }
		static void Ask(View& v, const State& s) { AskList(v, s, Name()); }
		static Token Connect(View& v, Replica* r) { return v.OnChanged().connect(Fn<void (CollectionOp, size_t, const std::string&)>([r](CollectionOp op, size_t i, const std::string& x) { sim::NoFaults nf; sim::Quiet q; r->Called(); r->Entry(op, i, N(x), true); })); }
	};
	struct TListCast : TList
	{
		typedef IReadonlyTransactionalList<std::string> View; static const char* Name() { return "a cast transactional list"; }
		static shared_ptr<View> Make(const shared_ptr<Src>& s) { return make_shared_ptr<TransactionalListCaster<int, std::string> >(s, &Cast, &BackCast); }
		static State Map(State s) { return s; }
		static State Show(View& v) { return Drain(v.GetEnumerator(), &ListItem); }
		static void Ask(View& v, const State& s) { AskList(v, s, Name()); }
		static Token Connect(View& v, Replica* r) { return v.OnChanged().connect(Fn<void (const View::DiffTypePtr&)>([r](const View::DiffTypePtr& d) { sim::NoFaults nf; { sim::Quiet q; r->Called(); } for (auto e = d->GetEnumerator(); e->Valid(); e->Next()) { auto x = e->Get(); sim::Quiet q; r->Entry(x.Op, x.Item.Key, N(x.Item.Value), true); } })); }
	};
	struct OSetCast : OSet
	{
		typedef IReadonlyObservableSet<std::string> View; static const char* Name() { return "a cast set"; }
		static shared_ptr<View> Make(const shared_ptr<Src>& s) { return make_shared_ptr<ObservableSetCaster<int, std::string> >(s, &Cast, &BackCast); }
		static State Map(State s) { return s; }
		static State Show(View& v) { return Drain(v.GetEnumerator(), &ValueOnly); }
		static void Ask(View& v, const State& s) { AskSet(v, s, Name()); }
		static Token Connect(View& v, Replica* r) { return v.OnChanged().connect(Fn<void (CollectionOp, const std::string&)>([r](CollectionOp op, const std::string& x) { sim::NoFaults nf; sim::Quiet q; r->Called(); SIM_CHECK(op != CollectionOp::Updated, "announcement", r->name << ": an item of a set is announced as updated"); r->Entry(op, N(x), 0, false); })); }
	};
	struct TSetCast : TSet
	{
		typedef IReadonlyTransactionalSet<std::string> View; static const char* Name() { return "a cast transactional set"; }
		static shared_ptr<View> Make(const shared_ptr<Src>& s) { return make_shared_ptr<TransactionalSetCaster<int, std::string> >(s, &Cast, &BackCast); }
		static State Map(State s) { return s; }
		static State Show(View& v) { return Drain(v.GetEnumerator(), &ValueOnly); }
		static void Ask(View& v, const State& s) { AskSet(v, s, Name()); }
		static Token Connect(View& v, Replica* r) { return v.OnChanged().connect(Fn<void (const View::DiffTypePtr&)>([r](const View::DiffTypePtr& d) { sim::NoFaults nf; { sim::Quiet q; r->Called(); } for (auto e = d->GetEnumerator(); e->Valid(); e->Next()) { auto x = e->Get(); sim::Quiet q; r->Entry(x.Op, N(x.Item), 0, false); } })); }
	};

	template < typename K > void Check(typename K::Src& src, typename K::View& view, std::vector<std::unique_ptr<Replica> >& replicas, const char* when)
	{
		MutexLock l(view.GetSyncRoot());
		State now = K::Map(K::Read(src)), shown = K::Show(view);
		{
			sim::Quiet q; SIM_CHECK(shown == now, "wrong-content", K::Name() << ": it shows " << Show(shown) << " instead of " << Show(now) << " " << when);
			for (auto& r : replicas) if (!r->dead) SIM_CHECK(r->s == now, "announcement", K::Name() << ": what is announced amounts to " << Show(r->s) << " instead of " << Show(now) << " " << when);
		}
		K::Ask(view, now);
	}

	template < typename K > void Viewer(shared_ptr<typename K::Src> src, shared_ptr<typename K::View> shared, bool faults)
	{
		typedef typename K::View View;
		for (int round = sim::WR(1, 3); round; --round)
		{
			unsigned p = faults && sim::WP(40) ? sim::WR(10, 150) : 0; shared_ptr<View> view = shared; bool own = false;
			if (!view || sim::WP(50))
			{
				bool ok = false;
				try { if (p) { sim::AllocFaults af(p); view = K::Make(src); } else view = K::Make(src); ok = own = true; } catch (const std::bad_alloc&) { sim::probe("no memory for a view"); }
				if (!ok) { view = K::Make(src); own = true; }
			}
			std::vector<std::unique_ptr<Replica> > replicas; std::vector<Token> tokens;
			for (int n = sim::WR(1, 2); n; --n)
			{
				Replica* r; { sim::Quiet q; replicas.emplace_back(new Replica()); r = replicas.back().get(); r->name = K::Name(); }
				tokens.push_back(K::Connect(*view, r));			// (a failure on the way would go to the exception handler of the signal)
			}
			for (int n = sim::WR(0, 3); n; --n) { Check<K>(*src, *view, replicas, "while it is changed"); if (sim::WP(50)) sim::sleepUs(sim::W(300)); }
			if (sim::WP(30)) { size_t i = sim::W(tokens.size()); tokens[i].Reset(); sim::Quiet q; replicas[i]->dead = true; }
			if (sim::WP(40)) { Check<K>(*src, *view, replicas, "later"); if (sim::WP(50)) sim::sleepUs(sim::W(300)); }
			if (own && sim::WP(50))				// the view goes first
			{
				view.reset(); { sim::Quiet q; for (auto& r : replicas) r->dead = true; }
				sim::probe("a view goes before its listeners"); if (sim::WP(60)) sim::sleepUs(sim::W(300));
			}
			for (size_t i = 0; i < tokens.size(); ++i) { tokens[i].Reset(); sim::Quiet q; replicas[i]->dead = true; }
			if (sim::WP(30)) sim::sleepUs(sim::W(300));
			view.reset();
			sim::NoFaults nf; { sim::Quiet q; for (auto& r : replicas) r.release(); }		// late calls would still find them
		}
	}

	template < typename K > void Run()
	{
		SilenceLog(); bool faults = sim::WP(30);
		auto src = make_shared_ptr<typename K::Src>(); for (int n = sim::W(4); n; --n) K::Change(*src);
		shared_ptr<typename K::View> view = sim::WP(60) ? K::Make(src) : shared_ptr<typename K::View>();
		std::vector<std::unique_ptr<Replica> > replicas; Token t;
		if (view && sim::WP(60)) { replicas.emplace_back(new Replica()); replicas[0]->name = K::Name(); t = K::Connect(*view, replicas[0].get()); }
		Clients cs; size_t writers = sim::WR(1, 2), viewers = sim::WR(1, 3);
		for (size_t i = 0; i < writers; ++i) Spawn(cs, "writer", [src] { for (int n = sim::WR(1, 8); n; --n) { K::Change(*src); if (sim::WP(40)) sim::sleepUs(sim::W(300)); } });
		for (size_t i = 0; i < viewers; ++i) Spawn(cs, "viewer", [src, view, faults] { Viewer<K>(src, view, faults); });
		JoinAll(cs);
		shared_ptr<typename K::View> last = view ? view : K::Make(src);
		if (!replicas.empty() && sim::WP(50)) { K::Change(*src); }
		Check<K>(*src, *last, replicas, "at the end");
		t.Reset();
	}
}

SIM_SCENARIO(observable_keys, 3) { Run<OKeys>(); }
SIM_SCENARIO(transactional_keys, 4) { Run<TKeys>(); }
SIM_SCENARIO(observable_dictionary, 3) { Run<ODictCast>(); }
SIM_SCENARIO(transactional_dictionary, 3) { Run<TDictCast>(); }
SIM_SCENARIO(observable_list, 3) { Run<OListCast>(); }
SIM_SCENARIO(transactional_list, 3) { Run<TListCast>(); }
SIM_SCENARIO(observable_set, 3) { Run<OSetCast>(); }
SIM_SCENARIO(transactional_set, 3) { Run<TSetCast>(); }
