// C21: observable collections: every change is announced, replicas converge, enumerations are states that really existed
#include "common.h"
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/FlatMapObservableDictionary.h>
#include <stingraykit/collection/OrderedObservableDictionary.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/FlatSortedObservableSet.h>
#include <stingraykit/collection/OrderedObservableSet.h>
#include <stingraykit/collection/SortedObservableMultiSet.h>
#include <stingraykit/collection/MultiMapObservableDictionary.h>
#include <stingraykit/collection/ObservableCollectionLocker.h>
#include <stingraykit/collection/ObservableDictionaryKeyValue.h>
#include <stingraykit/collection/ObservableSetEntry.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>

namespace
{
	typedef std::vector<std::pair<int, int>> State;

	std::string V(int n) { char b[64]; snprintf(b, sizeof(b), "value-%06d-longer-than-a-short-string", n); return b; }
	int N(const std::string& s)
	{
		int n = -1; SIM_CHECK(s.size() == 39 && sscanf(s.c_str(), "value-%06d-longer", &n) == 1 && s == V(n), "wrong-content", "an item is garbage: '" << s << "'");
		return n;
	}
	std::string Show(const State& s) { std::string r; char b[40]; for (auto& p : s) { snprintf(b, sizeof(b), "%d:%d ", p.first, p.second); r += b; } return "[ " + r + "]"; }
	State Reversed(State s) { std::reverse(s.begin(), s.end()); return s; }
	size_t Find(const State& s, int k) { size_t i = 0; while (i < s.size() && s[i].first != k) ++i; return i; }
	size_t LastAt(const State& s, int k) { size_t i = s.size(); while (i > 0 && s[i - 1].first != k) --i; return i; } // behind the last one with the key, 0 - none
	size_t Upper(const State& s, int k) { size_t i = 0; while (i < s.size() && s[i].first <= k) ++i; return i; }
	template < typename T, typename F >
	State Drain(const shared_ptr<IEnumerator<T>>& e, const F& entry) { State r; for (; e->Valid(); e->Next()) { auto v = entry(e->Get(), r.size()); r.push_back(v); } return r; }

	struct PredicateFault : public std::exception { const char* what() const noexcept override { return "predicate fault"; } };

	// An operation, its result; an answer: its compatibility with a state
	struct Op { int type, k, v, m, x, fail; bool alias; };
	struct Result { int ret = 0; bool threw = false; bool operator == (const Result& o) const { return ret == o.ret && threw == o.threw; } };
	typedef std::function<bool (const State&)> Answer;

	// Predicates of Op: those items match whose number is x modulo m; the predicate fails at its fail-th call
	bool Match(const Op& op, int n) { return n % op.m == op.x; }
	template < typename Erase > int ModelWhere(const Op& op, State& s, bool byValue, Result& r, const Erase& erased)
	{
		int n = 0, calls = 0;
		for (size_t i = 0; i < s.size(); )
		{
			if (op.fail && ++calls == op.fail) { r.threw = true; return 0; }
			if (Match(op, byValue ? s[i].second : s[i].first)) { s.erase(s.begin() + i); ++n; erased(); } else ++i;
		}
		return n;
	}
	void Nothing() { }

	struct Calls
	{
		Op op; int calls = 0;
		explicit Calls(const Op& o) : op(o) { }
		bool operator () (int n) { sim::NoFaults nf; if (op.fail && ++calls == op.fail) throw PredicateFault(); return Match(op, n); }
	};

	// ---- dictionaries
	template < typename Coll_, bool Ordered >
	struct DictOf
	{
		typedef Coll_ Coll; typedef KeyValuePair<int, std::string> Item; typedef void Signature(CollectionOp, const int&, const std::string&);
		static std::pair<int, int> Entry(const Item& i, size_t) { return std::make_pair(i.Key, N(i.Value)); }
		static void Insert(State& s, int k, int v) { s.insert(Ordered ? s.end() : s.begin() + Upper(s, k), std::make_pair(k, v)); }
		static State Read(const Coll& c) { return Drain(c.GetEnumerator(), &Entry); }
		static State ReadReverse(const shared_ptr<IEnumerable<Item>>& e) { return Reversed(Drain(e->GetEnumerator(), &Entry)); }
		static Answer Ask(const Coll& c)
		{
			int k = sim::W(6);
			switch (sim::W(7))
			{
			case 0: { bool r = c.ContainsKey(k); return [=](const State& s) { return r == (Find(s, k) < s.size()); }; }
			case 1: { std::string v; bool r = c.TryGet(k, v); int n = r ? N(v) : 0; return [=](const State& s) { size_t i = Find(s, k); return r ? i < s.size() && s[i].second == n : i == s.size(); }; }
			case 2: try { int n = N(c.Get(k)); return [=](const State& s) { size_t i = Find(s, k); return i < s.size() && s[i].second == n; }; } catch (const KeyNotFoundException&) { return [=](const State& s) { return Find(s, k) == s.size(); }; }
			case 3: { State r = Drain(c.Find(k), &Entry); return [=](const State& s) { return r == State(s.begin() + Find(s, k), s.end()); }; }
			case 4: { State r = Drain(c.ReverseFind(k), &Entry); return [=](const State& s) { return r == Reversed(State(s.begin(), s.begin() + LastAt(s, k))); }; }
			case 5: { size_t r = c.GetCount(); return [=](const State& s) { return r == s.size(); }; }
			default: { bool r = c.IsEmpty(); return [=](const State& s) { return r == s.empty(); }; }
			}
		}
		static Op Choose() { static const int T[] = { 0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5 }; return Op { T[sim::W(12)], (int)sim::W(6), (int)sim::W(3), (int)sim::WR(2, 3), (int)sim::W(2), sim::WP(15) ? (int)sim::WR(1, 4) : 0, sim::WP(50) }; }
		static Result Do(Coll& c, const Op& op)
		{
			Result r;
			switch (op.type)
			{
			case 0: r.ret = c.Add(op.k, V(op.v)); break;
			case 1: c.Set(op.k, V(op.v)); break;
			case 2: r.ret = c.Remove(op.k); break;
			case 3: try { Calls p(op); bool byValue = op.alias; r.ret = (int)c.RemoveWhere(Fn<bool (const int&, const std::string&)>([&](const int& k, const std::string& v) { return p(byValue ? N(v) : k); })); } catch (const PredicateFault&) { r.threw = true; } break;
			case 4: c.Clear(); break;
			default: // an enumeration which removes items; the items it shows are those of its beginning
			{
				MutexLock l(c.GetSyncRoot());
				for (auto e = c.GetEnumerator(); e->Valid(); e->Next()) if (Match(op, e->Get().Key)) { bool x = c.Remove(e->Get().Key); sim::NoFaults nf; SIM_CHECK(x, "wrong-result", "an item which is there is not removed"); }
			}
			}
			return r;
		}
		static Result Model(State& s, const Op& op)
		{
			Result r; size_t i = Find(s, op.k); bool has = i < s.size();
			switch (op.type)
			{
			case 0: r.ret = !has; if (!has) Insert(s, op.k, op.v); break;
			case 1: if (has) s[i].second = op.v; else Insert(s, op.k, op.v); break;
			case 2: r.ret = has; if (has) s.erase(s.begin() + i); break;
			case 3: r.ret = ModelWhere(op, s, op.alias, r, &Nothing); break;
			case 4: s.clear(); break;
			default: { Op o = op; o.fail = 0; ModelWhere(o, s, false, r, &Nothing); break; }
			}
			return r;
		}
		static bool Announced(State& s, CollectionOp op, const int& k, const std::string& v_)
		{
			int v = N(v_); size_t i = Find(s, k); bool has = i < s.size();
			if (op == CollectionOp::Added) { if (has) return false; Insert(s, k, v); }
			else if (op == CollectionOp::Removed) { if (!has || s[i].second != v) return false; s.erase(s.begin() + i); }
			else { if (!has) return false; s[i].second = v; }
			return true;
		}
		template < typename F > static function<Signature> Handler(const F& f) { return Fn<Signature>([f](CollectionOp op, const int& k, const std::string& v) { sim::NoFaults nf; f([=](State& s) { return Announced(s, op, k, v); }, op); }); }
		static shared_ptr<Coll> Make(const State& s)
		{
			if (s.empty()) return make_shared_ptr<Coll>();
			auto v = make_shared_ptr<std::vector<Item>>(); for (auto& p : s) v->push_back(Item(p.first, V(p.second)));
			return make_shared_ptr<Coll>(EnumerableFromStlContainer(*v, v));
		}
		static const bool Updates = true;
	};

	// ---- sets
	template < typename Coll_, bool Ordered >
	struct SetOf
	{
		typedef Coll_ Coll; typedef std::string Item; typedef void Signature(CollectionOp, const std::string&);
		static std::pair<int, int> Entry(const Item& i, size_t) { return std::make_pair(N(i), 0); }
		static void Insert(State& s, int k) { s.insert(Ordered ? s.end() : s.begin() + Upper(s, k), std::make_pair(k, 0)); }
		static State Read(const Coll& c) { return Drain(c.GetEnumerator(), &Entry); }
		static State ReadReverse(const shared_ptr<IEnumerable<Item>>& e) { return Reversed(Drain(e->GetEnumerator(), &Entry)); }
		static Answer Ask(const Coll& c)
		{
			int k = sim::W(6);
			switch (sim::W(5))
			{
			case 0: { bool r = c.Contains(V(k)); return [=](const State& s) { return r == (Find(s, k) < s.size()); }; }
			case 1: { State r = Drain(c.Find(V(k)), &Entry); return [=](const State& s) { return r == State(s.begin() + Find(s, k), s.end()); }; }
			case 2: { State r = Drain(c.ReverseFind(V(k)), &Entry); return [=](const State& s) { return r == Reversed(State(s.begin(), s.begin() + LastAt(s, k))); }; }
			case 3: { size_t r = c.GetCount(); return [=](const State& s) { return r == s.size(); }; }
			default: { bool r = c.IsEmpty(); return [=](const State& s) { return r == s.empty(); }; }
			}
		}
		static Op Choose() { static const int T[] = { 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 4 }; return Op { T[sim::W(12)], (int)sim::W(6), 0, (int)sim::WR(2, 3), (int)sim::W(2), sim::WP(15) ? (int)sim::WR(1, 4) : 0, sim::WP(50) }; }
		static Result Do(Coll& c, const Op& op)
		{
			Result r;
			switch (op.type)
			{
			case 0: r.ret = c.Add(V(op.k)); break;
			case 1: r.ret = c.Remove(V(op.k)); break;
			case 2: try { Calls p(op); r.ret = (int)c.RemoveWhere(Fn<bool (const std::string&)>([&](const std::string& v) { return p(N(v)); })); } catch (const PredicateFault&) { r.threw = true; } break;
			case 3: c.Clear(); break;
			default:
			{
				MutexLock l(c.GetSyncRoot());
				for (auto e = c.GetEnumerator(); e->Valid(); e->Next()) if (Match(op, N(e->Get()))) { bool x = c.Remove(e->Get()); sim::NoFaults nf; SIM_CHECK(x, "wrong-result", "an item which is there is not removed"); }
			}
			}
			return r;
		}
		static Result Model(State& s, const Op& op)
		{
			Result r; size_t i = Find(s, op.k); bool has = i < s.size();
			switch (op.type)
			{
			case 0: r.ret = !has; if (!has) Insert(s, op.k); break;
			case 1: r.ret = has; if (has) s.erase(s.begin() + i); break;
			case 2: r.ret = ModelWhere(op, s, false, r, &Nothing); break;
			case 3: s.clear(); break;
			default: { Op o = op; o.fail = 0; ModelWhere(o, s, false, r, &Nothing); break; }
			}
			return r;
		}
		static bool Announced(State& s, CollectionOp op, const std::string& v)
		{
			int k = N(v); size_t i = Find(s, k); bool has = i < s.size();
			if (op == CollectionOp::Added) { if (has) return false; Insert(s, k); }
			else if (op == CollectionOp::Removed) { if (!has) return false; s.erase(s.begin() + i); }
			else return false;
			return true;
		}
		template < typename F > static function<Signature> Handler(const F& f) { return Fn<Signature>([f](CollectionOp op, const std::string& v) { sim::NoFaults nf; f([=](State& s) { return Announced(s, op, v); }, op); }); }
		static shared_ptr<Coll> Make(const State& s)
		{
			if (s.empty()) return make_shared_ptr<Coll>();
			auto v = make_shared_ptr<std::vector<Item>>(); for (auto& p : s) v->push_back(V(p.first));
			return make_shared_ptr<Coll>(EnumerableFromStlContainer(*v, v));
		}
		static const bool Updates = false;
	};

	// ---- multi set
	struct MultiSet
	{
		typedef SortedObservableMultiSet<std::string> Coll; typedef std::string Item; typedef void Signature(CollectionOp, const std::string&);
		static std::pair<int, int> Entry(const Item& i, size_t) { return std::make_pair(N(i), 0); }
		static void Insert(State& s, int k) { s.insert(s.begin() + Upper(s, k), std::make_pair(k, 0)); }
		static State Read(const Coll& c) { return Drain(c.GetEnumerator(), &Entry); }
		static State ReadReverse(const shared_ptr<IEnumerable<Item>>& e) { return Reversed(Drain(e->GetEnumerator(), &Entry)); }
		static Answer Ask(const Coll& c)
		{
			int k = sim::W(5);
			switch (sim::W(6))
			{
			case 0: { bool r = c.Contains(V(k)); return [=](const State& s) { return r == (Find(s, k) < s.size()); }; }
			case 1: { State r = Drain(c.Find(V(k)), &Entry); return [=](const State& s) { return r == State(s.begin() + Find(s, k), s.end()); }; }
			case 2: { State r = Drain(c.ReverseFind(V(k)), &Entry); return [=](const State& s) { return r == Reversed(State(s.begin(), s.begin() + LastAt(s, k))); }; }
			case 3: { size_t r = c.GetCount(); return [=](const State& s) { return r == s.size(); }; }
			case 4: { size_t r = c.Count(V(k)); return [=](const State& s) { return r == (size_t)std::count(s.begin(), s.end(), std::make_pair(k, 0)); }; }
			default: { bool r = c.IsEmpty(); return [=](const State& s) { return r == s.empty(); }; }
			}
		}
		static Op Choose() { static const int T[] = { 0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5 }; return Op { T[sim::W(12)], (int)sim::W(5), 0, (int)sim::WR(2, 3), (int)sim::W(2), sim::WP(15) ? (int)sim::WR(1, 4) : 0, sim::WP(50) }; }
		static Result Do(Coll& c, const Op& op)
		{
			Result r;
			switch (op.type)
			{
			case 0: c.Add(V(op.k)); break;
			case 1: r.ret = c.RemoveFirst(V(op.k)); break;
			case 2: r.ret = (int)c.RemoveAll(V(op.k)); break;
			case 3: try { Calls p(op); r.ret = (int)c.RemoveWhere(Fn<bool (const std::string&)>([&](const std::string& v) { return p(N(v)); })); } catch (const PredicateFault&) { r.threw = true; } break;
			case 4: c.Clear(); break;
			default:
			{
				MutexLock l(c.GetSyncRoot());
				for (auto e = c.GetEnumerator(); e->Valid(); e->Next()) if (Match(op, N(e->Get()))) { bool x = c.RemoveFirst(e->Get()); sim::NoFaults nf; SIM_CHECK(x, "wrong-result", "an item which is there is not removed"); }
			}
			}
			return r;
		}
		static Result Model(State& s, const Op& op)
		{
			Result r; size_t i = Find(s, op.k); bool has = i < s.size();
			switch (op.type)
			{
			case 0: Insert(s, op.k); break;
			case 1: r.ret = has; if (has) s.erase(s.begin() + i); break;
			case 2: { size_t e = LastAt(s, op.k); if (has) { r.ret = e - i; s.erase(s.begin() + i, s.begin() + e); } break; }
			case 3: r.ret = ModelWhere(op, s, false, r, &Nothing); break;
			case 4: s.clear(); break;
			default: { Op o = op; o.fail = 0; ModelWhere(o, s, false, r, &Nothing); break; }
			}
			return r;
		}
		static bool Announced(State& s, CollectionOp op, const std::string& v)
		{
			int k = N(v); size_t i = Find(s, k); bool has = i < s.size();
			if (op == CollectionOp::Added) Insert(s, k);
			else if (op == CollectionOp::Removed) { if (!has) return false; s.erase(s.begin() + i); }
			else return false;
			return true;
		}
		template < typename F > static function<Signature> Handler(const F& f) { return Fn<Signature>([f](CollectionOp op, const std::string& v) { sim::NoFaults nf; f([=](State& s) { return Announced(s, op, v); }, op); }); }
		static shared_ptr<Coll> Make(const State& s)
		{
			if (s.empty()) return make_shared_ptr<Coll>();
			auto v = make_shared_ptr<std::vector<Item>>(); for (auto& p : s) v->push_back(V(p.first));
			return make_shared_ptr<Coll>(EnumerableFromStlContainer(*v, v));
		}
		static const bool Updates = false;
	};

	// ---- multi dictionary
	struct MultiDict
	{
		typedef MultiMapObservableDictionary<int, std::string> Coll; typedef KeyValuePair<int, std::string> Item; typedef void Signature(CollectionOp, const int&, const std::string&);
		static std::pair<int, int> Entry(const Item& i, size_t) { return std::make_pair(i.Key, N(i.Value)); }
		static void Insert(State& s, int k, int v) { s.insert(s.begin() + Upper(s, k), std::make_pair(k, v)); }
		static State Read(const Coll& c) { return Drain(c.GetEnumerator(), &Entry); }
		static State ReadReverse(const shared_ptr<IEnumerable<Item>>& e) { return Reversed(Drain(e->GetEnumerator(), &Entry)); }
		static size_t FindPair(const State& s, int k, int v) { return std::find(s.begin(), s.end(), std::make_pair(k, v)) - s.begin(); }
		static Answer Ask(const Coll& c)
		{
			int k = sim::W(4);
			switch (sim::W(9))
			{
			case 0: { bool r = c.ContainsKey(k); return [=](const State& s) { return r == (Find(s, k) < s.size()); }; }
			case 1: { std::string v; bool r = c.TryGetFirst(k, v); int n = r ? N(v) : 0; return [=](const State& s) { size_t i = Find(s, k); return r ? i < s.size() && s[i].second == n : i == s.size(); }; }
			case 2: try { int n = N(c.GetFirst(k)); return [=](const State& s) { size_t i = Find(s, k); return i < s.size() && s[i].second == n; }; } catch (const KeyNotFoundException&) { return [=](const State& s) { return Find(s, k) == s.size(); }; }
			case 3: { State r = Drain(c.Find(k), &Entry); return [=](const State& s) { return r == State(s.begin() + Find(s, k), s.end()); }; }
			case 4: { State r = Drain(c.ReverseFind(k), &Entry); return [=](const State& s) { return r == Reversed(State(s.begin(), s.begin() + LastAt(s, k))); }; }
			case 5: { size_t r = c.GetCount(); return [=](const State& s) { return r == s.size(); }; }
			case 6: { size_t r = c.CountKey(k); return [=](const State& s) { return r == (Find(s, k) < s.size() ? LastAt(s, k) - Find(s, k) : 0); }; }
			case 7: { State r = Drain(c.GetAll(k), [k](const std::string& v, size_t) { return std::make_pair(k, N(v)); }); return [=](const State& s) { size_t i = Find(s, k); return i < s.size() ? r == State(s.begin() + i, s.begin() + LastAt(s, k)) : r.empty(); }; }
			default: { bool r = c.IsEmpty(); return [=](const State& s) { return r == s.empty(); }; }
			}
		}
		static Op Choose() { static const int T[] = { 0, 0, 0, 0, 0, 0, 0, 1, 2, 2, 3, 4, 4, 5, 6 }; return Op { T[sim::W(15)], (int)sim::W(4), (int)sim::W(3), (int)sim::WR(2, 3), (int)sim::W(2), sim::WP(15) ? (int)sim::WR(1, 4) : 0, sim::WP(50) }; }
		static Result Do(Coll& c, const Op& op)
		{
			Result r;
			switch (op.type)
			{
			case 0: c.Add(op.k, V(op.v)); break;
			case 1: r.ret = c.RemoveFirst(op.k); break;
			case 2: r.ret = c.RemoveFirst(op.k, V(op.v)); break;
			case 3: r.ret = (int)c.RemoveAll(op.k); break;
			case 4: try { Calls p(op); bool byValue = op.alias; r.ret = (int)c.RemoveWhere(Fn<bool (const int&, const std::string&)>([&](const int& k, const std::string& v) { return p(byValue ? N(v) : k); })); } catch (const PredicateFault&) { r.threw = true; } break;
			case 5: c.Clear(); break;
			default:
			{
				MutexLock l(c.GetSyncRoot());
				for (auto e = c.GetEnumerator(); e->Valid(); e->Next()) if (Match(op, e->Get().Key)) { bool x = c.RemoveFirst(e->Get().Key); sim::NoFaults nf; SIM_CHECK(x, "wrong-result", "an item which is there is not removed"); }
			}
			}
			return r;
		}
		static Result Model(State& s, const Op& op)
		{
			Result r; size_t i = Find(s, op.k); bool has = i < s.size();
			switch (op.type)
			{
			case 0: Insert(s, op.k, op.v); break;
			case 1: r.ret = has; if (has) s.erase(s.begin() + i); break;
			case 2: { size_t j = FindPair(s, op.k, op.v); r.ret = j < s.size(); if (r.ret) s.erase(s.begin() + j); break; }
			case 3: { size_t e = LastAt(s, op.k); if (has) { r.ret = e - i; s.erase(s.begin() + i, s.begin() + e); } break; }
			case 4: r.ret = ModelWhere(op, s, op.alias, r, &Nothing); break;
			case 5: s.clear(); break;
			default: { Op o = op; o.fail = 0; ModelWhere(o, s, false, r, &Nothing); break; }
			}
			return r;
		}
		static bool Announced(State& s, CollectionOp op, const int& k, const std::string& v_)
		{
			int v = N(v_);
			if (op == CollectionOp::Added) Insert(s, k, v);
			else if (op == CollectionOp::Removed) { size_t i = FindPair(s, k, v); if (i == s.size()) return false; s.erase(s.begin() + i); }
			else return false;
			return true;
		}
		template < typename F > static function<Signature> Handler(const F& f) { return Fn<Signature>([f](CollectionOp op, const int& k, const std::string& v) { sim::NoFaults nf; f([=](State& s) { return Announced(s, op, k, v); }, op); }); }
		static shared_ptr<Coll> Make(const State& s)
		{
			if (s.empty()) return make_shared_ptr<Coll>();
			auto v = make_shared_ptr<std::vector<Item>>(); for (auto& p : s) v->push_back(Item(p.first, V(p.second)));
			return make_shared_ptr<Coll>(EnumerableFromStlContainer(*v, v));
		}
		static const bool Updates = false;
	};

	// ---- list
	struct List
	{
		typedef ArrayObservableList<std::string> Coll; typedef std::string Item; typedef void Signature(CollectionOp, size_t, const std::string&);
		static std::pair<int, int> Entry(const Item& i, size_t) { return std::make_pair(0, N(i)); }
		static State Read(const Coll& c) { return Drain(c.GetEnumerator(), &Entry); }
		static State ReadReverse(const shared_ptr<IEnumerable<Item>>& e) { return Reversed(Drain(e->GetEnumerator(), &Entry)); }
		static size_t FindValue(const State& s, int v) { return std::find(s.begin(), s.end(), std::make_pair(0, v)) - s.begin(); }
		static Answer Ask(const Coll& c)
		{
			int v = sim::W(4); size_t i = sim::W(8);
			switch (sim::W(6))
			{
			case 0: { bool r = c.Contains(V(v)); return [=](const State& s) { return r == (FindValue(s, v) < s.size()); }; }
			case 1: { optional<size_t> o = c.IndexOf(V(v)); long r = o ? (long)*o : -1; return [=](const State& s) { return r == (FindValue(s, v) < s.size() ? (long)FindValue(s, v) : -1); }; }
			case 2: { std::string x; bool r = c.TryGet(i, x); int n = r ? N(x) : 0; return [=](const State& s) { return r ? i < s.size() && s[i].second == n : i >= s.size(); }; }
			case 3: try { int n = N(c.Get(i)); return [=](const State& s) { return i < s.size() && s[i].second == n; }; } catch (const IndexOutOfRangeException&) { return [=](const State& s) { return i >= s.size(); }; }
			case 4: { size_t r = c.GetCount(); return [=](const State& s) { return r == s.size(); }; }
			default: { bool r = c.IsEmpty(); return [=](const State& s) { return r == s.empty(); }; }
			}
		}
		static Op Choose() { static const int T[] = { 0, 0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7 }; return Op { T[sim::W(17)], (int)sim::W(8), (int)sim::W(4), (int)sim::WR(2, 3), (int)sim::W(2), sim::WP(15) ? (int)sim::WR(1, 4) : 0, sim::WP(50) }; }
		static Result Do(Coll& c, const Op& op)
		{
			Result r;
			try
			{
				switch (op.type)
				{
				case 0: c.Add(V(op.v)); break;
				case 1: c.Set(op.k, V(op.v)); break;
				case 2: c.Insert(op.k, V(op.v)); break;
				case 3: c.RemoveAt(op.k); break;
				case 4: r.ret = c.Remove(V(op.v)); break;
				case 5: { Calls p(op); r.ret = (int)c.RemoveAll(Fn<bool (const std::string&)>([&](const std::string& v) { return p(N(v)); })); break; }
				case 6: c.Clear(); break;
				default:
				{
					MutexLock l(c.GetSyncRoot());
					for (auto e = c.GetEnumerator(); e->Valid(); e->Next()) if (Match(op, N(e->Get()))) { bool x = c.Remove(e->Get()); sim::NoFaults nf; SIM_CHECK(x, "wrong-result", "an item which is there is not removed"); }
				}
				}
			}
			catch (const IndexOutOfRangeException&) { r.threw = true; }
			catch (const PredicateFault&) { r.threw = true; }
			return r;
		}
		static Result Model(State& s, const Op& op)
		{
			Result r; size_t n = s.size(), k = op.k; auto item = std::make_pair(0, op.v);
			switch (op.type)
			{
			case 0: s.push_back(item); break;
			case 1: if (k < n) s[k] = item; else r.threw = true; break;
			case 2: if (k <= n) s.insert(s.begin() + k, item); else r.threw = true; break;
			case 3: if (k < n) s.erase(s.begin() + k); else r.threw = true; break;
			case 4: { size_t i = FindValue(s, op.v); r.ret = i < n; if (i < n) s.erase(s.begin() + i); break; }
			case 5: r.ret = ModelWhere(op, s, true, r, &Nothing); break;
			case 6: s.clear(); break;
			default: { Op o = op; o.fail = 0; ModelWhere(o, s, true, r, &Nothing); break; }
			}
			return r;
		}
		static bool Announced(State& s, CollectionOp op, size_t i, const std::string& v_)
		{
			int v = N(v_);
			if (op == CollectionOp::Added) { if (i > s.size()) return false; s.insert(s.begin() + i, std::make_pair(0, v)); }
			else if (op == CollectionOp::Removed) { if (i >= s.size() || s[i].second != v) return false; s.erase(s.begin() + i); }
			else { if (i >= s.size()) return false; s[i].second = v; }
			return true;
		}
		template < typename F > static function<Signature> Handler(const F& f) { return Fn<Signature>([f](CollectionOp op, size_t i, const std::string& v) { sim::NoFaults nf; f([=](State& s) { return Announced(s, op, i, v); }, op); }); }
		static shared_ptr<Coll> Make(const State& s)
		{
			if (s.empty()) return make_shared_ptr<Coll>();
			auto v = make_shared_ptr<std::vector<Item>>(); for (auto& p : s) v->push_back(V(p.second));
			return make_shared_ptr<Coll>(EnumerableFromStlContainer(*v, v));
		}
		static const bool Updates = true;
	};

	typedef std::function<bool (State&)> Change;

	template < typename K >
	struct World
	{
		shared_ptr<typename K::Coll> coll; bool allocs = false;
		std::vector<State> versions; std::vector<int> by; // every state the collection had and the thread which made it, as announced
		bool Known(const Answer& a, size_t lo, size_t hi) const { for (size_t i = hi + 1; i-- > lo; ) if (a(versions[i])) return true; return false; }
	};

	// Records the history; connected before anything happens
	template < typename K >
	void Record(World<K>* w, const Change& change, CollectionOp op)
	{
		sim::NoFaults nf; State s; { sim::Quiet q; s = w->versions.back(); } State before = s;
		SIM_CHECK(op != CollectionOp::Updated || K::Updates, "wrong-change", "an update is announced");
		SIM_CHECK(change(s), "wrong-change", "the announced change " << op.ToString() << " is impossible in " << Show(before));
		State real = K::Read(*w->coll);
		SIM_CHECK(real == s, "wrong-change", "the announced change " << op.ToString() << " turns " << Show(before) << " into " << Show(s) << ", the collection holds " << Show(real));
		sim::Quiet q; w->versions.push_back(s); w->by.push_back(sim::self());
	}

	template < typename K >
	struct Replica
	{
		World<K>* w; State s; bool async; int connecting = -1; bool connected = false, gone = false; Token connection;
		void OnChanged(const Change& change, CollectionOp op)
		{
			sim::NoFaults nf; State now; bool populating; { sim::Quiet q; now = s; populating = connecting == sim::self(); SIM_CHECK(!gone, "disconnected", "a change is announced to a disconnected observer"); }
			SIM_CHECK(!populating || op == CollectionOp::Added, "wrong-change", op.ToString() << " is announced within the connection");
			SIM_CHECK(change(now), "replica", "the announced change " << op.ToString() << " is impossible in the replica " << Show(now));
			if (!async && !populating) { State real = K::Read(*w->coll); SIM_CHECK(real == now, "replica", "a replica of " << Show(real) << " holds " << Show(now)); }
			sim::Quiet q; s = now;
		}
	};

	template < typename K >
	void Mutate(World<K>* w)
	{
		Op op = K::Choose(); Result r; bool failed = false; size_t lo, hi; bool locked = sim::WP(25);
		optional<ObservableCollectionLocker> l; std::unique_ptr<ObservableCollectionLocker> lock; if (locked) lock.reset(new ObservableCollectionLocker(w->coll));
		{ sim::Quiet q; lo = w->versions.size() - 1; }
		try { sim::AllocFaults af(w->allocs && sim::WP(40) ? 150 : 0); r = K::Do(*w->coll, op); }
		catch (const std::bad_alloc&) { SIM_CHECK(w->allocs, "unexpected", "bad_alloc"); sim::probe("no memory for a change"); failed = true; }
		std::vector<State> v; std::vector<int> by; { sim::Quiet q; hi = w->versions.size() - 1; v.assign(w->versions.begin() + lo, w->versions.end()); by.assign(w->by.begin() + lo, w->by.end()); }
		if (locked) { State real = K::Read(*w->coll); SIM_CHECK(real == v.back(), "unannounced", "after a change under the mutex the collection holds " << Show(real) << ", announced was " << Show(v.back())); }
		// what this thread announced is contiguous and amounts to the operation
		size_t first = 0, last = 0; for (size_t i = 1; i < by.size(); ++i) if (by[i] == sim::self()) { if (!first) first = i; else SIM_CHECK(last == i - 1, "interleaved", "an operation is interleaved with another one"); last = i; }
		SIM_CHECK(!locked || hi == lo + (first ? last - first + 1 : 0), "mutex", "the collection is changed while it is locked");
		if (failed) return;
		State expected; Result e;
		if (first) { expected = v[first - 1]; e = K::Model(expected, op); SIM_CHECK(expected == v[last], "wrong-change", "operation " << op.type << "(" << op.k << "," << op.v << ") turns " << Show(v[first - 1]) << " into " << Show(v[last]) << " instead of " << Show(expected)); SIM_CHECK(e == r, "wrong-result", "operation " << op.type << "(" << op.k << "," << op.v << ") returns " << r.ret << (r.threw ? " (throws)" : "") << " in " << Show(v[first - 1])); return; }
		for (size_t i = 0; i < v.size(); ++i) { expected = v[i]; e = K::Model(expected, op); if (expected == v[i] && e == r) { if (op.type == 1 && K::Updates && !r.threw) continue; return; } }
		SIM_CHECK(false, "unannounced", "operation " << op.type << "(" << op.k << "," << op.v << ") returns " << r.ret << (r.threw ? " (throws)" : "") << " and announces nothing in " << Show(v[0]) << (v.size() > 1 ? " or later" : ""));
	}

	template < typename K >
	void Observe(World<K>* w)
	{
		size_t lo, hi; { sim::Quiet q; lo = w->versions.size() - 1; }
		switch (sim::W(6))
		{
		case 0: case 1:
		{
			bool reverse = sim::WP(30); State r;
			if (reverse) { auto e = w->coll->Reverse(); { sim::Quiet q; hi = w->versions.size() - 1; } if (sim::WP(40)) sim::sleepUs(sim::W(800)); r = K::ReadReverse(e); }
			else { auto e = w->coll->GetEnumerator(); { sim::Quiet q; hi = w->versions.size() - 1; } for (; e->Valid(); e->Next()) { auto v = K::Entry(e->Get(), r.size()); r.push_back(v); if (sim::WP(15)) sim::sleepUs(sim::W(300)); } }
			Answer a = [r](const State& s) { return s == r; };
			sim::Quiet q; SIM_CHECK(w->Known(a, lo, hi + 1 < w->versions.size() ? hi + 1 : hi), "torn-state", "an enumeration gives " << Show(r) << " which the collection never held between " << Show(w->versions[lo]) << " and " << Show(w->versions[hi]));
			break;
		}
		case 2:
		{
			Answer a = K::Ask(*w->coll); sim::Quiet q; hi = w->versions.size() - 1; // a change precedes its announcement, under one mutex: it cannot be seen before it is announced
			SIM_CHECK(w->Known(a, lo, hi), "wrong-answer", "a wrong answer between " << Show(w->versions[lo]) << " and " << Show(w->versions[hi]));
			break;
		}
		default:
		{
			ObservableCollectionLocker l(w->coll); State s; { sim::Quiet q; s = w->versions.back(); hi = w->versions.size() - 1; }
			State real = K::Read(*w->coll); SIM_CHECK(real == s, "unannounced", "under its mutex the collection holds " << Show(real) << ", announced was " << Show(s));
			for (size_t k = sim::W(4); k; --k) { Answer a = K::Ask(*w->coll); SIM_CHECK(a(s), "wrong-answer", "a wrong answer under the mutex in " << Show(s)); }
			if (sim::WP(30)) sim::sleepUs(sim::W(300));
			sim::Quiet q; SIM_CHECK(hi == w->versions.size() - 1, "mutex", "the collection is changed while it is locked");
		}
		}
	}

	template < typename K >
	void Concurrent(bool allocs)
	{
		SilenceLog();
		World<K> w; w.allocs = allocs; World<K>* pw = &w; std::vector<std::unique_ptr<Replica<K>>> replicas; auto* pr = &replicas;
		State start; for (size_t n = sim::WP(60) ? sim::W(6) : 0; n; --n) { State s = start; Op op = K::Choose(); op.type = 0; K::Model(start, op); }
		w.coll = K::Make(start); { sim::Quiet q; w.versions.push_back(start); w.by.push_back(-1); }
		{ State real = K::Read(*w.coll); SIM_CHECK(real == start, "wrong-content", "a collection made of " << Show(start) << " holds " << Show(real)); }
		Token recorder = w.coll->OnChanged().connect(K::Handler([pw](const Change& c, CollectionOp op) { Record(pw, c, op); }), false);
		ThreadTaskExecutorPtr executor; if (!allocs && sim::WP(30)) executor = make_shared_ptr<ThreadTaskExecutor>("replicas", optional<TimeDuration>()); ThreadTaskExecutorPtr* pe = &executor;
		auto subscribe = [pw, pr, pe](bool late)
		{
			Replica<K>* r; { sim::Quiet q; pr->emplace_back(new Replica<K>()); r = pr->back().get(); r->w = pw; }
			r->async = *pe && sim::WP(50);
			bool again = late && sim::WP(30); // an observer which leaves and comes back
			for (;;)
			{
				size_t lo; { sim::Quiet q; r->connecting = sim::self(); r->s.clear(); r->gone = false; lo = pw->versions.size() - 1; }
				auto h = K::Handler([r](const Change& c, CollectionOp op) { r->OnChanged(c, op); });
				Token t = r->async ? pw->coll->OnChanged().connect(*pe, h) : pw->coll->OnChanged().connect(h);
				{ sim::Quiet q; r->connecting = -1; }
				if (!again) { sim::Quiet q; r->connection = t; r->connected = true; return; }
				again = false; sim::sleepUs(sim::W(300)); t.Reset();
				sim::Quiet q; r->gone = true; State s = r->s; Answer a = [s](const State& v) { return v == s; };
				// what was announced until then is a state which existed (executors may have got only a part of the initial content)
				SIM_CHECK(r->async || pw->Known(a, lo, pw->versions.size() - 1), "replica", "a replica which was disconnected holds " << Show(s));
			}
		};
		if (sim::WP(60)) subscribe(false);
		Clients cs; size_t writers = sim::WR(1, 3), readers = sim::W(3), subscribers = sim::W(3);
		for (size_t i = 0; i < writers; ++i) Spawn(cs, "writer", [pw] { size_t n = sim::WR(2, 9); for (size_t k = 0; k < n; ++k) { Mutate(pw); if (sim::WP(20)) sim::sleepUs(sim::W(300)); } });
		for (size_t i = 0; i < readers; ++i) Spawn(cs, "reader", [pw] { size_t n = sim::WR(2, 10); for (size_t k = 0; k < n; ++k) { Observe(pw); if (sim::WP(30)) sim::sleepUs(sim::W(300)); } });
		for (size_t i = 0; i < subscribers; ++i) Spawn(cs, "subscriber", [subscribe] { sim::sleepUs(sim::W(600)); subscribe(true); });
		JoinAll(cs);
		State last = w.versions.back(), real = K::Read(*w.coll);
		if (executor) { bool delivered = false, *d = &delivered; executor->AddTask(Fn<void ()>([d] { sim::Quiet q; *d = true; })); SIM_CHECK(sim::waitFor([d] { return *d; }, 20000000, 5000), "replica", "changes are not delivered through an executor"); }
		SIM_CHECK(real == last, "unannounced", "the collection holds " << Show(real) << ", announced was " << Show(last));
		for (auto& r : replicas) {  SIM_CHECK(r->s == last, "replica", "a replica holds " << Show(r->s) << " instead of " << Show(last)); r->connection.Reset(); }
		Mutate(pw); Observe(pw);
		recorder.Reset(); executor.reset();
	}

	typedef DictOf<MapObservableDictionary<int, std::string>, false> MapDict;
	typedef DictOf<FlatMapObservableDictionary<int, std::string>, false> FlatDict;
	typedef DictOf<OrderedObservableDictionary<int, std::string>, true> OrderedDict;
	typedef SetOf<SortedObservableSet<std::string>, false> TreeSet;
	typedef SetOf<FlatSortedObservableSet<std::string>, false> FlatSet;
	typedef SetOf<OrderedObservableSet<std::string>, true> OrdSet;

	void Any(bool allocs, bool dict)
	{
		if (dict) switch (sim::W(4)) { case 0: Concurrent<MapDict>(allocs); break; case 1: Concurrent<FlatDict>(allocs); break; case 2: Concurrent<OrderedDict>(allocs); break; default: Concurrent<MultiDict>(allocs); }
		else switch (sim::W(4)) { case 0: Concurrent<TreeSet>(allocs); break; case 1: Concurrent<FlatSet>(allocs); break; case 2: Concurrent<OrdSet>(allocs); break; default: Concurrent<MultiSet>(allocs); }
	}
}

SIM_SCENARIO(list, 3) { Concurrent<List>(false); }
SIM_SCENARIO(dictionaries, 6) { Any(false, true); }
SIM_SCENARIO(sets, 6) { Any(false, false); }
SIM_SCENARIO(list_no_memory, 2) { Concurrent<List>(true); }
SIM_SCENARIO(dictionaries_no_memory, 3) { Any(true, true); }
SIM_SCENARIO(sets_no_memory, 3) { Any(true, false); }

// One key of a dictionary, one value of a set as observable values
namespace
{
	struct Obs { int value = -2; size_t events = 0; Token t; };

	template < typename Value, typename Num, typename Set >
	void Entry(const Value& value, const Num& num, const Set& set, const std::function<Token (const std::function<void (int)>&)>& record, const std::function<void ()>& change, const Mutex& mutex)
	{
		std::vector<int> history { num(value->Get()) }; auto* ph = &history;
		Token rec = record([ph](int v) { sim::Quiet q; ph->push_back(v); });
		std::vector<std::unique_ptr<Obs>> obs; auto* po = &obs;
		auto subscribe = [=]
		{
			Obs* o; { sim::Quiet q; po->emplace_back(new Obs()); o = po->back().get(); }
			o->t = value->OnChanged().connect(Fn<void (decltype(value->Get()))>([=](const decltype(value->Get())& v)
			{
				int n = num(v), g = num(value->Get()); sim::Quiet q; ++o->events; o->value = n;
				SIM_CHECK(n == ph->back() && g == n, "wrong-value", "the value " << n << " is announced when it is " << ph->back() << ", Get() gives " << g);
			}));
			sim::Quiet q; SIM_CHECK(o->events, "wrong-value", "nothing is announced within the connection");
		};
		Clients cs; size_t writers = sim::WR(1, 3);
		for (size_t i = 0; i < writers; ++i) Spawn(cs, "writer", [=] { for (size_t k = sim::WR(1, 6); k; --k) { if (sim::WP(50)) change(); else set(sim::W(3)); if (sim::WP(20)) sim::sleepUs(sim::W(200)); } });
		subscribe();
		Spawn(cs, "subscriber", [=] { sim::sleepUs(sim::W(400)); subscribe(); });
		const Mutex* pm = sim::WP(50) ? &mutex : &value->GetSyncRoot();
		if (sim::WP(60)) Spawn(cs, "reader", [=]
		{
			for (size_t k = sim::W(8); k; --k)
			{
				if (sim::WP(40)) { MutexLock l(*pm); int v = num(value->Get()); if (sim::WP(50)) sim::sleepUs(100); int v2 = num(value->Get()); sim::Quiet q; SIM_CHECK(v == ph->back() && v2 == v, "wrong-value", "Get() under the mutex gives " << v << " and " << v2 << " instead of " << ph->back()); continue; }
				size_t lo; { sim::Quiet q; lo = ph->size() - 1; } int v = num(value->Get());
				sim::Quiet q; bool ok = false; for (size_t i = lo; i < ph->size(); ++i) ok = ok || (*ph)[i] == v; SIM_CHECK(ok, "wrong-value", "Get() gives " << v);
			}
		});
		JoinAll(cs);
		SIM_CHECK(num(value->Get()) == history.back(), "wrong-value", "Get() gives a wrong value at the end");
		for (auto& o : obs) { SIM_CHECK(o->value == history.back(), "wrong-value", "an observer has the value " << o->value << " instead of " << history.back()); o->t.Reset(); }
		rec.Reset();
	}
}

SIM_SCENARIO(key_value, 2)
{
	SilenceLog();
	auto d = make_shared_ptr<MapObservableDictionary<int, std::string>>(); auto* c = d.get();
	if (sim::WP(50)) d->Add(1, V(2));
	auto num = [](const optional<std::string>& v) { return v ? N(*v) : -1; };
	// the recorder precedes the value's own connection: it sees every change first
	std::function<void (int)> sink; auto* ps = &sink;
	Token first = d->OnChanged().connect(Fn<void (CollectionOp, const int&, const std::string&)>([=](CollectionOp op, const int& k, const std::string& v) { if (k == 1 && *ps) (*ps)(op == CollectionOp::Removed ? -1 : N(v)); }), false);
	auto kv = GetDictionaryKeyValue(d, 1);
	Entry(kv, num, [kv](int v) { if (sim::WP(30)) kv->Set(null); else kv->Set(V(v)); }, [ps](const std::function<void (int)>& f) { *ps = f; return Token(); },
		[c] { int k = sim::W(3), v = sim::W(3); switch (sim::W(4)) { case 0: c->Set(k, V(v)); break; case 1: c->Remove(k); break; case 2: c->Add(k, V(v)); break; default: if (sim::WP(40)) c->Clear(); else c->RemoveWhere(Fn<bool (const int&, const std::string&)>([v](const int& k, const std::string&) { return k == v; })); } }, d->GetSyncRoot());
	first.Reset();
}

SIM_SCENARIO(set_entry, 2)
{
	SilenceLog();
	auto d = make_shared_ptr<SortedObservableSet<int>>(); auto* c = d.get();
	if (sim::WP(50)) d->Add(1);
	std::function<void (int)> sink; auto* ps = &sink;
	Token first = d->OnChanged().connect(Fn<void (CollectionOp, const int&)>([=](CollectionOp op, const int& k) { if (k == 1 && *ps) (*ps)(op == CollectionOp::Added); }), false);
	auto e = GetSetEntry(shared_ptr<IObservableSet<int>>(d), 1);
	Entry(e, [](bool b) { return (int)b; }, [e](int v) { e->Set(v == 0); }, [ps](const std::function<void (int)>& f) { *ps = f; return Token(); },
		[c] { int k = sim::W(3), v = sim::W(3); switch (sim::W(4)) { case 0: case 1: c->Add(k); break; case 2: c->Remove(k); break; default: if (sim::WP(40)) c->Clear(); else c->RemoveWhere(Fn<bool (const int&)>([v](const int& k) { return k == v; })); } }, d->GetSyncRoot());
	first.Reset();
}
