// C20: transactional collections: isolation, atomicity, announced differences
#include "common.h"
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalDictionaryKeyValue.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalSet.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>

#include <map>
#include <set>

namespace
{
	typedef std::vector<std::pair<int, int>> State;

	std::string V(int n) { char b[64]; snprintf(b, sizeof(b), "value-%06d-longer-than-a-short-string", n); return b; }
	int N(const std::string& s)
	{
		int n = -1; SIM_CHECK(s.size() == 39 && sscanf(s.c_str(), "value-%06d-longer", &n) == 1 && s == V(n), "wrong-content", "an item is garbage: '" << s << "'");
		return n;
	}
	std::string Show(const State& s) { std::string r; char b[40]; for (auto& p : s) { snprintf(b, sizeof(b), "%d:%d ", p.first, p.second); r += b; } return "[ " + r + "]"; }
	State Reversed(State s) { std::reverse(s.begin(), s.end()); return s; }
	size_t IndexOfKey(const State& s, int k) { size_t i = 0; while (i < s.size() && s[i].first < k) ++i; return i; }
	bool HasKey(const State& s, int k) { size_t i = IndexOfKey(s, k); return i < s.size() && s[i].first == k; }

	template < typename T, typename F >
	State Drain(const shared_ptr<IEnumerator<T>>& e, const F& entry)
	{ State r; for (; e->Valid(); e->Next()) { auto v = entry(e->Get(), r.size()); r.push_back(v); } return r; }

	struct PredicateFault : public std::exception { const char* what() const noexcept override { return "predicate fault"; } };

	typedef std::vector<std::function<void ()>> Snapshots;

	// Adapters of the three collections to one interface over State
	struct Dict
	{
		typedef TransactionalDictionary<int, std::string> Coll; typedef ITransactionalDictionary<int, std::string> Iface; typedef IDictionaryTransaction<int, std::string> Tr; typedef KeyValuePair<int, std::string> Item;
		static const char* Name() { return "dictionary"; }
		static std::pair<int, int> Entry(const Item& i, size_t) { return std::make_pair(i.Key, N(i.Value)); }

		template < typename C > static State Read(const C& c) { return Drain(c.GetEnumerator(), &Entry); }
		template < typename C > static State ReadReverse(const C& c) { return Drain(c.Reverse()->GetEnumerator(), &Entry); }

		template < typename C > static void ReadPoint(const C& c, const State& s, const char* where)
		{
			int k = sim::W(8); bool has = HasKey(s, k); size_t i = IndexOfKey(s, k);
			switch (sim::W(7))
			{
			case 0: SIM_CHECK(c.ContainsKey(k) == has, "wrong-content", where << ": ContainsKey(" << k << ") is " << !has << " in " << Show(s)); break;
			case 1: { std::string v; bool r = c.TryGet(k, v); SIM_CHECK(r == has && (!has || N(v) == s[i].second), "wrong-content", where << ": TryGet(" << k << ") gives " << r << " " << v << " in " << Show(s)); break; }
			case 2: try { std::string v = c.Get(k); SIM_CHECK(has && N(v) == s[i].second, "wrong-content", where << ": Get(" << k << ") gives " << v << " in " << Show(s)); } catch (const KeyNotFoundException&) { SIM_CHECK(!has, "wrong-content", where << ": Get(" << k << ") fails in " << Show(s)); } break;
			case 3: { State r = Drain(c.Find(k), &Entry); State e = has ? State(s.begin() + i, s.end()) : State(); SIM_CHECK(r == e, "wrong-content", where << ": Find(" << k << ") gives " << Show(r) << " in " << Show(s)); break; }
			case 4: { State r = Drain(c.ReverseFind(k), &Entry); State e = has ? Reversed(State(s.begin(), s.begin() + i + 1)) : State(); SIM_CHECK(r == e, "wrong-content", where << ": ReverseFind(" << k << ") gives " << Show(r) << " in " << Show(s)); break; }
			case 5: SIM_CHECK((size_t)c.GetCount() == s.size(), "wrong-content", where << ": " << c.GetCount() << " items counted in " << Show(s)); break;
			default: SIM_CHECK(c.IsEmpty() == s.empty(), "wrong-content", where << ": IsEmpty is " << c.IsEmpty() << " in " << Show(s)); break;
			}
		}

		static void Change(Tr& t, State& s)
		{
			int k = sim::W(8), v = sim::W(3); size_t i = IndexOfKey(s, k); bool has = HasKey(s, k);
			switch (sim::W(12))
			{
			case 0: case 1: case 2: { bool r = t.Add(k, V(v)); SIM_CHECK(r == !has, "wrong-result", "Add(" << k << ") returns " << r << " in " << Show(s)); if (!has) s.insert(s.begin() + i, std::make_pair(k, v)); break; }
			case 3: case 4: case 5: t.Set(k, V(v)); if (has) s[i].second = v; else s.insert(s.begin() + i, std::make_pair(k, v)); break;
			case 6: case 7: { bool r = t.Remove(k); SIM_CHECK(r == has, "wrong-result", "Remove(" << k << ") returns " << r << " in " << Show(s)); if (has) s.erase(s.begin() + i); break; }
			case 8: case 9:
			{
				int m = sim::WR(2, 3), x = sim::W(m); bool byValue = sim::WP(50);
				size_t r = t.RemoveWhere(Fn<bool (const int&, const std::string&)>([=](const int& k, const std::string& v) { return (byValue ? N(v) : k) % m == x; }));
				size_t n = 0; for (size_t j = 0; j < s.size(); ) if ((byValue ? s[j].second : s[j].first) % m == x) { s.erase(s.begin() + j); ++n; } else ++j;
				SIM_CHECK(r == n, "wrong-result", "RemoveWhere returns " << r << " instead of " << n); break;
			}
			case 10: t.Clear(); s.clear(); break;
			default:
				if (sim::WP(50)) { t.Apply(Tr::DiffEntryType(sim::WP(50) ? CollectionOp::Added : CollectionOp::Updated, Item(k, V(v)))); if (has) s[i].second = v; else s.insert(s.begin() + i, std::make_pair(k, v)); }
				else { t.Apply(Tr::DiffEntryType(CollectionOp::Removed, Item(k, V(v)))); if (has) s.erase(s.begin() + i); }
			}
		}

		// Applies one announced entry, which must be exact
		static void Replay(State& s, CollectionOp op, const Item& item)
		{
			int k = item.Key, v = N(item.Value); size_t i = IndexOfKey(s, k); bool has = HasKey(s, k);
			if (op == CollectionOp::Added) { SIM_CHECK(!has, "wrong-diff", "'added " << k << "' is announced although it is there: " << Show(s)); s.insert(s.begin() + i, std::make_pair(k, v)); }
			else if (op == CollectionOp::Removed) { SIM_CHECK(has && s[i].second == v, "wrong-diff", "'removed " << k << ":" << v << "' is announced for " << Show(s)); s.erase(s.begin() + i); }
			else { SIM_CHECK(has && s[i].second != v, "wrong-diff", "'updated " << k << ":" << v << "' is announced for " << Show(s)); s[i].second = v; }
		}
		static size_t DiffSize(const State& a, const State& b)
		{
			size_t n = 0; for (auto& p : a) if (std::find(b.begin(), b.end(), p) == b.end()) ++n;
			for (auto& p : b) if (std::find(a.begin(), a.end(), p) == a.end()) ++n;
			return n;
		}
		static const bool ExactDiff = true;
	};

	struct Set
	{
		typedef TransactionalSet<std::string> Coll; typedef ITransactionalSet<std::string> Iface; typedef ISetTransaction<std::string> Tr; typedef std::string Item;
		static const char* Name() { return "set"; }
		static std::pair<int, int> Entry(const Item& i, size_t) { return std::make_pair(N(i), 0); }
		template < typename C > static State Read(const C& c) { return Drain(c.GetEnumerator(), &Entry); }
		template < typename C > static State ReadReverse(const C& c) { return Drain(c.Reverse()->GetEnumerator(), &Entry); }
		template < typename C > static void ReadPoint(const C& c, const State& s, const char* where)
		{
			int k = sim::W(8); bool has = HasKey(s, k); size_t i = IndexOfKey(s, k);
			switch (sim::W(5))
			{
			case 0: SIM_CHECK(c.Contains(V(k)) == has, "wrong-content", where << ": Contains(" << k << ") is " << !has << " in " << Show(s)); break;
			case 1: { State r = Drain(c.Find(V(k)), &Entry); State e = has ? State(s.begin() + i, s.end()) : State(); SIM_CHECK(r == e, "wrong-content", where << ": Find(" << k << ") gives " << Show(r) << " in " << Show(s)); break; }
			case 2: { State r = Drain(c.ReverseFind(V(k)), &Entry); State e = has ? Reversed(State(s.begin(), s.begin() + i + 1)) : State(); SIM_CHECK(r == e, "wrong-content", where << ": ReverseFind(" << k << ") gives " << Show(r) << " in " << Show(s)); break; }
			case 3: SIM_CHECK((size_t)c.GetCount() == s.size(), "wrong-content", where << ": " << c.GetCount() << " items counted in " << Show(s)); break;
			default: SIM_CHECK(c.IsEmpty() == s.empty(), "wrong-content", where << ": IsEmpty is " << c.IsEmpty() << " in " << Show(s)); break;
			}
		}
		static void Change(Tr& t, State& s)
		{
			int k = sim::W(8); size_t i = IndexOfKey(s, k); bool has = HasKey(s, k);
			switch (sim::W(10))
			{
			case 0: case 1: case 2: { bool r = t.Add(V(k)); SIM_CHECK(r == !has, "wrong-result", "Add(" << k << ") returns " << r << " in " << Show(s)); if (!has) s.insert(s.begin() + i, std::make_pair(k, 0)); break; }
			case 3: case 4: case 5: { bool r = t.Remove(V(k)); SIM_CHECK(r == has, "wrong-result", "Remove(" << k << ") returns " << r << " in " << Show(s)); if (has) s.erase(s.begin() + i); break; }
			case 6: case 7:
			{
				int m = sim::WR(2, 3), x = sim::W(m);
				size_t r = t.RemoveWhere(Fn<bool (const std::string&)>([=](const std::string& v) { return N(v) % m == x; }));
				size_t n = 0; for (size_t j = 0; j < s.size(); ) if (s[j].first % m == x) { s.erase(s.begin() + j); ++n; } else ++j;
				SIM_CHECK(r == n, "wrong-result", "RemoveWhere returns " << r << " instead of " << n); break;
			}
			case 8: t.Clear(); s.clear(); break;
			default:
				if (sim::WP(50)) { t.Apply(Tr::DiffEntryType(CollectionOp::Added, V(k))); if (!has) s.insert(s.begin() + i, std::make_pair(k, 0)); }
				else { t.Apply(Tr::DiffEntryType(CollectionOp::Removed, V(k))); if (has) s.erase(s.begin() + i); }
			}
		}
		static void Replay(State& s, CollectionOp op, const Item& item)
		{
			int k = N(item); size_t i = IndexOfKey(s, k); bool has = HasKey(s, k);
			if (op == CollectionOp::Added) { SIM_CHECK(!has, "wrong-diff", "'added " << k << "' is announced although it is there: " << Show(s)); s.insert(s.begin() + i, std::make_pair(k, 0)); }
			else { SIM_CHECK(op == CollectionOp::Removed && has, "wrong-diff", "'removed " << k << "' is announced for " << Show(s)); s.erase(s.begin() + i); }
		}
		static size_t DiffSize(const State& a, const State& b) { return Dict::DiffSize(a, b); }
		static const bool ExactDiff = true;
	};

	struct List
	{
		typedef TransactionalList<std::string, comparers::Equals> Coll; typedef ITransactionalList<std::string> Iface; typedef IListTransaction<std::string> Tr; typedef KeyValuePair<size_t, std::string> Item;
		static const char* Name() { return "list"; }
		static std::pair<int, int> Entry(const std::string& v, size_t i) { return std::make_pair((int)i, N(v)); }
		static void Renumber(State& s) { for (size_t i = 0; i < s.size(); ++i) s[i].first = i; }
		template < typename C > static State Read(const C& c) { return Drain(c.GetEnumerator(), &Entry); }
		template < typename C > static State ReadReverse(const C& c) { State s = Drain(c.Reverse()->GetEnumerator(), &Entry); for (size_t i = 0; i < s.size(); ++i) s[i].first = s.size() - 1 - i; return s; }
		template < typename C > static void ReadPoint(const C& c, const State& s, const char* where)
		{
			size_t i = sim::W(10); int v = sim::W(4); size_t at = 0; while (at < s.size() && s[at].second != v) ++at; bool has = at < s.size();
			switch (sim::W(6))
			{
			case 0: SIM_CHECK(c.Contains(V(v)) == has, "wrong-content", where << ": Contains(" << v << ") is " << !has << " in " << Show(s)); break;
			case 1: { optional<size_t> r = c.IndexOf(V(v)); SIM_CHECK(r.is_initialized() == has && (!has || *r == at), "wrong-content", where << ": IndexOf(" << v << ") is wrong in " << Show(s)); break; }
			case 2: { std::string x; bool r = c.TryGet(i, x); SIM_CHECK(r == (i < s.size()) && (!r || N(x) == s[i].second), "wrong-content", where << ": TryGet(" << i << ") gives " << r << " " << x << " in " << Show(s)); break; }
			case 3: try { std::string x = c.Get(i); SIM_CHECK(i < s.size() && N(x) == s[i].second, "wrong-content", where << ": Get(" << i << ") gives " << x << " in " << Show(s)); } catch (const IndexOutOfRangeException&) { SIM_CHECK(i >= s.size(), "wrong-content", where << ": Get(" << i << ") fails in " << Show(s)); } break;
			case 4: SIM_CHECK((size_t)c.GetCount() == s.size(), "wrong-content", where << ": " << c.GetCount() << " items counted in " << Show(s)); break;
			default: SIM_CHECK(c.IsEmpty() == s.empty(), "wrong-content", where << ": IsEmpty is " << c.IsEmpty() << " in " << Show(s)); break;
			}
		}
		static void Change(Tr& t, State& s)
		{
			int v = sim::W(4); size_t n = s.size(), i = sim::W(n + 2);
			switch (sim::W(12))
			{
			case 0: case 1: case 2: if (n > 12) break; t.Add(V(v)); s.push_back(std::make_pair(0, v)); break;
			case 3: case 4: try { t.Set(i, V(v)); SIM_CHECK(i < n, "wrong-result", "Set(" << i << ") succeeds in " << Show(s)); s[i].second = v; } catch (const IndexOutOfRangeException&) { SIM_CHECK(i >= n, "wrong-result", "Set(" << i << ") fails in " << Show(s)); } break;
			case 5: case 6: if (n > 12) break; try { t.Insert(i, V(v)); SIM_CHECK(i <= n, "wrong-result", "Insert(" << i << ") succeeds in " << Show(s)); s.insert(s.begin() + i, std::make_pair(0, v)); } catch (const IndexOutOfRangeException&) { SIM_CHECK(i > n, "wrong-result", "Insert(" << i << ") fails in " << Show(s)); } break;
			case 7: try { t.RemoveAt(i); SIM_CHECK(i < n, "wrong-result", "RemoveAt(" << i << ") succeeds in " << Show(s)); s.erase(s.begin() + i); } catch (const IndexOutOfRangeException&) { SIM_CHECK(i >= n, "wrong-result", "RemoveAt(" << i << ") fails in " << Show(s)); } break;
			case 8: { size_t at = 0; while (at < n && s[at].second != v) ++at; bool r = t.Remove(V(v)); SIM_CHECK(r == (at < n), "wrong-result", "Remove(" << v << ") returns " << r << " in " << Show(s)); if (at < n) s.erase(s.begin() + at); break; }
			case 9:
			{
				size_t r = t.RemoveAll(Fn<bool (const std::string&)>([=](const std::string& x) { return N(x) == v; }));
				size_t k = 0; for (size_t j = 0; j < s.size(); ) if (s[j].second == v) { s.erase(s.begin() + j); ++k; } else ++j;
				SIM_CHECK(r == k, "wrong-result", "RemoveAll returns " << r << " instead of " << k); break;
			}
			case 10: t.Clear(); s.clear(); break;
			default:
				if (sim::WP(30)) { if (i < n) { t.Apply(Tr::DiffEntryType(CollectionOp::Updated, Item(i, V(v)))); s[i].second = v; } }
				else if (sim::WP(50)) { if (i <= n && n <= 12) { t.Apply(Tr::DiffEntryType(CollectionOp::Added, Item(i, V(v)))); s.insert(s.begin() + i, std::make_pair(0, v)); } }
				else if (i < n) { t.Apply(Tr::DiffEntryType(CollectionOp::Removed, Item(i, V(s[i].second)))); s.erase(s.begin() + i); }
			}
			Renumber(s);
		}
		static void Replay(State& s, CollectionOp op, const Item& item)
		{
			size_t i = item.Key; int v = N(item.Value);
			if (op == CollectionOp::Added) { SIM_CHECK(i <= s.size(), "wrong-diff", "'added at " << i << "' is announced for " << Show(s)); s.insert(s.begin() + i, std::make_pair(0, v)); }
			else if (op == CollectionOp::Removed) { SIM_CHECK(i < s.size() && s[i].second == v, "wrong-diff", "'removed " << v << " at " << i << "' is announced for " << Show(s)); s.erase(s.begin() + i); }
			else { SIM_CHECK(i < s.size(), "wrong-diff", "'updated at " << i << "' is announced for " << Show(s)); s[i].second = v; }
			Renumber(s);
		}
		static size_t DiffSize(const State&, const State&) { return 0; }
		static const bool ExactDiff = false;
	};

	template < typename K, typename DiffPtr >
	size_t ReplayDiff(State& s, const DiffPtr& diff)
	{ size_t n = 0; for (auto e = diff->GetEnumerator(); e->Valid(); e->Next(), ++n) { auto x = e->Get(); K::Replay(s, x.Op, x.Item); } return n; }

	template < typename K >
	struct World
	{
		shared_ptr<typename K::Coll> coll = make_shared_ptr<typename K::Coll>();
		std::vector<State> versions { State() }; size_t completed = 0; // versions[0..] in the order of commits; the last one may be being committed
		int open = 0; bool allocs = false;

		bool Known(const State& s, size_t lo, size_t hi, size_t* which = 0) const { for (size_t i = hi + 1; i-- > lo; ) if (versions[i] == s) { if (which) *which = i; return true; } return false; }
	};

	// A replica fed by the announcements only
	template < typename K >
	struct Replica
	{
		World<K>* w; State s; size_t version = 0; bool first = true, late; Token connection; shared_ptr<typename K::Coll> copy;
		Replica(World<K>* w_, bool late_) : w(w_), late(late_) { }
		void OnChanged(const typename K::Iface::DiffTypePtr& diff)
		{
			sim::NoFaults nf; State before, now; bool populating; { sim::Quiet q; before = s; now = s; populating = first && late; }
			size_t n = ReplayDiff<K>(now, diff);
			State real = K::Read(*w->coll); // the handler runs under the mutex of the collection
			SIM_CHECK(real == now, "wrong-diff", "the announced differences turn " << Show(before) << " into " << Show(now) << " while the collection holds " << Show(real));
			SIM_CHECK(n != 0, "wrong-diff", "a change without differences is announced");
			if (K::ExactDiff) SIM_CHECK(n == K::DiffSize(before, now), "wrong-diff", n << " differences are announced between " << Show(before) << " and " << Show(now));
			if (copy)
			{
				typename K::Iface::TransactionTypePtr t = copy->StartTransaction();
				for (auto e = diff->GetEnumerator(); e->Valid(); e->Next()) t->Apply(e->Get());
				t->Commit(); t.reset();
				State c = K::Read(*copy); SIM_CHECK(c == now, "wrong-diff", "a collection to which the differences are applied holds " << Show(c) << " instead of " << Show(now));
			}
			sim::Quiet q; s = now; first = false;
			SIM_CHECK(w->versions.back() == now || (populating && w->versions[w->completed] == now), "wrong-diff", "announced " << Show(now) << ", committed " << Show(w->versions.back()));
		}
	};

	template < typename K >
	void Transact(World<K>* w, CancellationToken* cancel)
	{
		typename K::Iface::TransactionTypePtr t;
		bool timed = sim::WP(15); uint64_t limit = sim::W(3) * 300; uint64_t began = sim::nowUs();
		try
		{
			sim::AllocFaults af(w->allocs && sim::WP(20) ? 200 : 0);
			if (timed) t = w->coll->StartTransaction(TimedCancellationToken(*cancel, Us(limit))); else t = w->coll->StartTransaction(*cancel);
		}
		catch (const OperationCancelledException&) { SIM_CHECK(cancel->IsCancelled() || (timed && sim::nowUs() + 2 >= began + limit), "cancel", "starting a transaction is cancelled without cancellation"); sim::probe("waiting for a transaction is cancelled"); return; }
		catch (const TimeoutException&) { SIM_CHECK(timed && sim::nowUs() + 2 >= began + limit, "cancel", "starting a transaction times out too early"); sim::probe("waiting for a transaction times out"); return; }
		catch (const std::bad_alloc&) { SIM_CHECK(w->allocs, "unexpected", "bad_alloc"); return; }
		{ sim::Quiet q; SIM_CHECK(++w->open == 1, "two-transactions", w->open << " transactions on one collection are open"); SIM_CHECK(w->versions.size() == w->completed + 1, "two-transactions", "a transaction starts within the commit of another"); }
		State base; { sim::Quiet q; base = w->versions.back(); }
		State s = base; Snapshots snaps; size_t commits = sim::WR(1, 2);
		for (size_t c = 0; c < commits; ++c)
		{
			size_t ops = sim::W(7);
			for (size_t k = 0; k < ops; ++k)
			{
				bool failed = false;
				try { sim::AllocFaults af(w->allocs && sim::WP(25) ? 150 : 0); K::Change(*t, s); }
				catch (const std::bad_alloc&) { sim::probe("no memory for a change"); failed = true; }
				if (failed) { t->Revert(); s = base; State r = K::Read(*t); SIM_CHECK(r == base, "wrong-content", "after reverting the transaction shows " << Show(r) << " instead of " << Show(base)); }
				if (sim::WP(40)) K::ReadPoint(*t, s, "in the transaction");
				if (sim::WP(30)) { State r = K::Read(*t); SIM_CHECK(r == s, "wrong-content", "the transaction shows " << Show(r) << " instead of " << Show(s)); }
				if (sim::WP(20)) { State r = K::ReadReverse(*t); SIM_CHECK(r == Reversed(s), "wrong-content", "the transaction shows " << Show(r) << " backwards instead of " << Show(Reversed(s))); }
				if (sim::WP(20)) { auto e = t->GetEnumerator(); State was = s; snaps.push_back([=] { State r = Drain(e, &K::Entry); SIM_CHECK(r == was, "wrong-content", "an enumerator of the transaction made before changes shows " << Show(r) << " instead of " << Show(was)); }); }
				if (sim::WP(20)) { auto d = t->Diff(); State was = s; snaps.push_back([=] { State r = base; size_t n = ReplayDiff<K>(r, d); SIM_CHECK(r == was && (!K::ExactDiff || n == K::DiffSize(base, was)), "wrong-diff", "Diff() turns " << Show(base) << " into " << Show(r) << " instead of " << Show(was)); }); }
				if (sim::WP(10)) { if (K::ExactDiff) SIM_CHECK(t->IsDirty() == (s != base), "wrong-result", "IsDirty is " << t->IsDirty()); else SIM_CHECK(t->IsDirty() || s == base, "wrong-result", "IsDirty is false"); }
				if (sim::WP(20) && !snaps.empty()) { std::function<void ()> f = snaps.back(); snaps.pop_back(); f(); }
				if (sim::WP(15)) sim::sleepUs(sim::W(200));
			}
			switch (sim::W(8))
			{
			case 0: t->Revert(); s = base; break;
			case 1: break; // abandon
			default:
			{
				bool changes = s != base;
				{ sim::Quiet q; if (changes) w->versions.push_back(s); }
				bool failed = false;
				try { sim::AllocFaults af(w->allocs && sim::WP(50) ? 200 : 0); t->Commit(); }
				catch (const std::bad_alloc&) { sim::probe("no memory for a commit"); failed = true; }
				if (failed)
				{
					{ sim::Quiet q; if (changes) w->versions.pop_back(); }
					State r = K::Read(*w->coll); SIM_CHECK(r == base, "not-atomic", "after a failed commit of " << Show(s) << " the collection holds " << Show(r) << " instead of " << Show(base));
					r = K::Read(*t); SIM_CHECK(r == s, "not-atomic", "after a failed commit the transaction shows " << Show(r) << " instead of " << Show(s));
					if (sim::WP(50)) { t->Revert(); s = base; }
					else { { sim::Quiet q; if (changes) w->versions.push_back(s); } t->Commit(); sim::Quiet q; if (changes) ++w->completed; base = s; }
				}
				else { sim::Quiet q; if (changes) ++w->completed; base = s; }
				State r = K::Read(*t); SIM_CHECK(r == base, "wrong-content", "after a commit or revert the transaction shows " << Show(r) << " instead of " << Show(base));
				r = K::Read(*w->coll); SIM_CHECK(r == base, "wrong-content", "after a commit the collection holds " << Show(r) << " instead of " << Show(base));
			}
			}
			if (s != base) break; // abandoned
		}
		if (sim::WP(50)) for (auto& f : snaps) f();
		{ sim::Quiet q; --w->open; }
		t.reset();
		for (auto& f : snaps) if (sim::WP(0)) f();
	}

	template < typename K >
	void ReadWorld(World<K>* w, size_t& seen)
	{
		size_t lo, hi; { sim::Quiet q; lo = std::max(w->completed, seen); }
		switch (sim::W(5))
		{
		case 0: case 1: // a snapshot, possibly read slowly
		{
			bool reverse = sim::WP(30); State r;
			if (reverse) { auto e = w->coll->Reverse(); { sim::Quiet q; hi = w->versions.size() - 1; } if (sim::WP(40)) sim::sleepUs(sim::W(800)); State x = K::ReadReverse(*w->coll); (void)x; r = Drain(e->GetEnumerator(), [](const typename std::decay<decltype(e->GetEnumerator()->Get())>::type& v, size_t i) { return K::Entry(v, i); }); if (K::ExactDiff) r = Reversed(r); else { for (size_t i = 0; i < r.size(); ++i) r[i].first = r.size() - 1 - i; r = Reversed(r); } }
			else
			{
				auto e = w->coll->GetEnumerator(); { sim::Quiet q; hi = w->versions.size() - 1; }
				for (; e->Valid(); e->Next()) { auto v = K::Entry(e->Get(), r.size()); r.push_back(v); if (sim::WP(15)) sim::sleepUs(sim::W(300)); }
			}
			sim::Quiet q; size_t which = 0; SIM_CHECK(w->Known(r, lo, hi, &which) || w->Known(r, 0, lo), "torn-state", "an enumeration of the " << K::Name() << " gives " << Show(r) << ", which was never committed");
			SIM_CHECK(w->Known(r, lo, hi, &which), "stale-state", "an enumeration of the " << K::Name() << " gives an old state " << Show(r)); (void)which;
			break;
		}
		case 2: case 3: // several reads under the mutex
		{
			MutexLock l(w->coll->GetSyncRoot());
			State s = K::Read(*w->coll);
			{ sim::Quiet q; hi = w->versions.size() - 1; SIM_CHECK(w->Known(s, lo, hi), "torn-state", "the " << K::Name() << " shows " << Show(s) << " under its mutex"); }
			for (size_t k = sim::W(4); k; --k) K::ReadPoint(*w->coll, s, "under the mutex");
			break;
		}
		default:
		{
			size_t n = w->coll->GetCount(); sim::Quiet q; hi = w->versions.size() - 1; bool ok = false; for (size_t i = lo; i <= hi; ++i) ok = ok || w->versions[i].size() == n;
			SIM_CHECK(ok, "torn-state", "the " << K::Name() << " counts " << n << " items");
		}
		}
	}

	template < typename K >
	void Concurrent(bool allocs)
	{
		SilenceLog();
		World<K> w; w.allocs = allocs; World<K>* pw = &w; std::vector<std::unique_ptr<Replica<K>>> replicas; auto* pr = &replicas;
		CancellationToken cancel[3]; CancellationToken* pc = cancel; bool cancels = sim::WP(30);
		auto subscribe = [pw, pr](bool late)
		{
			Replica<K>* r; { sim::Quiet q; pr->emplace_back(new Replica<K>(pw, late)); r = pr->back().get(); }
			if (sim::WP(40)) r->copy = make_shared_ptr<typename K::Coll>();
			sim::hbRelease(r);
			Token t = pw->coll->OnChanged().connect(Fn<void (const typename K::Iface::DiffTypePtr&)>([r](const typename K::Iface::DiffTypePtr& d) { r->OnChanged(d); }));
			sim::Quiet q; r->connection = t;
		};
		if (sim::WP(60)) subscribe(false);
		Clients cs; size_t writers = sim::WR(1, 3), readers = sim::W(3);
		for (size_t i = 0; i < writers; ++i) Spawn(cs, "writer", [pw, pc, i] { size_t n = sim::WR(1, 4); for (size_t k = 0; k < n; ++k) { Transact(pw, pc + i); if (sim::WP(30)) sim::sleepUs(sim::W(300)); } });
		for (size_t i = 0; i < readers; ++i) Spawn(cs, "reader", [pw] { size_t n = sim::WR(2, 10), seen = 0; for (size_t k = 0; k < n; ++k) { ReadWorld(pw, seen); if (sim::WP(30)) sim::sleepUs(sim::W(300)); } });
		if (sim::WP(60)) Spawn(cs, "subscriber", [subscribe] { sim::sleepUs(sim::W(600)); subscribe(true); });
		if (cancels) Spawn(cs, "canceller", [pc] { sim::sleepUs(sim::W(600)); for (int i = 0; i < 3; ++i) pc[i].Cancel(); });
		JoinAll(cs);
		State last = w.versions.back(); State real = K::Read(*w.coll);
		SIM_CHECK(w.versions.size() == w.completed + 1 && real == last, "wrong-content", "the " << K::Name() << " holds " << Show(real) << " instead of " << Show(last));
		for (auto& r : replicas) { SIM_CHECK(r->s == last, "replica", "a replica of the " << K::Name() << " holds " << Show(r->s) << " instead of " << Show(last)); r->connection.Reset(); }
		// and it still can be changed
		{ CancellationToken t; Transact(pw, &t); }
		Token().Reset();
	}
}

SIM_SCENARIO(dictionary, 6) { Concurrent<Dict>(false); }
SIM_SCENARIO(set, 4) { Concurrent<Set>(false); }
SIM_SCENARIO(list, 5) { Concurrent<List>(false); }
SIM_SCENARIO(dictionary_no_memory, 2) { Concurrent<Dict>(true); }
SIM_SCENARIO(set_no_memory, 2) { Concurrent<Set>(true); }
SIM_SCENARIO(list_no_memory, 2) { Concurrent<List>(true); }

// The value of one key of a dictionary as an observable value
SIM_SCENARIO(key_value, 3)
{
	SilenceLog();
	shared_ptr<TransactionalDictionary<int, std::string>> d = make_shared_ptr<TransactionalDictionary<int, std::string>>();
	auto kv = GetDictionaryKeyValue(d, 1); auto* pkv = &kv; auto* pd = &d;
	std::vector<int> committed { -1 }; auto* pc = &committed; // values of the key, -1 for none; the last one may be being committed
	size_t done = 0; size_t* pdone = &done;
	struct Obs { int value = -2; size_t events = 0; Token t; }; std::vector<std::unique_ptr<Obs>> obs; auto* po = &obs;
	auto num = [](const optional<std::string>& v) { return v ? N(*v) : -1; };
	auto subscribe = [=]
	{
		Obs* o; { sim::Quiet q; po->emplace_back(new Obs()); o = po->back().get(); }
		o->t = (*pkv)->OnChanged().connect(Fn<void (const optional<std::string>&)>([=](const optional<std::string>& v)
		{
			int n = num(v), g = num((*pkv)->Get());
			sim::Quiet q; ++o->events;
			SIM_CHECK((n == pc->back() || (o->events == 1 && n == (*pc)[*pdone])) && g == n, "wrong-value", "the value " << n << " is announced when the key has the value " << pc->back() << ", Get() gives " << g);
			SIM_CHECK(o->events == 1 || n != o->value, "wrong-value", "the same value " << n << " is announced twice"); o->value = n;
		}));
	};
	Clients cs; size_t writers = sim::WR(1, 2);
	for (size_t i = 0; i < writers; ++i) Spawn(cs, "writer", [=]
	{
		for (size_t k = sim::WR(1, 5); k; --k)
		{
			auto t = (*pd)->StartTransaction(); int cur; { sim::Quiet q; cur = pc->back(); } int now = cur;
			for (size_t j = sim::W(4); j; --j)
			{
				int v = sim::W(3);
				switch (sim::W(5)) { case 0: t->Set(1, V(v)); now = v; break; case 1: t->Remove(1); now = -1; break; case 2: t->Set(sim::WP(50) ? 0 : 2, V(v)); break; case 3: t->Remove(sim::WP(50) ? 0 : 2); break; default: if (sim::WP(30)) { t->Clear(); now = -1; } }
			}
			if (sim::WP(20)) continue;
			{ sim::Quiet q; if (now != cur) pc->push_back(now); }
			t->Commit();
			sim::Quiet q; if (now != cur) ++*pdone;
		}
	});
	subscribe();
	Spawn(cs, "subscriber", [=] { sim::sleepUs(sim::W(400)); subscribe(); });
	if (sim::WP(60)) Spawn(cs, "reader", [=] { for (size_t k = sim::W(8); k; --k) {
		if (sim::WP(40)) { MutexLock l((*pkv)->GetSyncRoot()); int v = num((*pkv)->Get()); if (sim::WP(50)) sim::sleepUs(100); int v2 = num((*pkv)->Get()); sim::Quiet q; SIM_CHECK(v == v2, "wrong-value", "Get() under the mutex gives " << v << " and then " << v2); continue; }
		size_t lo; { sim::Quiet q; lo = *pdone; } int v = num((*pkv)->Get()); sim::Quiet q; bool ok = false; for (size_t i = lo; i < pc->size(); ++i) ok = ok || (*pc)[i] == v; SIM_CHECK(ok, "wrong-value", "Get() gives " << v); } });
	JoinAll(cs);
	SIM_CHECK(num(kv->Get()) == committed.back(), "wrong-value", "Get() gives a wrong value at the end");
	for (auto& o : obs) { SIM_CHECK(o->value == committed.back(), "wrong-value", "an observer has the value " << o->value << " instead of " << committed.back()); o->t.Reset(); }
}
