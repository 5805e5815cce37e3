// C33: what a collection has handed out for reading stays as it was
#include "items.h"
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/SortedSet.h>
#include <stingraykit/collection/FlatSortedSet.h>
#include <stingraykit/collection/OrderedSet.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/FlatMapDictionary.h>
#include <stingraykit/collection/OrderedDictionary.h>
#include <stingraykit/collection/MultiMapDictionary.h>
#include <stingraykit/collection/SortedMultiSet.h>

namespace
{
	typedef std::pair<int, int> Entry; typedef std::vector<Entry> Content;
	std::string Show(const Content& c) { std::string r = "["; for (auto& e : c) r += " " + std::to_string(e.first) + (e.second ? ":" + std::to_string(e.second) : ""); return r + " ]"; }
	const int Missing = -9;
	struct Refused { };

	enum What { OAdd, OSet, OInsert, ORemove, ORemoveAt, ORemoveFirst, ORemoveKey, ORemoveWhere, OClear };
	struct Op { What what; int k, v; size_t idx; int mod; bool any; };
	bool Match(const Op& op, int k, int v) { return (k + v) % op.mod == 0; }

	Content From(const Content& c, size_t i) { return Content(c.begin() + i, c.end()); }
	Content Back(Content c, size_t n) { c.resize(n); std::reverse(c.begin(), c.end()); return c; }
	size_t First(const Content& c, int k) { size_t i = 0; while (i < c.size() && c[i].first != k) ++i; return i; }
	size_t Last(const Content& c, int k) { size_t i = c.size(); while (i && c[i - 1].first != k) --i; return i; }		// one behind, or 0
	size_t Count(const Content& c, int k) { size_t n = 0; for (auto& e : c) if (e.first == k) ++n; return n; }
	int Where(Content& c, const Op& op) { size_t was = c.size(); c.erase(std::remove_if(c.begin(), c.end(), [&](const Entry& e) { return Match(op, e.first, e.second); }), c.end()); return was - c.size(); }

	// Lists
	struct ListKind
	{
		typedef ArrayList<Item> C; typedef Item E; typedef Item K;
		static const char* Name() { return "list"; }
		static Entry Of(const Item& e) { return Entry(e.Get(), 0); }
		static void Choose(Op& op) { static const What w[] = { OAdd, OAdd, OAdd, OInsert, OInsert, OSet, OSet, ORemove, ORemoveAt, ORemoveWhere, OClear }; op.what = w[sim::W(11)]; op.v = 0; }
		static int Run(C& c, const Op& op)
		{
			try
			{
				switch (op.what)
				{
				case OAdd:		c.Add(Item(op.k)); return 0;
				case OInsert:	c.Insert(op.idx, Item(op.k)); return 0;
				case OSet:		c.Set(op.idx, Item(op.k)); return 0;
				case ORemove:	return c.Remove(Item(op.k));
				case ORemoveAt:	c.RemoveAt(op.idx); return 0;
				case ORemoveWhere: return c.RemoveAll(Fn<bool (const Item&)>([op](const Item& i) { return Match(op, i.Get(), 0); }));
				default:		c.Clear(); return 0;
				}
			}
			catch (const IndexOutOfRangeException&) { return Missing; }
		}
		static int Model(Content& m, const Op& op)
		{
			switch (op.what)
			{
			case OAdd:		m.push_back(Entry(op.k, 0)); return 0;
			case OInsert:	if (op.idx > m.size()) return Missing; m.insert(m.begin() + op.idx, Entry(op.k, 0)); return 0;
			case OSet:		if (op.idx >= m.size()) return Missing; m[op.idx].first = op.k; return 0;
			case ORemove:	{ size_t i = First(m, op.k); if (i == m.size()) return 0; m.erase(m.begin() + i); return 1; }
			case ORemoveAt:	if (op.idx >= m.size()) return Missing; m.erase(m.begin() + op.idx); return 0;
			case ORemoveWhere: return Where(m, op);
			default:		m.clear(); return 0;
			}
		}
		static bool Ask(const C& c, const Content& m, const Op& op)
		{
			Item key(op.k); bool contains = c.Contains(key); optional<size_t> idx = c.IndexOf(key); size_t i = First(m, op.k); bool ok = contains == (i < m.size()) && idx.is_initialized() == contains && (!contains || *idx == i);
			Item out(-5); bool got = c.TryGet(op.idx, out); ok = ok && got == (op.idx < m.size()) && out.Get() == (got ? m[op.idx].first : -5);
			try { ok = ok && c.Get(op.idx).Get() == m.at(op.idx).first; } catch (const IndexOutOfRangeException&) { ok = ok && op.idx >= m.size(); }
			return ok;
		}
		static shared_ptr<IEnumerator<E> > Find(const C& c, const Content& m, int, bool, Content& what) { what = m; return c.GetEnumerator(); }
	};

	template < typename Coll, bool Sorted > struct SetKind
	{
		typedef Coll C; typedef Item E; typedef Item K;
		static const char* Name() { return "set"; }
		static Entry Of(const Item& e) { return Entry(e.Get(), 0); }
		static void Choose(Op& op) { static const What w[] = { OAdd, OAdd, OAdd, OAdd, ORemove, ORemove, ORemoveWhere, OClear }; op.what = w[sim::W(8)]; op.v = 0; }
		static int Run(C& c, const Op& op)
		{
			switch (op.what)
			{
			case OAdd:		return c.Add(Item(op.k));
			case ORemove:	return c.Remove(Item(op.k));
			case ORemoveWhere: return c.RemoveWhere(Fn<bool (const Item&)>([op](const Item& i) { return Match(op, i.Get(), 0); }));
			default:		c.Clear(); return 0;
			}
		}
		static int Model(Content& m, const Op& op)
		{
			size_t i = First(m, op.k);
			switch (op.what)
			{
			case OAdd:		if (i < m.size()) return 0; m.push_back(Entry(op.k, 0)); if (Sorted) std::sort(m.begin(), m.end()); return 1;
			case ORemove:	if (i == m.size()) return 0; m.erase(m.begin() + i); return 1;
			case ORemoveWhere: return Where(m, op);
			default:		m.clear(); return 0;
			}
		}
		static bool Ask(const C& c, const Content& m, const Op& op) { return c.Contains(Item(op.k)) == (First(m, op.k) < m.size()); }
		static shared_ptr<IEnumerator<E> > Find(const C& c, const Content& m, int k, bool back, Content& what)
		{ what = back ? Back(m, Last(m, k)) : From(m, First(m, k)); return back ? c.ReverseFind(Item(k)) : c.Find(Item(k)); }
	};

	struct MultiSetKind
	{
		typedef SortedMultiSet<Item> C; typedef Item E; typedef Item K;
		static const char* Name() { return "multiset"; }
		static Entry Of(const Item& e) { return Entry(e.Get(), 0); }
		static void Choose(Op& op) { static const What w[] = { OAdd, OAdd, OAdd, OAdd, ORemoveFirst, ORemoveFirst, ORemoveKey, ORemoveWhere, OClear }; op.what = w[sim::W(9)]; op.v = 0; }
		static int Run(C& c, const Op& op)
		{
			switch (op.what)
			{
			case OAdd:		c.Add(Item(op.k)); return 0;
			case ORemoveFirst: return c.RemoveFirst(Item(op.k));
			case ORemoveKey: return c.RemoveAll(Item(op.k));
			case ORemoveWhere: return c.RemoveWhere(Fn<bool (const Item&)>([op](const Item& i) { return Match(op, i.Get(), 0); }));
			default:		c.Clear(); return 0;
			}
		}
		static int Model(Content& m, const Op& op)
		{
			size_t i = First(m, op.k); int n = Count(m, op.k);
			switch (op.what)
			{
			case OAdd:		m.push_back(Entry(op.k, 0)); std::sort(m.begin(), m.end()); return 0;
			case ORemoveFirst: if (i == m.size()) return 0; m.erase(m.begin() + i); return 1;
			case ORemoveKey: m.erase(m.begin() + i, m.begin() + i + n); return n;
			case ORemoveWhere: return Where(m, op);
			default:		m.clear(); return 0;
			}
		}
		static bool Ask(const C& c, const Content& m, const Op& op) { return c.Contains(Item(op.k)) == (First(m, op.k) < m.size()) && c.Count(Item(op.k)) == Count(m, op.k); }
		static shared_ptr<IEnumerator<E> > Find(const C& c, const Content& m, int k, bool back, Content& what)
		{ what = back ? Back(m, Last(m, k)) : From(m, First(m, k)); return back ? c.ReverseFind(Item(k)) : c.Find(Item(k)); }
	};

	template < typename Coll, bool Sorted > struct DictionaryKind
	{
		typedef Coll C; typedef typename Coll::PairType E; typedef Item K;
		static const char* Name() { return "dictionary"; }
		static Entry Of(const E& e) { return Entry(e.Key.Get(), e.Value.Get()); }
		static void Choose(Op& op) { static const What w[] = { OAdd, OAdd, OSet, OSet, OSet, ORemove, ORemove, ORemoveWhere, OClear }; op.what = w[sim::W(9)]; }
		static int Run(C& c, const Op& op)
		{
			switch (op.what)
			{
			case OAdd:		return c.Add(Item(op.k), Item(op.v));
			case OSet:		c.Set(Item(op.k), Item(op.v)); return 0;
			case ORemove:	return c.Remove(Item(op.k));
			case ORemoveWhere: return c.RemoveWhere(Fn<bool (const Item&, const Item&)>([op](const Item& k, const Item& v) { return Match(op, k.Get(), v.Get()); }));
			default:		c.Clear(); return 0;
			}
		}
		static int Model(Content& m, const Op& op)
		{
			size_t i = First(m, op.k); bool has = i < m.size();
			switch (op.what)
			{
			case OAdd: case OSet:
				if (has) { if (op.what == OSet) m[i].second = op.v; return 0; }
				m.push_back(Entry(op.k, op.v)); if (Sorted) std::sort(m.begin(), m.end()); return op.what == OAdd;
			case ORemove:	if (!has) return 0; m.erase(m.begin() + i); return 1;
			case ORemoveWhere: return Where(m, op);
			default:		m.clear(); return 0;
			}
		}
		static bool Ask(const C& c, const Content& m, const Op& op)
		{
			Item key(op.k), out(-5); size_t i = First(m, op.k); bool has = i < m.size(); bool ok = c.ContainsKey(key) == has && c.TryGet(key, out) == has && out.Get() == (has ? m[i].second : -5);
			try { ok = ok && c.Get(key).Get() == m.at(i).second; } catch (const KeyNotFoundException&) { ok = ok && !has; }
			return ok;
		}
		static shared_ptr<IEnumerator<E> > Find(const C& c, const Content& m, int k, bool back, Content& what)
		{ what = back ? Back(m, Last(m, k)) : From(m, First(m, k)); return back ? c.ReverseFind(Item(k)) : c.Find(Item(k)); }
	};

	struct MultiDictionaryKind
	{
		typedef MultiMapDictionary<Item, Item> C; typedef C::PairType E; typedef Item K;
		static const char* Name() { return "multidictionary"; }
		static Entry Of(const E& e) { return Entry(e.Key.Get(), e.Value.Get()); }
		static void Choose(Op& op) { static const What w[] = { OAdd, OAdd, OAdd, OAdd, ORemoveFirst, ORemoveFirst, ORemoveKey, ORemoveWhere, OClear }; op.what = w[sim::W(9)]; }
		static int Run(C& c, const Op& op)
		{
			switch (op.what)
			{
			case OAdd:		c.Add(Item(op.k), Item(op.v)); return 0;
			case ORemoveFirst: return op.any ? c.RemoveFirst(Item(op.k)) : c.RemoveFirst(Item(op.k), Item(op.v));
			case ORemoveKey: return c.RemoveAll(Item(op.k));
			case ORemoveWhere: return c.RemoveWhere(Fn<bool (const Item&, const Item&)>([op](const Item& k, const Item& v) { return Match(op, k.Get(), v.Get()); }));
			default:		c.Clear(); return 0;
			}
		}
		static int Model(Content& m, const Op& op)
		{
			size_t i = First(m, op.k); int n = Count(m, op.k);
			switch (op.what)
			{
			case OAdd:		{ size_t at = 0; while (at < m.size() && m[at].first <= op.k) ++at; m.insert(m.begin() + at, Entry(op.k, op.v)); return 0; }
			case ORemoveFirst: for (size_t j = i; j < i + n; ++j) if (op.any || m[j].second == op.v) { m.erase(m.begin() + j); return 1; } return 0;
			case ORemoveKey: m.erase(m.begin() + i, m.begin() + i + n); return n;
			case ORemoveWhere: return Where(m, op);
			default:		m.clear(); return 0;
			}
		}
		static bool Ask(const C& c, const Content& m, const Op& op)
		{
			Item key(op.k), out(-5); size_t i = First(m, op.k); bool has = i < m.size(); bool ok = c.ContainsKey(key) == has && c.CountKey(key) == Count(m, op.k) && c.TryGetFirst(key, out) == has && out.Get() == (has ? m[i].second : -5);
			try { ok = ok && c.GetFirst(key).Get() == m.at(i).second; } catch (const KeyNotFoundException&) { ok = ok && !has; }
			std::vector<int> all; for (auto e = c.GetAll(key); e->Valid(); e->Next()) all.push_back(e->Get().Get());
			ok = ok && all.size() == Count(m, op.k); for (size_t j = 0; ok && j < all.size(); ++j) ok = all[j] == m[i + j].second;
			return ok;
		}
		static shared_ptr<IEnumerator<E> > Find(const C& c, const Content& m, int k, bool back, Content& what)
		{ what = back ? Back(m, Last(m, k)) : From(m, First(m, k)); return back ? c.ReverseFind(Item(k)) : c.Find(Item(k)); }
	};

	// Something handed out for reading, and what it should show
	template < typename Kind > struct Snapshot
	{
		typedef typename Kind::E E;
		shared_ptr<IEnumerator<E> > e; shared_ptr<IEnumerable<E> > r; Content c; size_t pos; const char* kind;
		Snapshot() : pos(0), kind("") { }

		// one step; false at the end
		bool Step()
		{
			if (!e && r) { e = r->GetEnumerator(); pos = 0; }
			bool valid = e->Valid();
			if (!valid) { sim::Quiet q; SIM_CHECK(pos == c.size(), "snapshot", Kind::Name() << ": " << kind << " ends after " << pos << " of " << Show(c)); return false; }
			Entry got = Kind::Of(e->Get());
			{ sim::Quiet q; SIM_CHECK(pos < c.size() && got == c[pos], "snapshot", Kind::Name() << ": " << kind << " shows " << Show(Content(1, got)) << " at " << pos << " of " << Show(c)); ++pos; }
			e->Next();
			return true;
		}
	};

	template < typename Kind > void Run()
	{
		SilenceLog();
		typedef typename Kind::C C; typedef typename Kind::E E;
		bool faults = sim::WP(50), threads = sim::WP(60); Items::Odd() = faults && sim::WP(20);
		{
			const int N = 2; std::unique_ptr<C> c[N]; Content m[N]; std::vector<std::unique_ptr<Snapshot<Kind> > > mine; Clients readers; int spawned = 0, keys = sim::WR(1, 8), n = sim::WR(4, 40);
			for (auto& x : c) x.reset(new C());
			for (int step = 0; step < n; ++step)
			{
				int a = sim::W(N), b = sim::W(N); unsigned p = faults && sim::WP(40) ? sim::WR(20, 300) : 0;
				Op op; op.v = sim::WR(1, 4); Kind::Choose(op); op.k = sim::W(keys); op.idx = sim::W(m[a].size() + 2); op.mod = sim::WR(1, 4); op.any = sim::WP(50);
				int what = sim::W(100);
				if (what < 55)					// a change
				{
					Content after; int want; { sim::Quiet q; after = m[a]; want = Kind::Model(after, op); }
					int res = 0;
					if (Tries(p, [&] { res = Kind::Run(*c[a], op); })) { sim::Quiet q; SIM_CHECK(res == want, "result", Kind::Name() << ": operation " << op.what << " gives " << res << " instead of " << want << " on " << Show(m[a])); m[a].swap(after); }
					else sim::probe("a change of a collection fails");
				}
				else if (what < 80)				// something to read
				{
					std::unique_ptr<Snapshot<Kind> > s(new Snapshot<Kind>()); int how = sim::W(4), k = sim::W(keys); bool back = sim::WP(50);
					bool ok = Tries(p, [&]
					{
						Content found;
						if (how == 0) { s->e = c[a]->GetEnumerator(); sim::NoFaults nf; s->c = m[a]; s->kind = "an enumerator"; }
						else if (how == 1) { s->r = c[a]->Reverse(); sim::NoFaults nf; s->c = Back(m[a], m[a].size()); s->kind = "a reversed collection"; }
						else { { sim::NoFaults nf; NoCopyFaults nc; s->e = Kind::Find(*c[a], m[a], k, back, found); } sim::NoFaults nf; s->c = found; s->kind = back ? "ReverseFind" : "Find"; }
					});
					if (!ok) continue;
					if (threads && spawned < 6 && sim::WP(60))
					{
						++spawned; sim::probe("a collection is read in another thread"); int reads = s->r ? sim::WR(1, 2) : 1, leaveAt = sim::WP(30) ? sim::WR(0, 5) : 1000; bool slow = sim::WP(40);
						auto raw = s.release();
						Spawn(readers, "reader", [raw, reads, leaveAt, slow]
						{
							std::unique_ptr<Snapshot<Kind> > s(raw); int steps = 0;
							for (int r = 0; r < reads; ++r) { if (r) s->e.reset(); while (steps++ < leaveAt && s->Step()) if (slow) sim::sleepUs(100); }
						});
					}
					else mine.push_back(std::move(s));
				}
				else if (what < 88) { if (!mine.empty()) { size_t i = sim::W(mine.size()); int k = sim::WR(1, 4); bool more = true; while (more && k--) more = mine[i]->Step(); if (!more || sim::WP(20)) mine.erase(mine.begin() + i); } }
				else if (what < 92)				// copies
				{
					if (Tries(p, [&] { *c[a] = *c[b]; })) m[a] = m[b];
					else sim::probe("an assignment of a collection fails");
				}
				else if (what < 96)				// another one made of it
				{
					int how = sim::W(3); std::unique_ptr<C> d;
					if (!Tries(p, [&] { d.reset(how == 0 ? new C(*c[b]) : how == 1 ? new C(c[b]->GetEnumerator()) : new C(shared_ptr<IEnumerator<E> >(c[b]->GetEnumerator()))); })) { sim::probe("a copy of a collection fails"); continue; }
					c[a] = std::move(d); m[a] = m[b]; if (a == b) sim::probe("a collection gives way to its copy");
				}
				else { c[a].reset(new C()); m[a].clear(); }			// what was handed out lives on
				// what is asked at once is right
				for (int i = 0; i < N; ++i)
				{
					bool full = i == a || sim::WP(20); if (!full) continue;
					bool ok = Kind::Ask(*c[i], m[i], op); size_t count = c[i]->GetCount(); bool empty = c[i]->IsEmpty();
					{ sim::Quiet q; SIM_CHECK(ok && count == m[i].size() && empty == m[i].empty(), "content", Kind::Name() << ": asked about " << op.k << ", it answers wrong, it should hold " << Show(m[i])); }
					Content got; for (auto e = c[i]->GetEnumerator(); e->Valid(); e->Next()) got.push_back(Kind::Of(e->Get()));
					sim::Quiet q; SIM_CHECK(got == m[i], "content", Kind::Name() << ": it holds " << Show(got) << " instead of " << Show(m[i]));
				}
			}
			if (sim::WP(50)) for (auto& x : c) x.reset();
			for (auto& s : mine) while (s->Step()) { }
			mine.clear();
			JoinAll(readers);
		}
		SIM_CHECK(Items::Count() == 0, "lifetime", Items::Count() << " items are left");
	}
}

SIM_SCENARIO(list, 3) { Run<ListKind>(); }
SIM_SCENARIO(sorted_set, 2) { Run<SetKind<SortedSet<Item>, true> >(); }
SIM_SCENARIO(flat_set, 2) { Run<SetKind<FlatSortedSet<Item>, true> >(); }
SIM_SCENARIO(ordered_set, 2) { Run<SetKind<OrderedSet<Item>, false> >(); }
SIM_SCENARIO(multi_set, 2) { Run<MultiSetKind>(); }
SIM_SCENARIO(map_dictionary, 2) { Run<DictionaryKind<MapDictionary<Item, Item>, true> >(); }
SIM_SCENARIO(flat_dictionary, 2) { Run<DictionaryKind<FlatMapDictionary<Item, Item>, true> >(); }
SIM_SCENARIO(ordered_dictionary, 2) { Run<DictionaryKind<OrderedDictionary<Item, Item>, false> >(); }
SIM_SCENARIO(multi_dictionary, 2) { Run<MultiDictionaryKind>(); }
