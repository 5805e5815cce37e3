// C30: caches
#include "items.h"
#include <stingraykit/collection/QueueCache.h>
#include <stingraykit/collection/TwoQueueCache.h>

namespace
{
	struct Weight { size_t operator()(const Item& i) const { return i.Get() % 5; } };		// 0 .. 4
	size_t WeightOf(int v) { return v % 5; }
	typedef std::vector<std::pair<int, int> > KVs;
	std::string Show(const KVs& m) { std::string r; for (auto& e : m) { r += ' '; r += std::to_string(e.first) + ":" + std::to_string(e.second); } return r; }

	struct Events { KVs got; };

	// What a cache may hold: the entries in the order of eviction
	struct Model
	{
		KVs order;
		size_t Size() const { size_t n = 0; for (auto& e : order) n += WeightOf(e.second); return n; }
		int Find(int k) const { for (size_t i = 0; i < order.size(); ++i) if (order[i].first == k) return i; return -1; }
		void Erase(int k) { int i = Find(k); if (i >= 0) order.erase(order.begin() + i); }
		void ToBack(int k) { int i = Find(k); if (i >= 0) { auto e = order[i]; order.erase(order.begin() + i); order.push_back(e); } }
		void Put(int k, int v) { Erase(k); order.push_back(std::make_pair(k, v)); }
		KVs Evict(size_t cap) { KVs r; while (Size() > cap && !order.empty()) { r.push_back(order.front()); order.erase(order.begin()); } return r; }
		bool operator < (const Model& o) const { return order < o.order; }
	};
	typedef std::set<Model> Models;

	bool Subsequence(const KVs& part, const KVs& all) { size_t i = 0; for (auto& e : all) if (i < part.size() && part[i] == e) ++i; return i == part.size(); }

	enum Outcome { Ok, No, Threw };

	template < typename F > Outcome Attempt(unsigned permille, const F& f)
	{
		try { if (!permille) return f() ? Ok : No; sim::AllocFaults a(permille); CopyFaults c(permille); return f() ? Ok : No; }
		catch (const CopyFailed&) { return Threw; }
		catch (const std::bad_alloc&) { return Threw; }
		catch (const std::exception& ex) { SIM_CHECK(false, "broken", "an operation of a cache throws: " << ex.what()); }
		return Threw;
	}

	template < typename Cache, bool Lru > void QueueRun()
	{
		SilenceLog();
		size_t cap = sim::WP(10) ? sim::WR(0, 3) : sim::WR(3, 24), keys = sim::WR(1, 10); bool faults = sim::WP(60); int n = sim::WR(4, 40);
		{
			Cache cache(cap);
			Events ev; Events* e = &ev; Cache* c = &cache;
			struct Reent { bool on; int action; } re{ !faults && sim::WP(40), 0 }; Reent* r = &re;
			std::vector<std::function<void (Models&)> > nested; auto* ns = &nested;
			// a handler sees the cache without the evicted entry, and may use it
			Token tok = cache.OnEvicted().connect(Fn<void (const Item&, const Item&)>([=](const Item& k, const Item& v)
			{
				sim::NoFaults nf; NoCopyFaults ncf;
				{ sim::Quiet q; e->got.push_back(std::make_pair(k.Get(), v.Get())); }
				Item out(0);
				if (!r->on) return;
				Item key(sim::W(keys)); 
				if (r->action == 0 && sim::WP(50)) { bool had = c->Remove(key); sim::Quiet q; e->got.push_back(std::make_pair(-1 - key.Get(), had)); }
			}));
			Models ms; ms.insert(Model());
			int next = 0;
			for (int i = 0; i < n; ++i)
			{
				int k = sim::W(keys), what = sim::W(100); unsigned p = faults && sim::WP(40) ? sim::WR(20, 300) : 0;
				ev.got.clear();
				Item key(k), out(0);
				Models after;
				if (what < 50)
				{
					int v = sim::WP(10) ? (++next) * 5 : ++next; Item val(v);
					Outcome o = Attempt(p, [&] { cache.Set(key, val); return true; });
					sim::Quiet q;
					for (Model m : ms)
					{
						if (o == Threw)
						{
							if (Subsequence(ev.got, KVs())) { after.insert(m); Model t = m; t.ToBack(k); after.insert(t); t.Erase(k); after.insert(t); }
							Model t = m; t.Put(k, v);
							Model full = t; KVs all = full.Evict(cap);
							for (size_t j = 0; j <= all.size(); ++j)
							{
								if (Subsequence(ev.got, KVs(all.begin(), all.begin() + j))) after.insert(t);
								if (j < all.size()) t.order.erase(t.order.begin());
							}
						}
						else
						{
							m.Put(k, v); KVs all; bool good = true; size_t at = 0;
							// evictions, with what the handler removes in between
							while (good && m.Size() > cap && !m.order.empty())
							{
								auto x = m.order.front(); m.order.erase(m.order.begin()); all.push_back(x);
								if (at < ev.got.size() && ev.got[at] == x)
								{
									++at;
									while (at < ev.got.size() && ev.got[at].first < 0)
									{ int rk = -1 - ev.got[at].first; good = good && (m.Find(rk) >= 0) == (bool)ev.got[at].second; m.Erase(rk); ++at; }
								}
								else if (!p) good = false;
							}
							if (good && at == ev.got.size()) after.insert(m);
						}
					}
					if (o == Threw) sim::probe("a set fails");
					if (!ev.got.empty()) sim::probe("a set evicts");
					SIM_CHECK(!after.empty(), "evicted", "set of " << k << ":" << v << " reports the evictions" << Show(ev.got) << ", the cache of " << cap << " was" << Show(ms.begin()->order));
				}
				else if (what < 80)
				{
					Outcome o = Attempt(p, [&] { return cache.TryGet(key, out); });
					sim::Quiet q;
					for (Model m : ms)
					{
						int f = m.Find(k);
						if (o == Threw) { if (f >= 0) { after.insert(m); if (Lru) { m.ToBack(k); after.insert(m); } } continue; }
						if ((o == Ok) != (f >= 0)) continue;
						if (f >= 0 && m.order[f].second != out.Get()) continue;
						if (f >= 0 && Lru) m.ToBack(k);
						after.insert(m);
					}
					if (o == Threw) sim::probe("a get fails");
					SIM_CHECK(ev.got.empty(), "evicted", "a get evicts");
					SIM_CHECK(!after.empty(), "value", "get of " << k << " gives " << (o == Ok ? out.Get() : -1) << ", the cache of " << cap << " was" << Show(ms.begin()->order));
				}
				else if (what < 97)
				{
					Outcome o = Attempt(p, [&] { return cache.Remove(key); });
					sim::Quiet q;
					for (Model m : ms) { if (o == Threw) { after.insert(m); continue; } if ((o == Ok) != (m.Find(k) >= 0)) continue; m.Erase(k); after.insert(m); }
					SIM_CHECK(ev.got.empty(), "evicted", "a removal evicts");
					SIM_CHECK(!after.empty(), "value", "removal of " << k << " gives " << (o == Ok) << ", the cache was" << Show(ms.begin()->order));
				}
				else { cache.Clear(); sim::Quiet q; SIM_CHECK(ev.got.empty(), "evicted", "clearing reports evictions"); after.insert(Model()); }
				size_t size = cache.GetSize();
				sim::Quiet q;
				Models left; for (const Model& m : after) if (m.Size() == size) left.insert(m);
				SIM_CHECK(!left.empty(), "size", "the size is " << size << ", the entries are" << Show(after.begin()->order));
				if (left.size() > 1) sim::probe("what a failure left is not known yet");
				SIM_CHECK(left.size() < 3000, "harness", "too many candidates");
				ms.swap(left);
				if (!p && what < 50) SIM_CHECK(size <= cap, "size", "the size is " << size << " after a set, the capacity " << cap);
			}
			if (sim::WP(50)) tok.Reset();
			// what is left can be removed, each entry once
			for (int k = 0; k < (int)keys; ++k)
			{
				Item key(k); Outcome o = Attempt(0, [&] { return cache.Remove(key); });
				sim::Quiet q; Models after;
				for (Model m : ms) { if ((o == Ok) != (m.Find(k) >= 0)) continue; m.Erase(k); after.insert(m); }
				SIM_CHECK(!after.empty(), "value", "removal of " << k << " at the end gives " << (o == Ok));
				ms.swap(after);
			}
			SIM_CHECK(cache.GetSize() == 0, "size", "the size of an empty cache is " << cache.GetSize());
		}
		SIM_CHECK(Items::Count() == 0, "lifetime", Items::Count() << " items live after their cache");
	}
}

SIM_SCENARIO(fifo, 4) { QueueRun<QueueCache<Item, Item, QueueEvictionPolicy::Fifo, Weight>, false>(); }
SIM_SCENARIO(lru, 4) { QueueRun<QueueCache<Item, Item, QueueEvictionPolicy::Lru, Weight>, true>(); }

// The cache of two queues and a hot part
SIM_SCENARIO(two_queues, 4)
{
	SilenceLog();
	size_t caps[3] = { sim::WR(1, 12), sim::WR(0, 12), sim::WR(0, 12) }, keys = sim::WR(1, 14); bool faults = sim::WP(50); int n = sim::WR(4, 60);
	{
		typedef TwoQueueCache<Item, Item, Weight> Cache;
		Cache cache(caps[0], caps[1], caps[2]);
		Events ev; Events* e = &ev;
		Token tok = cache.OnEvicted().connect(Fn<void (const Item&, const Item&)>([=](const Item& k, const Item& v)
		{ sim::NoFaults nf; NoCopyFaults ncf; sim::Quiet q; e->got.push_back(std::make_pair(k.Get(), v.Get())); }));
		Model in, out, hot; std::map<int, std::set<int> > may;		// after a failure: the values each key may have (-1: none)
		bool exact = true; int next = 0; int failures = 0;
		auto evict = [&](Model& m, size_t cap) { return m.Evict(cap); };
		for (int i = 0; i < n; ++i)
		{
			int k = sim::W(keys), what = sim::W(100); unsigned p = faults && sim::WP(30) ? sim::WR(20, 200) : 0;
			ev.got.clear(); Item key(k), got(0);
			if (p && exact) { sim::Quiet q; exact = false; for (auto* m : { &in, &out, &hot }) for (auto& x : m->order) may[x.first].insert(x.second); }
			KVs expected; bool want = false; int wantValue = -1;
			if (what < 45)
			{
				int v = ++next; Item val(v);
				Outcome o = Attempt(p, [&] { cache.Set(key, val); return true; });
				sim::Quiet q;
				if (o == Threw) { ++failures; sim::probe("a set of two queues fails"); may[k].insert(v); continue; }
				if (!exact) { may[k].clear(); may[k].insert(v); }
				hot.Erase(k); out.Erase(k); in.Put(k, v);
				for (auto& x : evict(in, caps[0])) { out.Put(x.first, x.second); for (auto& y : evict(out, caps[1])) expected.push_back(y); }
			}
			else if (what < 85)
			{
				Outcome o = Attempt(p, [&] { return cache.TryGet(key, got); });
				sim::Quiet q;
				if (o == Threw) { ++failures; continue; }
				if (!exact) { if (o == Ok) SIM_CHECK(may[k].count(got.Get()), "value", "get of " << k << " gives " << got.Get() << " which was not set"); continue; }
				int f;
				if ((f = hot.Find(k)) >= 0) { want = true; wantValue = hot.order[f].second; hot.ToBack(k); }
				else if ((f = in.Find(k)) >= 0) { want = true; wantValue = in.order[f].second; }
				else if ((f = out.Find(k)) >= 0) { want = true; wantValue = out.order[f].second; out.Erase(k); hot.Put(k, wantValue); for (auto& y : evict(hot, caps[2])) expected.push_back(y); sim::probe("an entry becomes hot"); }
				SIM_CHECK((o == Ok) == want && (!want || got.Get() == wantValue), "value", "get of " << k << " gives " << (o == Ok ? got.Get() : -1) << ", the cache had " << wantValue);
			}
			else if (what < 98)
			{
				Outcome o = Attempt(p, [&] { return cache.Remove(key); });
				SIM_CHECK(o != Threw, "broken", "a removal fails");
				sim::Quiet q;
				if (!exact) { if (o == Ok) SIM_CHECK(!may[k].empty(), "value", "removal of " << k << " which was not there"); may[k].clear(); }
				else SIM_CHECK((o == Ok) == (in.Find(k) >= 0 || out.Find(k) >= 0 || hot.Find(k) >= 0), "value", "removal of " << k << " gives " << (o == Ok));
				in.Erase(k); out.Erase(k); hot.Erase(k);
			}
			else { cache.Clear(); sim::Quiet q; in = out = hot = Model(); may.clear(); exact = true; SIM_CHECK(cache.GetSize() == 0, "size", "the size is " << cache.GetSize() << " after clearing"); }
			sim::Quiet q;
			if (!exact) continue;
			SIM_CHECK(ev.got == expected, "evicted", "the evictions are" << Show(ev.got) << " instead of" << Show(expected));
			SIM_CHECK(cache.GetSize() == in.Size() + out.Size() + hot.Size(), "size", "the size is " << cache.GetSize() << ", the entries are" << Show(in.order) << " |" << Show(out.order) << " |" << Show(hot.order));
			if (!expected.empty()) sim::probe("two queues evict");
		}
		for (int k = 0; k < (int)keys; ++k)
		{
			Item key(k), got(0); ev.got.clear();
			size_t before = cache.GetSize();
			bool had = Attempt(0, [&] { return cache.Remove(key); }) == Ok; 
			SIM_CHECK(cache.GetSize() <= before, "size", "the size grows with a removal");
			SIM_CHECK(Attempt(0, [&] { return cache.TryGet(key, got); }) == No, "value", "an entry is there after its removal");
			if (exact) { sim::Quiet q; SIM_CHECK(had == (in.Find(k) >= 0 || out.Find(k) >= 0 || hot.Find(k) >= 0), "value", "removal of " << k << " gives " << had); }
		}
		SIM_CHECK(cache.GetSize() == 0, "size", "the size of an empty cache is " << cache.GetSize());
	}
	SIM_CHECK(Items::Count() == 0, "lifetime", Items::Count() << " items live after their cache");
}
