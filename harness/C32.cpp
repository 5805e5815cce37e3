// C32: associative containers
#include "items.h"
#include <stingraykit/collection/bimap.h>
#include <stingraykit/collection/flat_map.h>
#include <stingraykit/collection/flat_set.h>
#include <stingraykit/collection/ordered_map.h>
#include <stingraykit/collection/ordered_set.h>
#include <stingraykit/collection/RefCounter.h>
#include <stingraykit/collection/RefCountingMap.h>
#include <stingraykit/collection/RefCountingSet.h>
#include <stingraykit/collection/RefCountingValue.h>

namespace
{
	typedef std::pair<int, int> KV; typedef std::vector<KV> Content;
	std::string Show(const Content& c) { std::string r = "["; for (auto& e : c) r += " " + std::to_string(e.first) + ":" + std::to_string(e.second); return r + " ]"; }

	int KeyOf(const Item& i) { return i.Get(); }
	template < typename T > int KeyOf(const std::pair<T, Item>& p) { return p.first.Get(); }
	int ValueOf(const Item& i) { return 0; }
	template < typename T > int ValueOf(const std::pair<T, Item>& p) { return p.second.Get(); }

	// What the containers have in common. Sorted: by key, or in the order of insertion
	template < typename C, bool Sorted, bool IsMap > struct Assoc
	{
		typedef typename C::value_type Value;

		static int FindIn(const Content& c, int k) { for (size_t i = 0; i < c.size(); ++i) if (c[i].first == k) return i; return -1; }
		static void Put(Content& c, int k, int v, int before = -1)			// before: the key before which a new one goes
		{
			if (FindIn(c, k) >= 0) return;
			size_t at = c.size();
			if (Sorted) { at = 0; while (at < c.size() && c[at].first < k) ++at; }
			else if (before >= 0) at = FindIn(c, before);
			c.insert(c.begin() + at, KV(k, v));
		}
		static void Drop(Content& c, int k) { int i = FindIn(c, k); if (i >= 0) c.erase(c.begin() + i); }

		static std::string Name() { return std::string(Sorted ? "flat" : "ordered") + (IsMap ? "_map" : "_set"); }

		// the content, with every way to look at it in agreement
		static Content Look(C& m, int keys)
		{
			const C& cm = m; Content c, r; std::string bad;
			for (typename C::const_iterator it = cm.begin(); it != cm.end(); ++it) c.push_back(KV(KeyOf(*it), ValueOf(*it)));
			{ Content d; for (typename C::iterator it = m.begin(); it != m.end(); ++it) d.push_back(KV(KeyOf(*it), ValueOf(*it))); if (d != c) bad = "its iterators differ"; }
			for (typename C::const_reverse_iterator it = cm.rbegin(); it != cm.rend(); ++it) r.insert(r.begin(), KV(KeyOf(*it), ValueOf(*it)));
			if (r != c) bad = "it differs backwards";
			if (m.size() != c.size() || m.empty() != c.empty()) bad = "its size is " + std::to_string(m.size());
			if (Sorted) for (size_t i = 1; i < c.size(); ++i) if (c[i - 1].first >= c[i].first) bad = "it is not in order";
			for (int k = 0; k < keys; ++k)
			{
				Item key(k); int i = FindIn(c, k); typename C::const_iterator f = cm.find(key); typename C::iterator g = m.find(key);
				if ((i >= 0) != (f != cm.end()) || (i >= 0) != (g != m.end()) || cm.count(key) != (size_t)(i >= 0)) bad = "key " + std::to_string(k) + " is" + (i >= 0 ? " not" : "") + " found";
				else if (i >= 0 && (KeyOf(*f) != k || KeyOf(*g) != k || ValueOf(*f) != c[i].second)) bad = "looking for key " + std::to_string(k) + " finds another";
			}
			SIM_CHECK(bad.empty(), "parts", Name() << ": " << bad << ", it holds " << Show(c));
			return c;
		}
	};

	// What differs between maps and sets
	template < typename C > auto Insert(C& m, int how, const Item& k, const Item& v, bool) -> decltype(m[k], std::pair<bool, int>())
	{
		typedef typename C::value_type V;
		switch (how)
		{
		case 0: { auto r = m.emplace(k, v); return std::make_pair(r.second, KeyOf(*r.first)); }
		case 1: { sim::NoFaults* nf = nullptr; (void)nf; V val(k, v); auto r = m.insert(val); return std::make_pair(r.second, KeyOf(*r.first)); }
		case 2: { V val(k, v); auto r = m.insert(std::move(val)); return std::make_pair(r.second, KeyOf(*r.first)); }
		default: { bool fresh = m.find(k) == m.end(); Item& at = m[k]; if (fresh) at = v; return std::make_pair(fresh, k.Get()); }
		}
	}
	template < typename C > std::pair<bool, int> Insert(C& m, int how, const Item& k, const Item&, int)
	{
		switch (how)
		{
		case 0: { auto r = m.emplace(k); return std::make_pair(r.second, KeyOf(*r.first)); }
		case 1: { auto r = m.insert(k); return std::make_pair(r.second, KeyOf(*r.first)); }
		default: { Item copy(k); auto r = m.insert(std::move(copy)); return std::make_pair(r.second, KeyOf(*r.first)); }
		}
	}
	template < typename C > auto InsertHint(C& m, typename C::const_iterator hint, int how, const Item& k, const Item& v, bool) -> decltype(m[k], int())
	{
		typedef typename C::value_type V;
		if (how == 0) return KeyOf(*m.emplace_hint(hint, k, v));
		V val(k, v); if (how == 1) return KeyOf(*m.insert(hint, val));
		return KeyOf(*m.insert(hint, std::move(val)));
	}
	template < typename C > int InsertHint(C& m, typename C::const_iterator hint, int how, const Item& k, const Item&, int)
	{
		if (how == 0) return KeyOf(*m.emplace_hint(hint, k));
		if (how == 1) return KeyOf(*m.insert(hint, k));
		Item copy(k); return KeyOf(*m.insert(hint, std::move(copy)));
	}
	template < typename C > auto MakeValues(const Content& c, bool) -> decltype(std::declval<C>()[std::declval<Item>()], std::vector<typename C::value_type>())
	{ std::vector<typename C::value_type> r; for (auto& e : c) r.emplace_back(Item(e.first), Item(e.second)); return r; }
	template < typename C > std::vector<Item> MakeValues(const Content& c, int) { std::vector<Item> r; for (auto& e : c) r.emplace_back(e.first); return r; }

	template < typename C, bool Sorted, bool IsMap > void Run()
	{
		SilenceLog();
		typedef Assoc<C, Sorted, IsMap> A;
		const int N = 2; int keys = sim::WR(1, 12), n = sim::WR(3, 30); bool faults = sim::WP(60); int next = 100;
		{
			std::unique_ptr<C> m[N]; Content model[N]; for (auto& x : m) x.reset(new C());
			auto check = [&](int i, const char* what) { Content c = A::Look(*m[i], keys); sim::Quiet q; SIM_CHECK(c == model[i], "content", A::Name() << ": after " << what << " it holds " << Show(c) << " instead of " << Show(model[i])); };
			// after a failure: what it holds is one of these, or (loose) only things of the old and the new
			auto failed = [&](int i, const char* what, const std::vector<Content>& may, bool loose)
			{
				Content c = A::Look(*m[i], keys); sim::Quiet q; bool ok = c == model[i]; for (auto& x : may) ok = ok || c == x;
				if (loose) { ok = true; for (auto& e : c) { bool known = std::find(model[i].begin(), model[i].end(), e) != model[i].end(); for (auto& x : may) known = known || std::find(x.begin(), x.end(), e) != x.end(); ok = ok && known; } }
				SIM_CHECK(ok, "content", A::Name() << ": after " << what << " which failed it holds " << Show(c) << ", it held " << Show(model[i]));
				model[i] = c; sim::probe("an operation on an associative container fails");
			};
			for (int step = 0; step < n; ++step)
			{
				int a = sim::W(N), b = sim::W(N), k = sim::W(keys), v = IsMap ? ++next : 0, what = sim::W(100); unsigned p = faults && sim::WP(45) ? sim::WR(30, 350) : 0;
				C& c = *m[a]; Content& mod = model[a]; Item key(k), val(v);
				if (what < 40)
				{
					int how = sim::W(IsMap ? 4 : 3); std::pair<bool, int> res; bool had = A::FindIn(mod, k) >= 0; bool withDefault = how == 3;
					if (Tries(p, [&] { res = Insert(c, how, key, val, true); }))
					{
						{ sim::Quiet q; SIM_CHECK(res.first == !had && res.second == k, "result", A::Name() << ": insertion of " << k << " gives " << res.first << ", " << res.second << ", it held " << Show(mod)); A::Put(mod, k, v); }
						check(a, "an insertion");
					}
					else { std::vector<Content> may; { sim::Quiet q; if (withDefault) { may.push_back(mod); A::Put(may.back(), k, 0); } } failed(a, "an insertion", may, false); }
				}
				else if (what < 55)
				{
					// near a position: where the hint is right or wrong
					int at = sim::W(mod.size() + 1), how = sim::W(3); int before = at < (int)mod.size() ? mod[at].first : -1; int res = -1;
					typename C::iterator h = c.begin(); std::advance(h, at);
					if (Tries(p, [&] { res = InsertHint(c, h, how, key, val, true); }))
					{ { sim::Quiet q; SIM_CHECK(res == k, "result", A::Name() << ": insertion of " << k << " with a hint gives " << res); A::Put(mod, k, v, before); } check(a, "an insertion with a hint"); }
					else failed(a, "an insertion with a hint", { }, false);
				}
				else if (what < 70)
				{
					size_t gone = 99; bool had = A::FindIn(mod, k) >= 0;
					if (Tries(p, [&] { gone = c.erase(key); })) { { sim::Quiet q; SIM_CHECK(gone == (size_t)had, "result", A::Name() << ": removal of " << k << " gives " << gone); A::Drop(mod, k); } check(a, "a removal"); }
					else failed(a, "a removal", { }, false);
				}
				else if (what < 75)
				{
					if (mod.empty()) continue;
					int i = sim::W(mod.size()), j = sim::WP(50) ? i + 1 : sim::WR(i, mod.size()); typename C::const_iterator f = c.begin(); std::advance(f, i); typename C::const_iterator l = f; std::advance(l, j - i);
					typename C::iterator r = j == i + 1 && sim::WP(50) ? c.erase(f) : c.erase(f, l); bool end = r == c.end(); int at = end ? -1 : KeyOf(*r);
					{ sim::Quiet q; SIM_CHECK(end == (j == (int)mod.size()) && (end || at == mod[j].first), "result", A::Name() << ": a removal of positions " << i << " to " << j << " gives another position"); mod.erase(mod.begin() + i, mod.begin() + j); }
					check(a, "a removal of positions");
				}
				else if (what < 82)
				{
					Content old; { sim::Quiet q; old = model[b]; }
					if (Tries(p, [&] { c = *m[b]; })) { { sim::Quiet q; mod = old; } check(a, a == b ? "self-assignment" : "assignment"); }
					else failed(a, "an assignment", { old }, true);
					check(b, "being assigned from");
				}
				else if (what < 86)
				{
					std::unique_ptr<C> copy;
					if (Tries(p, [&] { copy.reset(new C(*m[b])); }))
					{
						Content got = A::Look(*copy, keys); bool equal = *copy == *m[b]; { sim::Quiet q; SIM_CHECK(got == model[b] && equal, "content", A::Name() << ": a copy holds " << Show(got) << " instead of " << Show(model[b])); }
						m[b]->clear(); { sim::Quiet q; model[b].clear(); } check(b, "clear"); got = A::Look(*copy, keys); 
						m[b].swap(copy); { sim::Quiet q; model[b] = got; }
					}
					check(b, "being copied");
				}
				else if (what < 90)
				{
					if (a == b) continue;
					if (sim::WP(50)) { c.swap(*m[b]); { sim::Quiet q; model[a].swap(model[b]); } check(a, "a swap"); check(b, "a swap"); }
					else { c = std::move(*m[b]); { sim::Quiet q; model[a] = model[b]; } check(a, "a move"); m[b].reset(new C()); { sim::Quiet q; model[b].clear(); } }
				}
				else if (what < 97)
				{
					Content add; { sim::Quiet q; int cnt = sim::W(6); for (int i = 0; i < cnt; ++i) add.push_back(KV(sim::W(keys), IsMap ? ++next : 0)); }
					auto vals = MakeValues<C>(add, true); std::vector<Content> may;
					{ sim::Quiet q; Content x = mod; for (auto& e : add) { A::Put(x, e.first, e.second); may.push_back(x); } }
					if (Tries(p, [&] { c.insert(vals.begin(), vals.end()); })) { { sim::Quiet q; if (!may.empty()) mod = may.back(); } check(a, "an insertion of many"); }
					else failed(a, "an insertion of many", may, false);
				}
				else { c.clear(); { sim::Quiet q; mod.clear(); } check(a, "clear"); }
				sim::Quiet q; size_t want = 2; for (auto& x : model) want += x.size() * (IsMap ? 2 : 1);
				SIM_CHECK(Items::Count() == want, "lifetime", A::Name() << ": " << Items::Count() << " items live instead of " << want);
			}
		}
		SIM_CHECK(Items::Count() == 0, "lifetime", A::Name() << ": " << Items::Count() << " items are left");
	}

	struct Refused : public std::runtime_error { Refused() : std::runtime_error("refused") { } };
}

SIM_SCENARIO(flat_maps, 4) { Run<flat_map<Item, Item>, true, true>(); }
SIM_SCENARIO(flat_sets, 3) { Run<flat_set<Item>, true, false>(); }
SIM_SCENARIO(ordered_maps, 4) { Run<ordered_map<Item, Item>, false, true>(); }
SIM_SCENARIO(ordered_sets, 3) { Run<ordered_set<Item>, false, false>(); }

// Resources counted by key: acquired with the first reference, released with the last, whatever fails
SIM_SCENARIO(counted, 4)
{
	SilenceLog();
	int kind = sim::W(4), keys = kind < 2 ? sim::WR(1, 5) : 1, n = sim::WR(3, 40); bool faults = sim::WP(60);
	{
		RefCountingMap<Item, Item> map; RefCountingSet<Item> set; RefCountingValue<Item> value; RefCounter counter;
		std::map<int, int> refs, held;			// references, and resources held
		struct { bool refuse; } mode = { false }; int next = 0;
		const char* names[] = { "RefCountingMap", "RefCountingSet", "RefCountingValue", "RefCounter" };
		for (int step = 0; step < n; ++step)
		{
			int k = sim::W(keys), what = sim::W(100); unsigned p = faults && sim::WP(40) ? sim::WR(30, 350) : 0; bool refuse = faults && sim::WP(15); Item key(k);
			bool called = false;
			auto acquire = [&](int kk) { if (refuse) throw Refused(); { sim::Quiet q; SIM_CHECK(kk == k && !held[kk], "resource", names[kind] << ": a resource is acquired twice"); called = true; held[kk] = 1; } };
			auto release = [&](int kk) { if (refuse) throw Refused(); { sim::Quiet q; SIM_CHECK(kk == k && held[kk], "resource", names[kind] << ": a resource is released twice"); called = true; held[kk] = 0; } };
			bool refused = false, ok = false, res = false, has; { sim::Quiet q; has = refs[k] > 0; }
			if (what < 50)
			{
				// makes the resource; if what follows fails the caller still has to know about it
				ok = Tries(p, [&]
				{
					try
					{
						if (kind == 0) { auto it = map.add(key, [&](const Item& kk) { acquire(kk.Get()); sim::NoFaults nf; NoCopyFaults nc; return Item(kk.Get() + 1000); }); int got = it->first.Get(), val = it->second.Get(); SIM_CHECK(got == k && val == k + 1000, "result", "RefCountingMap: add of " << k << " gives " << got << ":" << val); }
						else if (kind == 1) { auto it = set.add(key, [&](const Item& kk) { acquire(kk.Get()); }); int got = it->Get(); SIM_CHECK(got == k, "result", "RefCountingSet: add of " << k << " gives " << got); }
						else if (kind == 2) { Item& v = value.set([&] { acquire(0); sim::NoFaults nf; NoCopyFaults nc; return Item(1000); }); SIM_CHECK(v.Get() == 1000, "result", "RefCountingValue: the value is " << v.Get()); }
						else counter.set([&] { acquire(0); });
					}
					catch (const Refused&) { refused = true; }
				});
				sim::Quiet q;
				if (ok && !refused) { SIM_CHECK(called == !has, "resource", names[kind] << ": a resource is acquired " << called << " with " << refs[k] << " references"); ++refs[k]; }
				else { SIM_CHECK(!called || !held[k] || has, "resource", names[kind] << ": a resource was acquired, no reference was added"); }
			}
			else if (what < 95)
			{
				bool byIterator = sim::WP(30);
				ok = Tries(p, [&]
				{
					try
					{
						if (kind == 0) { auto f = [&](const Item& kk, const Item& v) { SIM_CHECK(v.Get() == kk.Get() + 1000, "resource", "RefCountingMap: another value is released"); release(kk.Get()); }; if (byIterator && has) { map.erase(map.find(key), f); res = true; } else res = map.erase(key, f) != 0; }
						else if (kind == 1) { auto f = [&](const Item& kk) { release(kk.Get()); }; if (byIterator && has) { set.erase(set.find(key), f); res = true; } else res = set.erase(key, f) != 0; }
						else if (kind == 2) res = value.release([&](const Item& v) { SIM_CHECK(v.Get() == 1000, "resource", "RefCountingValue: another value is released"); release(0); });
						else res = counter.release([&] { release(0); });
					}
					catch (const Refused&) { refused = true; }
				});
				sim::Quiet q;
				if (ok && !refused) { SIM_CHECK(res == has, "result", names[kind] << ": a release gives " << res << " with " << refs[k] << " references"); if (has) --refs[k]; SIM_CHECK(called == (has && !refs[k]), "resource", names[kind] << ": a resource is released " << called << " with " << refs[k] << " references left"); }
				else
				{
					sim::probe("a release is refused");
					// the resource is still there, and so is its reference
				}
			}
			else if (kind >= 2)
			{
				ok = Tries(p, [&] { try { if (kind == 2) value.reset([&](const Item&) { release(0); }); else counter.reset([&] { release(0); }); } catch (const Refused&) { refused = true; } });
				sim::Quiet q;
				if (ok && !refused) { SIM_CHECK(called == has, "resource", names[kind] << ": reset releases " << called); refs[k] = 0; }
			}
			// what is counted is what is referenced
			for (int i = 0; i < keys; ++i)
			{
				Item ki(i); size_t c = kind == 0 ? map.count(ki) : kind == 1 ? set.count(ki) : kind == 2 ? value.count() : counter.count();
				bool there = kind == 0 ? map.find(ki) != map.end() : kind == 1 ? set.find(ki) != set.end() : kind == 2 ? value.get().is_initialized() : c > 0;
				sim::Quiet q;
				SIM_CHECK(c == (size_t)refs[i] && there == (refs[i] > 0) && held[i] == (refs[i] > 0), "count", names[kind] << ": key " << i << " counts " << c << ", is " << (there ? "" : "not ") << "there, its resource is " << (held[i] ? "" : "not ") << "held, the references are " << refs[i] << (ok && !refused ? "" : ", after a failure"));
			}
			size_t distinct = 0; { sim::Quiet q; for (auto& r : refs) if (r.second) ++distinct; }
			if (kind == 0) { size_t seen = 0; for (auto it = map.begin(); it != map.end(); ++it) ++seen; SIM_CHECK(map.size() == distinct && map.empty() == !distinct && seen == distinct, "count", "RefCountingMap: its size is " << map.size()); }
			if (kind == 1) { size_t seen = 0; for (auto it = set.begin(); it != set.end(); ++it) ++seen; SIM_CHECK(set.size() == distinct && set.empty() == !distinct && seen == distinct, "count", "RefCountingSet: its size is " << set.size()); }
		}
		// clear releases each resource once
		std::map<int, int> cleared;
		if (kind == 0) map.clear([&](const Item& k, const Item&) { sim::Quiet q; ++cleared[k.Get()]; });
		if (kind == 1) set.clear([&](const Item& k) { sim::Quiet q; ++cleared[k.Get()]; });
		if (kind < 2) { sim::Quiet q; for (auto& r : refs) SIM_CHECK(cleared[r.first] == (r.second ? 1 : 0), "resource", names[kind] << ": clear releases key " << r.first << " " << cleared[r.first] << " times"); }
		SIM_CHECK(map.empty() && set.empty(), "count", "not empty after clear");
	}
	SIM_CHECK(Items::Count() == 0, "lifetime", Items::Count() << " items are left");
}

// The two sides of a bimap
SIM_SCENARIO(two_sided, 3)
{
	SilenceLog();
	int keys = sim::WR(1, 8), n = sim::WR(3, 30); bool faults = sim::WP(60);
	{
		typedef bimap<std::map<Item, Item>, std::map<Item, Item> > Map; Map m; std::map<int, int> model;
		for (int step = 0; step < n; ++step)
		{
			int l = sim::W(keys), r = sim::W(keys) + 100, what = sim::W(100); unsigned p = faults && sim::WP(40) ? sim::WR(30, 350) : 0; Item left(l), right(r); std::map<int, int> after;
			bool fromLeft = sim::WP(50);
			{ sim::Quiet q; after = model; }
			if (what < 60)
			{
				bool taken; { sim::Quiet q; taken = model.count(l); for (auto& e : model) taken = taken || e.second == r; if (!taken) after[l] = r; }
				if (taken) continue;			// what that means is not specified
				if (Tries(p, [&] { if (fromLeft) m.left_insert(left, right); else m.right_insert(right, left); })) { sim::Quiet q; model = after; } else sim::probe("an insertion into a bimap fails");
			}
			else if (what < 95)
			{
				bool byIterator = sim::WP(40);
				{ sim::Quiet q; if (fromLeft) after.erase(l); else for (auto& e : model) if (e.second == r) { after.erase(e.first); break; } }
				if (Tries(p, [&] { if (fromLeft) { if (byIterator) m.left_erase(m.left_find(left)); else m.left_erase(left); } else { if (byIterator) m.right_erase(m.right_find(right)); else m.right_erase(right); } })) { sim::Quiet q; model = after; } else sim::probe("a removal from a bimap fails");
			}
			else { m.clear(); sim::Quiet q; model.clear(); }
			std::map<int, int> byLeft, byRight; const Map& cm = m;
			for (auto it = cm.left_begin(); it != cm.left_end(); ++it) { int x = it->first.Get(), y = it->second.Get(); sim::Quiet q; byLeft[x] = y; }
			for (auto it = cm.right_begin(); it != cm.right_end(); ++it) { int x = it->first.Get(), y = it->second.Get(); sim::Quiet q; byRight[y] = x; }
			bool found = true; for (int i = 0; i < keys; ++i) { Item a(i); auto f = cm.left_find(a); bool has; { sim::Quiet q; has = model.count(i); } found = found && has == (f != cm.left_end()); }
			sim::Quiet q;
			SIM_CHECK(byLeft == byRight, "parts", "bimap: its sides differ, " << byLeft.size() << " and " << byRight.size() << " entries");
			SIM_CHECK(byLeft == model && m.size() == model.size() && m.empty() == model.empty() && found, "content", "bimap: it holds " << byLeft.size() << " entries instead of " << model.size());
		}
	}
	SIM_CHECK(Items::Count() == 0, "lifetime", Items::Count() << " items are left");
}
