// C28: atomic values, flags, spinlocks, sequence generators: linearizable against a register / counter
#include "common.h"
#include <stingraykit/thread/atomic.h>
#include <stingraykit/thread/atomic/AtomicInt.h>
#include <stingraykit/thread/atomic/AtomicFlag.h>
#include <stingraykit/thread/atomic/Spinlock.h>
#include <stingraykit/IntegerSequenceGenerator.h>
#include <stingraykit/string/ToString.h>

namespace
{
	enum Kind { Load, Store, Add, Cas, Tas, Clear };
	struct Op { Kind kind; u64 arg = 0, arg2 = 0, result = 0; u64 b = 0, e = 0; };

	// Is there an order of the operations, consistent with real time, in which a single value explains every result?
	struct Checker
	{
		const std::vector<Op>& ops; u64 mask; std::set<std::pair<u32, u64> > dead;
		Checker(const std::vector<Op>& o, u64 m) : ops(o), mask(m) { }
		bool Step(const Op& o, u64& v) const
		{
			switch (o.kind)
			{
			case Load: return o.result == v;
			case Store: v = o.arg & mask; return true;
			case Add: v = (v + o.arg) & mask; return o.result == v;						// the result: the value after it
			case Cas: { bool ok = o.result == v; if (v == o.arg) v = o.arg2 & mask; return ok; }	// the result: the value before it
			case Tas: { bool ok = o.result == (v == 0); v = 1; return ok; }
			case Clear: v = 0; return true;
			}
			return false;
		}
		bool Go(u32 done, u64 v)
		{
			if (done == (1u << ops.size()) - 1) return true;
			if (!dead.insert(std::make_pair(done, v)).second) return false;
			u64 first = ~0ull; for (size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1)) first = std::min(first, ops[i].e);
			for (size_t i = 0; i < ops.size(); ++i)
				if (!(done >> i & 1) && ops[i].b < first) { u64 w = v; if (Step(ops[i], w) && Go(done | 1u << i, w)) return true; }
			return false;
		}
	};

	std::string Show(const std::vector<Op>& ops, const char* name)
	{
		std::ostringstream s; static const char* k[] = { "load", "store", "add", "cas", "test-and-set", "clear" };
		s << name << ":"; for (auto& o : ops) s << " [" << o.b << "," << o.e << "] " << k[o.kind] << "(" << o.arg << (o.kind == Cas ? "," + std::to_string(o.arg2) : "") << ") = " << o.result << ";";
		return s.str();
	}

	template < typename Obj > void History(const char* name, u64 mask, u64 init, Obj& obj, const std::function<void (Op&, Obj&)>& perform, const std::function<Op ()>& draw)
	{
		SilenceLog();
		std::vector<Op> ops; Clients cs; int n = sim::WR(2, 4); int left = 14; auto* po = &ops; Obj* pobj = &obj; auto* pp = &perform; auto* pd = &draw;
		ops.reserve(64);
		for (int c = 0; c < n && left > 0; ++c)
		{
			int k = sim::WR(1, std::min(left, 5)); left -= k;
			Spawn(cs, "client", [po, pobj, pp, pd, k]
			{
				for (int i = 0; i < k; ++i)
				{
					Op o; { sim::Quiet q; o = (*pd)(); o.b = sim::seq(); }
					(*pp)(o, *pobj);
					sim::Quiet q; o.e = sim::seq(); po->push_back(o);
				}
			});
		}
		JoinAll(cs);
		{ Op o; o.kind = Load; o.b = sim::seq(); Op l = o; l.kind = Load; (*pp)(l, obj); l.e = sim::seq(); ops.push_back(l); }
		sim::Quiet q;
		Checker ch(ops, mask);
		SIM_CHECK(ch.Go(0, init), "not-linearizable", Show(ops, name));
	}

	u64 Small() { return sim::W(4); }

	template < typename T > void Integral(const char* name)
	{
		u64 mask = sizeof(T) == 8 ? ~0ull : (1ull << (8 * sizeof(T))) - 1; u64 init = sim::WP(30) ? mask - sim::W(3) : Small();
		atomic<T> a((T)init); u64 m = mask;
		bool same = sim::WP(50);	// several atomics of a narrow type are neighbours in one word
		struct Box { atomic<T>* a; }; Box box = { &a }; (void)same;
		History<Box>(name, mask, init, box, [m] (Op& o, Box& b)
		{
			atomic<T>& x = *b.a; static const MemoryOrder ld[] = { MemoryOrderRelaxed, MemoryOrderAcquire, MemoryOrderSeqCst }, st[] = { MemoryOrderRelaxed, MemoryOrderRelease, MemoryOrderSeqCst };
			switch (o.kind)
			{
			case Load: o.result = sim::W(2) ? (u64)(T)x & m : (u64)x.load(ld[sim::W(3)]) & m; break;
			case Store: if (sim::W(2)) x = (T)o.arg; else x.store((T)o.arg, st[sim::W(3)]); break;
			default:
				switch (o.arg2)
				{
				case 0: o.result = ((u64)x.fetch_add((T)o.arg) + o.arg) & m; break;
				case 1: o.result = ((u64)x.fetch_sub((T)(0 - o.arg)) + o.arg) & m; break;
				case 2: o.arg = 1; o.result = (u64)++x & m; break;
				case 3: o.arg = 1; o.result = ((u64)x++ + 1) & m; break;
				case 4: o.arg = m; o.result = (u64)--x & m; break;
				default: o.arg = m; o.result = ((u64)x-- - 1) & m; break;
				}
			}
		}, [m] { Op o; switch (sim::W(6)) { case 0: o.kind = Load; break; case 1: o.kind = Store; o.arg = Small(); break; default: o.kind = Add; o.arg = (sim::W(5) - 2) & m; o.arg2 = sim::W(6); break; } return o; });
	}

	template < typename Basic, typename T > void Basics(const char* name)
	{
		u64 mask = sizeof(T) == 8 ? ~0ull : (1ull << (8 * sizeof(T))) - 1; u64 m = mask, init = Small();
		typename Basic::Type v = (T)init; struct Box { typename Basic::Type* v; }; Box box = { &v };
		History<Box>(name, mask, init, box, [m] (Op& o, Box& b)
		{
			switch (o.kind)
			{
			case Load: o.result = (u64)Basic::Load(*b.v) & m; break;
			case Store: Basic::Store(*b.v, (T)o.arg); break;
			case Cas: o.result = (u64)Basic::CompareAndExchange(*b.v, (T)o.arg, (T)o.arg2) & m; break;
			default:
				switch (o.arg2)
				{
				case 0: o.result = (u64)Basic::Add(*b.v, (T)o.arg) & m; break;
				case 1: o.result = (u64)Basic::Sub(*b.v, (T)(0 - o.arg)) & m; break;
				case 2: o.arg = 1; o.result = (u64)Basic::Inc(*b.v) & m; break;
				default: o.arg = m; o.result = (u64)Basic::Dec(*b.v) & m; break;
				}
			}
		}, [m] { Op o; switch (sim::W(7)) { case 0: o.kind = Load; break; case 1: o.kind = Store; o.arg = Small(); break; case 2: case 3: o.kind = Cas; o.arg = Small(); o.arg2 = Small(); break; default: o.kind = Add; o.arg = (sim::W(5) - 2) & m; o.arg2 = sim::W(4); break; } return o; });
	}

	struct Color { STINGRAYKIT_ENUM_VALUES(Red, Green, Blue, Black); STINGRAYKIT_DECLARE_ENUM_CLASS(Color); };
	struct Wide { u64 a, b, c; Wide(u64 x = 0) : a(x), b(x * 3), c(x * 7) { } };

	void Others()
	{
		switch (sim::W(3))
		{
		case 0:
			{
				atomic<bool> a(false);
				History<atomic<bool> >("bool", 1, 0, a, [] (Op& o, atomic<bool>& x) { if (o.kind == Load) o.result = x; else if (sim::W(2)) x = o.arg != 0; else x.store(o.arg != 0); }, [] { Op o; o.kind = sim::W(2) ? Load : Store; o.arg = sim::W(2); return o; });
				break;
			}
		case 1:
			{
				atomic<Color> a(Color::Red);
				History<atomic<Color> >("enum", ~0ull, 0, a, [] (Op& o, atomic<Color>& x) { if (o.kind == Load) o.result = (u64)x.load().val(); else x.store((Color::Enum)o.arg); }, [] { Op o; o.kind = sim::W(2) ? Load : Store; o.arg = sim::W(4); return o; });
				break;
			}
		default:
			{
				atomic<Wide> a(Wide(2));
				History<atomic<Wide> >("wide", ~0ull, 2, a, [] (Op& o, atomic<Wide>& x)
				{
					if (o.kind == Load) { Wide w = x.load(); o.result = w.a; SIM_CHECK(w.b == w.a * 3 && w.c == w.a * 7, "torn", "a value was read half written: " << w.a << " " << w.b << " " << w.c); }
					else x.store(Wide(o.arg));
				}, [] { Op o; o.kind = sim::W(2) ? Load : Store; o.arg = Small(); return o; });
			}
		}
	}

	void Flags()
	{
		AtomicFlag::Type f = 0; struct Box { AtomicFlag::Type* f; }; Box box = { &f };
		History<Box>("flag", ~0ull, 0, box, [] (Op& o, Box& b)
		{
			if (o.kind == Tas) o.result = AtomicFlag::TestAndSet(*b.f); else if (o.kind == Clear) AtomicFlag::Clear(*b.f); else { bool got = AtomicFlag::TestAndSet(*b.f); o.result = got ? 0 : 1; }
		}, [] { Op o; o.kind = sim::W(2) ? Tas : Clear; return o; });
	}

	void Locks()
	{
		SilenceLog();
		AtomicFlag::Type f = 0; int inside = 0, count = 0, total = 0; auto *pf = &f; int *pi = &inside, *pc = &count; Clients cs;
		for (int c = 0, n = sim::WR(2, 4); c < n; ++c)
		{
			int k = sim::WR(1, 4); total += k;
			Spawn(cs, "client", [pf, pi, pc, k]
			{
				for (int i = 0; i < k; ++i)
				{
					Spinlock l(*pf);
					{ sim::Quiet q; SIM_CHECK(++*pi == 1, "not-exclusive", "two threads hold a spinlock"); }
					int v = *pc; sim::point(); *pc = v + 1;
					sim::Quiet q; --*pi;
				}
			});
		}
		JoinAll(cs);
		SIM_CHECK(count == total, "not-exclusive", "count " << count << " instead of " << total);
	}

	template < typename T > void Sequence(T start)
	{
		SilenceLog();
		IntegerSequenceGenerator<T> g(start); auto* pg = &g; std::vector<std::pair<T, std::pair<u64, u64> > > got; auto* p = &got; Clients cs; int total = 0;
		for (int c = 0, n = sim::WR(2, 4); c < n; ++c)
		{
			int k = sim::WR(1, 6); total += k;
			Spawn(cs, "client", [pg, p, k] { for (int i = 0; i < k; ++i) { u64 b = sim::seq(); T v = pg->Next(); sim::Quiet q; p->push_back(std::make_pair(v, std::make_pair(b, sim::seq()))); } });
		}
		JoinAll(cs);
		sim::Quiet q;
		std::sort(got.begin(), got.end());
		for (int i = 0; i < total; ++i) SIM_CHECK(got[i].first == (T)(start + i), "sequence", "number " << i << " of the sequence is " << ToString(got[i].first));
		for (int i = 0; i < total; ++i) for (int j = i + 1; j < total; ++j) SIM_CHECK(got[j].second.second > got[i].second.first, "sequence-order", "a later number was given out before an earlier one");
	}

	// What was written before a release is seen after the acquire that reads it
	void Publish()
	{
		SilenceLog();
		struct Shared { int data[3]; atomic<int> ready; AtomicU32::Type seq; atomic<bool> flag; Shared() : ready(0), seq(0), flag(false) { } } sh; Shared* p = &sh; int how = sim::W(3); bool strong = sim::WP(50);
		for (int& d : sh.data) d = 0;
		Clients cs;
		Spawn(cs, "writer", [p, how, strong]
		{
			for (int i = 0; i < 3; ++i) p->data[i] = 10 + i;
			if (how == 0) p->ready.store(1, strong ? MemoryOrderSeqCst : MemoryOrderRelease); else if (how == 1) AtomicU32::Inc(p->seq, strong ? MemoryOrderSeqCst : MemoryOrderRelease); else p->flag.store(true, strong ? MemoryOrderSeqCst : MemoryOrderRelease);
		});
		for (int c = 0, n = sim::WR(1, 3); c < n; ++c)
			Spawn(cs, "reader", [p, how, strong]
			{
				for (int i = 0; i < 20; ++i)
				{
					MemoryOrder o = strong ? MemoryOrderSeqCst : MemoryOrderAcquire;
					bool ready = how == 0 ? p->ready.load(o) == 1 : how == 1 ? AtomicU32::Load(p->seq, o) == 1 : p->flag.load(o);
					if (ready) { sim::probe("published data read"); for (int k = 0; k < 3; ++k) SIM_CHECK(p->data[k] == 10 + k, "not-visible", "data published is not seen"); return; }
					sim::sleepUs(5);
				}
			});
		JoinAll(cs);
	}
}

SIM_SCENARIO(integral, 3)
{
	switch (sim::W(8))
	{
	case 0: Integral<s8>("s8"); break; case 1: Integral<u8>("u8"); break; case 2: Integral<s16>("s16"); break; case 3: Integral<u16>("u16"); break;
	case 4: Integral<s32>("s32"); break; case 5: Integral<u32>("u32"); break; case 6: Integral<s64>("s64"); break; default: Integral<u64>("u64"); break;
	}
}
SIM_SCENARIO(basic, 3)
{
	switch (sim::W(4)) { case 0: Basics<AtomicS32, s32>("AtomicS32"); break; case 1: Basics<AtomicU32, u32>("AtomicU32"); break; case 2: Basics<AtomicS64, s64>("AtomicS64"); break; default: Basics<AtomicU64, u64>("AtomicU64"); break; }
}
SIM_SCENARIO(others, 2) { Others(); }
SIM_SCENARIO(flags, 2) { Flags(); }
SIM_SCENARIO(spinlock, 1) { Locks(); }
SIM_SCENARIO(sequence, 1) { if (sim::WP(50)) Sequence<u32>(sim::W(3)); else Sequence<s64>((s64)sim::W(5) - 2); }
SIM_SCENARIO(publish, 1) { Publish(); }
