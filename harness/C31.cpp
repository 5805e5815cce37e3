// C31: holders of values
#include "items.h"
#include <stingraykit/any.h>
#include <stingraykit/collection/inplace_vector.h>
#include <stingraykit/optional.h>
#include <stingraykit/variant.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/unique_ptr.h>

namespace
{
	template < typename Kind > struct CopiesMayFail { enum { Value = 1 }; };

	typedef std::vector<int> Content;				// what a holder holds, as numbers
	std::string Show(const Content& c) { std::string r = "["; for (int v : c) r += " " + std::to_string(v); return r + " ]"; }

	// Holders of one kind and what they should hold. After a failure a holder may hold several things; it is asked at once which.
	template < typename Holder > struct Slot { std::unique_ptr<Holder> h; Content c; };

	// Kind: how to look into a holder, and the operations on it
	template < typename Kind > void Run()
	{
		SilenceLog();
		typedef typename Kind::Holder Holder;
		bool faults = sim::WP(65); int n = sim::WR(3, 30); const int N = 3; Items::Odd() = faults && sim::WP(20);
		{
			Slot<Holder> s[N]; int next = 0;
			for (auto& x : s) { x.h.reset(new Holder()); x.c = Kind::Initial(); }
			auto look = [&](int i, const char* what) { Content c = Kind::Look(*s[i].h); sim::Quiet q; SIM_CHECK(c == s[i].c, "content", Kind::Name() << ": after " << what << " holder " << i << " holds " << Show(c) << " instead of " << Show(s[i].c)); };
			auto failed = [&](int i, const char* what, const std::vector<Content>& may)		// one of these is left
			{
				Content c = Kind::Look(*s[i].h); sim::Quiet q; bool ok = c == s[i].c; for (auto& m : may) ok = ok || c == m;
				SIM_CHECK(ok, "content", Kind::Name() << ": after " << what << " which failed, holder " << i << " holds " << Show(c) << ", it held " << Show(s[i].c));
				s[i].c = c; sim::probe("an operation on a holder fails");
			};
			for (int step = 0; step < n; ++step)
			{
				int a = sim::W(N), b = sim::W(N); unsigned p = faults && sim::WP(50) ? sim::WR(30, 400) : 0;
				size_t before = Items::Count(); (void)before;
				int op = sim::W(8); if (op < 4 && !CopiesMayFail<Kind>::Value) p = 0;
				switch (op)
				{
				case 0:
				{
					if (Tries(p, [&] { Holder copy(*s[b].h); sim::NoFaults nf; NoCopyFaults nc; Content c = Kind::Look(copy); sim::Quiet q; SIM_CHECK(c == s[b].c, "content", Kind::Name() << ": a copy holds " << Show(c) << " instead of " << Show(s[b].c)); })) { }
					look(b, "being copied");
					break;
				}
				case 1:
				{
					if (a == b) sim::probe("a holder is assigned to itself");
					if (Tries(p, [&] { *s[a].h = *s[b].h; })) { s[a].c = s[b].c; look(a, a == b ? "self-assignment" : "assignment"); }
					else failed(a, "an assignment", a == b ? std::vector<Content>{ } : Kind::Partial(s[b].c));
					if (a != b) look(b, "being assigned from");
					break;
				}
				case 2:
				{
					if (Tries(p, [&] { *s[a].h = std::move(*s[b].h); }))
					{
						if (a == b) { look(a, "self-move"); break; }
						s[a].c = s[b].c; look(a, "move assignment");
						Content left = Kind::Look(*s[b].h); sim::Quiet q; SIM_CHECK(Kind::MovedOk(left, s[b].c), "content", Kind::Name() << ": a holder which was moved from holds " << Show(left) << ", it held " << Show(s[b].c)); s[b].c = left;
					}
					else { failed(a, "a move assignment", { Content(), Kind::Initial() }); if (a != b) { Content left = Kind::Look(*s[b].h); sim::Quiet q; s[b].c = left; } }
					break;
				}
				case 3:
				{
					std::unique_ptr<Holder> moved; Content had = s[b].c;
					if (Tries(p, [&] { moved.reset(new Holder(std::move(*s[b].h))); }))
					{
						Content c = Kind::Look(*moved), left = Kind::Look(*s[b].h); sim::Quiet q;
						SIM_CHECK(c == had, "content", Kind::Name() << ": a moved holder holds " << Show(c) << " instead of " << Show(had));
						SIM_CHECK(Kind::MovedOk(left, had), "content", Kind::Name() << ": a holder which was moved from holds " << Show(left) << ", it held " << Show(had)); 
					}
					if (moved) { s[b].h.swap(moved); moved.reset(); look(b, "being moved"); }
					else { Content left = Kind::Look(*s[b].h); sim::Quiet q; s[b].c = left; }
					break;
				}
				case 4: { s[a].h.reset(); s[a].h.reset(new Holder()); s[a].c = Kind::Initial(); break; }
				default:
				{
					int v = ++next; Content now = s[a].c; const char* what = "";
					std::vector<Content> partial;
					if (Tries(p, [&] { what = Kind::Operate(*s[a].h, v, now, partial); })) { s[a].c = now; look(a, what); }
					else failed(a, what, partial);
				}
				}
				sim::Quiet q; size_t expect = 0; for (auto& x : s) { expect += Kind::Needs(x.c); }
				SIM_CHECK(Kind::Shares() ? Items::Count() <= expect : Items::Count() == expect, "lifetime", Kind::Name() << ": " << Items::Count() << " items live instead of " << expect);
			}
		}
		SIM_CHECK(Items::Count() == 0, "lifetime", Kind::Name() << ": " << Items::Count() << " items are left");
	}

	struct OptionalKind
	{
		typedef optional<Item> Holder;
		static const char* Name() { return "optional"; }
		static bool Shares() { return false; }
		static Content Initial() { return Content(); }
		static Content Look(const Holder& h) { Content c; if (h) c.push_back(h->Get()); if (h.is_initialized() == (h == null)) c.push_back(-5); return c; }
		static size_t Needs(const Content& c) { return c.size(); }
		static std::vector<Content> Partial(const Content&) { return { Content() }; }
		static bool MovedOk(const Content& left, const Content& had) { return left.empty() || (had.size() == 1 && left.size() == 1); }
		static const char* Operate(Holder& h, int v, Content& now, std::vector<Content>& partial)
		{
			int what; Item* val; { sim::NoFaults nf; NoCopyFaults nc; what = sim::W(8); }
			struct Own { alignas(Item) char b[sizeof(Item)]; Item* p; Own(int v) : p(new (b) Item(v)) { } ~Own() { p->~Item(); } } own(v); val = own.p;
			{ sim::Quiet q; now.assign(1, v); }
			switch (what)
			{
			case 0: h = *val; return "assigning a value";
			case 1: h = std::move(*val); return "moving a value in";
			case 2: { sim::Quiet q; partial.push_back(Content()); } h.emplace(*val); return "emplace";
			case 3: h.reset(); { sim::Quiet q; now.clear(); } return "reset";
			case 4: h = null; { sim::Quiet q; now.clear(); } return "assigning null";
			case 5: { Holder o(*val); Content had; { sim::Quiet q; if (h) had.push_back(h->V); } h.swap(o); sim::NoFaults nf; Content other = Look(o); sim::Quiet q; SIM_CHECK(other == had, "content", "optional: a swap gives the other " << Show(other) << " instead of " << Show(had)); return "swap"; }
			case 6: { optional<int> o(v); h = o; return "assigning another optional"; }
			default:
			{
				bool had = h.is_initialized(); int old = had ? h->V : -9;
				Item got = h.get_value_or(*val); int g = got.Get();
				sim::Quiet q; SIM_CHECK(g == (had ? old : v), "content", "optional: get_value_or gives " << g);
				now.clear(); if (had) now.push_back(old); return "get_value_or";
			}
			}
		}
	};

	struct VariantKind
	{
		typedef variant<TypeList<EmptyType, Item, std::string, std::vector<Item>, int> > Holder;
		static const char* Name() { return "variant"; }
		static bool Shares() { return false; }
		static Content Initial() { return Content(); }
		// the content: which, then the value
		static Content Look(const Holder& h)
		{
			Content c; if (h.empty()) { if (h.which() != 0 || h.type() != typeid(EmptyType)) c.push_back(-5); return c; }
			c.push_back((int)h.which());
			bool right = false;
			switch (h.which())
			{
			case 1: c.push_back(h.get<Item>().Get()); right = h.type() == typeid(Item) && h.contains<Item>() && !h.contains<int>(); break;
			case 2: for (char ch : h.get<std::string>()) c.push_back((unsigned char)ch); right = h.type() == typeid(std::string); break;
			case 3: for (const Item& i : h.get<std::vector<Item> >()) c.push_back(i.Get()); right = h.get_ptr<std::vector<Item> >() != nullptr; break;
			case 4: c.push_back(h.get<int>()); right = h.get_ptr<Item>() == nullptr; break;
			}
			if (!right) c.push_back(-6);
			return c;
		}
		static size_t Needs(const Content& c) { return c.empty() ? 0 : c[0] == 1 ? 1 : c[0] == 3 ? c.size() - 1 : 0; }
		static std::vector<Content> Partial(const Content&) { return { Content() }; }
		static bool MovedOk(const Content& left, const Content& had) { return left.empty() == had.empty() && (left.empty() || left[0] == had[0]); }
		static const char* Operate(Holder& h, int v, Content& now, std::vector<Content>& partial)
		{
			int what = sim::W(9); { sim::Quiet q; partial.push_back(Content()); }
			std::string str; std::vector<Item> vec; int len = 0;
			{ sim::NoFaults nf; NoCopyFaults nc; len = sim::WR(0, 40); str.assign(len, 'a' + v % 20); for (int i = 0; i < len % 5; ++i) vec.push_back(Item(v * 10 + i)); }
			struct Own { alignas(Item) char b[sizeof(Item)]; Item* p; Own(int v) : p(new (b) Item(v)) { } ~Own() { p->~Item(); } } own(v);
			auto content = [&](int which) { sim::Quiet q; now.assign(1, which); if (which == 1 || which == 4) now.push_back(v); else if (which == 2) for (char ch : str) now.push_back((unsigned char)ch); else if (which == 3) for (int i = 0; i < len % 5; ++i) now.push_back(v * 10 + i); };
			switch (what)
			{
			case 0: content(1); h = *own.p; return "assigning an item";
			case 1: content(1); h = std::move(*own.p); return "moving an item in";
			case 2: content(2); h = str; return "assigning a string";
			case 3: content(3); h = vec; return "assigning a vector";
			case 4: content(3); h = std::move(vec); return "moving a vector in";
			case 5: content(4); h = v; return "assigning a number";
			case 6: if (Item* i = h.get_ptr<Item>()) { sim::probe("a holder is assigned its own content"); h = *i; } return "assigning its own content";
			case 7: if (std::vector<Item>* i = h.get_ptr<std::vector<Item> >()) h = *i; return "assigning its own content";
			default: content(1); h.template emplace<Item>(*own.p); return "emplace";
			}
		}
	};

	// A variant which is never empty: assigning a value whose copy fails leaves the old one, a copy of the whole variant must not fail
	struct NeverEmptyKind
	{
		typedef variant<TypeList<int, Item, std::string, std::vector<Item> > > Holder;
		static const char* Name() { return "never-empty variant"; }
		static bool Shares() { return false; }
		static Content Initial() { Content c; c.push_back(0); c.push_back(0); return c; }
		static Content Look(const Holder& h)
		{
			Content c; c.push_back((int)h.which()); bool right = false;
			switch (h.which())
			{
			case 0: c.push_back(h.get<int>()); right = h.type() == typeid(int) && !h.contains<Item>(); break;
			case 1: c.push_back(h.get<Item>().Get()); right = h.type() == typeid(Item) && h.contains<Item>() && !h.contains<int>(); break;
			case 2: for (char ch : h.get<std::string>()) c.push_back((unsigned char)ch); right = h.type() == typeid(std::string); break;
			case 3: for (const Item& i : h.get<std::vector<Item> >()) c.push_back(i.Get()); right = h.get_ptr<std::vector<Item> >() != nullptr; break;
			}
			if (!right || h.empty()) c.push_back(-6);
			return c;
		}
		static size_t Needs(const Content& c) { return c.empty() ? 0 : c[0] == 1 ? 1 : c[0] == 3 ? c.size() - 1 : 0; }
		static std::vector<Content> Partial(const Content&) { return { }; }
		static bool MovedOk(const Content& left, const Content& had) { return !left.empty() && left[0] == had[0]; }
		static const char* Operate(Holder& h, int v, Content& now, std::vector<Content>&)
		{
			std::string str; std::vector<Item> vec; int len = 0, what;
			{ sim::NoFaults nf; NoCopyFaults nc; what = sim::W(10); len = sim::WR(0, 40); str.assign(len, 'a' + v % 20); for (int i = 0; i < len % 5; ++i) vec.push_back(Item(v * 10 + i)); }
			struct Own { alignas(Item) char b[sizeof(Item)]; Item* p; Own(int v) : p(new (b) Item(v)) { } ~Own() { p->~Item(); } } own(v);
			auto content = [&](int which) { sim::Quiet q; now.assign(1, which); if (which < 2) now.push_back(v); else if (which == 2) for (char ch : str) now.push_back((unsigned char)ch); else if (which == 3) for (int i = 0; i < len % 5; ++i) now.push_back(v * 10 + i); };
			switch (what)
			{
			case 0: content(1); h = *own.p; return "assigning an item";
			case 1: content(1); h = std::move(*own.p); return "moving an item in";
			case 2: content(2); h = str; return "assigning a string";
			case 3: content(3); h = vec; return "assigning a vector";
			case 4: content(3); h = std::move(vec); return "moving a vector in";
			case 5: content(0); h = v; return "assigning a number";
			case 6: if (Item* i = h.get_ptr<Item>()) { sim::probe("a holder is assigned its own content"); h = *i; } return "assigning its own content";
			case 7: if (std::vector<Item>* i = h.get_ptr<std::vector<Item> >()) { sim::probe("a holder is assigned its own content"); h = *i; } return "assigning its own content";
			case 8: if (std::string* i = h.get_ptr<std::string>()) { sim::probe("a holder is assigned its own content"); h = *i; } return "assigning its own content";
			default: { content(1); sim::NoFaults nf; NoCopyFaults nc; h.template emplace<Item>(*own.p); return "emplace"; }
			}
		}
	};
	template < > struct CopiesMayFail<NeverEmptyKind> { enum { Value = 0 }; };

	struct Big { Item a, b; int n; Big(int v) : a(v), b(v + 1), n(v) { } };

	struct AnyKind
	{
		typedef any Holder;
		static const char* Name() { return "any"; }
		static bool Shares() { return false; }
		static Content Initial() { return Content(); }
		static Content Look(const Holder& h)
		{
			Content c; int n = 0;
			if (const Item* i = any_cast<Item>(&h)) { ++n; c.push_back(1); c.push_back(i->Get()); }
			if (const std::string* s = any_cast<std::string>(&h)) { ++n; c.push_back(2); for (char ch : *s) c.push_back((unsigned char)ch); }
			if (const Big* b = any_cast<Big>(&h)) { ++n; c.push_back(3); c.push_back(b->a.Get()); c.push_back(b->b.Get()); c.push_back(b->n); }
			if (const int* i = any_cast<int>(&h)) { ++n; c.push_back(4); c.push_back(*i); }
			if (const double* d = any_cast<double>(&h)) { ++n; c.push_back(5); c.push_back((int)*d); }
			if (h.empty() != (n == 0) || n > 1) c.push_back(-5);
			return c;
		}
		static size_t Needs(const Content& c) { return c.empty() ? 0 : c[0] == 1 ? 1 : c[0] == 3 ? 2 : 0; }
		static std::vector<Content> Partial(const Content&) { return { Content() }; }
		static bool MovedOk(const Content& left, const Content& had) { return left.empty() || (!had.empty() && left[0] == had[0]); }
		static const char* Operate(Holder& h, int v, Content& now, std::vector<Content>& partial)
		{
			int what = sim::W(10); { sim::Quiet q; partial.push_back(Content()); }
			std::string str; int len = 0;
			{ sim::NoFaults nf; NoCopyFaults nc; len = sim::WR(0, 40); str.assign(len, 'a' + v % 20); }
			struct Own { alignas(Big) char b[sizeof(Big)]; Big* p; Own(int v) : p(new (b) Big(v)) { } ~Own() { p->~Big(); } } own(v);
			auto content = [&](int which) { sim::Quiet q; now.assign(1, which); if (which == 1 || which == 4 || which == 5) now.push_back(v); else if (which == 2) for (char ch : str) now.push_back((unsigned char)ch); else { now.push_back(v); now.push_back(v + 1); now.push_back(v); } };
			switch (what)
			{
			case 0: content(1); h = own.p->a; return "assigning an item";
			case 1: content(1); h = std::move(own.p->a); return "moving an item in";
			case 2: content(2); h = str; return "assigning a string";
			case 3: content(2); h = std::move(str); return "moving a string in";
			case 4: content(3); h = *own.p; return "assigning a big object";
			case 5: content(4); h = v; return "assigning a number";
			case 6: content(5); h = (double)v; return "assigning a double";
			case 7: if (Big* i = any_cast<Big>(&h)) { sim::probe("a holder is assigned its own content"); h = *i; } return "assigning its own content";
			case 8: if (std::string* i = any_cast<std::string>(&h)) h = *i; return "assigning its own content";
			default: { content(3); any made(*own.p); h = made; return "assigning a made any"; }
			}
		}
	};

	template < size_t Cap > struct InplaceKind
	{
		typedef inplace_vector<Item, Cap> Holder;
		static const char* Name() { return "inplace_vector"; }
		static bool Shares() { return false; }
		static Content Initial() { return Content(); }
		static Content Look(const Holder& h)
		{
			Content c; for (typename Holder::const_iterator it = h.begin(); it != h.end(); ++it) c.push_back(it->Get());
			bool ok = h.size() == c.size() && h.empty() == c.empty() && h.capacity() >= c.size(); for (size_t i = 0; ok && i < c.size(); ++i) ok = h[i].Get() == c[i];
			Content r; for (typename Holder::const_reverse_iterator it = h.rbegin(); it != h.rend(); ++it) r.insert(r.begin(), it->Get());
			if (!ok || r != c || (!c.empty() && (h.front().Get() != c.front() || h.back().Get() != c.back()))) c.push_back(-5);
			return c;
		}
		static size_t Needs(const Content& c) { return c.size(); }
		static std::vector<Content> Partial(const Content& c) { std::vector<Content> r; for (size_t i = 0; i <= c.size(); ++i) r.push_back(Content(c.begin(), c.begin() + i)); return r; }
		static bool MovedOk(const Content& left, const Content&) { return left.empty() || left[0] == Item::Moved; }
		static const char* Operate(Holder& h, int v, Content& now, std::vector<Content>& partial)
		{
			int what = sim::W(9);
			struct Own { alignas(Item) char b[sizeof(Item)]; Item* p; Own(int v) : p(new (b) Item(v)) { } ~Own() { p->~Item(); } } own(v);
			if (what <= 4) { sim::Quiet q; now.push_back(v); }
			switch (what)
			{
			case 0: case 1: h.push_back(*own.p); return "push_back";
			case 2: h.push_back(std::move(*own.p)); return "push_back of a temporary";
			case 3: h.emplace_back(*own.p); return "emplace_back";
			case 4: h.emplace_back(v); return "emplace_back of a number";
			case 8: if (!h.empty()) { int i = sim::W(h.size()); { sim::Quiet q; now.push_back(now[i]); } h.push_back(h[i]); } return "push_back of its own element";
			case 5: if (sim::WP(20)) { h.clear(); sim::Quiet q; now.clear(); } return "clear";
			case 6: h.reserve(sim::W(12)); return "reserve";
			default:
			{
				std::vector<int> from; { sim::NoFaults nf; sim::Quiet q; int k = v % 7; for (int i = 0; i < k; ++i) from.push_back(v * 10 + i); now.assign(from.begin(), from.end()); partial = Partial(now); }
				h.assign(from.begin(), from.end()); return "assign";
			}
			}
		}
	};

	// A function keeps a copy of the callable it is made of
	struct Callable : public function_info<int (int)>
	{
		Item i; std::string pad; Item j;
		Callable(int v) : i(v), pad(30, 'x'), j(v + 1) { }
		int operator()(int x) const { return pad.size() == 30 && j.Get() == i.Get() + 1 ? i.Get() + x : -100; }
	};
	struct FunctionKind
	{
		struct Holder : function<int (int)> { Holder() : function<int (int)>(&Zero) { } template < typename F > void Set(F&& f) { static_cast<function<int (int)>&>(*this) = function<int (int)>(std::forward<F>(f)); } };
		static int Zero(int x) { return x - 3; }
		static const char* Name() { return "function"; }
		static bool Shares() { return true; }
		static Content Initial() { return Content(1, -3); }
		static Content Look(const Holder& h) { if (Gone(h)) return Content(); return Content(1, h(1000) - 1000); }
		static bool Gone(const Holder& h) { struct Rep { void* p; }; static_assert(sizeof(h) == sizeof(Rep), ""); return !((const Rep&)h).p; }		// moved from
		static size_t Needs(const Content& c) { return c.empty() || c[0] < 0 ? 0 : 2; }
		static std::vector<Content> Partial(const Content&) { return { }; }
		static bool MovedOk(const Content&, const Content&) { return true; }
		static const char* Operate(Holder& h, int v, Content& now, std::vector<Content>&)
		{
			struct Own { alignas(Callable) char b[sizeof(Callable)]; Callable* p; Own(int v) { sim::NoFaults nf; NoCopyFaults nc; p = new (b) Callable(v); } ~Own() { p->~Callable(); } } own(v);
			{ sim::Quiet q; now.assign(1, v); }
			switch (sim::W(3))
			{
			case 0: h.Set(*own.p); return "making a function";
			case 1: h.Set(std::move(*own.p)); return "moving a callable into a function";
			default: { Holder o; o.Set(*own.p); h = o; return "assigning a made function"; }
			}
		}
	};

	// Pointers to objects whose construction may fail
	struct Obj { Item a; std::string s; Item b; Obj(const Item& i) : a(i), s(40, 'y'), b(i) { } };
	struct SharedKind
	{
		typedef shared_ptr<Obj> Holder;
		static const char* Name() { return "shared_ptr"; }
		static bool Shares() { return true; }
		static Content Initial() { return Content(); }
		static Content Look(const Holder& h) { Content c; if (h) { c.push_back(h->a.Get()); if (h->b.Get() != h->a.Get() || h->s.size() != 40) c.push_back(-5); } return c; }
		static size_t Needs(const Content& c) { return c.size() * 2; }
		static std::vector<Content> Partial(const Content&) { return { }; }
		static bool MovedOk(const Content& left, const Content&) { return left.empty(); }
		static const char* Operate(Holder& h, int v, Content& now, std::vector<Content>&)
		{
			struct Own { alignas(Item) char b[sizeof(Item)]; Item* p; Own(int v) : p(new (b) Item(v)) { } ~Own() { p->~Item(); } } own(v);
			{ sim::Quiet q; now.assign(1, v); }
			switch (sim::W(5))
			{
			case 0: h = make_shared_ptr<Obj>(*own.p); return "make_shared_ptr";
			case 1: h.reset(new Obj(*own.p)); return "reset to an object";
			case 2: h = shared_ptr<Obj>(new Obj(*own.p)); return "a pointer to an object";
			case 3: { unique_ptr<Obj> u(make_unique_ptr<Obj>(*own.p)); h = shared_ptr<Obj>(u.release()); return "taking over a unique_ptr"; }
			default: h.reset(); { sim::Quiet q; now.clear(); } return "reset";
			}
		}
	};
}

SIM_SCENARIO(optional_value, 3) { Run<OptionalKind>(); }
SIM_SCENARIO(variant_value, 3) { Run<VariantKind>(); }
SIM_SCENARIO(never_empty_value, 2) { Run<NeverEmptyKind>(); }
SIM_SCENARIO(any_value, 3) { Run<AnyKind>(); }
SIM_SCENARIO(inplace_values, 3) { if (sim::WP(50)) Run<InplaceKind<4> >(); else Run<InplaceKind<1> >(); }
SIM_SCENARIO(function_value, 2) { Run<FunctionKind>(); }
SIM_SCENARIO(shared_value, 2) { Run<SharedKind>(); }
