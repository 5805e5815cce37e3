// C12: shared_ptr, weak_ptr, unique_ptr handover, make_shared_ptr, self_count_ptr, ref_count
#include "common.h"
#include <stingraykit/shared_ptr.h>
#include <stingraykit/unique_ptr.h>
#include <stingraykit/self_counter.h>
#include <stingraykit/ref_count.h>
#include <stingraykit/dynamic_caster.h>

namespace
{
	const int MaxThreads = 5;

	// What the oracle knows about one object
	struct Info
	{
		int id = 0; bool constructed = false, dying = false, destroyed = false; int destructions = 0;
		int holds = 0;						// owners registered after they were acquired and unregistered before they are released
		int written = 0;
		int deleterRuns = 0; bool hasDeleter = false;
	};
	std::vector<std::unique_ptr<Info>>& Infos() { static std::vector<std::unique_ptr<Info>> v; return v; }
	Info* NewInfo() { sim::Quiet q; Infos().emplace_back(new Info); Infos().back()->id = (int)Infos().size(); return Infos().back().get(); }

	struct IFace { virtual ~IFace() { } virtual int Number() const = 0; };
	struct Obj : public IFace
	{
		Info* I; int* Cells; int Member; weak_ptr<Obj> Self; std::function<void ()> OnDestroy;
		Obj(Info* i, bool ctorThrows) : I(i), Cells(new int[MaxThreads]), Member(i->id)
		{
			for (int k = 0; k < MaxThreads; ++k) Cells[k] = 0;
			if (ctorThrows) { delete[] Cells; throw std::runtime_error("constructor"); }
			sim::Quiet q; I->constructed = true;
		}
		~Obj()
		{
			{
				sim::Quiet q;
				SIM_CHECK(!I->dying, "destroyed-twice", "an object is destroyed twice");
				SIM_CHECK(I->holds == 0, "destroyed-early", "an object is destroyed while it still has " << I->holds << " owners");
				I->dying = true; ++I->destructions;
			}
			shared_ptr<Obj> s(Self.lock());
			SIM_CHECK(!s, "resurrected", "a weak pointer gave an owner of an object being destroyed");
			int sum = 0;
			for (int k = 0; k < MaxThreads; ++k) { sum += Cells[k]; Cells[k] = -1000; }
			if (OnDestroy) OnDestroy();
			delete[] Cells;
			sim::Quiet q; I->destroyed = true;
			SIM_CHECK(sum == I->written, "lost-write", "the destructor does not see what owners wrote: " << sum << " of " << I->written);
		}
		int Number() const override { return I->id; }
		void Touch(int thread)
		{
			{ sim::Quiet q; SIM_CHECK(!I->dying, "use-after-destruction", "an owner's object is destroyed"); ++I->written; }
			++Cells[thread];
		}
	};
	struct Derived : public Obj { int Extra; Derived(Info* i, bool t) : Obj(i, t), Extra(i->id) { } };

	struct Deleter
	{
		Info* I; int* Cell;
		explicit Deleter(Info* i) : I(i), Cell(new int(3)) { }
		Deleter(const Deleter& o) : I(o.I), Cell(new int(*o.Cell)) { }
		~Deleter() { *Cell = 0; delete Cell; }
		void operator () (Obj* p) const { SIM_CHECK(*Cell == 3, "deleter-gone", "the deleter was destroyed before use"); { sim::Quiet q; ++I->deleterRuns; } delete p; }
	};

	typedef shared_ptr<Obj> Ptr; typedef weak_ptr<Obj> Weak;

	void Register(const Ptr& p, int n) { if (p) { sim::Quiet q; p.get()->I->holds += n; } }

	// An owner which tells the oracle
	struct Owner
	{
		Ptr p; Info* i = nullptr;
		void Took() { sim::Quiet q; i = p ? p.get()->I : nullptr; if (i) ++i->holds; }
		void Leave() { sim::Quiet q; if (i) --i->holds; i = nullptr; }
	};

	Ptr Create(int how)
	{
		Info* i = NewInfo();
		Ptr r;
		try
		{
			sim::AllocFaults af(how & 8 ? 200 : 0);
			switch (how % 8)
			{
			case 0: r = Ptr(new Obj(i, false)); break;
			case 1: r = make_shared_ptr<Obj>(i, false); break;
			case 2: r = make_shared_ptr<Derived>(i, false); break;
			case 3: { sim::Quiet q; i->hasDeleter = true; } { Deleter d(i); Obj* o = new Obj(i, false); r = Ptr(o, d); } break;
			case 4: { unique_ptr<Derived> u(new Derived(i, false)); r = std::move(u); SIM_CHECK(!u, "unique-kept", "unique_ptr kept an object handed over"); } break;
			case 5: { unique_ptr<Obj> u(new Obj(i, false)); r = Ptr(std::move(u)); } break;
			case 6: r.reset(new Obj(i, false)); break;
			case 7: r = make_shared_ptr<Obj>(i, sim::WP(50)); break;
			}
		}
		catch (const std::bad_alloc&) { sim::probe("allocation failed while creating an owner"); }
		catch (const std::runtime_error&) { sim::probe("constructor threw"); }
		sim::Quiet q;
		if (!r) SIM_CHECK(i->constructed == (i->destructions == 1), "leak", "an object is not destroyed though creating its owner failed (" << how << ")");
		else SIM_CHECK(i->destructions == 0, "destroyed-early", "an object is destroyed though its owner exists");
		return r;
	}

	void Threads()
	{
		SilenceLog();
		{ sim::Quiet q; Infos().clear(); }
		Mutex mx; Mutex* pm = &mx;
		std::vector<Owner> box(3); auto* pb = &box;						// owners handed over between threads, under the mutex
		std::vector<Owner> sources(sim::WR(1, 2)); auto* ps = &sources;	// only read, copied by everybody
		std::vector<Weak> weaks; auto* pw = &weaks;
		for (auto& s : sources)
		{
			s.p = Create(sim::W(8)); s.Took(); if (!s.p) continue;
			if (sim::WP(70)) s.p->Self = s.p;
			weaks.push_back(Weak(s.p));
		}
		Clients cs;
		int nt = sim::WR(2, 3);
		bool dropSources = sim::WP(70);
		for (int t = 0; t < nt; ++t)
			Spawn(cs, "owner", [=]
			{
				std::vector<Owner> own(3); std::vector<Weak> w(2);
				int steps = sim::WR(1, 14);
				// a first private copy of the sources; the root drops them later
				for (int k = 0; k < steps; ++k)
				{
					Owner& a = own[sim::W(3)]; Owner& b = own[sim::W(3)]; Weak& wk = w[sim::W(2)];
					switch (sim::W(18))
					{
					case 0: if (!a.i) { a.p = Create(sim::W(16)); a.Took(); if (a.p && sim::WP(50)) a.p->Self = a.p; } break;
					case 1: if (&a != &b) { Ptr keep(a.p); { sim::Quiet q; if (keep) ++keep.get()->I->holds; } a.Leave(); a.p = b.p; a.Took(); { sim::Quiet q; if (keep) --keep.get()->I->holds; } } break;
					case 2: if (&a != &b && b.i) { a.Leave(); Info* i; { sim::Quiet q; i = b.i; b.i = nullptr; a.i = i; } a.p = std::move(b.p);
						SIM_CHECK(!b.p && a.p.get() && a.p.get()->I == i, "move", "moving an owner does not hand it over"); } break;
					case 3: a.Leave(); a.p.reset(); SIM_CHECK(!a.p, "reset", "reset leaves the owner set"); break;
					case 4: { MutexLock l(*pm); Owner& x = (*pb)[sim::W(3)]; a.p.swap(x.p); std::swap(a.i, x.i); } break;
					case 5: { MutexLock l(*pm); Owner& x = (*pb)[sim::W(3)]; if (!a.i) { a.p = x.p; a.Took(); } } break;
					case 6: if (a.i) wk = a.p; break;
					case 7: if (a.i) { Weak w2(a.p); wk = std::move(w2); } break;
					case 8: wk.reset(); break;
					case 9: case 10:
					{
						if (sim::WP(30) && !pw->empty()) wk = (*pw)[sim::W((u32)pw->size())];
						Info* mine = nullptr; bool gone;
						Owner o; o.p = wk.lock();
						if (o.p) { o.Took(); { sim::Quiet q; SIM_CHECK(!o.i->dying, "resurrected", "a weak pointer gave an owner of an object being destroyed"); mine = o.i; gone = false; } o.p->Touch(t); SIM_CHECK(!wk.expired(), "expired", "a weak pointer is expired while the object has an owner"); (void)mine; (void)gone; o.Leave(); }
						break;
					}
					case 11:
						if (a.i)
						{
							Info* i = a.i;
							Weak w2(a.p);
							{ Owner o; o.p = w2.lock(); SIM_CHECK(bool(o.p) && o.p.get() == a.p.get(), "not-promoted", "a weak pointer of an object with an owner is not promoted"); o.Took(); o.Leave(); }
							a.Leave();
							bool u = a.p.release_if_unique();
							if (u)
							{
								sim::probe("unique release");
								sim::Quiet q; SIM_CHECK(i->destroyed, "not-destroyed", "a unique release did not destroy the object"); SIM_CHECK(!a.p, "unique-kept", "a unique release keeps the pointer");
								SIM_CHECK(i->holds == 0, "destroyed-early", "a unique release succeeded though there is another owner");
							}
							else { a.Took(); SIM_CHECK(a.i == i, "unique-lost", "a failed unique release drops the owner"); }
							if (u) SIM_CHECK(!w2.lock() && w2.expired(), "resurrected", "a weak pointer is promoted after a unique release");
						}
						break;
					case 12:
						if (a.i)
						{
							shared_ptr<int> alias(a.p, &a.p->Member); int id = a.i->id; { sim::Quiet q; ++a.i->holds; }
							shared_ptr<const IFace> base(a.p); Info* i = a.i;
							if (sim::WP(50)) { a.Leave(); a.p.reset(); }
							SIM_CHECK(*alias == id && base->Number() == id, "alias", "an aliasing owner does not keep the object");
							{ sim::Quiet q; --i->holds; }
							if (sim::WP(50)) alias.reset(); else base.reset();
						}
						break;
					case 13:
						if (a.i)
						{
							shared_ptr<IFace> f(a.p); { sim::Quiet q; ++a.i->holds; }
							shared_ptr<Derived> d = DynamicCast<shared_ptr<Derived>>(f);
							if (d) SIM_CHECK(d->Extra == d->I->id, "cast", "a cast owner points elsewhere");
							Info* i = a.i;
							if (d && sim::WP(50)) { shared_ptr<Derived> d2(std::move(d)); SIM_CHECK(!d, "move", "moving leaves the source"); }
							sim::Quiet q; --i->holds;
						}
						break;
					case 14:
						if (a.i)
						{
							int own1; { sim::Quiet q; own1 = 1; }
							size_t uc = a.p.use_count();
							SIM_CHECK((int)uc >= own1, "use-count", "an owned object has use count " << uc);
						}
						break;
					default:
						if (a.i) a.p->Touch(t);
						else if (!ps->empty()) { MutexLock l(*pm); Owner& s = (*ps)[sim::W((u32)ps->size())]; a.p = s.p; a.Took(); }
						break;
					}
				}
				for (auto& o : own) { if (o.i && sim::WP(50)) o.p->Touch(t); o.Leave(); o.p.reset(); }
			});
		if (dropSources)
		{
			if (sim::WP(50)) sim::sleepUs(sim::W(4) * 200);
			MutexLock l(mx);
			for (auto& s : sources) { Ptr tmp; s.Leave(); tmp.swap(s.p); tmp.reset(); }
		}
		JoinAll(cs);
		for (auto& b : box) { if (b.i) SIM_CHECK((int)b.p.use_count() == b.i->holds, "use-count", "use count " << b.p.use_count() << " though there are " << b.i->holds << " owners"); }
		for (auto& b : box) b.Leave();
		for (auto& s : sources) s.Leave();
		// with nobody else around a unique owner can be released uniquely
		for (auto& b : box)
			if (b.p && b.p.use_count() == 1) { Info* i = b.p.get()->I; SIM_CHECK(b.p.release_if_unique() && i->destroyed, "not-unique", "the only owner cannot be released uniquely"); }
			else b.p.reset();
		sources.clear();
		{
			sim::Quiet q;
			for (auto& i : Infos())
			{
				SIM_CHECK(!i->constructed || i->destructions == 1, "leak", "object " << i->id << " was destroyed " << i->destructions << " times after its last owner was gone");
				SIM_CHECK(!i->constructed || !i->hasDeleter || i->deleterRuns == 1, "deleter", "the deleter ran " << i->deleterRuns << " times");
			}
		}
		for (auto& w : weaks) SIM_CHECK(w.expired() && !w.lock(), "resurrected", "a weak pointer of a destroyed object is promoted");
	}
	SIM_SCENARIO(threads, 50) { Threads(); }

	// Promotion races with the release of the last owner
	void LastRelease()
	{
		SilenceLog();
		{ sim::Quiet q; Infos().clear(); }
		int rounds = sim::WR(1, 4);
		for (int r = 0; r < rounds; ++r)
		{
			Owner o; o.p = Create(sim::W(7)); o.Took();
			if (!o.p) continue;
			Info* i = o.i; if (sim::WP(50)) o.p->Self = o.p;
			Clients cs; bool uniq = sim::WP(30);
			int n = sim::WR(1, 3);
			int fails = 0; int* pf = &fails; (void)pf;
			std::vector<Weak> ws(n, Weak(o.p));
			for (int c = 0; c < n; ++c)
			{
				Weak* w = &ws[c];
				bool dropWeak = sim::WP(40);
				Spawn(cs, "locker", [=]
				{
					int k = sim::WR(1, 3);
					for (int j = 0; j < k; ++j)
					{
						Owner m; bool dead; { sim::Quiet q; dead = i->dying; }
						m.p = w->lock();
						if (m.p)
						{
							m.Took();
							SIM_CHECK(!dead, "resurrected", "a weak pointer gave an owner after destruction had begun");
							m.p->Touch(c); Info* mi = m.i; m.Leave();
							if (uniq && m.p.release_if_unique()) { sim::Quiet q; SIM_CHECK(mi->destroyed && mi->holds == 0, "destroyed-early", "a unique release succeeded with other owners"); sim::probe("promoted owner released uniquely"); }
						}
						else { sim::Quiet q; SIM_CHECK(i->holds == 0, "not-promoted", "a weak pointer of an object with an owner is not promoted"); }
					}
					if (dropWeak) w->reset();
				});
			}
			if (sim::WP(50)) sim::point();
			o.p->Touch(4); o.Leave();
			if (uniq) { while (!o.p.release_if_unique()) sim::sleepUs(20); }
			else o.p.reset();
			JoinAll(cs);
			sim::Quiet q;
			SIM_CHECK(i->destructions == 1, "leak", "an object was destroyed " << i->destructions << " times");
		}
	}
	SIM_SCENARIO(lastRelease, 25) { LastRelease(); }

	// Objects that release each other from their destructors
	void Chains()
	{
		SilenceLog();
		{ sim::Quiet q; Infos().clear(); }
		int n = sim::WR(2, 5);
		std::vector<Ptr> v;
		for (int k = 0; k < n; ++k) { Ptr p = Create(sim::W(7)); if (p) v.push_back(p); }
		for (size_t k = 0; k < v.size(); ++k)
		{
			Ptr next = k + 1 < v.size() ? v[k + 1] : Ptr(); Weak back(v[0]);
			v[k]->Self = v[k];
			v[k]->OnDestroy = [next, back] { Ptr b(back.lock()); if (b) b->Touch(0); };
		}
		Clients cs; auto* pv = &v;
		int nt = sim::WR(1, 3);
		for (int t = 0; t < nt; ++t)
		{
			std::vector<Ptr>* mine = new std::vector<Ptr>;
			for (auto& p : v) if (sim::WP(60)) mine->push_back(p);
			Spawn(cs, "dropper", [=] { for (auto& p : *mine) { p->Touch(t + 1); p.reset(); } delete mine; });
		}
		for (size_t k = v.size(); k--; ) pv->erase(pv->begin() + sim::W((u32)pv->size()));
		JoinAll(cs);
		sim::Quiet q;
		for (auto& i : Infos()) SIM_CHECK(!i->constructed || i->destructions == 1, "leak", "an object in a chain was destroyed " << i->destructions << " times");
	}
	SIM_SCENARIO(chains, 10) { Chains(); }

	// self_count_ptr
	struct Counted : public self_counter<Counted>
	{
		Info* I; int* Cells;
		explicit Counted(Info* i) : I(i), Cells(new int[MaxThreads]()) { sim::Quiet q; i->constructed = true; }
		~Counted()
		{
			{ sim::Quiet q; SIM_CHECK(!I->dying, "destroyed-twice", "a self counted object is destroyed twice"); SIM_CHECK(I->holds == 0, "destroyed-early", "a self counted object is destroyed while it has owners"); I->dying = true; ++I->destructions; }
			int sum = 0; for (int k = 0; k < MaxThreads; ++k) { sum += Cells[k]; Cells[k] = -1000; }
			delete[] Cells;
			sim::Quiet q; SIM_CHECK(sum == I->written, "lost-write", "the destructor does not see what owners wrote");
		}
		void Touch(int t) { { sim::Quiet q; SIM_CHECK(!I->dying, "use-after-destruction", "an owner's object is destroyed"); ++I->written; } ++Cells[t]; }
	};
	typedef self_count_ptr<Counted> SPtr; typedef self_count_ptr<const Counted> SCPtr;

	void SelfCounted()
	{
		SilenceLog();
		{ sim::Quiet q; Infos().clear(); }
		Info* i = NewInfo();
		SPtr root(make_self_count_ptr<Counted>(i));
		Clients cs; int nt = sim::WR(2, 4);
		for (int t = 0; t < nt; ++t)
		{
			SPtr* mine = new SPtr(root); { sim::Quiet q; ++i->holds; }
			Spawn(cs, "owner", [=]
			{
				SPtr a(std::move(*mine)); SIM_CHECK(!*mine, "move", "moving leaves the source"); delete mine;
				int k = sim::W(5);
				for (int j = 0; j < k; ++j)
					switch (sim::W(5))
					{
					case 0: { SPtr b(a); b->Touch(t); break; }
					case 1: { SPtr b; b = a; SPtr c(b); c->Touch(t); b.reset(); break; }
					case 2: { SPtr b(a->self_count_ptr_from_this()); b->Touch(t); SCPtr c(b); SIM_CHECK(c.get() == a.get(), "copy", "a converted owner points elsewhere"); break; }
					case 3: { SPtr b(a); SCPtr c(std::move(b)); SIM_CHECK(!b, "move", "moving leaves the source"); break; }
					case 4: a->Touch(t); break;
					}
				{ sim::Quiet q; --i->holds; }
			});
		}
		if (sim::WP(50)) root->Touch(4);
		if (sim::WP(70)) root.reset();
		JoinAll(cs);
		if (root) SIM_CHECK(root.unique(), "use-count", "the only owner is not unique: " << root.use_count());
		root.reset();
		sim::Quiet q; SIM_CHECK(i->destructions == 1, "leak", "a self counted object was destroyed " << i->destructions << " times");
	}
	SIM_SCENARIO(selfCounted, 15) { SelfCounted(); }

	// ref_count: handles share a counter and its data, which live exactly as long as there is a handle
	struct UserData
	{
		int* Live; int Value;
		UserData(int* live, int v) : Live(live), Value(v) { ++*Live; }
		UserData(const UserData& o) : Live(o.Live), Value(o.Value) { ++*Live; }
		~UserData() { --*Live; Value = -1; }
	};
	typedef basic_ref_count<UserData> Rc;

	void RefCount()
	{
		SilenceLog();
		int live = 0, disposals = 0, *cells = new int[MaxThreads + 1](), *pd = &disposals, *pl = &live; const int value = (int)sim::W(1000);
		bool uniqueTries = sim::WP(40);
		{
			Rc root(UserData(pl, value)), *none = new Rc(null);
			SIM_CHECK(none->IsNull() && !root.IsNull(), "null", "a counter is null or not null wrongly");
			Clients cs; int nt = sim::WR(2, 4);
			for (int t = 0; t < nt; ++t)
			{
				Rc* mine = new Rc(root);
				const u32 c = root.add_ref();
				SIM_CHECK(c >= 2, "count", "adding of a reference to a live object gives " << c);
				Spawn(cs, "owner", [=]
				{
					{
						Rc a(null);
						if (sim::WP(50)) a = *mine; else a.swap(*mine);
						delete mine;
						for (int j = 0, k = sim::W(5); j < k; ++j)
							switch (sim::W(4))
							{
							case 0: { Rc b(a); SIM_CHECK(b.GetUserData().Value == value, "use-after-destruction", "the data of a counter is destroyed although it has a handle"); break; }
							case 1: { Rc b(null); b = a; Rc d(b); b = Rc(null); SIM_CHECK(d.GetUserData().Value == value && d.get_ptr() == a.get_ptr(), "copy", "a copy counts something else"); break; }
							case 2: { Rc b(a); const u32 n = b.add_ref(); SIM_CHECK(n >= 2, "count", "adding a reference to a live object gives " << n); ++cells[t]; const u32 m = b.release(); SIM_CHECK(m >= 1, "destroyed-early", "the count reached zero although there is an owner"); break; }
							case 3: { ++cells[t]; Rc b(a); a = b; a = a; break; }
							}
						bool last = false;
						if (uniqueTries && sim::WP(60)) { if (a.release_if_unique()) last = true; else last = a.release() == 0; }
						else last = a.release() == 0;
						if (last)
						{
							{ sim::Quiet q; SIM_CHECK(++*pd == 1, "destroyed-twice", "the count reached zero twice"); }
							int sum = 0; for (int k = 0; k <= MaxThreads; ++k) sum += cells[k];	// racy unless releasing orders the accesses of owners
							(void)sum; delete[] cells;
						}
						SIM_CHECK(a.GetUserData().Value == value, "use-after-destruction", "the data of a counter is destroyed although it has a handle");
					}
				});
			}
			++cells[MaxThreads];
			if (root.release() == 0)
			{
				{ sim::Quiet q; SIM_CHECK(++disposals == 1, "destroyed-twice", "the count reached zero twice"); }
				int sum = 0; for (int k = 0; k <= MaxThreads; ++k) sum += cells[k];
				(void)sum; delete[] cells;
			}
			if (sim::WP(50)) root = *none;
			JoinAll(cs);
			delete none;
		}
		SIM_CHECK(disposals == 1, "leak", "the count reached zero " << disposals << " times");
		SIM_CHECK(live == 0, "leak", "the data of a counter without handles: " << live << " alive");
	}
	SIM_SCENARIO(refCount, 10) { RefCount(); }
}

// The destructor of an object looks at the owner through which it is released: the owner must not point at the dying object any more, and may be used and released again
namespace
{
	struct LookState { int live = 0, looks = 0; std::function<void (int)> look; };
	template < typename PtrT, typename MakeT > void DestructorLooks(const MakeT& make)
	{
		SilenceLog();
		LookState s; LookState* ps = &s;
		int n = sim::WR(1, 4), made = 0;
		{
			PtrT slot, spare; PtrT* slots = &slot; int next = 0;
			s.look = [=, &spare](int id)
			{
				++ps->looks;
				if (*slots) { int other = (*slots)->Id(); SIM_CHECK(other != id, "use-after-destruction", "an owner still points at the object which is being destroyed"); }
				switch (sim::W(4))
				{
				case 0: slots->reset(); break;
				case 1: { PtrT copy(*slots); copy = spare; break; }
				case 2: { PtrT x; x.swap(*slots); break; }
				}
			};
			for (int i = 0; i < n; ++i)
			{
				slot = make(ps, ++next); ++made;
				if (sim::WP(30)) { spare = make(ps, ++next); ++made; }
				PtrT keep; if (sim::WP(30)) keep = slot;
				switch (sim::W(6))
				{
				case 0: slot.reset(); break;
				case 1: slot = null; break;
				case 2: slot = spare; break;
				case 3: slot = std::move(spare); break;
				case 4: { PtrT x(std::move(slot)); SIM_CHECK(!slot, "move", "moving leaves the source"); break; }
				case 5: { PtrT x; slot.swap(x); break; }
				}
				if (slot) (void)slot->Id();
			}
			spare.reset();
			slot.reset();
		}
		SIM_CHECK(s.live == 0 && s.looks == made, "leak", s.live << " objects are left, " << s.looks << " of " << made << " were destroyed");
	}
	struct Looker { LookState* S; int N; Looker(LookState* s, int n) : S(s), N(n) { ++S->live; } ~Looker() { S->look(N); --S->live; N = -1; } int Id() const { SIM_CHECK(N > 0, "use-after-destruction", "an owner's object is destroyed"); return N; } };
	struct CountedLooker : public self_counter<CountedLooker>
	{ LookState* S; int N; CountedLooker(LookState* s, int n) : S(s), N(n) { ++S->live; } ~CountedLooker() { S->look(N); --S->live; N = -1; } int Id() const { SIM_CHECK(N > 0, "use-after-destruction", "an owner's object is destroyed"); return N; } };
}

SIM_SCENARIO(reentrant, 6)
{
	if (sim::WP(50)) DestructorLooks<shared_ptr<Looker> >([](LookState* s, int n) { return sim::WP(50) ? shared_ptr<Looker>(new Looker(s, n)) : make_shared_ptr<Looker>(s, n); });
	else DestructorLooks<self_count_ptr<CountedLooker> >([](LookState* s, int n) { return self_count_ptr<CountedLooker>(new CountedLooker(s, n)); });
}
