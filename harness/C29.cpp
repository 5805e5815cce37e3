// C29: factory contexts used by several threads
#include "common.h"
#include <stingraykit/factory/Factory.h>
#include <stingraykit/string/ToString.h>

namespace
{
	struct Ctl { int live = 0, made = 0, throwPct = 0; bool nested = false; FactoryContext* ctx = nullptr; std::string other; int depth = 0; bool slow = false; bool wasThrown = false; };
	Ctl& C() { static Ctl c; return c; }
	struct NoObject : public std::exception { const char* what() const noexcept override { return "no object"; } };

	struct Base : public IFactoryObject
	{
		int* cell; int kind;
		Base(int k) : cell(nullptr), kind(k)
		{
			bool fail = sim::faultsEnabled() && C().throwPct && sim::W(100) < (u32)C().throwPct;
			if (fail) { sim::probe("a constructor throws"); throw NoObject(); }
			sim::point(); if (C().slow) sim::sleepUs(300);
			cell = new int(77 + k); sim::Quiet q; ++C().live; ++C().made;
		}
		~Base() { if (cell) { SIM_CHECK(*cell == 77 + kind, "object", "an object is damaged or destroyed twice"); *cell = 0; delete cell; sim::Quiet q; --C().live; } }
		void Check(int k) { SIM_CHECK(kind == k && cell && *cell == 77 + k, "wrong-class", "an object of class " << kind << " instead of " << k); }
	};
	template < int N > struct Thing : public Base
	{
		unique_ptr<IFactoryObject> inner;
		Thing() : Base(N)
		{
			if (N == 3 && C().ctx) { try { inner = C().ctx->Create<IFactoryObject>("inner"); } catch (const NoObject&) { sim::probe("an inner constructor throws"); throw; } }
		}
		std::string GetClassName() const override { return "Thing" + ToString(N); }
	};
	typedef Thing<7> Inner;

	const std::type_info& InfoOf(int k) { switch (k) { case 0: return typeid(Thing<0>); case 1: return typeid(Thing<1>); case 2: return typeid(Thing<2>); default: return typeid(Thing<3>); } }
	void RegisterIn(FactoryContext& f, int k, const std::string& name)
	{ switch (k) { case 0: f.Register<Thing<0> >(name); break; case 1: f.Register<Thing<1> >(name); break; case 2: f.Register<Thing<2> >(name); break; default: f.Register<Thing<3> >(name); break; } }

	struct Reg { std::string name; int kind; u64 b, e; bool ok, failed; };		// ok: returned; failed: refused as registered already
	struct Hub { std::deque<Reg> regs[2]; };		// of the base and of the derived context

	enum Result { Made, Unknown, Threw, NoMemory };
	Result Make(const FactoryContext& f, const std::string& name, int& kind, bool memory)
	{
		try
		{
			unique_ptr<IFactoryObject> o;
			if (memory) { sim::AllocFaults a(60); o = f.Create<IFactoryObject>(name); } else o = f.Create<IFactoryObject>(name);
			Base* b = dynamic_cast<Base*>(o.get()); SIM_CHECK(b, "wrong-class", "not an object of the harness");
			kind = b->kind; b->Check(b->kind); sim::point(); b->Check(kind);
			return Made;
		}
		catch (const NoObject&) { return Threw; }
		catch (const std::bad_alloc&) { sim::probe("no memory while creating"); return NoMemory; }
		catch (const std::exception&) { return Unknown; }
	}

	void Contexts(bool failing)
	{
		SilenceLog();
		C() = Ctl(); C().throwPct = failing ? 15 : 0; C().slow = sim::WP(30);
		FactoryContextPtr base = make_shared_ptr<FactoryContext>(), derived = make_shared_ptr<FactoryContext>(base);
		base->Register<Inner>("inner"); C().ctx = base.get();
		Hub hub; Hub* ph = &hub; Clients cs; int n = sim::WR(2, 4);
		for (int c = 0; c < n; ++c)
			Spawn(cs, "client", [ph, base, derived, failing]
			{
				static const char* names[] = { "a", "b", "c", "dd", "a name which is too long for a short string", "another name which is too long for it" };
				for (int i = 0, ops = sim::WR(1, 6); i < ops; ++i)
				{
					int at = sim::W(2); const FactoryContextPtr& f = at ? derived : base; std::string name = names[sim::W(6)];
					switch (sim::W(5))
					{
					case 0: case 1:
						{
							int k = sim::W(4); Reg* r; { sim::Quiet q; ph->regs[at].push_back(Reg{ name, k, sim::seq(), 0, false, false }); r = &ph->regs[at].back(); }
							for (int tries = 0; tries < 6; ++tries)		// what failed for lack of memory is tried again
								try
								{
									if (failing && tries < 5) { sim::AllocFaults a(80); RegisterIn(*f, k, name); } else RegisterIn(*f, k, name);
									r->ok = true; break;
								}
								catch (const std::bad_alloc&) { sim::probe("no memory while registering"); }
								catch (const std::exception& e) { r->failed = true; break; }
							sim::Quiet q; r->e = sim::seq();
							break;
						}
					case 2: case 3:
						{
							u64 b = sim::seq(); int kind = -1; Result res = Make(*f, name, kind, failing && sim::WP(40)); u64 e = sim::seq();
							sim::Quiet q;
							if (res == Threw || res == NoMemory) break;
							bool inDerived = false, maybeDerived = false, inBase = false; std::set<int> kinds;
							for (int w = 1; w >= 0; --w)
							{
								if (w > at) continue;
								if (w == 0 && inDerived) continue;
								for (auto& r : ph->regs[w])
									if (r.name == name && r.b < e && !r.failed) { kinds.insert(r.kind); if (w && at) maybeDerived = true; if (r.ok && r.e && r.e < b) (w && at ? inDerived : inBase) = true; }
							}
							(void)maybeDerived;
							if (res == Made) SIM_CHECK(kinds.count(kind), "wrong-class", "an object of class " << kind << " is created for " << name << ", never registered so");
							else SIM_CHECK(!inDerived && !inBase, "not-created", "an object registered as " << name << " cannot be created");
							break;
						}
					default:
						{
							int k = sim::W(4); u64 b = sim::seq(); std::string got; try { got = f->GetClassName(InfoOf(k)); } catch (const std::bad_alloc&) { break; } catch (const std::exception&) { } u64 e = sim::seq();
							sim::Quiet q; bool sure = false, may = false;
							for (int w = 0; w <= at; ++w) for (auto& r : ph->regs[w]) if (r.kind == k) { if (r.ok && r.e && r.e < b) sure = true; if (r.b < e && !r.failed && r.name == got) may = true; }
							if (got.empty()) SIM_CHECK(!sure, "no-class-name", "a registered class has no name"); else SIM_CHECK(may, "wrong-class-name", "the name of class " << k << " is " << got);
						}
					}
				}
			});
		JoinAll(cs);
		// in the end: one registration per name won, and names are those of the first registration of a class
		C().throwPct = 0; std::deque<Reg>* all = hub.regs;
		for (int at = 0; at < 2; ++at)
		{
			std::map<std::string, std::vector<const Reg*> > byName; { sim::Quiet q; for (auto& r : all[at]) byName[r.name].push_back(&r); }
			for (auto& x : byName)
			{
				int won = 0, kind = -1; const Reg* w = nullptr; for (auto* r : x.second) if (r->ok) { ++won; kind = r->kind; w = r; }
				SIM_CHECK(won == 1, "registrations", won << " registrations of the name " << x.first << " out of " << x.second.size() << " succeeded");
				for (auto* r : x.second) if (r->e < w->b) SIM_CHECK(false, "registrations", "the name " << x.first << " was refused although it was not registered yet");
				int got = -1; Result res = Make(at ? *derived : *base, x.first, got, false);
				SIM_CHECK(res == Made && got == kind, "wrong-class", "in the end " << x.first << " creates class " << got << " instead of " << kind);
			}
			for (int k = 0; k < 4; ++k)
			{
				std::set<std::string> may; bool any = false;
				{
					sim::Quiet q; u64 firstEnd = ~0ull; for (auto& r : all[at]) if (r.kind == k && r.ok) { any = true; firstEnd = std::min(firstEnd, r.e); }
					for (auto& r : all[at]) if (r.kind == k && r.ok && r.b < firstEnd) may.insert(r.name);
				}
				if (!any) continue;
				std::string got; try { got = (at ? derived : base)->GetClassName(InfoOf(k)); } catch (const std::exception& e) { SIM_CHECK(false, "no-class-name", "a registered class has no name: " << e.what()); }
				SIM_CHECK(may.count(got), "wrong-class-name", "the name of class " << k << " is " << got << " in the end");
			}
		}
		derived.reset(); base.reset();
		SIM_CHECK(C().live == 0, "object-leak", C().live << " objects are left");
	}

	void Instance()
	{
		SilenceLog();
		C() = Ctl(); C().slow = sim::WP(50);
		Clients cs; int n = sim::WR(2, 4);
		for (int c = 0; c < n; ++c)
			Spawn(cs, "client", [c]
			{
				std::string own; { sim::Quiet q; own = "own" + std::to_string(c); }
				int k = -1;
				try { unique_ptr<Thing<1> > t = Factory::Instance().Create<Thing<1> >("root"); t->Check(1); } catch (const std::exception& e) { SIM_CHECK(false, "not-created", "a class registered by the factory itself cannot be created: " << e.what()); }
				Factory::Instance().Register<Thing<2> >(own);
				SIM_CHECK(Make(*Factory::Instance().GetRootContext(), own, k, false) == Made && k == 2, "not-created", "a class just registered cannot be created");
				bool refused = false; try { Factory::Instance().Register<Thing<0> >("root"); } catch (const std::exception&) { refused = true; }
				SIM_CHECK(refused, "registrations", "a name is registered twice");
				bool wrong = false; try { Factory::Instance().Create<Thing<0> >("root"); } catch (const std::exception&) { wrong = true; }
				SIM_CHECK(wrong, "wrong-class", "an object of another class is handed out");
			});
		JoinAll(cs);
		SIM_CHECK(C().live == 0, "object-leak", C().live << " objects are left");
	}
}

namespace stingray { void Factory::RegisterTypes(const FactoryContextPtr& c) { c->Register<Thing<1> >("root"); } }

SIM_SCENARIO(contexts, 2) { Contexts(false); }
SIM_SCENARIO(failing, 2) { Contexts(true); }
SIM_SCENARIO(instance, 1) { Instance(); }
