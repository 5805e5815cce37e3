// Items whose lives are registered and whose copies may fail: the contents of containers and holders under test.
#ifndef VERIF_ITEMS_H
#define VERIF_ITEMS_H
#include "common.h"

struct CopyFailed : public std::runtime_error { CopyFailed() : std::runtime_error("copy failed") { } };
struct OddFailure { };			// what a copy throws is not always a std::exception

struct Items
{
	static std::map<const void*, int>& Live() { static std::map<const void*, int>& m = *new std::map<const void*, int>; return m; }
	static unsigned& Permille() { static unsigned n = 0; return n; }		// copies fail with this probability
	static int& Thread() { static int n = 0; return n; }				// those of this thread
	static unsigned& Failures() { static unsigned n = 0; return n; }
	static bool& Odd() { static bool b = false; return b; }
	static size_t Count() { sim::Quiet q; return Live().size(); }

	static void Born(const void* p, int v)
	{ sim::Quiet q; SIM_CHECK(Live().insert(std::make_pair(p, v)).second, "lifetime", "an item is constructed where one lives already"); }
	static void Died(const void* p)
	{ sim::Quiet q; SIM_CHECK(Live().erase(p), "lifetime", "an item is destroyed which does not live"); }
	static void Used(const void* p)
	{ sim::Quiet q; SIM_CHECK(Live().count(p), "lifetime", "an item is used which does not live"); }
	static void MayFail()
	{
		unsigned n; { sim::Quiet q; n = Thread() == sim::self() ? Permille() : 0; }
		if (!n || !sim::fault("copy-fails", n)) return;
		bool odd; { sim::Quiet q; ++Failures(); odd = Odd(); }
		if (odd) throw OddFailure();
		throw CopyFailed();
	}
};

// Copies may fail, moves do not
struct Item
{
	enum { Moved = -1 };
	int V;

	Item() : V(0) { Items::Born(this, 0); }
	Item(int v) : V(v) { Items::Born(this, v); }
	Item(const Item& o) : V(o.Get()) { Items::MayFail(); Items::Born(this, V); }
	Item(Item&& o) noexcept : V(o.Get()) { o.V = Moved; Items::Born(this, V); }
	~Item() { Items::Died(this); V = -77; }
	Item& operator = (const Item& o) { Items::Used(this); int v = o.Get(); Items::MayFail(); V = v; return *this; }
	Item& operator = (Item&& o) noexcept { Items::Used(this); int v = o.Get(); if (this != &o) o.V = Moved; V = v; return *this; }
	int Get() const { Items::Used(this); return V; }
};
inline bool operator < (const Item& a, const Item& b) { return a.Get() < b.Get(); }
inline bool operator > (const Item& a, const Item& b) { return b < a; }
inline bool operator == (const Item& a, const Item& b) { return a.Get() == b.Get(); }
inline bool operator != (const Item& a, const Item& b) { return a.Get() != b.Get(); }

// The copies of this scope may fail
struct CopyFaults
{
	unsigned _prev;
	CopyFaults(unsigned permille) { sim::Quiet q; _prev = Items::Permille(); Items::Permille() = permille; Items::Thread() = sim::self(); }
	~CopyFaults() { sim::Quiet q; Items::Permille() = _prev; }
};
struct NoCopyFaults : CopyFaults { NoCopyFaults() : CopyFaults(0) { } };

// Runs an operation in which copies and allocations may fail; false if it failed. Anything else it throws is a violation.
template < typename F > bool Tries(unsigned permille, const F& f)
{
	try { if (!permille) { f(); return true; } sim::AllocFaults a(permille); CopyFaults c(permille); f(); return true; }
	catch (const CopyFailed&) { }
	catch (const OddFailure&) { }
	catch (const std::bad_alloc&) { }
	catch (const std::exception& ex) { std::string what; { sim::NoFaults nf; sim::Quiet q; what = ex.what(); } SIM_CHECK(false, "broken", "an operation throws: " << what); }
	return false;
}
#endif
