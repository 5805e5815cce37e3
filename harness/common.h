// Shared helpers of the harnesses.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include "sim.h"
#include <map>
#include <set>
#include <deque>
#include <list>
#include <memory>
#include <algorithm>
#include <stingraykit/function/function.h>
#include <stingraykit/function/bind.h>
#include <stingraykit/log/Logger.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/ConditionVariable.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/collection/IEnumerable.h>

using namespace stingray;

template < typename Sig, typename F > stingray::function<Sig> Fn(F&& f) { return stingray::function<Sig>(std::function<Sig>(std::forward<F>(f))); }
typedef std::unique_ptr<sim::Client> ClientPtr;
typedef std::vector<ClientPtr> Clients;
template < typename F > void Spawn(Clients& c, const char* name, F&& f) { c.push_back(ClientPtr(new sim::Client(std::forward<F>(f), name))); }
inline void JoinAll(Clients& c) { for (auto& x : c) x->Join(); c.clear(); }
inline bool AllDone(const Clients& c) { for (auto& x : c) if (!x->Done()) return false; return true; }
inline TimeDuration Ms(s64 n) { return TimeDuration::FromMilliseconds(n); }
inline TimeDuration Us(s64 n) { return TimeDuration::FromMicroseconds(n); }
inline void SilenceLog() { Logger::SetLogLevel(LogLevel(LogLevel::Silent)); }

// What a callback may fail with: any class of standard exception, with a text of the harness.
template < typename Base > struct ErrorOf : public Base
{
	std::string Text;
	template < typename... Ts > explicit ErrorOf(const std::string& text, const Ts&... ts) : Base(ts...), Text(text) { }
	~ErrorOf() throw() override { }
	const char* what() const throw() override { return Text.c_str(); }
};
[[noreturn]] inline void ThrowSome(const std::string& text)
{
	switch (sim::W(8))
	{
	case 0: throw ErrorOf<std::exception>(text);
	case 1: throw ErrorOf<std::logic_error>(text, text);
	case 2: throw ErrorOf<OperationCancelledException>(text);
	case 3: throw ErrorOf<TimeoutException>(text);
	case 4: throw ErrorOf<std::bad_alloc>(text);
	case 5: throw ErrorOf<LogicException>(text, text);
	default: throw std::runtime_error(text);
	}
}

// An object whose life is tracked: used as a captured value of handlers and tasks.
struct Tracked
{
	static int& Live() { static int n = 0; return n; }
	int* Cell;
	Tracked() : Cell(new int(7)) { sim::Quiet q; ++Live(); }
	Tracked(const Tracked&) : Cell(new int(7)) { sim::Quiet q; ++Live(); }
	~Tracked() { *Cell = 0; delete Cell; sim::Quiet q; --Live(); }
	void Touch() const { SIM_CHECK(*Cell == 7, "captured-object-gone", "a captured object was used after its destruction"); }
};
#endif
