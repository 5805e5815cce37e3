// Simulator API used by the harnesses. One seed = one execution: threads are fibers on one kernel
// thread, time is virtual, and every choice (workload, schedule, faults) goes through this runtime.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H

#include <stdint.h>
#include <stddef.h>
#include <string>
#include <functional>
#include <vector>
#include <sstream>

namespace sim
{
	// ---- workload choices (recorded, replayable, minimised towards 0) ----
	uint32_t W(uint32_t n);												// uniform in [0, n)
	inline uint32_t WR(uint32_t lo, uint32_t hi) { return lo + W(hi - lo + 1); }	// inclusive
	inline bool WP(unsigned percent) { return W(100) >= 100 - percent; }	// 0 == false
	template < typename T > const T& WPick(const std::vector<T>& v) { return v[W((uint32_t)v.size())]; }

	// ---- faults ----
	// Fires with the given probability if this kind is enabled in this run's fault mix. Counted per kind when fired.
	bool fault(const char* kind, unsigned permille);
	uint32_t faultValue(const char* kind, uint32_t n);					// a recorded fault parameter in [0, n); 0 when faults are off
	bool faultsEnabled();												// false in fault-free runs
	bool stallsEnabled();												// timers may fire while threads are runnable (stalled threads)
	bool clockJumpsEnabled();

	struct AllocFaults													// one operator new in this scope of this fiber may throw std::bad_alloc
	{
		AllocFaults(unsigned permille);
		~AllocFaults();
		unsigned _prev;
	};

	// ---- observation ----
	uint64_t nowNs();													// virtual monotonic time, without being a scheduling point
	inline uint64_t nowUs() { return nowNs() / 1000; }
	uint64_t seq();														// next global event sequence number
	int self();															// fiber id
	void probe(const char* name);										// "this rare condition was hit"
	void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));	// event log (hashed; printed on replay)
	void violation(const char* cls, const std::string& msg) __attribute__((noreturn));
	void point();														// explicit scheduling point
	void sleepUs(uint64_t us);											// virtual sleep of this fiber
	void setDaemonOk();													// (reserved)
	void setStepLimit(uint64_t steps);
	void setRaceDetection(bool on);
	bool thoroughTier();

	// Ordering for the race detector only: what the harness hands over between threads itself (outside the code under test).
	void hbRelease(const void* key);
	void hbAcquire(const void* key);

	// No scheduling point, race recording or fault inside: for the bookkeeping of the oracle.
	struct Quiet
	{
		Quiet(); ~Quiet();
		Quiet(const Quiet&) = delete;
	};
	// As Quiet, but only suppresses faults
	struct NoFaults
	{
		NoFaults(); ~NoFaults();
	};

	// Runs what was registered with atexit (function-local statics included) since the run began, newest first, in this thread:
	// the end of the process as the other threads see it. Gives the number of handlers run.
	unsigned runExitHandlers();
	unsigned liveThreads();				// threads made by the code under test which have not ended

	// A caller thread of the harness.
	class Client
	{
		int _id;
		Client(const Client&) = delete;
	public:
		Client(const std::function<void ()>& f, const char* name = "client");
		~Client();
		void Join();
		bool Done() const;
		bool Blocked() const;			// blocked in a synchronisation call right now
	};

	// Waits (virtual time) until pred holds; false after the timeout. pred runs in Quiet.
	bool waitFor(const std::function<bool ()>& pred, uint64_t timeoutUs, uint64_t stepUs = 500);

	typedef void (*ScenarioFn)();
	struct Registrar
	{ Registrar(const char* name, unsigned weight, ScenarioFn fn, unsigned flags); };

	enum ScenarioFlags
	{
		NoStalls = 1,			// timers never fire while a thread can run
		NoClockJumps = 2,
		NoSpurious = 4,
		NoEintr = 8,
		NoRaces = 16,			// data race reports off
		ThoroughOnly = 32,
		RaceSitesOnly = 64,
		LateTimers = 128		// (reserved)
	};
}

#define SIM_SCENARIO_F(Name_, Weight_, Flags_) \
	static void scenario_##Name_(); \
	static ::sim::Registrar registrar_##Name_(#Name_, Weight_, &scenario_##Name_, Flags_); \
	static void scenario_##Name_()
#define SIM_SCENARIO(Name_, Weight_) SIM_SCENARIO_F(Name_, Weight_, 0)

#define SIM_CHECK(Cond_, Cls_, Msg_) \
	do { if (!(Cond_)) { ::sim::Quiet q__; std::ostringstream s__; s__ << Msg_; ::sim::violation(Cls_, s__.str()); } } while (0)

#endif
