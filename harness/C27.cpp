// C27: elapsed and remaining time, the process clock, checkpoints
#include "common.h"
#include <stingraykit/time/ElapsedTime.h>
#include <stingraykit/time/RemainingTime.h>
#include <stingraykit/time/Time.h>
#include <stingraykit/time/TimeEngine.h>
#include <stingraykit/diagnostics/CheckpointProfiler.h>
#include <stingraykit/thread/TimedCancellationToken.h>

namespace
{
	const u64 S = 1000000000ull;

	// A measurement that began in [b0, b1] and is read in [r0, r1] lies between
	struct Span
	{
		u64 b0 = 0, b1 = 0;
		s64 Low(u64 r0) const { return r0 > b1 ? (s64)((r0 - b1) / 1000) - 1 : -1 + (s64)0; }
		s64 High(u64 r1) const { return (s64)((r1 - b0) / 1000) + 1; }
	};

	void Pause()
	{
		switch (sim::W(5))
		{
		case 0: sim::point(); break;
		case 1: sim::sleepUs(sim::W(900)); break;
		case 2: sim::sleepUs(sim::W(50) * 1000); break;
		case 3: sim::sleepUs(sim::W(4000) * 1000000ull); break;
		default: break;
		}
	}

	void Measures()
	{
		SilenceLog();
		ElapsedTime shared; Span ss; ss.b0 = 0; ss.b1 = sim::nowNs();
		Clients cs; int n = sim::WR(1, 3); ElapsedTime* ps = &shared; Span* pss = &ss; ss.b0 = sim::nowNs() > 1000000 ? sim::nowNs() - 1000000 : 0;
		for (int c = 0; c < n; ++c)
			Spawn(cs, "client", [ps, pss]
			{
				Span s; s.b0 = sim::nowNs(); ElapsedTime e; s.b1 = sim::nowNs();
				u64 tmo; switch (sim::W(4)) { case 0: tmo = 0; break; case 1: tmo = sim::W(3000); break; case 2: tmo = sim::W(60) * 1000000ull; break; default: tmo = sim::W(4000) * 1000000ull; }
				Span rs; rs.b0 = sim::nowNs(); RemainingTime r(Us(tmo)); rs.b1 = sim::nowNs();
				s64 last = -1, lastShared = -1; s64 lastRemaining = -1;
				const Span whole = s; s64 laps = 0; // no time may be lost between one lap and the next
				for (int i = 0, ops = sim::WR(2, 10); i < ops; ++i)
				{
					Pause();
					u64 r0 = sim::nowNs(), r1; s64 us;
					switch (sim::W(7))
					{
					case 0:
						us = e.ElapsedMicroseconds(); r1 = sim::nowNs();
						SIM_CHECK(us >= last, "backwards", "the elapsed time goes from " << last << " back to " << us); last = us;
						SIM_CHECK(us >= s.Low(r0) && us <= s.High(r1), "elapsed", "elapsed " << us << " us, really between " << s.Low(r0) << " and " << s.High(r1)); break;
					case 1:
						us = e.Elapsed().GetMicroseconds(); r1 = sim::nowNs();
						SIM_CHECK(us >= last, "backwards", "the elapsed time goes from " << last << " back to " << us); last = us;
						SIM_CHECK(us >= s.Low(r0) && us <= s.High(r1), "elapsed", "elapsed " << us << " us, really between " << s.Low(r0) << " and " << s.High(r1)); break;
					case 2:
						us = e.ElapsedMilliseconds(); r1 = sim::nowNs();
						SIM_CHECK(us >= s.Low(r0) / 1000 - 1 && us <= s.High(r1) / 1000 + 1, "elapsed", "elapsed " << us << " ms, really between " << s.Low(r0) << " and " << s.High(r1) << " us"); break;
					case 3:
						{
							Span ns; ns.b0 = r0; us = e.Restart().GetMicroseconds(); r1 = ns.b1 = sim::nowNs();
							SIM_CHECK(us >= last && us >= s.Low(r0) && us <= s.High(r1), "elapsed", "restarted after " << us << " us, really between " << s.Low(r0) << " and " << s.High(r1));
							s = ns; last = -1; laps += us; break;
						}
					case 4:
						us = ps->ElapsedMicroseconds(); r1 = sim::nowNs();
						SIM_CHECK(us >= lastShared, "backwards", "the elapsed time goes from " << lastShared << " back to " << us); lastShared = us;
						SIM_CHECK(us >= pss->Low(r0) && us <= pss->High(r1), "elapsed", "elapsed " << us << " us, really between " << pss->Low(r0) << " and " << pss->High(r1)); break;
					case 5:
						{
							bool ex = r.Expired(); r1 = sim::nowNs();
							if (rs.Low(r0) > (s64)tmo + 1) SIM_CHECK(ex, "remaining", "not expired " << rs.Low(r0) << " us after it began with " << tmo << " us");
							if (rs.High(r1) + 1 < (s64)tmo) SIM_CHECK(!ex, "remaining", "expired " << rs.High(r1) << " us after it began with " << tmo << " us");
							break;
						}
					default:
						if (sim::WP(20)) { rs.b0 = sim::nowNs(); r.Restart(); rs.b1 = sim::nowNs(); lastRemaining = -1; break; }
						us = r.Remaining().GetMicroseconds(); r1 = sim::nowNs();
						SIM_CHECK(us >= 0, "remaining", "negative time remains: " << us);
						SIM_CHECK(us >= std::max<s64>(0, (s64)tmo - rs.High(r1)) && us <= std::max<s64>(0, (s64)tmo - rs.Low(r0)), "remaining", us << " us of " << tmo << " remain, really between " << (s64)tmo - rs.High(r1) << " and " << (s64)tmo - rs.Low(r0));
						SIM_CHECK(lastRemaining < 0 || us <= lastRemaining, "backwards", "the remaining time grows from " << lastRemaining << " to " << us); lastRemaining = us;
					}
				}
				u64 r0 = sim::nowNs(); laps += e.ElapsedMicroseconds(); u64 r1 = sim::nowNs();
				SIM_CHECK(laps >= whole.Low(r0) && laps <= whole.High(r1), "laps", "the laps add up to " << laps << " us, really between " << whole.Low(r0) << " and " << whole.High(r1));
			});
		JoinAll(cs);
	}

	// ---- the clock of the process
	struct Set { s64 ms; u64 b, e; };
	void Clock()
	{
		SilenceLog();
		std::deque<Set> sets; std::deque<std::pair<int, std::pair<u64, u64> > > zones; auto* psets = &sets; auto* pz = &zones;
		{ u64 b = sim::nowNs(); s64 ms = Time::Now().GetMilliseconds(); sets.push_back(Set{ ms, b, sim::nowNs() }); zones.push_back(std::make_pair((int)TimeEngine::GetMinutesFromUtc(), std::make_pair(b, sim::nowNs()))); }
		Clients cs; int n = sim::WR(1, 3);
		Spawn(cs, "setter", [psets, pz]
		{
			for (int i = 0, ops = sim::WR(1, 6); i < ops; ++i)
			{
				Pause();
				if (sim::WP(25))
				{
					int z = (int)sim::W(1440) - 720; std::pair<u64, u64>* p; { sim::Quiet q; pz->push_back(std::make_pair(z, std::make_pair(sim::nowNs(), (u64)0))); p = &pz->back().second; }
					TimeEngine::SetMinutesFromUtc((s16)z); sim::Quiet q; p->second = sim::nowNs(); continue;
				}
				static const s64 eras[] = { 0, 1, 999999999999ll, 1600000000000ll, 4102444800123ll };
				s64 ms = eras[sim::W(5)] + sim::W(100000);
				Set* s; { sim::Quiet q; psets->push_back(Set{ ms, sim::nowNs(), 0 }); s = &psets->back(); }
				TimeEngine::SetMillisecondsSinceEpoch(ms);
				sim::Quiet q; s->e = sim::nowNs();
			}
		});
		for (int c = 0; c < n; ++c)
			Spawn(cs, "client", [psets, pz]
			{
				ElapsedTime e; u64 start = sim::nowNs();
				for (int i = 0, ops = sim::WR(2, 8); i < ops; ++i)
				{
					Pause();
					u64 r0 = sim::nowNs();
					int op = sim::W(4);
					if (op == 0)
					{
						int z = TimeEngine::GetMinutesFromUtc(); u64 r1 = sim::nowNs(); sim::Quiet q; bool ok = false;
						for (size_t k = 0; k < pz->size() && !ok; ++k)
						{
							auto& x = (*pz)[k]; if (x.second.first > r1) break;
							bool over = k + 1 < pz->size() && (*pz)[k + 1].second.second && (*pz)[k + 1].second.second < r0;
							ok = !over && x.first == z;
						}
						SIM_CHECK(ok, "zone", "the time zone reads as " << z << " minutes");
					}
					else if (op == 1)
					{
						u64 d = 1000 + sim::W(4) * 700000; CancellationToken t;
						t.Sleep(Us(d)); u64 took = sim::nowNs() - r0;
						SIM_CHECK(took + 2000 >= d * 1000, "sleep", "a sleep of " << d << " us ends after " << took / 1000);
						SIM_CHECK(took < d * 1000 + S, "sleep", "a sleep of " << d << " us takes " << took / 1000);
						s64 real = (s64)((sim::nowNs() - start) / 1000), got = e.ElapsedMicroseconds(), real2 = (s64)((sim::nowNs() - start) / 1000);
						SIM_CHECK(got + 2 >= real - 1000000 && got <= real2 + 2, "elapsed", "setting the clock changes a measurement: " << got << " us instead of " << real);
					}
					else
					{
						s64 ms = op == 2 ? Time::Now().GetMilliseconds() : TimeEngine::GetMillisecondsSinceEpoch(); u64 r1 = sim::nowNs(); sim::Quiet q; bool ok = false; std::ostringstream all;
						for (size_t k = 0; k < psets->size() && !ok; ++k)
						{
							Set& x = (*psets)[k]; if (x.b > r1) break;
							bool over = k + 1 < psets->size() && (*psets)[k + 1].e && (*psets)[k + 1].e < r0;
							if (over) continue;
							u64 e = x.e ? x.e : r1;
							s64 low = x.ms + (r0 > e ? (s64)((r0 - e) / 1000000) : 0) - 2, high = x.ms + (s64)((r1 - x.b) / 1000000) + 2;
							if (!k) low -= 1;
							// while a set is under way the old delta may have been read before it
							all << " " << low << ".." << high;
							ok = ms >= low && ms <= high;
						}
						SIM_CHECK(ok, "clock", "the clock reads " << ms << ", expected" << all.str());
					}
				}
			});
		JoinAll(cs);
	}

	// ---- checkpoints
	struct Cp { std::string name; u64 b, e; int thread; };
	void Checkpoints()
	{
		SilenceLog();
		CheckpointProfiler prof("profiler"); CheckpointProfiler* pp = &prof;
		prof.Checkpoint("before");
		std::deque<Cp> made; auto* pm = &made;
		for (int round = 0, rounds = sim::WR(1, 2); round < rounds; ++round)
		{
			{ sim::Quiet q; made.clear(); }
			Span s; s.b0 = sim::nowNs(); prof.Start(); s.b1 = sim::nowNs();
			Clients cs; int n = sim::WR(1, 3); bool early = sim::WP(30);
			for (int c = 0; c < n; ++c)
				Spawn(cs, "client", [pp, pm, c, round]
				{
					for (int i = 0, ops = sim::WR(1, 5); i < ops; ++i)
					{
						Pause();
						Cp* k; { sim::Quiet q; pm->push_back(Cp{ "r" + std::to_string(round) + "c" + std::to_string(c) + "." + std::to_string(i), sim::nowNs(), 0, c }); k = &pm->back(); }
						if (sim::WP(25)) { std::string nm = k->name; { CheckpointTracer t(*pp, nm); Pause(); } sim::Quiet q; k->name = "Entered " + nm; k->e = sim::nowNs(); pm->push_back(Cp{ "Left " + nm, k->b, sim::nowNs(), c }); }
						else { pp->Checkpoint(k->name); sim::Quiet q; k->e = sim::nowNs(); }
					}
				});
			if (!early) JoinAll(cs);
			u64 stop = sim::nowNs();
			CheckpointProfiler::Result res = prof.Stop();
			u64 stopped = sim::nowNs();
			{
				sim::Quiet q; std::set<std::string> seen; s64 at = 0; std::map<int, u64> lastOf;
				SIM_CHECK(res.ProfilerName == "profiler", "checkpoint", "the name of the profiler is " << res.ProfilerName);
				for (auto& k : res.Checkpoints)
				{
					s64 d = k.DurationBefore.GetMicroseconds(); at += d;
					SIM_CHECK(d >= 0, "backwards", "the duration before a checkpoint is " << d << " us");
					SIM_CHECK(seen.insert(k.Name).second, "checkpoint-twice", "checkpoint " << k.Name << " is listed twice");
					if (early) continue;
					const Cp* m = nullptr; for (auto& x : made) if (x.name == k.Name) m = &x;
					SIM_CHECK(m, "checkpoint-unknown", "checkpoint " << k.Name << " was never made");
					SIM_CHECK(at >= s.Low(m->b) && at <= s.High(m->e), "checkpoint-time", "checkpoint " << k.Name << " is placed at " << at << " us, made between " << s.Low(m->b) << " and " << s.High(m->e));
					SIM_CHECK(m->b >= lastOf[m->thread] || m->name.compare(0, 4, "Left") == 0, "checkpoint-order", "checkpoint " << k.Name << " of one thread is out of order"); lastOf[m->thread] = m->b;
				}
				if (!early) SIM_CHECK(seen.size() == made.size(), "checkpoint-lost", seen.size() << " of " << made.size() << " checkpoints are listed");
				for (auto& x : made) if (x.e && x.e < stop && x.name.compare(0, 4, "Left") && x.name.compare(0, 7, "Entered")) SIM_CHECK(seen.count(x.name), "checkpoint-lost", "checkpoint " << x.name << " is not listed");
				(void)stopped;
			}
			JoinAll(cs);
			prof.Checkpoint("between");
			CheckpointProfiler::Result none = prof.Stop();
			SIM_CHECK(none.Checkpoints.empty(), "checkpoint-unknown", "checkpoints made while stopped are listed");
		}
	}
}

SIM_SCENARIO(measures, 2) { Measures(); }
SIM_SCENARIO_F(clock, 2, sim::NoClockJumps | sim::NoStalls) { Clock(); }
SIM_SCENARIO(checkpoints, 1) { Checkpoints(); }
