// C26: watchdog of profiling sessions, profilers, bandwidth reporter, thread operation constraints
#include "common.h"
#include <stingraykit/diagnostics/AsyncProfiler.h>
#include <stingraykit/diagnostics/Profiler.h>
#include <stingraykit/diagnostics/ProfileSession.h>
#include <stingraykit/thread/ThreadOperation.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <stingraykit/io/IDataSource.h>
#include <stingraykit/timer/Timer.h>
#include <stingraykit/BandwidthReporter.h>
#include <stingraykit/log/LoggerStream.h>

namespace
{
	struct Line { std::string text, logger; int level; u64 at; int fiber; };
	struct Lines
	{
		std::deque<Line> all; u64 slowUs = 0; unsigned slowPct = 0;
		int Count(const std::string& what, int level, const std::string& also = "") const { int n = 0; for (auto& l : all) if (l.level == level && l.text.find(what) != std::string::npos && l.text.find(also) != std::string::npos) ++n; return n; }
	};
	struct Sink : public ILoggerSink
	{
		Lines* lines;
		Sink(Lines* l) : lines(l) { }
		void Log(const LoggerMessage& m) override
		{
			{ sim::Quiet q; lines->all.push_back(Line{ m.GetMessage(), m.GetLoggerName() ? *m.GetLoggerName() : std::string(), (int)m.GetLogLevel().val(), sim::nowNs(), sim::self() }); }
			if (lines->slowUs && sim::WP(lines->slowPct)) { sim::probe("slow log"); sim::sleepUs(lines->slowUs); }
		}
	};
	const u64 S = 1000000000ull;
	u64 Slack() { return sim::stallsEnabled() ? 12 * S : S; }
	Token Listen(Lines* l) { Logger::SetLogLevel(LogLevel(LogLevel::Info)); return Logger::AddSink(make_shared_ptr<Sink>(l)); }

	// ---- sessions watched by an AsyncProfiler
	struct Ses { std::string name; u64 thrUs, b0, b1 = 0, e0 = 0, e1 = 0; bool getter = false, live = false; int named = 0; };

	std::string NameOf(Ses* s, int* cell, const Tracked& t)
	{
		SIM_CHECK(s->live && *cell == 5, "session-gone", "the name of session " << s->name << " is asked for after the session");
		t.Touch(); sim::point();
		{ sim::Quiet q; ++s->named; }
		SIM_CHECK(*cell == 5, "session-gone", "the session " << s->name << " ends while its name is asked for");
		return s->name;
	}

	void Watchdog()
	{
		Lines lines; Lines* pl = &lines; Token sink = Listen(&lines);
		std::deque<Ses> all; std::deque<Ses>* pa = &all;
		AsyncProfilerPtr prof = make_shared_ptr<AsyncProfiler>("watchdog");
		Clients cs; int n = sim::WR(1, 3);
		for (int c = 0; c < n; ++c)
		{
			int ops = sim::WR(1, 4); AsyncProfilerPtr own = prof;
			Spawn(cs, "client", [pl, pa, c, ops, own]
			{
				for (int i = 0; i < ops; ++i)
				{
					Ses* s; u64 lasts; int depth = sim::W(3);
					{ sim::Quiet q; pa->push_back(Ses()); s = &pa->back(); s->name = "s" + std::to_string(c) + "." + std::to_string(i) + ";"; }
					switch (sim::W(6))
					{
					case 0: lasts = 0; break;
					case 1: lasts = sim::W(2000) * 1000; break;
					case 2: lasts = 29000000 + sim::W(3000) * 1000; break;
					case 3: lasts = 31000000 + sim::W(60000) * 1000; break;
					default: lasts = sim::W(35) * 1000000; break;
					}
					s->thrUs = sim::WP(50) ? lasts + (sim::W(3) - 1) * 1500000 * (lasts > 2000000) : sim::W(3) * 20000000;
					int* cell = new int(5); Tracked t;
					{
						s->b0 = sim::nowNs(); s->live = true;
						optional<AsyncProfiler::Session> o; std::unique_ptr<AsyncProfiler::Session> ses;
						if (sim::WP(40)) { s->getter = true; ses.reset(new AsyncProfiler::Session(own, Fn<std::string ()>([s, cell, t] { return NameOf(s, cell, t); }), Us(s->thrUs), AsyncProfiler::NameGetterTag())); }
						else if (sim::WP(50)) ses.reset(new AsyncProfiler::Session(own, s->name, Us(s->thrUs)));
						else { char* copy = strdup(s->name.c_str()); ses.reset(new AsyncProfiler::Session(own, (const char*)copy, Us(s->thrUs))); std::string waste(64, 'x');
							s->b1 = sim::nowNs(); sim::sleepUs(lasts); s->e0 = sim::nowNs(); ses.reset(); memset(copy, 'Z', s->name.size()); free(copy); goto ended; }
						s->b1 = sim::nowNs();
						sim::sleepUs(lasts);
						s->e0 = sim::nowNs();
						ses.reset();
					}
					ended:
					s->e1 = sim::nowNs(); s->live = false; *cell = 0; delete cell;
					u64 least = s->e0 > s->b1 ? s->e0 - s->b1 : 0, most = s->e1 - s->b0;
					sim::Quiet q;
					int w = pl->Count(s->name, LogLevel::Warning);
					if (least > s->thrUs * 1000 + 2000) { sim::probe("overrun"); SIM_CHECK(w == 1, "overrun-not-reported", "session " << s->name << " lasted " << least / 1000 << " us (threshold " << s->thrUs << ") and is reported " << w << " times at its end"); }
					if (most + 2000 < s->thrUs * 1000) SIM_CHECK(w == 0, "reported-wrongly", "session " << s->name << " lasted at most " << most / 1000 << " us (threshold " << s->thrUs << ") and is reported at its end");
					(void)depth;
				}
			});
		}
		JoinAll(cs);
		u64 t0 = sim::nowNs();
		prof.reset();
		SIM_CHECK(sim::nowNs() - t0 < 10 * S + Slack(), "destruction-slow", "destruction of the profiler took " << (sim::nowNs() - t0) / 1000 << " us");
		sim::Quiet q;
		for (auto& s : all)
		{
			int r = 0; u64 last = 0;
			for (auto& l : lines.all) if (l.level == LogLevel::Error && l.text.find(s.name) != std::string::npos)
			{
				++r;
				SIM_CHECK(l.at + 1000000 >= s.b0 + 30 * S, "watchdog-early", "session " << s.name << " is reported " << (l.at - s.b0) / 1000 << " us after its begin");
				SIM_CHECK(!last || l.at + Slack() >= last + 30 * S, "watchdog-too-often", "session " << s.name << " is reported again after " << (l.at - last) / 1000 << " us");
				last = l.at;
			}
			u64 most = s.e1 - s.b0, least = s.e0 - s.b1;
			if (r) { sim::probe("watchdog reports"); SIM_CHECK(most + 1000000 >= 30 * S * r, "watchdog-wrong", "session " << s.name << " lasted " << most / 1000 << " us and is reported " << r << " times"); }
			if (least > 30 * S + Slack()) { u64 want = (least - Slack()) / (30 * S + Slack()); if (want < 1) want = 1; sim::probe("long session"); SIM_CHECK((u64)r >= want, "watchdog-silent", "session " << s.name << " lasted " << least / 1000 << " us and is reported " << r << " times"); }
			SIM_CHECK(s.named <= r + 2, "name-asked", "the name of a session is asked for " << s.named << " times, reported " << r << " times");
		}
		sink.Reset();
	}

	// ---- profilers which report at their end
	void Profilers()
	{
		Lines lines; Lines* pl = &lines; Token sink = Listen(&lines);
		Clients cs; int n = sim::WR(1, 3);
		for (int c = 0; c < n; ++c)
			Spawn(cs, "client", [pl, c]
			{
				for (int i = 0, ops = sim::WR(1, 4); i < ops; ++i)
				{
					std::string name; { sim::Quiet q; name = "p" + std::to_string(c) + "." + std::to_string(i) + ";"; }
					u64 thr = sim::W(4) * 100, lasts = sim::WP(50) ? sim::W(500) : (u64)std::max<s64>(0, (s64)thr + (s64)sim::W(5) - 2);
					u64 b0 = sim::nowNs(), b1, e0; bool session = sim::WP(40);
					if (!session)
					{
						Profiler p(name, thr);
						b1 = sim::nowNs(); sim::sleepUs(lasts * 1000); e0 = sim::nowNs();
					}
					else
					{
						ProfileSession p(name, thr, true);
						b1 = sim::nowNs();
						if (sim::WP(50)) { ProfileSession k(p, "child"); sim::sleepUs(lasts * 500); }
						if (sim::WP(30)) { ProfileSession k(p, "child"); ProfileSession k2(k, "inner"); sim::sleepUs(lasts * 500); }
						else sim::sleepUs(lasts * 500);
						e0 = sim::nowNs();
					}
					u64 e1 = sim::nowNs();
					sim::Quiet q;
					int r = pl->Count(name, LogLevel::Info);
					if ((e0 - b1) / 1000000 > thr + 1) SIM_CHECK(r == 1, "overrun-not-reported", "profiled for " << (e0 - b1) / 1000000 << " ms (threshold " << thr << ") and reported " << r << " times");
					if ((e1 - b0) / 1000000 + 1 < thr) SIM_CHECK(r == 0, "reported-wrongly", "profiled for " << (e1 - b0) / 1000000 << " ms (threshold " << thr << ") and reported " << r << " times");
				}
			});
		JoinAll(cs);
		sink.Reset();
	}

	// ---- bandwidth reporter
	struct Failure : public std::exception { const char* what() const noexcept override { return "failure"; } };

	struct Src : public virtual IDataSource
	{
		std::vector<u8> data; size_t pos = 0; int failPct = 0, slowPct = 0; bool failed = false;
		void Read(IDataConsumer& c, const ICancellationToken& token) override
		{
			if (sim::W(100) < (u32)slowPct) sim::sleepUs(sim::W(8) * 1500000);
			if (failPct && sim::W(100) < (u32)failPct) { sim::probe("source fails"); failed = true; throw Failure(); }
			if (pos == data.size()) { c.EndOfData(token); return; }
			size_t n = sim::WR(1, (u32)std::min<size_t>(data.size() - pos, 24));
			size_t took = c.Process(ConstByteData(data.data() + pos, n), token);
			SIM_CHECK(took <= n, "took-more", "the consumer is said to have taken " << took << " of " << n);
			pos += took;
		}
	};
	struct Cons : public virtual IDataConsumer
	{
		std::vector<u8> got; int ends = 0; int partPct = 0, failPct = 0; bool failed = false; const ICancellationToken* want = nullptr;
		size_t Process(ConstByteData data, const ICancellationToken& token) override
		{
			SIM_CHECK(&token == want, "token", "the consumer is given another token");
			if (failPct && sim::W(100) < (u32)failPct) { failed = true; throw Failure(); }
			size_t n = data.size(); if (sim::W(100) < (u32)partPct) n = sim::W((u32)n + 1);
			sim::Quiet q; for (size_t i = 0; i < n; ++i) got.push_back(data[i]);
			return n;
		}
		void EndOfData(const ICancellationToken& token) override { SIM_CHECK(&token == want, "token", "the consumer is given another token"); ++ends; }
	};

	bool Numbers(const std::string& s, u64& part, u64& total)
	{
		size_t a = s.find("Data: "), b = s.find("total: ");
		if (a == std::string::npos || b == std::string::npos) return false;
		return sscanf(s.c_str() + a + 6, "%llu", (unsigned long long*)&part) == 1 && sscanf(s.c_str() + b + 7, "%llu", (unsigned long long*)&total) == 1;
	}

	void Bandwidth()
	{
		Lines lines; Lines* pl = &lines; Token sink = Listen(&lines);
		bool slowLog = sim::WP(35); if (slowLog) { lines.slowUs = 1000000 * sim::WR(1, 25); lines.slowPct = 40; }
		shared_ptr<Src> src = make_shared_ptr<Src>(); size_t size = sim::W(300); { sim::Quiet q; for (size_t i = 0; i < size; ++i) src->data.push_back((u8)(i * 7 + i / 256)); }
		if (sim::faultsEnabled()) src->failPct = sim::W(3) * 8; src->slowPct = sim::W(4) * 15;
		u64 t0 = sim::nowNs();
		shared_ptr<BandwidthReporter> rep = make_shared_ptr<BandwidthReporter>(src, "bandwidth");
		Cons cons; cons.partPct = sim::W(4) * 25; if (sim::faultsEnabled()) cons.failPct = sim::W(3) * 8;
		CancellationToken token; cons.want = &token; std::vector<std::pair<u64, u64> > passed;	// (time, bytes passed)
		Cons* pc = &cons; CancellationToken* pt = &token; Src* ps = src.get(); auto* pp = &passed;
		Clients cs;
		Spawn(cs, "reader", [rep, pc, pt, ps, pp]
		{
			int idle = 0;
			for (int i = 0; i < 200 && !pc->ends; ++i)
			{
				size_t before = ps->pos; bool threw = false; ps->failed = pc->failed = false;
				try { rep->Read(*pc, *pt); } catch (const Failure&) { threw = true; }
				SIM_CHECK(threw == (ps->failed || pc->failed), "error-hidden", "an exception of the source or the consumer is not passed on");
				sim::Quiet q;
				SIM_CHECK(pc->got.size() == ps->pos, "count", "the consumer took " << pc->got.size() << " bytes, the source was told of " << ps->pos);
				pp->push_back(std::make_pair(sim::nowNs(), (u64)ps->pos));
				idle = ps->pos == before ? idle + 1 : 0;
			}
			(void)idle;
		});
		JoinAll(cs);
		if (sim::WP(60)) sim::sleepUs(sim::W(40) * 1000000);
		u64 t1 = sim::nowNs(), mid = 0;
		{ sim::Quiet q; SIM_CHECK(std::equal(cons.got.begin(), cons.got.end(), src->data.begin()), "bytes", "the bytes passed are not those of the source"); mid = lines.all.size(); (void)mid; }
		rep.reset();
		u64 t2 = sim::nowNs(); size_t atEnd; { sim::Quiet q; atEnd = lines.all.size(); }
		sim::sleepUs(25000000);
		sim::Quiet q;
		SIM_CHECK(lines.all.size() == atEnd, "report-after-destruction", "a report after the reporter is gone: " << lines.all.back().text);
		u64 sum = 0, last = 0; int n = 0;
		for (auto& l : lines.all)
		{
			u64 part, total; if (!Numbers(l.text, part, total)) continue;
			++n; sum += part;
			SIM_CHECK(total == sum, "report-count", "report " << n << " gives " << part << " of " << total << ", the reports together give " << sum);
			u64 low = 0, high = src->pos; for (auto& p : passed) { if (p.first <= last) low = p.second; }
			for (auto& p : passed) if (p.first >= l.at) { high = p.second; break; }
			SIM_CHECK(total >= low && total <= high, "report-count", "a report gives " << total << " bytes when between " << low << " and " << high << " had been passed");
			last = l.at;
		}
		if (n) { sim::probe("bandwidth reports"); if (slowLog) sim::probe("reports with a slow log"); }
		if (!slowLog) { u64 most = (t2 - t0) / (10 * S), want = (t1 - t0) / (10 * S + Slack()); SIM_CHECK(lines.all.empty() || (u64)n <= most, "report-rate", n << " reports within " << (t2 - t0) / S << " s"); SIM_CHECK(lines.all.empty() ? want == 0 : n == 0 || (u64)n >= want, "report-rate", n << " reports within " << (t1 - t0) / S << " s"); }
		sink.Reset();
	}

	// ---- thread operation constraints
	void Constraints()
	{
		Lines lines; Lines* pl = &lines; Token sink = Listen(&lines);
		Clients cs; int n = sim::WR(2, 4);
		for (int c = 0; c < n; ++c)
			Spawn(cs, "thread", [pl, c]
			{
				std::vector<std::pair<int, ThreadOperationConstrainer*> > mine; std::vector<std::pair<int, ExclusiveThreadOperation*> > excl;
				for (int i = 0, ops = sim::WR(2, 12); i < ops; ++i)
				{
					static const ThreadOperation::Enum all[] = { ThreadOperation::Network, ThreadOperation::IO, ThreadOperation::UI };
					ThreadOperation::Enum e = all[sim::W(3)]; int bits = e;
					switch (sim::W(6))
					{
					case 0: { int b = sim::WR(1, 7); mine.push_back(std::make_pair(b, new ThreadOperationConstrainer((ThreadOperation::Enum)b))); break; }
					case 1: if (!mine.empty()) { delete mine.back().second; mine.pop_back(); } break;
					case 2: { int b = sim::WR(1, 7); excl.push_back(std::make_pair(b, new ExclusiveThreadOperation((ThreadOperation::Enum)b))); break; }
					case 3: if (!excl.empty()) { delete excl.back().second; excl.pop_back(); } break;
					case 4:
						{ int have = 0; for (auto& x : excl) have |= x.first; if (have & bits) { sim::probe("exclusive operation"); ExclusiveThreadOperationChecker k(e); } break; }
					default:
						{
							int have = 0; for (auto& x : mine) have |= x.first;
							int before = 0, after = 0; { sim::Quiet q; for (auto& l : pl->all) before += l.fiber == sim::self() && l.level == LogLevel::Error; }
							{ ThreadOperationReporter r(e); }
							{ sim::Quiet q; for (auto& l : pl->all) after += l.fiber == sim::self() && l.level == LogLevel::Error; }
							SIM_CHECK(after - before == ((have & bits) ? 1 : 0), "constraint", "operation " << bits << " under constraints " << have << " is reported " << after - before << " times");
						}
					}
					sim::point();
				}
				while (!mine.empty()) { delete mine.back().second; mine.pop_back(); }
				while (!excl.empty()) { delete excl.back().second; excl.pop_back(); }
				int before = (int)pl->all.size(), after; { ThreadOperationReporter r(ThreadOperation::IO); } { sim::Quiet q; after = 0; for (size_t k = before; k < pl->all.size(); ++k) after += pl->all[k].fiber == sim::self(); }
				SIM_CHECK(after == 0, "constraint", "an operation is reported after all constraints are gone");
			});
		JoinAll(cs);
		sink.Reset();
	}
}

SIM_SCENARIO(watchdog, 3) { Watchdog(); }
SIM_SCENARIO_F(watchdog_prompt, 3, sim::NoStalls) { Watchdog(); }
SIM_SCENARIO(profilers, 1) { Profilers(); }
SIM_SCENARIO(bandwidth, 3) { Bandwidth(); }
SIM_SCENARIO(constraints, 1) { Constraints(); }
