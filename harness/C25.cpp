// C25: logger: levels, sinks and named loggers used by several threads
#include "common.h"
#include <stingraykit/log/Logger.h>
#include <stingraykit/log/LoggerStream.h>

namespace
{
	struct Got { std::string text, logger, thread; int level; uint64_t begin, end; int fiber; bool highlight; };

	struct Hub;
	struct Sink : public ILoggerSink
	{
		int id; Hub* hub; int kind = 0; int* cell = new int(3);
		std::vector<Got> got;
		Sink(int i, Hub* h) : id(i), hub(h) { }
		~Sink() { SIM_CHECK(*cell == 3, "sink-gone", "a sink is destroyed twice"); *cell = 0; delete cell; }
		void Log(const LoggerMessage& m) override;
	};
	STINGRAYKIT_DECLARE_PTR(Sink);

	struct Msg { std::string text, logger; int level; int thread; uint64_t begin, end; bool must, mustNot; };
	struct Install { int sink; uint64_t addBegin, addEnd, remBegin, remEnd; std::unique_ptr<Token> token; std::vector<Got>* got; SinkPtr keep; };

	struct LevelChange { std::string logger; int level; uint64_t begin, end; };		// level -1: none

	struct Hub
	{
		std::deque<Install> installs; std::deque<Msg> msgs; std::vector<LevelChange> levels;
		int counter = 0;

		// what may be the level a logger (or "": the global one) has in a span
		std::set<int> Levels(const std::string& logger, uint64_t begin, uint64_t end)
		{
			std::set<int> r;
			for (size_t i = 0; i < levels.size(); ++i)
			{
				if (levels[i].logger != logger || levels[i].begin > end) continue;
				bool replaced = false;		// a later change ended before the span began
				for (size_t j = 0; j < levels.size(); ++j) if (j != i && levels[j].logger == logger && levels[j].begin > levels[i].end && levels[j].end && levels[j].end < begin) replaced = true;
				if (!replaced) r.insert(levels[i].level);
			}
			return r;
		}
		std::set<int> Effective(const std::string& logger, uint64_t begin, uint64_t end)
		{
			std::set<int> global = Levels("", begin, end), own = logger.empty() ? std::set<int>{ -1 } : Levels(logger, begin, end), r;
			for (int x : own) if (x >= 0) r.insert(x); else r.insert(global.begin(), global.end());
			return r;
		}
	};

	void Sink::Log(const LoggerMessage& m)
	{
		SIM_CHECK(*cell == 3, "sink-gone", "a destroyed sink is called");
		size_t at; { sim::Quiet q; at = got.size(); got.push_back(Got{ m.GetMessage(), m.GetLoggerName() ? *m.GetLoggerName() : std::string(), m.GetThreadName(), (int)m.GetLogLevel().val(), sim::seq(), 0, sim::self(), m.Highlight() }); }
		sim::point();
		if (kind == 2) sim::sleepUs(200);
		SIM_CHECK(*cell == 3, "sink-gone", "a sink is destroyed while it is called");
		{ sim::Quiet q; got[at].end = sim::seq(); }
		if (kind == 1) ThrowSome("sink");
	}

	const LogLevel::Enum AllLevels[] = { LogLevel::Trace, LogLevel::Debug, LogLevel::Info, LogLevel::Warning, LogLevel::Error };

	Install* AddSink(Hub* hub, int kind)
	{
		Install* in; SinkPtr s = make_shared_ptr<Sink>(0, hub); s->kind = kind;
		{ sim::Quiet q; hub->installs.push_back(Install{ (int)hub->installs.size(), sim::seq(), 0, 0, 0, nullptr, nullptr, SinkPtr() }); in = &hub->installs.back(); s->id = in->sink; in->got = &s->got; in->keep = s; }
		try
		{
			sim::AllocFaults a(60);
			Token t = Logger::AddSink(s);
			sim::Quiet q; in->addEnd = sim::seq(); in->token.reset(new Token(std::move(t)));
		}
		catch (const std::bad_alloc&)
		{ sim::probe("adding a sink failed"); sim::Quiet q; in->addEnd = 0; in->remBegin = in->remEnd = sim::seq(); return nullptr; }
		sim::hbRelease(in);
		return in;
	}

	void RemoveSink(Install* in)
	{
		{ sim::Quiet q; if (in->remBegin) return; in->remBegin = sim::seq(); }
		sim::hbAcquire(in);
		in->token->Reset();
		sim::Quiet q; in->remEnd = sim::seq();
	}

	void LogOne(Hub* hub, const NamedLogger* logger, const std::string& name)
	{
		Msg m; LogLevel::Enum level = AllLevels[sim::W(5)];
		{ sim::Quiet q; m.text = "message " + std::to_string(hub->counter++) + " of thread " + std::to_string(sim::self()); m.logger = name; m.level = level; m.thread = sim::self(); m.begin = sim::seq(); }
		int how = sim::W(4);
		if (how == 0) (logger ? logger->Stream(level) : Logger::Stream(level)) << m.text;
		else if (how == 1) { std::string a = m.text.substr(0, 8), b = m.text.substr(8); (logger ? logger->Stream(level) : Logger::Stream(level)) << a << b; }
		else if (how == 2) { LoggerStream s = logger ? logger->Stream(level) : Logger::Stream(level); s << m.text.substr(0, 5); LoggerStream moved(std::move(s)); moved << m.text.substr(5); }
		else
			switch (level)
			{
			case LogLevel::Trace: (logger ? logger->Trace() : Logger::Trace()) << m.text; break;
			case LogLevel::Debug: (logger ? logger->Debug() : Logger::Debug()) << m.text; break;
			case LogLevel::Info: (logger ? logger->Info() : Logger::Info()) << m.text; break;
			case LogLevel::Warning: (logger ? logger->Warning() : Logger::Warning()) << m.text; break;
			default: (logger ? logger->Error() : Logger::Error()) << m.text; break;
			}
		sim::Quiet q; m.end = sim::seq(); hub->msgs.push_back(m);
	}

	void SetLevel(Hub* hub, const std::string& logger, int level)
	{
		size_t at; { sim::Quiet q; at = hub->levels.size(); hub->levels.push_back(LevelChange{ logger, level, sim::seq(), ~0ull }); }
		if (logger.empty()) Logger::SetLogLevel(LogLevel((LogLevel::Enum)level));
		else Logger::SetLogLevel(logger, level < 0 ? optional<LogLevel>() : optional<LogLevel>(LogLevel((LogLevel::Enum)level)));
		sim::Quiet q; hub->levels[at].end = sim::seq();
	}

	bool IsOurs(const std::string& text) { return text.compare(0, 8, "message ") == 0; }

	void Check(Hub& hub)
	{
		sim::Quiet q;
		std::map<std::string, Msg*> byText; for (Msg& m : hub.msgs) byText[m.text] = &m;
		for (Install& in : hub.installs)
		{
			std::map<std::string, int> n; std::map<int, uint64_t> lastBegin;
			for (Got& g : *in.got)
			{
				if (!IsOurs(g.text)) continue;
				SIM_CHECK(byText.count(g.text), "torn", "a sink gets a message never logged: '" << g.text << "'");
				Msg* m = byText[g.text];
				SIM_CHECK(++n[g.text] == 1, "duplicate", "sink " << in.sink << " gets '" << g.text << "' again");
				SIM_CHECK(g.logger == m->logger && g.level == m->level && g.fiber == m->thread, "torn", "sink " << in.sink << " gets '" << g.text << "' with wrong attributes: logger '" << g.logger << "' level " << g.level);
				SIM_CHECK(g.begin > m->begin && g.end && g.end < m->end, "outside", "a sink is called outside the logging call");
				SIM_CHECK(m->begin > lastBegin[m->thread], "order", "sink " << in.sink << " gets '" << g.text << "' late");
				lastBegin[m->thread] = m->begin;
			}
			for (Msg& m : hub.msgs)
			{
				std::set<int> levels = hub.Effective(m.logger, m.begin, m.end);
				bool must = true, never = true; for (int l : levels) if (m.level >= l) never = false; else must = false;
				bool got = n.count(m.text) != 0;
				bool installed = in.addEnd && in.addEnd < m.begin && (!in.remBegin || in.remBegin > m.end);
				bool absent = in.addBegin > m.end || (in.remEnd && in.remEnd < m.begin);
				if (must && installed) SIM_CHECK(got, "lost", "sink " << in.sink << " does not get '" << m.text << "' of level " << m.level);
				if (never) SIM_CHECK(!got, "below-level", "sink " << in.sink << " gets '" << m.text << "' of level " << m.level << " below the level of its logger");
				if (absent) SIM_CHECK(!got, "removed-sink", "sink " << in.sink << " gets '" << m.text << "' logged after it was removed or before it was added");
			}
		}
	}

	NamedLogger& Shared(int i) { static NamedLogger a("first"), b("second"); return i ? b : a; }
}

SIM_SCENARIO_F(sinks_and_levels, 6, sim::NoSpurious)
{
	Hub hub; Hub* ph = &hub;
	// one sink which stays: nothing goes to the system log
	Logger::SetLogLevel(LogLevel(LogLevel::Silent)); hub.levels.push_back(LevelChange{ "", LogLevel::Silent, 0, 0 });
	hub.levels.push_back(LevelChange{ "first", -1, 0, 0 }); hub.levels.push_back(LevelChange{ "second", -1, 0, 0 });
	Install* first; do first = AddSink(ph, 0); while (!first);
	SetLevel(ph, "", sim::WP(50) ? LogLevel::Info : LogLevel::Trace);
	Shared(0);
	int pre = sim::W(3); for (int i = 0; i < pre; ++i) AddSink(ph, sim::W(3));
	if (sim::WP(40)) SetLevel(ph, sim::WP(50) ? "first" : "second", (int)sim::W(6) - 1);
	Clients cs; int n = sim::WR(1, 4);
	for (int t = 0; t < n; ++t)
		Spawn(cs, "user", [=]
		{
			int ops = sim::WR(2, 6); std::vector<Install*> mine; std::unique_ptr<NamedLogger> own;
			for (int o = 0; o < ops; ++o)
				switch (sim::W(8))
				{
				case 0: case 1: LogOne(ph, nullptr, ""); break;
				case 2: case 3: { int i = sim::W(2); LogOne(ph, &Shared(i), i ? "second" : "first"); break; }
				case 4: if (Install* in = AddSink(ph, sim::W(3))) mine.push_back(in); break;
				case 5: if (!mine.empty()) { RemoveSink(mine.back()); mine.pop_back(); } break;
				case 6: { const char* names[] = { "", "first", "second" }; int w = sim::W(3); SetLevel(ph, names[w], w ? (int)sim::W(7) - 1 : (int)sim::W(6)); break; }
				case 7:
				{
					// another logger of the same name, made late
					int i = sim::W(2); own.reset();
					bool ok = true;
					try { sim::AllocFaults a(40); own.reset(new NamedLogger(i ? "second" : "first")); } catch (const std::bad_alloc&) { ok = false; sim::probe("making a logger failed"); }
					if (ok) LogOne(ph, own.get(), i ? "second" : "first");
					std::set<std::string> names = Logger::GetLoggerNames();
					SIM_CHECK(names.count("first") && names.count("second"), "registry", "a named logger is not listed");
					break;
				}
				}
			for (Install* in : mine) if (sim::WP(50)) RemoveSink(in);
		});
	JoinAll(cs);
	LogOne(ph, nullptr, ""); LogOne(ph, &Shared(1), "second");
	// a level set last is the level
	const char* names[] = { "first", "second" };
	for (int i = 0; i < 2; ++i)
	{
		std::set<int> l; { sim::Quiet q; l = hub.Levels(names[i], sim::seq(), sim::seq()); }
		if (l.size() == 1) { optional<LogLevel> got = Logger::GetLogLevel(names[i]); SIM_CHECK((got ? (int)got->val() : -1) == *l.begin(), "level", "the level of a logger is not the one set"); }
	}
	for (Install& in : hub.installs) if (&in != first && in.token) RemoveSink(&in);
	LogOne(ph, nullptr, "");
	Check(hub);
	{ sim::Quiet q; for (Install& in : hub.installs) in.remBegin = in.remBegin ? in.remBegin : 1; }
	Logger::SetLogLevel(LogLevel(LogLevel::Silent));
	first->token.reset();
}

// What exceptions of sinks do: nothing to the caller and to the other sinks, for every place of the throwing one
SIM_SCENARIO(throwing_sinks, 1)
{
	Hub hub; Hub* ph = &hub;
	Logger::SetLogLevel(LogLevel(LogLevel::Silent)); hub.levels.push_back(LevelChange{ "", LogLevel::Silent, 0, 0 });
	int n = sim::WR(1, 18); bool any = false;
	for (int i = 0; i < n || !any; ++i) if (AddSink(ph, sim::WP(30) ? 1 : 0)) any = true;
	SetLevel(ph, "", LogLevel::Debug);
	for (int i = 0; i < 3; ++i) LogOne(ph, nullptr, "");
	for (Install& in : hub.installs) if (in.token && &in != &hub.installs.back() && sim::WP(30)) { bool others = false; for (Install& o : hub.installs) if (&o != &in && o.token && !o.remBegin) others = true; if (others) RemoveSink(&in); }
	for (int i = 0; i < 2; ++i) LogOne(ph, nullptr, "");
	Check(hub);
	Logger::SetLogLevel(LogLevel(LogLevel::Silent));
	for (Install& in : hub.installs) in.token.reset();
}

// Hiding of duplicates: every message which differs from the one before at its place is passed
SIM_SCENARIO_F(hidden_duplicates, 2, sim::NoSpurious)
{
	Hub hub; Hub* ph = &hub;
	Logger::SetLogLevel(LogLevel(LogLevel::Silent)); hub.levels.push_back(LevelChange{ "", LogLevel::Silent, 0, 0 });
	Install* first; do first = AddSink(ph, 0); while (!first);
	Shared(0);
	Logger::SetLogLevel(LogLevel(LogLevel::Info));
	static DuplicatingLogsFilter filter;
	Clients cs; int n = sim::WR(1, 3); bool named = sim::WP(70), byTime = sim::WP(30); int logged = 0, *pl = &logged;
	std::set<std::string> texts, *pt = &texts;
	for (int t = 0; t < n; ++t)
		Spawn(cs, "user", [=]
		{
			int ops = sim::WR(1, 6);
			for (int o = 0; o < ops; ++o)
			{
				std::string text = "duplicate text which is long enough " + std::to_string(sim::W(2));
				{ sim::Quiet q; ++*pl; pt->insert(text); }
				if (named) { if (byTime) Shared(0).Info() << STINGRAYKIT_HIDE_DUPLICATING_LOGS(Ms(1)) << text; else if (sim::WP(50)) Shared(0).Info() << STINGRAYKIT_HIDE_DUPLICATING_LOGS(3) << text; else Shared(0).Info() << STINGRAYKIT_HIDE_DUPLICATING_LOGS(3) << text; }
				else Logger::Info() << STINGRAYKIT_HIDE_DUPLICATING_LOGS(3, filter) << text;
				if (byTime) sim::sleepUs(sim::W(3) * 500);
			}
		});
	JoinAll(cs);
	Logger::SetLogLevel(LogLevel(LogLevel::Silent));
	sim::Quiet q;
	std::set<std::string> seen; int shown = 0;
	for (Got& g : *first->got)
	{
		if (g.text.compare(0, 10, "duplicate ") != 0) continue;
		std::string base = g.text.substr(0, 37); ++shown;
		SIM_CHECK(texts.count(base) && (g.text.size() == 37 || g.text.find(" times)") == g.text.size() - 7), "torn", "a sink gets '" << g.text << "'");
		if (g.text.size() == 37) seen.insert(base);
	}
	SIM_CHECK(seen == texts, "lost", "a text hidden as a duplicate was never shown");
	SIM_CHECK(shown <= 2 * logged, "duplicate", "hiding of duplicates shows more than was logged");
	first->token.reset();
}

// A log level per thread of execution of actions and tracers; entry and exit
SIM_SCENARIO(actions, 1)
{
	Hub hub; Hub* ph = &hub;
	Logger::SetLogLevel(LogLevel(LogLevel::Silent));
	Install* first; do first = AddSink(ph, sim::WP(30) ? 1 : 0); while (!first);
	Logger::SetLogLevel(LogLevel(LogLevel::Info));
	bool thrown = sim::WP(40), named = sim::WP(50); LogLevel::Enum l = AllLevels[sim::W(5)];
	try
	{
		std::unique_ptr<ActionLogger> a(named ? new ActionLogger(Shared(0), LogLevel(l), "action") : new ActionLogger(LogLevel(l), "action"));
		if (thrown) { struct X { std::unique_ptr<ActionLogger>& A; ~X() { A.reset(); } } x{ a }; throw std::runtime_error("inside"); }
	}
	catch (const std::runtime_error&) { SIM_CHECK(thrown, "unexpected", "an action logger throws"); }
	Logger::SetLogLevel(LogLevel(LogLevel::Silent));
	int begun = 0, ended = 0, wrong = 0;
	for (Got& g : *first->got) { if (g.text == "action...") ++begun; else if (g.text.compare(0, 16, "action completed") == 0) { ++ended; if ((g.text.find("with exception") != std::string::npos) != thrown) ++wrong; } }
	int want = l >= LogLevel::Info ? 1 : 0;
	SIM_CHECK(begun == want && ended == want && !wrong, "lost", "an action is logged " << begun << " and " << ended << " times, " << wrong << " wrong");
	first->token.reset();
}

// What is set for a name holds for every logger of that name, be it made before or after, and for no other; what is set on a logger holds for it alone
namespace
{
	struct Setting { int level = -1; bool backtrace = false, highlight = false; bool Empty() const { return level < 0 && !backtrace && !highlight; } };
	struct NamedOne { std::unique_ptr<NamedLogger> logger; Setting s; };

	optional<LogLevel> Lvl(int l) { return l < 0 ? optional<LogLevel>() : optional<LogLevel>(LogLevel((LogLevel::Enum)l)); }
}

SIM_SCENARIO_F(settings, 2, sim::NoSpurious)
{
	Hub hub; Hub* ph = &hub;
	Logger::SetLogLevel(LogLevel(LogLevel::Silent));
	Install* sink; do sink = AddSink(ph, 0); while (!sink);
	int global = AllLevels[sim::W(5)]; Logger::SetLogLevel(LogLevel((LogLevel::Enum)global));
	Clients cs; int n = sim::WR(1, 3);
	for (int t = 0; t < n; ++t)
		Spawn(cs, "user", [=]
		{
			std::map<std::string, Setting> named; std::vector<std::string> names; std::deque<NamedOne> live;
			{ sim::Quiet q; for (int i = 0; i < 2; ++i) names.push_back("set" + std::to_string(t) + std::to_string(i)); }
			int made = 0;
			for (int ops = sim::WR(2, 14); ops; --ops)
			{
				std::string name; { sim::Quiet q; name = names[sim::W(2)]; } Setting* s; { sim::Quiet q; s = &named[name]; }
				NamedOne* one = live.empty() ? nullptr : &live[sim::W(live.size())]; int level = (int)sim::W(6) - 1; if (level >= 0) level = AllLevels[level]; bool on = sim::WP(50);
				switch (sim::W(9))
				{
				case 0: case 1: { int own = s->Empty() ? level : -1; NamedOne* x; { sim::Quiet q; live.emplace_back(); x = &live.back(); x->s = *s; if (s->Empty()) x->s.level = own; } x->logger.reset(new NamedLogger(name, Lvl(own))); ++made; } break;
				case 2: if (one) { size_t i = sim::W(live.size()); live[i].logger.reset(); sim::Quiet q; live.erase(live.begin() + i); } break;
				case 3: Logger::SetLogLevel(name, Lvl(level)); { sim::Quiet q; s->level = level; for (NamedOne& x : live) if (x.logger->GetName() == name) x.s.level = level; } break;
				case 4: Logger::EnableBacktrace(name, on); { sim::Quiet q; s->backtrace = on; for (NamedOne& x : live) if (x.logger->GetName() == name) x.s.backtrace = on; } break;
				case 5: Logger::EnableHighlight(name, on); { sim::Quiet q; s->highlight = on; for (NamedOne& x : live) if (x.logger->GetName() == name) x.s.highlight = on; } break;
				case 6: if (one) { one->logger->SetLogLevel(Lvl(level)); one->s.level = level; } break;
				case 7: if (one) { one->logger->EnableBacktrace(on); one->s.backtrace = on; } break;
				default: if (one) { one->logger->EnableHighlight(on); one->s.highlight = on; } break;
				}
				for (NamedOne& x : live)
				{
					int level = x.logger->GetLogLevel().val(), want = x.s.level >= 0 ? x.s.level : global; bool b = x.logger->BacktraceEnabled(), h = x.logger->HighlightEnabled();
					SIM_CHECK(level == want, "level", "a logger has the level " << level << " instead of " << want);
					SIM_CHECK(b == x.s.backtrace && h == x.s.highlight, "level", "a logger has backtraces " << b << " and highlighting " << h << " instead of " << x.s.backtrace << " and " << x.s.highlight);
				}
				auto set = Logger::GetLogLevel(name); int l = set ? (int)set->val() : -1;
				SIM_CHECK(l == s->level, "level", "the level " << l << " is set for a name instead of " << s->level);
				auto all = Logger::GetLoggerNames();
				{ sim::Quiet q; for (const std::string& x : names) { bool is = false; for (NamedOne& y : live) is = is || y.logger->GetName() == x; SIM_CHECK((all.count(x) != 0) == is, "level", "a logger which is " << (is ? "there is not" : "gone is still") << " listed"); } }
			}
			for (NamedOne& x : live)
			{
				std::string text; size_t from; { sim::Quiet q; text = "from " + x.logger->GetName() + " which is long enough"; from = sink->got->size(); }
				for (int l : AllLevels) if (l < (int)LogLevel::Silent) x.logger->Stream(LogLevel((LogLevel::Enum)l)) << text;
				sim::Quiet q; std::vector<int> got, want; int level = x.s.level >= 0 ? x.s.level : global;
				for (size_t i = from; i < sink->got->size(); ++i)
				{
					Got& g = (*sink->got)[i]; if (g.text.compare(0, text.size(), text)) continue; got.push_back(g.level);
					SIM_CHECK(g.logger == x.logger->GetName() && g.highlight == x.s.highlight && (g.text.size() > text.size()) == x.s.backtrace, "torn", "a message of a logger comes with another name, highlighting or backtrace than set");
				}
				for (int l : AllLevels) if (l < (int)LogLevel::Silent && l >= level) want.push_back(l);
				SIM_CHECK(got == want, "lost", "a logger passed " << got.size() << " messages instead of " << want.size());
			}
			for (NamedOne& x : live) x.logger.reset();
			{ sim::Quiet q; live.clear(); }
			for (const std::string& x : names) { Logger::SetLogLevel(x, null); Logger::EnableBacktrace(x, false); Logger::EnableHighlight(x, false); }
		});
	JoinAll(cs);
	Logger::SetLogLevel(LogLevel(LogLevel::Silent));
	sink->token.reset();
}
