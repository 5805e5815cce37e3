// C01: delivery of emissions: completeness, order, exceptions, re-entrancy
#include "common.h"
#include <stingraykit/signal/signals.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>

namespace
{
	struct Call { int emission; uint64_t begin, end; int thread; };
	struct Handler
	{
		int id; bool async = false, nestedDone = false;
		uint64_t connBegin = 0, connEnd = 0, disBegin = 0, disEnd = 0;	// 0: not yet
		std::vector<Call> calls;
		int throwsEvery = 0, threw = 0;
		std::unique_ptr<Token> token;
		std::function<void (int)> inside;
	};
	struct Emission { int id, emitter; uint64_t begin = 0, end = 0; int thread; };

	typedef signal<void (int, const std::string&)> DefaultSignal;
	typedef signal<void (int, const std::string&), signal_policies::threading::ExternalMutexPointer> ExternalSignal;

	struct Hub
	{
		std::deque<Handler> handlers; std::deque<Emission> emissions;
		std::map<std::string, int> thrown, caught;
		std::map<int, std::vector<int> > byEmitter;
		int depth = 0;

		Handler* NewHandler() { sim::Quiet q; handlers.emplace_back(); handlers.back().id = (int)handlers.size() - 1; return &handlers.back(); }
		Emission* NewEmission(int emitter) { sim::Quiet q; emissions.emplace_back(); Emission* e = &emissions.back(); e->id = (int)emissions.size() - 1; e->emitter = emitter; e->thread = sim::self(); return e; }

		static std::string Payload(int id) { return "payload of emission number " + std::to_string(id); }

		void Handle(Handler* h, int e, const std::string& payload)
		{
			{ sim::Quiet q; SIM_CHECK(e >= 0 && e < (int)emissions.size() && payload == Payload(e), "wrong-arguments", "a handler got " << e << " and '" << payload << "'"); }
			size_t index; { sim::Quiet q; index = h->calls.size(); h->calls.push_back(Call{ e, sim::seq(), 0, sim::self() }); }
			sim::point();
			if (h->inside) h->inside(e);
			sim::point();
			bool thrown = false; std::string what;
			{
				sim::Quiet q; h->calls[index].end = sim::seq();
				if (h->throwsEvery && (e % h->throwsEvery) == 0) { thrown = true; ++h->threw; what = "handler " + std::to_string(h->id) + " emission " + std::to_string(e); ++this->thrown[what]; }
			}
			if (thrown) ThrowSome(what);
		}

		void Caught(const std::exception& ex) { sim::Quiet q; ++caught[ex.what()]; }

		template < typename SignalT > bool Connect(const SignalT& s, Handler* h, const ITaskExecutorPtr& executor = null)
		{
			Hub* self = this;
			auto f = Fn<void (int, const std::string&)>([self, h](int e, const std::string& p) { self->Handle(h, e, p); });
			{ sim::Quiet q; h->connBegin = sim::seq(); h->async = bool(executor); }
			try
			{
				sim::AllocFaults a(40);
				Token t = executor ? s.connect(executor, f) : s.connect(f);
				sim::Quiet q; h->token.reset(new Token(std::move(t)));
				h->connEnd = sim::seq(); sim::hbRelease(h);
				return true;
			}
			catch (const std::bad_alloc&) { sim::probe("connect failed"); sim::Quiet q; h->connEnd = h->connBegin = ~0ull; return false; }
		}

		void Disconnect(Handler* h)
		{
			{ sim::Quiet q; if (!h->token || h->disBegin) return; h->disBegin = sim::seq(); }
			sim::hbAcquire(h);
			h->token->Reset();
			sim::Quiet q; h->disEnd = sim::seq();
		}

		template < typename F > void Emit(int emitter, const F& f)
		{
			Emission* e = NewEmission(emitter);
			std::string payload; { sim::Quiet q; payload = Payload(e->id); e->begin = sim::seq(); byEmitter[emitter].push_back(e->id); }
			f(e->id, payload);
			sim::Quiet q; e->end = sim::seq();
		}

		void Check()
		{
			sim::Quiet q;
			for (Handler& h : handlers)
			{
				std::map<int, int> n; std::map<int, int> last;
				for (Call& c : h.calls)
				{
					++n[c.emission];
					Emission& e = emissions[c.emission];
					SIM_CHECK(h.async || (c.thread == e.thread && c.begin > e.begin && c.end && (!e.end || c.end < e.end)), "outside-emission", "handler " << h.id << " runs outside emission " << e.id);
					SIM_CHECK(c.begin > h.connBegin && (!h.disEnd || c.begin < h.disEnd), "not-connected", "handler " << h.id << " runs though it is not connected");
				}
				if (!h.nestedDone)
					for (Call& c : h.calls)
					{
						int em = emissions[c.emission].emitter;
						if (last.count(em)) SIM_CHECK(last[em] < c.emission, "emission-order", "handler " << h.id << " sees emission " << c.emission << " after " << last[em]);
						last[em] = c.emission;
					}
				for (Emission& e : emissions)
				{
					int k = n.count(e.id) ? n[e.id] : 0;
					SIM_CHECK(k <= 1, "invoked-twice", "handler " << h.id << " is invoked " << k << " times by emission " << e.id);
					bool stays = h.connEnd && h.connEnd < e.begin && e.end && (!h.disBegin || (!h.async && h.disBegin > e.end));
					if (stays) SIM_CHECK(k == 1, "not-invoked", "handler " << h.id << " stays connected but is not invoked by emission " << e.id);
					bool never = (h.disEnd && h.disEnd < e.begin) || (e.end && h.connBegin > e.end);
					if (never) SIM_CHECK(k == 0, "not-connected", "handler " << h.id << " is not connected but invoked by emission " << e.id);
				}
			}
			// order of the handlers inside each emission
			std::map<int, std::vector<std::pair<uint64_t, Handler*> > > byEmission;
			for (Handler& h : handlers) if (!h.async) for (Call& c : h.calls) byEmission[c.emission].push_back(std::make_pair(c.begin, &h));
			for (auto& x : byEmission)
			{
				std::sort(x.second.begin(), x.second.end());
				for (size_t i = 0; i < x.second.size(); ++i)
					for (size_t j = i + 1; j < x.second.size(); ++j)
						SIM_CHECK(!(x.second[j].second->connEnd && x.second[j].second->connEnd < x.second[i].second->connBegin), "connection-order", "emission " << x.first << " invokes handler " << x.second[i].second->id << " before " << x.second[j].second->id << " connected earlier");
			}
			for (auto& x : thrown) SIM_CHECK(caught[x.first] == x.second, "exception-count", "the exception of " << x.first << " reaches the exception handler " << caught[x.first] << " times");
			for (auto& x : caught) if (x.first != "std::bad_alloc") SIM_CHECK(thrown.count(x.first), "exception-count", "the exception handler gets an exception never thrown: " << x.first);
		}
	};

	// Waits for what another thread does with the signal
	void InOtherThread(const char* what, const std::function<void ()>& f)
	{
		sim::Client c(f, "other");
		SIM_CHECK(sim::waitFor([&] { return c.Done(); }, 120000000), "deadlock", "another thread cannot " << what << " while a handler runs");
		c.Join();
	}

	template < typename SignalT, typename MakeT > void Concurrent(MakeT make, bool reentrant)
	{
		SilenceLog();
		Hub hub; Hub* ph = &hub;
		std::unique_ptr<SignalT> s(make(ph)); SignalT* ps = s.get();
		bool many = sim::WP(reentrant ? 8 : 15), throwing = sim::WP(40);
		// a handler is run by one thread at a time, so nested emissions are for one emitter
		int emitters = sim::WR(1, reentrant ? 2 : 3); bool alone = emitters == 1;
		int n = many ? sim::WR(15, 36) : sim::WR(0, 4);
		std::function<void (Handler*)> arm = [=](Handler* h)
		{
			if (throwing && sim::WP(40)) h->throwsEvery = sim::WR(1, 3);
			if (!reentrant || !sim::WP(many ? 10 : 60)) return;
			int what = sim::W(6), at = sim::W(3);
			int* seen = new int(0);
			h->inside = [=](int e)
			{
				{ sim::Quiet q; if ((*seen)++ != at || ph->depth > 2) return; ++ph->depth; }
				switch (what)
				{
				case 0: { Handler* x = ph->NewHandler(); ph->Connect(*ps, x); sim::hbRelease(x); break; }
				case 1: ph->Disconnect(h); break;
				case 2: { Handler* victim = nullptr; { sim::Quiet q; for (Handler& o : ph->handlers) if (&o != h && o.token && !o.disBegin && o.connEnd && !o.inside && o.throwsEvery == 0) { bool running = false; for (Call& c : o.calls) if (!c.end) running = true; if (!running) victim = &o; } } if (victim) ph->Disconnect(victim); break; }
				case 3: { if (!alone) break; { sim::Quiet q; for (Handler& o : ph->handlers) o.nestedDone = true; } ph->Emit(1000 + h->id, [&](int i, const std::string& p) { (*ps)(i, p); }); break; }
				case 4: InOtherThread("connect", [=] { Handler* x = ph->NewHandler(); ph->Connect(*ps, x); sim::hbRelease(x); }); break;
				case 5: InOtherThread("connect and disconnect", [=] { Handler* x = ph->NewHandler(); if (ph->Connect(ps->connector(), x)) { sim::point(); ph->Disconnect(x); } sim::hbRelease(x); }); break;
				}
				sim::Quiet q; --ph->depth;
			};
		};
		for (int i = 0; i < n; ++i) { Handler* h = hub.NewHandler(); arm(h); hub.Connect(*s, h); sim::hbRelease(h); }
		Clients cs;
		int users = many ? sim::WR(1, 2) : sim::WR(0, 2);
		// some of the handlers connected at first are disconnected by the users later
		std::vector<std::vector<Handler*> > dealt(users + 1); if (!reentrant) for (Handler& h : hub.handlers) if (users && sim::WP(40)) dealt[sim::W(users)].push_back(&h);
		for (int t = 0; t < emitters; ++t)
		{
			auto* inv = new typename SignalT::Invoker(s->invoker());
			Spawn(cs, "emitter", [=]
			{
				typename SignalT::Invoker invoker(*inv); delete inv;
				int count = sim::WR(1, many ? 2 : 4);
				for (int i = 0; i < count; ++i) { bool direct = sim::WP(50); ph->Emit(t, [&](int id, const std::string& p) { if (direct) (*ps)(id, p); else invoker(id, p); }); }
			});
		}
		for (int t = 0; t < users; ++t)
		{
			const std::vector<Handler*> old = dealt[t];
			Spawn(cs, "user", [=]
			{
				int ops = sim::WR(1, many ? 8 : 5); std::vector<Handler*> mine(old);
				for (int o = 0; o < ops; ++o)
				{
					if (mine.empty() || sim::WP(60))
					{
						Handler* h = ph->NewHandler(); if (throwing && sim::WP(40)) h->throwsEvery = sim::WR(1, 3);
						if (sim::WP(50) ? ph->Connect(*ps, h) : ph->Connect(ps->connector(), h)) mine.push_back(h);
					}
					else { size_t i = sim::W((uint32_t)mine.size()); ph->Disconnect(mine[i]); mine.erase(mine.begin() + i); }
				}
				for (Handler* h : mine) sim::hbRelease(h);
			});
		}
		JoinAll(cs);
		if (sim::WP(50)) { for (Handler& h : hub.handlers) if (sim::WP(50)) hub.Disconnect(&h); hub.Emit(3000, [&](int id, const std::string& p) { (*s)(id, p); }); }
		if (sim::WP(30))
		{
			// an invoker goes on working without the signal
			std::unique_ptr<typename SignalT::Invoker> last; if (!reentrant && sim::WP(60)) last.reset(new typename SignalT::Invoker(s->invoker()));
			s.reset();
			if (last) { auto* l = last.get(); if (sim::WP(50)) { sim::Client c([=] { ph->Emit(4000, [&](int id, const std::string& p) { (*l)(id, p); }); }, "late emitter"); c.Join(); } else hub.Emit(4000, [&](int id, const std::string& p) { (*l)(id, p); }); }
			for (Handler& h : hub.handlers) hub.Disconnect(&h);
			last.reset();
		}
		hub.Check();
		for (Handler& h : hub.handlers) hub.Disconnect(&h);
	}

	DefaultSignal* MakeDefault(Hub* h) { return new DefaultSignal(null, signal_policies::exception_handling::ExceptionHandlerFunc(Fn<void (const std::exception&)>([h](const std::exception& ex) { h->Caught(ex); }))); }
}

SIM_SCENARIO_F(concurrent, 6, sim::NoSpurious)
{ Concurrent<DefaultSignal>(&MakeDefault, false); }

SIM_SCENARIO_F(reentrant, 4, sim::NoSpurious)
{ Concurrent<DefaultSignal>(&MakeDefault, true); }

// Signals which share a mutex with a populator, without exceptions counted (the default handler logs them)
SIM_SCENARIO_F(external_mutex, 2, sim::NoSpurious)
{
	SilenceLog();
	Hub hub; Hub* ph = &hub;
	shared_ptr<Mutex> m = make_shared_ptr<Mutex>();
	ExternalSignal a((signal_policies::threading::ExternalMutexPointer(m))), b((signal_policies::threading::ExternalMutexPointer(m)));
	ExternalSignal* sig[] = { &a, &b };
	Hub other; Hub* hubs[] = { ph, &other };
	Clients cs; int n = sim::WR(2, 4);
	for (int t = 0; t < n; ++t)
		Spawn(cs, "user", [&, t]
		{
			int ops = sim::WR(1, 5);
			for (int o = 0; o < ops; ++o)
			{
				int w = sim::W(2); Hub* hb = hubs[w]; ExternalSignal* s = sig[w];
				switch (sim::W(4))
				{
				case 0: { Handler* h = hb->NewHandler(); hb->Connect(*s, h); if (sim::WP(50)) hb->Disconnect(h); sim::hbRelease(h); break; }
				case 1: hb->Emit(t, [&](int id, const std::string& p) { (*s)(id, p); }); break;
				case 2: { signal_locker l(*s); hb->Emit(t, [&](int id, const std::string& p) { (*s)(id, p); }); break; }
				case 3: { MutexLock l(*m); Handler* h = hb->NewHandler(); hb->Connect(*s, h); hb->Emit(t, [&](int id, const std::string& p) { (*s)(id, p); }); sim::hbRelease(h); break; }
				}
			}
		});
	JoinAll(cs);
	hub.Check(); other.Check();
	for (Hub* hb : hubs) for (Handler& h : hb->handlers) hb->Disconnect(&h);
}

// Handlers in executors: each emission once, in the order of each emitter, one at a time
SIM_SCENARIO_F(asynchronous, 4, sim::NoSpurious)
{
	SilenceLog();
	Hub hub; Hub* ph = &hub;
	{
		std::unique_ptr<DefaultSignal> s(sim::WP(50) ? new DefaultSignal : MakeDefault(ph)); DefaultSignal* ps = s.get();
		ITaskExecutorPtr ex[2]; int nEx = sim::WR(1, 2);
		for (int i = 0; i < nEx; ++i) ex[i] = make_shared_ptr<ThreadTaskExecutor>("worker", optional<TimeDuration>(), signal_policies::exception_handling::ExceptionHandlerFunc(Fn<void (const std::exception&)>([ph](const std::exception& e) { ph->Caught(e); })));
		int n = sim::WR(1, 4);
		for (int i = 0; i < n; ++i) { Handler* h = hub.NewHandler(); if (sim::WP(30)) h->throwsEvery = sim::WR(1, 3); hub.Connect(*s, h, sim::WP(70) ? ex[sim::W(nEx)] : ITaskExecutorPtr()); if (!h->async) h->throwsEvery = 0; sim::hbRelease(h); }
		Clients cs; int emitters = sim::WR(1, 3), users = sim::W(2);
		for (int t = 0; t < emitters; ++t)
			Spawn(cs, "emitter", [=] { int count = sim::WR(1, 4); for (int i = 0; i < count; ++i) { std::string local; ph->Emit(t, [&](int id, const std::string& p) { local = p; (*ps)(id, local); local.assign(local.size(), '#'); }); } });
		for (int t = 0; t < users; ++t)
		{
			ITaskExecutorPtr* own = new ITaskExecutorPtr(ex[0]);
			Spawn(cs, "user", [=]
			{
				ITaskExecutorPtr e(*own); delete own;
				int ops = sim::WR(1, 4); std::vector<Handler*> mine;
				for (int o = 0; o < ops; ++o)
					if (mine.empty() || sim::WP(60)) { Handler* h = ph->NewHandler(); if (ph->Connect(*ps, h, e)) mine.push_back(h); }
					else { ph->Disconnect(mine.back()); mine.pop_back(); }
				for (Handler* h : mine) sim::hbRelease(h);
			});
		}
		JoinAll(cs);
		if (sim::WP(50)) s.reset();
		// every handler still connected gets what was emitted
		bool done = sim::waitFor([&]
		{
			for (Handler& h : hub.handlers)
				if (h.token && !h.disBegin)
					for (Emission& e : hub.emissions) if (h.connEnd < e.begin) { bool found = false; for (Call& c : h.calls) if (c.emission == e.id && c.end) found = true; if (!found) return false; }
			return true;
		}, 120000000);
		SIM_CHECK(done, "not-invoked", "a handler in an executor is not invoked");
		if (sim::WP(50)) for (Handler& h : hub.handlers) hub.Disconnect(&h);
		s.reset();
		for (auto& e : ex) e.reset();
		for (Handler& h : hub.handlers) hub.Disconnect(&h);		// the last references of the executors go here
	}
	hub.Check();
}

// One thread, threadless signal: order, exceptions, connections made and dropped inside handlers
SIM_SCENARIO(threadless, 1)
{
	SilenceLog();
	typedef signal<void (int, const std::string&), signal_policies::threading::Threadless> S;
	Hub hub; Hub* ph = &hub;
	std::unique_ptr<S> s(new S(null, signal_policies::exception_handling::ExceptionHandlerFunc(Fn<void (const std::exception&)>([ph](const std::exception& ex) { ph->Caught(ex); })))); S* ps = s.get();
	int n = sim::WR(1, 5);
	for (int i = 0; i < n; ++i)
	{
		Handler* h = hub.NewHandler(); if (sim::WP(30)) h->throwsEvery = sim::WR(1, 2);
		if (sim::WP(30)) { int* seen = new int(0); h->inside = [=](int) { if ((*seen)++) return; Handler* x = ph->NewHandler(); ph->Connect(*ps, x); if (sim::WP(30)) ph->Disconnect(x); }; }
		hub.Connect(*s, h);
	}
	int e = sim::WR(1, 4);
	for (int i = 0; i < e; ++i) { hub.Emit(0, [&](int id, const std::string& p) { if (sim::WP(50)) (*ps)(id, p); else ps->invoker()(id, p); }); if (sim::WP(30)) hub.Disconnect(&hub.handlers[sim::W((uint32_t)hub.handlers.size())]); }
	hub.Check();
	for (Handler& h : hub.handlers) hub.Disconnect(&h);
}

// Which kinds of connection a signal takes
SIM_SCENARIO(connection_policy, 1)
{
	SilenceLog();
	ConnectionPolicy p = sim::WP(50) ? ConnectionPolicy::SyncOnly : sim::WP(50) ? ConnectionPolicy::AsyncOnly : ConnectionPolicy::Any;
	signal<void (int)> s(null, null, p);
	int got = 0, *pg = &got;
	ITaskExecutorPtr ex = make_shared_ptr<ThreadTaskExecutor>("worker", optional<TimeDuration>());
	Token t; bool async = sim::WP(50), through = sim::WP(50), threw = false;
	auto f = Fn<void (int)>([pg](int v) { sim::Quiet q; *pg += v; });
	try { if (through) t = async ? s.connector().connect(ex, f) : s.connector().connect(f); else t = async ? s.connect(ex, f) : s.connect(f); } catch (const std::exception&) { threw = true; }
	bool allowed = p == ConnectionPolicy::Any || (p == ConnectionPolicy::AsyncOnly) == async;
	SIM_CHECK(threw == !allowed, "wrong-policy", "a connection is " << (threw ? "refused" : "accepted"));
	s(3);
	if (allowed) SIM_CHECK(sim::waitFor([&] { return got == 3; }, 60000000), "not-invoked", "a handler is not invoked"); else SIM_CHECK(got == 0, "invoked", "a refused handler is invoked");
	t.Reset(); s(4); sim::sleepUs(1000); sim::Quiet q; SIM_CHECK(got == (allowed ? 3 : 0), "not-connected", "a disconnected handler is invoked");
}

// Arguments passed by value: every handler gets them whole, whatever the others do with theirs
SIM_SCENARIO_F(by_value, 2, sim::NoSpurious)
{
	SilenceLog();
	typedef std::vector<std::string> Texts;
	struct H { std::vector<std::string> got; bool async = false; };
	std::deque<H> hs; int emitted = 0;
	ITaskExecutorPtr ex = make_shared_ptr<ThreadTaskExecutor>("worker", optional<TimeDuration>());
	{
		signal<void (std::string, Texts, shared_ptr<int>)> s; auto* ps = &s;
		std::vector<Token> tokens;
		int n = sim::WR(1, 4);
		for (int i = 0; i < n; ++i)
		{
			hs.emplace_back(); H* h = &hs.back(); h->async = sim::WP(30); bool wrecks = sim::WP(50);
			auto f = Fn<void (std::string, Texts, shared_ptr<int>)>([h, wrecks](std::string a, Texts b, shared_ptr<int> c)
			{
				sim::point();
				{
					sim::Quiet q;
					std::string text = a + "|" + (b.size() == 2 ? b[0] + "|" + b[1] : "?") + "|" + (c ? std::to_string(*c) : "null");
					h->got.push_back(text);
				}
				if (wrecks) { std::string x(std::move(a)); Texts y(std::move(b)); y.clear(); c.reset(); a = "wreck"; }
			});
			tokens.push_back(h->async ? s.connect(ex, f) : s.connect(f));
		}
		Clients cs; int emitters = sim::WR(1, 2), each = sim::WR(1, 3); emitted = emitters * each;
		for (int t = 0; t < emitters; ++t)
			Spawn(cs, "emitter", [=]
			{
				for (int i = 0; i < each; ++i)
				{
					std::string a; Texts b; std::string m; { sim::Quiet q; m = std::to_string(t) + "." + std::to_string(i); a = "a text too long for its place inside a string " + m; b.push_back("b " + m); b.push_back("another long text of emission number " + m); }
					shared_ptr<int> c = make_shared_ptr<int>(t * 100 + i);
					bool through = sim::WP(40);
					if (through) ps->invoker()(a, b, c); else (*ps)(a, b, c);
					sim::Quiet q; SIM_CHECK(a == "a text too long for its place inside a string " + m && b.size() == 2 && c && *c == t * 100 + i, "wrong-arguments", "an emission changes the caller's arguments");
				}
			});
		JoinAll(cs);
		SIM_CHECK(sim::waitFor([&] { for (H& h : hs) if ((int)h.got.size() < emitted) return false; return true; }, 120000000), "not-invoked", "a handler is not invoked");
		std::multiset<std::string> want;
		for (int t = 0; t < emitters; ++t) for (int i = 0; i < each; ++i) { std::string m = std::to_string(t) + "." + std::to_string(i); want.insert("a text too long for its place inside a string " + m + "|b " + m + "|another long text of emission number " + m + "|" + std::to_string(t * 100 + i)); }
		{ sim::Quiet q; int i = 0; for (H& h : hs) { std::multiset<std::string> got(h.got.begin(), h.got.end()); std::string all; for (auto& g : got) all += g + "; "; SIM_CHECK(got == want, "wrong-arguments", "handler " << i << " gets " << all); ++i; } }
		tokens.clear();
	}
	ex.reset();
}
