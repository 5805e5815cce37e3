// C09: CancellationToken, TimedCancellationToken, JoiningCancellationToken, DummyCancellationToken, CancellationRegistrator, ConditionVariable::Wait(token)
#include "common.h"
#include <stingraykit/thread/TimedCancellationToken.h>
#include <stingraykit/thread/JoiningCancellationToken.h>
#include <stingraykit/thread/CancellationRegistrator.h>

namespace
{
	// A tree of tokens with what the oracle knows about it
	struct Node
	{
		enum Kind { Direct, Timed, TimedDummy, Joining } kind = Direct;
		std::unique_ptr<CancellationToken> direct;
		std::unique_ptr<TimedCancellationToken> timed;
		std::unique_ptr<JoiningCancellationToken> joining;
		std::unique_ptr<Node> a, b;
		u64 resets = 0; 						// how often Reset has been called (begun)
		u64 cancels = 0;						// how often Cancel has been called (begun)
		bool cancelled = false;					// Cancel begun and not reset
		bool cancelDone = false;				// Cancel returned and not reset
		bool racing = false;					// Cancel and Reset are called at the same time: what the token reads as is not known
		u64 deadlineLow = 0, deadlineHigh = 0;	// ns

		const ICancellationToken& Get() const
		{
			switch (kind)
			{
			case Direct: return *direct;
			case Joining: return *joining;
			default: return *timed;
			}
		}
		bool CancelBegun() const { return cancelled || (a && a->CancelBegun()) || (b && b->CancelBegun()); }
		u64 Cancels() const { return cancels + (a ? a->Cancels() : 0) + (b ? b->Cancels() : 0); }
		u64 Resets() const { return resets + (a ? a->Resets() : 0) + (b ? b->Resets() : 0); }
		bool CancelDone() const { return cancelDone || (a && a->CancelDone()) || (b && b->CancelDone()); }
		bool MayBeExpired(u64 now) const { return (deadlineLow && now + 2000 >= deadlineLow) || (a && a->MayBeExpired(now)) || (b && b->MayBeExpired(now)); }
		bool IsExpired(u64 now) const { return (deadlineHigh && now >= deadlineHigh + 2000) || (a && a->IsExpired(now)) || (b && b->IsExpired(now)); }
		bool HasDeadline() const { return deadlineLow || (a && a->HasDeadline()) || (b && b->HasDeadline()); }
		u64 Deadline() const { u64 d = deadlineHigh ? deadlineHigh : ~0ull; if (a) d = std::min(d, a->Deadline()); if (b) d = std::min(d, b->Deadline()); return d; }
		void Directs(std::vector<Node*>& v) { if (kind == Direct) v.push_back(this); if (a) a->Directs(v); if (b) b->Directs(v); }
	};

	std::unique_ptr<Node> Make(int depth, bool far = false)
	{
		std::unique_ptr<Node> n(new Node);
		int k = depth ? sim::W(5) : 0;
		if (k < 2) { n->kind = Node::Direct; n->direct.reset(new CancellationToken); }
		else if (k == 2)
		{
			u64 us = sim::WPick(far ? std::vector<u64>{ 0, 1000, 4000000, 30000000, 90000000 } : std::vector<u64>{ 0, 300, 1000, 2500, 20000 });
			if (sim::WP(80)) { n->a = Make(depth - 1, far); n->kind = Node::Timed; }
			else n->kind = Node::TimedDummy;
			n->deadlineLow = sim::nowNs() + us * 1000;
			n->timed.reset(n->a ? new TimedCancellationToken(n->a->Get(), Us(us)) : new TimedCancellationToken(Us(us)));
			n->deadlineHigh = sim::nowNs() + us * 1000;
		}
		else { n->kind = Node::Joining; n->a = Make(depth - 1, far); n->b = Make(depth - 1, far); n->joining.reset(new JoiningCancellationToken(n->a->Get(), n->b->Get())); }
		return n;
	}

	void Cancel(Node* d, bool viaToken)
	{
		{ sim::Quiet q; d->cancelled = true; ++d->cancels; }
		if (viaToken) { Token t = d->direct->GetCancellator(); t.Reset(); }
		else d->direct->Cancel();
		sim::Quiet q; d->cancelDone = !d->racing;
	}

	void Reset(Node* d)
	{
		if (d->racing)
		{
			try { d->direct->Reset(); { sim::Quiet q; ++d->resets; } sim::probe("reset while others cancel"); }
			catch (const InvalidOperationException&) { sim::probe("reset refused"); }
			return;
		}
		bool done;
		{ sim::Quiet q; ++d->resets; done = d->cancelDone; d->cancelDone = false; }
		try { d->direct->Reset(); sim::Quiet q; ++d->resets; d->cancelled = false; sim::probe("reset"); }
		catch (const stingray::Exception&) { sim::probe("token in use"); sim::Quiet q; d->cancelDone = done; }
	}

	void CheckReads(Node* n, const char* where)
	{
		const ICancellationToken& t = n->Get();
		bool done; u64 r0; { sim::Quiet q; done = n->CancelDone(); r0 = n->Resets(); }
		bool c = t.IsCancelled();
		{ sim::Quiet q; SIM_CHECK(!c || n->CancelBegun() || r0 != n->Resets(), "false-cancel", "the token reads as cancelled though nobody cancelled it (" << where << ")");
			SIM_CHECK(c || !done || r0 != n->Resets(), "cancel-invisible", "the token does not read as cancelled after Cancel returned (" << where << ")"); }
		u64 before = sim::nowNs();
		bool exp; { sim::Quiet q; exp = n->IsExpired(before); }
		bool to = t.IsTimedOut();
		sim::Quiet q;
		SIM_CHECK(!to || n->MayBeExpired(sim::nowNs()), "false-timeout", "the token reads as timed out before its time (" << where << ")");
		SIM_CHECK(to || !exp, "timeout-invisible", "the token does not read as timed out after its time (" << where << ")");
		if (bool(t)) SIM_CHECK((!done || r0 != n->Resets()) && !exp, "cancel-invisible", "the token converts to true though it is cancelled or expired");
	}

	void Waits(bool spuriousFree)
	{
		SilenceLog();
		std::unique_ptr<Node> root = Make(2); Node* r = root.get();
		std::vector<Node*> directs; r->Directs(directs); auto* pd = &directs;
		Mutex m; ConditionVariable cv;
		bool flag = false; int broadcasts = 0;
		bool waiterDone = false;
		Mutex* pm = &m; ConditionVariable* pc = &cv; bool* pf = &flag; int* pb = &broadcasts; bool* wd = &waiterDone;
		Clients cs;
		int rounds = sim::WR(1, 3);
		Spawn(cs, "waiter", [=]
		{
			for (int i = 0; i < rounds; ++i)
			{
				int how = sim::W(4);
				u64 dur = 200 + sim::W(6) * 600;
				u64 t0 = sim::nowNs(); u64 c0, r0; int b0;
				{ sim::Quiet q; r0 = r->Resets(); c0 = r->Cancels() - (r->CancelBegun() ? 1 : 0); b0 = *pb; }
				if (how < 2)
				{
					ConditionWaitResult res = ConditionWaitResult::Broadcasted;
					MutexLock l(*pm);
					do
					{
						res = pc->Wait(*pm, r->Get());
						sim::Quiet q;
						u64 now = sim::nowNs();
						if (res == ConditionWaitResult::Cancelled)
							SIM_CHECK(r->Cancels() > c0 || r->MayBeExpired(now), "false-cancel", "a wait reports cancellation though its token was neither cancelled nor expired");
						else if (res == ConditionWaitResult::TimedOut)
							SIM_CHECK(r->MayBeExpired(now), "false-timeout", "a wait reports a timeout before its time");
						else if (spuriousFree)
							SIM_CHECK(*pb > b0 || r0 != r->Resets(), "false-signal", "a wait reports a signal though nothing was signalled");
						if (res == ConditionWaitResult::Cancelled) sim::probe("wait cancelled");
						if (res == ConditionWaitResult::TimedOut) sim::probe("wait timed out");
					}
					while (how == 1 && res == ConditionWaitResult::Broadcasted && !*pf);
				}
				else if (how == 2)
				{
					bool full = r->Get().Sleep(Us(dur));
					sim::Quiet q;
					u64 now = sim::nowNs();
					if (full) { SIM_CHECK(now - t0 + 2000 >= dur * 1000, "short-sleep", "a sleep of " << dur << " us reports its full time after " << (now - t0) << " ns"); }
					else { SIM_CHECK(r->Cancels() > c0 || r->MayBeExpired(now), "false-cancel", "a sleep reports cancellation though its token was neither cancelled nor expired"); sim::probe("sleep cancelled"); }
				}
				else if (r->kind != Node::TimedDummy)
				{
					bool full = r->Get().Sleep(null);
					sim::Quiet q;
					SIM_CHECK(!full, "endless-sleep", "an endless sleep reports its full time");
					SIM_CHECK(r->Cancels() > c0 || r->MayBeExpired(sim::nowNs()), "false-cancel", "an endless sleep returns though its token was neither cancelled nor expired");
				}
				CheckReads(r, "waiter");
			}
			sim::Quiet q; *wd = true;
		});
		for (size_t k = 0; k < directs.size(); ++k)
			if (k == 0 || sim::WP(60))
				Spawn(cs, "canceller", [=]
				{
					Node* d = (*pd)[k];
					int n = sim::WR(1, 3);
					for (int i = 0; i < n; ++i)
					{
						if (sim::WP(70)) sim::sleepUs(sim::W(6) * 300);
						Cancel(d, sim::WP(30));
						if (i + 1 < n && sim::WP(60))
						{
							if (sim::WP(50)) sim::sleepUs(sim::W(4) * 300);
							Reset(d);
						}
					}
				});
		if (sim::WP(60))
			Spawn(cs, "signaller", [=]
			{
				int n = sim::WR(1, 2);
				for (int i = 0; i < n; ++i)
				{
					sim::sleepUs(sim::W(6) * 300);
					MutexLock l(*pm);
					{ sim::Quiet q; ++*pb; }
					if (i + 1 == n) *pf = true;
					pc->Broadcast();
				}
			});
		int probes = sim::W(3);
		for (int i = 0; i < probes; ++i) { CheckReads(r, "observer"); sim::sleepUs(sim::W(4) * 300); }
		// every token is cancelled in the end: the waiter finishes whatever it does (it may need one cancellation per round)
		for (size_t k = 1; k < cs.size(); ++k) cs[k]->Join();
		for (Node* d : directs)
		{
			bool c; { sim::Quiet q; c = d->cancelled; }
			if (!c) Cancel(d, false);
		}
		SIM_CHECK(sim::waitFor([wd] { return *wd; }, 600000000ull, 1000), "hang", "a cancellable wait does not return although its token is cancelled");
		JoinAll(cs);
	}

	// The first of the deadlines, the cancellations and the sleep's own time ends a wait, promptly
	void Deadlines()
	{
		SilenceLog();
		const u64 Never = ~0ull, Late = 1500000000ull;
		std::unique_ptr<Node> root = Make(2, true); Node* r = root.get();
		std::vector<Node*> directs; r->Directs(directs);
		Mutex m; ConditionVariable cv; Mutex* pm = &m; ConditionVariable* pc = &cv;
		u64 cancelAt = Never; u64* pCancelAt = &cancelAt;
		bool done = false; bool* wd = &done;
		Node* which = directs.empty() ? NULL : directs[sim::W(directs.size())];
		u64 cancelIn = sim::WPick(std::vector<u64>{ 0, 300, 2000000, 20000000, 45000000, 120000000 });
		Clients cs;
		Spawn(cs, "waiter", [=]
		{
			int rounds = sim::WR(1, 2);
			for (int i = 0; i < rounds; ++i)
			{
				int how = sim::W(3);
				u64 dur = sim::WPick(std::vector<u64>{ 500, 3000000, 25000000, 70000000 }), t0 = sim::nowNs(), own = Never; u64 us = 0;
				if (auto left = r->Get().GetTimeout())
				{
					us = (u64)std::max<s64>(0, left->GetMicroseconds());
					sim::Quiet q; u64 d = r->Deadline();
					SIM_CHECK(d != Never && sim::nowNs() + us * 1000 <= std::max<u64>(d, sim::nowNs()) + Late, "late", "the token claims to have " << us << " us left though its deadline is " << (s64)(d - sim::nowNs()) / 1000 << " us away");
				}
				else { sim::Quiet q; SIM_CHECK(r->Deadline() == Never, "deadline-lost", "the token has a deadline and does not know it"); }
				const char* what = "a wait";
				if (how == 0) { MutexLock l(*pm); while (pc->Wait(*pm, r->Get()) == ConditionWaitResult::Broadcasted) { } }
				else if (how == 1) { what = "a sleep"; own = t0 + dur * 1000; r->Get().Sleep(Us(dur)); }
				else { what = "an endless sleep"; if (sim::WP(50)) r->Get().Sleep(null); else r->Get().Sleep(TimeDuration::Max()); }
				sim::Quiet q;
				u64 now = sim::nowNs(), end = std::max(t0, std::min(std::min(r->Deadline(), own), *pCancelAt));
				SIM_CHECK(end == Never || now <= end + Late, "late", what << " returns " << (now - end) / 1000 << " us after it should have ended");
				sim::probe(end == own ? "the sleep's own time ends it" : end == *pCancelAt || end == Never ? "a cancellation ends it" : "a deadline ends it");
			}
			sim::Quiet q; *wd = true;
		});
		if (which) Spawn(cs, "canceller", [=] { sim::sleepUs(cancelIn); Cancel(which, sim::WP(30)); sim::Quiet q; *pCancelAt = sim::nowNs(); });
		SIM_CHECK(sim::waitFor([wd] { return *wd; }, 600000000ull, 100000), "hang", "a wait does not return although its token is cancelled or expired");
		JoinAll(cs);
		for (Node* d : directs) { bool c; { sim::Quiet q; c = d->cancelled; } if (!c) Cancel(d, false); }
	}

	// Handlers
	struct Handler : public ICancellationHandler
	{
		int calls = 0, resets = 0, inside = 0; bool dead = false; u64 sleepUs = 0;
		virtual void Cancel()
		{
			{ sim::Quiet q; SIM_CHECK(!dead, "handler-after-unregister", "a cancellation handler is called after it was unregistered"); ++calls; ++inside; }
			if (sleepUs) sim::sleepUs(sleepUs); else sim::point();
			sim::Quiet q; --inside;
		}
		virtual void Reset() { sim::Quiet q; ++resets; }
	};

	void Handlers(bool racing)
	{
		SilenceLog();
		std::unique_ptr<Node> root = Make(racing ? 1 : 2); Node* r = root.get();
		std::vector<Node*> directs; r->Directs(directs); auto* pd = &directs;
		for (Node* d : directs) d->racing = racing;
		bool joins = directs.size() > 1;
		Clients cs;
		Spawn(cs, "user", [=]
		{
			int n = sim::WR(1, 4);
			for (int i = 0; i < n; ++i)
			{
				Handler* h = new Handler;
				h->sleepUs = sim::W(3) * 300;
				u64 c0, c1, r0; bool already, wasDone;
				{ sim::Quiet q; already = r->CancelBegun(); wasDone = r->CancelDone(); c0 = r->Cancels(); r0 = r->Resets(); }
				{
					CancellationRegistrator reg(r->Get(), *h);
					bool isC = reg.IsCancelled();
					{ sim::Quiet q;
						SIM_CHECK(!isC || already || r->CancelBegun() || r0 != r->Resets() || r->MayBeExpired(sim::nowNs()), "false-cancel", "registering reports cancellation though the token was neither cancelled nor expired");
						SIM_CHECK(isC || !wasDone || joins || r0 != r->Resets() || r->HasDeadline(), "cancel-invisible", "a handler was registered on a cancelled token"); }
					if (sim::WP(70)) sim::sleepUs(sim::W(5) * 300); else sim::point();
					// a token that joins others calls the handler when any of them is cancelled
					if (!isC) { bool any = false; { sim::Quiet q; any = r->CancelDone(); } if (any && joins) sim::waitFor([&] { return h->calls >= 1 || r0 != r->Resets(); }, 600000000ull, 300); if (any) SIM_CHECK(h->calls >= 1 || r0 != r->Resets(), "handler-lost", "Cancel returned but the registered handler was not called"); }
				}
				{
					sim::Quiet q;
					h->dead = true; c1 = r->Cancels();
					SIM_CHECK(!h->inside, "handler-after-unregister", "unregistering returned while the handler is still being called");
					SIM_CHECK((u64)h->calls <= c1 - c0 + (already ? pd->size() : 0), "handler-twice", "a handler was called " << h->calls << " times for " << (c1 - c0) << " cancellations");
					if (h->calls) sim::probe("handler called");
				}
				// (leaked on purpose until the run ends: a late call must reach the check above, not freed memory)
				if (sim::WP(30)) sim::sleepUs(sim::W(3) * 200);
			}
		});
		for (size_t k = 0; racing && k < directs.size(); ++k)
			Spawn(cs, "resetter", [=]
			{
				int n = sim::WR(1, 5);
				for (int i = 0; i < n; ++i) { if (sim::WP(70)) sim::sleepUs(sim::W(6) * 150); Reset((*pd)[k]); }
			});
		for (size_t k = 0; k < directs.size(); ++k)
			Spawn(cs, "canceller", [=]
			{
				Node* d = (*pd)[k];
				int n = sim::WR(1, 3);
				for (int i = 0; i < n; ++i)
				{
					sim::sleepUs(sim::W(6) * 250);
					Cancel(d, sim::WP(30));
					if (i + 1 < n && sim::WP(60))
					{
						Reset(d);
					}
				}
			});
		JoinAll(cs);
		for (Node* d : directs)
			if (racing)
			{
				// whatever the order was, the token can be used again
				Handler h;
				try { d->direct->Reset(); } catch (const InvalidOperationException&) { SIM_CHECK(false, "reset-refused", "a token nobody uses cannot be reset"); }
				{
					CancellationRegistrator reg(*d->direct, h);
					SIM_CHECK(!reg.IsCancelled() && !d->direct->IsCancelled(), "false-cancel", "a token reads as cancelled after it was reset");
					Cancel(d, false);
					SIM_CHECK(h.calls == 1, "handler-lost", "the handler of a token that was reset is called " << h.calls << " times");
				}
			}
			else { bool c; { sim::Quiet q; c = d->cancelled; } if (!c) Cancel(d, false); }
	}

	// Several sleepers on one token, one cancel
	void Sleepers()
	{
		SilenceLog();
		CancellationToken tk; CancellationToken* pt = &tk;
		bool reset = sim::WP(40);
		int n = reset ? 1 : sim::WR(1, 3); bool begun = false; bool* pb = &begun;
		Clients cs;
		for (int i = 0; i < n; ++i)
			Spawn(cs, "sleeper", [=]
			{
				u64 t0 = sim::nowNs(); u64 dur = 300 + sim::W(5) * 700; bool endless = sim::WP(30);
				bool full = endless ? sim::WP(50) ? pt->Sleep(null) : pt->Sleep(TimeDuration::Max()) : pt->Sleep(Us(dur));
				sim::Quiet q;
				if (full) SIM_CHECK(!endless && sim::nowNs() - t0 + 2000 >= dur * 1000, "short-sleep", "a sleep of " << dur << " us reports its full time after " << (sim::nowNs() - t0) << " ns");
				else SIM_CHECK(*pb, "false-cancel", "a sleep reports cancellation though nobody cancelled");
			});
		DummyCancellationToken dummy;
		if (sim::WP(40)) // the time to sleep for is over already
		{
			const TimeDuration none = sim::WP(50) ? TimeDuration() : sim::WP(90) ? -Us(1 + sim::W(5) * 400) : TimeDuration::Min();
			const u64 from = sim::nowNs(); const int kind = sim::W(4);
			{
				CancellationToken plain; TimedCancellationToken timed(TimeDuration::FromSeconds(3600)), timedPlain(plain, TimeDuration::FromSeconds(3600));
				const ICancellationToken& t = kind == 0 ? (const ICancellationToken&)dummy : kind == 1 ? (const ICancellationToken&)plain : kind == 2 ? (const ICancellationToken&)timed : timedPlain;
				const bool over = t.Sleep(none);
				SIM_CHECK(over, "false-cancel", "a sleep of " << none.GetMicroseconds() << " us reports cancellation (token " << kind << ")");
				plain.Cancel();
			}
			SIM_CHECK(sim::nowNs() - from < 60000000000ull, "long-sleep", "a sleep of " << none.GetMicroseconds() << " us lasts " << (sim::nowNs() - from) / 1000 << " us (token " << kind << ")");
			sim::probe("a sleep for no time");
		}
		u64 t0 = sim::nowNs(); u64 dur = sim::W(5) * 600;
		bool full = dummy.Sleep(Us(dur));
		SIM_CHECK(full && sim::nowNs() - t0 + 2000 >= dur * 1000, "short-sleep", "a sleep of " << dur << " us on a dummy token took " << (sim::nowNs() - t0) << " ns");
		bool asleep;
		{ sim::Quiet q; begun = true; asleep = cs[0]->Blocked(); }
		tk.Cancel();
		if (reset && asleep) { tk.Reset(); sim::probe("reset while sleepers wake"); }
		Clients* pc = &cs;
		SIM_CHECK(sim::waitFor([pc] { return AllDone(*pc); }, 600000000ull, 1000), "hang", "a sleep does not return although its token was cancelled");
		JoinAll(cs);
		tk.Cancel();
	}
}

// The token which cancels may outlive the CancellationToken, and cancel it from another thread
SIM_SCENARIO(cancellator, 1)
{
	SilenceLog();
	int n = sim::WR(1, 3); Clients cs;
	for (int i = 0; i < n; ++i)
	{
		std::unique_ptr<CancellationToken> t(new CancellationToken);
		int holders = sim::WR(1, 2); std::vector<Token*> held;
		for (int k = 0; k < holders; ++k) held.push_back(new Token(t->GetCancellator()));
		SIM_CHECK(!t->IsCancelled(), "false-cancel", "taking the cancellator cancels");
		if (sim::WP(20)) { delete held.back(); held.pop_back(); SIM_CHECK(t->IsCancelled(), "cancel-invisible", "the token is not cancelled by the end of its cancellator"); }
		for (Token* h : held) { sim::hbRelease(h); Spawn(cs, "holder", [h] { sim::hbAcquire(h); if (sim::WP(50)) sim::sleepUs(sim::W(4) * 300); sim::point(); h->Reset(); delete h; }); }
		if (sim::WP(50)) { if (!held.empty()) { bool r = t->Sleep(optional<TimeDuration>()); SIM_CHECK(!r, "sleep", "an endless sleep ends though nobody cancelled"); SIM_CHECK(t->IsCancelled(), "cancel-invisible", "a sleep ends as cancelled but the token is not"); } }
		else if (sim::WP(50)) sim::sleepUs(sim::W(4) * 300);
		t.reset();
	}
	JoinAll(cs);
}

SIM_SCENARIO(waits, 6) { Waits(false); }
SIM_SCENARIO_F(waits_no_spurious, 2, sim::NoSpurious) { Waits(true); }
SIM_SCENARIO_F(deadlines, 2, sim::NoStalls) { Deadlines(); }
SIM_SCENARIO(handlers, 4) { Handlers(false); }
SIM_SCENARIO(handlers_reset, 2) { Handlers(true); }
SIM_SCENARIO(sleepers, 3) { Sleepers(); }
