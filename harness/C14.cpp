// C14: pipes
#include "common.h"
#include <stingraykit/io/BithreadPipe.h>
#include <stingraykit/io/BufferedPipe.h>
#include <stingraykit/io/PipeDataSource.h>
#include <stingraykit/io/PipeReader.h>
#include <stingraykit/io/SynchronizedPipe.h>
#include <stingraykit/thread/TimedCancellationToken.h>

namespace
{
	u8 Byte(int id, size_t i) { u32 h = id * 2654435761u + (u32)i * 40503u + 12345u; h ^= h >> 13; h *= 0x85ebca6bu; h ^= h >> 16; return (u8)h; }
	std::string Content(int id, size_t n) { std::string r; for (size_t i = 0; i < n; ++i) r.push_back((char)Byte(id, i)); return r; }

	enum Result { Done, Cancelled, Timeout, Failed };

	// Tokens of the calls which may be cancelled by others at any time
	struct Cancellers
	{
		CancellationToken* current[4]; bool cancelled[4];
		Cancellers() { for (int i = 0; i < 4; ++i) { current[i] = nullptr; cancelled[i] = false; } }
	};

	// Runs one pipe operation with a token of a random kind
	template < typename Op > Result WithToken(Cancellers* cs, Mutex* m, int slot, bool may, const Op& op, bool always = false)
	{
		int kind = always ? 2 + (int)sim::W(2) : may ? (int)sim::W(4) : 0;
		s64 us = 0; uint64_t t0 = sim::nowUs();
		try
		{
			if (kind <= 1) { op(DummyCancellationToken()); return Done; }
			if (kind == 2) { us = sim::W(4) * 400; TimedCancellationToken t(Us(us)); op(t); return Done; }
			CancellationToken t; { MutexLock l(*m); sim::Quiet q; cs->current[slot] = &t; cs->cancelled[slot] = false; }
			struct Unset { Cancellers* cs; Mutex* m; int slot; ~Unset() { MutexLock l(*m); sim::Quiet q; cs->current[slot] = nullptr; } } u{ cs, m, slot };
			op(t);
			return Done;
		}
		catch (const OperationCancelledException&)
		{
			bool ok = false; { sim::Quiet q; ok = kind == 3 ? cs->cancelled[slot] : kind == 2; }
			SIM_CHECK(ok, "unexpected", "a call is cancelled with a token which nobody cancelled");
			sim::probe("a pipe call is cancelled"); return Cancelled;
		}
		catch (const TimeoutException&)
		{
			SIM_CHECK(kind == 2, "unexpected", "a call times out with a token which has no timeout");
			SIM_CHECK(sim::nowUs() + 20 >= t0 + us, "unexpected", "a call times out too early");
			sim::probe("a pipe call times out"); return Timeout;
		}
		catch (const std::bad_alloc&) { sim::probe("a pipe call fails"); return Failed; }
	}

	void CancelSome(Cancellers* cs, Mutex* m, int slots)
	{
		int slot = sim::W(slots); MutexLock l(*m); CancellationToken* t; { sim::Quiet q; t = cs->current[slot]; if (t) cs->cancelled[slot] = true; }
		if (t) t->Cancel();
	}

	struct WriteOp { int id; size_t n, returned; Result res; uint64_t begin, end; };
	struct ReadOp { size_t asked, n; uint64_t begin, end; };
}

// One reader and one writer of a rendez-vous pipe
SIM_SCENARIO_F(bithread, 4, sim::NoEintr)
{
	SilenceLog();
	struct State { Cancellers cs; std::vector<WriteOp> writes; std::vector<ReadOp> reads; std::string got; bool stop = false; } st; State* s = &st;
	Mutex mutex; Mutex* m = &mutex;
	BithreadPipe pipe; BithreadPipe* p = &pipe;
	bool cancels = sim::WP(60), faults = sim::WP(30); int nw = sim::WR(1, 8); bool viaBuffered = sim::WP(30);
	CancellationToken readerStop; CancellationToken* rs = &readerStop;
	Clients cs, reader;
	Spawn(cs, "writer", [=]
	{
		for (int i = 0; i < nw; ++i)
		{
			size_t n = sim::WP(10) ? 0 : sim::WP(70) ? sim::WR(1, 6) : sim::WR(1, 40);
			std::vector<u8> buf(n + 1); for (size_t j = 0; j < n; ++j) buf[j] = Byte(i, j);
			size_t at; { sim::Quiet q; at = s->writes.size(); s->writes.push_back(WriteOp{ i, n, 0, Done, sim::seq(), 0 }); }
			u64 ret = 0;
			Result r = WithToken(&s->cs, m, 0, cancels && i != nw - 1, [&](const ICancellationToken& t)
			{
				if (faults && i != nw - 1) { sim::AllocFaults a(100); ret = p->Write(ConstByteData(buf.data(), n), t); }
				else ret = p->Write(ConstByteData(buf.data(), n), t);
			});
			{ sim::Quiet q; WriteOp& w = s->writes[at]; w.res = r; w.returned = ret; w.end = sim::seq(); }
			if (r == Done) SIM_CHECK(ret == n, "count", "a write of " << n << " bytes returns " << ret);
			for (u8& b : buf) b = 0xee;		// the data belongs to the caller again
			if (sim::WP(20)) sim::sleepUs(sim::W(600));
		}
	});
	Spawn(reader, "reader", [=]
	{
		std::unique_ptr<IPipePtr> buffered; if (viaBuffered) buffered.reset(new IPipePtr(make_shared_ptr<BufferedPipe>(IPipePtr(p, [](IPipe*) { }), (size_t)sim::WR(1, 9))));
		IPipe& in = viaBuffered ? **buffered : (IPipe&)*p;
		for (;;)
		{
			bool ending; { sim::Quiet q; ending = s->stop; }
			if (ending && !in.Peek(DummyCancellationToken())) break;
			size_t n = sim::WP(8) ? 0 : sim::WP(70) ? sim::WR(1, 6) : sim::WR(1, 40);
			std::vector<u8> buf(n + 1, 0xdd);
			uint64_t begin; { sim::Quiet q; begin = sim::seq(); }
			u64 ret = 0; bool over = false;
			auto op = [&](const ICancellationToken& t) { ret = in.Read(ByteData(buf.data(), n), t); };
			if (sim::WP(8)) (void)in.Peek(DummyCancellationToken());
			if (cancels && sim::WP(40)) { CancellationToken* none = nullptr; (void)none; Result r = Done; bool may = sim::WP(60); if (may) { try { r = Done; int kind = sim::W(2); if (kind) { TimedCancellationToken t(Us(sim::W(4) * 400)); op(t); } else { r = Done; CancellationToken t; { MutexLock l(*m); sim::Quiet q; s->cs.current[1] = &t; s->cs.cancelled[1] = false; } struct Unset { State* s; Mutex* m; ~Unset() { MutexLock l(*m); sim::Quiet q; s->cs.current[1] = nullptr; } } u{ s, m }; bool stop; { sim::Quiet q; stop = s->stop; } if (!stop) op(t); else throw OperationCancelledException(); } } catch (const OperationCancelledException&) { r = Cancelled; } catch (const TimeoutException&) { r = Timeout; } } if (!may || r != Done) { sim::probe("a read is given up"); continue; } }
			else try { op(*rs); } catch (const OperationCancelledException&) { over = true; }
			sim::Quiet q;
			if (over) { SIM_CHECK(s->stop, "unexpected", "a read is cancelled before its token is"); break; }
			SIM_CHECK(ret <= n, "count", "a read of " << n << " bytes returns " << ret);
			for (size_t j = ret; j < buf.size(); ++j) SIM_CHECK(buf[j] == 0xdd, "torn", "a read writes past the count it returns");
			s->got.append((const char*)buf.data(), ret); s->reads.push_back(ReadOp{ n, (size_t)ret, begin, sim::seq() });
		}
	});
	if (cancels) Spawn(cs, "canceller", [=] { int n = sim::WR(1, 8); for (int i = 0; i < n; ++i) { sim::sleepUs(sim::W(500)); CancelSome(&s->cs, m, 2); } });
	SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 60000000, 1000), "stuck", "a writer does not finish though the other side reads");
	JoinAll(cs);
	{ sim::Quiet q; st.stop = true; }
	readerStop.Cancel();
	{ MutexLock l(mutex); CancellationToken* t; { sim::Quiet q; t = st.cs.current[1]; st.cs.cancelled[1] = true; } if (t) t->Cancel(); }
	JoinAll(reader);
	SIM_CHECK(!pipe.Peek(), "count", "a pipe has data when nobody writes");

	sim::Quiet q;
	// the bytes read are the writes in order; those given up may have passed a prefix
	std::set<size_t> at{ 0 }; size_t empties = 0;
	for (WriteOp& w : st.writes)
	{
		std::set<size_t> next; std::string c = Content(w.id, w.n);
		for (size_t pos : at)
			for (size_t k = (w.res == Done ? w.n : 0); k <= w.n; ++k)
				if (pos + k <= st.got.size() && st.got.compare(pos, k, c, 0, k) == 0) next.insert(pos + k);
		SIM_CHECK(!next.empty(), "altered", "the bytes of write " << w.id << " of " << w.n << " bytes are not where they should be, " << st.got.size() << " bytes were read");
		at.swap(next);
		if (!w.n) ++empties;
	}
	SIM_CHECK(at.count(st.got.size()), "altered", "a reader gets bytes which were never written, or twice");
	size_t zero = 0; for (ReadOp& r : st.reads) if (!r.n && r.asked) ++zero;
	SIM_CHECK(zero <= empties, "count", "a read returns nothing");
	// a write which returns has been read
	if (!viaBuffered)
	{
		size_t sum = 0;
		for (WriteOp& w : st.writes)
			if (w.res == Done) { sum += w.n; size_t read = 0; for (ReadOp& r : st.reads) if (r.begin < w.end) read += r.n; SIM_CHECK(read >= sum, "count", "a write returns before its data is read"); }
	}
}

// A pipe which records what is written, with short writes, failures and delays
namespace
{
	struct RecordingPipe : public virtual IPipe
	{
		int busy = 0; std::string* got; bool failures;
		RecordingPipe(std::string* g, bool f) : got(g), failures(f) { }
		u64 Read(ByteData, const ICancellationToken&) override { return 0; }
		bool Peek(const ICancellationToken&) override { return false; }
		u64 Write(ConstByteData data, const ICancellationToken& token) override
		{
			sim::NoFaults nf;
			{ sim::Quiet q; SIM_CHECK(++busy == 1, "overlap", "two threads write to the underlying pipe at once"); }
			size_t n = data.size();
			if (failures && n && sim::WP(50)) n = sim::WR(1, n);
			if (sim::WP(20)) sim::sleepUs(sim::W(400)); else sim::point();
			bool fail = failures && sim::WP(8);
			{ sim::Quiet q; if (!fail) got->append((const char*)data.data(), n); --busy; }
			if (fail) { sim::probe("the underlying pipe fails"); throw std::runtime_error("pipe"); }
			return n;
		}
	};
}

// Several writers: each write is passed whole and not mixed with others
SIM_SCENARIO_F(synchronized, 3, sim::NoEintr)
{
	SilenceLog();
	struct State { Cancellers cs; std::vector<WriteOp> writes; std::string got; bool stop = false; int next = 0; } st; State* s = &st;
	Mutex mutex; Mutex* m = &mutex;
	bool rendezvous = sim::WP(50), failures = sim::WP(60), cancels = sim::WP(60), faults = sim::WP(30);
	bool stalls = rendezvous && cancels && sim::WP(40);	// the reader stops at some time: every writer must leave when it is cancelled
	IPipePtr inner; if (rendezvous) inner = make_shared_ptr<BithreadPipe>(); else inner = make_shared_ptr<RecordingPipe>(&st.got, failures);
	IPipePtr sync = make_shared_ptr<SynchronizedPipe>(inner); IPipe* p = sync.get();
	Clients cs, reader; int nt = sim::WR(1, 3);
	CancellationToken readerStop; CancellationToken* rs = &readerStop;
	if (rendezvous)
	{
		IPipe* in = inner.get(); int left = stalls ? (int)sim::W(6) : -1;
		Spawn(reader, "reader", [=]
		{
			for (int i = 0; i != left; ++i)
			{
				std::vector<u8> buf(sim::WR(1, 9)); u64 n;
				try { n = in->Read(ByteData(buf.data(), buf.size()), *rs); }
				catch (const OperationCancelledException&) { break; }
				if (sim::WP(20)) sim::sleepUs(sim::W(400));
				sim::Quiet q; s->got.append((const char*)buf.data(), n);
			}
		});
	}
	for (int t = 0; t < nt; ++t)
		Spawn(cs, "writer", [=]
		{
			int ops = sim::WR(1, 4);
			for (int o = 0; o < ops; ++o)
			{
				int id; { sim::Quiet q; id = s->next++; }
				size_t n = sim::WR(0, 16); std::vector<u8> buf(n + 1); for (size_t j = 0; j < n; ++j) buf[j] = (u8)(id << 4 | j);
				size_t at; { sim::Quiet q; at = s->writes.size(); s->writes.push_back(WriteOp{ id, n, 0, Done, sim::seq(), 0 }); }
				u64 ret = 0; Result r = Done;
				try
				{
					r = WithToken(&s->cs, m, t, cancels, [&](const ICancellationToken& tok)
					{
						if (faults) { sim::AllocFaults a(100); ret = p->Write(ConstByteData(buf.data(), n), tok); }
						else ret = p->Write(ConstByteData(buf.data(), n), tok);
					}, stalls);
				}
				catch (const std::runtime_error& ex) { SIM_CHECK(failures && !rendezvous && std::string(ex.what()) == "pipe", "unexpected", "a write throws " << ex.what()); r = Failed; }
				{ sim::Quiet q; WriteOp& w = s->writes[at]; w.res = r; w.end = sim::seq(); }
				if (r == Done) SIM_CHECK(ret == n, "count", "a write of " << n << " bytes returns " << ret);
				for (u8& b : buf) b = 0xff;
			}
		});
	if (cancels) Spawn(cs, "canceller", [=] { int n = sim::WR(1, 8); for (int i = 0; i < n; ++i) { sim::sleepUs(sim::W(500)); CancelSome(&s->cs, m, nt); } });
	bool over = false; bool* po = &over; Clients last;
	if (stalls) Spawn(last, "canceller", [=] { for (;;) { { sim::Quiet q; if (*po) break; } sim::sleepUs(2000); CancelSome(&s->cs, m, nt); } });
	SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 60000000, 1000), "stuck", "a writer does not finish though " << (stalls ? "it is cancelled" : "the underlying pipe works"));
	JoinAll(cs);
	{ sim::Quiet q; over = true; }
	JoinAll(last);
	readerStop.Cancel();
	JoinAll(reader);
	sim::Quiet q;
	std::map<int, size_t> runs; std::vector<int> order; std::map<int, WriteOp*> by; for (WriteOp& w : st.writes) by[w.id] = &w;
	for (size_t i = 0; i < st.got.size(); )
	{
		int id = (u8)st.got[i] >> 4; size_t n = 0;
		while (i + n < st.got.size() && n < 16 && (u8)st.got[i + n] == (u8)(id << 4 | n)) ++n;
		SIM_CHECK(n && by.count(id) && n <= by[id]->n && !runs.count(id), "mixed", "the bytes of different writes are mixed, repeated or altered at " << i << " of " << st.got.size());
		runs[id] = n; order.push_back(id); i += n;
	}
	for (WriteOp& w : st.writes) if (w.res == Done) SIM_CHECK((runs.count(w.id) ? runs[w.id] : 0) == w.n, "lost", "a write of " << w.n << " bytes passed " << (runs.count(w.id) ? runs[w.id] : 0));
	for (size_t i = 0; i < order.size(); ++i) for (size_t j = i + 1; j < order.size(); ++j)
		SIM_CHECK(by[order[j]]->end > by[order[i]]->begin, "order", "a write which ended before another one began is passed after it");
}

// Adapters over a pipe with short reads, failures, cancelled reads and an end
namespace
{
	struct SourcePipe : public virtual IPipe
	{
		std::string data; size_t pos = 0; int failures = 0, shorts = 60; bool zeros = false;
		std::string written; bool failing = true;
		u64 Read(ByteData out, const ICancellationToken& token) override
		{
			sim::NoFaults nf;
			sim::point();
			if (failing && sim::WP(failures)) { sim::probe("the underlying read fails"); throw std::runtime_error("pipe"); }
			if (!token) { if (sim::WP(50)) return 0; throw OperationCancelledException(); }
			sim::Quiet q;
			if (pos == data.size()) { throw PipeClosedException(); }
			size_t n = std::min(out.size(), data.size() - pos); if (n && sim::WP(shorts)) n = sim::WR(1, n);
			std::copy(data.begin() + pos, data.begin() + pos + n, out.data()); pos += n;
			return n;
		}
		u64 Write(ConstByteData d, const ICancellationToken&) override
		{
			if (failing && sim::WP(failures)) throw std::runtime_error("pipe");
			sim::Quiet q; size_t n = d.size(); if (n && sim::WP(shorts)) n = sim::WR(1, n); written.append((const char*)d.data(), n); return n;
		}
		bool Peek(const ICancellationToken&) override { return pos != data.size(); }
	};
	STINGRAYKIT_DECLARE_PTR(SourcePipe);
}

SIM_SCENARIO(adapters, 3)
{
	SilenceLog();
	SourcePipePtr src = make_shared_ptr<SourcePipe>(); { sim::Quiet q; src->data = Content(1, sim::W(60)); src->failures = sim::WP(50) ? 15 : 0; }
	IPipePtr pipe = src; int levels = sim::W(3); for (int i = 0; i < levels; ++i) pipe = make_shared_ptr<BufferedPipe>(pipe, (size_t)sim::WR(1, 12));
	std::string got, sent; int mode = sim::W(3); bool closed = false; int tries = 0;
	CancellationToken cancelled; cancelled.Cancel(); CancellationToken live;
	if (mode == 2)
	{
		struct Consumer : public virtual IDataConsumer
		{
			std::string got; int eods = 0; bool throws = false;
			size_t Process(ConstByteData data, const ICancellationToken&) override
			{
				SIM_CHECK(data.size(), "count", "a consumer is given nothing");
				int what = throws ? (int)sim::W(6) : 5;
				if (what == 0) { sim::probe("a consumer throws"); throw std::runtime_error("consumer"); }
				if (what == 1) { sim::probe("a consumer refuses"); return 0; }
				size_t n = what == 2 ? sim::WR(1, data.size()) : data.size();
				sim::Quiet q; got.append((const char*)data.data(), n); return n;
			}
			void EndOfData(const ICancellationToken&) override { ++eods; }
		} c;
		c.throws = sim::WP(60);
		PipeDataSource source(pipe, (size_t)sim::WR(1, 10));
		while (!c.eods)
		{
			SIM_CHECK(++tries < 3000, "stuck", "reading of a pipe does not end");
			if (tries > 200) { src->failing = false; c.throws = false; }
			std::string what;
			try { source.Read(c, sim::WP(10) ? (const ICancellationToken&)cancelled : live); }
			catch (const OperationCancelledException&) { }
			catch (const std::runtime_error& ex) { what = ex.what(); }
			catch (const std::exception& ex) { SIM_CHECK(false, "unexpected", "a pipe data source throws " << typeid(ex).name()); }
		}
		got = c.got; closed = true;
	}
	else
	{
		PipeReader reader(pipe);
		while (!closed)
		{
			SIM_CHECK(++tries < 3000, "stuck", "reading of a pipe does not end");
			if (tries > 200) src->failing = false;
			const ICancellationToken& t = sim::WP(10) ? (const ICancellationToken&)cancelled : live;
			try
			{
				if (sim::WP(30)) { u8 b = reader.ReadByte(t); sim::Quiet q; got.push_back((char)b); }
				else
				{
					std::vector<u8> buf(sim::WR(0, 12) + 1, 0xdd); size_t n = reader.Read(ByteData(buf.data(), buf.size() - 1), t);
					SIM_CHECK(n < buf.size(), "count", "a read returns more than asked");
					for (size_t j = n; j < buf.size(); ++j) SIM_CHECK(buf[j] == 0xdd, "torn", "a read writes past the count it returns");
					sim::Quiet q; got.append((const char*)buf.data(), n);
				}
				if (sim::WP(20)) { bool has = pipe->Peek(DummyCancellationToken()); sim::Quiet q; SIM_CHECK(has == (got.size() != src->data.size()), "count", "peeking at a pipe says " << has); }
				if (sim::WP(20)) { std::string d = Content(7 + tries, sim::W(5)); u64 n = pipe->Write(ConstByteData((const u8*)d.data(), d.size()), live); sim::Quiet q; sent.append(d, 0, n); }
			}
			catch (const PipeClosedException&) { closed = true; }
			catch (const OperationCancelledException&) { SIM_CHECK(!t, "unexpected", "a read is cancelled"); }
			catch (const std::runtime_error& ex) { SIM_CHECK(std::string(ex.what()) == "pipe", "unexpected", "a read throws " << ex.what()); }
		}
	}
	sim::Quiet q;
	SIM_CHECK(got == src->data, "altered", "of " << src->data.size() << " bytes " << got.size() << " were read" << (src->data.compare(0, got.size(), got) ? ", others than written" : ""));
	SIM_CHECK(sent == src->written, "altered", "written bytes are not passed");
}

// Lines, written by one thread in arbitrary pieces and read by another one
SIM_SCENARIO_F(lines, 2, sim::NoEintr)
{
	SilenceLog();
	std::vector<std::string> lines; std::string data;
	{
		sim::Quiet q; int n = sim::WR(0, 5);
		for (int i = 0; i < n; ++i) { std::string l; size_t len = sim::W(8); for (size_t j = 0; j < len; ++j) l.push_back((char)('a' + sim::W(26))); lines.push_back(l); data += l + (sim::WP(40) ? "\r\n" : "\n"); }
	}
	if (sim::WP(50))
	{
		SourcePipePtr src = make_shared_ptr<SourcePipe>(); bool tail = sim::WP(40); { sim::Quiet q; src->data = data; if (tail) { std::string t("tail", sim::WR(1, 4)); src->data += t; lines.push_back(t); } }
		IPipePtr pipe = src; if (sim::WP(60)) pipe = make_shared_ptr<BufferedPipe>(pipe, (size_t)sim::WR(1, 12));
		PipeReader r(pipe);
		for (const std::string& l : lines) { std::string got = r.ReadLine(DummyCancellationToken()); SIM_CHECK(got == l, "altered", "line '" << l << "' is read as '" << got << "'"); }
		try { r.ReadLine(DummyCancellationToken()); SIM_CHECK(false, "altered", "a line is read past the end"); } catch (const PipeClosedException&) { }
		return;
	}
	BithreadPipe pipe; BithreadPipe* p = &pipe; bool buffered = sim::WP(60); std::string* d = &data; auto* pl = &lines;
	Clients cs;
	Spawn(cs, "writer", [=] { size_t pos = 0; while (pos < d->size()) { size_t n = std::min<size_t>(sim::WR(1, 10), d->size() - pos); u64 w = p->Write(ConstByteData((const u8*)d->data() + pos, n)); SIM_CHECK(w == n, "count", "a write of " << n << " bytes returns " << w); pos += n; } });
	Spawn(cs, "reader", [=]
	{
		IPipePtr in(p, [](IPipe*) { }); if (buffered) in = make_shared_ptr<BufferedPipe>(in, (size_t)sim::WR(1, 12));
		PipeReader r(in); CancellationToken token;
		for (const std::string& l : *pl) { std::string got = r.ReadLine(token); SIM_CHECK(got == l, "altered", "line '" << l << "' is read as '" << got << "'"); }
	});
	SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 60000000, 1000), "stuck", "lines are not passed");
	JoinAll(cs);
}
