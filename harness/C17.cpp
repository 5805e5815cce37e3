// C17: paged buffer
#include "common.h"
#include <stingraykit/io/PagedBuffer.h>
#include <stingraykit/thread/TimedCancellationToken.h>

namespace
{
	u8 Byte(int id, size_t i) { u32 h = id * 2654435761u + (u32)i * 40503u + 12345u; h ^= h >> 13; h *= 0x85ebca6bu; h ^= h >> 16; return (u8)h; }

	struct PageFault : public std::exception { const char* what() const noexcept override { return "page fault"; } };
	struct Refusal : public std::exception { const char* what() const noexcept override { return "refusal"; } };

	struct Faults { int write = 0, create = 0, read = 0, slow = 0, shortRead = 0; bool on = true; };

	// Pages in memory which fail, are slow, and read short. What a write has not completed is not readable.
	class Buffer : public PagedBuffer
	{
		struct Page : public virtual IPage
		{
			Faults* f; size_t pageSize, chunk; Mutex m; std::vector<u8> data; size_t published = 0;
			Page(Faults* f_, size_t p, size_t c) : f(f_), pageSize(p), chunk(c), data(p) { sim::Quiet q; ++Live(); }
			~Page() { sim::Quiet q; --Live(); }
			size_t Read(u64 offset, IDataConsumer& consumer, const ICancellationToken& token) override
			{
				if (f->on && sim::WP(f->slow)) sim::sleepUs(sim::W(400));
				if (f->on && sim::WP(f->read)) { sim::probe("a page fails to read"); throw PageFault(); }
				std::vector<u8> part;
				{
					MutexLock l(m);
					SIM_CHECK(offset < pageSize && offset % chunk == 0, "page", "a page of " << pageSize << " bytes is read at " << offset);
					size_t n = published > offset ? (published - offset) / chunk * chunk : 0;
					if (f->on && n && sim::WP(f->shortRead)) { n = sim::W(n / chunk) * chunk; sim::probe("a page reads short"); }
					part.assign(data.begin() + offset, data.begin() + offset + n);
				}
				return part.empty() ? 0 : consumer.Process(ConstByteData(part.data(), part.size()), token);
			}
			size_t Write(u64 offset, ConstByteData d, const ICancellationToken& token) override
			{
				if (f->on && sim::WP(f->slow)) sim::sleepUs(sim::W(400));
				size_t n = d.size(); bool fails = f->on && sim::WP(f->write), throws = fails && sim::WP(50);
				if (fails) { n = n ? sim::W(n) : 0; sim::probe("a page fails to write"); }
				SIM_CHECK(offset + d.size() <= pageSize, "page", "a page of " << pageSize << " bytes is written at " << offset << " with " << d.size() << " bytes");
				{
					MutexLock l(m);
					SIM_CHECK(offset >= published || !n, "page", "bytes which were written are overwritten: " << published << " present, written at " << offset);
					SIM_CHECK(offset <= published, "page", "a hole is left in a page");
					std::copy(d.begin(), d.begin() + n, data.begin() + offset);
					if (!fails) published = offset + n;
				}
				if (throws) throw PageFault();
				return n;
			}
			static int& Live() { static int n = 0; return n; }
		};
		Faults* _f; size_t _page;

	public:
		Buffer(Faults* f, size_t page, size_t chunk) : PagedBuffer("test", page, chunk), _f(f), _page(page) { }
		IPagePtr CreatePage(size_t chunk) override
		{
			if (_f->on && sim::WP(_f->create)) { sim::probe("a page cannot be created"); throw PageFault(); }
			return make_shared_ptr<Page>(_f, _page, chunk);
		}
		static int LivePages() { return Page::Live(); }
	};

	struct Piece { u64 at; std::string data; };
	struct State
	{
		std::string stream;				// what was appended, plus what the push under way would append
		u64 acked = 0; bool pushing = false; u64 pending = 0;
		u64 popped = 0, popBegun = 0; u64 pos = 0;
		std::vector<Piece> pieces; bool writerDone = false;
	};

	struct Consumer : public virtual IDataConsumer
	{
		size_t chunk; int fail, part, slow; std::string taken;
		Consumer(size_t c, int f, int p, int s) : chunk(c), fail(f), part(p), slow(s) { }
		size_t Process(ConstByteData d, const ICancellationToken&) override
		{
			SIM_CHECK(d.size() % chunk == 0, "altered", "a piece which is not of whole chunks");
			if (sim::WP(slow)) sim::sleepUs(sim::W(500));
			if (sim::WP(fail)) { sim::probe("a consumer throws"); throw Refusal(); }
			size_t n = d.size(); if (n && sim::WP(part)) n = sim::WP(25) ? sim::W(n + 1) : sim::W(n / chunk + 1) * chunk;	// what is taken of a chunk in part is offered again
			taken.append((const char*)d.data(), n);
			return n;
		}
		void EndOfData(const ICancellationToken&) override { SIM_CHECK(false, "unexpected", "end of data"); }
	};

	// One read by the only reader
	enum ReadResult { Took, Nothing, Stopped };
	ReadResult ReadOnce(State* s, Buffer* b, size_t chunk, const ICancellationToken& token, int fail, int part, int slow)
	{
		Consumer c(chunk, fail, part, slow); bool cancelled = false, faulted = false;
		try { b->Read(c, token); }
		catch (const OperationCancelledException&) { cancelled = true; }
		catch (const TimeoutException&) { cancelled = true; }
		catch (const PageFault&) { faulted = true; }
		catch (const Refusal&) { faulted = true; }
		sim::Quiet q;
		if (faulted) SIM_CHECK(c.taken.empty(), "unexpected", "a read fails after the data was taken");
		if (!c.taken.empty()) s->pieces.push_back(Piece{ s->pos, c.taken });
		s->pos += c.taken.size() / chunk * chunk;
		return cancelled ? Stopped : c.taken.empty() ? Nothing : Took;
	}

	void CheckPieces(const State* s)
	{
		sim::Quiet q;
		for (const Piece& p : s->pieces)
		{
			SIM_CHECK(p.at + p.data.size() <= s->acked, "altered", "bytes " << p.at << "+" << p.data.size() << " are read though only " << s->acked << " were pushed");
			for (size_t i = 0; i < p.data.size(); ++i)
				SIM_CHECK(p.data[i] == s->stream[p.at + i], "altered", "a read at " << p.at << " of " << p.data.size() << " bytes returns something else at " << p.at + i << " (" << s->acked << " pushed, " << s->popped << " popped)");
		}
	}
}

SIM_SCENARIO(stream, 6)
{
	SilenceLog();
	State st; State* s = &st; Faults fs; Faults* f = &fs;
	size_t chunk = sim::WP(50) ? 1 : sim::WR(2, 4), page = chunk * sim::WR(1, 5);
	if (sim::WP(40)) { f->write = 20; f->create = 8; } if (sim::WP(30)) f->read = 15; if (sim::WP(40)) f->slow = 30; if (sim::WP(30)) f->shortRead = 30;
	bool cancels = sim::WP(30), allocs = sim::WP(20), popThread = sim::WP(35), seeks = sim::WP(40), unread = sim::WP(20); int cfail = sim::WP(30) ? 15 : 0, part = sim::WP(40) ? 40 : 0, cslow = sim::WP(40) ? 30 : 0;
	{
		Buffer buffer(f, page, chunk); Buffer* b = &buffer;
		Mutex popMutex; Mutex* pm = &popMutex;		// a failed push is measured while nothing is popped
		CancellationToken readerStop; CancellationToken* rs = &readerStop;
		CancellationToken* current[2] = { nullptr, nullptr }; CancellationToken** cur = current; Mutex mutex; Mutex* m = &mutex;
		auto withToken = [=](int slot, const std::function<void (const ICancellationToken&)>& op)
		{
			int kind = slot ? (int)sim::WR(2, 3) : cancels ? (int)sim::W(4) : 0;
			if (kind <= 1) return op(DummyCancellationToken());
			if (kind == 2) { TimedCancellationToken t(Us(sim::W(4) * 400)); return op(t); }
			CancellationToken t; { MutexLock l(*m); sim::Quiet q; cur[slot] = &t; }
			struct Unset { CancellationToken** cur; Mutex* m; int slot; ~Unset() { MutexLock l(*m); sim::Quiet q; cur[slot] = nullptr; } } u{ cur, m, slot };
			op(t);
		};
		auto pop = [=](bool beyond)
		{
			MutexLock l(*pm);
			u64 max, from; { sim::Quiet q; max = (beyond ? s->acked : std::min(s->pos, s->acked)) - s->popped; from = s->popped; }
			u64 n = sim::WP(30) ? max / chunk * chunk : sim::W(max / chunk + 1) * chunk;
			{ sim::Quiet q; s->popBegun = from + n; }
			b->Pop(n);
			sim::Quiet q; s->popped = from + n; s->pos = std::max(s->pos, s->popped);
			if (n) sim::probe("popped");
		};
		Clients cs, readers, others;
		int nw = sim::WR(1, 8);
		Spawn(cs, "writer", [=]
		{
			for (int i = 0; i < nw; ++i)
			{
				size_t n = sim::WP(10) ? 0 : sim::WP(60) ? sim::WR(1, 2 * page) : sim::WR(1, 4 * page), done = 0;
				std::string data; for (size_t j = 0; j < n; ++j) data.push_back((char)Byte(i, j));
				for (int attempt = 0; done < n; ++attempt)
				{
					std::vector<u8> buf(data.begin() + done, data.end());
					{ sim::Quiet q; s->pending = buf.size(); s->stream.append(data, done, std::string::npos); }
					bool ok = false;
					try
					{
						withToken(0, [&](const ICancellationToken& t)
						{
							if (allocs && attempt < 3 && sim::WP(40)) { sim::AllocFaults a(100); b->Push(ConstByteData(buf.data(), buf.size()), t); }
							else b->Push(ConstByteData(buf.data(), buf.size()), t);
							ok = true;
						});
					}
					catch (const OperationCancelledException&) { }
					catch (const TimeoutException&) { }
					catch (const InputOutputException&) { }
					catch (const PageFault&) { }
					catch (const std::bad_alloc&) { }
					if (ok) { sim::Quiet q; s->acked += buf.size(); s->pending = 0; done = n; break; }
					// how much of it was appended?
					MutexLock l(*pm);
					u64 size = b->GetStorageSize();
					sim::Quiet q; u64 total = size + s->popped;
					SIM_CHECK(total >= s->acked && total <= s->acked + buf.size(), "size", "after a failed push of " << buf.size() << " bytes to " << s->acked << ", " << s->popped << " popped, the size is " << size);
					sim::probe(total == s->acked ? "a push fails" : "a push fails half way");
					done += total - s->acked; s->acked = total; s->pending = 0; s->stream.resize(total);
					if (attempt > 6) { sim::Quiet q2; f->write = f->create = 0; }
				}
				if (sim::WP(20)) sim::sleepUs(sim::W(500));
			}
		});
		Spawn(readers, "reader", [=]
		{
			for (;;)
			{
				bool done; { sim::Quiet q; done = s->writerDone && s->pos + chunk > s->acked; }
				if (done) break;
				int x = sim::W(100);
				if (!popThread && x < 25) pop(unread && sim::WP(30));
				else if (seeks && x < 40)
				{
					MutexLock l(*pm); u64 n; { sim::Quiet q; n = (s->acked - s->popped) / chunk; } u64 to = sim::W(n + 1) * chunk;
					b->Seek(to); sim::Quiet q; s->pos = s->popped + to; sim::probe("sought");
				}
				else if (x < 45)
				{
					bool thrown = false; u64 size, lo, hi; { MutexLock l(*pm); { sim::Quiet q; lo = s->acked - s->popped; } size = b->GetStorageSize(); sim::Quiet q; hi = s->stream.size() - s->popped; }
					SIM_CHECK(size >= lo && size <= hi, "size", "the size is " << size << " though " << lo << " to " << hi << " bytes were pushed and not popped");
					try { MutexLock l(*pm); u64 big; { sim::Quiet q; big = (s->stream.size() / chunk + 100) * chunk; } if (sim::WP(50)) b->Pop(big); else b->Seek(big); } catch (const IndexOutOfRangeException&) { thrown = true; }
					SIM_CHECK(thrown, "unexpected", "popping or seeking beyond the end is accepted");
				}
				else
				{
					ReadResult r = Nothing; bool last; { sim::Quiet q; last = s->writerDone; }
					if (cancels && !last && sim::WP(50)) withToken(1, [&](const ICancellationToken& t) { try { r = ReadOnce(s, b, chunk, t, cfail, part, cslow); } catch (const TimeoutException&) { } });
					else if (sim::WP(30) || last) { TimedCancellationToken t(Ms(20)); r = ReadOnce(s, b, chunk, t, cfail, part, cslow); }
					else r = ReadOnce(s, b, chunk, *rs, cfail, part, cslow);
				}
			}
		});
		if (popThread) Spawn(others, "popper", [=] { int n = sim::WR(1, 8); for (int i = 0; i < n; ++i) { pop(false); sim::sleepUs(sim::W(700)); } });
		if (cancels) Spawn(others, "canceller", [=]
		{
			int n = sim::WR(1, 8);
			for (int i = 0; i < n; ++i) { sim::sleepUs(sim::W(700)); MutexLock l(*m); CancellationToken* t; { sim::Quiet q; t = cur[sim::W(2)]; } if (t) t->Cancel(); }
		});
		SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 30000000, 1000), "stuck", "a push does not return"); JoinAll(cs);
		{ sim::Quiet q; st.writerDone = true; }
		readerStop.Cancel();
		for (int i = 0; i < 300; ++i) { if (sim::waitFor([&] { return AllDone(readers); }, 100000, 1000)) break; MutexLock l(mutex); CancellationToken* t; { sim::Quiet q; t = cur[1]; } if (t) t->Cancel(); }
		SIM_CHECK(AllDone(readers), "stuck", "the reader does not get all data");
		JoinAll(readers); JoinAll(others);
		CheckPieces(s);
		fs.on = false;
		SIM_CHECK(buffer.GetStorageSize() == st.acked - st.popped, "size", "the size is " << buffer.GetStorageSize() << " after " << st.acked << " bytes pushed and " << st.popped << " popped");
		// everything which was not popped can be read again
		buffer.Seek(0); { sim::Quiet q; st.pos = st.popped; st.pieces.clear(); }
		while (st.pos + chunk <= st.acked) SIM_CHECK(ReadOnce(s, b, chunk, TimedCancellationToken(Ms(20)), 0, 0, 0) == Took, "lost", "at " << st.pos << " of " << st.acked << " bytes nothing is read");
		CheckPieces(s);
		if (chunk > 1 && st.acked - st.popped >= chunk) { bool thrown = false; try { if (sim::WP(50)) buffer.Pop(1); else buffer.Seek(1); } catch (const ArgumentException&) { thrown = true; } SIM_CHECK(thrown, "unexpected", "a position inside a chunk is accepted"); }
		u64 rest = (st.acked - st.popped) / chunk * chunk; buffer.Pop(rest);
		SIM_CHECK(buffer.GetStorageSize() == st.acked - st.popped - rest, "size", "the size is wrong after all was popped");
		SIM_CHECK(Buffer::LivePages() <= 1, "pages", Buffer::LivePages() << " pages are kept though all was popped");
	}
	SIM_CHECK(Buffer::LivePages() == 0, "pages", "pages are not released");
}

// Several pushing threads, and a push which waits for another one is cancelled
SIM_SCENARIO(pushers, 2)
{
	SilenceLog();
	Faults fs; Faults* f = &fs; f->slow = 60; f->create = f->write = 0;
	size_t page = sim::WR(1, 6); Buffer buffer(f, page, 1); Buffer* b = &buffer;
	struct P { int id, writer; size_t n; bool ok; }; std::vector<P> ps; auto* pp = &ps;
	CancellationToken stop; CancellationToken* t = &stop;
	Clients cs; int nw = sim::WR(2, 3); bool cancels = sim::WP(50);
	for (int w = 0; w < nw; ++w) Spawn(cs, "writer", [=]
	{
		int k = sim::WR(1, 4);
		for (int i = 0; i < k; ++i)
		{
			size_t n = sim::WR(1, 12); int id; { sim::Quiet q; id = pp->size(); pp->push_back(P{ id, w, n, false }); }
			std::vector<u8> d; for (size_t j = 0; j < n; ++j) d.push_back(Byte(id, j));
			try { if (cancels && w == 0) b->Push(ConstByteData(d.data(), n), *t); else b->Push(ConstByteData(d.data(), n), DummyCancellationToken()); sim::Quiet q; (*pp)[id].ok = true; }
			catch (const OperationCancelledException&) { SIM_CHECK(cancels && w == 0, "unexpected", "a push is cancelled by nobody"); sim::probe("a push is cancelled"); }
		}
	});
	if (cancels) { sim::sleepUs(sim::W(1500)); stop.Cancel(); }
	SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 30000000, 1000), "stuck", "a push does not return"); JoinAll(cs);
	std::string got; size_t total = 0; { sim::Quiet q; for (const P& p : ps) if (p.ok) total += p.n; }
	SIM_CHECK(buffer.GetStorageSize() == total, "size", "the size is " << buffer.GetStorageSize() << " after " << total << " bytes were pushed");
	while (got.size() < total) { Consumer c(1, 0, 30, 0); size_t before = got.size(); for (int i = 0; i < 50 && got.size() == before; ++i) { b->Read(c, TimedCancellationToken(Ms(5))); got += c.taken; } SIM_CHECK(got.size() > before, "lost", "nothing is read"); }
	sim::Quiet q;
	std::vector<bool> used(ps.size()); size_t at = 0;
	while (at < got.size())
	{
		int found = -1;
		for (const P& p : ps)
		{
			if (!p.ok || used[p.id] || at + p.n > got.size()) continue;
			bool same = true, first = true; for (size_t j = 0; j < p.n; ++j) same = same && (u8)got[at + j] == Byte(p.id, j);
			for (const P& o : ps) if (o.writer == p.writer && o.id < p.id && o.ok && !used[o.id]) first = false;
			if (same && first && (found < 0 || ps[found].n < p.n)) found = p.id;
		}
		SIM_CHECK(found >= 0, "altered", "what is read at " << at << " is not a whole push in order");
		used[found] = true; at += ps[found].n;
	}
}

// A reader at the end waits; a push or a seek backwards gives it data, cancellation ends the wait
SIM_SCENARIO(waiting, 1)
{
	SilenceLog();
	Faults fs; Faults* f = &fs; size_t chunk = sim::WR(1, 3), page = chunk * sim::WR(1, 6), n = chunk * sim::WR(1, 10); Buffer buffer(f, page, chunk); Buffer* b = &buffer;
	std::vector<u8> d(100); for (size_t j = 0; j < d.size(); ++j) d[j] = Byte(0, j);
	b->Push(ConstByteData(d.data(), n), DummyCancellationToken()); b->Seek(n);
	CancellationToken stop; CancellationToken* t = &stop; std::string got; auto* g = &got;
	int how = sim::W(4); size_t pushed = sim::WR(chunk, 3 * page + chunk), want = 1, from = how == 1 ? 0 : n;
	Clients cs;
	if (how == 3) pushed = (page - n % page) % page + chunk;		// what it does not fail to append is read
	if (how == 3) { want = pushed - chunk; if (!want) how = 0, want = 1; }
	Spawn(cs, "reader", [=] { for (;;) { Consumer c(chunk, 0, 0, 0); b->Read(c, *t); { sim::Quiet q; *g += c.taken; if (g->size() >= want) break; } if (!*t) break; } });
	sim::sleepUs(sim::W(600));
	if (how == 0)
	{
		size_t parts = sim::WR(1, 3), at = n;		// also in parts smaller than a chunk
		for (size_t i = 0; i < parts; ++i) { size_t k = i + 1 == parts ? n + pushed - at : sim::W(n + pushed - at + 1); b->Push(ConstByteData(d.data() + at, k), DummyCancellationToken()); at += k; }
	}
	else if (how == 1) b->Seek(0);
	else if (how == 2) stop.Cancel();
	else
	{
		f->create = 100; bool failed = false;
		try { b->Push(ConstByteData(d.data() + n, pushed), DummyCancellationToken()); } catch (const PageFault&) { failed = true; }
		f->create = 0; SIM_CHECK(failed, "unexpected", "a push whose page cannot be created succeeds");
	}
	SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 5000000, 500), "stuck", "a reader does not return though " << (how == 0 ? "data was pushed" : how == 1 ? "the position was moved back" : how == 2 ? "it is cancelled" : "a part of the data was pushed"));
	JoinAll(cs);
	sim::Quiet q;
	SIM_CHECK((how == 2) == got.empty(), "unexpected", "read " << got.size() << " bytes");
	for (size_t j = 0; j < got.size(); ++j) SIM_CHECK((u8)got[j] == Byte(0, from + j), "altered", "wrong data after the wait");
}

// The position is moved or data is popped by another thread while a read is under way
SIM_SCENARIO(moved, 1)
{
	SilenceLog();
	Faults fs; Faults* f = &fs; f->slow = 50; f->shortRead = 20;
	size_t chunk = sim::WR(1, 3), page = chunk * sim::WR(1, 5), n = chunk * sim::WR(2, 60 / chunk);
	Buffer buffer(f, page, chunk); Buffer* b = &buffer;
	std::vector<u8> d(n); for (size_t i = 0; i < n; ++i) d[i] = i;
	b->Push(ConstByteData(d.data(), n), DummyCancellationToken());
	bool seek = sim::WP(60); size_t p = sim::W(n / chunk) * chunk, x = seek ? sim::W(n / chunk) * chunk : sim::W(p / chunk + 1) * chunk;
	b->Seek(p);
	std::string got; auto* g = &got;
	Clients cs;
	Spawn(cs, "reader", [=] { Consumer c(chunk, 0, 30, 60); b->Read(c, TimedCancellationToken(Ms(100))); sim::Quiet q; *g = c.taken; });
	Spawn(cs, "mover", [=] { sim::sleepUs(sim::W(600)); if (seek) b->Seek(x); else b->Pop(x); });
	SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 30000000, 1000), "stuck", "a read or a move does not return"); JoinAll(cs);
	f->on = false; Consumer rest(chunk, 0, 0, 0); b->Read(rest, TimedCancellationToken(Ms(50)));
	sim::Quiet q;
	for (std::string* t : { &got, &rest.taken }) for (size_t i = 1; i < t->size(); ++i) SIM_CHECK((u8)(*t)[i] == (u8)(*t)[0] + i, "altered", "a read returns bytes which do not follow each other");
	size_t at = rest.taken.empty() ? n : (u8)rest.taken[0], from = got.empty() ? p : (u8)got[0];
	if (seek)
	{
		SIM_CHECK(from == p || from == x, "altered", "a read from " << p << " or " << x << " starts at " << from);
		SIM_CHECK((from == p && at == x) || (from == x && at == x + got.size() / chunk * chunk) || (got.empty() && at == x), "altered", "after a read of " << got.size() << " at " << from << " and moving to " << x << " the position is " << at);
	}
	else SIM_CHECK(from == p && at == p + got.size() / chunk * chunk, "altered", "after a read of " << got.size() << " at " << from << " while " << x << " bytes before it were popped the position is " << at);
}
