// C15: byte buffers
#include "common.h"
#include <stingraykit/io/BithreadCircularBuffer.h>
#include <stingraykit/io/BufferedDataConsumer.h>
#include <stingraykit/io/BufferedDataMediator.h>
#include <stingraykit/io/BufferedDataSource.h>
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/io/MemoryCircularBuffer.h>
#include <stingraykit/thread/TimedCancellationToken.h>

namespace
{
	u8 Byte(size_t i) { u32 h = (u32)i * 2654435761u + 12345u; h ^= h >> 13; h *= 0x85ebca6bu; h ^= h >> 16; return (u8)h; }

	// History of one stream of bytes through a buffer: what was accepted, what came out, what was dropped and when
	struct Accepted { size_t from, to; uint64_t begin, end; };
	struct Chunk { std::string data; uint64_t from, at; };
	struct Drop { uint64_t begin, end; bool all; size_t pos; };	// all: everything accepted; else everything before pos

	void CheckStream(const std::vector<Accepted>& acc, const std::vector<Chunk>& chunks, const std::vector<Drop>& drops, bool complete, size_t tailMayBeLost)
	{
		size_t total = acc.empty() ? 0 : acc.back().to;
		typedef std::pair<size_t, size_t> St;	// position, number of drops applied
		std::set<St> at{ St(0, 0) };
		auto apply = [&](std::set<St>& s, uint64_t mustBefore, uint64_t mayBefore)
		{
			std::set<St> r, todo = s;
			while (!todo.empty())
			{
				St x = *todo.begin(); todo.erase(todo.begin());
				if (x.second == drops.size() || drops[x.second].end > mustBefore) r.insert(x);
				if (x.second < drops.size() && drops[x.second].begin < mayBefore)
				{
					const Drop& d = drops[x.second];
					if (!d.all) todo.insert(St(std::max(x.first, d.pos), x.second + 1));
					else
					{
						std::set<size_t> pos{ 0 }; size_t lo = 0; for (const Accepted& a : acc) { if (a.end < d.begin) { lo = a.to; } }
						for (const Accepted& a : acc) if (a.begin < d.end) { pos.insert(a.from); pos.insert(a.to); }
						for (size_t p : pos) if (p >= lo && p >= x.first) todo.insert(St(p, x.second + 1));
					}
				}
			}
			s.swap(r);
		};
		size_t n = 0, got = 0;
		for (const Chunk& c : chunks)
		{
			apply(at, c.from, c.at);
			std::set<St> next;
			for (const St& x : at)
			{
				bool same = x.first + c.data.size() <= total;
				for (size_t i = 0; same && i < c.data.size(); ++i) same = (u8)c.data[i] == Byte(x.first + i);
				if (same) next.insert(St(x.first + c.data.size(), x.second));
			}
			SIM_CHECK(!next.empty(), "altered", "piece " << n << " of " << c.data.size() << " bytes, after " << got << " bytes, is not what was accepted next (" << total << " bytes accepted, " << drops.size() << " drops)");
			at.swap(next); ++n; got += c.data.size();
		}
		if (!complete) return;
		apply(at, ~0ull, ~0ull);
		bool ok = false; for (const St& x : at) if (x.first + tailMayBeLost >= total) ok = true;
		SIM_CHECK(ok, "lost", "of " << total << " bytes accepted " << got << " came out before the end");
	}

	struct Cancellers
	{
		CancellationToken* current[4]; bool cancelled[4];
		Cancellers() { for (int i = 0; i < 4; ++i) { current[i] = nullptr; cancelled[i] = false; } }
	};
	template < typename Op > void WithToken(Cancellers* cs, Mutex* m, int slot, bool may, const Op& op)
	{
		int kind = may ? (int)sim::W(4) : 0;
		if (kind <= 1) return op(DummyCancellationToken());
		if (kind == 2) { TimedCancellationToken t(Us(sim::W(4) * 400)); return op(t); }
		CancellationToken t; { MutexLock l(*m); sim::Quiet q; cs->current[slot] = &t; }
		struct Unset { Cancellers* cs; Mutex* m; int slot; ~Unset() { MutexLock l(*m); sim::Quiet q; cs->current[slot] = nullptr; } } u{ cs, m, slot };
		op(t);
	}
	void CancelSome(Cancellers* cs, Mutex* m, int slots)
	{
		int slot = sim::W(slots); MutexLock l(*m); CancellationToken* t; { sim::Quiet q; t = cs->current[slot]; }
		if (t) t->Cancel();
	}

	// Waits for threads which may be blocked with a token somebody is expected to cancel
	bool WaitCancelling(Cancellers* cs, Mutex* m, Clients& clients)
	{
		for (int n = 0; n < 600; ++n)
		{
			if (sim::waitFor([&] { return AllDone(clients); }, 100000, 1000)) return true;
			for (int slot = 0; slot < 3; ++slot) { MutexLock l(*m); CancellationToken* t; { sim::Quiet q; t = cs->current[slot]; } if (t) t->Cancel(); }
		}
		return false;
	}

	struct Buf
	{
		DataBufferPtr whole; SharedCircularBufferPtr shared; std::unique_ptr<BufferedDataConsumer> in; std::unique_ptr<BufferedDataSource> out;
		IDataConsumer& In() { return whole ? (IDataConsumer&)*whole : *in; }
		IDataSource& Out() { return whole ? (IDataSource&)*whole : *out; }
		size_t DataSize() { return whole ? whole->GetDataSize() : SharedCircularBuffer::BufferLock(*shared).GetDataSize(); }
		size_t FreeSize() { return whole ? whole->GetFreeSize() : SharedCircularBuffer::BufferLock(*shared).GetFreeSize(); }
		size_t StorageSize() { return whole ? whole->GetStorageSize() : SharedCircularBuffer::BufferLock(*shared).GetStorageSize(); }
		bool Ended() { if (whole) return whole->HasEndOfDataOrException(); SharedCircularBuffer::BufferLock l(*shared); return l.IsEndOfData() || l.HasException(); }
		void Clear() { if (whole) whole->Clear(); else SharedCircularBuffer::BufferLock(*shared).Clear(); }
		void SetException(const std::exception& ex) { if (whole) whole->SetException(ex, DummyCancellationToken()); else SharedCircularBuffer::BufferLock(*shared).SetException(ex, DummyCancellationToken()); }
		signal_connector<void (size_t)> OnOverflow() { return whole ? whole->OnOverflow() : in->OnOverflow(); }
	};

	struct Consumer : public virtual IDataConsumer
	{
		std::vector<Chunk> chunks; int eods = 0; size_t out, storage; bool odd; Buf* buf; int inside = 0;
		Consumer(size_t o, size_t s, bool od, Buf* b) : out(o), storage(s), odd(od), buf(b) { }
		size_t Process(ConstByteData data, const ICancellationToken&) override
		{
			SIM_CHECK(data.size() && data.size() % out == 0 && data.size() <= storage, "size", "a consumer is given " << data.size() << " bytes with packets of " << out << " and storage of " << storage);
			SIM_CHECK(!eods, "order", "data comes after the end of data");
			{ sim::Quiet q; SIM_CHECK(++inside == 1, "overlap", "a consumer is used by two threads"); }
			struct Leave { int& n; ~Leave() { --n; } } leave{ inside };
			std::string before; uint64_t began; { sim::Quiet q; began = sim::seq(); before.assign((const char*)data.data(), data.size()); }
			if (sim::WP(30)) sim::sleepUs(sim::W(500)); else sim::point();
			if (sim::WP(20)) { size_t n = buf->DataSize(); SIM_CHECK(n >= data.size() && n <= storage, "size", "reported size " << n << " while " << data.size() << " bytes are being read"); }
			{ std::string after((const char*)data.data(), data.size()); sim::Quiet q; SIM_CHECK(before == after, "altered", "data changes while it is being read"); }
			int what = odd ? (int)sim::W(8) : 7;
			if (what == 0) { sim::probe("a consumer throws"); throw std::runtime_error("consumer"); }
			if (what == 1) { sim::probe("a consumer refuses"); return 0; }
			size_t n = what <= 4 ? sim::WR(1, data.size() / out) * out : data.size();
			sim::Quiet q; chunks.push_back(Chunk{ before.substr(0, n), began, sim::seq() }); return n;
		}
		void EndOfData(const ICancellationToken&) override
		{
			int what = odd ? (int)sim::W(4) : 1;
			if (what == 0) throw std::runtime_error("consumer");
			++eods;
		}
	};
}

SIM_SCENARIO_F(data_buffer, 5, sim::NoEintr)
{
	SilenceLog();
	size_t in = sim::WP(40) ? 1 : sim::WR(1, 4), out = sim::WP(40) ? 1 : sim::WR(1, 4), unit = in; while (unit % out) unit += in;
	size_t storage = unit * sim::WR(1, std::max<size_t>(1, 24 / unit)); bool discard = sim::WP(25);
	size_t required = sim::WP(30) ? sim::W(storage - (out - 1) + 1) : 0;
	int producers = 1; Buf buf; Buf* b = &buf;
	if (sim::WP(60)) { buf.whole = make_shared_ptr<DataBuffer>(discard, storage, DataBuffer::Parameters().SetInputPacketSize(in).SetOutputPacketSize(out).SetRequiredFreeSpace(required)); if (sim::WP(40)) producers = sim::WR(2, 3); }
	else { buf.shared = make_shared_ptr<SharedCircularBuffer>(storage); buf.in.reset(new BufferedDataConsumer(buf.shared, discard, in, required)); buf.out.reset(new BufferedDataSource(buf.shared, out)); }
	bool cancels = sim::WP(60), faults = sim::WP(30), odd = sim::WP(50), clears = producers == 1 && sim::WP(30), thresholds = buf.whole && sim::WP(40);
	struct State { Cancellers cs; std::vector<Accepted> acc; std::vector<Drop> drops; std::map<int, int> overflows; std::map<int, size_t> overflown; std::vector<size_t> per; size_t dropped = 0; bool end = false, exception = false, stop = false; std::deque<std::pair<int, size_t> > left; } st; State* s = &st;
	st.per.resize(3);
	Mutex mutex; Mutex* m = &mutex;
	Token overflowToken = buf.OnOverflow().connect(Fn<void (size_t)>([=](size_t n) { sim::Quiet q; ++s->overflows[sim::self()]; s->overflown[sim::self()] = n; }));
	Consumer consumer(out, storage, odd, b); Consumer* c = &consumer; bool cleared = false; (void)cleared;
	Clients cs, reader, clearer;
	for (int p = 0; p < producers; ++p)
		Spawn(cs, "producer", [=]
		{
			int ops = sim::WR(1, 8); size_t pos = 0;	// with one producer a byte depends on its position, with several on the producer and the position in its own stream
			for (int o = 0; o < ops; ++o)
			{
				size_t n = in * sim::WR(0, sim::WP(20) ? 12 : 4), done = 0; int tries = 0;
				while (done < n || (n == 0 && !tries))
				{
					++tries;
					std::vector<u8> data(n - done + 1);
					for (size_t j = 0; j < n - done; ++j) data[j] = producers == 1 ? Byte(pos + j) : (u8)(p << 6 | ((pos + j) & 63));
					uint64_t begin; int before; { sim::Quiet q; begin = sim::seq(); before = s->overflows[sim::self()]; if (producers == 1) s->acc.push_back(Accepted{ pos, pos + (n - done), begin, ~0ull }); }
					size_t r = 0; bool threw = false;
					try
					{
						WithToken(&s->cs, m, p, cancels, [&](const ICancellationToken& t)
						{
							if (faults) { sim::AllocFaults a(60); r = b->In().Process(ConstByteData(data.data(), n - done), t); }
							else r = b->In().Process(ConstByteData(data.data(), n - done), t);
						});
					}
					catch (const std::bad_alloc&) { threw = true; sim::probe("a producer fails"); }
					for (u8& x : data) x = 0xee;
					sim::Quiet q;
					SIM_CHECK(r <= n - done, "count", "a producer gave " << (n - done) << " bytes and " << r << " were taken");
					SIM_CHECK(r % in == 0, "count", "a part of a packet is taken");
					bool over = s->overflows[sim::self()] != before;
					if (over)
					{
						SIM_CHECK(discard, "lost", "data is discarded though discarding is off");
						SIM_CHECK(threw || (r == n - done && s->overflown[sim::self()] == r), "count", "an overflow is reported with " << s->overflown[sim::self()] << " bytes, " << r << " taken");
						sim::probe("an overflow"); s->dropped += r;
						if (producers == 1) s->acc.pop_back();
						done += r; if (threw) done = n; break;		// these bytes never went in: the next ones take their place
					}
					SIM_CHECK(!(discard && n && !threw && r == 0 && !cancels), "stuck", "a discarding buffer does not take data");
					if (producers == 1) { Accepted& a = s->acc.back(); a.to = pos + r; a.end = sim::seq(); }
					pos += r; s->per[p] = pos; done += r;
					if (cancels && sim::WP(10)) break;
					if (threw) break;
				}
				if (sim::WP(30)) sim::sleepUs(sim::W(600));
			}
		});
	Spawn(reader, "consumer", [=]
	{
		int finals = 0;
		for (;;)
		{
			bool end; { sim::Quiet q; end = s->end; if (s->stop) break; }
			if (thresholds && sim::WP(20) && !clears)
			{
				size_t most = storage > in + required ? (storage - in - required) / out * out : 0;
				if (most >= out && most < storage && (size_t)0 < most)
				{
					size_t th = out * sim::WR(1, most / out); TimedCancellationToken t(Us(sim::W(5) * 400)); bool plain = false; (void)plain;
					b->whole->WaitForData(th, t);
					bool late = !t; size_t n = b->DataSize();
					SIM_CHECK(n >= th || late || b->Ended(), "count", "waiting for " << th << " bytes returns with " << n);
				}
			}
			try
			{
				if (end) b->Out().Read(*c, TimedCancellationToken(Ms(50)));
				else WithToken(&s->cs, m, 3, cancels, [&](const ICancellationToken& t) { b->Out().Read(*c, t); });
			}
			catch (const std::runtime_error& ex)
			{
				if (std::string(ex.what()).find("the failure") != std::string::npos)
				{
					sim::Quiet q;
					SIM_CHECK(s->exception, "unexpected", "an exception comes which was not set");
					if (++finals > 1) break;
				}
				else SIM_CHECK(odd && std::string(ex.what()) == "consumer", "unexpected", "reading throws " << ex.what());
			}
			catch (const std::exception& ex)
			{
				sim::Quiet q;
				SIM_CHECK(s->exception && std::string(ex.what()).find("the failure") != std::string::npos, "unexpected", "reading throws " << ex.what());
				if (++finals > 1) break;
			}
			if (c->eods) { sim::Quiet q; SIM_CHECK(s->end && !s->exception, "order", "the end of data comes too early"); break; }
		}
	});
	Spawn(clearer, "observer", [=]
	{
		int n = sim::WR(1, 8);
		for (int i = 0; i < n; ++i)
		{
			sim::sleepUs(sim::W(600));
			if (cancels && sim::WP(60)) CancelSome(&s->cs, m, 4);
			size_t d = b->DataSize(), f = b->FreeSize(); SIM_CHECK(d <= storage && f <= storage && b->StorageSize() == storage, "size", "reported sizes " << d << " and " << f << " with a storage of " << storage);
			SIM_CHECK(!b->Ended(), "order", "an end is reported before it is set");
			if (clears && sim::WP(50))
			{
				uint64_t begin; { sim::Quiet q; begin = sim::seq(); }
				try { b->Clear(); sim::Quiet q; s->drops.push_back(Drop{ begin, sim::seq(), true, 0 }); sim::probe("a buffer is cleared"); }
				catch (const InvalidOperationException&) { sim::probe("clearing is refused"); }
			}
		}
	});
	// with nobody left to wake them, those with a token that nobody will cancel must be able to proceed
	SIM_CHECK(WaitCancelling(&st.cs, &mutex, cs), "stuck", "a producer does not finish though the data is being read");
	JoinAll(cs); JoinAll(clearer);
	bool exception = sim::WP(40); { sim::Quiet q; st.end = true; st.exception = exception; }
	for (;;)
	{
		try
		{
			if (exception) { buf.SetException(std::runtime_error("the failure")); }
			else buf.In().EndOfData(DummyCancellationToken());
			break;
		}
		catch (const std::bad_alloc&) { }
	}
	try { u8 x[4] = { }; buf.In().Process(ConstByteData(x, in), DummyCancellationToken()); SIM_CHECK(false, "order", "data is taken after the end"); } catch (const InvalidOperationException&) { }
	SIM_CHECK(sim::waitFor([&] { return AllDone(reader); }, 60000000, 1000), "stuck", "a consumer does not get the end");
	JoinAll(reader);
	{
		sim::Quiet q;
		if (producers == 1) CheckStream(st.acc, consumer.chunks, st.drops, true, out - 1);
		else
		{
			std::vector<size_t> next(3); size_t total = 0;
			for (Chunk& ch : consumer.chunks) for (char x : ch.data)
			{
				size_t p = (u8)x >> 6; SIM_CHECK(p < 3 && ((u8)x & 63) == (next[p] & 63), "altered", "byte " << next[p] << " of producer " << p << " comes out wrong");
				++next[p]; ++total;
			}
			size_t want = 0; for (size_t p = 0; p < 3; ++p) { SIM_CHECK(next[p] <= st.per[p], "altered", "more comes out than went in"); want += st.per[p]; }
			SIM_CHECK(total + (out - 1) >= want, "lost", "of " << want << " bytes accepted " << total << " came out before the end");
		}
	}
	// the whole storage is usable again
	buf.Clear();
	SIM_CHECK(buf.DataSize() == 0 && buf.FreeSize() == storage && !buf.Ended(), "size", "a cleared buffer has " << buf.DataSize() << " bytes and " << buf.FreeSize() << " free of " << storage);
	{
		std::vector<u8> data(storage); for (size_t i = 0; i < storage; ++i) data[i] = Byte(i + 777);
		size_t n = 0; while (n < storage) { size_t r = buf.In().Process(ConstByteData(data.data() + n, storage - n), TimedCancellationToken(Ms(5))); if (!r || required) break; n += r; }
		SIM_CHECK(n == storage || required, "size", "a cleared buffer takes " << n << " of " << storage);
	}
}

// A circular buffer with a pusher, a popper, an observer and one who clears it
template < bool Discard > static void circular()
{
	SilenceLog();
	size_t storage = sim::WR(1, 16); MemoryCircularBuffer<Discard> buffer(storage); auto* b = &buffer;
	struct State { std::vector<Accepted> acc; std::vector<Chunk> chunks; std::vector<Drop> drops; bool end = false; } st; State* s = &st;
	bool faults = sim::WP(40), clears = sim::WP(40);
	if (sim::WP(10)) buffer.SetLoggingEnabled();
	Clients cs, reader;
	Spawn(cs, "pusher", [=]
	{
		int ops = sim::WR(1, 12); size_t pos = 0;
		for (int o = 0; o < ops; ++o)
		{
			size_t n = sim::W(Discard ? storage + 3 : storage + 1); std::vector<u8> data(n + 1); for (size_t j = 0; j < n; ++j) data[j] = Byte(pos + j);
			for (int tries = 0; tries < 6; ++tries)
			{
				{ sim::Quiet q; s->acc.push_back(Accepted{ pos, pos + n, sim::seq(), ~0ull }); if (Discard && pos + n > storage) s->drops.push_back(Drop{ sim::seq(), ~0ull, false, pos + n - storage }); }
				bool can = !Discard && b->CanPush(n), ok = false;
				try { b->Push(ConstByteData(data.data(), n)); ok = true; }
				catch (const BufferIsFullException&) { SIM_CHECK(!Discard && !can, "lost", "pushing is refused though there is space"); sim::probe("a push is refused"); }
				catch (const stingray::Exception&) { SIM_CHECK(Discard, "unexpected", "pushing throws"); sim::probe("a push is refused"); }
				sim::Quiet q;
				if (ok) { s->acc.back().end = sim::seq(); if (Discard && pos + n > storage) s->drops.back().end = sim::seq(); pos += n; break; }
				s->acc.pop_back(); if (Discard && pos + n > storage) s->drops.pop_back();
				sim::sleepUs(sim::W(300));
			}
			for (u8& x : data) x = 0xee;
			if (sim::WP(30)) sim::sleepUs(sim::W(300));
		}
	});
	Spawn(reader, "popper", [=]
	{
		for (;;)
		{
			bool end; { sim::Quiet q; end = s->end; }
			uint64_t from; { sim::Quiet q; from = sim::seq(); }
			CircularDataReserverPtr r;
			try { sim::AllocFaults a(faults && !end ? 100 : 0); r = b->Pop(sim::WP(60) ? sim::WR(1, storage) : std::numeric_limits<size_t>::max()); }
			catch (const std::bad_alloc&) { sim::probe("a pop fails"); continue; }
			ConstByteData d = r->GetData(); SIM_CHECK(d.size() <= storage, "size", "more data than storage");
			uint64_t at; { sim::Quiet q; at = sim::seq(); }
			std::string got((const char*)d.data(), d.size());
			if (sim::WP(30)) sim::sleepUs(sim::W(400)); else sim::point();
			{ std::string again((const char*)d.data(), d.size()); sim::Quiet q; SIM_CHECK(got == again, "altered", "data changes before it is released"); if (!got.empty()) s->chunks.push_back(Chunk{ got, from, at }); }
			bool empty = !d.size(); r.reset();
			if (empty) { if (end) break; sim::sleepUs(100); }
		}
	});
	Spawn(cs, "observer", [=]
	{
		int n = sim::WR(1, 6);
		for (int i = 0; i < n; ++i)
		{
			size_t d = b->GetSize(), f = b->GetFreeSize(); SIM_CHECK(d <= storage && f <= storage, "size", "reported sizes " << d << " and " << f << " with a storage of " << storage);
			sim::sleepUs(sim::W(400));
			if (clears && !Discard && sim::WP(50)) { uint64_t begin; { sim::Quiet q; begin = sim::seq(); } b->Clear(); sim::Quiet q; s->drops.push_back(Drop{ begin, sim::seq(), true, 0 }); }
		}
	});
	SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 60000000, 1000), "stuck", "a circular buffer hangs");
	JoinAll(cs); { sim::Quiet q; st.end = true; } JoinAll(reader);
	SIM_CHECK(buffer.GetSize() == 0 && buffer.GetFreeSize() == storage, "size", "an empty buffer has " << buffer.GetSize() << " bytes and " << buffer.GetFreeSize() << " free of " << storage);
	sim::Quiet q;
	CheckStream(st.acc, st.chunks, st.drops, true, 0);
}
SIM_SCENARIO_F(circular_buffer, 2, sim::NoEintr) { if (sim::WP(70)) circular<false>(); else circular<true>(); }

// The same against a model, one operation after another
template < bool Discard > static void circularModel()
{
	SilenceLog();
	size_t storage = sim::WR(1, 12); MemoryCircularBuffer<Discard> b(storage); std::deque<u8> model; size_t pos = 0, locked = 0; CircularDataReserverPtr held; int ops = sim::WR(5, 40);
	for (int o = 0; o < ops; ++o)
	{
		switch (sim::W(6))
		{
		case 0: case 1:
		{
			size_t n = sim::W(storage + 4); std::vector<u8> d(n + 1); for (size_t j = 0; j < n; ++j) d[j] = Byte(pos + j); pos += n;
			bool fits = n + model.size() <= storage, ok = false;
			SIM_CHECK(b.CanPush(n) == fits, "size", "reported ability to push " << n << " with " << model.size() << " of " << storage);
			try { b.Push(ConstByteData(d.data(), n)); ok = true; } catch (const stingray::Exception&) { } catch (const BufferIsFullException&) { }
			SIM_CHECK(ok == (fits || (Discard && !locked)), "lost", "pushing of " << n << " to " << model.size() << " of " << storage << (ok ? " succeeds" : " fails"));
			if (ok) { sim::Quiet q; model.insert(model.end(), d.begin(), d.begin() + n); while (model.size() > storage) model.pop_front(); }
			break;
		}
		case 2: case 3:
		{
			size_t want = sim::WP(60) ? sim::WR(0, storage) : std::numeric_limits<size_t>::max(); bool ok = false, oom = false;
			try { sim::AllocFaults a(100); CircularDataReserverPtr r = b.Pop(want); ok = true; held = r; } catch (const std::bad_alloc&) { oom = true; } catch (const stingray::Exception&) { }
			if (oom) break;
			SIM_CHECK(ok == !locked, "count", "popping " << (ok ? "succeeds though data is held" : "fails"));
			if (ok)
			{
				ConstByteData d = held->GetData(); locked = d.size();
				sim::Quiet q; SIM_CHECK(locked <= model.size() && locked <= want && (locked || !want || model.empty()), "count", "popping of " << want << " of " << model.size() << " gives " << locked);
				for (size_t j = 0; j < locked; ++j) SIM_CHECK(d[j] == model[j], "altered", "a wrong byte is popped");
			}
			break;
		}
		case 4: held.reset(); { sim::Quiet q; model.erase(model.begin(), model.begin() + locked); } locked = 0; break;
		case 5: if (sim::WP(30)) { b.Clear(); sim::Quiet q; model.resize(locked); } break;
		}
		SIM_CHECK(b.GetSize() == model.size() && b.GetFreeSize() == storage - model.size(), "size", "reported sizes " << b.GetSize() << " and " << b.GetFreeSize() << " with " << model.size() << " of " << storage);
		if (sim::WP(30)) { shared_ptr<std::vector<u8> > all = b.GetAllData(); sim::Quiet q; SIM_CHECK(std::deque<u8>(all->begin(), all->end()) == model, "altered", "the data differs from what was pushed"); }
	}
	held.reset();
}
SIM_SCENARIO(circular_model, 1)
{
	if (sim::WP(50)) return circularModel<false>(); if (sim::WP(50)) return circularModel<true>();
	SilenceLog();
	size_t storage = sim::WR(1, 12); BithreadCircularBuffer b(storage); std::deque<u8> model; size_t pos = 0; int ops = sim::WR(5, 40);
	for (int o = 0; o < ops; ++o)
	{
		switch (sim::W(5))
		{
		case 0: case 1:
		{
			BithreadCircularBuffer::Writer w = b.Write(); SIM_CHECK(w.size() <= storage - model.size() && (w.size() || model.size() == storage), "size", w.size() << " bytes may be written with " << model.size() << " of " << storage);
			size_t n = sim::W(w.size() + 1); for (size_t j = 0; j < n; ++j) w.data()[j] = Byte(pos + j);
			if (sim::WP(80)) { w.Push(n); sim::Quiet q; for (size_t j = 0; j < n; ++j) model.push_back(Byte(pos + j)); pos += n; }
			break;
		}
		case 2: case 3:
		{
			BithreadCircularBuffer::Reader r = b.Read(); SIM_CHECK(r.size() <= model.size() && (r.size() || model.empty()), "size", r.size() << " bytes may be read with " << model.size() << " of " << storage);
			for (size_t j = 0; j < r.size(); ++j) SIM_CHECK(r.data()[j] == model[j], "altered", "a wrong byte is read");
			size_t n = sim::W(r.size() + 1); if (sim::WP(80)) { r.Pop(n); sim::Quiet q; model.erase(model.begin(), model.begin() + n); }
			break;
		}
		case 4: if (sim::WP(20)) { b.Clear(); sim::Quiet q; model.clear(); } break;
		}
		SIM_CHECK(b.GetDataSize() == model.size() && b.GetFreeSize() == storage - model.size(), "size", "reported sizes " << b.GetDataSize() << " and " << b.GetFreeSize() << " with " << model.size() << " of " << storage);
	}
}

// A mediator: everything, once, then the end
SIM_SCENARIO(mediator, 1)
{
	SilenceLog();
	BufferedDataMediator m; Buf unused; size_t pos = 0; std::string got; bool eod = false; int eods = 0, phases = sim::WR(1, 4);
	for (int ph = 0; ph < phases; ++ph)
	{
		int n = sim::WR(0, 3);
		for (int i = 0; i < n; ++i) { std::vector<u8> d(sim::W(6)); for (u8& x : d) x = Byte(pos++); size_t r = m.Process(ConstByteData(d.data(), d.size()), DummyCancellationToken()); SIM_CHECK(r == d.size(), "count", "a mediator takes a part"); }
		if (ph == phases - 1) { m.EndOfData(DummyCancellationToken()); eod = true; }
		bool last = false;
		for (int tries = 0; !last && tries < 60; ++tries)
		{
			CancellationToken t; bool odd = tries < 30, threw = false; size_t before = got.size();
			if (odd && sim::WP(20)) t.Cancel();
			auto process = [&](ConstByteData d, const ICancellationToken&) -> size_t
			{
				int what = odd ? (int)sim::W(6) : 5;
				if (what == 0) throw std::runtime_error("consumer");
				if (what == 1) t.Cancel();
				if (what == 2) return 0;
				size_t k = what == 3 && d.size() ? sim::WR(1, d.size()) : d.size(); sim::Quiet q; got.append((const char*)d.data(), k); return k;
			};
			auto end = [&](const ICancellationToken&) { SIM_CHECK(eod, "order", "the end comes too early"); SIM_CHECK(got.size() == pos, "order", "the end comes before " << (pos - got.size()) << " bytes"); if (odd && sim::WP(30)) throw std::runtime_error("consumer"); ++eods; };
			try { m.ReadToFunction(process, end, t); } catch (const std::runtime_error& ex) { SIM_CHECK(std::string(ex.what()) == "consumer", "unexpected", "a mediator throws"); threw = true; }
			SIM_CHECK(got.size() >= before, "count", "impossible");
			if (!threw && t) SIM_CHECK(got.size() == pos, "lost", "a mediator passes " << got.size() << " of " << pos << " bytes");
			last = got.size() == pos && !threw && (!eod || eods);
			if (sim::WP(30)) break;
		}
		if (ph == phases - 1 && !last) { auto process = [&](ConstByteData d, const ICancellationToken&) -> size_t { sim::Quiet q; got.append((const char*)d.data(), d.size()); return d.size(); }; auto end = [&](const ICancellationToken&) { ++eods; }; m.ReadToFunction(process, end, DummyCancellationToken()); }
	}
	sim::Quiet q;
	std::string want; for (size_t i = 0; i < pos; ++i) want.push_back((char)Byte(i));
	SIM_CHECK(got == want, "altered", "of " << pos << " bytes a mediator passes " << got.size() << (want.compare(0, got.size(), got) ? ", others than given" : ""));
	SIM_CHECK(eods == 1, "count", "the end comes " << eods << " times");
}

// One step of the other side is enough to wake the blocked one
SIM_SCENARIO_F(wakeups, 1, sim::NoEintr)
{
	SilenceLog();
	size_t unit = sim::WR(1, 4), storage = unit * sim::WR(2, 6); bool whole = sim::WP(60); Buf buf; Buf* b = &buf;
	if (whole) buf.whole = make_shared_ptr<DataBuffer>(false, storage, DataBuffer::Parameters(unit));
	else { buf.shared = make_shared_ptr<SharedCircularBuffer>(storage); buf.in.reset(new BufferedDataConsumer(buf.shared, false, unit)); buf.out.reset(new BufferedDataSource(buf.shared, unit)); }
	std::vector<u8> data(storage); for (size_t i = 0; i < storage; ++i) data[i] = Byte(i);
	auto put = [&](size_t n) { size_t d = 0; while (d < n) d += buf.In().Process(ConstByteData(data.data() + d, n - d), DummyCancellationToken()); };
	auto take = [&](size_t n) { bool took = false, *p = &took; while (!took) buf.Out().ReadToFunction(Fn<size_t (ConstByteData, const ICancellationToken&)>([=](ConstByteData d, const ICancellationToken&) -> size_t { *p = true; return std::min<size_t>(n, d.size()); }), Fn<void (const ICancellationToken&)>([](const ICancellationToken&) { }), DummyCancellationToken()); };
	// move the offsets
	size_t shift = unit * sim::W(storage / unit + 1); put(shift); for (size_t n = 0; n < shift; n += unit) take(unit);
	SIM_CHECK(buf.DataSize() == 0, "size", "an emptied buffer has " << buf.DataSize() << " bytes");
	Clients cs; int kind = sim::W(4); std::vector<size_t> taken; auto* pt = &taken; auto* pd = &data; int threads = whole && kind == 0 ? sim::WR(1, 3) : 1; int ended = 0, *pe = &ended;
	if (kind == 0)
	{
		put(storage);
		for (int t = 0; t < threads; ++t)
			Spawn(cs, "producer", [=] { size_t n = 0; while (!n) n = b->In().Process(ConstByteData(pd->data(), unit), DummyCancellationToken()); SIM_CHECK(n == unit, "count", "a packet is taken in parts"); });
		sim::sleepUs(sim::W(2000));
		for (int t = 0; t < threads; ++t) take(unit);
	}
	else
	{
		Spawn(cs, "consumer", [=]
		{
			while (pt->empty() && !*pe)
				try { b->Out().ReadToFunction(Fn<size_t (ConstByteData, const ICancellationToken&)>([=](ConstByteData d, const ICancellationToken&) -> size_t { sim::Quiet q; pt->push_back(d.size()); return d.size(); }), Fn<void (const ICancellationToken&)>([=](const ICancellationToken&) { ++*pe; }), DummyCancellationToken()); }
				catch (const std::exception&) { ++*pe; }
		});
		sim::sleepUs(sim::W(2000));
		if (kind == 1) SIM_CHECK(buf.In().Process(ConstByteData(data.data(), sim::WP(50) ? unit : storage), DummyCancellationToken()), "count", "an empty buffer takes nothing");
		else if (kind == 2) buf.In().EndOfData(DummyCancellationToken());
		else buf.SetException(std::runtime_error("the failure"));
	}
	SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 20000000, 1000), "stuck", "a blocked thread does not wake up though the other side did its part");
	JoinAll(cs);
	SIM_CHECK(kind < 2 ? !ended : ended == 1, "order", "an end comes when it was not set, or not at all");
}
