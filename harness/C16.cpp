// C16: packet buffer
#include "common.h"
#include <stingraykit/io/PacketBuffer.h>
#include <stingraykit/thread/TimedCancellationToken.h>

namespace stingray { }
namespace
{
	u8 Byte(int id, size_t i) { u32 h = id * 2654435761u + (u32)i * 40503u + 12345u; h ^= h >> 13; h *= 0x85ebca6bu; h ^= h >> 16; return (u8)h; }

	// Metadata which owns memory, so that a torn or stale copy shows
	struct Meta
	{
		std::vector<int> v;
		Meta(int id = -1, int size = -1) { v.push_back(id); v.push_back(size); v.push_back(id * 31 + size); }
		int Id() const { SIM_CHECK(v.size() == 3 && v[2] == v[0] * 31 + v[1], "metadata", "the metadata of a packet is damaged"); return v[0]; }
	};
	typedef PacketBuffer<Meta> Buffer;

	struct Sent { int id, writer, size; uint64_t begin, end; bool accepted; uint64_t acceptedBegin; };
	struct Clr { uint64_t begin, end; };
	struct Got { int id; uint64_t from, at; };	// from: begin of the Read call, at: end of it

	struct State
	{
		std::vector<Sent> sent; std::vector<Clr> clears; std::vector<Got> got;
		bool inRead = false; uint64_t readEnd = 0;
		int offered = -1; uint64_t offeredAt = 0;		// the packet which was refused last
		bool eodCalled = false, eodTold = false;
		CancellationToken* current[4]; uint64_t cancelledAt[4];
		State() { for (int i = 0; i < 4; ++i) { current[i] = nullptr; cancelledAt[i] = 0; } }
	};

	template < typename Op > void WithToken(State* s, Mutex* m, int slot, bool may, const Op& op)
	{
		int kind = may ? (int)sim::W(4) : 0;
		if (kind <= 1) return op(DummyCancellationToken());
		if (kind == 2) { TimedCancellationToken t(Us(sim::W(4) * 400)); return op(t); }
		CancellationToken t; { MutexLock l(*m); sim::Quiet q; s->current[slot] = &t; }
		struct Unset { State* s; Mutex* m; int slot; ~Unset() { MutexLock l(*m); sim::Quiet q; s->current[slot] = nullptr; } } u{ s, m, slot };
		op(t);
	}

	struct Refusal : public std::exception { const char* what() const noexcept override { return "refusal"; } };

	struct Consumer : public virtual IPacketConsumer<Meta>
	{
		State* s; int refuse, fail, slow; bool taken = false, ended = false; int id = -1;
		Consumer(State* s_, int r, int f, int sl) : s(s_), refuse(r), fail(f), slow(sl) { }
		bool Process(const Packet<Meta>& p, const ICancellationToken&) override
		{
			id = p.GetMetadata().Id();
			int size; { sim::Quiet q; SIM_CHECK(id >= 0 && id < (int)s->sent.size(), "metadata", "a packet with unknown metadata"); size = s->sent[id].size; }
			SIM_CHECK(size == p.GetMetadata().v[1], "metadata", "the metadata does not belong to the packet");
			Check(p, size);
			if (sim::WP(slow)) { sim::sleepUs(sim::W(600)); Check(p, size); }
			{ sim::Quiet q; SIM_CHECK(!ended && !s->eodTold, "order", "packet " << id << " after the end of data"); }
			int x = sim::W(100);
			if (x < refuse) { sim::probe("a packet is refused"); return false; }
			if (x < refuse + fail) { sim::probe("a consumer throws"); throw Refusal(); }
			taken = true;
			return true;
		}
		void EndOfData() override { ended = true; }
		void Check(const Packet<Meta>& p, int size)
		{
			ConstByteData d = p.GetData();
			SIM_CHECK((int)d.size() == size, "altered", "packet " << id << " of " << size << " bytes comes with " << d.size());
			for (size_t i = 0; i < d.size(); ++i) SIM_CHECK(d[i] == Byte(id, i), "altered", "byte " << i << " of packet " << id << " is altered");
		}
	};

	// One Read call; returns false at the end of data
	bool ReadOnce(State* s, Buffer* b, const ICancellationToken& token, int refuse, int fail, int slow)
	{
		Consumer c(s, refuse, fail, slow);
		uint64_t from; { sim::Quiet q; from = sim::seq(); s->inRead = true; }
		try { b->Read(c, token); } catch (const Refusal&) { }
		sim::Quiet q; s->inRead = false; s->readEnd = sim::seq();
		if (c.ended) { SIM_CHECK(s->eodCalled, "order", "end of data which nobody signalled"); s->eodTold = true; return false; }
		if (c.id < 0) return true;
		bool cleared = false; for (const Clr& k : s->clears) if (k.end == 0 || k.end > s->offeredAt) cleared = true;
		SIM_CHECK(s->offered < 0 || s->offered == c.id || cleared, "lost", "packet " << s->offered << " was refused but packet " << c.id << " comes next");
		if (c.taken) { s->offered = -1; s->got.push_back(Got{ c.id, from, sim::seq() }); }
		else { s->offered = c.id; s->offeredAt = from; }
		return true;
	}

	// Could any room be missing for the packet, given what may be in the buffer during [begin, now]?
	bool MustFit(const State* s, const Sent& p, size_t storage)
	{
		size_t out = 0, maxOut = 0, count = 0;
		for (const Sent& x : s->sent)
		{
			if (x.id == p.id || x.begin == 0) continue;
			bool gone = false;
			for (const Got& g : s->got) if (g.id == x.id && g.at < p.acceptedBegin) gone = true;
			if (!gone) { ++count; out += x.size; maxOut = std::max(maxOut, (size_t)x.size); }
		}
		size_t n = p.size;
		if (out >= storage) return false;
		return count == 0 || (2 * n - (n ? 1 : 0) <= storage - out && n + (maxOut ? maxOut - 1 : 0) <= storage - out);
	}

	void Verify(State* s, bool discard, size_t storage, bool everythingRead)
	{
		sim::Quiet q;
		std::map<int, const Got*> got; size_t n = 0; std::map<int, int> last; 
		for (const Got& g : s->got)
		{
			const Sent& p = s->sent[g.id];
			SIM_CHECK(got.insert(std::make_pair(g.id, &g)).second, "repeated", "packet " << g.id << " is delivered twice");
			SIM_CHECK(p.acceptedBegin, "unexpected", "packet " << g.id << " is delivered but was never passed");
			SIM_CHECK(p.accepted || !p.end, "unexpected", "packet " << g.id << " is delivered though its writer was told that it is not accepted");
			SIM_CHECK(!last.count(p.writer) || last[p.writer] < g.id, "order", "packet " << g.id << " after packet " << last[p.writer] << " of the same writer");
			last[p.writer] = g.id; ++n;
		}
		for (size_t i = 0; i < s->got.size(); ++i)
			for (size_t j = i + 1; j < s->got.size(); ++j)
			{
				const Sent &a = s->sent[s->got[i].id], &b = s->sent[s->got[j].id];
				SIM_CHECK(!(b.end && b.end < a.acceptedBegin), "order", "packet " << a.id << " is delivered before " << b.id << " which had been accepted before it was written");
			}
		for (const Sent& p : s->sent)
		{
			auto it = got.find(p.id);
			bool mayBeCleared = false;
			for (const Clr& c : s->clears)
			{
				if (c.end > p.acceptedBegin) mayBeCleared = true;
				if (it != got.end() && p.end && c.begin > p.end) SIM_CHECK(it->second->from < c.end, "stale", "packet " << p.id << " is delivered after it was cleared");
			}
			if (it != got.end() || !p.accepted || mayBeCleared || !everythingRead) continue;
			if (!discard) SIM_CHECK(false, "lost", "packet " << p.id << " of " << p.size << " bytes was accepted but not delivered");
			sim::probe("a packet is dropped");
			SIM_CHECK(!MustFit(s, p, storage), "lost", "packet " << p.id << " of " << p.size << " bytes is dropped though the buffer of " << storage << " bytes has room for it");
		}
	}
}

SIM_SCENARIO(packets, 6)
{
	SilenceLog();
	State st; State* s = &st; Mutex mutex; Mutex* m = &mutex;
	size_t storage = sim::WP(70) ? sim::WR(3, 12) : sim::WR(12, 40); bool discard = sim::WP(30);
	Buffer buffer(discard, storage); Buffer* b = &buffer;
	bool cancels = sim::WP(40), faults = sim::WP(25), refuses = sim::WP(40), clears = sim::WP(30), clearThread = sim::WP(50);
	int nw = sim::WP(60) ? 1 : 2, sizes = sim::W(3), slow = sim::WP(40) ? 30 : 0;
	Clients cs, reader, other;
	for (int w = 0; w < nw; ++w)
	{
		int n = sim::WR(1, nw == 1 ? 10 : 6);
		Spawn(cs, "writer", [=]
		{
			for (int i = 0; i < n; ++i)
			{
				size_t size = sizes == 0 ? sim::WR(0, storage) : sizes == 1 ? sim::WR(storage / 2, storage) : sim::WR(1, std::max<size_t>(storage / 3, 1));
				if (sim::WP(10)) size = storage;
				int id; { sim::Quiet q; id = s->sent.size(); s->sent.push_back(Sent{ id, w, (int)size, sim::seq(), 0, false, 0 }); }
				std::vector<u8> data(size + 1); for (size_t j = 0; j < size; ++j) data[j] = Byte(id, j);
				bool give = cancels && sim::WP(40), ok = false;
				for (int attempt = 0; !ok; ++attempt)
				{
					bool last = give && attempt == 2, thrown = false;
					{ sim::Quiet q; s->sent[id].acceptedBegin = sim::seq(); s->sent[id].end = 0; }
					try
					{
						WithToken(s, m, w, cancels, [&](const ICancellationToken& t)
						{
							Packet<Meta> p(ConstByteData(data.data(), size), Meta(id, size));
							if (faults && sim::WP(40)) { sim::AllocFaults a(200); ok = b->Process(p, t); }
							else ok = b->Process(p, t);
						});
					}
					catch (const std::bad_alloc&) { thrown = true; sim::probe("a write fails"); }
					{ sim::Quiet q; s->sent[id].accepted = ok; s->sent[id].end = sim::seq(); }
					if (last && !ok) { sim::probe("a packet is given up"); break; }
					if (thrown && give) break;
				}
				for (u8& x : data) x = 0xee;
				if (sim::WP(20)) sim::sleepUs(sim::W(500));
			}
		});
	}
	auto clear = [=]
	{
		Clr c; { sim::Quiet q; c.begin = sim::seq(); c.end = 0; }
		size_t at; { sim::Quiet q; at = s->clears.size(); s->clears.push_back(Clr{ c.begin, ~0ull }); }
		bool refused = false;
		try { b->Clear(); } catch (const InvalidOperationException&) { refused = true; }
		sim::Quiet q;
		if (refused)
		{
			SIM_CHECK(s->inRead || s->readEnd > c.begin, "unexpected", "clearing is refused though no packet is being read");
			sim::probe("clearing is refused during a read"); s->clears[at] = Clr{ 0, 0 + 1 };
		}
		else { sim::probe("cleared"); s->clears[at].end = sim::seq(); }
	};
	Spawn(reader, "reader", [=]
	{
		bool more = true;
		while (more)
		{
			if (clears && !clearThread && sim::WP(15)) { bool eod; { sim::Quiet q; eod = s->eodCalled; } if (!eod) clear(); }
			WithToken(s, m, 2, cancels, [&](const ICancellationToken& t) { more = ReadOnce(s, b, t, refuses ? 25 : 0, refuses ? 10 : 0, slow); });
			if (sim::WP(10)) sim::sleepUs(sim::W(800));
		}
	});
	if (clears && clearThread) Spawn(cs, "clearer", [=] { int n = sim::WR(1, 3); for (int i = 0; i < n; ++i) { sim::sleepUs(sim::W(1500)); clear(); } });
	if (cancels) Spawn(other, "canceller", [=]
	{
		int n = sim::WR(1, 8);
		for (int i = 0; i < n; ++i) { sim::sleepUs(sim::W(700)); MutexLock l(*m); CancellationToken* t; { sim::Quiet q; t = s->current[sim::W(3)]; } if (t) t->Cancel(); }
	});
	SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 60000000, 1000), "stuck", "a writer does not get its packet accepted though the consumer takes packets");
	JoinAll(cs);
	{ sim::Quiet q; st.eodCalled = true; }
	// the reader may clear once more just now: the mark of the end is repeated then
	for (int i = 0; i < 600; ++i) { b->EndOfData(); if (sim::waitFor([&] { return AllDone(reader); }, 100000, 1000)) break; }
	SIM_CHECK(AllDone(reader), "stuck", "the reader does not get the end of data");
	JoinAll(reader); JoinAll(other);
	for (Clr& c : st.clears) if (c.begin == 0) c = Clr{ 0, 0 };
	Verify(&st, discard, storage, true);
	SIM_CHECK(buffer.GetDataSize() + buffer.GetFreeSize() == storage && buffer.GetStorageSize() == storage, "size", "the sizes do not add up");
	// after clearing the buffer is as good as new
	buffer.Clear();
	{ sim::Quiet q; st.eodCalled = st.eodTold = false; st.offered = -1; }
	SIM_CHECK(buffer.GetDataSize() == 0, "stale", "a cleared buffer has data");
	int id; { sim::Quiet q; id = st.sent.size(); st.sent.push_back(Sent{ id, 0, (int)storage, sim::seq(), 0, false, sim::seq() }); }
	std::vector<u8> data(storage); for (size_t j = 0; j < storage; ++j) data[j] = Byte(id, j);
	SIM_CHECK(buffer.Process(Packet<Meta>(ConstByteData(data.data(), storage), Meta(id, storage)), DummyCancellationToken()), "stuck", "an empty buffer does not accept a packet which fits");
	{ sim::Quiet q; st.sent[id].accepted = true; st.sent[id].end = sim::seq(); }
	for (int i = 0; i < 1000; ++i) { size_t before; { sim::Quiet q; before = st.got.size(); } ReadOnce(s, b, TimedCancellationToken(Ms(100)), 0, 0, 0); sim::Quiet q; if (st.got.size() != before) break; }
	sim::Quiet q;
	SIM_CHECK(!st.got.empty() && st.got.back().id == id, "lost", "a packet written to a cleared buffer is not delivered");
}

// A full buffer: blocked writers and a blocked reader are released by room, data and cancellation
SIM_SCENARIO(blocked, 2)
{
	SilenceLog();
	State st; State* s = &st;
	size_t storage = sim::WR(2, 16); Buffer buffer(false, storage); Buffer* b = &buffer;
	Clients cs, ts;
	bool tooBig = false; std::vector<u8> big(storage + 1);
	try { buffer.Process(Packet<Meta>(ConstByteData(big.data(), big.size()), Meta(0, 0)), DummyCancellationToken()); } catch (const std::exception&) { tooBig = true; }
	SIM_CHECK(tooBig, "unexpected", "a packet bigger than the buffer is accepted");
	{
		CancellationToken stop; CancellationToken* t = &stop;
		Spawn(ts, "reader", [=] { for (;;) { Consumer c(s, 0, 0, 0); b->Read(c, *t); if (!*t) break; } });
		sim::sleepUs(sim::W(400)); stop.Cancel();
		SIM_CHECK(sim::waitFor([&] { return AllDone(ts); }, 5000000, 500), "stuck", "a cancelled read does not return"); JoinAll(ts);
	}
	{
		sim::Quiet q;
		for (int i = 0; i < 4; ++i) { st.sent.push_back(Sent{ i, i, (int)(i == 0 ? storage : sim::WR(1, storage)), sim::seq(), 0, false, 0 }); }
	}
	auto send = [=](int id, const ICancellationToken& t)
	{
		size_t size; { sim::Quiet q; size = s->sent[id].size; }
		std::vector<u8> data(size); for (size_t j = 0; j < size; ++j) data[j] = Byte(id, j);
		bool ok = false;
		while (!ok)
		{
			{ sim::Quiet q; s->sent[id].acceptedBegin = sim::seq(); s->sent[id].end = 0; }
			ok = b->Process(Packet<Meta>(ConstByteData(data.data(), size), Meta(id, size)), t);
			sim::Quiet q; s->sent[id].end = sim::seq();
			if (!ok && !t) break;
		}
		sim::Quiet q; s->sent[id].accepted = ok;
	};
	send(0, DummyCancellationToken());
	CancellationToken stop; CancellationToken* t = &stop;
	int order = sim::W(2);
	for (int i = 0; i < 2; ++i)
	{
		if (i == order) Spawn(cs, "writer", [=] { send(1, DummyCancellationToken()); });
		else Spawn(ts, "cancelled writer", [=] { if (sim::WP(50)) { TimedCancellationToken timed(Us(sim::W(1000))); send(2, timed); } else send(2, *t); });
		sim::sleepUs(sim::W(600));
	}
	stop.Cancel();
	SIM_CHECK(sim::waitFor([&] { return AllDone(ts); }, 5000000, 500), "stuck", "a cancelled write does not return while another writer waits");
	JoinAll(ts);
	{ sim::Quiet q; SIM_CHECK(!st.sent[2].accepted, "unexpected", "a full buffer accepts a packet"); SIM_CHECK(!cs[0]->Done(), "unexpected", "a full buffer accepts a packet"); }
	Spawn(ts, "reader", [=] { while (ReadOnce(s, b, DummyCancellationToken(), 20, 5, 20)) { } });
	SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 20000000, 1000), "stuck", "a write does not proceed though there is room"); JoinAll(cs);
	send(3, DummyCancellationToken());
	{ sim::Quiet q; st.eodCalled = true; }
	b->EndOfData();
	SIM_CHECK(sim::waitFor([&] { return AllDone(ts); }, 20000000, 1000), "stuck", "the reader does not get the end of data"); JoinAll(ts);
	Verify(&st, false, storage, true);
}

// A writer waits behind a consumer which keeps refusing: it proceeds as soon as there is room
SIM_SCENARIO(refused, 1)
{
	SilenceLog();
	State st; State* s = &st;
	size_t storage = sim::WR(4, 16); Buffer buffer(false, storage); Buffer* b = &buffer;
	auto send = [=](size_t size)
	{
		int id; { sim::Quiet q; id = s->sent.size(); s->sent.push_back(Sent{ id, 0, (int)size, sim::seq(), 0, false, 0 }); }
		std::vector<u8> data(size); for (size_t j = 0; j < size; ++j) data[j] = Byte(id, j);
		bool ok = false;
		while (!ok)
		{
			{ sim::Quiet q; s->sent[id].acceptedBegin = sim::seq(); s->sent[id].end = 0; }
			ok = b->Process(Packet<Meta>(ConstByteData(data.data(), size), Meta(id, size)), DummyCancellationToken());
			sim::Quiet q; s->sent[id].end = sim::seq(); s->sent[id].accepted = ok;
		}
	};
	auto take = [=] { Consumer c(s, 0, 0, 0); uint64_t from; { sim::Quiet q; from = sim::seq(); } b->Read(c, DummyCancellationToken()); sim::Quiet q; if (c.taken) s->got.push_back(Got{ c.id, from, sim::seq() }); };
	// |first|1|pad|, then |second..|1|pad| with the first one read: a third one fits only after the padding is gone
	size_t first = sim::WR(storage / 2, storage - 2), pad = storage - first - 1;
	if (pad + 1 > first) return;
	size_t second = sim::WR(pad + 1, first);
	size_t third = sim::WR(first + 1 - second + 1, storage - second);
	if (second + third > storage || third <= first + 1 - second) return;
	send(first); send(1); take(); send(second); take();
	Clients cs; Spawn(cs, "writer", [=] { send(third); });
	sim::sleepUs(sim::W(600));
	bool refusals = sim::WP(50);
	Clients rs; bool stop = false; bool* p = &stop;
	Spawn(rs, "reader", [=] { for (;;) { { sim::Quiet q; if (*p) break; } Consumer c(s, refusals ? 100 : 0, 0, 0); uint64_t from; { sim::Quiet q; from = sim::seq(); } b->Read(c, TimedCancellationToken(Ms(20))); sim::sleepUs(300); sim::Quiet q; if (c.taken) s->got.push_back(Got{ c.id, from, sim::seq() }); } });
	SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 20000000, 1000), "stuck", "a write of " << third << " bytes does not proceed though there is room (" << first << ", " << second << " of " << storage << ")");
	JoinAll(cs); { sim::Quiet q; stop = true; } JoinAll(rs);
	for (int i = 0; i < 6; ++i) { Consumer c(s, 0, 0, 0); uint64_t from; { sim::Quiet q; from = sim::seq(); } b->Read(c, TimedCancellationToken(Ms(20))); sim::Quiet q; if (c.taken) s->got.push_back(Got{ c.id, from, sim::seq() }); }
	Verify(&st, false, storage, true);
}
