// C18: asynchronous byte stream
#include "common.h"
#include <stingraykit/io/AsyncByteStream.h>
#include <stingraykit/thread/TimedCancellationToken.h>

namespace
{
	struct DeviceFault : public std::exception { const char* what() const noexcept override { return "device fault"; } };
	enum OnCancel { Ignores, StopsWriting, Throws };

	// What was accepted for every position, and what of it has reached the device
	struct History
	{
		std::map<u64, std::vector<u8> > values; std::map<u64, size_t> reached;	// reached: index + 1 of the value present
		std::map<u64, size_t> accepted;
		bool faulted = false, destroying = false, lossy = false;
		std::vector<u8> initial;
	};

	struct Device : public virtual ISyncableByteStream
	{
		History* h; std::vector<u8> data; u64 pos = 0; int shortPct, zeroPct, faultPct, slowPct, syncFaultPct; OnCancel onCancel; bool syncable; int busy = 0, hold = 1; u64 syncs = 0;
		Device(History* h_) : h(h_), shortPct(0), zeroPct(0), faultPct(0), slowPct(0), syncFaultPct(0), onCancel(Ignores), syncable(true) { }
		struct Busy { Device* d; Busy(Device* d_) : d(d_) { sim::Quiet q; SIM_CHECK(d->busy++ == 0, "overlap", "the underlying stream is used by two threads at once"); } ~Busy() { sim::Quiet q; --d->busy; } };
		void Fault(const char* what) { sim::probe(what); { sim::Quiet q; h->faulted = true; } throw DeviceFault(); }
		u64 Read(ByteData, const ICancellationToken&) override { SIM_CHECK(false, "unexpected", "the underlying stream is read"); return 0; }
		u64 Write(ConstByteData d, const ICancellationToken& token) override
		{
			Busy b(this);
			if (sim::WP(slowPct)) { for (int i = 0; i < 4; ++i) { sim::sleepUs(sim::W(400 * hold)); if (onCancel != Ignores && !token) break; } }
			bool fault = sim::WP(faultPct); size_t n = d.size();
			if (sim::WP(shortPct) || fault) n = sim::W(n + 1);
			if (sim::WP(zeroPct)) n = 0;
			if (!token && onCancel == StopsWriting) { sim::Quiet q; h->lossy = true; n = 0; }
			if (!token && onCancel == Throws) { { sim::Quiet q; h->lossy = true; } throw OperationCancelledException(); }
			if (n < d.size()) sim::probe("a short write");
			std::vector<u8> copy(d.begin(), d.begin() + n);
			sim::Quiet q;
			for (size_t i = 0; i < n; ++i)
			{
				u64 at = pos + i;
				auto it = h->values.find(at);
				SIM_CHECK(it != h->values.end(), "out-of-place", "byte " << at << " is written though nothing was written there");
				size_t& r = h->reached[at]; size_t k = r ? r - 1 : 0;
				while (k < it->second.size() && it->second[k] != copy[i]) ++k;
				SIM_CHECK(k < it->second.size(), "out-of-place", "the value written at " << at << " is not what was written there, or is older than what is there already");
				r = k + 1;
				if (data.size() <= at) data.resize(at + 1);
				data[at] = copy[i];
			}
			pos += n;
			if (fault) { q.~Quiet(); new (&q) sim::Quiet(); h->faulted = true; throw DeviceFault(); }
			return n;
		}
		void Seek(s64 o, SeekMode mode) override
		{
			Busy b(this);
			if (sim::WP(faultPct / 2)) Fault("a seek fails");
			sim::Quiet q; pos = mode == SeekMode::Begin ? o : mode == SeekMode::Current ? pos + o : data.size() + o;
		}
		u64 Tell() const override { return pos; }
		void Sync() override { Busy b(this); if (sim::WP(slowPct)) sim::sleepUs(sim::W(500)); if (sim::WP(syncFaultPct)) Fault("a device sync fails"); sim::Quiet q; ++syncs; }
	};
	struct PlainDevice : public virtual IByteStream
	{
		std::shared_ptr<Device> d;
		u64 Read(ByteData b, const ICancellationToken& t) override { return d->Read(b, t); }
		u64 Write(ConstByteData b, const ICancellationToken& t) override { return d->Write(b, t); }
		void Seek(s64 o, SeekMode m) override { d->Seek(o, m); }
		u64 Tell() const override { return d->Tell(); }
	};
	struct SyncDevice : public virtual ISyncableByteStream
	{
		std::shared_ptr<Device> d;
		u64 Read(ByteData b, const ICancellationToken& t) override { return d->Read(b, t); }
		u64 Write(ConstByteData b, const ICancellationToken& t) override { return d->Write(b, t); }
		void Seek(s64 o, SeekMode m) override { d->Seek(o, m); }
		u64 Tell() const override { return d->Tell(); }
		void Sync() override { d->Sync(); }
	};

	void CheckAll(History* h, const Device& d, const std::vector<u8>& model, const char* when)
	{
		sim::Quiet q;
		SIM_CHECK(d.data.size() == model.size(), "lost", when << " the underlying stream has " << d.data.size() << " bytes, not " << model.size());
		for (size_t i = 0; i < model.size(); ++i) SIM_CHECK(d.data[i] == model[i], "lost", when << " byte " << i << " of the underlying stream of " << model.size() << " bytes is not what was written last");
	}

	AsyncByteStream::Config MakeConfig(bool nonBlocking)
	{
		size_t page = sim::WR(1, 8), merge = sim::WR(1, 3), subs = sim::WR(1, 3);
		AsyncByteStream::Config c; c.PageSize(page).MergeablePagesHint(merge).SubStreamsHint(subs).BufferSize(2 * subs * page * merge + sim::W(40));
		if (nonBlocking) c.EnableNonBlockingSync();
		return c;
	}
}

SIM_SCENARIO(stream, 6)
{
	SilenceLog();
	History hist; History* h = &hist;
	std::shared_ptr<Device> dev(new Device(h)); Device* d = dev.get();
	size_t initial = sim::WP(50) ? 0 : sim::WR(1, 20); for (size_t i = 0; i < initial; ++i) d->data.push_back(i * 7);
	d->pos = initial ? sim::W(initial + 1) : 0;
	bool faults = sim::WP(25), allocs = sim::WP(25), syncable = sim::WP(60), nonBlocking = sim::WP(20), reconfigures = sim::WP(30), farSeeks = sim::WP(20); int onCancel = sim::WP(60) ? 0 : sim::WR(1, 2);
	d->shortPct = sim::WP(50) ? 40 : 0; d->zeroPct = sim::WP(30) ? 20 : 0; d->slowPct = sim::WP(40) ? 30 : 0; d->onCancel = (OnCancel)onCancel; d->syncable = syncable;
	if (faults) { d->faultPct = sim::WR(1, 10); if (sim::WP(50)) d->syncFaultPct = 30; }
	std::vector<u8> model = d->data; u64 pos = d->pos; bool broken = false;
	IByteStreamPtr under; if (syncable) { auto p = make_shared_ptr<SyncDevice>(); p->d = dev; under = p; } else { auto p = make_shared_ptr<PlainDevice>(); p->d = dev; under = p; }
	std::vector<u64> marksV; std::vector<u64>* marks = &marksV; bool localSeeks = sim::WP(60), holds = sim::WP(40);
	if (holds) { d->slowPct = 60; d->hold = 4; }
	Clients cs; bool finished = false, madeIt = false; bool* fin = &finished;
	std::vector<u8>* mod = &model; u64* ppos = &pos; bool* br = &broken; bool* made = &madeIt; (void)fin;
	Spawn(cs, "user", [=]
	{
		std::unique_ptr<AsyncByteStream> s;
		try { s.reset(new AsyncByteStream("test", under, MakeConfig(nonBlocking))); }
		catch (const DeviceFault&) { sim::probe("construction fails"); return; }
		{ sim::Quiet q; *made = true; }
		auto write = [&](size_t size, bool whole)
		{
					size_t done = 0;
					std::vector<u8> all(size); for (u8& b : all) b = sim::W(256);
					int tries = 0, refused = 0; bool first = true; uint64_t began = sim::nowUs();
					while (first || (whole && done < size))
					{
						first = false; size_t k = size - done; std::vector<u8> part(all.begin() + done, all.end());
						u64 at; { sim::Quiet q; at = *ppos; for (size_t j = 0; j < k; ++j) { auto& v = h->values[at + j]; v.resize(h->accepted[at + j]); v.push_back(part[j]); } }
						u64 w = 0;
						auto truncate = [&](u64 w) { sim::Quiet q; for (size_t j = 0; j < k; ++j) { if (j < w) { ++h->accepted[at + j]; continue; } SIM_CHECK(h->reached[at + j] <= h->accepted[at + j], "count", "byte " << at + j << " reached the underlying stream though it was not accepted"); auto& v = h->values[at + j]; v.resize(h->accepted[at + j]); if (v.empty()) h->values.erase(at + j); } };
						try
						{
							if (allocs && tries < 2 && sim::WP(40)) { sim::AllocFaults a(150); w = s->Write(ConstByteData(part.data(), k), DummyCancellationToken()); }
							else w = s->Write(ConstByteData(part.data(), k), DummyCancellationToken());
						}
						catch (const std::bad_alloc&) { sim::probe("a write fails"); truncate(0); SIM_CHECK(s->Tell() == at, "position", "a failed write moves the position"); ++tries; continue; }
						catch (...) { truncate(0); throw; }
						for (u8& b : part) b = 0xee;
						truncate(w);
						SIM_CHECK(w <= k, "count", "a write of " << k << " bytes returns " << w);
						if (w < k) sim::probe(w ? "a write is accepted in part" : "a full buffer refuses a write");
						{ sim::Quiet q; if (w && mod->size() < at + w) mod->resize(at + w); for (size_t j = 0; j < w; ++j) (*mod)[at + j] = all[done + j]; *ppos = at + w; }
						{ sim::Quiet q; if (w) marks->push_back(at + w); }
						done += w;
						if (!w && k) { sim::sleepUs(200 + sim::W(2000)); ++refused; SIM_CHECK(refused < 1000 || sim::nowUs() - began < 60000000, "stuck", "a full buffer does not get room"); }
					}
		};
		auto seek = [&](u64 to) { s->Seek(to); sim::Quiet q; *ppos = to; };
		int n = sim::WR(1, 25);
		for (int i = 0; i < n && !*br; ++i)
		{
			int x = sim::W(100); bool faultedBefore; { sim::Quiet q; faultedBefore = h->faulted; }
			try
			{
				if (x < 50) write(sim::WP(8) ? 0 : sim::WP(80) ? sim::WR(1, 10) : sim::WR(1, 60), sim::WP(70));
				else if (x < 56 && localSeeks)
				{
					// a write, one further on, and one which continues the first and overlaps the second
					u64 end; { sim::Quiet q; end = *ppos; } size_t gap = sim::WR(1, 8); size_t size; { sim::Quiet q; size = mod->size(); }
					if (!farSeeks && end + gap > size) continue;
					seek(end + gap); write(sim::WR(1, 6), true); if (sim::WP(20)) sim::sleepUs(sim::W(400)); seek(end); write(sim::WR(1, gap + 6), true);
				}
				else if (x < 70)
				{
					SeekMode mode = sim::WP(50) ? SeekMode::Begin : sim::WP(50) ? SeekMode::Current : SeekMode::End; s64 to, off; size_t size; { sim::Quiet q; size = mod->size(); }
					to = farSeeks && sim::WP(20) ? size + sim::W(20) : sim::W(size + 1);
					bool local = false; { sim::Quiet q; if (!marks->empty() && localSeeks) { u64 base = (*marks)[marks->size() - 1 - sim::W(std::min<size_t>(marks->size(), 6))]; to = base + (sim::WP(50) ? 0 : sim::W(8)); if (!farSeeks) to = std::min<s64>(to, size); local = true; } }
					off = mode == SeekMode::Begin ? to : mode == SeekMode::Current ? to - (s64)*ppos : to - (s64)size;
					if (local) sim::probe("sought near recent data");
					s->Seek(off, mode); { sim::Quiet q; *ppos = to; }
					if (sim::WP(10)) { bool thrown = false; try { s->Seek(-(s64)to - 1, SeekMode::Current); } catch (const IndexOutOfRangeException&) { thrown = true; } SIM_CHECK(thrown, "position", "a negative position is accepted"); }
				}
				else if (x < 85)
				{
					u64 before; { sim::Quiet q; before = d->syncs; }
					s->Sync();
					if (!nonBlocking)
					{
						SIM_CHECK(!faultedBefore, "hidden", "a sync succeeds though a write of earlier data failed");
						CheckAll(h, *d, *mod, "after a sync");
						sim::Quiet q; SIM_CHECK(!syncable || d->syncs > before, "lost", "the underlying stream is not synced");
						sim::probe("synced");
					}
				}
				else if (x < 92 && reconfigures)
				{
					AsyncByteStream::Config c = MakeConfig(nonBlocking);
					try { if (allocs && sim::WP(50)) { sim::AllocFaults a(300); s->Reconfigure(c); } else s->Reconfigure(c); sim::probe("reconfigured"); }
					catch (const std::bad_alloc&) { sim::probe("reconfiguring fails"); }
				}
				else if (sim::WP(50)) sim::sleepUs(sim::W(3000));
				{ u64 p; { sim::Quiet q; p = *ppos; } SIM_CHECK(s->Tell() == p, "position", "the position is " << s->Tell() << ", not " << p); }
			}
			catch (const std::exception& ex)
			{
				sim::Quiet q; SIM_CHECK(h->faulted, "unexpected", "a call fails though no write failed: " << ex.what());
				*br = true; sim::probe("a fault is reported");
			}
		}
		bool faulted; { sim::Quiet q; faulted = h->faulted; }
		if (faulted && sim::WP(50) && !nonBlocking)
		{
			bool thrown = false; try { s->Sync(); } catch (const std::exception&) { thrown = true; }
			SIM_CHECK(thrown, "hidden", "a sync succeeds though a write failed");
			bool again = false; try { u8 b = 1; s->Write(ConstByteData(&b, 1), DummyCancellationToken()); } catch (const std::exception&) { again = true; }
			SIM_CHECK(again, "hidden", "a write succeeds after a failure was reported");
		}
		{ sim::Quiet q; h->destroying = true; }
		s.reset();
		sim::Quiet q;
		*fin = true;
	});
	SIM_CHECK(sim::waitFor([&] { return AllDone(cs); }, 300000000, 2000), "stuck", finished ? "a thread does not end" : hist.destroying ? "destruction does not return" : "a call does not return");
	JoinAll(cs);
	if (!madeIt || hist.faulted || hist.lossy) return;
	CheckAll(h, *d, model, "after the destruction");
}
