// C19: stream adapters and data source adapters over short, failing and interrupted I/O
#include "common.h"
#include <stingraykit/io/BufferedDataMediator.h>
#include <stingraykit/io/BufferedStream.h>
#include <stingraykit/io/ByteArrayDataSource.h>
#include <stingraykit/io/ByteDataConsumer.h>
#include <stingraykit/io/ByteStreamDataSource.h>
#include <stingraykit/io/ByteStreamWithOffset.h>
#include <stingraykit/io/ByteStreamWithOffsetAndSize.h>
#include <stingraykit/io/ChunkedMemoryByteStream.h>
#include <stingraykit/io/DataAligner.h>
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/io/DataPacketer.h>
#include <stingraykit/io/DataSourceReader.h>
#include <stingraykit/io/DataUtils.h>
#include <stingraykit/io/IntermediateDataBuffer.h>
#include <stingraykit/io/MemoryByteStream.h>
#include <stingraykit/thread/TimedCancellationToken.h>

#include <stdarg.h>

namespace
{
	std::string Fmt(const char* f, ...) { char b[200]; va_list a; va_start(a, f); vsnprintf(b, sizeof(b), f, a); va_end(a); return b; }
	struct DeviceFault : public std::exception { const char* what() const noexcept override { return "device fault"; } };
	struct ConsumerFault : public std::exception { const char* what() const noexcept override { return "consumer fault"; } };

	// The underlying stream: transfers short, fails, honours a cancelled token or not
	struct Under : public virtual IByteStream
	{
		std::vector<u8> data; u64 pos = 0; int shortPct = 0, readFaultPct = 0, writeFaultPct = 0, seekFaultPct = 0, tellFaultPct = 0, zeroWritePct = 0; int onCancel = 0; bool torn = false, quiet = false; size_t maxSize = 400;
		CancellationToken* toCancel = 0; int cancelPct = 0;
		void Fault(int pct, const char* what) { if (!quiet && sim::WP(pct)) { sim::probe(what); throw DeviceFault(); } }
		void MaybeCancel() { if (!quiet && toCancel && sim::WP(cancelPct)) { sim::probe("cancelled during a transfer"); toCancel->Cancel(); } }
		bool Stopped(const ICancellationToken& token) { if (token || !onCancel) return false; if (onCancel == 2) throw OperationCancelledException(); return true; }
		u64 Read(ByteData d, const ICancellationToken& token) override
		{
			MaybeCancel();
			if (Stopped(token)) return 0;
			if (!quiet && sim::WP(readFaultPct)) { sim::probe("a read fails"); if (torn) pos += sim::W(std::min<u64>(d.size(), pos < data.size() ? data.size() - pos : 0) + 1); throw DeviceFault(); }
			size_t n = pos < data.size() ? std::min<size_t>(d.size(), data.size() - pos) : 0;
			if (n > 1 && !quiet && sim::WP(shortPct)) { n = sim::WR(1, n); sim::probe("a short read"); }
			for (size_t i = 0; i < n; ++i) d[i] = data[pos + i];
			sim::note("read %zu at %llu: %zu", d.size(), (unsigned long long)pos, n); pos += n; return n;
		}
		u64 Write(ConstByteData d, const ICancellationToken& token) override
		{
			MaybeCancel();
			if (Stopped(token)) return 0;
			bool fault = !quiet && sim::WP(writeFaultPct); size_t n = d.size();
			if (fault) { sim::probe("a write fails"); n = torn ? sim::W(n + 1) : 0; }
			else if (!quiet && n > 1 && sim::WP(shortPct)) { n = sim::WR(1, n); sim::probe("a short write"); }
			else if (!quiet && sim::WP(zeroWritePct)) n = 0;
			if (pos + n > maxSize) n = pos < maxSize ? maxSize - pos : 0;
			if (n && data.size() < pos + n) data.resize(pos + n);
			for (size_t i = 0; i < n; ++i) data[pos + i] = d[i];
			sim::note("write %zu at %llu: %zu%s", d.size(), (unsigned long long)pos, n, fault ? ", fails" : ""); pos += n;
			if (fault) throw DeviceFault();
			return n;
		}
		void Seek(s64 o, SeekMode mode) override
		{
			if (!torn) Fault(seekFaultPct, "a seek fails");
			s64 p = mode == SeekMode::Begin ? o : mode == SeekMode::Current ? (s64)pos + o : (s64)data.size() + o;
			if (p < 0) STINGRAYKIT_THROW(IndexOutOfRangeException(p, 0, 0));
			if (torn && !quiet && sim::WP(seekFaultPct)) { sim::probe("a seek fails half way"); pos = sim::WP(50) ? p : sim::W(data.size() + 1); throw DeviceFault(); }
			pos = p; sim::note("seek %llu", (unsigned long long)pos);
		}
		u64 Tell() const override { if (!quiet && sim::WP(tellFaultPct)) { sim::probe("telling the position fails"); throw DeviceFault(); } return pos; }
	};
	STINGRAYKIT_DECLARE_PTR(Under);

	u8 Hash(u64 i) { return (u8)((i * 2654435761u >> 7) ^ i); }
	void Configure(Under& u)
	{
		bool faults = sim::WP(60);
		u.shortPct = sim::WP(60) ? 50 : 0; u.onCancel = sim::W(3); u.torn = sim::WP(40);
		if (faults) { u.readFaultPct = sim::WP(50) ? 12 : 0; u.writeFaultPct = sim::WP(50) ? 15 : 0; u.seekFaultPct = sim::WP(40) ? 8 : 0; u.tellFaultPct = sim::WP(30) ? 15 : 0; u.zeroWritePct = sim::WP(20) ? 15 : 0; }
	}
}

// A stack of adapters over a faulty stream behaves as a view of its bytes
SIM_SCENARIO(stream, 8)
{
	SilenceLog();
	UnderPtr u = make_shared_ptr<Under>();
	size_t size = sim::WR(0, 120); bool text = sim::WP(25);
	for (size_t i = 0; i < size; ++i) u->data.push_back(text ? "ab\r\n\r\nxyz"[sim::W(9)] : sim::W(256));
	Configure(*u);
	bool quietCtor = true; u->quiet = quietCtor;
	IByteStreamPtr top = u; std::string shape; u64 base = 0; bool limited = false; u64 limit = 0; // the view: [base, limit)
	size_t layers = sim::WR(1, 3); bool hasOffset = false;
	for (size_t k = 0; k < layers; ++k)
		switch (sim::W(4))
		{
		case 0: case 1:
		{
			size_t align = sim::WP(50) ? 1 : sim::WR(2, 8), buf = align * sim::WR(1, 8);
			top = make_shared_ptr<BufferedStream>(top, buf, align); shape += Fmt("buffered(%zu,%zu) ", buf, align); break;
		}
		case 2:
		{
			u64 off = sim::W(20); if (limited && base + off > limit) break;
			top = make_shared_ptr<ByteStreamWithOffset>(top, off); base += off; hasOffset = true; shape += Fmt("offset(%llu) ", (unsigned long long)off); break;
		}
		default:
		{
			u64 off = sim::W(20), len = sim::WR(1, 60); if (limited && base + off + len > limit) break;
			top = make_shared_ptr<ByteStreamWithOffsetAndSize>(top, off, len); base += off; limited = true; limit = base + len; shape += Fmt("window(%llu,%llu) ", (unsigned long long)off, (unsigned long long)len); break;
		}
		}
	u->quiet = false; sim::note("size %zu, %s", size, shape.c_str());
	std::vector<u8> model = u->data; u64 pos = 0; bool everFailed = false, buffered = shape.find("buffered") != std::string::npos; // pos is relative to base
	size_t ops = sim::WR(5, 30);
	auto viewSize = [&]() -> u64 { u64 s = model.size() > base ? model.size() - base : 0; return limited ? std::min(s, limit - base) : s; };
	// after a failure the position is what Tell says; the position must be inside of what the failed operation could reach
	auto recover = [&](u64 lo, u64 hi, u64 alt, const char* what)
	{
		u->quiet = true; everFailed = true; u64 t = 0; bool known = true;
		try { t = top->Tell(); }
		catch (const std::exception&) { SIM_CHECK(hasOffset, "position", "the position cannot be read after " << what << " (" << shape << ")"); known = false; }
		if (!known) { sim::probe("a position unknown after a failure"); top->Seek(lo, SeekMode::Begin); t = top->Tell(); SIM_CHECK(t == lo, "position", "Seek(" << lo << ") after a failure gives position " << t); }
		else SIM_CHECK((t >= lo && t <= hi) || t == alt, "position", "after failing " << what << " the position is " << t << ", expected " << lo << ".." << hi << " or " << alt << " (" << shape << ")");
		pos = t; u->quiet = false;
	};
	auto adopt = [&](u64 at, const std::vector<u8>& bytes, const char* what) // a failed write has stored a beginning of its bytes or nothing
	{
		SIM_CHECK(u->data.size() <= std::max<u64>(model.size(), base + at + bytes.size()), "lost", what << " makes the stream too long");
		size_t old = model.size(); if (u->data.size() > old) model.resize(u->data.size());
		for (size_t i = 0; i < model.size(); ++i)
		{
			bool in = i >= base + at && i < base + at + bytes.size();
			u8 now = i < u->data.size() ? u->data[i] : 0; bool was = i >= old || model[i] == now;
			SIM_CHECK(i < u->data.size() && (was || (in && now == bytes[i - base - at])), "out-of-place", what << " changes byte " << i << " of the underlying stream from " << (i < old ? (int)model[i] : -1) << " to " << (int)now << ", written " << (int)(in ? bytes[i - base - at] : 0) << " at " << base + at << "+" << bytes.size() << ", size was " << old << " (" << shape << ")");
			model[i] = now;
		}
	};
	for (size_t k = 0; k < ops; ++k)
	{
		CancellationToken token; bool cancels = sim::WP(8); u->toCancel = cancels ? &token : 0; u->cancelPct = 40; if (cancels && sim::WP(20)) token.Cancel();
		int op = sim::W(10); size_t n = sim::WP(10) ? 0 : sim::WP(20) ? sim::WR(20, 80) : sim::WR(1, 20);
		if (text && op == 3) op = 10;
		sim::note("op %d n %zu at %llu", op, n, (unsigned long long)pos);
		if (op <= 3) // reads
		{
			std::vector<u8> b(n + 8, 0xcd); size_t r = 0; bool all = op == 0, checked = op == 1, failed = false;
			try
			{
				if (checked) { CheckedReadAll(*top, ByteData(b.data(), n), token); r = n; }
				else r = all ? ReadAll(*top, ByteData(b.data(), n), token) : top->Read(ByteData(b.data(), n), token);
			}
			catch (const InputOutputException&) { SIM_CHECK(checked && pos + n > viewSize(), "end", "a checked read of " << n << " bytes at " << pos << " of " << viewSize() << " fails"); failed = true; }
			catch (const OperationCancelledException&) { SIM_CHECK(token.IsCancelled(), "cancel", "a read is cancelled without cancellation"); failed = true; }
			catch (const DeviceFault&) { failed = true; }
			for (size_t i = n; i < b.size(); ++i) SIM_CHECK(b[i] == 0xcd, "overflow", "a read writes beyond its destination");
			if (failed) { recover(pos, std::max(pos, std::min(pos + n, viewSize())), pos, "a read"); continue; }
			u64 left = pos < viewSize() ? viewSize() - pos : 0;
			SIM_CHECK(r <= n && r <= left, "count", "a read of " << n << " bytes at " << pos << " of " << viewSize() << " returns " << r << " (" << shape << ")");
			for (size_t i = 0; i < r; ++i) SIM_CHECK(b[i] == model[base + pos + i], "wrong-bytes", "a read of " << n << " bytes at " << pos << " returns a wrong byte at " << pos + i << " (" << shape << ")");
			if (!token.IsCancelled()) SIM_CHECK(r != 0 || n == 0 || left == 0, "end", "a read at " << pos << " of " << viewSize() << " returns nothing (" << shape << ")");
			if (!token.IsCancelled() && all) SIM_CHECK(r == std::min<u64>(n, left), "end", "ReadAll of " << n << " at " << pos << " of " << viewSize() << " returns " << r << " (" << shape << ")");
			pos += r;
		}
		else if (op <= 6) // writes
		{
			if (n == 0 && op == 6) n = 1;
			std::vector<u8> b(n); for (u8& x : b) x = text ? "ab\r\n"[sim::W(4)] : sim::W(256);
			u64 at = pos; size_t w = 0; bool failed = false;
			try
			{
				if (op == 6) { CheckedWriteAll(*top, ConstByteData(b.data(), n), token); w = n; }
				else w = op == 5 ? WriteAll(*top, ConstByteData(b.data(), n), token) : top->Write(ConstByteData(b.data(), n), token);
			}
			catch (const InputOutputException&) { SIM_CHECK(op == 6, "unexpected", "a write reports incomplete data"); failed = true; }
			catch (const OperationCancelledException&) { SIM_CHECK(token.IsCancelled(), "cancel", "a write is cancelled without cancellation"); failed = true; }
			catch (const DeviceFault&) { failed = true; }
			catch (const std::exception& ex) { SIM_CHECK(limited && base + at + n >= limit, "unexpected", "a write of " << n << " bytes at " << at << " throws " << ex.what() << " (" << shape << ")"); failed = true; }
			if (failed) { sim::probe("a write ends by an exception"); adopt(at, b, "a failed write"); recover(at, at + n, at, "a write"); continue; }
			SIM_CHECK(w <= n && (!w || !limited || base + at + w <= limit), "count", "a write of " << n << " bytes at " << at << " returns " << w << " (" << shape << ")");
			if (w && model.size() < base + at + w) model.resize(base + at + w);
			for (size_t i = 0; i < w; ++i) model[base + at + i] = b[i];
			pos += w;
		}
		else if (op <= 9) // seeks
		{
			SeekMode mode = op == 7 ? SeekMode::Begin : op == 8 ? SeekMode::Current : SeekMode::End;
			u64 end = limited ? limit - base : (model.size() > base ? model.size() - base : 0); bool short_ = !limited && model.size() < base;
			s64 target = sim::WP(75) ? (s64)sim::W(viewSize() + 1) : (s64)sim::W(viewSize() + 30) - 5;
			s64 off = op == 7 ? target : op == 8 ? target - (s64)pos : target - (s64)end;
			if (short_ && op == 9) continue;
			bool failed = false, refused = false;
			try { top->Seek(off, mode); }
			catch (const DeviceFault&) { failed = true; }
			catch (const std::exception& ex) { refused = target < 0 && !everFailed; SIM_CHECK(target < 0 || (limited && base + target > limit) || (hasOffset && everFailed), "unexpected", "Seek to " << target << " of " << viewSize() << " throws " << ex.what() << " (" << shape << ")"); failed = true; sim::probe("a seek out of range"); }
			if (refused) { sim::probe("a seek refused"); u->quiet = true; u64 t = ~0ull; try { t = top->Tell(); } catch (const std::exception& ex) { sim::note("Tell: %s", ex.what()); } SIM_CHECK(t == pos, "position", "a refused seek to " << target << " from " << pos << " leaves the stream at " << (s64)t << " (" << shape << ")"); u->quiet = false; continue; }
			if (failed) { recover(pos, pos, target < 0 ? pos : target, "a seek"); continue; }
			SIM_CHECK(target >= 0 && (!limited || buffered || base + target <= limit), "range", "Seek to " << target << " succeeds though it is outside (" << shape << ")");
			pos = target;
		}
		else // a line
		{
			u64 p = pos; optional<std::string> expected;
			while (p < viewSize())
			{
				u8 c = model[base + p++]; if (!expected) expected = std::string();
				if (c == '\n') break;
				if (c == '\r') { if (p < viewSize() && model[base + p] == '\n') ++p; break; }
				*expected += (char)c;
			}
			optional<std::string> line; bool failed = false;
			try { line = ReadLine(*top, token); }
			catch (const OperationCancelledException&) { SIM_CHECK(token.IsCancelled(), "cancel", "reading a line is cancelled without cancellation"); failed = true; }
			catch (const DeviceFault&) { failed = true; }
			if (failed) { recover(pos, viewSize() > pos ? viewSize() : pos, pos, "reading a line"); continue; }
			SIM_CHECK(line.is_initialized() == expected.is_initialized() && (!line || *line == *expected), "wrong-bytes", "a wrong line at " << pos);
			pos = p;
		}
		u->quiet = true;
		u64 t = top->Tell(); SIM_CHECK(t == pos, "position", "the position is " << t << ", not " << pos << " (" << shape << ")");
		SIM_CHECK(u->data == model, "out-of-place", "the underlying stream does not hold what was written (" << shape << ")");
		u->quiet = false;
	}
	if (sim::WP(50))
	{
		u->toCancel = 0; CancellationToken token; bool again = true; int tries = 0;
		while (again && ++tries < 40)
		{
			again = false;
			try
			{
				if (sim::WP(50)) top->Seek(pos = 0, SeekMode::Begin);
				ConstByteArray all = ReadToEnd(*top, sim::WR(1, 20), token);
				u64 left = pos < viewSize() ? viewSize() - pos : 0;
				SIM_CHECK(all.size() == left, "end", "reading to the end from " << pos << " of " << viewSize() << " gives " << all.size() << " bytes (" << shape << ")");
				for (size_t i = 0; i < left; ++i) SIM_CHECK(all[i] == model[base + pos + i], "wrong-bytes", "a wrong byte at " << pos + i << " when reading to the end");
			}
			catch (const DeviceFault&) { again = true; u->quiet = true; try { pos = top->Tell(); } catch (const std::exception&) { top->Seek(pos = 0, SeekMode::Begin); } u->quiet = false; }
		}
	}
}

// Memory streams: the same as a vector of bytes
SIM_SCENARIO(memory, 2)
{
	bool chunked = sim::WP(60); size_t size = sim::WR(1, 60); std::vector<u8> model; for (size_t i = 0; i < size; ++i) model.push_back(Hash(i));
	IByteStreamPtr s;
	typedef std::vector<ByteArray> Chunks; shared_ptr<Chunks> chunks;
	if (chunked)
	{
		chunks = make_shared_ptr<Chunks>();
		for (size_t at = 0; at < size; ) { size_t n = sim::WR(1, std::min<size_t>(size - at, 12)); chunks->push_back(ByteArray(model.data() + at, n)); at += n; }
		s = make_shared_ptr<ChunkedMemoryByteStream<ByteArray> >(chunks);
	}
	else s = make_shared_ptr<ByteArrayByteStream>(ByteArray(model.data(), model.size()));
	u64 pos = 0;
	for (size_t k = 0; k < 20; ++k)
	{
		size_t n = sim::WR(1, 25);
		switch (sim::W(4))
		{
		case 0: case 1:
		{
			if (chunked && pos == model.size()) break;
			std::vector<u8> b(n); size_t r = s->Read(ByteData(b.data(), n), DummyCancellationToken());
			SIM_CHECK(r == std::min<u64>(n, model.size() - pos), "count", "a read of " << n << " bytes at " << pos << " of " << model.size() << " returns " << r);
			for (size_t i = 0; i < r; ++i) SIM_CHECK(b[i] == model[pos + i], "wrong-bytes", "a wrong byte at " << pos + i);
			pos += r; break;
		}
		case 2:
		{
			std::vector<u8> b(n); for (u8& x : b) x = sim::W(256);
			size_t w = s->Write(ConstByteData(b.data(), n), DummyCancellationToken());
			SIM_CHECK(w == n, "count", "a write of " << n << " bytes returns " << w);
			if (model.size() < pos + n) model.resize(pos + n);
			for (size_t i = 0; i < n; ++i) model[pos + i] = b[i];
			pos += n; break;
		}
		default:
		{
			u64 target = sim::W(model.size() + 1); int m = sim::W(3);
			s->Seek(m == 0 ? (s64)target : m == 1 ? (s64)target - (s64)pos : (s64)target - (s64)model.size(), m == 0 ? SeekMode::Begin : m == 1 ? SeekMode::Current : SeekMode::End);
			pos = target; break;
		}
		}
		SIM_CHECK(s->Tell() == pos, "position", "the position is " << s->Tell() << ", not " << pos);
	}
	s->Seek(0, SeekMode::Begin); std::vector<u8> all(model.size() + 10); size_t r = s->Read(ByteData(all.data(), all.size()), DummyCancellationToken());
	SIM_CHECK(r == model.size() && std::equal(model.begin(), model.end(), all.begin()), "wrong-bytes", "the stream does not hold what was written");
}

namespace
{
	// A source of known bytes: offers random pieces, re-offers what was not taken, fails between
	struct StubSource : public virtual IDataSource
	{
		u64 size, pos = 0; int faultPct = 0; bool several = false, eodSeen = false; size_t unit = 1, minPiece = 1; bool quiet = false; bool finite = true;
		StubSource(u64 s) : size(s) { }
		void Read(IDataConsumer& c, const ICancellationToken& token) override
		{
			size_t pieces = several ? sim::WR(1, 3) : 1;
			for (size_t k = 0; k < pieces && (k == 0 || token); ++k)
			{
				if (!quiet && sim::WP(faultPct)) { sim::probe("a source fails"); throw DeviceFault(); }
				if (pos >= size) { if (k == 0) { eodSeen = true; c.EndOfData(token); } return; }
				size_t n = sim::WR(minPiece, std::max<size_t>(minPiece, 24)); n -= n % unit; if (n < minPiece) n = minPiece; n = std::min<u64>(n, size - pos);
				std::vector<u8> b(n); for (size_t i = 0; i < n; ++i) b[i] = Hash(pos + i);
				size_t p = c.Process(ConstByteData(b.data(), n), token);
				SIM_CHECK(p <= n, "count", "a piece of " << n << " bytes is reported as processed up to " << p);
				for (u8& x : b) x = 0xee;
				pos += p;
				if (p == 0) return;
			}
		}
	};
	STINGRAYKIT_DECLARE_PTR(StubSource);

	// Takes all, a part or nothing; fails; cancels
	struct StubConsumer : public virtual IDataConsumer
	{
		u64 begin, end, got = 0; bool eod = false; int takePartPct = 0, refusePct = 0, faultPct = 0, cancelPct = 0; size_t unit = 1, needUnit = 0; CancellationToken* token = 0; bool checkUnit = false;
		StubConsumer(u64 b, u64 e) : begin(b), end(e) { }
		size_t Process(ConstByteData d, const ICancellationToken& t) override
		{
			SIM_CHECK(!eod, "end", "data after the end of data");
			if (token && sim::WP(cancelPct)) { sim::probe("cancelled by the consumer"); token->Cancel(); }
			if (checkUnit) SIM_CHECK(d.size() % needUnit == 0 && d.size() != 0, "unit", "a piece of " << d.size() << " bytes is not aligned to " << needUnit);
			if (sim::WP(faultPct)) { sim::probe("a consumer fails"); throw ConsumerFault(); }
			size_t n = d.size(); if (sim::WP(refusePct)) n = 0; else if (sim::WP(takePartPct)) { n = sim::W(n + 1); n -= n % unit; sim::probe("a part taken"); }
			for (size_t i = 0; i < d.size(); ++i)
			{
				SIM_CHECK(begin + got + i < end, "too-much", "byte " << got + i << " is beyond the expected end " << end - begin);
				SIM_CHECK(d[i] == Hash(begin + got + i), "wrong-bytes", "byte " << got + i << " of the data is wrong (skipped, repeated or altered)");
			}
			got += n; return n;
		}
		void EndOfData(const ICancellationToken&) override { SIM_CHECK(!eod, "end", "end of data twice"); eod = true; }
	};

	struct StubPacketSource : public virtual IPacketSource<EmptyType>
	{
		u64 size, pos = 0; int faultPct = 0; bool eodSeen = false; size_t next = 0; size_t maxPacket = 12;
		StubPacketSource(u64 s) : size(s) { }
		void Read(IPacketConsumer<EmptyType>& c, const ICancellationToken& token) override
		{
			if (sim::WP(faultPct)) { sim::probe("a source fails"); throw DeviceFault(); }
			if (pos >= size) { eodSeen = true; c.EndOfData(); return; }
			if (!next) next = std::min<u64>(sim::WR(1, maxPacket), size - pos);
			std::vector<u8> b(next); for (size_t i = 0; i < next; ++i) b[i] = Hash(pos + i);
			bool p = c.Process(Packet<EmptyType>(ConstByteData(b.data(), next)), token);
			for (u8& x : b) x = 0xee;
			if (p) { pos += next; next = 0; }
		}
	};
	STINGRAYKIT_DECLARE_PTR(StubPacketSource);
}

// A chain of source adapters delivers exactly the right part of the bytes of the source
SIM_SCENARIO(source, 8)
{
	SilenceLog();
	u64 size = sim::WR(0, 150); bool faults = sim::WP(40); int sourceFaults = faults && sim::WP(60) ? 15 : 0;
	std::string shape; u64 begin = 0, end = size; bool partialTakes = sim::WP(60), mustEnd = true; size_t unit = 1;
	UnderPtr u; StubSourcePtr stub; IDataSourcePtr src; u64 heldBack = 0;
	shared_ptr<ByteStreamDataSource> bs;
	switch (sim::W(5))
	{
	case 0: case 1: stub = make_shared_ptr<StubSource>(size); stub->faultPct = sourceFaults; stub->several = sim::WP(30); src = stub; shape = "stub "; break;
	case 2: { std::vector<u8> v; for (u64 i = 0; i < size; ++i) v.push_back(Hash(i)); src = make_shared_ptr<ByteArrayDataSource>(ConstByteArray(v.data(), v.size())); shape = "array "; break; }
	case 3:
	{
		u = make_shared_ptr<Under>(); for (u64 i = 0; i < size; ++i) u->data.push_back(Hash(i));
		Configure(*u); u->torn = false; if (!sourceFaults) u->readFaultPct = u->seekFaultPct = 0;
		IByteStreamPtr s = u; if (!u->readFaultPct && !u->seekFaultPct && u->onCancel != 2 && sim::WP(40)) s = make_shared_ptr<BufferedStream>(s, sim::WR(1, 20));
		bs = make_shared_ptr<ByteStreamDataSource>(s, sim::WR(1, 30)); src = bs; shape = "bytestream "; break;
	}
	default:
	{
		shared_ptr<StubPacketSource> p = make_shared_ptr<StubPacketSource>(size); p->faultPct = sourceFaults;
		src = make_shared_ptr<DataDepacketer>(p); shape = "depacketer "; break;
	}
	}
	size_t layers = sim::WR(0, 3); bool takerOnTop = false, aligned = false, packeted = false;
	size_t chunk = 0; // the consumer gets multiples of this
	for (size_t k = 0; k < layers; ++k)
		switch (sim::W(5))
		{
		case 0: { if (takerOnTop || aligned) break; u64 n = sim::W(100); bool rest = sim::WP(30); src = make_shared_ptr<DataTaker>(src, n, rest); if (end - begin > n) { end = begin + n; mustEnd = false; } takerOnTop = true; chunk = 0; shape += Fmt("take(%llu,%d) ", (unsigned long long)n, rest); break; }
		case 1: { if (takerOnTop || aligned) break; u64 n = sim::W(60); src = make_shared_ptr<DataSkipper>(src, n, true); begin = std::min(end, begin + n); chunk = 0; shape += Fmt("skip(%llu) ", (unsigned long long)n); break; }
		case 2: { if (takerOnTop || aligned) break; aligned = true; size_t a = sim::WR(1, 9); src = make_shared_ptr<DataAligner>(src, a); end = begin + (end - begin) / a * a; chunk = a; shape += Fmt("align(%zu) ", a); break; }
		case 3: src = make_shared_ptr<InterceptingDataSource>(src, Fn<void (ConstByteData, const ICancellationToken&)>([](ConstByteData, const ICancellationToken&) { }), Fn<void (const ICancellationToken&)>([](const ICancellationToken&) { })); shape += "intercept "; break;
		default: { if (takerOnTop || aligned || packeted || u) break; packeted = true; shape += "packet+depacket "; shared_ptr<DataPacketer> p = make_shared_ptr<DataPacketer>(src); src = make_shared_ptr<DataDepacketer>(p); chunk = 0; break; }
		}
	sim::note("size %llu, %s: expect [%llu, %llu)", (unsigned long long)size, shape.c_str(), (unsigned long long)begin, (unsigned long long)end);
	(void)heldBack; (void)unit;
	StubConsumer c(begin, end);
	c.takePartPct = partialTakes ? 40 : 0; c.refusePct = sim::WP(30) ? 20 : 0; c.faultPct = faults && sim::WP(60) ? 12 : 0;
	if (aligned) { c.unit = chunk; c.needUnit = chunk; c.checkUnit = true; }
	bool cancels = sim::WP(40); int idle = 0;
	for (size_t k = 0; k < 3000; ++k)
	{
		if (c.eod || (takerOnTop && c.got == end - begin)) break;
		CancellationToken token; c.token = cancels && sim::WP(40) ? &token : 0; c.cancelPct = 30; if (u) { u->toCancel = cancels && sim::WP(20) ? &token : 0; u->cancelPct = 30; }
		if (cancels && sim::WP(5)) token.Cancel();
		u64 before = c.got;
		try { src->Read(c, token); }
		catch (const DeviceFault&) { } catch (const ConsumerFault&) { }
		catch (const OperationCancelledException&) { SIM_CHECK(token.IsCancelled(), "cancel", "a read is cancelled without cancellation"); }
		idle = c.got == before ? idle + 1 : 0; SIM_CHECK(idle < 800, "stuck", "no data although the source has them: " << c.got << " of " << end - begin << " (" << shape << ")");
	}
	SIM_CHECK(c.got == end - begin, "lost", c.got << " bytes of " << end - begin << " are delivered (" << shape << ")");
	if (!takerOnTop) SIM_CHECK(c.eod, "end", "no end of data (" << shape << ")");
	if (takerOnTop && c.got == end - begin && !c.eod)
	{
		CancellationToken token; c.token = 0; c.faultPct = 0; if (stub) stub->quiet = true; if (u) u->quiet = true;
		try { src->Read(c, token); } catch (const std::exception& ex) { }
		SIM_CHECK(c.got == end - begin, "too-much", "more than taken is delivered");
	}
}

// Positions of the source after takers and skippers; seeks of a stream source; packets
SIM_SCENARIO(position, 4)
{
	SilenceLog();
	switch (sim::W(5))
	{
	case 0: // taken or skipped data end exactly where the next reader begins
	{
		u64 size = sim::WR(1, 100), n = sim::W(size + 1); bool faults = sim::WP(50);
		StubSourcePtr stub = make_shared_ptr<StubSource>(size); stub->faultPct = faults ? 15 : 0; stub->several = sim::WP(30);
		bool take = sim::WP(50);
		{
			StubConsumer c(0, n); c.takePartPct = 40; c.refusePct = sim::WP(30) ? 20 : 0; c.faultPct = faults ? 12 : 0; bool cancels = sim::WP(30);
			IDataSourcePtr src; if (take) src = make_shared_ptr<DataTaker>(stub, n); else src = make_shared_ptr<DataSkipper>(stub, n);
			for (size_t k = 0; k < 400; ++k)
			{
				CancellationToken token; c.token = cancels ? &token : 0; c.cancelPct = 20;
				if (take ? c.got == n : stub->pos == n) break;
				try { src->Read(c, token); } catch (const DeviceFault&) { } catch (const ConsumerFault&) { }
			}
			if (!take) SIM_CHECK(c.got == 0, "too-much", "skipped data are delivered");
			stub->quiet = true; c.faultPct = 0; CancellationToken token; c.token = 0;
			if (!take) try { src->Read(c, token); } catch (const std::exception&) { }
			if (!take && c.eod) SIM_CHECK(stub->pos == size, "end", "a skipper reports the end too early");
			if (!take) SIM_CHECK(c.got == 0, "too-much", "more than to be skipped is taken");
		}
		SIM_CHECK(stub->pos == n, "position", (take ? "taking " : "skipping ") << n << " bytes moves the source to " << stub->pos);
		break;
	}
	case 1: // seeks of a stream source
	{
		UnderPtr u = make_shared_ptr<Under>(); u64 size = sim::WR(1, 100); for (u64 i = 0; i < size; ++i) u->data.push_back(Hash(i));
		Configure(*u); u->torn = false; u->tellFaultPct = 0; bool faults = sim::WP(50); u->writeFaultPct = 0; if (!faults) u->readFaultPct = u->seekFaultPct = 0;
		ByteStreamDataSource s(u, sim::WR(1, 20)); u64 pos = 0; bool cancels = sim::WP(40);
		for (size_t k = 0; k < 30; ++k)
		{
			CancellationToken token;
			if (sim::WP(40))
			{
				u64 target = sim::W(size + 1); int m = sim::W(3);
				try
				{
					s.Seek(m == 0 ? (s64)target : m == 1 ? (s64)target - (s64)pos : (s64)target - (s64)size, m == 0 ? SeekMode::Begin : m == 1 ? SeekMode::Current : SeekMode::End);
					pos = target;
				}
				catch (const DeviceFault&) { }
			}
			else
			{
				StubConsumer c(pos, size); c.takePartPct = 40; c.refusePct = 10; c.faultPct = faults ? 15 : 0; c.token = cancels ? &token : 0; c.cancelPct = 30; if (u) { u->toCancel = cancels ? &token : 0; u->cancelPct = 20; }
				try { s.Read(c, token); } catch (const DeviceFault&) { } catch (const ConsumerFault&) { } catch (const OperationCancelledException&) { }
				if (c.eod) SIM_CHECK(pos == size && c.got == 0, "end", "end of data at " << pos << " of " << size);
				pos += c.got;
			}
			SIM_CHECK(s.Tell() == pos, "position", "the position is " << s.Tell() << ", not " << pos);
		}
		break;
	}
	case 2: // fixed size packets of a source
	{
		size_t packet = sim::WR(1, 9); u64 size = packet * sim::W(12); bool faults = sim::WP(50);
		StubSourcePtr stub = make_shared_ptr<StubSource>(size); stub->faultPct = faults ? 15 : 0; stub->minPiece = packet;
		DataPacketer p(stub, packet); u64 got = 0; bool eod = false;
		for (size_t k = 0; k < 600 && !eod; ++k)
		{
			CancellationToken token; bool refuse = sim::WP(20), fault = faults && sim::WP(15);
			try
			{
				p.ReadToFunction([&](const Packet<EmptyType>& x, const ICancellationToken&) -> bool
				{
					SIM_CHECK(x.GetSize() == packet, "unit", "a packet of " << x.GetSize() << " bytes instead of " << packet);
					for (size_t i = 0; i < packet; ++i) SIM_CHECK(x.GetData()[i] == Hash(got + i), "wrong-bytes", "byte " << got + i << " is wrong");
					if (fault) throw ConsumerFault();
					if (refuse) return false;
					got += packet; return true;
				}, [&]() { eod = true; }, token);
			}
			catch (const DeviceFault&) { } catch (const ConsumerFault&) { }
		}
		SIM_CHECK(eod && got == size, "lost", got << " bytes of " << size << " are delivered in packets");
		break;
	}
	case 3: // data kept by a mediator; data consumed to the end
	{
		u64 size = sim::W(100), put = 0; bool faults = sim::WP(40), cancels = sim::WP(40); BufferedDataMediator m; bool eodPut = false;
		StubConsumer c(0, size); c.takePartPct = 50; c.refusePct = 20; c.faultPct = faults ? 12 : 0; c.cancelPct = 20;
		for (size_t k = 0; k < 500 && !c.eod; ++k)
		{
			CancellationToken token; c.token = cancels ? &token : 0; if (cancels && sim::WP(10)) token.Cancel();
			if (put < size && (sim::WP(40) || c.got == put))
			{
				size_t n = sim::WR(1, std::min<u64>(24, size - put)); std::vector<u8> b(n); for (size_t i = 0; i < n; ++i) b[i] = Hash(put + i);
				size_t p = 0;
				if (sim::WP(50)) { StubConsumer once(put, put + n); once.takePartPct = 50; once.refusePct = 20; once.token = cancels ? &token : 0; once.cancelPct = 10; size_t r = ConsumeAll(once, ConstByteData(b.data(), n), token); SIM_CHECK(r == once.got && (r == n || token.IsCancelled()), "count", "ConsumeAll of " << n << " bytes: " << r << ", the consumer took " << once.got); }
				p = ConsumeAll(m, ConstByteData(b.data(), n), token);
				SIM_CHECK(p == n || (p == 0 && token.IsCancelled()), "count", "a mediator takes " << p << " of " << n << " bytes");
				put += p;
			}
			else if (put == size && !eodPut) { m.EndOfData(token); eodPut = true; }
			else if (c.got != put || eodPut)
				try { m.Read(c, token); } catch (const ConsumerFault&) { }
		}
		SIM_CHECK(c.eod && c.got == size, "lost", "a mediator delivers " << c.got << " of " << size << " bytes");
		break;
	}
	default: // the whole of a source, copied
	{
		u64 size = sim::W(100); StubSourcePtr stub = make_shared_ptr<StubSource>(size); stub->several = sim::WP(30);
		bool toData = sim::WP(30);
		if (toData)
		{
			std::vector<u8> v(size + 4, 0xcd); ByteDataConsumer c(ByteData(v.data(), size));
			ReactiveDataSource(stub).Read(c, DummyCancellationToken());
			for (u64 i = 0; i < size; ++i) SIM_CHECK(v[i] == Hash(i), "wrong-bytes", "byte " << i << " is wrong");
			for (u64 i = size; i < v.size(); ++i) SIM_CHECK(v[i] == 0xcd, "overflow", "the destination is overrun");
			break;
		}
		bool fault = sim::WP(30); stub->faultPct = fault ? 10 : 0;
		try
		{
			ByteArray all = DataSourceReader(stub).ReadToEnd();
			SIM_CHECK(all.size() == size, "lost", all.size() << " bytes instead of " << size);
			for (u64 i = 0; i < size; ++i) SIM_CHECK(all[i] == Hash(i), "wrong-bytes", "byte " << i << " is wrong");
		}
		catch (const DeviceFault&) { SIM_CHECK(fault, "unexpected", "a fault from nowhere"); }
	}
	}
}

// A source read ahead by a thread of its own: all bytes, then the end or the exception
SIM_SCENARIO(readahead, 5)
{
	SilenceLog();
	u64 size = sim::W(80); bool fails = sim::WP(30), early = sim::WP(25); u64 failAt = sim::W(size + 1); size_t storage = sim::WR(1, 24);
	struct Src : public virtual IDataSource
	{
		u64 size, pos = 0, failAt; bool fails, slow;
		void Read(IDataConsumer& c, const ICancellationToken& token) override
		{
			if (slow && sim::WP(30)) { sim::Quiet q; } if (slow) sim::sleepUs(sim::W(300));
			if (fails && pos >= failAt) throw DeviceFault();
			if (pos >= size) { c.EndOfData(token); return; }
			size_t n = std::min<u64>(sim::WR(1, 20), (fails ? std::min(size, failAt) : size) - pos); std::vector<u8> b(n); for (size_t i = 0; i < n; ++i) b[i] = Hash(pos + i);
			size_t p = c.Process(ConstByteData(b.data(), n), token); for (u8& x : b) x = 0xee; pos += p;
			if (p == 0) sim::sleepUs(50);
		}
	};
	shared_ptr<Src> src = make_shared_ptr<Src>(); src->size = size; src->failAt = failAt; src->fails = fails; src->slow = sim::WP(50);
	DataBufferPtr buf = make_shared_ptr<DataBuffer>(false, storage);
	Clients cs; u64 gotV = 0; u64* got = &gotV; bool endedV = false; bool* ended = &endedV; size_t maxReads = early ? sim::W(20) : 100000;
	Spawn(cs, "reader", [=]
	{
		std::unique_ptr<IntermediateDataBuffer> b(new IntermediateDataBuffer("readahead", src, buf)); u64 limit = fails ? failAt : size; uint64_t began = sim::nowUs(); size_t attempts = 0;
		for (size_t k = 0; k < maxReads && !*ended; ++k)
		{
			size_t take = sim::WP(30) ? sim::W(4) : 1000; bool fault = sim::WP(5);
			try
			{
				b->ReadToFunction([&](ConstByteData d, const ICancellationToken&) -> size_t
				{
					size_t n = std::min(take, d.size());
					for (size_t i = 0; i < d.size(); ++i) SIM_CHECK(*got + i < limit && d[i] == Hash(*got + i), "wrong-bytes", "byte " << *got + i << " of " << limit << " is wrong");
					if (fault) throw ConsumerFault();
					*got += n; return n;
				}, [&](const ICancellationToken&) { SIM_CHECK(!fails, "end", "end of data instead of the exception"); SIM_CHECK(*got == size, "lost", "the end after " << *got << " bytes of " << size); *ended = true; }, TimedCancellationToken(Ms(sim::WP(20) ? 0 : 200)));
			}
			catch (const ConsumerFault&) { }
			catch (const std::exception& ex) { SIM_CHECK(fails, "unexpected", "an exception from nowhere: " << ex.what()); SIM_CHECK(*got == failAt, "lost", "the exception after " << *got << " bytes of " << failAt); *ended = true; }
			SIM_CHECK(++attempts < 2000 || sim::nowUs() - began < 600000000ull, "stuck", "no progress: " << *got << " of " << limit);
		}
		sim::note("destroying after %llu bytes", (unsigned long long)*got);
		b.reset();
	});
	JoinAll(cs);
	if (!early) SIM_CHECK(*ended, "end", "no end");
}
