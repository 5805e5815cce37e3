// C35: a compressed stream gives back what went into it
#include "common.h"
#include <stingraykit/collection/CollectionHelpers.h>
#include <stingraykit/compare/comparers.h>
#include <stingraykit/function/bind.h>
#include <stingraykit/optional.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/compression/ppm/PpmDictionaryFactory.h>
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/thread/TimedCancellationToken.h>

namespace
{
	typedef std::vector<u8> Bytes;
	struct Torn : public std::runtime_error { Torn() : std::runtime_error("the medium fails") { } };

	// A source that gives pieces of any size, some empty handed, and fails now and then
	struct Source : public virtual IDataSource
	{
		Bytes d; size_t p = 0; int chunk = 0; unsigned fails = 0;
		virtual void Read(IDataConsumer& c, const ICancellationToken& t)
		{
			sim::sleepUs(5);
		if (fails && sim::fault("read-fails", fails)) throw Torn();
			size_t n = d.size() - p;
			if (!n) { c.EndOfData(t); return; }
			{ sim::Quiet q; if (chunk) n = std::min<size_t>(n, 1 + sim::W(chunk)); }
			size_t took = c.Process(ConstByteData(d.data() + p, n), t);
			SIM_CHECK(took <= n, "altered", "of " << n << " bytes offered " << took << " are said to be processed");
			p += took;
		}
	};
	STINGRAYKIT_DECLARE_PTR(Source);

	// A consumer that takes what it likes, nothing at times
	struct Sink : public virtual IDataConsumer
	{
		Bytes d; int ends = 0; unsigned refuses = 0, limit = 0;
		virtual size_t Process(ConstByteData b, const ICancellationToken&)
		{
			SIM_CHECK(!ends, "altered", "data comes after the end");
			if (refuses && sim::fault("consumer-refuses", refuses)) return 0;
			size_t n = b.size(); if (limit && n > 1) n = 1 + sim::W(std::min<size_t>(n, limit));
			sim::Quiet q; d.insert(d.end(), b.data(), b.data() + n); return n;
		}
		virtual void EndOfData(const ICancellationToken&)
		{
			if (refuses && sim::fault("end-fails", refuses)) throw Torn();
			++ends;
		}
	};

	// Passes everything on and tells when the end did pass
	struct Passing : public virtual IDataConsumer
	{
		IDataConsumer& to; bool ended = false;
		explicit Passing(IDataConsumer& c) : to(c) { }
		virtual size_t Process(ConstByteData b, const ICancellationToken& t) { return to.Process(b, t); }
		virtual void EndOfData(const ICancellationToken& t) { to.EndOfData(t); ended = true; }
	};

	Bytes Random(size_t n, int alphabet, int repeat)
	{
		Bytes r; sim::Quiet q;
		while (r.size() < n) { if (repeat && r.size() > 4 && sim::W(100) < (unsigned)repeat) { size_t from = sim::W(r.size()), l = 1 + sim::W(8); for (size_t i = 0; i < l && r.size() < n; ++i) r.push_back(r[from + i]); } else r.push_back((u8)sim::W(alphabet)); }
		return r;
	}

	typedef PpmConfig<u8, u32> Cfg;
	typedef PpmDictionaryFactory<Cfg, TypeList<PpmModelConfig<3, u8>, PpmModelConfig<1, u8>, PpmModelConfig<0, u16> > > Deep;
	typedef PpmDictionaryFactory<Cfg, TypeList<PpmModelConfig<2, u16>, PpmModelConfig<1, u16>, PpmModelConfig<0, u16> > > Wide;
	typedef PpmDictionaryFactory<Cfg, TypeList<PpmModelConfig<0, u16> > > Flat;

	ICompressionDictionaryPtr Learn(int kind, size_t most, int alphabet)
	{
		ICompressionDictionaryBuilderPtr b; size_t final = sim::WP(50) ? 3500 : 1000000, high = sim::WP(50) ? 6000 : 1000000;
		if (kind == 0) b = Deep(std::min<size_t>(high, 5000), high, final).CreateBuilder();
		else if (kind == 1) b = Wide(std::min<size_t>(high, 5000), high, final).CreateBuilder();
		else b = Flat(1000000, 1000000, 1000000).CreateBuilder();
		Bytes train = Random(1 + sim::W(most), alphabet, 30); size_t at = 0;
		while (at < train.size()) { size_t n = std::min<size_t>(train.size() - at, 1 + sim::W(100)); b->Process(ConstByteData(train.data() + at, n)); at += n; }
		return b->Finish();
	}

	// Reads until the end came out; failures of the medium are met by reading again
	template < typename Stream > bool Pump(const Stream& s, Sink& out, size_t most, const char* what)
	{
		for (size_t i = 0; i < most; ++i)
		{
			try { s->Read(out, DummyCancellationToken()); } catch (const Torn&) { } catch (const std::exception& ex) { std::string w = ex.what(); SIM_CHECK(false, "altered", what << " fails: " << w); }
			if (out.ends) return true;
		}
		SIM_CHECK(false, "stuck", what << " does not end: " << out.d.size() << " bytes came out of " << most << " reads");
		return false;
	}

	Bytes Compress(const ICompressionDictionaryPtr& dict, const Bytes& text, bool faults)
	{
		SourcePtr src = make_shared_ptr<Source>(); src->d = text; src->chunk = 60; Sink out;
		if (faults) { src->chunk = 1 + sim::W(3) * 30; src->fails = sim::W(3) * 40; out.refuses = sim::W(3) * 120; out.limit = sim::W(3) * 9; }
		ICompressorPtr c = dict->Compress(src);
		Pump(c, out, text.size() * 60 + 3000, "compressing");
		SIM_CHECK(out.ends == 1, "altered", "the end is announced " << out.ends << " times");
		return out.d;
	}

	void Differ(const Bytes& got, const Bytes& text, const char* what)
	{
		sim::Quiet q; size_t k = 0; while (k < got.size() && k < text.size() && got[k] == text[k]) ++k;
		SIM_CHECK(k == got.size() && k == text.size(), "altered", what << " gives " << got.size() << " bytes instead of " << text.size() << ", the first " << k << " are right");
	}

	void Decompress(const ICompressionDictionaryPtr& dict, const Bytes& packed, const Bytes& text, bool faults)
	{
		SourcePtr src = make_shared_ptr<Source>(); src->d = packed; src->chunk = 60; Sink out;
		if (faults) { src->chunk = 1 + sim::W(3) * 30; src->fails = sim::W(3) * 40; out.refuses = sim::W(3) * 120; }
		IDecompressorPtr d = dict->Decompress(src);
		Pump(d, out, (text.size() + packed.size()) * 60 + 3000, "decompressing");
		SIM_CHECK(out.ends == 1, "altered", "the end is announced " << out.ends << " times");
		Differ(out.d, text, "a stream compressed and decompressed");
	}
}

SIM_SCENARIO(round_trip, 6)
{
	sim::setStepLimit(3000000);
	int alphabet = sim::WP(50) ? sim::WR(1, 256) : sim::WR(1, 5);
	ICompressionDictionaryPtr dict = Learn(sim::W(3), 300, alphabet);
	for (int n = sim::WR(1, 2); n; --n)
	{
		Bytes text = Random(sim::WP(70) ? sim::W(60) : sim::W(400), sim::WP(80) ? alphabet : 256, sim::W(3) * 40);
		Bytes packed = Compress(dict, text, true);
		if (sim::WP(50)) Differ(Compress(dict, text, false), packed, "compressing the same text again");
		Decompress(dict, packed, text, true);
	}
}

// Streams longer than the buffers inside; some end where a buffer does
SIM_SCENARIO(long_streams, 1)
{
	sim::setStepLimit(3000000);
	// a symbol takes very nearly a byte
	ICompressionDictionaryPtr dict = Learn(2, 20, 256);
	Bytes text = Random(sim::WP(60) ? sim::WR(1016, 1026) : sim::WR(900, 1300), 256, 0);
	bool faults = sim::WP(50);
	Bytes packed = Compress(dict, text, faults);
	if (packed.size() % 1024 == 0) sim::probe("a compressed stream fills the buffer exactly");
	Decompress(dict, packed, text, faults);
}

// A stream cut short or damaged: reading it ends, by an error or by an end
SIM_SCENARIO(torn_streams, 2)
{
	sim::setStepLimit(3000000);
	int alphabet = sim::WP(50) ? sim::WR(1, 256) : sim::WR(1, 5);
	ICompressionDictionaryPtr dict = Learn(sim::W(3), 200, alphabet);
	Bytes text = Random(1 + sim::W(200), alphabet, sim::W(3) * 40), packed = Compress(dict, text, false), torn = packed; bool cut = false;
	{ sim::Quiet q; switch (sim::W(3)) { case 0: torn.resize(sim::W(torn.size())); cut = true; break; case 1: for (int n = sim::WR(1, 5); n; --n) torn[sim::W(torn.size())] ^= (u8)(1 << sim::W(8)); break; default: { size_t from = sim::W(torn.size()); for (size_t i = from; i < torn.size(); ++i) torn[i] = 0; } } }
	SourcePtr src = make_shared_ptr<Source>(); src->d = torn; src->chunk = sim::W(2) * 20; Sink out;
	IDecompressorPtr d = dict->Decompress(src); bool failed = false; size_t most = 200000;
	for (size_t i = 0; i < 3000 && !out.ends && !failed; ++i)
	{
		bool did = src->p < src->d.size();
		try { d->Read(out, DummyCancellationToken()); } catch (const std::exception&) { failed = true; }
		SIM_CHECK(out.d.size() < most, "stuck", "decompressing a damaged stream of " << torn.size() << " bytes gives " << out.d.size() << " bytes and goes on");
		if (did && !failed && !out.ends && src->p == src->d.size()) continue;
	}
	if (cut) SIM_CHECK(failed || out.ends, "stuck", "decompressing a stream cut to " << torn.size() << " of " << packed.size() << " bytes neither ends nor fails");
	if (failed) sim::probe("a damaged stream is refused"); else sim::probe("a damaged stream gives other text");
}

// One dictionary used by several threads at once, the compressed bytes passing from thread to thread through a buffer
SIM_SCENARIO(threads, 2)
{
	int alphabet = sim::WR(1, 20);
	ICompressionDictionaryPtr dict = Learn(sim::W(3), 80, alphabet);
	struct Way { Bytes text, got; shared_ptr<DataBuffer> buffer; SourcePtr src; IDataSourcePtr in, out; };
	int n = sim::WR(1, 2); std::vector<std::unique_ptr<Way> > ways; Clients cs;
	for (int i = 0; i < n; ++i)
	{
		std::unique_ptr<Way> w(new Way); w->text = Random(sim::W(40), alphabet, 30); w->buffer = make_shared_ptr<DataBuffer>(false, sim::WR(8, 64));
		w->src = make_shared_ptr<Source>(); w->src->d = w->text; w->src->chunk = sim::W(2) * 10; w->in = dict->Compress(w->src); w->out = dict->Decompress(w->buffer); ways.push_back(std::move(w));
	}
	for (int i = 0; i < n; ++i)
	{
		Way* w = ways[i].get(); bool timed = sim::WP(50);
		Spawn(cs, "writer", [=] { DummyCancellationToken t; Passing to(*w->buffer); while (!to.ended) { if (timed) { TimedCancellationToken tt(Ms(sim::W(5))); w->in->Read(to, tt); } else w->in->Read(to, t); sim::sleepUs(10); } });
		Spawn(cs, "reader", [=] { Sink out; DummyCancellationToken t; while (!out.ends) { if (timed) { TimedCancellationToken tt(Ms(sim::W(5))); w->out->Read(out, tt); } else w->out->Read(out, t); sim::sleepUs(10); } sim::Quiet q; w->got = out.d; });
	}
	JoinAll(cs);
	for (auto& w : ways) Differ(w->got, w->text, "a stream passed between threads");
}
