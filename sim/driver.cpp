// Driver: runs many seeds in forked children on all cores, checks determinism, minimises and gates violations,
// writes the replay file and the evidence.
#include "rt.h"
#include "sim.h"

#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <signal.h>
#include <sched.h>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

using namespace rt;

struct Options
{
	std::string property, tier = "quick", evidence, replayDir = "/verif/replays", known, replay, scenario, stubs, real, rule;
	u64 seed = 1, runs = 2000; int jobs = 8; double maxSeconds = 200, minSeconds = 0; bool trace = false, keepGoing = false, quiet = false; s64 index = -1; bool selfcheck = false; bool hashOnly = false;
	int maxClasses = 3; double minimizeSeconds = 25;
};
static Options g_opt;
static std::string g_self;

static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static u64 strHash(const std::string& s) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8)c) * 1099511628211ull; return h; }
static u64 runSeed(u64 idx) { return mix(mix(g_opt.seed, strHash(g_opt.property)), idx); }

static std::vector<Scenario*> g_wheel;			// weighted round robin
static void buildWheel()
{
	bool thorough = g_opt.tier == "thorough";
	std::vector<std::pair<double, Scenario*>> slots;
	for (unsigned i = 0; i < g_nscenarios; ++i)
	{
		Scenario& s = g_scenarios[i];
		if ((s.flags & sim::ThoroughOnly) && !thorough) continue;
		if (!g_opt.scenario.empty() && g_opt.scenario != s.name) continue;
		for (unsigned k = 0; k < s.weight; ++k) slots.push_back(std::make_pair((k + 0.5) / s.weight, &s));
	}
	std::stable_sort(slots.begin(), slots.end(), [](const std::pair<double, Scenario*>& a, const std::pair<double, Scenario*>& b) { return a.first < b.first; });
	for (size_t i = 0; i < slots.size(); ++i) g_wheel.push_back(slots[i].second);
}
static Scenario* scenarioOf(u64 idx) { return g_wheel[idx % g_wheel.size()]; }
static Scenario* scenarioByName(const std::string& n) { for (unsigned i = 0; i < g_nscenarios; ++i) if (n == g_scenarios[i].name) return &g_scenarios[i]; return NULL; }

static Result* newResult()
{
	void* p = mmap(NULL, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(90); }
	return (Result*)p;
}
static void clearResult(Result* r) { size_t n = offsetof(Result, W); memset(r, 0, n); }

// Runs one execution in a forked child.
static void exec1(Scenario* s, u64 seed, const Replay* rep, Result* r, bool trace, bool records)
{
	clearResult(r);
	fflush(stdout);
	pid_t p = fork();
	if (p < 0) { perror("fork"); exit(91); }
	if (p == 0)
	{
		int nul = open("/dev/null", O_RDWR);
		if (trace) dup2(1, 3);
		dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
		rt::run(s, seed, rep, r, trace, records, g_opt.tier == "thorough");
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) { }
	if (r->status == StNone)
	{
		r->status = StInternal;
		snprintf(r->cls, sizeof(r->cls), "internal");
		snprintf(r->msg, sizeof(r->msg), "child ended without a result, wait status %#x", st);
	}
}

struct Full			// an owned copy of what is needed to replay
{
	Config cfg; std::vector<u32> W; std::vector<SRec> S; std::vector<FRec> F;
	Replay rep() const { Replay r; r.cfg = cfg; r.nW = W.size(); r.nS = S.size(); r.nF = F.size(); r.W = W.data(); r.S = S.data(); r.F = F.data(); return r; }
};
static Full fullOf(const Result* r)
{
	Full f; f.cfg = r->cfg;
	f.W.assign(r->W, r->W + r->nW); f.S.assign(r->S, r->S + r->nS); f.F.assign(r->F, r->F + r->nF);
	return f;
}

static std::string sigOf(const Result* r)		// the violation class that minimisation must preserve
{
	std::string c = r->cls;
	return c;
}

static bool reproduces(Scenario* s, const Full& f, const std::string& sig, Result* r)
{
	Replay rep = f.rep();
	exec1(s, 0, &rep, r, false, false);
	return r->status == StViolation && sigOf(r) == sig;
}

template < typename T, typename Try >
static void ddmin(std::vector<T>& v, Try tryIt, double deadline)
{
	size_t chunk = v.size();
	while (chunk >= 1 && !v.empty() && wall() < deadline)
	{
		bool any = false;
		for (size_t at = 0; at < v.size() && wall() < deadline; )
		{
			std::vector<T> c(v.begin(), v.begin() + at);
			size_t e = std::min(v.size(), at + chunk);
			c.insert(c.end(), v.begin() + e, v.end());
			if (c.size() < v.size() && tryIt(c)) { v = c; any = true; }
			else at += chunk;
		}
		if (chunk == 1) { if (!any) break; }
		else chunk = (chunk + 1) / 2;
		if (chunk == 1 && any && v.size() > 400) break;
	}
}

static Full minimize(Scenario* s, Full f, const std::string& sig, Result* r, double seconds)
{
	double deadline = wall() + seconds;
	for (int round = 0; round < 3 && wall() < deadline; ++round)
	{
		size_t before = f.W.size() + f.S.size() + f.F.size();
		u64 sumBefore = 0; for (u32 v : f.W) sumBefore += v;
		ddmin(f.F, [&](const std::vector<FRec>& c) { Full t = f; t.F = c; return reproduces(s, t, sig, r); }, deadline);
		ddmin(f.S, [&](const std::vector<SRec>& c) { Full t = f; t.S = c; return reproduces(s, t, sig, r); }, std::min(deadline, wall() + seconds / 3));
		ddmin(f.W, [&](const std::vector<u32>& c) { Full t = f; t.W = c; return reproduces(s, t, sig, r); }, std::min(deadline, wall() + seconds / 4));
		for (size_t i = 0; i < f.W.size() && wall() < deadline; ++i)
			while (f.W[i] && wall() < deadline)
			{
				Full t = f;
				t.W[i] = 0; if (reproduces(s, t, sig, r)) { f = t; break; }
				t.W[i] = f.W[i] / 2; if (t.W[i] && reproduces(s, t, sig, r)) { f = t; continue; }
				t.W[i] = f.W[i] - 1; if (reproduces(s, t, sig, r)) { f = t; continue; }
				break;
			}
		if (f.cfg.memMod) { Full t = f; t.cfg.memMod = 0; if (reproduces(s, t, sig, r)) f = t; }
		u64 sumAfter = 0; for (u32 v : f.W) sumAfter += v;
		if (f.W.size() + f.S.size() + f.F.size() == before && sumAfter == sumBefore) break;
	}
	while (!f.W.empty() && f.W.back() == 0) f.W.pop_back();
	if (f.F.empty()) { Full t = f; t.cfg.faultsOn = 0; if (reproduces(s, t, sig, r)) f = t; }
	return f;
}

static std::string symbolize(const u64* pcs, u32 n)
{
	if (!n) return "";
	std::ostringstream cmd;
	cmd << "addr2line -Cfpe '" << g_self << "'";
	for (u32 i = 0; i < n; ++i) cmd << " 0x" << std::hex << (pcs[i] ? pcs[i] - 1 : 0);
	cmd << " 2>/dev/null";
	std::string out;
	FILE* p = popen(cmd.str().c_str(), "r");
	if (!p) return "";
	char b[4096]; int k = 0;
	while (fgets(b, sizeof(b), p) && k < (int)n)
	{
		std::string l = b;
		if (l.size() > 300) l = l.substr(0, 180) + " ... " + l.substr(l.size() - 110);
		while (!l.empty() && l.back() == '\n') l.pop_back();
		char h[16]; snprintf(h, sizeof(h), "    #%d ", k++);
		out += h + l + "\n";
	}
	pclose(p);
	return out;
}

static std::string symbolizeMsg(const std::string& m)			// replaces @hex by function names (hang reports)
{
	std::vector<u64> pcs; size_t pos = 0;
	while ((pos = m.find(" @", pos)) != std::string::npos) { pcs.push_back(strtoull(m.c_str() + pos + 2, NULL, 16)); pos += 2; }
	if (pcs.empty() || pcs.size() > 400) return m;
	std::ostringstream cmd;
	cmd << "addr2line -Csfe '" << g_self << "'";
	for (size_t i = 0; i < pcs.size(); ++i) cmd << " 0x" << std::hex << (pcs[i] ? pcs[i] - 1 : 0);
	FILE* p = popen(cmd.str().c_str(), "r");
	if (!p) return m;
	std::vector<std::string> names; char b[8192]; bool fn = true; std::string cur;
	while (fgets(b, sizeof(b), p))
	{
		std::string l = b; while (!l.empty() && l.back() == '\n') l.pop_back();
		if (fn) { size_t par = l.find('('); cur = l.substr(0, par); if (cur.size() > 90) cur = cur.substr(0, 90) + ".."; }
		else { names.push_back(cur + "(" + l + ")"); }
		fn = !fn;
	}
	pclose(p);
	std::string out; size_t k = 0; pos = 0;
	for (;;)
	{
		size_t n = m.find(" @", pos);
		out += m.substr(pos, n == std::string::npos ? n : n - pos);
		if (n == std::string::npos) break;
		out += "\n      < " + (k < names.size() ? names[k] : std::string("?")); ++k;
		pos = n + 2; while (pos < m.size() && isxdigit(m[pos])) ++pos;
	}
	return out;
}

static void writeReplay(const std::string& path, Scenario* s, const Full& f, const Result* r, u64 seed, u64 idx, const std::string& human)
{
	std::ofstream o(path.c_str());
	o << "simreplay 1\nproperty " << g_opt.property << "\nscenario " << s->name << "\nrunseed " << seed << "\nindex " << idx << "\nclass " << r->cls << "\nhash " << std::hex << r->evHash << std::dec << "\n";
	const Config& c = f.cfg;
	o << "config " << c.tick << " " << c.rtOffset << " " << c.memMod << " " << c.memRem << " " << c.faultsOn << " " << c.stallsOn << " " << c.spuriousOn << " " << c.eintrOn << " " << c.jumpsOn << "\n";
	o << "W " << f.W.size(); for (u32 v : f.W) o << " " << v; o << "\n";
	o << "S " << f.S.size(); for (const SRec& v : f.S) o << " " << v.fid << ":" << v.n << ":" << v.val; o << "\n";
	o << "F " << f.F.size(); for (const FRec& v : f.F) o << " " << v.kind << ":" << v.fid << ":" << v.n << ":" << v.val; o << "\n";
	std::istringstream h(human); std::string l;
	while (std::getline(h, l)) o << "# " << l << "\n";
}

static bool readReplay(const std::string& path, std::string& prop, std::string& scen, std::string& cls, u64& hash, Full& f)
{
	std::ifstream in(path.c_str()); std::string l;
	if (!in || !std::getline(in, l) || l != "simreplay 1") return false;
	memset(&f.cfg, 0, sizeof(f.cfg));
	while (std::getline(in, l))
	{
		if (l.empty() || l[0] == '#') continue;
		std::istringstream s(l); std::string k; s >> k;
		if (k == "property") s >> prop;
		else if (k == "scenario") s >> scen;
		else if (k == "class") { std::getline(s, cls); if (!cls.empty()) cls = cls.substr(1); }
		else if (k == "hash") s >> std::hex >> hash;
		else if (k == "config") { Config& c = f.cfg; s >> c.tick >> c.rtOffset >> c.memMod >> c.memRem >> c.faultsOn >> c.stallsOn >> c.spuriousOn >> c.eintrOn >> c.jumpsOn; }
		else if (k == "W") { size_t n; s >> n; for (size_t i = 0; i < n; ++i) { u32 v; s >> v; f.W.push_back(v); } }
		else if (k == "S") { size_t n; s >> n; for (size_t i = 0; i < n; ++i) { SRec v; char c; s >> v.fid >> c >> v.n >> c >> v.val; f.S.push_back(v); } }
		else if (k == "F") { size_t n; s >> n; for (size_t i = 0; i < n; ++i) { FRec v; char c; s >> v.kind >> c >> v.fid >> c >> v.n >> c >> v.val; f.F.push_back(v); } }
	}
	return true;
}

// ------------------------------------------------------------------ statistics

struct RunInfo { u64 idx, schedHash, evHash; u32 steps, switches, preempts; u64 simNs; u8 status; u8 rechecked; };

struct Stats
{
	u64 runs = 0, steps = 0, accesses = 0, switches = 0, preempts = 0, fibers = 0, idleJumps = 0, faultRuns = 0, rechecks = 0, nontrivial = 0, faultsFired = 0, faultFreeRuns = 0;
	double simSeconds = 0;
	std::map<std::string, u64> faults, probes, scen, policies, scenSteps;
	std::vector<u64> hashes, hist;		// of context switches; of everything drawn
	u8 cov[CovBits / 8];
	Stats() { memset(cov, 0, sizeof(cov)); }
};

struct VioRec { u64 idx; std::string scen; std::string cls; std::string msg; };

static const char* const g_polNames[] = { "random", "pct", "bounded-preemption", "site-swarm" };

// ------------------------------------------------------------------ worker

struct Shared { volatile u64 minViolation; volatile u64 internalErr; volatile u32 stop; volatile u64 runsDone; };

static std::string esc(const std::string& s)
{
	std::string o;
	for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += ' '; else o += c; }
	return o;
}

static void worker(int wi, int jobs, u64 runs, Shared* sh, const std::string& outPath, double deadline, double minDeadline, const std::set<std::string>& knownCls)
{
	Result* r = newResult(); Result* r2 = newResult();
	Stats st; std::vector<VioRec> vios; std::map<std::string, int> perClass; std::string internalMsg;
	std::vector<std::string> samples;
	for (u64 i = wi; (i < runs || wall() < minDeadline) && wall() < deadline; i += jobs)
	{
		if (!g_opt.keepGoing && i > sh->minViolation) break;
		Scenario* s = scenarioOf(i);
		exec1(s, runSeed(i), NULL, r, false, false);
		++st.runs; st.steps += r->steps; st.accesses += r->accesses; st.switches += r->switches; st.preempts += r->preempts; st.fibers += r->fibers; st.idleJumps += r->idleJumps;
		st.simSeconds += r->simNs / 1e9; ++st.scen[s->name]; st.scenSteps[s->name] += r->steps; ++st.policies[g_polNames[r->cfg.policy % 4]];
		if (!r->cfg.faultsOn) ++st.faultFreeRuns;
		u64 ff = 0;
		for (u32 k = 0; k < r->nfaults; ++k) { st.faults[r->faults[k].name] += r->faults[k].count; ff += r->faults[k].count; }
		if (ff) ++st.faultRuns;
		st.faultsFired += ff;
		for (u32 k = 0; k < r->nprobes; ++k) st.probes[r->probes[k].name] += r->probes[k].count;
		for (u32 k = 0; k < CovBits / 8; ++k) st.cov[k] |= r->cov[k];
		if (r->switches > 1 && r->wDraws + r->steps > 2) st.hashes.push_back(r->schedHash);
		if (r->switches > 1 || r->wDraws > 7) { ++st.nontrivial; st.hist.push_back(mix(r->histHash, (u64)(s - rt::g_scenarios))); }
		if (samples.size() < 2 && i / jobs >= 1)
		{
			std::ostringstream o;
			o << "run " << i << " seed " << runSeed(i) << " scenario " << s->name << " scheduler " << g_polNames[r->cfg.policy % 4] << (r->cfg.faultsOn ? " faults on" : " fault-free") << ": " << r->fibers << " threads, " << r->steps << " points, "
			  << r->switches << " switches (" << r->preempts << " preemptions), " << r->simNs / 1e9 << " s simulated, faults {";
			for (u32 k = 0; k < r->nfaults; ++k) o << (k ? ", " : "") << r->faults[k].name << ":" << r->faults[k].count;
			o << "}, event hash " << std::hex << r->evHash;
			samples.push_back(o.str());
		}
		if (r->status == StInternal)
		{
			if (internalMsg.empty()) { std::ostringstream o; o << "run " << i << " (" << s->name << "): " << r->msg; internalMsg = o.str(); }
			if (i < sh->internalErr) sh->internalErr = i;
			if (!g_opt.keepGoing) break;
		}
		if (r->status == StViolation)
		{
			std::string key = std::string(s->name) + "/" + r->cls;
			if (perClass[key]++ < 2)
			{
				VioRec v; v.idx = i; v.scen = s->name; v.cls = r->cls; v.msg = r->msg;
				if (r->nstack) v.msg += "\n" + symbolize(r->stack, r->nstack);
				if (r->nstack2) v.msg += "  earlier access:\n" + symbolize(r->stack2, r->nstack2);
				vios.push_back(v);
			}
			bool isKnown = false;
			for (const std::string& kc : knownCls) if (kc == key) isKnown = true;
			if (!isKnown) while (i < sh->minViolation) { u64 o = sh->minViolation; if (__sync_bool_compare_and_swap(&sh->minViolation, o, i)) break; }
		}
		if (i % 61 == 7 || g_opt.selfcheck)
		{
			u64 h = r->evHash; u32 status = r->status;
			exec1(s, runSeed(i), NULL, r2, false, true);
			++st.rechecks;
			if (r2->evHash != h || r2->status != status)
			{
				std::ostringstream o; o << "non-deterministic run " << i << " (" << s->name << "): " << std::hex << h << " / " << r2->evHash;
				internalMsg = o.str();
				if (i < sh->internalErr) sh->internalErr = i;
				break;
			}
			// and the recorded decisions alone reproduce it
			Full f = fullOf(r2); Replay rep = f.rep();
			if (!r2->truncated)
			{
				exec1(s, 0, &rep, r, false, false);
				if (r->evHash != h)
				{
					std::ostringstream o; o << "replay of run " << i << " (" << s->name << ") diverges: " << std::hex << h << " / " << r->evHash;
					internalMsg = o.str();
					if (i < sh->internalErr) sh->internalErr = i;
					break;
				}
			}
		}
		__sync_fetch_and_add(&sh->runsDone, 1);
	}
	FILE* f = fopen(outPath.c_str(), "w");
	fprintf(f, "T %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %.9f\n", (unsigned long long)st.runs, (unsigned long long)st.steps, (unsigned long long)st.accesses, (unsigned long long)st.switches, (unsigned long long)st.preempts,
		(unsigned long long)st.fibers, (unsigned long long)st.idleJumps, (unsigned long long)st.faultRuns, (unsigned long long)st.rechecks, (unsigned long long)st.nontrivial, (unsigned long long)st.faultsFired, (unsigned long long)st.faultFreeRuns, st.simSeconds);
	for (auto& p : st.faults) fprintf(f, "F %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
	for (auto& p : st.probes) fprintf(f, "P %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
	for (auto& p : st.scen) fprintf(f, "S %s %llu %llu\n", p.first.c_str(), (unsigned long long)p.second, (unsigned long long)st.scenSteps[p.first]);
	for (auto& p : st.policies) fprintf(f, "L %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
	for (auto& s : samples) fprintf(f, "X %s\n", s.c_str());
	for (auto& v : vios) fprintf(f, "V %llu %s %s\x01%s\n", (unsigned long long)v.idx, v.scen.c_str(), v.cls.c_str(), esc(v.msg).c_str());
	if (!internalMsg.empty()) fprintf(f, "I %s\n", internalMsg.c_str());
	fprintf(f, "C"); for (u32 k = 0; k < CovBits / 8; ++k) fprintf(f, "%02x", st.cov[k]); fprintf(f, "\n");
	fprintf(f, "H %zu\n", st.hashes.size());
	fwrite(st.hashes.data(), 8, st.hashes.size(), f);
	fprintf(f, "\nG %zu\n", st.hist.size());
	fwrite(st.hist.data(), 8, st.hist.size(), f);
	fclose(f);
}

// ------------------------------------------------------------------ known findings

struct Known { std::string scen, cls, match, text; };
static std::vector<Known> readKnown()
{
	std::vector<Known> v;
	std::ifstream in(g_opt.known.c_str()); std::string l;
	while (std::getline(in, l))
	{
		// finding: property=C16 scenario=x class=y match="..." : text
		if (l.compare(0, 8, "finding:") != 0) continue;
		Known k; std::string prop;
		auto field = [&](const char* n) { std::string key = std::string(n) + "="; size_t p = l.find(key); if (p == std::string::npos) return std::string(); p += key.size(); if (l[p] == '"') { size_t e = l.find('"', p + 1); return l.substr(p + 1, e - p - 1); } size_t e = l.find(' ', p); return l.substr(p, e - p); };
		prop = field("property"); k.scen = field("scenario"); k.cls = field("class"); k.match = field("match");
		size_t p = l.find(" : "); if (p != std::string::npos) k.text = l.substr(p + 3);
		if (prop == g_opt.property) v.push_back(k);
	}
	return v;
}

static int doReplay()
{
	std::string prop, scen, cls; u64 h = 0; Full f;
	if (!readReplay(g_opt.replay, prop, scen, cls, h, f)) { fprintf(stderr, "cannot read %s\n", g_opt.replay.c_str()); return 2; }
	Scenario* s = scenarioByName(scen);
	if (!s) { fprintf(stderr, "unknown scenario %s\n", scen.c_str()); return 2; }
	Result* r = newResult(); Replay rep = f.rep();
	exec1(s, 0, &rep, r, g_opt.trace, false);
	if (r->status == StOk) { if (!g_opt.quiet) printf("replay finished without a violation\n"); return 0; }
	if (!g_opt.quiet)
	{
		printf("%s: %s\n%s", r->cls, symbolizeMsg(r->msg).c_str(), symbolize(r->stack, r->nstack).c_str());
		if (r->nstack2) printf("  earlier access:\n%s", symbolize(r->stack2, r->nstack2).c_str());
		printf("event hash %llx (recorded %llx)\n", (unsigned long long)r->evHash, (unsigned long long)h);
	}
	if (r->status == StInternal) return 3;
	if (g_opt.hashOnly) return r->evHash == h && cls == r->cls ? 1 : 4;
	printf("VIOLATION property=%s replay=%s\n", prop.c_str(), g_opt.replay.c_str());
	return 1;
}

static int doIndex()
{
	Result* r = newResult();
	Scenario* s = g_opt.scenario.empty() ? scenarioOf(g_opt.index) : scenarioByName(g_opt.scenario);
	exec1(s, runSeed(g_opt.index), NULL, r, g_opt.trace, true);
	if (g_opt.hashOnly) { printf("%llx\n", (unsigned long long)r->evHash); return 0; }
	printf("status %u scenario %s policy %s steps %llu accesses %llu switches %llu fibers %llu sim %.6f s hash %llx\n", r->status, s->name, g_polNames[r->cfg.policy % 4], (unsigned long long)r->steps, (unsigned long long)r->accesses, (unsigned long long)r->switches, (unsigned long long)r->fibers, r->simNs / 1e9, (unsigned long long)r->evHash);
	for (u32 k = 0; k < r->nfaults; ++k) printf("fault %s %llu\n", r->faults[k].name, (unsigned long long)r->faults[k].count);
	for (u32 k = 0; k < r->nprobes; ++k) printf("probe %s %llu\n", r->probes[k].name, (unsigned long long)r->probes[k].count);
	if (r->status != StOk)
	{
		printf("%s: %s\n%s", r->cls, symbolizeMsg(r->msg).c_str(), symbolize(r->stack, r->nstack).c_str());
		if (r->nstack2) printf("  earlier access:\n%s", symbolize(r->stack2, r->nstack2).c_str());
	}
	return r->status == StOk ? 0 : 1;
}

static std::string readFile(const std::string& p) { std::ifstream f(p.c_str()); std::stringstream s; s << f.rdbuf(); return s.str(); }

int main(int argc, char** argv)
{
	int per = personality(0xffffffff);
	if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC"))
	{
		if (personality(per | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
	}
	rt::useDriverHeap();
	{ char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof(b) - 1); b[n > 0 ? n : 0] = 0; g_self = b; }
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--property") g_opt.property = val(); else if (a == "--tier") g_opt.tier = val(); else if (a == "--seed") g_opt.seed = strtoull(val().c_str(), NULL, 10);
		else if (a == "--runs") g_opt.runs = strtoull(val().c_str(), NULL, 10); else if (a == "--jobs") g_opt.jobs = atoi(val().c_str()); else if (a == "--max-seconds") g_opt.maxSeconds = atof(val().c_str());
		else if (a == "--min-seconds") g_opt.minSeconds = atof(val().c_str());
		else if (a == "--evidence") g_opt.evidence = val(); else if (a == "--replay-dir") g_opt.replayDir = val(); else if (a == "--known") g_opt.known = val(); else if (a == "--replay") g_opt.replay = val();
		else if (a == "--scenario") g_opt.scenario = val(); else if (a == "--trace") g_opt.trace = true; else if (a == "--keep-going") g_opt.keepGoing = true; else if (a == "--quiet") g_opt.quiet = true;
		else if (a == "--index") g_opt.index = atoll(val().c_str()); else if (a == "--selfcheck") g_opt.selfcheck = true; else if (a == "--hash-only") g_opt.hashOnly = true;
		else if (a == "--real") g_opt.real = val(); else if (a == "--stubs") g_opt.stubs = val(); else if (a == "--rule") g_opt.rule = val(); else if (a == "--minimize-seconds") g_opt.minimizeSeconds = atof(val().c_str());
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	setvbuf(stdout, NULL, _IOLBF, 1 << 16);
	buildWheel();
	if (!g_opt.replay.empty()) return doReplay();
	if (g_wheel.empty()) { fprintf(stderr, "no scenario\n"); return 2; }
	if (g_opt.index >= 0) return doIndex();

	double t0 = wall();
	std::vector<Known> known = readKnown();
	std::set<std::string> knownCls;
	for (const Known& k : known) knownCls.insert(k.scen + "/" + k.cls);
	Shared* sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sh->minViolation = ~0ull; sh->internalErr = ~0ull;
	char tmpl[] = "/tmp/simXXXXXX";
	std::string tmp = mkdtemp(tmpl);
	printf("sim: property %s seed %llu tier %s runs %llu jobs %d\n", g_opt.property.c_str(), (unsigned long long)g_opt.seed, g_opt.tier.c_str(), (unsigned long long)g_opt.runs, g_opt.jobs);
	fflush(stdout);
	std::vector<pid_t> pids;
	for (int w = 0; w < g_opt.jobs; ++w)
	{
		pid_t p = fork();
		if (p == 0)
		{
			worker(w, g_opt.jobs, g_opt.runs, sh, tmp + "/" + std::to_string(w), t0 + g_opt.maxSeconds, t0 + g_opt.minSeconds, knownCls);
			fflush(stdout);
			_exit(0);
		}
		pids.push_back(p);
	}
	bool workerDied = false;
	for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) { } if (!WIFEXITED(st) || WEXITSTATUS(st)) workerDied = true; }
	double searchWall = wall() - t0;

	Stats tot; std::vector<VioRec> vios; std::vector<std::string> samples, internals; std::set<u64> distinct, histories;
	for (int w = 0; w < g_opt.jobs; ++w)
	{
		std::string path = tmp + "/" + std::to_string(w);
		std::ifstream in(path.c_str(), std::ios::binary); std::string l;
		while (std::getline(in, l))
		{
			std::istringstream s(l); std::string k; s >> k;
			if (k == "T") { u64 v[12]; for (int i = 0; i < 12; ++i) s >> v[i]; double d; s >> d; tot.runs += v[0]; tot.steps += v[1]; tot.accesses += v[2]; tot.switches += v[3]; tot.preempts += v[4]; tot.fibers += v[5]; tot.idleJumps += v[6]; tot.faultRuns += v[7]; tot.rechecks += v[8]; tot.nontrivial += v[9]; tot.faultsFired += v[10]; tot.faultFreeRuns += v[11]; tot.simSeconds += d; }
			else if (k == "F") { std::string n; u64 c; s >> n >> c; tot.faults[n] += c; }
			else if (k == "P") { std::string n; u64 c; s >> n >> c; tot.probes[n] += c; }
			else if (k == "S") { std::string n; u64 c, d; s >> n >> c >> d; tot.scen[n] += c; tot.scenSteps[n] += d; }
			else if (k == "L") { std::string n; u64 c; s >> n >> c; tot.policies[n] += c; }
			else if (k == "X") samples.push_back(l.substr(2));
			else if (k == "V") { VioRec v; s >> v.idx >> v.scen; std::string rest; std::getline(s, rest); if (!rest.empty()) rest = rest.substr(1); size_t p = rest.find('\x01'); v.cls = rest.substr(0, p); v.msg = rest.substr(p + 1); vios.push_back(v); }
			else if (k == "I") internals.push_back(l.substr(2));
			else if (l[0] == 'C') { for (u32 b = 0; b < CovBits / 8 && 2 * b + 2 < l.size() + 1; ++b) tot.cov[b] |= (u8)strtoul(l.substr(1 + 2 * b, 2).c_str(), NULL, 16); }
			else if (k == "H") { size_t n; s >> n; std::vector<u64> hs(n); in.read((char*)hs.data(), n * 8); distinct.insert(hs.begin(), hs.end()); in.get(); }
			else if (k == "G") { size_t n; s >> n; std::vector<u64> hs(n); in.read((char*)hs.data(), n * 8); histories.insert(hs.begin(), hs.end()); break; }
		}
		unlink(path.c_str());
	}
	rmdir(tmp.c_str());
	u32 covBits = 0; for (u32 b = 0; b < CovBits / 8; ++b) covBits += __builtin_popcount(tot.cov[b]);

	// fresh-process determinism: a sample of runs hashed again in new processes
	int freshChecks = 0;
	if (internals.empty())
		for (int i = 0; i < 3; ++i)
		{
			u64 idx = mix(g_opt.seed, 1000 + i) % std::max<u64>(1, std::min<u64>(g_opt.runs, tot.runs));
			Result* r = newResult();
			exec1(scenarioOf(idx), runSeed(idx), NULL, r, false, true);
			std::ostringstream c; c << "SIM_NO_REEXEC= '" << g_self << "' --property " << g_opt.property << " --seed " << g_opt.seed << " --tier " << g_opt.tier << " --index " << idx << " --hash-only";
			if (!g_opt.scenario.empty()) c << " --scenario " << g_opt.scenario;
			FILE* p = popen(("unset SIM_NO_REEXEC; " + c.str()).c_str(), "r"); char b[128] = { 0 }; if (!fgets(b, sizeof(b), p)) b[0] = 0; pclose(p);
			char e[64]; snprintf(e, sizeof(e), "%llx\n", (unsigned long long)r->evHash);
			++freshChecks;
			if (strcmp(b, e)) internals.push_back("fresh process diverges on run " + std::to_string(idx) + ": " + e + " / " + b);
			munmap(r, sizeof(Result));
		}

	std::sort(vios.begin(), vios.end(), [](const VioRec& a, const VioRec& b) { return a.idx < b.idx; });
	int exitCode = 0; u64 nvio = 0; std::vector<std::string> vioLines; std::set<std::string> seen, knownPrinted;
	std::ostringstream vioJson;
	Result* r = newResult();
	for (const VioRec& v : vios)
	{
		bool isKnown = false;
		for (const Known& k : known)
			if ((k.scen == "*" || k.scen == v.scen) && (k.cls == "*" || k.cls == v.cls) && (k.match.empty() || v.msg.find(k.match) != std::string::npos))
			{
				isKnown = true;
				if (knownPrinted.insert(k.text).second) printf("KNOWN-FINDING: property=%s %s\n", g_opt.property.c_str(), k.text.c_str());
			}
		if (isKnown) continue;
		if (!seen.insert(v.cls).second) continue;
		if ((int)seen.size() > g_opt.maxClasses && !g_opt.keepGoing) continue;
		if (g_opt.keepGoing) { printf("-- run %llu %s %s\n%s\n", (unsigned long long)v.idx, v.scen.c_str(), v.cls.c_str(), v.msg.c_str()); if (!getenv("SIM_MINIMIZE")) { ++nvio; exitCode = 1; continue; } }
		Scenario* s = scenarioByName(v.scen);
		exec1(s, runSeed(v.idx), NULL, r, false, true);
		if (r->status != StViolation || v.cls != r->cls) { internals.push_back("violation of run " + std::to_string(v.idx) + " (" + v.cls + ") does not repeat"); continue; }
		u64 h0 = r->evHash; Full f0 = fullOf(r); bool trunc = r->truncated;
		exec1(s, runSeed(v.idx), NULL, r, false, true);
		if (r->evHash != h0) { internals.push_back("violation of run " + std::to_string(v.idx) + " is not deterministic"); continue; }
		Full f = f0;
		if (!trunc && reproduces(s, f0, v.cls, r)) f = minimize(s, f0, v.cls, r, g_opt.minimizeSeconds);
		Replay rep = f.rep();
		exec1(s, 0, &rep, r, false, false);
		if (r->status != StViolation || v.cls != r->cls) { internals.push_back("recorded decisions of run " + std::to_string(v.idx) + " do not reproduce " + v.cls); continue; }
		mkdir(g_opt.replayDir.c_str(), 0777);
		std::string name = v.cls; for (char& c : name) if (!isalnum(c) && c != '.' && c != '-') c = '_';
		std::string path = g_opt.replayDir + "/" + g_opt.property + "-" + name + "-" + std::to_string(v.idx) + ".replay";
		std::ostringstream human;
		human << r->cls << ": " << symbolizeMsg(r->msg) << "\n" << symbolize(r->stack, r->nstack);
		if (r->nstack2) human << "  earlier access:\n" << symbolize(r->stack2, r->nstack2);
		human << "minimised: " << f0.W.size() << "->" << f.W.size() << " workload draws, " << f0.S.size() << "->" << f.S.size() << " scheduling choices, " << f0.F.size() << "->" << f.F.size() << " faults; " << r->fibers << " threads, " << r->steps << " points\n";
		std::string plain = human.str();
		// the event trace of the minimised execution
		writeReplay(path, s, f, r, runSeed(v.idx), v.idx, plain);
		{
			std::string tf = path + ".trace";
			std::string cmd = "unset SIM_NO_REEXEC; '" + g_self + "' --property " + g_opt.property + " --tier " + g_opt.tier + " --replay '" + path + "' --trace --quiet > '" + tf + "' 2>/dev/null";
			int rc = system(cmd.c_str()); (void)rc;
			std::string t = readFile(tf); unlink(tf.c_str());
			if (t.size() > 60000) t = t.substr(0, 20000) + "\n...\n" + t.substr(t.size() - 40000);
			writeReplay(path, s, f, r, runSeed(v.idx), v.idx, plain + "trace of the replay:\n" + t);
		}
		// gate: a fresh process must reproduce it exactly
		std::string cmd = "unset SIM_NO_REEXEC; '" + g_self + "' --property " + g_opt.property + " --tier " + g_opt.tier + " --replay '" + path + "' --quiet --hash-only > /dev/null 2>&1";
		int rc = system(cmd.c_str());
		if (!WIFEXITED(rc) || WEXITSTATUS(rc) != 1) { internals.push_back("replay " + path + " does not reproduce in a fresh process (" + std::to_string(WEXITSTATUS(rc)) + ")"); continue; }
		++nvio; exitCode = 1;
		printf("violated by run %llu, seed %llu, scenario %s\n%s", (unsigned long long)v.idx, (unsigned long long)runSeed(v.idx), s->name, plain.c_str());
		printf("VIOLATION property=%s replay=%s\n", g_opt.property.c_str(), path.c_str());
		fflush(stdout);
	}
	for (const std::string& m : internals) fprintf(stderr, "sim: error: %s\n", m.c_str());
	if (workerDied) fprintf(stderr, "sim: error: a worker died\n");

	double w = wall() - t0;
	if (!g_opt.evidence.empty())
	{
		std::ofstream o(g_opt.evidence.c_str());
		o << "{\n \"property\": \"" << g_opt.property << "\", \"tier\": \"" << g_opt.tier << "\", \"seed\": " << g_opt.seed << ", \"level\": \"exploration\",\n \"coverage\": {\n";
		o << "  \"evaluations\": " << tot.runs << ",\n  \"distinct_nontrivial\": " << histories.size() << ",\n";
		o << "  \"rule\": \"" << esc(g_opt.rule) << "\",\n";
		o << "  \"samples\": ["; for (size_t i = 0; i < samples.size() && i < 6; ++i) o << (i ? ",\n    " : "\n    ") << "\"" << esc(samples[i]) << "\""; o << "\n  ],\n";
		o << "  \"simulated_runs_per_hour\": " << (u64)(tot.runs / std::max(searchWall, 0.001) * 3600) << ",\n  \"seeds_per_hour\": " << (u64)(tot.runs / std::max(searchWall, 0.001) * 3600) << ",\n";
		o << "  \"simulated_seconds\": " << tot.simSeconds << ",\n  \"scheduling_points\": " << tot.steps << ",\n  \"memory_accesses_checked\": " << tot.accesses << ",\n  \"context_switches\": " << tot.switches << ",\n  \"preemptions\": " << tot.preempts << ",\n  \"threads_simulated\": " << tot.fibers << ",\n  \"clock_advances_when_idle\": " << tot.idleJumps << ",\n";
		o << "  \"distinct_interleavings\": " << distinct.size() << ",\n  \"distinct_interleavings_measure\": \"hash of the sequence of context switches (from thread, to thread, code site with its callers)\",\n";
		o << "  \"distinct_switch_site_pairs\": " << covBits << ",\n";
		o << "  \"runs_with_faults_fired\": " << tot.faultRuns << ",\n  \"fault_free_configurations\": " << tot.faultFreeRuns << ",\n  \"faults_injected_total\": " << tot.faultsFired << ",\n";
		o << "  \"faults_injected\": {"; { bool c = false; for (auto& p : tot.faults) { o << (c ? ", " : "") << "\"" << esc(p.first) << "\": " << p.second; c = true; } } o << "},\n";
		o << "  \"probes\": {"; { bool c = false; for (auto& p : tot.probes) { o << (c ? ", " : "") << "\"" << esc(p.first) << "\": " << p.second; c = true; } } o << "},\n";
		o << "  \"runs_per_scenario\": {"; { bool c = false; for (auto& p : tot.scen) { o << (c ? ", " : "") << "\"" << p.first << "\": " << p.second; c = true; } } o << "},\n";
		o << "  \"runs_per_scheduler\": {"; { bool c = false; for (auto& p : tot.policies) { o << (c ? ", " : "") << "\"" << p.first << "\": " << p.second; c = true; } } o << "},\n";
		o << "  \"determinism_rechecks\": " << tot.rechecks << ",\n  \"fresh_process_rechecks\": " << freshChecks << ",\n";
		o << "  \"real_components\": \"" << esc(g_opt.real) << "\",\n  \"stub_components\": \"" << esc(g_opt.stubs) << "\"\n },\n";
		o << " \"assumptions\": [\"sequentially consistent memory between scheduling points; weaker orders are covered by the happens-before race check only\", \"one simulated process, virtual time\"],\n";
		o << " \"wall_s\": " << w << ", \"violations\": " << nvio << "\n}\n";
	}
	printf("sim: %llu runs, %zu distinct histories, %zu distinct interleavings, %llu preemptions, %.1f s simulated, %llu faults, %llu rechecks, %.1f s (%.0f runs/s), %llu violation(s)\n", (unsigned long long)tot.runs, histories.size(), distinct.size(), (unsigned long long)tot.preempts, tot.simSeconds, (unsigned long long)tot.faultsFired, (unsigned long long)tot.rechecks, w, tot.runs / std::max(searchWall, 0.001), (unsigned long long)nvio);
	if (getenv("SIM_STATS"))
	{
		for (auto& p : tot.scen) printf("  scenario %s: %llu runs, %.0f points each\n", p.first.c_str(), (unsigned long long)p.second, (double)tot.scenSteps[p.first] / p.second);
		for (auto& p : tot.faults) printf("  fault %s: %llu\n", p.first.c_str(), (unsigned long long)p.second);
		for (auto& p : tot.probes) printf("  probe %s: %llu\n", p.first.c_str(), (unsigned long long)p.second);
	}
	if (!exitCode && (!internals.empty() || workerDied)) return 3;
	return exitCode;
}
