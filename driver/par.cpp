#include "drv.h"
#include <stdexcept>
#include "CexDomain.h"
#include "ParallelOptions.h"
#include "vstd.h"
#include "sched_ThreadPool.h"        // the library's, with the threads of vstd.h (written by the check)
#include "ParallelTools.h"
#include "sched_ParallelTools.inc"
using namespace CEX;
using CEX::Tools::ParallelTools;

static std::vector<std::string>* g_ev = nullptr;
static std::mutex g_evm;
static void ev(const std::string &e, long long t = 0) { std::lock_guard<std::mutex> l(g_evm); if (g_ev) g_ev->push_back("{\"e\":\"" + e + "\",\"t\":" + std::to_string(t) + "}"); }
static std::string join(const std::vector<std::string> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i]; return s + "]"; }
static void dead() { rawline("V deadlock " + join(*g_ev)); }
static void work(size_t t, size_t load) { ev("start", t); for (size_t i = 0; i < load; ++i) Sched::get().yield(); ev("end", t); }

// par.pool SEED EVERY THREADS ops: aK add a task of K steps, dK detached, nK a task that adds another, w wait for all,
// W have another thread wait for all, j join, J join without waiting
CMD("par.pool")
{
	std::vector<std::string> events;
	g_ev = &events;
	Sched &s = Sched::get();
	s.dead = dead;
	s.begin(unum(a[0]), static_cast<unsigned>(num(a[1])));
	size_t next = 1, waits = 0, kept = 0;
	{
		std::unique_ptr<ThreadPool> p(new ThreadPool(num(a[2])));
		std::vector<vstd::thread> others;
		bool over = false;
		for (size_t i = 3; i < a.size() && !over; ++i)
		{
			size_t k = a[i].size() > 1 ? num(a[i].substr(1)) : 0;
			if (a[i][0] == 'a') { size_t t = next++; ev("add", t); p->AddTask([t, k] { work(t, k); }); ev("in", t); }
			else if (a[i][0] == 'd') { size_t t = next++; ev("add", t); p->AddDetachedTask([t, k] { work(t, k); }); ev("in", t); }
			else if (a[i][0] == 'n')
			{
				size_t t = next++, u = next++;
				ThreadPool* q = p.get();
				ev("add", t);
				p->AddTask([t, u, k, q] { ev("start", t); for (size_t i = 0; i < k; ++i) Sched::get().yield(); ev("add", u); q->AddTask([u, k] { work(u, k); }); ev("in", u); ev("end", t); });
				ev("in", t);
			}
			else if (a[i][0] == 'w') { size_t w = ++waits; ev("call", w); p->WaitAll(); ev("ret", w); }
			else if (a[i][0] == 'W') { size_t w = ++waits; ThreadPool* q = p.get(); others.emplace_back([w, q] { ev("call", w); q->WaitAll(); ev("ret", w); }); }
			else if (a[i][0] == 'j' || a[i][0] == 'J')
			{
				for (auto &o : others) o.join();
				others.clear();
				size_t w = ++waits;
				ev(a[i][0] == 'j' ? "call" : "stop", w);
				p->JoinAll(a[i][0] == 'j');
				ev(a[i][0] == 'j' ? "ret" : "stopped", w);
				if (a[i][0] == 'j') ev("all");
				over = true;
			}
			if (p->ThreadCount() > kept) kept = p->ThreadCount();
		}
		for (auto &o : others) o.join();
		size_t w = ++waits;
		if (!over) ev("call", w);
		p.reset();
		ev(over ? "gone" : "ret", w);
		if (!over) ev("all");
	}
	ev("threads", kept);
	s.finish();
	g_ev = nullptr;
	return join(events);
}
// par.for SEED EVERY LOAD FROM TO [NESTED]: every index is a task added at the call
CMD("par.for")
{
	std::vector<std::string> events;
	g_ev = &events;
	Sched &s = Sched::get();
	s.dead = dead;
	s.begin(unum(a[0]), static_cast<unsigned>(num(a[1])));
	size_t load = num(a[2]), from = num(a[3]), to = num(a[4]), inner = a.size() > 5 ? num(a[5]) : 0;
	for (size_t i = from; i < to; ++i) { ev("add", i); ev("in", i); for (size_t j = 0; j < inner; ++j) { ev("add", 1000 + i * 100 + j); ev("in", 1000 + i * 100 + j); } }
	ev("call", 1);
	ParallelTools::ParallelFor(from, to, [&](size_t i)
	{
		ev("start", i);
		for (size_t k = 0; k < load; ++k) Sched::get().yield();
		if (inner) { ParallelTools::ParallelFor(0, inner, [i, load](size_t j) { work(1000 + i * 100 + j, load); }); for (size_t j = 0; j < inner; ++j) ev("must", 1000 + i * 100 + j); }
		ev("end", i);
	});
	ev("ret", 1); ev("all");
	s.finish();
	g_ev = nullptr;
	return join(events);
}
CMD("par.task")      // SEED EVERY LOAD
{
	std::vector<std::string> events;
	g_ev = &events;
	Sched &s = Sched::get();
	s.dead = dead;
	s.begin(unum(a[0]), static_cast<unsigned>(num(a[1])));
	ev("add", 1); ev("in", 1); ev("call", 1);
	ParallelTools::ParallelTask([&] { work(1, num(a[2])); });
	ev("ret", 1); ev("all");
	s.finish();
	g_ev = nullptr;
	return join(events);
}
// ---- options -----------------------------------------------------------------------------------------------------
static std::string show(ParallelOptions &o)
{
	return std::to_string(o.BlockSize()) + " " + std::to_string(o.ParallelMaxDegree()) + " " + std::to_string(o.ParallelMinimumSize()) + " " + std::to_string(o.ParallelBlockSize()) + " " + (o.IsParallel() ? "1" : "0") +
		" " + std::to_string(o.ProcessorCount()) + " " + (o.HasSimd256() ? "1" : "0") + " " + (o.IsDefault() ? "1" : "0");
}
CMD("opt.auto") { c.put<ParallelOptions>(a[0], new ParallelOptions(num(a[1]), num(a[2]) != 0, num(a[3]), num(a[4]) != 0, num(a[5]))); return show(c.get<ParallelOptions>(a[0])); }
CMD("opt.forced") { c.put<ParallelOptions>(a[0], new ParallelOptions(num(a[1]), a[6] == "1", num(a[2]) != 0, num(a[3]), num(a[4]) != 0, num(a[5]))); return show(c.get<ParallelOptions>(a[0])); }
CMD("opt.manual") { c.put<ParallelOptions>(a[0], new ParallelOptions(num(a[1]), a[2] == "1", static_cast<size_t>(num(a[3])), static_cast<size_t>(num(a[4])), num(a[5]) != 0, static_cast<size_t>(num(a[6])), num(a[7]) != 0)); return show(c.get<ParallelOptions>(a[0])); }
CMD("opt.size") { c.get<ParallelOptions>(a[0]).SetBlockSize(num(a[1])); return show(c.get<ParallelOptions>(a[0])); }
CMD("opt.degree") { c.get<ParallelOptions>(a[0]).SetMaxDegree(num(a[1])); return show(c.get<ParallelOptions>(a[0])); }
CMD("opt.calc") { c.get<ParallelOptions>(a[0]).Calculate(a[1] == "1", num(a[2]), num(a[3])); return show(c.get<ParallelOptions>(a[0])); }
CMD("opt.on") { c.get<ParallelOptions>(a[0]).IsParallel() = a[1] == "1"; c.get<ParallelOptions>(a[0]).Calculate(); return show(c.get<ParallelOptions>(a[0])); }
CMD("opt.reset") { c.get<ParallelOptions>(a[0]).Reset(); return show(c.get<ParallelOptions>(a[0])); }
