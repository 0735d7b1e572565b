// A stand-in for the standard library's threads whose scheduling the test decides: one thread runs at a time, and at
// every operation on a thread, mutex, condition or atomic the next one is drawn from a seeded sequence.  When nothing
// can run, the schedule has deadlocked, which is reported and ends the process.  (With CEXV_FREE, the standard library's
// own threads instead.)
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <list>
#include <memory>
#include <mutex>
#include <queue>
#include <string>
#include <thread>
#include <vector>
#include "drv.h"

struct Sched
{
	struct T { std::thread th; bool blocked = false, ended = false; std::condition_variable go; };
	std::mutex g;
	std::vector<std::unique_ptr<T>> ts;
	size_t cur = 0, points = 0;
	uint64_t x = 1; unsigned every = 2; bool on = false;
	void (*dead)() = nullptr;
	static Sched& get() { static Sched s; return s; }
	size_t rnd(size_t n) { x = x * 6364136223846793005ull + 1442695040888963407ull; return static_cast<size_t>((x >> 33) % n); }
	static size_t& self() { static thread_local size_t id = 0; return id; }
	void begin(uint64_t seed, unsigned ev)
	{
#ifdef CEXV_FREE
		return;
#endif
		 x = seed * 2862933555777941757ull + 3037000493ull; rnd(2); every = ev; ts.clear(); ts.emplace_back(new T()); cur = 0; self() = 0; on = true; points = 0;
	}
	void finish()
	{
		if (!on) return;
		 block([&] { for (size_t i = 1; i < ts.size(); ++i) if (!ts[i]->ended) return false; return true; }); on = false; for (auto &t : ts) if (t->th.joinable()) t->th.join(); ts.clear();
	}
	// under g: hands the processor to a thread that can run
	void pick(std::unique_lock<std::mutex> &l, bool must)
	{
		size_t me = self();
		std::vector<size_t> r;
		for (size_t i = 0; i < ts.size(); ++i) if (!ts[i]->blocked && !ts[i]->ended) r.push_back(i);
		if (r.empty()) { if (dead) dead(); std::_Exit(9); }
		bool stay = !must && rnd(every) != 0;
		if (++points > 200000) { if (dead) dead(); std::_Exit(8); }
		size_t n = stay ? me : r[rnd(r.size())];
		if (n == me && !ts[me]->blocked && !ts[me]->ended) return;
		cur = n;
		ts[n]->go.notify_one();
		if (!ts[me]->ended) ts[me]->go.wait(l, [&] { return cur == me; });
	}
	void yield() { if (!on) return; std::unique_lock<std::mutex> l(g); pick(l, false); }
	// waits until ready() holds; the others that change it call wake()
	template <class P> void block(P ready) { while (!ready()) { std::unique_lock<std::mutex> l(g); ts[self()]->blocked = true; pick(l, true); } }
	void wake() { for (auto &t : ts) t->blocked = false; }
	size_t spawn(std::function<void()> f)
	{
		std::unique_lock<std::mutex> l(g);
		size_t id = ts.size();
		ts.emplace_back(new T());
		T* t = ts.back().get();
		t->th = std::thread([this, id, t, f]()
		{
			{ std::unique_lock<std::mutex> l(g); self() = id; t->go.wait(l, [&] { return cur == id; }); }
			f();
			std::unique_lock<std::mutex> l(g);
			t->ended = true;
			wake();
			pick(l, true);
		});
		return id;
	}
	void join(size_t id) { yield(); block([&] { return ts[id]->ended; }); }
};

#ifdef CEXV_FREE
namespace vstd { using namespace std; }
#else
namespace vstd
{
	using namespace std;
	class mutex
	{
		bool m_held = false;
	public:
		mutex() {}
		mutex(const mutex&) = delete;
		void lock() { Sched &s = Sched::get(); s.yield(); s.block([this] { return !m_held; }); m_held = true; }
		bool try_lock() { Sched::get().yield(); if (m_held) return false; m_held = true; return true; }
		void unlock() { m_held = false; Sched::get().wake(); Sched::get().yield(); }
	};
	typedef mutex timed_mutex;
	class recursive_mutex
	{
		size_t m_owner = 0, m_depth = 0;
	public:
		void lock() { Sched &s = Sched::get(); size_t me = Sched::self(); s.yield(); s.block([&] { return m_depth == 0 || m_owner == me; }); m_owner = me; ++m_depth; }
		bool try_lock() { size_t me = Sched::self(); if (m_depth && m_owner != me) return false; m_owner = me; ++m_depth; return true; }
		void unlock() { --m_depth; Sched::get().wake(); Sched::get().yield(); }
	};
	class condition_variable
	{
		std::deque<std::shared_ptr<bool>> m_waiters;
	public:
		template <class L> void wait(L &l)
		{
			Sched &s = Sched::get();
			auto w = std::make_shared<bool>(s.rnd(32) == 0);      // now and then a spurious wake-up
			m_waiters.push_back(w);
			l.unlock();
			s.block([&] { return *w; });
			for (auto i = m_waiters.begin(); i != m_waiters.end(); ++i) if (*i == w) { m_waiters.erase(i); break; }
			l.lock();
		}
		template <class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
		template <class L, class D> std::cv_status wait_for(L &l, const D &) { l.unlock(); Sched::get().yield(); l.lock(); return std::cv_status::timeout; }
		template <class L, class D, class P> bool wait_for(L &l, const D &d, P p) { if (!p()) wait_for(l, d); return p(); }
		void notify_one()
		{
			Sched &s = Sched::get();
			s.yield();
			std::vector<std::shared_ptr<bool>> v;
			for (auto &w : m_waiters) if (!*w) v.push_back(w);
			if (v.size()) *v[s.rnd(v.size())] = true;
			s.wake();
		}
		void notify_all() { Sched &s = Sched::get(); s.yield(); for (auto &w : m_waiters) *w = true; s.wake(); }
	};
	typedef condition_variable condition_variable_any;
	class thread
	{
		size_t m_id = 0;
	public:
		typedef size_t id;
		thread() {}
		template <class Fn, class... A> explicit thread(Fn &&f, A &&...a) { auto b = std::bind(std::forward<Fn>(f), std::forward<A>(a)...); m_id = Sched::get().spawn([b]() mutable { b(); }); Sched::get().yield(); }
		thread(const thread&) = delete;
		thread(thread &&o) : m_id(o.m_id) { o.m_id = 0; }
		thread& operator=(thread &&o) { if (m_id) std::terminate(); m_id = o.m_id; o.m_id = 0; return *this; }
		~thread() { if (m_id) std::terminate(); }
		bool joinable() const { return m_id != 0; }
		void join() { Sched::get().join(m_id); m_id = 0; }
		void detach() { m_id = 0; }
		id get_id() const { return m_id; }
		static unsigned hardware_concurrency() { return 4; }
	};
	namespace this_thread
	{
		inline void yield() { Sched::get().yield(); }
		template <class D> void sleep_for(const D &) { Sched::get().yield(); }
		inline size_t get_id() { return Sched::self(); }
	}
	template <class R> struct Shared { size_t id = 0; std::function<R()> fn; R value; std::exception_ptr err; void run() { try { value = fn(); } catch (...) { err = std::current_exception(); } } R take() { return value; } };
	template <> struct Shared<void> { size_t id = 0; std::function<void()> fn; std::exception_ptr err; void run() { try { fn(); } catch (...) { err = std::current_exception(); } } void take() {} };
	template <class R> class future
	{
		std::shared_ptr<Shared<R>> m_s;
	public:
		future() {}
		explicit future(std::shared_ptr<Shared<R>> s) : m_s(s) {}
		future(const future&) = delete;
		future(future &&o) : m_s(std::move(o.m_s)) { o.m_s.reset(); }
		future& operator=(future &&o) { if (m_s) wait(); m_s = std::move(o.m_s); o.m_s.reset(); return *this; }
		~future() { if (m_s) wait(); }
		bool valid() const { return static_cast<bool>(m_s); }
		void wait() const { Sched::get().join(m_s->id); }
		template <class D> std::future_status wait_for(const D &) const { Sched::get().yield(); return Sched::get().ts[m_s->id]->ended ? std::future_status::ready : std::future_status::timeout; }
		R get() { wait(); auto s = m_s; m_s.reset(); if (s->err) std::rethrow_exception(s->err); return s->take(); }
	};
	template <class Fn> auto async(Fn f) -> future<decltype(f())>
	{
		typedef decltype(f()) R;
		auto s = std::make_shared<Shared<R>>();
		s->fn = f;
		s->id = Sched::get().spawn([s]() { s->run(); });
		Sched::get().yield();
		return future<R>(s);
	}
	template <class Fn> auto async(std::launch, Fn f) -> future<decltype(f())> { return async(f); }
	template <class V> class atomic
	{
		V m_v;
		V at(std::function<V(V)> f) { Sched::get().yield(); V o = m_v; m_v = f(o); return o; }
	public:
		atomic() : m_v() {}
		atomic(V v) : m_v(v) {}
		atomic(const atomic&) = delete;
		V load(std::memory_order = std::memory_order_seq_cst) const { Sched::get().yield(); return m_v; }
		void store(V v, std::memory_order = std::memory_order_seq_cst) { Sched::get().yield(); m_v = v; }
		V exchange(V v, std::memory_order = std::memory_order_seq_cst) { Sched::get().yield(); V o = m_v; m_v = v; return o; }
		bool compare_exchange_strong(V &e, V v, std::memory_order = std::memory_order_seq_cst) { Sched::get().yield(); if (m_v == e) { m_v = v; return true; } e = m_v; return false; }
		bool compare_exchange_weak(V &e, V v, std::memory_order = std::memory_order_seq_cst) { return compare_exchange_strong(e, v); }
		operator V() const { return load(); }
		V operator=(V v) { store(v); return v; }
		V fetch_add(V n, std::memory_order = std::memory_order_seq_cst) { Sched::get().yield(); V o = m_v; m_v = o + n; return o; }
		V fetch_sub(V n, std::memory_order = std::memory_order_seq_cst) { Sched::get().yield(); V o = m_v; m_v = o - n; return o; }
		V operator++() { return fetch_add(1) + 1; }
		V operator--() { return fetch_sub(1) - 1; }
		V operator++(int) { return fetch_add(1); }
		V operator--(int) { return fetch_sub(1); }
		V operator+=(V n) { return fetch_add(n) + n; }
		V operator-=(V n) { return fetch_sub(n) - n; }
	};
	typedef atomic<size_t> atomic_size_t;
	typedef atomic<bool> atomic_bool;
	typedef atomic<int> atomic_int;
	typedef atomic<unsigned> atomic_uint;
	typedef atomic<int32_t> atomic_int32_t;
	typedef atomic<uint32_t> atomic_uint32_t;
	typedef atomic<uint64_t> atomic_uint64_t;
}
#endif
