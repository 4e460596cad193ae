// C21: async_result under random schedules.  Copying the result value or the handler yields, wake-ups are sprinkled in.
#include "hcommon.hxx"
#include <atomic>
#include <condition_variable>
#include <exception>
#include <functional>
#include <memory>
#include <thread>
#include <chrono>
#define private public
#include "async.hxx"
#undef private
using namespace cornerstone;
static H* h;
static std::atomic<unsigned> salt;
static void jitter()
{
    unsigned s = salt.fetch_add(2654435761u);
    s ^= s >> 13;
    if (s % 7 == 0)
        std::this_thread::sleep_for(std::chrono::microseconds(s % 60));
    else if (s % 3 == 0)
        std::this_thread::yield();
}
struct V
{
    int v = -1;
    V() {}
    explicit V(int x) : v(x) {}
    V(const V& o) : v(o.v) { jitter(); }
    V& operator=(const V& o)
    {
        jitter();
        v = o.v;
        jitter();
        return *this;
    }
};
typedef async_result<V> R;
struct Fn
{
    std::atomic<int>* calls;
    std::atomic<int>* bad;
    int want;
    std::exception* err;
    Fn(std::atomic<int>* c, std::atomic<int>* b, int w, std::exception* e) : calls(c), bad(b), want(w), err(e) {}
    Fn(const Fn& o) : calls(o.calls), bad(o.bad), want(o.want), err(o.err) { jitter(); }
    void operator()(V& v, const ptr<std::exception>& e) const
    {
        if (v.v != want || e.get() != err)
            bad->store(1);
        calls->fetch_add(1);
    }
};
template <class T> auto poke(T& r, int) -> decltype(r.cv_.notify_all(), void()) { r.cv_.notify_all(); }
template <class T> void poke(T&, long) {}

int main(int argc, char** argv)
{
    H hh(argc, argv);
    h = &hh;
    salt = (unsigned)h->seed * 77;
    while (h->more())
    {
        h->cases++;
        int how = h->rnd(4); // 0: handler before, 1: when_ready by another thread, 2: no handler, 3: value given at construction
        int waiters = h->rnd(3);
        bool werr = h->chance(30) && how != 3;
        int val = 1 + (int)h->rnd(1000);
        ptr<std::exception> err = werr ? std::make_shared<std::exception>() : ptr<std::exception>();
        std::atomic<int> calls(0), bad(0), go(0), early(0), wrong(0), ended(0);
        std::atomic<bool> isset(how == 3);
        Fn fn(&calls, &bad, val, err.get());
        R::handler_type hd(fn);
        V v0(val);
        std::unique_ptr<R> r(how == 0 ? new R(hd) : how == 3 ? new R(v0) : new R());
        std::vector<std::thread> ts;
        int n = 0;
        int order = h->rnd(3);
        int setdelay = h->chance(50) ? 0 : (int)h->rnd(200), regdelay = h->chance(50) ? 0 : (int)h->rnd(200);
        if (how == 0 && h->chance(50))
        {
            // nothing may be delivered before a result is set
            if (calls.load())
                h->fail("the handler given at construction was called before a result was set");
        }
        bool reg = how == 1 || (how == 3 && h->chance(70));
        bool setter = how != 3;
        auto start = [&](std::function<void()> f) {
            n++;
            ts.emplace_back([&, f] {
                while (!go.load())
                    ;
                f();
                ended++;
            });
        };
        for (int i = 0; i < waiters; ++i)
            start([&] {
                jitter();
                try
                {
                    V& x = r->get();
                    if (!isset.load())
                        early.store(1);
                    if (x.v != val || werr)
                        wrong.store(1);
                }
                catch (ptr<std::exception>& e)
                {
                    if (!isset.load())
                        early.store(1);
                    if (e.get() != err.get() || !werr)
                        wrong.store(1);
                }
                catch (...)
                {
                    wrong.store(1);
                }
            });
        if (reg)
            start([&] {
                if (regdelay)
                    std::this_thread::sleep_for(std::chrono::microseconds(regdelay));
                r->when_ready(fn);
            });
        if (setter)
            start([&] {
                if (setdelay)
                    std::this_thread::sleep_for(std::chrono::microseconds(setdelay));
                isset.store(true);
                r->set_result(v0, err);
            });
        (void)order;
        go.store(1);
        double t = H::now();
        bool pk = h->chance(50);
        while (ended.load() < n)
        {
            if (pk && H::now() - t < 2)
                poke(*r, 0);
            std::this_thread::yield();
            if (H::now() - t > 20)
                h->fail("a thread did not come back within 20 s: %d of %d ended (construction %d, %d waiters, handler %d)", ended.load(), n, how, waiters, (int)reg);
        }
        for (auto& x : ts)
            x.join();
        int want = (how == 0 || reg) ? 1 : 0;
        if (calls.load() != want)
            h->fail("the handler was called %d times instead of %d (construction %d, %d waiters, handler registered %d, delays %d/%d us)", calls.load(), want, how, waiters, (int)reg, setdelay, regdelay);
        if (bad.load())
            h->fail("the handler got another result or error than was set (construction %d)", how);
        if (early.load())
            h->fail("get ended before a result was set (construction %d, wake-ups %d)", how, (int)pk);
        if (wrong.load())
            h->fail("get gave another result or error than was set (construction %d, error %d)", how, (int)werr);
    }
    return h->done();
}
