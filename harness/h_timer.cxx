// C27: delayed tasks on the real asio scheduler and driven directly
#include "hcommon.hxx"
#include "cornerstone.hxx"
#include <atomic>
#include <chrono>
#include <thread>
using namespace cornerstone;
static H* h;
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
struct sched : delayed_task_scheduler
{
    int scheduled = 0, cancelled = 0;
    virtual void schedule(ptr<delayed_task>& t, int32 n) override
    {
        scheduled++;
        t->reset();
    }

private:
    virtual void cancel_impl(ptr<delayed_task>& t) override { cancelled++; }
};
int main(int argc, char** argv)
{
    H hh(argc, argv);
    h = &hh;
    asio_service svc;
    while (h->more())
    {
        h->cases++;
        // driven directly: the expiry races the cancellation, so it is executed after it
        {
            std::atomic<int> n(0);
            int expect = 0;
            timer_task<void>::executor e = [&n]() { n++; };
            int ctxv = 0, want = (int)h->rnd(1000), sum = 0, wsum = 0;
            timer_task<int&>::executor e2 = [&n, &sum](int& c) { n++; sum += c; };
            ctxv = want;
            bool second = h->chance(50);
            ptr<delayed_task> t = second ? ptr<delayed_task>(cs_new<timer_task<int&>, timer_task<int&>::executor&, int&>(e2, ctxv)) : ptr<delayed_task>(cs_new<timer_task<void>>(e));
            bool cancelled = false;
            sched s;
            std::string tr;
            for (int k = 0; k < 12; ++k)
                switch (h->rnd(3))
                {
                case 0:
                    s.schedule(t, 5);
                    cancelled = false;
                    tr += " schedule";
                    break;
                case 1:
                    s.cancel(t);
                    cancelled = true;
                    tr += " cancel";
                    break;
                default:
                    t->execute();
                    expect += !cancelled;
                    wsum += !cancelled ? want : 0;
                    tr += " expire";
                    if (n.load() != expect || (second && sum != wsum))
                        h->fail("after%s the action ran %d times instead of %d", tr.c_str(), n.load(), expect);
                }
        }
        // on the real scheduler
        if (h->cases % 400 != 1)
            continue;
        {
            const int N = 24;
            std::vector<std::shared_ptr<std::atomic<int>>> n;
            std::vector<ptr<delayed_task>> t;
            std::vector<int> want;
            std::vector<std::string> tr;
            for (int i = 0; i < N; ++i)
            {
                auto c = std::make_shared<std::atomic<int>>(0);
                n.push_back(c);
                timer_task<void>::executor e = [c]() { (*c)++; };
                t.push_back(cs_new<timer_task<void>>(e));
                bool cancelled = false;
                std::string s;
                bool ever = false;
                for (int k = 1 + h->rnd(4); k > 0; --k)
                {
                    if (ever && !cancelled && h->chance(50))
                    {
                        svc.cancel(t[i]);
                        cancelled = true;
                        s += " cancel";
                    }
                    else if (!ever || cancelled)
                    {
                        svc.schedule(t[i], 150 + (int)h->rnd(30));
                        cancelled = false;
                        ever = true;
                        s += " schedule";
                    }
                }
                want.push_back(ever && !cancelled ? 1 : 0);
                tr.push_back(s);
            }
            double t0 = H::now();
            bool all = false;
            while (!all && H::now() - t0 < 15)
            {
                all = true;
                for (int i = 0; i < N; ++i)
                    all = all && n[i]->load() >= want[i];
                ms(5);
            }
            ms(100);
            for (int i = 0; i < N; ++i)
                if (n[i]->load() != want[i])
                    h->fail("after%s within the delay the action ran %d times instead of %d", tr[i].c_str(), n[i]->load(), want[i]);
        }
    }
    return h->done();
}
