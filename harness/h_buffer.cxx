// model-based search over buffer operations (C15) and serialised objects (C16)
#include "cornerstone.hxx"
#include "hcommon.hxx"
#include <sanitizer/asan_interface.h>
using namespace cornerstone;
typedef unsigned long ul;

static H* h;
static std::string log_;
extern "C" void __asan_on_error()
{
    printf("CASES %lu\nFAIL property=%s seed=%lu case=%lu memory error reported by AddressSanitizer in: %s\n", h->cases, h->prop.c_str(), h->seed, h->cases, log_.c_str());
    fflush(stdout);
}

struct model
{
    bufptr b = buffer::alloc(0);
    std::vector<unsigned char> d;
    std::vector<bool> known;
    size_t p;
};

static void verify(model& m, const char* what)
{
    if (m.b->size() != m.d.size())
        h->fail("%s: size() is %lu, expected %lu after: %s", what, (ul)m.b->size(), (ul)m.d.size(), log_.c_str());
    if (m.b->pos() != m.p)
        h->fail("%s: pos() is %lu, expected %lu after: %s", what, (ul)m.b->pos(), (ul)m.p, log_.c_str());
    byte* base = m.b->data() - m.p;
    for (size_t i = 0; i < m.d.size(); ++i)
        if (m.known[i] && base[i] != m.d[i])
            h->fail("%s: byte %lu is %d, expected %d after: %s", what, (ul)i, base[i], m.d[i], log_.c_str());
}

static ul rnd_val()
{
    if (!h->hints.empty() && h->chance(25))
        return (ul)h->hints[h->rnd(h->hints.size())];
    switch (h->rnd(6))
    {
    case 0: return 0;
    case 1: return ~0ul;
    case 2: return 1ul << h->rnd(64);
    case 3: return (1ul << h->rnd(64)) - 1;
    case 4: return h->rng();
    default: return h->rnd(300);
    }
}

static size_t rnd_size()
{
    static const size_t sp[] = {0, 1, 3, 4, 5, 7, 8, 9, 16, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 0x10000, 0x10001, 0x18000};
    if (!h->hints.empty() && h->chance(15))
    {
        long long v = h->hints[h->rnd(h->hints.size())];
        if (v >= 0 && v < 300000)
            return (size_t)v;
    }
    if (h->chance(35))
        return sp[h->rnd(sizeof sp / sizeof *sp)];
    return h->rnd(64);
}

static void put_known(model& m, const unsigned char* s, size_t n)
{
    for (size_t i = 0; i < n; ++i)
    {
        m.d[m.p + i] = s[i];
        m.known[m.p + i] = true;
    }
    m.p += n;
}

static void mk(model& m, size_t n)
{
    m.b = buffer::alloc(n);
    m.d.assign(n, 0);
    m.known.assign(n, false);
    m.p = 0;
    if (h->chance(80))
    {
        // initialise everything
        byte* d = m.b->data();
        for (size_t i = 0; i < n; ++i)
        {
            d[i] = m.d[i] = (unsigned char)(h->chance(12) ? 0 : h->rnd(256));
            m.known[i] = true;
        }
    }
}

static void c15()
{
    char t[200];
    std::vector<model> ms(1 + h->rnd(3));
    log_.clear();
    for (auto& m : ms)
    {
        size_t n = rnd_size();
        snprintf(t, sizeof t, "alloc(%lu); ", (ul)n);
        log_ += t;
        mk(m, n);
        verify(m, "alloc");
    }
    int nops = 1 + h->rnd(14);
    for (int k = 0; k < nops; ++k)
    {
        size_t mi = h->rnd(ms.size());
        model& m = ms[mi];
        size_t av = m.d.size() - m.p;
        int op = h->rnd(13);
        snprintf(t, sizeof t, "[%lu]op%d ", (ul)mi, op);
        log_ += t;
        bool thrown = false, expect = false;
        switch (op)
        {
        case 0:
        {
            size_t np = h->chance(40) ? m.d.size() - std::min<size_t>(m.d.size(), h->rnd(12)) : h->chance(30) ? rnd_val() : h->rnd(m.d.size() + 2);
            snprintf(t, sizeof t, "pos(%lu); ", (ul)np);
            log_ += t;
            m.b->pos(np);
            m.p = std::min(np, m.d.size());
            break;
        }
        case 1:
        {
            int32 v = (int32)rnd_val();
            expect = av < 4;
            snprintf(t, sizeof t, "put(int32 %d); ", v);
            log_ += t;
            try { m.b->put(v); } catch (std::exception&) { thrown = true; }
            unsigned char e[4] = {(unsigned char)v, (unsigned char)(v >> 8), (unsigned char)(v >> 16), (unsigned char)(v >> 24)};
            if (!thrown && !expect)
                put_known(m, e, 4);
            break;
        }
        case 2:
        {
            ulong v = rnd_val();
            expect = av < 8;
            snprintf(t, sizeof t, "put(ulong %lu); ", (ul)v);
            log_ += t;
            try { m.b->put(v); } catch (std::exception&) { thrown = true; }
            unsigned char e[8];
            for (int i = 0; i < 8; ++i)
                e[i] = (unsigned char)(v >> (8 * i));
            if (!thrown && !expect)
                put_known(m, e, 8);
            break;
        }
        case 3:
        {
            byte v = (byte)rnd_val();
            expect = av < 1;
            log_ += "put(byte); ";
            try { m.b->put(v); } catch (std::exception&) { thrown = true; }
            if (!thrown && !expect)
                put_known(m, &v, 1);
            break;
        }
        case 4:
        {
            size_t n = h->chance(50) ? (av ? av - h->rnd(2) : h->rnd(3)) : h->rnd(20);
            if (n > 40000 && h->chance(80))
                n = h->rnd(30);
            std::string s;
            for (size_t i = 0; i < n; ++i)
                s.push_back((char)(1 + h->rnd(255)));
            expect = av < n + 1;
            snprintf(t, sizeof t, "put(string of %lu); ", (ul)n);
            log_ += t;
            try { m.b->put(s); } catch (std::exception&) { thrown = true; }
            if (!thrown && !expect)
                put_known(m, (const unsigned char*)s.c_str(), n + 1);
            break;
        }
        case 5:
        case 6:
        {
            // put another buffer
            model s;
            size_t n = h->chance(50) ? av + h->rnd(3) : rnd_size();
            mk(s, n);
            s.p = h->rnd(n + 1);
            if (h->chance(50))
                s.p = 0;
            s.b->pos(s.p);
            expect = av < n - s.p;
            snprintf(t, sizeof t, "put(buffer size %lu pos %lu); ", (ul)n, (ul)s.p);
            log_ += t;
            try { m.b->put(*s.b); } catch (std::exception&) { thrown = true; }
            verify(s, "source of put(buffer)");
            if (!thrown && !expect)
            {
                for (size_t i = s.p; i < n; ++i)
                {
                    m.d[m.p] = s.d[i];
                    m.known[m.p] = s.known[i];
                    m.p++;
                }
            }
            break;
        }
        case 7:
        {
            expect = av < 4;
            log_ += "get_int; ";
            int32 v = 0;
            try { v = m.b->get_int(); } catch (std::exception&) { thrown = true; }
            if (!thrown && !expect)
            {
                bool kn = true;
                unsigned r = 0;
                for (int i = 0; i < 4; ++i)
                {
                    kn = kn && m.known[m.p + i];
                    r |= (unsigned)m.d[m.p + i] << (8 * i);
                }
                if (kn && (int32)r != v)
                    h->fail("get_int returned %d, stored %d after: %s", v, (int)r, log_.c_str());
                m.p += 4;
            }
            break;
        }
        case 8:
        {
            expect = av < 8;
            log_ += "get_ulong; ";
            ulong v = 0;
            try { v = m.b->get_ulong(); } catch (std::exception&) { thrown = true; }
            if (!thrown && !expect)
            {
                bool kn = true;
                ulong r = 0;
                for (int i = 0; i < 8; ++i)
                {
                    kn = kn && m.known[m.p + i];
                    r |= (ulong)m.d[m.p + i] << (8 * i);
                }
                if (kn && r != v)
                    h->fail("get_ulong returned %lu, stored %lu after: %s", (ul)v, (ul)r, log_.c_str());
                m.p += 8;
            }
            break;
        }
        case 9:
        {
            expect = av < 1;
            log_ += "get_byte; ";
            byte v = 0;
            try { v = m.b->get_byte(); } catch (std::exception&) { thrown = true; }
            if (!thrown && !expect)
            {
                if (m.known[m.p] && v != m.d[m.p])
                    h->fail("get_byte returned %d, stored %d after: %s", v, m.d[m.p], log_.c_str());
                m.p += 1;
            }
            break;
        }
        case 10:
        {
            log_ += "get_str; ";
            bool kn = true;
            size_t n = 0;
            for (size_t i = m.p; i < m.d.size(); ++i)
                kn = kn && m.known[i];
            if (!kn)
                break;
            while (m.p + n < m.d.size() && m.d[m.p + n])
                ++n;
            const char* r = m.b->get_str();
            if (m.p + n >= m.d.size() || n == 0)
            {
                if (r)
                    h->fail("get_str returned a string where none is stored after: %s", log_.c_str());
            }
            else
            {
                if (!r || strlen(r) != n || memcmp(r, &m.d[m.p], n))
                    h->fail("get_str did not return the stored string after: %s", log_.c_str());
                m.p += n + 1;
            }
            break;
        }
        case 11:
        {
            model s;
            size_t n = h->chance(60) ? (h->chance(50) ? av : av + 1 + h->rnd(3)) : rnd_size();
            mk(s, n);
            if (h->chance(30))
            {
                s.p = h->rnd(n + 1);
                s.b->pos(s.p);
            }
            size_t c = n - s.p;
            expect = av < c;
            snprintf(t, sizeof t, "get(buffer size %lu pos %lu); ", (ul)n, (ul)s.p);
            log_ += t;
            try { m.b->get(s.b); } catch (std::exception&) { thrown = true; }
            if (!thrown && !expect)
            {
                for (size_t i = 0; i < c; ++i)
                {
                    s.d[s.p + i] = m.d[m.p + i];
                    s.known[s.p + i] = m.known[m.p + i];
                }
                m.p += c;
            }
            verify(s, "destination of get(buffer)");
            break;
        }
        default:
        {
            log_ += "copy; ";
            model c;
            c.b = buffer::copy(*m.b);
            c.d.assign(m.d.begin() + m.p, m.d.end());
            c.known.assign(m.known.begin() + m.p, m.known.end());
            c.p = 0;
            verify(c, "copy");
            break;
        }
        }
        if (thrown != expect)
            h->fail("operation %s although %lu bytes were left after: %s", thrown ? "failed" : "did not fail", (ul)av, log_.c_str());
        for (auto& x : ms)
            verify(x, "state");
    }
}

#include "h_ser.hxx"

int main(int argc, char** argv)
{
    H hh(argc, argv);
    h = &hh;
    while (h->more())
    {
        h->cases++;
        if (h->prop == "C15")
            c15();
        else
            c16();
    }
    return h->done();
}
