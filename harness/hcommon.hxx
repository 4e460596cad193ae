#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <mutex>
#include <random>
#include <string>
#include <vector>
#include <stdarg.h>
#include <unistd.h>
struct H
{
    std::string prop;
    unsigned long seed;
    double secs;
    std::vector<long long> hints;
    std::mt19937_64 rng;
    unsigned long cases = 0;
    double t0;
    static double now()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }
    H(int argc, char** argv)
    {
        prop = argv[1];
        seed = strtoul(argv[2], 0, 10);
        secs = atof(argv[3]);
        if (argc > 4)
        {
            std::ifstream f(argv[4]);
            long long v;
            while (f >> v)
                hints.push_back(v);
        }
        rng.seed(seed);
        t0 = now();
        setvbuf(stdout, 0, _IOLBF, 0);
    }
    bool more() { return now() - t0 < secs; }
    std::mutex rmtx;
    unsigned long rnd(unsigned long n)
    {
        std::lock_guard<std::mutex> g(rmtx);
        return n ? rng() % n : 0;
    }
    bool chance(int pct) { return (int)rnd(100) < pct; }
    [[noreturn]] void fail(const char* fmt, ...)
    {
        char b[4000];
        va_list a;
        va_start(a, fmt);
        vsnprintf(b, sizeof b, fmt, a);
        va_end(a);
        for (char* c = b; *c; ++c)
            if (*c == '\n')
                *c = ' ';
        printf("CASES %lu\nFAIL property=%s seed=%lu case=%lu %s\n", cases, prop.c_str(), seed, cases, b);
        fflush(stdout);
        _exit(1);
    }
    int done()
    {
        printf("CASES %lu\n", cases);
        fflush(stdout);
        _exit(0);
    }
};
