// Drives CMathWorker (compiled here from the working tree's headers, linked against the module under test) with callbacks
// that count every element they are given. The counters are plain memory on purpose: a chunk run twice, or an effect that
// is not visible after the call returned, is a race for ThreadSanitizer and a wrong count for the monitor.
#include "MathWorker.h"
#include <atomic>
#include <cstring>
#include <map>
#include <mutex>
#include <thread>
#include <vector>
#include <time.h>

namespace
{
    struct Rec
    {
        int64_t start, len;
        int32_t core, late;
    };
    struct Job
    {
        uint8_t * counts = nullptr; // per element
        int64_t n = 0;
        Rec * recs = nullptr; // one slot per chunk or index
        int64_t nrecs = 0;
        std::atomic<int64_t> calls{ 0 };
        std::atomic<int32_t> inflight{ 0 }, maxinflight{ 0 };
        std::atomic<int32_t> late{ 0 }, bad{ 0 };
        std::atomic<bool> closed{ false };
        std::atomic<int64_t> stop_after{ -1 };
        uint32_t seed = 0;
        int32_t delay = 0;
        const uint8_t * input = nullptr; // written by the caller just before the job: must be visible to the workers
        std::atomic<int64_t> stale{ 0 };
        uint8_t stamp = 0;
    };

    uint32_t mix(uint32_t a, uint64_t b)
    {
        uint64_t x = (a + 0x9E3779B97F4A7C15ull * (b + 1));
        x ^= x >> 29;
        x *= 0xBF58476D1CE4E5B9ull;
        return (uint32_t)(x >> 32);
    }
    void stall(Job & j, uint64_t where, int core)
    {
        if (! j.delay)
            return;
        uint32_t h = mix(j.seed + (uint32_t)core * 7919u, where);
        if ((h & 7) < 5)
            return;
        if ((h & 7) < 7 || j.delay < 2)
        {
            for (volatile uint32_t i = 0; i < (h >> 8) % (uint32_t)(j.delay * 800); i++)
                ;
        }
        else
        {
            timespec t{ 0, (long)((h >> 8) % (uint32_t)(j.delay * 40000)) };
            nanosleep(&t, nullptr);
        }
    }
    void enter(Job & j)
    {
        if (j.closed.load())
            j.late++;
        int32_t v = ++j.inflight, m = j.maxinflight.load();
        while (v > m && ! j.maxinflight.compare_exchange_weak(m, v))
            ;
    }
    void leave(Job & j)
    {
        if (j.closed.load())
            j.late++;
        --j.inflight;
    }
    bool run(Job & j, int32_t core, int64_t start, int64_t len)
    {
        enter(j);
        stall(j, (uint64_t)start, core);
        int64_t c = j.calls++;
        if (start < 0 || len < (j.n > 0) || start + len > j.n)
            j.bad++;
        else
        {
            for (int64_t i = start; i < start + len; i++)
            {
                if (j.input && j.input[i] != j.stamp)
                    j.stale++;
                j.counts[i]++;
            }
            if (j.seed & 1)
                stall(j, (uint64_t)start ^ 0x5555, core);
        }
        if (c < j.nrecs)
        {
            j.recs[c].start = start;
            j.recs[c].len = len;
            j.recs[c].core = core;
        }
        if (j.stop_after.load() >= 0 && c >= j.stop_after.load())
            riptide::internal::interrupted_ = true;
        leave(j);
        return true;
    }
    bool chunk_cb(void * arg, int32_t core, int64_t start, int64_t len)
    {
        return run(*(Job *)arg, core, start, len);
    }
    bool index_cb(void * arg, int32_t core, int64_t idx)
    {
        return run(*(Job *)arg, core, idx, 1);
    }
    // GROUPBY_FUNC carries no core
    void group_cb(void * arg, int64_t idx)
    {
        run(*(Job *)arg, 0, idx, 1);
    }
    // a kernel of the third kind: claims blocks itself
    bool raw_cb(stMATH_WORKER_ITEM * it, int core, int64_t)
    {
        Job & j = *(Job *)it->WorkCallbackArg;
        bool did = false;
        int64_t len, blk;
        while ((len = it->GetNextWorkBlock(&blk)) > 0)
        {
            run(j, core + 1, blk * it->BlockSize, len);
            did = true;
            it->CompleteWorkBlock();
        }
        return did;
    }

    std::map<int, CMathWorker *> pools;
    CMathWorker * pool(int threads)
    {
        if (threads < 0)
            return g_cMathWorker;
        auto & p = pools[threads];
        if (! p)
        {
            p = new CMathWorker;
            p->WorkerThreadCount = threads;
            p->StartWorkerThreads(0);
        }
        return p;
    }
}

struct PoolResult
{
    int64_t calls, bad, late, inflight, maxinflight, notone, over, firstbad, stale, cores, unread;
};

extern "C"
{
    int64_t vp_pool_cores(int threads)
    {
        return pool(threads)->GetNumCores();
    }
    int vp_pool_wake(int threads, int n)
    {
        return pool(threads)->SetFutexWakeup(n);
    }
    void vp_pool_nothreading(int threads, int on)
    {
        pool(threads)->NoThreading = on;
    }
    // mode 0 chunks, 1 indices, 2 group by, 3 raw block kernel
    void vp_pool_job(int threads, int mode, int64_t n, int wake, uint32_t seed, int delay, int64_t stop_after, Rec * recs,
                     int64_t nrecs, uint8_t * counts, uint8_t * input, PoolResult * out)
    {
        CMathWorker * w = pool(threads);
        Job * j = new Job; // never freed: a late worker must find it intact
        j->counts = counts;
        j->n = n;
        j->recs = recs;
        j->nrecs = nrecs;
        j->seed = seed;
        j->delay = delay;
        j->stop_after = stop_after;
        j->stamp = (uint8_t)(seed * 31 + 7);
        j->input = input;
        if (input)
            memset(input, j->stamp, n);
        if (mode == 0)
            w->DoMultiThreadedChunkWork(n, chunk_cb, j, wake);
        else if (mode == 1)
            w->DoMultiThreadedWork((int)n, index_cb, j, wake);
        else if (mode == 2)
            w->WorkGroupByCall(group_cb, j, n);
        else
        {
            stMATH_WORKER_ITEM * it = w->GetWorkItem(n);
            if (it)
            {
                it->DoWorkCallback = raw_cb;
                it->WorkCallbackArg = j;
                w->WorkMain(it, n, wake);
            }
            else if (n)
                run(*j, 0, 0, n);
        }
        j->closed = true;
        out->inflight = j->inflight;
        riptide::internal::interrupted_ = false;
        // plain reads of everything the workers wrote
        int64_t notone = 0, over = 0, first = -1;
        for (int64_t i = 0; i < n; i++)
            if (counts[i] != 1)
            {
                notone++;
                over += counts[i] > 1;
                if (first < 0)
                    first = i;
            }
        out->notone = notone;
        out->over = over;
        out->firstbad = first;
        out->calls = j->calls;
        uint64_t cores = 0;
        int64_t unread = 0;
        for (int64_t i = 0; i < std::min<int64_t>(j->calls, nrecs); i++)
        {
            if (recs[i].core >= 0 && recs[i].core < 64)
                cores |= 1ull << recs[i].core;
            else
                unread++;
        }
        out->cores = (int64_t)cores;
        out->unread = unread;
        if (delay)
        {
            timespec t{ 0, (long)(mix(seed, 99) % 20000) };
            nanosleep(&t, nullptr);
        }
        out->bad = j->bad;
        out->late = j->late;
        out->maxinflight = j->maxinflight;
        out->stale = j->stale;
    }
    // a burst of jobs back to back; returns the index of the first wrong one, or -1
    int64_t vp_pool_burst(int threads, int mode, int64_t n, int jobs, uint32_t seed, int delay, PoolResult * out)
    {
        std::vector<uint8_t> counts(n), input(n);
        std::vector<Rec> recs(4096);
        for (int k = 0; k < jobs; k++)
        {
            std::fill(counts.begin(), counts.end(), 0);
            int64_t m = n - (int64_t)(mix(seed, k) % 7);
            vp_pool_job(threads, mode, m, 1 + mix(seed, k + 1000) % 12, seed + k, delay, -1, recs.data(), 4096, counts.data(), input.data(), out);
            if (out->notone || out->bad || out->late || out->inflight || out->stale)
                return k;
        }
        return -1;
    }
    int64_t vp_pool_segment(int threads, int64_t bins, int64_t maxcores, int64_t * lo, int64_t * hi, int64_t cap)
    {
        stBinCount * p = nullptr;
        int64_t c = pool(threads)->SegmentBins(bins, maxcores, &p);
        for (int64_t i = 0; i < c && i < cap; i++)
        {
            lo[i] = p[i].BinLow;
            hi[i] = p[i].BinHigh;
            if (p[i].BinNum != i)
                lo[i] = -1;
        }
        WORKSPACE_FREE(p);
        return c;
    }
}
