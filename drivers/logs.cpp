// Drives the logging service from several threads and records what was logged and what was delivered.
#include "logging/logging.h"
#include <atomic>
#include <cstring>
#include <map>
#include <thread>
#include <vector>

using namespace riptide::logging;
namespace
{
    uint32_t mix(uint32_t a, uint64_t b)
    {
        uint64_t x = (a + 0x9E3779B97F4A7C15ull * (b + 1));
        x ^= x >> 29;
        x *= 0xBF58476D1CE4E5B9ull;
        return (uint32_t)(x >> 32);
    }
    void stall(uint32_t h, int level)
    {
        if (! level || (h & 15) < 11)
            return;
        if ((h & 15) < 14)
            for (volatile uint32_t i = 0; i < (h >> 8) % (uint32_t)(2000 * level); i++)
                ;
        else
            std::this_thread::sleep_for(std::chrono::nanoseconds((h >> 8) % (uint32_t)(100000 * level)));
    }
    std::string text(uint32_t p, uint32_t i, uint32_t h)
    {
        std::string s;
        uint32_t n = (h & 31) == 0 ? 3000 : (h >> 5) % 40;
        for (uint32_t k = 0; k < n; k++)
            s += (char)(" %s{}\tabcdefghijklmnopqrstuvwxyz0123456789\xc3"[(h + k * 7) % 43]);
        return s;
    }
    struct Sent
    {
        uint8_t must, may; // must be delivered; may be delivered
    };
    constexpr loglevel LEVELS[]{ loglevel::debug, loglevel::info, loglevel::warn, loglevel::error, loglevel::critical };
}

struct LogParams
{
    int32_t producers, messages, batch, interval, maxsize, slow, delay, mode, cycles, timeout;
    uint32_t seed;
    int32_t minlevel, flip;
};
struct LogResult
{
    int64_t sent, must, delivered, twice, missing, forbidden, order, content, first, slowest_disable_us, epochs, leftover;
};

extern "C"
{
    // mode 0: log everything, then disable. mode 1: enable and disable while the producers go on. mode 2: the queue is full.
    void vp_log_service(const LogParams * p, LogResult * out)
    {
        std::vector<log_record> got;
        std::vector<std::vector<Sent>> sent(p->producers, std::vector<Sent>(p->messages));
        std::atomic<int> epoch{ 0 };
        int64_t slowest = 0;
        {
            logging_service svc_store;
            std::shared_ptr<logging_service> svc(&svc_store, [](logging_service *) {});
            std::vector<std::unique_ptr<logger>> logs;
            for (int t = 0; t < p->producers; t++)
            {
                logs.push_back(std::make_unique<logger>("name" + std::to_string(t), svc));
                logs.back()->set_level(loglevel(p->minlevel));
            }
            auto handler = [&]
            {
                // the same loop as the module's own handler
                auto last = std::chrono::steady_clock::now();
                std::vector<log_record> batch;
                uint64_t k = 0;
                while (svc->active())
                {
                    batch.clear();
                    while (batch.size() < svc->batch_size() && std::chrono::steady_clock::now() - last < svc->interval())
                    {
                        auto r = svc->receive();
                        if (! r)
                            break;
                        batch.push_back(std::move(r.value()));
                    }
                    last = std::chrono::steady_clock::now();
                    stall(mix(p->seed + 77, k++), p->slow);
                    for (auto & r : batch)
                        got.push_back(std::move(r));
                }
            };
            auto enable = [&]
            {
                svc->enable({ .batch_size = (uint32_t)p->batch, .flush_interval = std::chrono::milliseconds(p->interval),
                              .max_size = (uint32_t)p->maxsize });
                if (p->mode != 2)
                    svc->set_handler(handler);
            };
            auto disable = [&](bool timed)
            {
                auto t0 = std::chrono::steady_clock::now();
                if (timed)
                    svc->disable(std::chrono::milliseconds(p->timeout));
                else
                    svc->disable();
                int64_t us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
                slowest = std::max(slowest, us);
            };
            auto produce = [&](int t)
            {
                int pushed = 0;
                for (int i = 0; i < p->messages; i++)
                {
                    uint32_t h = mix(p->seed + t * 101, i);
                    stall(h, p->delay);
                    loglevel lv = LEVELS[(h >> 3) % 5];
                    std::string s = text(t, i, h);
                    int e0 = epoch.load();
                    logs[t]->log(lv, "{} {} {}", t, i, s);
                    int e1 = epoch.load();
                    bool wanted = (int)lv >= p->minlevel;
                    bool sure = p->flip ? (int)lv >= std::max(p->minlevel, p->flip) : wanted;
                    bool possible = p->flip ? (int)lv >= std::min(p->minlevel, p->flip) : wanted;
                    if (p->mode == 2 && wanted && ++pushed > p->maxsize)
                        sure = possible = false; // the queue is full: dropped by contract
                    sent[t][i] = { (uint8_t)(sure && e0 == e1 && (e0 & 1)), (uint8_t)(possible) };
                }
            };
            std::vector<std::thread> ts;
            std::atomic<bool> stop{ false };
            std::thread flipper;
            if (p->mode != 1)
            {
                enable();
                epoch++;
            }
            if (p->flip)
                flipper = std::thread(
                    [&]
                    {
                        for (uint32_t k = 0; ! stop; k++)
                        {
                            for (auto & l : logs)
                                l->set_level(loglevel(k & 1 ? p->minlevel : p->flip));
                            std::this_thread::yield();
                        }
                    });
            for (int t = 0; t < p->producers; t++)
                ts.emplace_back(produce, t);
            if (p->mode == 1)
                for (int k = 0; k < p->cycles; k++)
                {
                    stall(mix(p->seed + 5, k) | 15, p->delay + 1);
                    enable();
                    epoch++;
                    stall(mix(p->seed + 6, k) | 15, p->delay + 2);
                    epoch++;
                    disable(false);
                }
            for (auto & t : ts)
                t.join();
            stop = true;
            if (flipper.joinable())
                flipper.join();
            if (p->mode == 2)
                svc->set_handler(handler);
            if (p->mode != 1)
            {
                epoch++;
                disable(p->timeout >= 0);
            }
            // what a producer pushed after the last handler had left is delivered by the next one
            size_t before = got.size();
            svc->enable({ .batch_size = 50, .flush_interval = std::chrono::milliseconds(p->interval), .max_size = 1000000 });
            svc->set_handler(handler);
            disable(false);
            out->leftover = got.size() - before;
        }
        out->slowest_disable_us = slowest;
        out->epochs = epoch.load();
        out->delivered = got.size();
        out->first = -1;
        std::vector<std::vector<uint8_t>> seen(p->producers, std::vector<uint8_t>(p->messages));
        std::vector<int> last(p->producers, -1);
        for (size_t k = 0; k < got.size(); k++)
        {
            auto & r = got[k];
            int t = -1, i = -1, used = 0;
            if (sscanf(r.message.c_str(), "%d %d%n", &t, &i, &used) != 2 || t < 0 || t >= p->producers || i < 0 || i >= p->messages)
            {
                out->content++;
                continue;
            }
            uint32_t h = mix(p->seed + t * 101, i);
            if (r.message.substr(used + 1) != text(t, i, h) || r.level != LEVELS[(h >> 3) % 5] || r.name != "name" + std::to_string(t))
                out->content++;
            if (seen[t][i]++)
                out->twice++;
            if (i <= last[t])
                out->order++;
            last[t] = std::max(i, last[t]);
            if (! sent[t][i].may)
                out->forbidden++;
        }
        for (int t = 0; t < p->producers; t++)
            for (int i = 0; i < p->messages; i++)
            {
                out->sent++;
                out->must += sent[t][i].must;
                if (sent[t][i].must && ! seen[t][i])
                {
                    out->missing++;
                    if (out->first < 0)
                        out->first = (int64_t)t * 1000000 + i;
                }
            }
    }

    // producers on the module's own loggers
    void vp_log_module(const char * name, int producers, int messages, uint32_t seed, int delay, int level)
    {
        std::vector<std::thread> ts;
        for (int t = 0; t < producers; t++)
            ts.emplace_back(
                [=]
                {
                    auto l = get_logger(name);
                    for (int i = 0; i < messages; i++)
                    {
                        uint32_t h = mix(seed + t * 101, i);
                        stall(h, delay);
                        const char * tail = h % 7 == 0 ? " \xc3\xa9\xff%s{}\xe2" : "";
                        l->log(level ? loglevel(level) : LEVELS[(h >> 3) % 5], "{} {} {}{}", t, i, (h >> 9) % 1000, tail);
                    }
                });
        for (auto & t : ts)
            t.join();
    }
    uint32_t vp_log_mix(uint32_t a, uint64_t b)
    {
        return mix(a, b);
    }
    // registry from many threads
    int64_t vp_log_registry(int threads, int names, uint32_t seed)
    {
        std::vector<std::vector<std::shared_ptr<logger>>> got(threads, std::vector<std::shared_ptr<logger>>(names));
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; t++)
            ts.emplace_back(
                [&, t]
                {
                    for (int i = 0; i < names; i++)
                        got[t][i] = get_logger("vp" + std::to_string(seed) + "_" + std::to_string(i));
                });
        for (auto & t : ts)
            t.join();
        int64_t bad = 0;
        for (int t = 1; t < threads; t++)
            for (int i = 0; i < names; i++)
                bad += got[t][i] != got[0][i];
        return bad;
    }
}
