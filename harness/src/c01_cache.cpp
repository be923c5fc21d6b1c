// C01: the in-memory cache is an insert-once map.
#include "Cache.hpp"
#include "vp.hpp"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <thread>

namespace {

struct Key {
    int a;
    std::string b;
    bool operator==(const Key &o) const { return a == o.a && b == o.b; }
    bool operator<(const Key &o) const { return a != o.a ? a < o.a : b < o.b; }
};
int hash_mod = 1; // how badly the hash collides
struct KeyHash {
    size_t operator()(const Key &k) const {
        return hash_mod == 0 ? std::hash<std::string>()(k.b) ^ static_cast<size_t>(k.a)
                             : static_cast<size_t>(k.a) % hash_mod;
    }
};
struct Val {
    std::string s;
    std::vector<double> v;
    bool operator==(const Val &o) const { return s == o.s && v == o.v; }
};

Key gen_key(vp::Src &src, int universe) {
    Key k;
    k.a = static_cast<int>(src.pick(0, universe));
    k.b = std::string(src.pick(0, 2), 'x');
    return k;
}
Val gen_val(vp::Src &src, int &counter) {
    Val v;
    v.s = "v" + std::to_string(counter++);
    v.v.assign(src.pick(0, 3), src.sym(1e6));
    return v;
}
} // namespace

VP_FACET("model-sequence", 100000, 2000000,
         "the sequence contains a refused duplicate store and a successful lookup, or a lookup/store after a clear") {
    hash_mod = static_cast<int>(src.of({1, 0, 2, 3}));
    int universe = static_cast<int>(src.of({0, 2, 6, 40}));
    Cache<Key, Val, KeyHash> cache;
    std::map<Key, Val> model;
    int counter = 0, dup = 0, hit = 0, clears = 0, after_clear = 0;
    long n = src.size(1, 120);
    VP_NOTE("hash_mod=" << hash_mod << " universe=" << universe << " ops:");
    for (long i = 0; i < n; ++i) {
        int op = static_cast<int>(src.pick(0, 9));
        if (op < 4) {
            Key k = gen_key(src, universe);
            Val v = gen_val(src, counter);
            VP_NOTE(" S(" << k.a << k.b << ")");
            bool threw = false;
            try {
                cache.save(k, v);
            } catch (const std::exception &) {
                threw = true;
            }
            bool fresh = model.emplace(k, v).second;
            VP_CHECK(threw == !fresh,
                     (fresh ? "a first store of a key was refused"
                            : "a second store of a key was silently accepted"));
            dup += !fresh;
            after_clear += clears > 0;
        } else if (op < 9) {
            Key k = gen_key(src, universe);
            VP_NOTE(" R(" << k.a << k.b << ")");
            auto r = cache.restore(k);
            auto it = model.find(k);
            VP_CHECK(static_cast<bool>(r) == (it != model.end()),
                     "lookup presence differs from the model");
            if (r) {
                VP_CHECK(*r == it->second, "lookup returned '" << r->s << "' instead of the first stored '"
                                                               << it->second.s << "'");
                r->s = "modified by the caller"; // must be a private copy
                ++hit;
                after_clear += clears > 0;
            }
        } else if (src.chance(1, 4)) {
            VP_NOTE(" C");
            cache.clear();
            model.clear();
            ++clears;
        }
    }
    for (const auto &e : model) {
        auto r = cache.restore(e.first);
        VP_CHECK(r && *r == e.second, "a stored value was lost or changed at the end of the history");
    }
    vp::nontrivial((dup && hit) || after_clear);
    if (dup) {
        vp::label("refused-duplicate");
    }
    if (clears) {
        vp::label("with-clear");
    }
}

VP_FACET("caller-modifies-arguments", 3000, 60000, "a value is looked up after the caller changed its own copies") {
    Cache<std::string, std::vector<int>> cache;
    std::map<std::string, std::vector<int>> model;
    long n = src.size(1, 40);
    for (long i = 0; i < n; ++i) {
        std::string k(src.pick(0, 20), static_cast<char>('a' + src.pick(0, 2)));
        std::vector<int> v(src.pick(0, 5), static_cast<int>(i));
        VP_NOTE(" " << k << ":" << v.size());
        if (model.emplace(k, v).second) {
            cache.save(k, v);
        }
        std::string k0 = k;
        k += "changed";
        v.push_back(-1);
        auto r = cache.restore(k0);
        VP_CHECK(r && *r == model[k0], "value not as first stored");
        r->push_back(7);
        auto r2 = cache.restore(k0);
        VP_CHECK(r2 && *r2 == model[k0], "changing a returned value changed the cache");
        VP_CHECK(!cache.restore(k) || model.count(k), "unstored key found");
    }
    vp::nontrivial(n >= 2);
}

// Concurrent phase: the key type owns the schedule.  Its comparison, which only the map inside the
// cache calls, waits a moment so that another thread that is not kept out gets in.
namespace {
struct RaceKey {
    int a;
    static std::atomic<int> in_any, in_save, overlaps;
    static thread_local bool saving;
    bool operator==(const RaceKey &o) const {
        int any = in_any.fetch_add(1);
        int sv = saving ? in_save.fetch_add(1) : in_save.load();
        if (saving ? any > 0 : sv > 0) {
            overlaps.fetch_add(1);
        }
        std::this_thread::yield();
        if ((saving ? in_any.load() > 1 : in_save.load() > 0)) {
            overlaps.fetch_add(1);
        }
        if (saving) {
            in_save.fetch_sub(1);
        }
        in_any.fetch_sub(1);
        return a == o.a;
    }
};
std::atomic<int> RaceKey::in_any{0}, RaceKey::in_save{0}, RaceKey::overlaps{0};
thread_local bool RaceKey::saving = false;
struct RaceHash {
    size_t operator()(const RaceKey &) const { return 7; }
};
} // namespace

VP_FACET("race-store-lookup", 2000, 40000, "two or more threads store the same keys") {
    int nthreads = static_cast<int>(src.pick(2, 6));
    int nkeys = static_cast<int>(src.pick(1, 12));
    std::vector<std::vector<int>> plan(nthreads);
    for (auto &p : plan) {
        long n = src.pick(1, 60);
        for (long i = 0; i < n; ++i) {
            p.push_back(static_cast<int>(src.pick(0, 2 * nkeys - 1))); // even: save, odd: restore
        }
    }
    VP_NOTE("threads=" << nthreads << " keys=" << nkeys << " plan0=" << vp::show(plan[0]));
    Cache<RaceKey, std::vector<int>, RaceHash> cache;
    std::vector<std::atomic<int>> winner(nkeys), wins(nkeys);
    for (auto &w : winner) {
        w = -1;
    }
    for (auto &w : wins) {
        w = 0;
    }
    RaceKey::overlaps = 0;
    std::atomic<int> bad{0}, go{0};
    std::vector<std::thread> th;
    for (int t = 0; t < nthreads; ++t) {
        th.emplace_back([&, t] {
            go.fetch_add(1);
            while (go.load() < nthreads) {
                std::this_thread::yield();
            }
            std::vector<int> seen(nkeys, -1);
            for (int step : plan[t]) {
                int k = step / 2;
                if (step % 2 == 0) {
                    RaceKey::saving = true;
                    try {
                        cache.save(RaceKey{k}, std::vector<int>(3, t));
                        wins[k].fetch_add(1);
                        winner[k] = t;
                        seen[k] = t;
                    } catch (const std::runtime_error &) {
                    }
                    RaceKey::saving = false;
                    // after a store (ours or refused) the key must be there
                    auto r = cache.restore(RaceKey{k});
                    if (!r || r->size() != 3) {
                        bad.fetch_add(1);
                    }
                } else {
                    auto r = cache.restore(RaceKey{k});
                    if (r) {
                        if (r->size() != 3 || (*r)[0] != (*r)[2]) {
                            bad.fetch_add(1);
                        } else if (seen[k] != -1 && seen[k] != (*r)[0]) {
                            bad.fetch_add(1);
                        } else {
                            seen[k] = (*r)[0];
                        }
                    } else if (seen[k] != -1) {
                        bad.fetch_add(1);
                    }
                }
            }
        });
    }
    for (auto &t : th) {
        t.join();
    }
    VP_CHECK(bad == 0, "a concurrent lookup lost, tore or changed a value");
    bool contended = false;
    for (int k = 0; k < nkeys; ++k) {
        auto r = cache.restore(RaceKey{k});
        VP_CHECK(wins[k] <= 1, "key " << k << " was stored successfully " << wins[k] << " times");
        VP_CHECK(static_cast<bool>(r) == (wins[k] == 1), "presence after the race");
        VP_CHECK(!r || (*r)[0] == winner[k], "value is not the one of the winning store");
        int attempts = 0;
        for (auto &p : plan) {
            attempts += std::count(p.begin(), p.end(), 2 * k) > 0;
        }
        contended = contended || attempts > 1;
    }
    VP_CHECK(RaceKey::overlaps == 0,
             "a store was not exclusive: another thread was inside the map at the same time");
    vp::nontrivial(contended);
}

VP_FACET("race-clear", 800, 16000, "clears run while other threads store and look up") {
    int nthreads = static_cast<int>(src.pick(2, 5));
    int rounds = static_cast<int>(src.pick(5, 40));
    VP_NOTE("threads=" << nthreads << " rounds=" << rounds);
    Cache<int, std::vector<int>> cache;
    std::atomic<int> bad{0}, go{0};
    std::vector<std::thread> th;
    for (int t = 0; t < nthreads; ++t) {
        th.emplace_back([&, t] {
            go.fetch_add(1);
            while (go.load() < nthreads) {
                std::this_thread::yield();
            }
            for (int i = 0; i < rounds * 20; ++i) {
                if (t == 0) {
                    cache.clear();
                    continue;
                }
                int k = i % 5;
                try {
                    cache.save(k, std::vector<int>(4, k));
                } catch (const std::runtime_error &) {
                }
                auto r = cache.restore(k);
                if (r && *r != std::vector<int>(4, k)) {
                    bad.fetch_add(1);
                }
            }
        });
    }
    for (auto &t : th) {
        t.join();
    }
    VP_CHECK(bad == 0, "a lookup during clears returned a value that was never stored");
    vp::nontrivial(true);
}
