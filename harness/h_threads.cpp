// C27: concurrent first access to the market data store (ThreadSanitizer build, fresh process per case)
#include "gen.h"
#include <atomic>
#include <set>
#include <thread>
using namespace OptionPricer;

PROP(C27, concurrentFirstAccess, 800, 20000, 1, "at least two threads race for the first access") {
    int n = static_cast<int>(src.range(2, 12)); const int calls = static_cast<int>(src.range(1, 40)); const bool spin = src.flag();
    src.note(n, " threads, ", calls, " calls each");
    std::atomic<int> ready{0}; std::atomic<bool> go{false};
    std::vector<std::vector<MarketData*>> got(static_cast<size_t>(n)); std::vector<double> rates(static_cast<size_t>(n));
    std::vector<std::shared_ptr<MarketData>> keep(static_cast<size_t>(n));
    std::vector<std::thread> ts;
    const int planned = n;
    for (int i = 0; i < planned; ++i) try { ts.emplace_back([&, i] {
        ++ready; while (!go.load(std::memory_order_acquire)) { if (!spin) std::this_thread::yield(); }
        for (int k = 0; k < calls; ++k) { auto p = MarketData::getInstance(); got[static_cast<size_t>(i)].push_back(p.get()); rates[static_cast<size_t>(i)] = p->getR(); if (k == 0) keep[static_cast<size_t>(i)] = p; }
    }); } catch (const std::system_error&) { break; } // the machine has no more threads to give
    if (ts.empty()) return;
    n = static_cast<int>(ts.size()); keep.resize(static_cast<size_t>(n)); rates.resize(static_cast<size_t>(n), 0.05);
    while (ready.load() < n) std::this_thread::yield();
    go.store(true, std::memory_order_release);
    for (auto& t : ts) t.join();
    std::set<MarketData*> all; for (auto& v : got) all.insert(v.begin(), v.end());
    REQUIRE(all.size() == 1, all.size(), " different stores");
    REQUIRE(*all.begin() != nullptr, "null store");
    for (double r : rates) REQUIRE(r == 0.05, "rate ", r);
    MarketData::getInstance()->addStock("A", 1.0, 0.1);
    for (auto& p : keep) REQUIRE(p->getStockData("A")->getPrice() == 1.0, "stores differ");
    src.nontrivial();
}
