// A source of market data of the user's own: live records, changed in place, next to the library's shared one.
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include "market_data/interface_market_data.h"
struct Own final : OptionPricer::IMarketData {
    using Rec = OptionPricer::StockData;
    std::map<std::string, std::shared_ptr<Rec>> m; double r = 0.05;
    void put(const std::string& t, const Rec& q) { auto& p = m[t]; if (p) *p = q; else p = std::make_shared<Rec>(q); }
    const Rec& at(const std::string& t) const { const auto i = m.find(t); if (i == m.end()) throw std::invalid_argument("unknown " + t); return *i->second; }
    void addStock(const std::string& t, double S, double s, std::optional<double> c) { put(t, Rec(S, s, c)); }
    void updateStockPrice(const std::string& t, double S) { const Rec q = at(t); put(t, Rec(S, q.getSigma(), q.getCoupon())); }
    void updateStockSigma(const std::string& t, double s) { const Rec q = at(t); put(t, Rec(q.getPrice(), s, q.getCoupon())); }
    void updateStockCoupon(const std::string& t, std::optional<double> c) { const Rec q = at(t); put(t, Rec(q.getPrice(), q.getSigma(), c)); }
    void addObserver(const std::shared_ptr<OptionPricer::MarketDataObserver>&) override {}
    void removeObserver() override {}
    std::shared_ptr<const Rec> getStockData(const std::string& t) const override { at(t); return m.at(t); }
    double getR() const override { return r; }
    void setR(const double& x) override { r = x; }
};
