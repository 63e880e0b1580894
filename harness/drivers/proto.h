// Line protocol shared by the drivers: blank-separated tokens, strings as "=HEX", absent optionals as "-".
#pragma once
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <cstring>
#include <boost/variant.hpp>
#include "GeneralParserDefines.h"
#include "AllAttributesParserDefines.h"

namespace pr {
using parser::fanuc::AttributeVariant;
using parser::fanuc::DecimalAttributeData;
using parser::fanuc::StringAttributeData;
using parser::fanuc::CharAttributeData;

inline std::string hex(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string o = "=";
    for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
    return o;
}
inline int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
inline std::string unhex(const std::string& t)
{
    std::string o;
    for (size_t i = 1; i + 1 < t.size(); i += 2) o += char(nib(t[i]) * 16 + nib(t[i + 1]));
    return o;
}
struct In
{
    std::istringstream is;
    explicit In(const std::string& l) : is(l) {}
    std::string tok() { std::string t; is >> t; return t; }
    std::string str() { return unhex(tok()); }
    boost::optional<std::string> ostr()
    {
        std::string t = tok();
        if (t == "-") return boost::none;
        return unhex(t);
    }
    boost::optional<char> ochr()
    {
        auto s = ostr();
        if (!s || s->empty()) return boost::none;
        return (*s)[0];
    }
    long long num() { return std::stoll(tok()); }
    double dbl() { return std::strtod(tok().c_str(), nullptr); }
    bool flag() { return num() != 0; }
    std::vector<AttributeVariant> block()
    {
        std::vector<AttributeVariant> v;
        long long n = num();
        for (long long i = 0; i < n; ++i) {
            std::string k = tok();
            if (k == "D") {
                DecimalAttributeData d;
                d.word = str(); d.assign = ochr(); d.sign = ochr(); d.open_bracket = ostr(); d.macro = ostr();
                d.value = ostr(); d.dot = ochr(); d.value2 = ostr(); d.close_bracket = ostr();
                v.push_back(d);
            } else if (k == "S") {
                StringAttributeData d; d.word = str(); d.value = str(); v.push_back(d);
            } else {
                CharAttributeData d; d.word = str(); d.value = str()[0]; v.push_back(d);
            }
        }
        return v;
    }
};
struct Out
{
    std::ostringstream os;
    Out& t(const std::string& s) { os << ' ' << s; return *this; }
    Out& s(const std::string& s) { os << ' ' << hex(s); return *this; }
    Out& n(long long v) { os << ' ' << v; return *this; }
    Out& d(double v) { char b[64]; std::snprintf(b, sizeof b, " %.17g", v); os << b; return *this; }
    Out& o(const boost::optional<std::string>& v) { os << ' ' << (v ? hex(*v) : std::string("-")); return *this; }
    Out& o(const boost::optional<char>& v) { os << ' ' << (v ? hex(std::string(1, *v)) : std::string("-")); return *this; }
    struct Vis : boost::static_visitor<> {
        Out& o_;
        explicit Vis(Out& o) : o_(o) {}
        void operator()(const DecimalAttributeData& d) const
        {
            o_.t("D").s(d.word).o(d.assign).o(d.sign).o(d.open_bracket).o(d.macro).o(d.value).o(d.dot).o(d.value2).o(d.close_bracket);
        }
        void operator()(const StringAttributeData& d) const { o_.t("S").s(d.word).s(d.value); }
        void operator()(const CharAttributeData& d) const { o_.t("C").s(d.word).s(std::string(1, d.value)); }
    };
    Out& block(const std::vector<AttributeVariant>& v)
    {
        n((long long)v.size());
        for (const auto& e : v) { Vis vis(*this); boost::apply_visitor(vis, e); }
        return *this;
    }
};
} // namespace pr
