// Readers of configuration values shared by the drivers.
#pragma once
#include "proto.h"
#include "CodeGroupsDefines.h"
#include "MacroDefines.h"

using namespace parser;
using namespace parser::fanuc;
using pr::In;
using pr::Out;

inline macro_map read_macros(In& in)
{
    macro_map m;
    long long n = in.num();
    for (long long i = 0; i < n; ++i) {
        macro_map_key k;
        k.id = (unsigned)in.num(); k.line = (int)in.num();
        m[k] = in.dbl();
    }
    return m;
}
inline void dump_macros(Out& o, const macro_map& m)
{
    o.n((long long)m.size());
    for (const auto& x : m) o.n(x.first.id).n(x.first.line).d(x.second);
}
inline code_groups_map read_groups(In& in)
{
    code_groups_map g;
    long long n = in.num();
    for (long long i = 0; i < n; ++i) {
        CodeGroupValue v{};
        v.code = (unsigned)in.num(); v.rest = (unsigned)in.num();
        long long k = in.num();
        auto& s = g[v];
        for (long long j = 0; j < k; ++j) s.insert(in.str());
    }
    return g;
}
inline word_map read_words(In& in)
{
    word_map g;
    long long n = in.num();
    for (long long i = 0; i < n; ++i) {
        WordGrammar w{};
        w.word = in.str(); w.range_from = (int)in.num(); w.range_to = (int)in.num();
        w.decimal_from = (unsigned)in.num(); w.decimal_to = (unsigned)in.num();
        w.unique = in.flag(); w.word_type = (WordType)in.num();
        g[w.word] = w;
    }
    return g;
}
