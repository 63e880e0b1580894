// server driver: the message handler without the stdin loop, the configuration readers, and a line-by-line reference parse.
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include "AllAttributesParser.h"
#include "CodeGroupsReader.h"
#include "CodesReader.h"
#include "JsonMessageHandler.h"
#include "Logger.h"
#include "MacrosDescReader.h"
#include "NCSettingsReader.h"
#include "WordGrammarReader.h"
#include "proto.h"
using namespace parser;
using namespace parser::fanuc;
using namespace nclangsrv;
using pr::In;
using pr::Out;

static void words(const word_map& m, Out& o)
{
    o.n((long long)m.size());
    for (auto& x : m) { auto& g = x.second; o.s(x.first).s(g.word).d(g.range_from).d(g.range_to).n(g.decimal_from).n(g.decimal_to).n(g.unique).n((int)g.word_type); }
}
template <typename M> static void axes(const M& m, Out& o) { o.n((long long)m.size()); for (auto& x : m) o.s(x.first).d(x.second); }
static void ncset(NCSettingsReader& r, Out& o)
{
    o.n((int)r.getMachineTool()).n((int)r.getMachineToolType()).n((int)r.getFanucParserType());
    auto mp = r.getMachinePointsData(); axes(mp.tool_exchange_point, o); axes(mp.machine_base_point, o);
    auto k = r.getKinematics();
    o.n((long long)k.cartesian_system_axis.size());
    for (auto& x : k.cartesian_system_axis) o.s(x.first).d(x.second.range_min).d(x.second.range_max);
    o.d(k.max_working_feed).d(k.max_fast_feed).d(k.maximum_spindle_speed).d(k.numer_of_items_in_the_warehouse).d(k.tool_exchange_time).d(k.pallet_exchange_time).d(k.tool_measurement_time)
        .n(k.diameter_programming_2x).n(k.auto_measure_after_tool_selection).s(k.pallet_exchange_code).s(k.pallet_exchange_code_value).s(k.tool_measurement_code).s(k.tool_measurement_code_value);
    auto c = r.getCncDefaultValues();
    o.n((int)c.default_motion).n((int)c.default_work_plane).n((int)c.default_driver_units).n((int)c.default_programming).n((int)c.default_feed_mode).n((int)c.default_rotation_direction)
        .n((int)c.drill_cycle_z_value).n((int)c.drill_cycle_return_value).d((double)c.default_rotation).n(c.rapid_traverse_cancel_cycle).n(c.linear_interpolation_cancel_cycle).n(c.circular_interpolation_cw_cancel_cycle)
        .n(c.circular_interpolation_ccw_cancel_cycle).n(c.cycle_cancel_starts_rapid_traverse).n(c.operator_turns_on_rotation).n(c.tool_number_executes_exchange).n(c.auto_rapid_traverse_after_tool_exchange);
    auto z = r.getZeroPoint(); o.d(z.x).d(z.y).d(z.z);
}
static void run(In& in, Out& o)
{
    auto cmd = in.tok();
    auto path = in.str();
    if (cmd == "grammar") { WordGrammarReader r(path, nullptr); o.n(r.read()); auto g = r.getWordGrammar(); words(g.metric, o); words(g.imperial, o); auto ops = r.getOperations(); o.n((long long)ops.size()); for (auto& x : ops) o.s(x); }
    else if (cmd == "groups") { CodeGroupsReader r(path, nullptr); o.n(r.read()); auto g = r.getCodeGroups(); o.n((long long)g.size()); for (auto& x : g) { o.n(x.first.code).n(x.first.rest).n((long long)x.second.size()); for (auto& s : x.second) o.s(s); } }
    else if (cmd == "codes") { CodesReader r(path, nullptr); o.n(r.read()); std::map<std::string, std::pair<std::string, std::string>> d; for (auto& x : r.getDesc()) d[x.first] = x.second; o.n((long long)d.size()); for (auto& x : d) o.s(x.first).s(x.second.first).s(x.second.second); auto c = r.getCodes(); o.n((long long)c.size()); for (auto& x : c) o.s(x); }
    else if (cmd == "macros") { auto u = in.str(); MacrosDescReader r(path, u, nullptr); o.n(r.read()); long long n = in.num(); for (long long i = 0; i < n; ++i) { auto d = r.getDesc(in.str()); o.s(d.first).s(d.second); } std::map<std::string, int> m; for (auto& x : r.getMacros()) m[x] = 1; o.n((long long)m.size()); for (auto& x : m) o.s(x.first); }
    else if (cmd == "ncset") { NCSettingsReader r(path, nullptr); o.n(r.read()); ncset(r, o); }
    else if (cmd == "srv") {
        // path: root folder holding conf/
        bool calc = in.flag(); auto nc = in.str(), md = in.str();
        NCSettingsReader r(nc, nullptr); JsonMessageHandler h(nullptr, path, r, calc, md);
        long long n = in.num();
        for (long long i = 0; i < n; ++i) {
            std::ostringstream cap; auto old = std::cout.rdbuf(cap.rdbuf()); std::string ex;
            try { h.parse(in.str()); } catch (const std::exception& e) { ex = e.what(); if (ex.empty()) ex = "exception"; }
            std::cout.rdbuf(old);
            if (ex.empty()) o.t("M").s(cap.str()); else o.t("EX").s(ex);
        }
    } else if (cmd == "ref") {
        auto nc = in.str();
        NCSettingsReader r(nc, nullptr); if (!nc.empty()) r.read();
        std::ostringstream t; t << r.getFanucParserType(); auto base = path + "/conf/" + t.str() + "/";
        WordGrammarReader g(base + "grammar.json", nullptr); CodeGroupsReader gg(base + "gcode_groups.json", nullptr), mg(base + "mcode_groups.json", nullptr);
        o.n(g.read() && gg.read() && mg.read());
        auto p = std::make_unique<AllAttributesParser>(g.getWordGrammar(), g.getOperations(), gg.getCodeGroups(), mg.getCodeGroups(), ParserSettings{true, true, true, true, true}, OtherSettings{ELanguage::English}, r.getFanucParserType());
        p->reset_macro_values();
        p->set_ncsettings(r.getMachineTool(), r.getMachineToolType(), r.getMachinePointsData(), r.getKinematics(), r.getCncDefaultValues(), r.getZeroPoint());
        FanucAttributeData v; long long n = in.num();
        for (long long i = 0; i < n; ++i) {
            int ln = (int)in.num(); auto s = in.str(); std::string m; v.value.clear(); bool ok = false;
            try { ok = p->parse(ln, s, v, m, true); } catch (const std::exception& e) { m = std::string("EX ") + e.what(); }
            o.t("L").n(ok).s(m);
            auto a = p->get_path_result(); auto b = p->get_time_result();
            o.d(a.total).d(a.work_motion).d(a.fast_motion).d(a.tool_total).s(a.tool_id).d(b.total).d(b.work_motion).d(b.fast_motion).d(b.tool_total);
        }
        auto mv = p->get_macro_values(); o.n((long long)mv.size()); for (auto& x : mv) o.n(x.first.id).n(x.first.line).d(x.second);
    } else o.t("badcmd");
}
int main()
{
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        Out o; In in(line);
        try { run(in, o); } catch (const std::exception& e) { o.t("EX").s(e.what()); }
        std::cout << o.os.str() << '\n' << std::flush;
    }
}
