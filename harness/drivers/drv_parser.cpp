// Parser-level driver: sessions on the real AllAttributesParser.
#include <map>
#include <memory>
#include "AllAttributesParser.h"
#include "ncset.h"

struct Cfg { FanucWordGrammar g; std::vector<std::string> ops; code_groups_map gc, mc; };
static std::map<std::string, Cfg> cfgs;

static void op(AllAttributesParser& p, In& in, Out& o)
{
    auto c = in.tok();
    FanucAttributeData v; std::string msg;
    if (c == "nc") {
        auto mt = (EMachineTool)in.num(); auto tp = (EMachineToolType)in.num();
        MachinePointsData mp; mp.tool_exchange_point = read_axes(in); mp.machine_base_point = read_axes(in);
        auto k = read_kin(in); auto cnc = read_cnc(in); ZeroPoint z{}; z.x = in.dbl(); z.y = in.dbl(); z.z = in.dbl();
        p.set_ncsettings(mt, tp, std::move(mp), std::move(k), std::move(cnc), std::move(z)); o.t("ok");
    } else if (c == "flags") {
        p.set_parser_settings(read_flags(in)); o.t("ok");
    } else if (c == "parse") {
        int ln = (int)in.num(); auto t = in.str();
        bool r = p.parse(ln, t, v, msg, true); o.t("r").n(r).s(msg).block(v.value);
    } else if (c == "parsem") {
        int ln = (int)in.num(); auto t = in.str();
        bool r = p.parse(ln, t, msg, true); o.t("r").n(r).s(msg);
    } else if (c == "parsef") {
        auto f = read_flags(in); int ln = (int)in.num(); auto t = in.str();
        bool r = p.parse(ln, t, v, msg, true, f); o.t("r").n(r).s(msg).block(v.value);
    } else if (c == "conv") {
        int ln = (int)in.num(); auto t = in.str(); auto d = (UnitConversionType)in.num();
        bool r = p.convert_length(ln, t, v, msg, true, d); o.t("r").n(r).s(msg).block(v.value);
    } else if (c == "rmnum" || c == "rmcom" || c == "rmopt") {
        int ln = (int)in.num(); auto t = in.str();
        bool r = c == "rmnum" ? p.remove_numbering(ln, t, v, msg, true) : c == "rmcom" ? p.remove_comment(ln, t, v, msg, true) : p.remove_optional_block(ln, t, v, msg, true);
        o.t("r").n(r).s(msg).block(v.value);
    } else if (c == "renum") {
        RenumberSettings s; s.word = in.str(); s.step = (unsigned)in.num(); s.frequency = (unsigned)in.num();
        s.max_number = (unsigned)in.num(); s.existing_only = in.flag(); s.leading_zeroes = in.flag();
        int ln = (int)in.num(); auto t = in.str();
        bool r = p.renumber(ln, t, v, msg, true, s); o.t("r").n(r).s(msg).block(v.value);
    } else if (c == "rot") {
        int ln = (int)in.num(); auto t = in.str(); auto d = (AxesRotatingOption)in.num();
        bool r = p.rotate_axes(ln, t, v, msg, true, d); o.t("r").n(r).s(msg).block(v.value);
    } else if (c == "split") {
        FileSplitting fs{}; fs.type = (FileSplittingType)in.num(); fs.step = (int)in.num(); fs.time = (int)in.num(); fs.path = (int)in.num();
        fs.text = in.str(); fs.rapid_traverse_only = in.flag(); fs.retraction_plane = in.str();
        std::vector<std::string> d; long long n = in.num();
        for (long long i = 0; i < n; ++i) d.push_back(in.str());
        std::vector<std::vector<std::vector<AttributeVariant>>> out;
        bool r = p.split_file(std::move(d), out, msg, true, fs);
        o.t("r").n(r).s(msg).n((long long)out.size());
        for (auto& q : out) { o.n((long long)q.size()); for (auto& b : q) o.block(b); }
    } else if (c == "macros") {
        const auto& m = p.get_macro_values();
        o.n((long long)m.size());
        for (const auto& x : m) o.n(x.first.id).n(x.first.line).d(x.second);
    } else if (c == "mreset") { p.reset_macro_values(in.flag()); o.t("ok");
    } else if (c == "preset") { p.reset_attributes_path_calculator(); o.t("ok");
    } else if (c == "rstart") { p.set_renumber_start_value((unsigned)in.num()); o.t("ok");
    } else if (c == "rreset") { p.renumber_reset(); o.t("ok");
    } else if (c == "path") {
        const auto& r = p.get_path_result();
        o.d(r.total).d(r.work_motion).d(r.fast_motion).d(r.tool_total).s(r.tool_id).d(r.cycle_distance.first).d(r.cycle_distance.second).n(r.hole_number);
    } else if (c == "time") {
        const auto& r = p.get_time_result();
        o.d(r.total).d(r.work_motion).d(r.fast_motion).d(r.tool_total).s(r.tool_id);
    } else if (c == "range") {
        const auto& w = p.get_word_range();
        o.n((long long)w.size());
        for (const auto& x : w) o.s(x.first).d(std::get<0>(x.second)).d(std::get<1>(x.second)).d(std::get<2>(x.second));
    } else if (c == "units") { o.n((int)p.get_unit_system());
    } else o.t("badop");
}

int main()
{
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        Out o; In in(line);
        auto cmd = in.tok();
        if (cmd == "cfg") {
            Cfg c; auto id = in.tok(); c.g.metric = read_words(in); c.g.imperial = read_words(in);
            long long n = in.num(); for (long long i = 0; i < n; ++i) c.ops.push_back(in.str());
            c.gc = read_groups(in); c.mc = read_groups(in); cfgs[id] = c; o.t("ok");
        } else if (cmd == "sess") {
            // sess CFG PARSERTYPE LANG FLAGS PLAIN NOPS ops...
            Cfg c = cfgs[in.tok()]; auto tp = (EFanucParserType)in.num(); OtherSettings os{}; os.language = (ELanguage)in.num();
            auto fl = read_flags(in); bool plain = in.flag();
            auto p = std::make_unique<AllAttributesParser>(std::move(c.g), std::move(c.ops), std::move(c.gc), std::move(c.mc), std::move(fl), std::move(os), tp, plain);
            long long n = in.num();
            for (long long i = 0; i < n; ++i) {
                o.t("|");
                Out q;
                try { op(*p, in, q); o.os << q.os.str(); }
                catch (const std::exception& e) { o.t("EX").s(e.what()); }
            }
        } else o.t("badcmd");
        std::cout << o.os.str() << '\n' << std::flush;
    }
}
