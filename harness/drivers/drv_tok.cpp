// Token-level driver: calls the real components of /repo/parser on decoded inputs.
#include "proto.h"
#include <cmath>
#include <map>
#include "AxesRotator.h"
#include "CodeGroupsVerifier.h"
#include "FileSplitter.h"
#include "MacroEvaluatedCodeVerifier.h"
#include "MacroEvaluator.h"
#include "MessageTextImpl.h"
#include "PathCalculator.h"
#include "RangeVerifier.h"
#include "Renumberer.h"
#include "RotationVerifier.h"
#include "SameWordInBlockVerifier.h"
#include "SystemMacroAssigner.h"
#include "UniqueCode.h"
#include "UnitConverter.h"
#include "ValueCalculator.h"
#include "util.h"
#include "cfg.h"

static CncDefaultValues read_defaults(In& in)
{
    CncDefaultValues c{};
    c.operator_turns_on_rotation = in.flag();
    c.tool_number_executes_exchange = in.flag();
    return c;
}
static PathResult mkpath(double tt, const std::string& tool)
{
    PathResult p{};
    p.tool_total = tt; p.tool_id = tool; p.total = tt; p.work_motion = tt;
    return p;
}

static void run(const std::string& line, Out& o)
{
    In in(line);
    std::string cmd = in.tok();
    if (cmd == "sameword") {
        auto lang = (ELanguage)in.num(); auto w = in.str(); auto b = in.block();
        SameWordInBlockVerifier v; v(w, b, lang); o.t("ok");
    } else if (cmd == "unique") {
        auto lang = (ELanguage)in.num(); auto g = read_words(in); auto b = in.block();
        UniqueCode v; v(g, b, lang); o.t("ok");
    } else if (cmd == "groups") {
        auto lang = (ELanguage)in.num(); bool rep = in.flag(); int ln = (int)in.num();
        auto m = read_macros(in); auto g = read_groups(in); auto mm = read_groups(in); auto b = in.block();
        CodeGroupsVerifier v; v(m, g, mm, ln, b, lang, rep); o.t("ok");
    } else if (cmd == "range1") {
        auto lang = (ELanguage)in.num(); auto tp = (EMachineToolType)in.num();
        Kinematics k{}; k.maximum_spindle_speed = (int)in.num(); k.numer_of_items_in_the_warehouse = (int)in.num(); k.max_working_feed = in.dbl();
        auto b = in.block();
        RangeVerifier v; v(tp, k, b, lang); o.t("ok");
    } else if (cmd == "range2") {
        auto lang = (ELanguage)in.num();
        Kinematics k{}; long long n = in.num();
        for (long long i = 0; i < n; ++i) { auto w = in.str(); AxisParameters a; a.range_min = in.dbl(); a.range_max = in.dbl(); k.cartesian_system_axis[w] = a; }
        ZeroPoint z; z.x = in.dbl(); z.y = in.dbl(); z.z = in.dbl();
        word_range_map w; n = in.num();
        for (long long i = 0; i < n; ++i) { auto s = in.str(); double a = in.dbl(), b = in.dbl(), c = in.dbl(); w[s] = std::make_tuple(a, b, c); }
        RangeVerifier v; v(k, z, w, lang); o.t("ok");
    } else if (cmd == "rot") {
        auto lang = (ELanguage)in.num(); CncDefaultValues c = read_defaults(in);
        RotationVerifier v; long long n = in.num();
        for (long long i = 0; i < n; ++i) {
            auto b = in.block();
            try { v(c, b, lang); o.t("ok"); }
            catch (const rotation_verifier_exception& e) { o.t("ex").s(e.what()); }
        }
    } else if (cmd == "sysmacro") {
        int ln = (int)in.num(); auto m = read_macros(in); auto b = in.block();
        SystemMacroAssigner a; a(m, ln, b); dump_macros(o, m);
    } else if (cmd == "macroeval") {
        auto lang = (ELanguage)in.num(); bool single = in.flag(); int ln = (int)in.num();
        auto m = read_macros(in); auto b = in.block();
        std::string msg;
        bool r = MacroEvaluator::evaluate(m, ln, b, msg, single, lang);
        o.n(r).s(msg); dump_macros(o, m);
    } else if (cmd == "mecv") {
        auto lang = (ELanguage)in.num(); int ln = (int)in.num();
        std::vector<std::string> al; long long n = in.num();
        for (long long i = 0; i < n; ++i) al.push_back(in.str());
        auto m = read_macros(in); auto b = in.block();
        MacroEvaluatedCodeVerifier v; auto r = v(al, m, ln, b, lang); o.t("ok").s(r);
    } else if (cmd == "axes") {
        auto op = (AxesRotatingOption)in.num(); auto b = in.block();
        AxesRotator r; r(op, b); o.block(b);
    } else if (cmd == "unit") {
        FanucWordGrammar g; g.metric = read_words(in); g.imperial = read_words(in);
        UnitConverter u(g); long long n = in.num();
        for (long long i = 0; i < n; ++i) {
            int dir = (int)in.num(); auto b = in.block();
            try { if (dir == 0) u.mm_to_inch(b); else u.inch_to_mm(b); o.t("ok").block(b); }
            catch (const std::exception& e) { o.t("ex").s(e.what()); }
        }
    } else if (cmd == "renum") {
        FanucWordGrammar g; g.metric = read_words(in);
        Renumberer r(g); long long n = in.num();
        for (long long i = 0; i < n; ++i) {
            auto op = in.tok();
            if (op == "start") r.set_start_value((unsigned)in.num());
            else if (op == "reset") r.reset();
            else if (op == "remove") { auto b = in.block(); r.remove(b); o.block(b); }
            else {
                RenumberSettings s; s.word = in.str(); s.step = (unsigned)in.num(); s.frequency = (unsigned)in.num();
                s.max_number = (unsigned)in.num(); s.existing_only = in.flag(); s.leading_zeroes = in.flag();
                auto b = in.block(); r.renumber(b, s); o.block(b);
            }
        }
    } else if (cmd == "split") {
        auto kind = in.tok(); auto lang = (ELanguage)in.num(); CncDefaultValues c = read_defaults(in);
        FileSplitting fs{}; fs.step = (int)in.num(); fs.time = (int)in.num(); fs.path = (int)in.num(); fs.text = in.str(); fs.rapid_traverse_only = in.flag();
        fs.type = (FileSplittingType)in.num();
        if (kind == "text") {
            std::vector<std::string> d; long long n = in.num();
            for (long long i = 0; i < n; ++i) d.push_back(in.str());
            FileSplitter f(fs, lang); auto r = f.evaluate(std::move(d));
            o.t("ok").n((long long)r.size());
            for (auto& p : r) { o.n((long long)p.size()); for (auto& s : p) o.s(s); }
        } else {
            auto ret = in.block();
            std::vector<std::vector<AttributeVariant>> d; long long n = in.num();
            for (long long i = 0; i < n; ++i) d.push_back(in.block());
            std::vector<std::vector<std::vector<AttributeVariant>>> v;
            FileSplitter f(fs, lang);
            if (kind == "plain") f.evaluate(c, std::move(d), ret, v);
            else if (kind == "path") {
                std::vector<PathResult> pr; n = in.num();
                for (long long i = 0; i < n; ++i) { double t = in.dbl(); auto s = in.str(); pr.push_back(mkpath(t, s)); }
                f.evaluate(c, std::move(d), ret, v, pr);
            } else {
                std::vector<TimeResult> tr; n = in.num();
                for (long long i = 0; i < n; ++i) { TimeResult t{}; t.tool_total = in.dbl(); t.tool_id = in.str(); t.total = t.tool_total; t.work_motion = t.tool_total; tr.push_back(t); }
                f.evaluate(c, std::move(d), ret, v, tr);
            }
            o.t("ok").n((long long)v.size());
            for (auto& p : v) { o.n((long long)p.size()); for (auto& b : p) o.block(b); }
        }
    } else if (cmd == "calc") {
        auto lang = (ELanguage)in.num(); bool single = in.flag(); auto m = read_macros(in); auto e = in.str();
        ValueCalculator vc; std::string msg; double val = -12345.5;
        bool r = vc.parse(e, msg, single, m, val, lang);
        o.n(r).s(msg).d(val);
    } else if (cmd == "trunc") {
        o.s(to_string_trunc(in.dbl()));
    } else if (cmd == "lead") {
        long long v = in.num(); int n = (int)in.num();
        o.s(to_string_leading_zeroes((unsigned)v, n));
    } else if (cmd == "msgs") {
        for (int l = 0; l < 2; ++l) {
            const auto& t = l == 0 ? get_message_text_en() : get_message_text_pl();
            o.n((int)MessageName::COUNT);
            for (int i = 0; i < (int)MessageName::COUNT; ++i) {
                o.n((int)t[i].msg_name).n((long long)t[i].msg_list.size());
                for (auto& s : t[i].msg_list) o.s(std::string(s));
            }
        }
    } else if (cmd == "mk") {
        // mk KIND NAME LANG N args
        int kind = (int)in.num(); auto nm = (MessageName)in.num(); auto lang = (ELanguage)in.num(); int n = (int)in.num();
        std::vector<std::string> a; for (int i = 0; i < n; ++i) a.push_back(in.str());
        std::string r;
        if (kind == 0) {
            if (n == 0) r = make_message(nm, lang);
            else if (n == 1) r = make_message(nm, lang, a[0]);
            else if (n == 2) r = make_message(nm, lang, a[0], a[1]);
            else if (n == 3) r = make_message(nm, lang, a[0], a[1], a[2]);
            else r = make_message(nm, lang, a[0], a[1], a[2], a[3]);
        } else if (kind == 1) {
            if (n == 1) r = make_message2(nm, lang, a[0]);
            else if (n == 2) r = make_message2(nm, lang, a[0], a[1]);
            else r = make_message2(nm, lang, a[0], a[1], a[2]);
        } else {
            if (n == 1) r = make_stream_message(nm, lang, a[0]);
            else if (n == 2) r = make_stream_message(nm, lang, a[0], a[1]);
            else r = make_stream_message(nm, lang, a[0], a[1], a[2]);
        }
        o.s(r);
    } else if (cmd == "geo") {
        // geo FUNCTION N numbers
        std::string f = in.tok(); int n = (int)in.num(); std::vector<double> a; for (int i = 0; i < n; ++i) a.push_back(in.dbl());
        double r = -1e300;
        if (f == "G2_G17" && n == 6) r = PathCalculator::G2_G17(a[0], a[1], a[2], a[3], a[4], a[5]);
        if (f == "G2_G17" && n == 4) r = PathCalculator::G2_G17(a[0], a[1], a[2], a[3]);
        if (f == "G2_G18" && n == 6) r = PathCalculator::G2_G18(a[0], a[1], a[2], a[3], a[4], a[5]);
        if (f == "G2_G18" && n == 4) r = PathCalculator::G2_G18(a[0], a[1], a[2], a[3]);
        if (f == "G2_G19" && n == 6) r = PathCalculator::G2_G19(a[0], a[1], a[2], a[3], a[4], a[5]);
        if (f == "G2_G19" && n == 4) r = PathCalculator::G2_G19(a[0], a[1], a[2], a[3]);
        if (f == "G3_G17" && n == 6) r = PathCalculator::G3_G17(a[0], a[1], a[2], a[3], a[4], a[5]);
        if (f == "G3_G17" && n == 4) r = PathCalculator::G3_G17(a[0], a[1], a[2], a[3]);
        if (f == "G3_G18" && n == 6) r = PathCalculator::G3_G18(a[0], a[1], a[2], a[3], a[4], a[5]);
        if (f == "G3_G18" && n == 4) r = PathCalculator::G3_G18(a[0], a[1], a[2], a[3]);
        if (f == "G3_G19" && n == 6) r = PathCalculator::G3_G19(a[0], a[1], a[2], a[3], a[4], a[5]);
        if (f == "G3_G19" && n == 4) r = PathCalculator::G3_G19(a[0], a[1], a[2], a[3]);
        if (f == "G2G3_G17" && n == 5) r = PathCalculator::G2G3_G17(a[0], a[1], a[2], a[3], a[4]);
        if (f == "G2G3_G17" && n == 3) r = PathCalculator::G2G3_G17(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG17" && n == 4) r = PathCalculator::G2G3_HelixG17(a[0], a[1], a[2], a[3]);
        if (f == "G2G3_HelixG17" && n == 3) r = PathCalculator::G2G3_HelixG17(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG17_Quarter" && n == 4) r = PathCalculator::G2G3_HelixG17_Quarter(a[0], a[1], a[2], a[3]);
        if (f == "G2G3_HelixG17_Quarter" && n == 3) r = PathCalculator::G2G3_HelixG17_Quarter(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG17R" && n == 3) r = PathCalculator::G2G3_HelixG17R(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG17R" && n == 2) r = PathCalculator::G2G3_HelixG17R(a[0], a[1]);
        if (f == "G2G3_HelixG17_QuarterR" && n == 3) r = PathCalculator::G2G3_HelixG17_QuarterR(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG17_QuarterR" && n == 2) r = PathCalculator::G2G3_HelixG17_QuarterR(a[0], a[1]);
        if (f == "G2G3_HelixG17_ArchimedesLparam" && n == 3) r = PathCalculator::G2G3_HelixG17_ArchimedesLparam(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG17_ArchimedesQparam" && n == 3) r = PathCalculator::G2G3_HelixG17_ArchimedesQparam(a[0], a[1], a[2]);
        if (f == "G2G3_G18" && n == 5) r = PathCalculator::G2G3_G18(a[0], a[1], a[2], a[3], a[4]);
        if (f == "G2G3_G18" && n == 3) r = PathCalculator::G2G3_G18(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG18" && n == 4) r = PathCalculator::G2G3_HelixG18(a[0], a[1], a[2], a[3]);
        if (f == "G2G3_HelixG18" && n == 3) r = PathCalculator::G2G3_HelixG18(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG18_Quarter" && n == 4) r = PathCalculator::G2G3_HelixG18_Quarter(a[0], a[1], a[2], a[3]);
        if (f == "G2G3_HelixG18_Quarter" && n == 3) r = PathCalculator::G2G3_HelixG18_Quarter(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG18R" && n == 3) r = PathCalculator::G2G3_HelixG18R(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG18R" && n == 2) r = PathCalculator::G2G3_HelixG18R(a[0], a[1]);
        if (f == "G2G3_HelixG18_QuarterR" && n == 3) r = PathCalculator::G2G3_HelixG18_QuarterR(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG18_QuarterR" && n == 2) r = PathCalculator::G2G3_HelixG18_QuarterR(a[0], a[1]);
        if (f == "G2G3_HelixG18_ArchimedesLparam" && n == 3) r = PathCalculator::G2G3_HelixG18_ArchimedesLparam(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG18_ArchimedesQparam" && n == 3) r = PathCalculator::G2G3_HelixG18_ArchimedesQparam(a[0], a[1], a[2]);
        if (f == "G2G3_G19" && n == 5) r = PathCalculator::G2G3_G19(a[0], a[1], a[2], a[3], a[4]);
        if (f == "G2G3_G19" && n == 3) r = PathCalculator::G2G3_G19(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG19" && n == 4) r = PathCalculator::G2G3_HelixG19(a[0], a[1], a[2], a[3]);
        if (f == "G2G3_HelixG19" && n == 3) r = PathCalculator::G2G3_HelixG19(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG19_Quarter" && n == 4) r = PathCalculator::G2G3_HelixG19_Quarter(a[0], a[1], a[2], a[3]);
        if (f == "G2G3_HelixG19_Quarter" && n == 3) r = PathCalculator::G2G3_HelixG19_Quarter(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG19R" && n == 3) r = PathCalculator::G2G3_HelixG19R(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG19R" && n == 2) r = PathCalculator::G2G3_HelixG19R(a[0], a[1]);
        if (f == "G2G3_HelixG19_QuarterR" && n == 3) r = PathCalculator::G2G3_HelixG19_QuarterR(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG19_QuarterR" && n == 2) r = PathCalculator::G2G3_HelixG19_QuarterR(a[0], a[1]);
        if (f == "G2G3_HelixG19_ArchimedesLparam" && n == 3) r = PathCalculator::G2G3_HelixG19_ArchimedesLparam(a[0], a[1], a[2]);
        if (f == "G2G3_HelixG19_ArchimedesQparam" && n == 3) r = PathCalculator::G2G3_HelixG19_ArchimedesQparam(a[0], a[1], a[2]);
        if (f == "G0" && n == 6) r = PathCalculator::G0(a[0], a[1], a[2], a[3], a[4], a[5]);
        if (f == "G0" && n == 3) r = PathCalculator::G0(a[0], a[1], a[2]);
        if (f == "G1" && n == 6) r = PathCalculator::G1(a[0], a[1], a[2], a[3], a[4], a[5]);
        if (f == "G1" && n == 3) r = PathCalculator::G1(a[0], a[1], a[2]);
        if (f == "G2G3_HelixLast" && n == 1) r = PathCalculator::G2G3_HelixLast(a[0]);
        o.d(r);
    } else if (cmd == "drill") {
        // drill PLANE FORM DEPTHTYPE GMODE RETURN six numbers
        std::string pl = in.tok(); int form = (int)in.num(); auto dt = (EDepthProgrammingType)in.num(); auto gm = (EDrillGmode)in.num(); auto gr = (EDrillGreturnMode)in.num();
        double a[6]; for (auto& x : a) x = in.dbl();
        std::pair<double, double> v{-1e300, -1e300};
        if (pl == "G17") {
            if (form == 0) v = PathCalculator::DrillCyclePath_G17(a[0], a[1], a[2], dt, gm, gr);
            if (form == 1) v = PathCalculator::DrillCyclePath_G17(a[0], a[1], a[2], a[3], dt, gm, gr);
            if (form == 2) v = PathCalculator::DrillCyclePath_G17(a[1], a[2], gm, gr);
            if (form == 3) v = PathCalculator::DrillCyclePath_G17(a[1], a[2], a[3], gm, gr);
            if (form == 4) v = PathCalculator::DrillCyclePathHole_G17(a[0], a[1], a[2], a[3], std::make_pair(a[4], a[5]));
            if (form == 5) v = PathCalculator::DrillCyclePathHole_G17(a[0], a[1], std::make_pair(a[4], a[5]));
        }
        if (pl == "G18") {
            if (form == 0) v = PathCalculator::DrillCyclePath_G18(a[0], a[1], a[2], dt, gm, gr);
            if (form == 1) v = PathCalculator::DrillCyclePath_G18(a[0], a[1], a[2], a[3], dt, gm, gr);
            if (form == 2) v = PathCalculator::DrillCyclePath_G18(a[1], a[2], gm, gr);
            if (form == 3) v = PathCalculator::DrillCyclePath_G18(a[1], a[2], a[3], gm, gr);
            if (form == 4) v = PathCalculator::DrillCyclePathHole_G18(a[0], a[1], a[2], a[3], std::make_pair(a[4], a[5]));
            if (form == 5) v = PathCalculator::DrillCyclePathHole_G18(a[0], a[1], std::make_pair(a[4], a[5]));
        }
        if (pl == "G19") {
            if (form == 0) v = PathCalculator::DrillCyclePath_G19(a[0], a[1], a[2], dt, gm, gr);
            if (form == 1) v = PathCalculator::DrillCyclePath_G19(a[0], a[1], a[2], a[3], dt, gm, gr);
            if (form == 2) v = PathCalculator::DrillCyclePath_G19(a[1], a[2], gm, gr);
            if (form == 3) v = PathCalculator::DrillCyclePath_G19(a[1], a[2], a[3], gm, gr);
            if (form == 4) v = PathCalculator::DrillCyclePathHole_G19(a[0], a[1], a[2], a[3], std::make_pair(a[4], a[5]));
            if (form == 5) v = PathCalculator::DrillCyclePathHole_G19(a[0], a[1], std::make_pair(a[4], a[5]));
        }
        o.d(v.first).d(v.second);
    } else
        o.t("badcmd");
}

int main()
{
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        Out o;
        try { run(line, o); }
        catch (const code_groups_exception& e) { o.os.str(""); o.t("ex").t("code_groups_exception").s(e.what()); }
        catch (const same_word_verifier_exception& e) { o.os.str(""); o.t("ex").t("same_word_verifier_exception").s(e.what()); }
        catch (const unique_code_exception& e) { o.os.str(""); o.t("ex").t("unique_code_exception").s(e.what()); }
        catch (const range_verifier_exception& e) { o.os.str(""); o.t("ex").t("range_verifier_exception").s(e.what()); }
        catch (const macro_evaluated_code_exception& e) { o.os.str(""); o.t("ex").t("macro_evaluated_code_exception").s(e.what()); }
        catch (const file_splitter_exception& e) { o.os.str(""); o.t("ex").t("file_splitter_exception").s(e.what()); }
        catch (const std::exception& e) { o.os.str(""); o.t("ex").t("std").s(e.what()); }
        std::cout << o.os.str() << '\n' << std::flush;
    }
}
