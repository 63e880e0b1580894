// C interface driver: the exported functions, next to the same operation on a second parser called directly.
#include <map>
#include <memory>
#include "AllAttributesParser.h"
#include "AllAttributesParserWrapper.h"
#include "AllAttributesParserWrapperBase.h"
#include "ncset.h"

struct Cfg { FanucWordGrammar g; std::vector<std::string> ops; code_groups_map gc, mc; };
static std::map<std::string, Cfg> cfgs;

struct Words {
    std::vector<std::string> keys; std::vector<const char*> k; std::vector<WordGrammarWrapper> v;
    explicit Words(const word_map& m) {
        for (auto& x : m) keys.push_back(x.first);
        size_t i = 0;
        for (auto& x : m) {
            k.push_back(keys[i++].c_str());
            WordGrammarWrapper w{};
            w.word = const_cast<char*>(k.back()); w.range_from = x.second.range_from; w.range_to = x.second.range_to;
            w.decimal_from = x.second.decimal_from; w.decimal_to = x.second.decimal_to; w.unique = x.second.unique; w.word_type = x.second.word_type;
            v.push_back(w);
        }
    }
};
struct Groups {
    std::map<std::string, std::vector<CodeGroupValue>> m; std::vector<const char*> k; std::vector<CodeGroupValue> v; std::vector<int> n;
    explicit Groups(const code_groups_map& g) {
        for (auto& x : g) for (auto& s : x.second) m[s].push_back(x.first);
        for (auto& x : m) { k.push_back(x.first.c_str()); n.push_back((int)x.second.size()); for (auto& q : x.second) v.push_back(q); }
    }
};
static void op(AllAttributesParserWrapperBase* w, AllAttributesParser& p, In& in, Out& o)
{
    auto c = in.tok();
    if (c == "nc") {
        auto mt = (EMachineTool)in.num(); auto tp = (EMachineToolType)in.num();
        MachinePointsData mp; mp.tool_exchange_point = read_axes(in); mp.machine_base_point = read_axes(in);
        auto k = read_kin(in); auto cnc = read_cnc(in); ZeroPoint z{}; z.x = in.dbl(); z.y = in.dbl(); z.z = in.dbl();
        std::vector<char*> bk, tk; std::vector<double> bv, tv; std::vector<AxisParametersWrapper> ax;
        for (auto& x : mp.machine_base_point) { bk.push_back(const_cast<char*>(x.first.c_str())); bv.push_back(x.second); }
        for (auto& x : mp.tool_exchange_point) { tk.push_back(const_cast<char*>(x.first.c_str())); tv.push_back(x.second); }
        for (auto& x : k.cartesian_system_axis) ax.push_back({const_cast<char*>(x.first.c_str()), x.second.range_min, x.second.range_max});
        auto cc = [](const std::string& q) { return const_cast<char*>(q.c_str()); };
        KinematicsWrapper kw{k.max_working_feed, k.max_fast_feed, k.maximum_spindle_speed, k.numer_of_items_in_the_warehouse, k.tool_exchange_time, k.pallet_exchange_time, k.tool_measurement_time,
            k.diameter_programming_2x, k.auto_measure_after_tool_selection, cc(k.pallet_exchange_code), cc(k.pallet_exchange_code_value), cc(k.tool_measurement_code), cc(k.tool_measurement_code_value)};
        auto cnc2 = cnc; auto z2 = z;
        SetNCSettings(w, mt, tp, bk.data(), bv.data(), (int)bk.size(), tk.data(), tv.data(), (int)tk.size(), &kw, ax.data(), (int)ax.size(), &cnc2, &z2);
        p.set_ncsettings(mt, tp, std::move(mp), std::move(k), std::move(cnc), std::move(z)); o.t("ok");
        return;
    }
    if (c == "split" || c == "splits") {
        FileSplitting fs{}; fs.type = (FileSplittingType)in.num(); fs.step = (int)in.num(); fs.time = (int)in.num(); fs.path = (int)in.num();
        fs.text = in.str(); fs.rapid_traverse_only = in.flag(); fs.retraction_plane = in.str();
        FileSplittingWrapper fw{fs.type, fs.step, fs.time, fs.path, const_cast<char*>(fs.text.c_str()), fs.rapid_traverse_only, const_cast<char*>(fs.retraction_plane.c_str())};
        std::vector<std::string> d; long long n = in.num();
        for (long long i = 0; i < n; ++i) d.push_back(in.str());
        std::vector<const char*> ds; for (auto& x : d) ds.push_back(x.c_str());
        std::string m2; std::vector<std::vector<std::vector<AttributeVariant>>> v2;
        bool r2 = p.split_file(std::vector<std::string>(d), v2, m2, true, fs);
        char* msg = nullptr; int len = -1; bool r;
        o.t("r");
        if (c == "split") {
            WordValueWrapper* val = nullptr; int *vvl = nullptr, *vl = nullptr;
            r = SplitFile(w, &fw, ds.data(), (int)ds.size(), &val, &vvl, &vl, &len, &msg, true);
            o.n(r).s(msg ? msg : "").n(len);
            int b = 0; long long t = 0;
            for (int x = 0; x < len; ++x) { o.n(vl[x]); for (int y = 0; y < vl[x]; ++y, ++b) { o.n(vvl[b]); for (int z = 0; z < vvl[b]; ++z, ++t) o.s(val[t].word).s(val[t].value); } }
            DisposeSplitFile(val, vvl, vl, len);
        } else {
            char** val = nullptr;
            r = SplitFileString(w, &fw, ds.data(), (int)ds.size(), &val, &len, &msg, true);
            o.n(r).s(msg ? msg : "").n(len);
            for (int x = 0; x < len; ++x) o.s(val[x] ? val[x] : "");
            DisposeSplitFileString(val, len);
        }
        if (msg) DisposeCharArray(msg);
        o.t("r").n(r2).s(m2).n((long long)v2.size());
        for (auto& q : v2) { o.n((long long)q.size()); for (auto& b : q) o.block(b); }
        return;
    }
    WordValueWrapper* val = nullptr; int len = -1; char* msg = nullptr; bool r = false, r2 = false;
    FanucAttributeData v; std::string m2;
    int ln; std::string t;
    auto lt = [&] { ln = (int)in.num(); t = in.str(); };
    if (c == "parse") { lt(); r = ParseValue(w, ln, t.c_str(), &val, &len, &msg, true); r2 = p.parse(ln, t, v, m2, true);
    } else if (c == "conv") { lt(); auto d = (UnitConversionType)in.num(); r = ConvertLength(w, ln, t.c_str(), &val, &len, &msg, true, d); r2 = p.convert_length(ln, t, v, m2, true, d);
    } else if (c == "rmnum") { lt(); r = RemoveNumbering(w, ln, t.c_str(), &val, &len, &msg, true); r2 = p.remove_numbering(ln, t, v, m2, true);
    } else if (c == "rmcom") { lt(); r = RemoveComment(w, ln, t.c_str(), &val, &len, &msg, true); r2 = p.remove_comment(ln, t, v, m2, true);
    } else if (c == "rmopt") { lt(); r = RemoveOptionalBlock(w, ln, t.c_str(), &val, &len, &msg, true); r2 = p.remove_optional_block(ln, t, v, m2, true);
    } else if (c == "rot") { lt(); auto d = (AxesRotatingOption)in.num(); r = RotateAxes(w, ln, t.c_str(), &val, &len, &msg, true, d); r2 = p.rotate_axes(ln, t, v, m2, true, d);
    } else if (c == "renum") {
        RenumberSettings s; s.word = in.str(); s.step = (unsigned)in.num(); s.frequency = (unsigned)in.num();
        s.max_number = (unsigned)in.num(); s.existing_only = in.flag(); s.leading_zeroes = in.flag();
        lt();
        RenumberSettingsWrapper sw{const_cast<char*>(s.word.c_str()), s.step, s.frequency, s.max_number, s.existing_only, s.leading_zeroes};
        r = Renumber(w, ln, t.c_str(), &val, &len, &msg, true, &sw); r2 = p.renumber(ln, t, v, m2, true, s);
    } else { o.t("badop"); return; }
    o.t("r").n(r).s(msg ? msg : "").n(len < 0 ? 0 : len);
    for (int i = 0; i < len; ++i) o.s(val[i].word).s(val[i].value);
    DisposeWordValueWrapper(val, len); if (msg) DisposeCharArray(msg);
    o.t("r").n(r2).s(m2).block(v.value);
}

int main()
{
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        Out o; In in(line);
        auto cmd = in.tok();
        if (cmd == "cfg") {
            Cfg c; auto id = in.tok(); c.g.metric = read_words(in); c.g.imperial = read_words(in);
            long long n = in.num(); for (long long i = 0; i < n; ++i) c.ops.push_back(in.str());
            c.gc = read_groups(in); c.mc = read_groups(in); cfgs[id] = c; o.t("ok");
        } else if (cmd == "sess") {
            Cfg c = cfgs[in.tok()]; auto tp = (EFanucParserType)in.num(); OtherSettings os{}; os.language = (ELanguage)in.num();
            auto fl = read_flags(in); bool plain = in.flag();
            Words wm(c.g.metric), wi(c.g.imperial); Groups gc(c.gc), mc(c.mc);
            std::vector<const char*> ops; for (auto& x : c.ops) ops.push_back(x.c_str());
            auto w = CreateFanucAllAttributesParser(wm.k.data(), wm.v.data(), (int)wm.k.size(), wi.k.data(), wi.v.data(), (int)wi.k.size(), ops.data(), (int)ops.size(),
                gc.k.data(), gc.v.data(), (int)gc.k.size(), gc.n.data(), mc.k.data(), mc.v.data(), (int)mc.k.size(), mc.n.data(), &fl, &os, tp, plain);
            Cfg c2 = c; auto fl2 = fl; auto os2 = os;
            auto p = std::make_unique<AllAttributesParser>(std::move(c2.g), std::move(c2.ops), std::move(c2.gc), std::move(c2.mc), std::move(fl2), std::move(os2), tp, plain);
            long long n = in.num();
            for (long long i = 0; i < n; ++i) {
                o.t("|");
                Out q;
                try { op(w, *p, in, q); o.os << q.os.str(); }
                catch (const std::exception& e) { o.t("EX").s(e.what()); }
            }
            DisposeAllAttributesParser(w);
        } else o.t("badcmd");
        std::cout << o.os.str() << '\n' << std::flush;
    }
}
