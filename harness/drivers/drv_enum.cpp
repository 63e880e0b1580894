// Converters between settings and their texts.
#include <sstream>
#include "GeneralParserDefines.h"
#include "fanuc/AllAttributesParserDefines.h"
#include "heidenhain/AllAttributesParserDefines.h"
#include "proto.h"
namespace parser {
#define D(T) std::string to_string(T); T to_##T(const std::string&);
D(ECncType) D(EFanucParserType) D(EMachineToolType) D(EMachineTool) D(ELanguage) D(EDriverUnits) D(UnitConversionType) D(AxesRotatingOption) D(EMotion) D(EWorkPlane)
D(EProgrammingType) D(EFeedMode) D(ERotationDirection) D(EDepthProgrammingType) D(EDrillGreturnMode)
namespace fanuc { D(WordType) }
namespace heidenhain { D(EBeginEnd) D(EUnit) }
}
using namespace parser; using namespace parser::fanuc; using namespace parser::heidenhain;
template <class T> static void conv(T (*rd)(const std::string&), std::string (*wr)(T), pr::In& in, pr::Out& o)
{
    auto c = in.tok();
    if (c == "w") {   // value -> text, and through the stream
        T e = (T)in.num();
        try { auto s = wr(e); std::ostringstream os; os << e; o.t("ok").s(s).s(os.str()); } catch (const std::exception& x) { o.t("ex"); }
    } else {          // text -> value, and through the stream
        auto s = in.str();
        try { int v = (int)rd(s); o.t("ok").n(v); } catch (const std::invalid_argument& x) { o.t("ex"); } catch (const std::exception& x) { o.t("other").s(x.what()); }
        std::istringstream is(s); T e{};
        try { is >> e; o.t("ok").n((int)e); } catch (const std::invalid_argument& x) { o.t("ex"); } catch (const std::exception& x) { o.t("other").s(x.what()); }
    }
}
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        pr::In in(line); pr::Out o; auto n = in.tok();
#define C(NS, T) if (n == #T) conv<NS::T>(&NS::to_##T, &NS::to_string, in, o);
        C(parser, ECncType) C(parser, EFanucParserType) C(parser, EMachineToolType) C(parser, EMachineTool) C(parser, ELanguage) C(parser, EDriverUnits) C(parser, UnitConversionType)
        C(parser, AxesRotatingOption) C(parser, EMotion) C(parser, EWorkPlane) C(parser, EProgrammingType) C(parser, EFeedMode) C(parser, ERotationDirection)
        C(parser, EDepthProgrammingType) C(parser, EDrillGreturnMode) C(parser::fanuc, WordType) C(parser::heidenhain, EBeginEnd) C(parser::heidenhain, EUnit)
        std::cout << o.os.str() << '\n' << std::flush;
    }
}
