// Instantiates the message templates of /repo's MessageTextImpl.h, so that their real bodies appear in the AST.
#include "stdafx.h"

#include "MessageTextImpl.h"

namespace parser {
namespace fanuc {
using S = const std::string&;
#define INST(F)                                                                                                        \
    std::string i1_##F(MessageName m, ELanguage l, S a) { return F(m, l, a); }                                         \
    std::string i2_##F(MessageName m, ELanguage l, S a, S b) { return F(m, l, a, b); }                                 \
    std::string i3_##F(MessageName m, ELanguage l, S a, S b, S c) { return F(m, l, a, b, c); }                         \
    std::string i4_##F(MessageName m, ELanguage l, S a, S b, S c, S d) { return F(m, l, a, b, c, d); }
INST(make_message)
INST(make_message2)
INST(make_stream_message)
std::string i0_make_message(MessageName m, ELanguage l) { return make_message(m, l); }
} // namespace fanuc
} // namespace parser
