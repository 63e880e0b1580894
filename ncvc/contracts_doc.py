TRUSTED = [
    "clang 18 front end (JSON AST of the real source files; nothing hand-copied)",
    "ncvc symbolic executor / VC generator (/verif/ncvc: expression, statement, exception, loop and memory rules)",
    "z3 and cvc5",
    "assumed contracts of the C++ standard library and boost containers/strings/optional/variant (listed below as used)",
]
ASSUMPTIONS = [
    "text is treated as a sequence of 7-bit characters",
    "int/unsigned arithmetic is treated as mathematical integers unless the property lists overflow obligations; double arithmetic is treated as real arithmetic",
    "partial correctness: termination of loops is not proved",
    "no aliasing between distinct by-reference parameters of the entry functions",
]
