#ifndef VERIF_VAL_FLEXLEXER_H_
#define VERIF_VAL_FLEXLEXER_H_
#include <iostream>
class yyFlexLexer {
 public:
  void switch_streams(std::istream* in, std::ostream* out) {
    in_ = in;
    out_ = out;
  }
  std::istream* in_ = nullptr;
  std::ostream* out_ = nullptr;
};
#endif
