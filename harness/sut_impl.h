// Only for sut*.cpp, which alone see the library's headers.
#pragma once
#define SUT_IMPL
#include "sut.h"

#include <stdexcept>
#include <type_traits>

#include "simdjson.h"
#include "tokenizers/added_vocabulary.h"
#include "tokenizers/common.h"
#include "tokenizers/decoder.h"
#include "tokenizers/model.h"
#include "tokenizers/normalizer.h"
#include "tokenizers/post_processor.h"
#include "tokenizers/pre_tokenizer.h"
#include "tokenizers/tokenizer.h"
#include "tokenizers/utils.h"

namespace sut {
struct Impl {
  std::unique_ptr<::PreTokenizedString> pts;
  std::unique_ptr<::Normalizer> norm;
  std::unique_ptr<::PreTokenizer> pre;
  std::unique_ptr<::Model> model;
  std::unique_ptr<::AddedVocabulary> added;
  std::unique_ptr<::PostProcessor> post;
  std::unique_ptr<::Decoder> dec;
  std::unique_ptr<::Truncation> trunc;
  std::unique_ptr<::Padding> pad;
  std::unique_ptr<::Tokenizer> tok;
};
inline std::wstring w(const std::u32string& s) { return std::wstring(s.begin(), s.end()); }
Enc out(const ::Encoding& e);
}  // namespace sut
