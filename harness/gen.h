// Generators of component and tokenizer configurations.
#pragma once
#include "engine.h"
#include "json.h"
#include "ref.h"
#include "text.h"

struct NormOpts {
  bool prepend = true, replace = true, forms = true, bert = true, strips = true;
};
// the strings a configuration looks for or puts in: worth having in texts
void config_strings(const J& spec, std::vector<U>& out);
J gen_normalizer(Src& s, int depth, const NormOpts& o = NormOpts());
ref::Rx gen_rx(Src& s, int depth);
J gen_split(Src& s);
J gen_pre_tokenizer(Src& s, int depth, bool byte_level = true);

struct Vocab {
  std::vector<std::string> tokens;  // id = index
  std::vector<U> words;             // text hints
  J json() const;
};
J gen_wordpiece(Src& s, Vocab& v);
struct BpeOpts {
  bool byte_level = false;  // alphabet: the GPT-2 byte characters
  bool full_bytes = false;  // all 256 of them
  bool complete = false;    // never leave a character out
  bool affixes = true;      // continuing prefix / word suffix
  bool dropout = false;
  bool affix_bytes = false; // byte fallback together with affixes, which no reference covers
};
J gen_bpe(Src& s, Vocab& v, const BpeOpts& o);
J gen_template(Src& s, Vocab* v);
J gen_post(Src& s, int depth, Vocab* v);
J gen_decoder(Src& s, int depth);
J gen_truncation(Src& s);
J gen_padding(Src& s);
struct AddedOpts {
  int max = 5;
  bool specials = true;
  bool edge_space = true;   // contents that begin or end with white space
  bool must_special = false;
};
std::vector<ATok> gen_added(Src& s, const std::vector<U>& hints, const AddedOpts& o);

struct TokOpts {
  bool allow_added = true, allow_trunc = true, allow_pad = true, allow_post = true,
       allow_norm = true, allow_pre = true, allow_dec = true, allow_null_model = true,
       affix_bytes = false;
};
struct Config {
  J json;
  std::vector<U> hints;
  std::string family;
};
Config gen_config(Src& s, const TokOpts& o = TokOpts());
// broken or odd, from a configuration that is fine
std::string mutated_config(Src& s, const J& from);
U gen_text_for(Src& s, const Config& c, int max_pieces = 60);
// large in one way or another: vocabulary, added tokens, lengths in the options
void enlarge(Src& s, Config& c);
U gen_big_text_for(Src& s, const Config& c, int max = 2100);
// filler entries of two characters that nothing else uses
U filler(int i);
Enc gen_encoding(Src& s, int max_len, int depth, bool byte_tokens = false);
// many tokens (up to about 66000) with distinct ids, from a few different ones
Enc gen_big_encoding(Src& s, int max, bool byte_tokens = false);
std::string show(const Enc& e);
std::string show(const std::vector<Piece>& p);
std::string show(const std::vector<std::string>& t);
// first difference between two encodings, for messages
std::string diff(const Enc& want, const Enc& got);
