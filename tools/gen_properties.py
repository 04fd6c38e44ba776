#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Kept as a script so the text stays readable."""
import json, os
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=quant),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Every encoding is well-formed and its arrays stay parallel",
  "For every configuration and every text, the encoding that encode returns, and each of its overflowing encodings, has ids, type_ids, tokens, words, offsets, special_tokens_mask and attention_mask of one common length. Masks hold only 0 and 1; attention is 0 exactly on padding, special_tokens_mask is 1 exactly on padding and on tokens the post-processing template inserted; inserted tokens and padding have offsets (0,0), every other token has 0 <= start <= end <= number of characters of the input, and word indices of text tokens never decrease from left to right. Every id other than a padding or template id is one that the model vocabulary maps to the reported token string, or the id of an added token, reported as the text it matched (its content up to normalization and stripped white space).",
  ["inputs","configurations"],"all texts x all configurations of the supported components (normalizers, pre-tokenizers, WordPiece/BPE, truncation, padding, templates, added tokens)",
  "the one end-to-end test checks one BERT config on one ASCII sentence, and it is not even linked in this build; array parallelism across truncation windows, overflow, padding and templates is never observed",
  ["src/tokenizer.cpp","src/utils.cpp","src/post_processor.cpp","src/common.cpp"],
  [("into_encoding","src/tokenizer.cpp"),("truncate / pad","src/utils.cpp"),("TemplateProcessing::process","src/post_processor.cpp")],
  ["Tokenizer::encode"])
p("C02","Offsets delimit the piece of input text a token was made from",
  "For every text, the offsets of each token that came from the text are the smallest range of characters (Unicode code points) of the original input from which that token's characters were produced, whatever the normalizer erased, decomposed, composed, replaced, padded or prepended before it and whatever the pre-tokenizer dropped (a combining sequence that a Unicode normalization form rewrites counts as one unit, replaced text comes from the whole match, an inserted character from the character it was put next to). Where the token's text is unchanged by normalization, slicing the input at the offsets gives back the token's text (without its sub-word prefix or suffix); offsets never run backwards from one token to the next.",
  ["inputs","configurations"],"all texts, in particular texts mixing removed characters, decomposing/composing characters, CJK, multi-character replacements and characters outside the BMP, x all normalizer/pre-tokenizer/model combinations",
  "tests compare offsets for a handful of ASCII sentences; no test observes an offset after a normalizer changed the length of the text or after a character outside the BMP",
  ["src/normalizer.cpp","src/tokenizer.cpp","src/added_vocabulary.cpp","src/pre_tokenizer.cpp","src/model.cpp"],
  [("NormalizedString offsets/offset_ranges and transform/transform_range","src/normalizer.cpp"),("into_encoding","src/tokenizer.cpp"),("split_normalized","src/pre_tokenizer.cpp")],
  ["Tokenizer::encode(...).offsets"],
  [("NormalizedString::offsets","original range of each normalized character","include/tokenizers/normalizer.h")])
p("C03","WordPiece segments each word by greedy longest match",
  "For every vocabulary and word, the WordPiece model's tokens are exactly those of greedy longest-match-first segmentation: the first piece is the longest prefix in the vocabulary, each next piece the longest following part that, with the continuation prefix put in front, is in the vocabulary. If the word is longer than the configured maximum number of characters or cannot be segmented to its end, the result is the single unknown token covering the whole word. Token ids are the vocabulary's ids, and token offsets tile the word in characters without gap or overlap.",
  ["inputs","configurations"],"all vocabularies (including with prefixes of each other, non-ASCII and supplementary-plane pieces, empty vocabulary), all words, all prefixes, unknown tokens and length limits",
  "five tests, each one ASCII word against a vocabulary of at most three entries; none is linked in this build",
  ["src/model.cpp"],[("WordPiece::tokenize","src/model.cpp")],["Model::tokenize"])
p("C04","BPE applies merges strictly by rank, leftmost first",
  "For every vocabulary, merge list and word, the BPE model's tokens are exactly those obtained by starting from the word's characters (with the continuation prefix / end-of-word suffix where configured) and repeatedly merging the adjacent pair with the lowest merge rank, the leftmost one first among equals, until no pair can be merged. Characters absent from the vocabulary become byte tokens when byte fallback is on and every byte token exists, otherwise the unknown token (adjacent ones fused when so configured), and with ignore_merges a word that is itself in the vocabulary is one token. Token offsets tile the word when every character is represented. With dropout p, every time a merge is next in line it is passed over with probability p, at random anew for every word and call, until one is applied or all have been passed over.",
  ["inputs","configurations"],"all vocabularies, merge lists (conflicting ranks, overlapping pairs, chains), words of any characters, all flag combinations; with dropout the result must still be a segmentation into vocabulary tokens reachable by listed merges",
  "three tests use one 16-entry vocabulary and ASCII words; a wrong merge order, multi-byte characters and expired queue entries are not exercised, and none is linked in this build",
  ["src/model.cpp","include/tokenizers/model.h"],
  [("Word::merge_all","src/model.cpp"),("BPE::merge_word","src/model.cpp"),("Merge::operator<","include/tokenizers/model.h")],["Model::tokenize"])
p("C05","Results do not depend on what was processed before",
  "Encoding or decoding a text with a tokenizer (without dropout, which is random) gives the same result as the first call of a freshly constructed tokenizer with the same configuration and the same added tokens, whatever was encoded or decoded before, how often, in which order, and whichever other tokenizers were used in between. Neither encode nor decode changes any later result.",
  ["histories","inputs"],"all interleavings of encode/decode/model calls over several live tokenizers with different configurations, including repeated words and words shared between tokenizers",
  "every test makes one or two calls on a fresh object; the model's word cache and any shared state are never hit twice with a comparison",
  ["src/model.cpp","src/tokenizer.cpp","src/added_vocabulary.cpp"],
  [("BPE::tokenize_with_cache","src/model.cpp")],["Tokenizer::encode","Tokenizer::decode","Model::tokenize"],
  [("BPE::cache","word -> merged symbols, filled by const tokenize","include/tokenizers/model.h")])
p("C06","NFC, NFD, NFKC and NFKD produce exactly those Unicode forms",
  "For every text, each Unicode normalizer's result is the corresponding Unicode normalization form of the whole input: nothing lost, added or left unnormalized, at any length and position, including characters outside the BMP, Hangul, and expansions to many characters. Normalizing a result again with the same form changes nothing, and text already in the form comes back identical.",
  ["inputs"],"all Unicode texts, including empty ones and ones mixing combining sequences in any order",
  "one composed or decomposed example per form",
  ["src/normalizer.cpp"],[("NFC/NFD/NFKC/NFKD::normalize","src/normalizer.cpp")],["Normalizer::normalize"])
p("C07","BERT normalization does exactly its four documented steps",
  "For every text and every setting of the flags, the BERT normalizer (1) when cleaning, drops NUL, U+FFFD and control/format/private-use characters other than tab, newline and carriage return and turns every whitespace character into one space, (2) when handling Chinese characters, surrounds exactly the characters of the CJK ideograph blocks that BERT names with spaces, (3) when stripping accents (or when that is unset and lowercasing is on), decomposes canonically and drops non-spacing marks, (4) when lowercasing, lowercases every character of any script; in this order, touching nothing else. A step whose flag is off leaves the text alone.",
  ["inputs","configurations"],"all Unicode texts x the flag combinations true/false/null",
  "four tests, each one flag on one short, mostly ASCII sentence",
  ["src/normalizer.cpp"],[("BertNormalizer::normalize and do_*","src/normalizer.cpp")],["Normalizer::normalize(...).normalized"])
p("C08","Prepend, Replace, Strip and StripAccents edit exactly what they name",
  "For every text: Prepend puts its string once in front of a non-empty text and leaves an empty one alone; Replace substitutes every non-overlapping occurrence, left to right, of its literal pattern, of any length and containing any characters, by its content, of any length; Strip removes exactly the leading and/or trailing whitespace it is configured for; StripAccents removes exactly the combining marks. All other characters are kept in order.",
  ["inputs","configurations"],"all texts, patterns and contents, including empty content, multi-character patterns, and patterns with characters that are special in regular expressions",
  "one ASCII sentence each with a one-character pattern replaced by one character",
  ["src/normalizer.cpp"],[("Prepend/Replace/Strip/StripAccents::normalize","src/normalizer.cpp")],["Normalizer::normalize(...).normalized"])
p("C09","BERT and Split pre-tokenizers partition the text without loss",
  "For every text, pre-tokenization yields pieces in text order whose texts are exactly the slices of the normalized text at their offsets, and the pieces together with the removed delimiters make up the whole text with nothing duplicated or lost. The BERT pre-tokenizer removes exactly the whitespace and makes every punctuation character (ASCII punctuation/symbols and Unicode punctuation) a piece of its own; Split keeps (Isolated) or drops (Removed) exactly the matches of its pattern, the non-matches when inverted, and no piece is empty. Pieces already holding an added token are passed through untouched.",
  ["inputs","configurations"],"all texts, in particular runs of delimiters, delimiters at either end, non-ASCII whitespace/punctuation and characters outside the BMP; patterns including ones that match the empty string",
  "three sentences; offsets after non-ASCII characters outside the BMP, empty matches and the Removed behaviour are never tested",
  ["src/pre_tokenizer.cpp"],[("find_matches, split_normalized, PreTokenizedString::split","src/pre_tokenizer.cpp")],["PreTokenizer::pre_tokenize(...).splits"])
p("C10","Byte-level pre-tokenization and decoding are lossless for every text",
  "For every text, byte-level pre-tokenization maps each byte of its UTF-8 form to its own visible character of the GPT-2 byte alphabet, one character per byte, and byte-level decoding of the resulting pieces (or of any split of them into tokens) gives back exactly the original bytes, preceded by one space only where a prefix space was configured and needed. The alphabet is a bijection between the 256 byte values and 256 distinct characters, and with the regex on, the pieces are exactly those of the GPT-2 pattern.",
  ["inputs","configurations"],"all Unicode texts (every byte value that occurs in UTF-8), all segmentations of the mapped text, both flags",
  "two ASCII sentences with the regex off and one decode of ASCII text",
  ["src/pre_tokenizer.cpp","src/decoder.cpp","src/common.cpp"],
  [("bytes_char","src/common.cpp"),("ByteLevelPreTokenizer::pre_tokenize","src/pre_tokenizer.cpp"),("ByteLevelDecoder::decode_chain","src/decoder.cpp")],["pre_tokenize + decode_chain"])
p("C11","Added tokens are found wherever they occur and never broken up",
  "For every set of added tokens and every text, the text is cut at the leftmost-longest, non-overlapping occurrences of the added tokens (non-normalized ones in the raw text first, normalized ones in the normalized remainder), honouring single_word, lstrip and rstrip; each occurrence becomes exactly one token with the added token's id, and the text between occurrences is normalized and tokenized as it would be on its own. Occurrences are recognised next to any character, not only after a space.",
  ["inputs","configurations"],"all token sets (tokens that are prefixes of, contain or overlap each other, contain spaces or non-ASCII characters), all flag combinations, all texts",
  "one test with [CLS] and [MASK] surrounded by spaces",
  ["src/added_vocabulary.cpp"],[("AddedVocabulary::find_matches","src/added_vocabulary.cpp"),("extract_and_normalize","src/added_vocabulary.cpp")],["AddedVocabulary::extract_and_normalize","Tokenizer::encode"])
p("C12","Adding tokens assigns stable, unique ids and takes effect at once",
  "For every model whose ids are 0 to its vocabulary size minus one, and every sequence of add_tokens/add_special_tokens calls, a token whose content is already in the model or already added keeps its id, and every other token gets a new id, above every id added so far and never below the vocabulary size, so that distinct contents never share an id. From then on encode produces that id for its occurrences, decode maps the id back to its content, and skip_special_tokens hides exactly the contents added as special; tokens with empty content are ignored and not counted, and earlier tokens are never disturbed.",
  ["histories","configurations"],"all histories of add_tokens/add_special_tokens/encode/decode on a live tokenizer, including duplicates, empty contents, vocabulary members, an empty vocabulary, and configurations whose added_tokens mix special and ordinary tokens",
  "a single test adds five special tokens that are all in the vocabulary",
  ["src/added_vocabulary.cpp","src/tokenizer.cpp"],[("AddedVocabulary::add_tokens","src/added_vocabulary.cpp"),("refresh_added_tokens","src/added_vocabulary.cpp")],
  ["Tokenizer::add_tokens","Tokenizer::encode","Tokenizer::decode"],[("added_tokens_map / added_tokens_map_r","content<->id","include/tokenizers/added_vocabulary.h")])
p("C13","Truncation yields exactly the sliding windows it is configured for",
  "For every encoding and every max_length, stride and direction, truncation leaves an encoding of at most max_length tokens untouched; otherwise the result and its overflowing encodings are the consecutive windows of at most max_length tokens, from the front (Right) or from the back (Left), each sharing exactly stride tokens with the one before, together covering every token, all arrays cut alike. It always terminates: a stride that leaves no room to advance is rejected with an exception, and max_length 0 leaves an empty encoding with everything in the overflow.",
  ["inputs","configurations"],"all encoding lengths x max_length x stride x direction x strategy",
  "two tests with two tokens, max_length 1, stride 0, direction Right, not linked here",
  ["src/utils.cpp"],[("truncate, Truncation::truncate_encoding","src/utils.cpp")],["Truncation::truncate_encoding"])
p("C14","Padding reaches exactly the target length and only appends filler",
  "For every encoding and padding configuration, the padded length is the larger of the current length and the target (the fixed size, or the encoding's own length for BatchLongest, rounded up to the configured multiple); the original entries are kept unchanged and in order, and the filler sits entirely on the configured side with the pad id, pad type id, pad token, attention 0 and special mask 1. Overflowing encodings are padded to the same target, and padding twice equals padding once.",
  ["inputs","configurations"],"all encodings, with and without overflow x direction x strategy x size x multiple x pad values",
  "two tests, both Right padding of a single encoding",
  ["src/utils.cpp"],[("pad, Padding::pad_encoding","src/utils.cpp")],["Padding::pad_encoding"])
p("C15","Templates insert exactly the configured special tokens",
  "For every template and encoding, processing with special tokens gives, in template order, each special token's ids and token strings with its type id, special mask 1, attention 1, no word and offsets (0,0), and in place of the sequence the encoding's own entries with only the type id replaced. Without special tokens just the sequence remains, and the overflowing encodings are kept and treated the same way.",
  ["inputs","configurations"],"all templates (several, repeated, multi-id special tokens, any position of the sequence), all encodings with and without overflow, both values of the flag",
  "two tests with the BERT template on one two-token encoding, not linked here",
  ["src/post_processor.cpp"],[("TemplateProcessing::process","src/post_processor.cpp")],["PostProcessor::process"])
p("C16","Byte-level post-processing only trims spaces off offsets",
  "For every encoding, byte-level post-processing with trimming moves each token's start right by its leading and its end left by its trailing byte-level space characters, never past each other, keeping the single leading space that the prefix-space option added at the start of the text; it changes nothing but offsets, and without trimming it changes nothing at all. Overflowing encodings are treated the same way.",
  ["inputs","configurations"],"all token strings over the byte alphabet, all offset pairs, both flags, with overflow",
  "three tests share one five-token example",
  ["src/post_processor.cpp"],[("ByteLevelProcessing::process_offsets","src/post_processor.cpp")],["PostProcessor::process"])
p("C17","A Sequence of components equals applying them one after another",
  "For every list of components, a Sequence normalizer, pre-tokenizer, decoder or post-processor gives exactly the result of applying its members one after another in the listed order; an empty sequence is the identity, a one-element sequence equals its element, and nesting does not matter.",
  ["inputs","configurations"],"all lists (length 0..4, nested) of supported components of each kind x all inputs",
  "one sequence per kind, on one input, with at most two members",
  ["src/normalizer.cpp","src/pre_tokenizer.cpp","src/decoder.cpp","src/post_processor.cpp"],
  [("SequenceNormalizer::normalize","src/normalizer.cpp"),("SequencePreTokenizer::pre_tokenize","src/pre_tokenizer.cpp"),("SequenceDecoder::decode_chain","src/decoder.cpp"),("SequenceProcessing::process","src/post_processor.cpp")],["with_* factories + component call"])
p("C18","Decoders transform token lists exactly as documented",
  "For every token list: the WordPiece decoder joins continuation pieces without and other pieces with a space and, when cleaning up, rewrites exactly the documented punctuation and contraction patterns; Replace substitutes all occurrences of its literal pattern in every token; ByteFallback turns each maximal run of byte tokens into the text those bytes encode, or into one replacement character per byte when they are not valid UTF-8, leaving other tokens alone; Fuse joins all tokens into one; Strip removes at most the configured number of its character from either end of each token.",
  ["inputs","configurations"],"all token lists (empty, non-ASCII, overlapping patterns, truncated byte runs) x all decoder settings",
  "two WordPiece examples; Replace, ByteFallback, Fuse and Strip have no test",
  ["src/decoder.cpp"],[("*Decoder::decode_chain, cleanup_token, replace","src/decoder.cpp")],["Decoder::decode_chain"])
p("C19","Decoding maps every id to its token and hides only special tokens",
  "For every list of ids, decoding looks up each id (added tokens first, then the model's vocabulary), skips ids that neither knows, drops special tokens exactly when asked to, keeps the order and repetitions, and passes the rest through the configured decoder; without a decoder the tokens are joined by single spaces. It never fails for any list of ids.",
  ["inputs","configurations"],"all id lists (unknown, negative, special, repeated ids), both flag values, configurations with and without decoder, model or added tokens",
  "no test calls decode at all",
  ["src/tokenizer.cpp","src/added_vocabulary.cpp","src/model.cpp"],[("Tokenizer::decode","src/tokenizer.cpp"),("id_to_token","src/model.cpp, src/added_vocabulary.cpp")],["Tokenizer::decode"])
p("C20","Decoding an encoding gives the text back",
  "For every text, a byte-level BPE tokenizer whose vocabulary has the whole byte alphabet decodes the ids of its own encoding back to exactly that text, whatever its merges and whatever added tokens it has that do not swallow white space and are not themselves spelled in the byte alphabet. For a WordPiece tokenizer with a WordPiece decoder and no unknown words, decoding the encoding gives the normalized words and punctuation in order, separated by single spaces.",
  ["inputs","configurations"],"all texts x all merge lists and added-token sets over a full byte alphabet; all word lists over random WordPiece vocabularies",
  "no test runs encode and decode together",
  ["src/tokenizer.cpp","src/decoder.cpp","src/pre_tokenizer.cpp","src/model.cpp"],[("Tokenizer::encode / decode","src/tokenizer.cpp")],["Tokenizer::encode + Tokenizer::decode"])
p("C21","Encoding is the documented pipeline, in order, within max_length",
  "For every configuration and text, encode equals its documented stages run one after another: added-token extraction and normalization, pre-tokenization, model, truncation, post-processing, padding; each configured stage is applied exactly once and an absent stage is skipped. With truncation configured, the result with its special tokens never exceeds max_length (when max_length leaves room for them), and no stage is skipped because another one is absent.",
  ["inputs","configurations"],"all subsets of stages present or null x settings x texts, both values of add_special_tokens",
  "one test of the all-null configuration and one of a BERT configuration without truncation or padding, not linked here",
  ["src/tokenizer.cpp"],[("Tokenizer::encode, do_tokenize, do_post_process","src/tokenizer.cpp")],["Tokenizer::encode"])
p("C22","Equivalent JSON configurations give identical tokenizers",
  "Two configurations that denote the same JSON value - differing in white space, key order, or in how characters of keys and strings are escaped - build tokenizers with identical behaviour, and every vocabulary entry, merge, added token and option has exactly the value the JSON denotes. Options given as null behave as their documented default. Loading from a file equals loading the same text as a string.",
  ["configurations","inputs"],"all supported configurations x random re-serialisations (escapes, order, spacing) x probe texts",
  "tests use one fixed serialisation per component, without a single escaped character in a key",
  ["src/utils.cpp","src/model.cpp","src/tokenizer.cpp","src/added_vocabulary.cpp","src/post_processor.cpp"],
  [("get_map_ints_from_json","src/utils.cpp"),("with_* factories","src/*.cpp")],["Tokenizer constructor + encode/decode"])
p("C23","Bad configurations are rejected with an exception, never a crash",
  "Constructing a tokenizer from any byte string either succeeds or throws a standard exception: invalid_argument when neither path nor configuration is given, runtime_error for an unreadable file and for text that is not a complete, well-typed tokenizer configuration (malformed JSON anywhere, a missing section or component type, a value of the wrong type in a field that is read, an integer out of range, an invalid regular expression, an unknown truncation or padding direction or strategy). It never crashes, hangs or corrupts memory, and the same text always gets the same verdict.",
  ["inputs","configurations","fault_sequences"],"truncations, mutations, type swaps, deletions of keys and random bytes, as string and as file",
  "three fixed bad configurations",
  ["src/tokenizer.cpp","src/utils.cpp","src/model.cpp","src/normalizer.cpp","src/pre_tokenizer.cpp","src/decoder.cpp","src/post_processor.cpp","src/added_vocabulary.cpp"],
  [("Tokenizer::Tokenizer","src/tokenizer.cpp")],["Tokenizer constructor"])
p("C24","No text makes any component crash, hang or corrupt memory",
  "For every supported configuration and every text of Unicode characters - empty, all whitespace, all removed by normalization, only added tokens, control characters, combining marks first, very long words, any plane - encode and decode return normally without undefined behaviour. The same holds for each component used on its own. Whatever odd configuration construction accepts, encoding and decoding with it never crash: at worst they throw. A wide string with values that are no Unicode characters, and an added token that is not UTF-8 (which is always rejected), give at worst a standard exception and leave the tokenizer as it was.",
  ["inputs","configurations"],"all configurations of supported components x all texts",
  "tests use about forty benign sentences, none of them empty and none fully consumed by a stage",
  ["src/tokenizer.cpp","src/normalizer.cpp","src/pre_tokenizer.cpp","src/added_vocabulary.cpp","src/model.cpp","src/decoder.cpp","src/post_processor.cpp","src/utils.cpp"],
  [("bounds of NormalizedString::transform_range, Word::merge_all, into_encoding","src/*.cpp")],["all public entry points under address/undefined-behaviour sanitizers"])
p("C25","UTF-8 and wide-string conversion is exact and strict",
  "Every string of Unicode characters survives conversion to UTF-8 and back unchanged, the UTF-8 form is the standard one, and every byte sequence that is not valid UTF-8 is rejected with an exception rather than altered.",
  ["inputs"],"all code points in all positions; all malformed byte sequences (truncated, overlong, lone continuation, surrogates are left open)",
  "one sentence in each direction",
  ["src/common.cpp"],[("convert_to_string / convert_from_string","src/common.cpp")],["convert_to_string","convert_from_string"])
p("C26","Tokenizers in different threads do not disturb each other",
  "For every set of tokenizers, and of components used on their own, each of which only one thread uses at a time: constructing them, encoding, decoding, adding tokens and calling the components in several threads at once gives each exactly the results it has when the threads run one after another, under every schedule, without a data race on anything the library shares between its objects.",
  ["schedules","inputs","configurations"],"all schedules of 2..4 threads x configurations (equal, related, unrelated) x call sequences",
  "tests run in one thread",
  ["src/tokenizer.cpp","src/model.cpp","src/normalizer.cpp","src/pre_tokenizer.cpp","src/utils.cpp","src/common.cpp","src/added_vocabulary.cpp","src/decoder.cpp","src/post_processor.cpp"],
  [("function-local statics, caches and shared tables","src/*.cpp")],["Tokenizer and component entry points, called from several threads"])
J="android/tokenizers_android/src/main/"
p("C27","The Android binding gives what the library gives",
  "For every Java string that is well-formed UTF-16 (characters beyond the BMP and U+0000 included), every configuration and every list of ids, a Tokenizer object of the Android binding encodes to the same ids and decodes to the same text as a C++ Tokenizer built from the same configuration, with either value of the flag, however many objects there are and in whatever order they are used, without changing its arguments. What the library rejects with an exception (a bad configuration, a stride that leaves no room) arrives as a Java exception; no call ends the process, ill-formed strings included.",
  ["inputs","configurations","histories"],"all Java strings x configurations x ids x sequences of calls on several objects",
  "the one instrumented test needs a device and encodes one BMP sentence",
  [J+"cpp/tokenizers_android_jni.cpp",J+"java/xyz/omkar/tokenizers/Tokenizer.java"],[("Java_xyz_omkar_tokenizers_Tokenizer_*",J+"cpp/tokenizers_android_jni.cpp")],["Tokenizer.java: constructor, encode, decode"])
p("C28","What the library takes it gives back",
  "Building a tokenizer or component, using it in any way and letting it go leaves no memory in use; nor does a configuration that is rejected or a call that throws. On a tokenizer that lives on, making the same calls again (encode, decode, adding tokens that are there already, moving it) takes no further memory each time.",
  ["histories","inputs","configurations","fault_sequences"],"all configurations, fine, odd or broken x sequences of calls, repeated",
  "tests end with the process and never look at what is left behind",
  ["src/pre_tokenizer.cpp","src/model.cpp","src/normalizer.cpp","src/tokenizer.cpp","src/added_vocabulary.cpp","src/decoder.cpp","src/post_processor.cpp","src/utils.cpp","src/common.cpp"],
  [("find_matches (regular expressions by hand)","src/pre_tokenizer.cpp"),("BPE::cache","src/model.cpp"),("destructors of the component base classes","include/tokenizers/*.h"),("AddedVocabulary::add_tokens","src/added_vocabulary.cpp")],["all public entry points"])
p("C29","Constructors and configurations build the same components",
  "A component built by its public constructor behaves exactly as the one a configuration with the same options builds, for every kind of normalizer, pre-tokenizer, model, post-processor, decoder, truncation and padding, Sequences of them included. Arguments left out mean their documented defaults: BertNormalizer cleans, pads Chinese characters and lower-cases; WordPiece uses [UNK], 100 characters and ##; WordPieceDecoder uses ## and cleans up; an added token is normalized and nothing else; encode adds special tokens and decode drops them.",
  ["inputs","configurations"],"all components x all options x all texts, tokens and encodings; all calls with fewer arguments than they take",
  "tests build each component in one of the two ways, never both, and rarely leave an argument out",
  ["include/tokenizers/normalizer.h","include/tokenizers/model.h","include/tokenizers/decoder.h","include/tokenizers/added_vocabulary.h","include/tokenizers/tokenizer.h","src/normalizer.cpp","src/pre_tokenizer.cpp","src/model.cpp","src/post_processor.cpp","src/decoder.cpp","src/utils.cpp"],
  [("constructors of the components; with_* factories","include/tokenizers/*.h, src/*.cpp")],["component constructors","Tokenizer::encode / decode with default arguments"])
p("C30","Running out of memory ends a call, nothing else",
  "When an allocation fails (operator new throws) anywhere inside a call - building a tokenizer, encode, decode, adding tokens - the call throws a standard exception or gives exactly what it gives otherwise: never part of a result, never a crash. Nothing it took is left behind. The tokenizer goes on: the same call made again, and every call after it, gives what it gives on a tokenizer that never met a failure.",
  ["fault_sequences","inputs","configurations","histories"],"all places where an allocation fails (one, or all from one on) x all calls x configurations",
  "tests never run out of memory",
  ["src/model.cpp","src/pre_tokenizer.cpp","src/normalizer.cpp","src/tokenizer.cpp","src/added_vocabulary.cpp","src/decoder.cpp","src/post_processor.cpp","src/utils.cpp","src/common.cpp"],
  [("BPE::tokenize_with_cache","src/model.cpp"),("find_matches","src/pre_tokenizer.cpp"),("Tokenizer::Tokenizer (catch)","src/tokenizer.cpp"),("AddedVocabulary::add_tokens","src/added_vocabulary.cpp")],["Tokenizer constructor","Tokenizer::encode / decode / add_tokens"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
