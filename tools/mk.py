#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, state, mech, observe, tech=None, note=None, level="exploration"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, state=state,
                  mech=mech, observe=observe, tech=tech, note=note, level=level))


def L(*xs):
    return [dict(name=n, where=w) for n, w in xs]


REF = "runtime monitor: every observed result of the real code is judged by an independent reference executed on the same input"

prop("P01", "Encoding a text gives exactly what its configured pipeline defines",
     "For any tokenizer (normalizer, pre-tokenizer, model, added tokens, post-processor, truncation and padding in any combination) and any valid UTF-8 input (text, list of words, or a pair of those), Encode returns the ids, tokens, type ids, byte offsets, word indices, special-token mask, attention mask, sequence ranges and overflowing parts that follow from running the stages one after another. The stages run in the order added-token extraction, normalization, pre-tokenization, model, truncation (which leaves room for the special tokens), post-processing, padding. A model that has no token for a piece gives an error, never a partial encoding.",
     ["inputs", "configurations"], "every combination of components and every valid UTF-8 text, word list or pair of them",
     "The tests fix a handful of pipelines and sentences; stages interact (an added token next to stripped whitespace, truncation with a pair and special tokens, padding of overflow) in combinations no test samples.",
     ["tokenizer.go", "pretokenizer.go", "added-vocabulary.go", "encoding.go"], ["Tokenizer", "Encoding", "PreTokenizedString"],
     L(("Encode", "tokenizer.go"), ("into encoding", "pretokenizer.go"), ("post-process", "tokenizer.go PostProcess")),
     "the returned Encoding and its overflowing parts, field by field", REF + " (whole-pipeline reference)")

prop("P02", "Tokens are what the text at their offsets says",
     "For every tokenizer whose normalization changes no characters (or lowercases them), each token's byte offsets lie within the original text, on character boundaries, start in non-decreasing order, and name the text the token stands for (after the token's own affixes, byte alphabet or metaspace are undone). Text that no token covers consists only of what the pre-tokenizer is defined to remove. The id of a token and its text name the same vocabulary entry, except for unknown tokens.",
     ["inputs", "configurations"], "every valid UTF-8 text and every pipeline of that kind",
     "Offsets are checked by the tests for a few ASCII sentences; multi-byte characters, removed whitespace and split characters are where they break.",
     ["tokenizer.go", "pretokenizer.go", "normalizer/normalized.go", "pretokenizer/bytelevel.go"], ["NormalizedString alignments", "Token offsets"],
     L(("offset conversion", "pretokenizer.go IntoEncoding"), ("alignments", "normalizer/normalized.go")),
     "offsets of the returned Encoding against the input text", "runtime monitor: reference-free oracle reading the input text at each reported offset")

prop("P03", "Character offsets and byte offsets name the same text",
     "EncodeCharOffsets returns the same encoding as Encode except that each offset pair counts characters where the other counts bytes, for texts and for word lists (relative to the word). This holds for every token, including those of overflowing parts and those of added tokens. Post-processors that trim offsets are not part of this property.",
     ["inputs", "configurations"], "every valid UTF-8 text or word list and every pipeline without offset trimming",
     "Tests compare the two for a few texts; characters of each width, composed by normalization, are not covered.",
     ["tokenizer.go", "pretokenizer.go"], ["offset converter"], L(("byte to char conversion", "pretokenizer.go BytesToCharOffsetConverter")),
     "both Encodings of the same input", "runtime monitor: differential check of two observed encodings of one input")

prop("P04", "Added tokens keep their ids and are found wherever they may match",
     "After any history of adding plain and special tokens, a token that is in the model's vocabulary keeps that id, every other one gets the next free id in order of first addition, adding counts exactly the newly added ones (empty and repeated ones are not), and TokenToId, IdToToken, GetVocab, GetVocabSize and GetSpecialTokens agree with that history at every point. An added token is matched in every later input, leftmost first and, where several overlap, the one registered first (special ones before plain ones; those matched in the raw text before those matched in the normalized text), subject to its whole-word, left-strip, right-strip and normalized flags, and comes out as one token with its own id. Adding tokens never changes the meaning of tokens added before.",
     ["histories", "inputs"], "every interleaving of additions and encodings, over every token content and flag combination",
     "The tests add a few tokens once; ids depend on the whole history and on overlap with the model, and matching on all tokens together.",
     ["added-vocabulary.go", "tokenizer.go"], ["added token map", "special token set", "split tries"],
     L(("AddTokens", "added-vocabulary.go addTokens"), ("extraction", "added-vocabulary.go ExtractAndNormalize"), ("lookup", "tokenizer.go TokenToId/IdToToken")),
     "return values of the additions and lookups, tokens of encodings", REF + ", stepwise over random histories")

prop("P05", "Truncation loses no token and windows overlap by exactly the stride",
     "Truncating one or two encodings to a maximum length keeps the total at that maximum or below, keeps a prefix of each sequence, and leaves every cut-off token, with all its attributes, in the overflowing parts: windows that follow one another and repeat exactly the last stride tokens of the one before. LongestFirst takes one token at a time from the longer sequence (the second when both are as long), OnlyFirst and OnlySecond from that sequence only. A maximum that is not exceeded changes nothing.",
     ["inputs", "configurations"], "all lengths of one or two encodings, maxima, strides and strategies",
     "The tests use three lengths; off-by-one errors live at other combinations of length, maximum and stride.",
     ["encoding.go", "tokenizer.go"], ["Encoding.Overflowing"], L(("Truncate", "encoding.go Truncate"), ("TruncateEncodings", "tokenizer.go TruncateEncodings"), ("Encode with truncation", "tokenizer.go PostProcess")),
     "the truncated encodings and their overflowing parts", "runtime monitor: conservation, overlap and bound checks over observed windows, plus a reference windowing")

prop("P06", "Padding brings every encoding to the target and touches nothing else",
     "Padding extends each encoding shorter than the target (the longest of the batch, or the fixed size) to exactly that length on the configured side, overflowing parts included, and leaves longer ones as they are. Pad positions carry the configured id, type id and token, attention 0, special mask 1, offsets [0,0] and no word or sequence; all other positions keep every attribute. A batch is padded to its longest member whatever the order and the lengths in it.",
     ["inputs", "configurations"], "all batches of encodings of any length with overflow, sides, strategies and pad tokens",
     "The tests pad two short encodings on one side.",
     ["encoding.go", "tokenizer.go"], ["Encoding"], L(("Pad", "encoding.go Pad"), ("PadEncodings", "tokenizer.go PadEncodings"), ("EncodeBatch", "tokenizer.go EncodeBatch")),
     "padded encodings", "runtime monitor: before/after comparison of every field, plus reference padding of batches")

prop("P07", "Post-processors place special tokens as their template says",
     "Each post-processor (BERT, RoBERTa, byte-level, template, sequence) puts exactly the special tokens it is defined to put around one or two sequences and around every overflowing part, with the special mask set on those alone and type ids and sequence ranges set as defined. The number of tokens it adds equals what it announces, for one and for two sequences, so that truncated encodings never exceed the maximum. Without special tokens it adds none, and it never drops or reorders the tokens of the sequences.",
     ["inputs", "configurations"], "all encodings (with overflow), single or paired, all processors and templates",
     "The tests process one fixed pair per processor, without overflow.",
     ["processor/bert.go", "processor/roberta.go", "processor/bytelevel.go", "processor/template.go", "processor/sequence.go", "tokenizer.go"], ["Encoding", "template pieces"],
     L(("bert", "processor/bert.go"), ("roberta", "processor/roberta.go"), ("template", "processor/template.go"), ("byte-level", "processor/bytelevel.go"), ("sequence", "processor/sequence.go")),
     "processed encodings against the ones put in", REF)

prop("P09", "Normalizers compute their text function and keep track of the origin",
     "Each normalizer (Unicode forms, BERT, lowercase, strip, strip accents, replace, prepend, and sequences of them) turns any valid UTF-8 text into exactly the text its definition gives. Every character of the result is aligned to the part of the original text it comes from: characters that are kept or mapped to their own original, added ones to their neighbour. The original text is unchanged.",
     ["inputs", "configurations"], "every valid UTF-8 text and every normalizer (all characters of Unicode are swept)",
     "Tests cover tens of characters; the definitions are over all of Unicode, and the alignment depends on the history of transformations.",
     ["normalizer/normalized.go", "normalizer/bert.go", "normalizer/unicode.go", "normalizer/replace.go", "normalizer/prepend.go", "normalizer/strip.go", "normalizer/sequence.go"],
     ["NormalizedString"], L(("transform", "normalizer/normalized.go"), ("bert", "normalizer/bert.go")),
     "normalized text and alignments", REF + "; exhaustive sweep over all characters")

prop("P08", "A normalized string keeps its two texts consistently aligned",
     "After any history of operations on a NormalizedString (transform, replace, prepend, append, filter, map, slice, split, strip, clear) the current text, the original text and the alignments between them stay as defined: one range per byte, monotone, within bounds and on character boundaries. Converting ranges between the two, slicing and splitting agree with those alignments for every range. Splitting keeps or drops the matched parts by the chosen behaviour and loses nothing else.",
     ["histories", "inputs"], "all histories of operations, with all ranges and patterns",
     "Each test applies one operation to a short text; errors come from histories.",
     ["normalizer/normalized.go", "normalizer/pattern.go"], ["NormalizedString original, normalized, alignments"],
     L(("TransformRange", "normalizer/normalized.go"), ("Split", "normalizer/normalized.go"), ("ConvertOffset", "normalizer/normalized.go"), ("patterns", "normalizer/pattern.go")),
     "the public state after every step", "runtime monitor: invariant and model check of the observed state after every step of random histories")

prop("P10", "Pre-tokenizers split exactly as defined and lose nothing else",
     "Each pre-tokenizer (BERT, whitespace, byte-level, metaspace, punctuation, digits, delimiter, split by pattern, Unicode scripts, sequences) splits any text exactly where its definition says, with the split's position in the original text right. Nothing but what the definition removes is lost, no empty split comes out, and tokens already placed are left alone.",
     ["inputs", "configurations"], "every valid UTF-8 text, every pre-tokenizer and pattern (all characters swept)",
     "Tests split a handful of sentences; classes of characters and adjacent delimiters are not sampled.",
     ["pretokenizer.go", "pretokenizer/bert.go", "pretokenizer/bytelevel.go", "pretokenizer/metaspace.go", "pretokenizer/punctuation.go", "pretokenizer/digits.go", "pretokenizer/delimiter.go", "pretokenizer/split.go", "pretokenizer/unicode-script.go", "pretokenizer/whitespace.go", "pretokenizer/sequence.go"],
     ["PreTokenizedString splits"], L(("Split", "pretokenizer.go"), ("patterns", "normalizer/pattern.go")),
     "splits with offsets of both kinds", REF + "; exhaustive sweep over all characters")

prop("P11", "BPE applies its merges by rank, whatever its cache holds",
     "For any vocabulary and merge list, BPE tokenization of a word is what repeatedly applying the lowest-ranked applicable merge (leftmost first) gives, with the word's prefix and suffix rules, an unknown token for each character without an entry (an error if the vocabulary has no unknown token either) and byte offsets that cover the word without gaps. The cache, whatever its size and history, never changes the result. With dropout the tokens are still derivable by merges and spell the word.",
     ["inputs", "configurations", "histories"], "all words, vocabularies, merge lists, cache sizes and word histories",
     "Tests use five merges and a few words; priority, ties and repeated pairs matter only on longer words.",
     ["model/bpe/bpe.go", "model/bpe/word.go", "model/bpe/cache.go"], ["Word symbols", "merge queue", "cache"],
     L(("merge loop", "model/bpe/word.go MergeAll"), ("tokenize with cache", "model/bpe/bpe.go")),
     "tokens of Tokenize", REF + " (naive merge loop)")

prop("P12", "WordPiece takes the longest match from the left or the whole word is unknown",
     "For any vocabulary, WordPiece tokenization of a word is greedy longest match first, with the continuation prefix on all pieces but the first, offsets covering the word without gaps. If any part cannot be matched, or the word has more characters than the limit, the result is one unknown token over the whole word; without an unknown token in the vocabulary it is an error. An empty word has no tokens.",
     ["inputs", "configurations"], "all words, vocabularies, prefixes and limits", "Tests check three words; multi-byte characters and limits are not sampled.",
     ["model/wordpiece/wordpiece.go"], ["vocab"], L(("greedy loop", "model/wordpiece/wordpiece.go Tokenize")), "tokens of Tokenize", REF)

prop("P13", "Unigram finds a best-scoring segmentation",
     "For any vocabulary with scores, unigram tokenization gives a segmentation of the word into entries (unknown parts fused, or into byte entries with byte fallback) whose total score is the best of all segmentations. Offsets cover the word without gaps. Nothing depends on words tokenized before.",
     ["inputs", "configurations", "histories"], "all words, vocabularies and scores", "Tests compare a few words with golden values; optimality is a statement over all segmentations.",
     ["model/unigram/unigram.go", "model/unigram/lattice.go", "model/unigram/trie.go"], ["lattice", "trie", "cache"], L(("viterbi", "model/unigram/unigram.go encodeOptimized"), ("lattice", "model/unigram/lattice.go")),
     "tokens of Tokenize and their scores", "runtime monitor: optimality oracle (independent dynamic program, enumeration for short words) on every observed segmentation")

prop("P14", "Token to id and id to token are inverse and cover the vocabulary",
     "For each model, TokenToId and IdToToken are inverse over the whole vocabulary, the size and the vocabulary map agree with them, and nothing outside the vocabulary is found. Word-level tokenization gives the id of the word, or of the unknown token, or an error when there is none.",
     ["inputs", "configurations"], "all vocabularies and lookups", "Tests look up a few entries.",
     ["model/bpe/bpe.go", "model/wordpiece/wordpiece.go", "model/wordlevel/wordlevel.go", "model/unigram/unigram.go"], ["vocab", "reverse vocab"],
     L(("lookups", "model/*/*.go TokenToId IdToToken")), "lookup results", REF)

prop("P15", "Decoders compute their text function, and decoding undoes encoding",
     "Each decoder (BPE, WordPiece, byte-level, byte fallback, metaspace, CTC, fuse, strip, replace, sequence) turns any token list into exactly the text its definition gives, and changes none of its input. Decoding ids skips unknown ids, and special tokens when asked, and joins with the decoder or by spaces. For lossless pipelines (byte-level, metaspace, byte fallback) decoding the ids of an encoded text gives the text back.",
     ["inputs", "configurations"], "all token lists, decoders and texts", "Tests decode a few lists; cleanup rules, broken byte sequences and round trips over all texts are not sampled.",
     ["decoder/bpe.go", "decoder/wordpiece.go", "decoder/ctc.go", "decoder/byte-fallback.go", "decoder/strip.go", "decoder/fuse.go", "decoder/sequence.go", "pretokenizer/metaspace.go", "pretokenizer/bytelevel.go", "tokenizer.go"],
     ["decoder chain"], L(("decode", "tokenizer.go Decode"), ("decoders", "decoder/*.go")), "decoded strings", REF + "; encode-decode round trips")

prop("P16", "A tokenizer shared by goroutines gives the results of serial use",
     "Any number of goroutines may encode and decode with one tokenizer at the same time: there is no data race, and each gets what a serial run gives. EncodeBatch and DecodeBatch return one result per input, in input order, equal to what the inputs give one by one (padding aside), and an error of any input is reported, not lost.",
     ["schedules", "inputs", "configurations"], "all interleavings of concurrent calls over all pipelines", "The tests run sequentially and without the race detector.",
     ["tokenizer.go", "model/bpe/cache.go", "model/unigram/unigram.go", "added-vocabulary.go"], ["BPE cache", "unigram cache", "batch results"],
     L(("EncodeBatch", "tokenizer.go"), ("DecodeBatch", "tokenizer.go"), ("cache locks", "model/bpe/cache.go")),
     "race detector reports; results of concurrent calls against serial ones", "sanitizer: Go race detector under concurrent stress; concurrent results compared with serial ones")

prop("P17", "BPE training merges the most frequent pair at every step",
     "For any word counts and options, BPE training yields the merges that repeatedly joining the most frequent pair gives (ties to the smaller pair of ids), until the vocabulary size or the minimum frequency stops it; the alphabet is limited as asked, special tokens come first, and ids are dense. The trained model tokenizes the training words accordingly. Training is deterministic for the same counts, whatever the order they come in.",
     ["inputs", "configurations", "schedules"], "all word counts and trainer options", "One test trains on a dozen words; incremental pair counts only drift on longer histories of merges.",
     ["model/bpe/trainer.go", "model/bpe/word.go"], ["pair counts", "positions", "queue"], L(("train loop", "model/bpe/trainer.go"), ("incremental counts", "model/bpe/word.go Merge")),
     "vocabulary and merges of the trained model", REF + " (naive trainer that recounts every pair at every step)")

prop("P18", "WordPiece training gives a vocabulary that spells its training words",
     "WordPiece training keeps the special tokens at the front with ids in order, gives every entry a distinct dense id within the asked size, and writes continuing pieces with the prefix. Every training word made of kept characters tokenizes without unknowns. A model made from a BPE model has the same vocabulary, unknown token and prefix.",
     ["inputs", "configurations"], "all word counts and options", "No test trains WordPiece.",
     ["model/wordpiece/trainer.go", "model/wordpiece/wordpiece.go"], ["vocab"], L(("train", "model/wordpiece/trainer.go"), ("from BPE", "model/wordpiece/wordpiece.go")), "trained vocabulary, tokens", REF)

prop("P19", "A saved model loads back to the same model",
     "Saving a model (BPE, WordPiece, word-level, unigram) and loading the files back gives a model with the same vocabulary, the same ids and, given the same options, the same tokens for every word. Files are replaced whole, whatever they held before, and nothing outside the given folder is written. Files that are malformed or missing give an error.",
     ["inputs", "configurations", "histories"], "all vocabularies and merges, including unusual characters", "Tests save one small vocabulary.",
     ["model/bpe/bpe.go", "model/wordpiece/wordpiece.go", "model/wordlevel/wordlevel.go", "model/unigram/unigram.go"], ["vocab files", "merges files"],
     L(("save", "model/*/*.go Save"), ("load", "model/*/*.go")), "files and reloaded models", "runtime monitor: differential check of the model before saving and after loading, over an observed scratch folder")

prop("P20", "A tokenizer.json gives the tokenizer it describes",
     "Loading a configuration gives a tokenizer that encodes and decodes every input as the same tokenizer built by hand from the components and parameters it names, for every component type the library supports, nested sequences, added tokens with their flags, truncation and padding. A configuration that names an unsupported type gives an error. The order of loading and of other configurations loaded before makes no difference.",
     ["configurations", "inputs"], "all configurations made of supported components, all inputs", "Tests load each component once with default parameters.",
     ["config.go", "pretrained/tokenizer.go", "pretrained/model.go", "pretrained/normalizer.go", "pretrained/pretokenizer.go", "pretrained/processor.go", "pretrained/decoder.go", "pretrained/added-tokens.go", "pretrained/truncation.go", "pretrained/padding.go"],
     ["Config"], L(("from config", "pretrained/tokenizer.go"), ("components", "pretrained/*.go")), "encodings and decodings of the loaded tokenizer", REF + " (the reference never sees the configuration)")

prop("P21", "No input makes encoding or decoding panic or hang",
     "For any string, also one that is not valid UTF-8, any word list and any id list, encoding and decoding with any pipeline return or give an error in bounded time: no panic, no exit of the process, no endless loop, no runaway memory. What they return is well formed: all fields have one entry per token and offsets lie within the input.",
     ["inputs", "configurations"], "all byte strings, all id lists, all pipelines", "Tests only use valid text.",
     ["tokenizer.go", "pretokenizer.go", "normalizer/normalized.go", "decoder/byte-fallback.go", "model/bpe/bpe.go", "model/unigram/unigram.go", "spm/spm-precompiled.go"], ["whole pipeline"],
     L(("encode", "tokenizer.go"), ("decode", "tokenizer.go")), "panics, exits, watchdog, memory watch, structure of results", "runtime monitor: crash, exit, hang and memory watch over hostile inputs, with structural assertions on all results")

prop("P22", "Queries of an encoding agree with its fields",
     "For every encoding, of one or two sequences, with special and pad tokens, the conversions between tokens, words and characters agree with the encoding's offsets, word indices and sequence ranges: a character leads to a token that covers it, a token to its own word and sequence and offsets, a word to the first run of its tokens. Positions that no token covers, special tokens and positions out of range lead to nothing.",
     ["inputs", "configurations"], "all encodings and positions", "Tests query one encoding of three tokens.",
     ["encoding.go"], ["Encoding"], L(("queries", "encoding.go Word2Tokens, Token2Chars, Char2Token, ...")), "results of all queries over all positions", REF + " (definitions evaluated over the fields)")

prop("P23", "Merging encodings appends one behind the other, every field of it",
     "Merging encodings gives all tokens of the first, then of the second, with every field kept; offsets are shifted to follow the first only when asked, sequence ranges are shifted by the number of tokens, and overflowing parts are combined with every other part. Merging several is merging one after another, starting from an empty one. Encodings that are merged in are left as they are.",
     ["inputs", "histories"], "all encodings, orders and histories of merges", "Tests merge one pair of one token.",
     ["encoding.go"], ["Encoding"], L(("MergeWith", "encoding.go"), ("Merge", "encoding.go")), "merged encodings", REF)

prop("P24", "What was encoded before, or is done with results, changes nothing",
     "Encoding an input twice, before or after any other encodings and decodings, gives the same result. Changing a returned encoding, vocabulary or token list, truncating or padding it, has no effect on the tokenizer or on encodings returned before or after. Inputs given to the tokenizer (word lists, encodings, ids, token lists) are not changed by it.",
     ["histories", "inputs"], "all histories of calls and all changes of results", "Tests make a single call on a fresh tokenizer.",
     ["tokenizer.go", "encoding.go", "model/bpe/cache.go", "processor/template.go"], ["caches", "shared slices"], L(("cache", "model/bpe/cache.go"), ("post-process", "processor/*.go")),
     "results compared with those of fresh tokenizers and with snapshots", "runtime monitor: results and inputs snapshotted, hostile changes of results injected, later results compared with fresh ones")

prop("P25", "The BPE cache returns only what was stored and keeps to its capacity",
     "A cache returns for each key the last value it accepted under it or nothing, never another key's value; while there is room every value is accepted and stays; it never holds more than its capacity, is empty after clearing, and another cache is independent. Concurrent operations are free of data races and take effect in an order that fits real time; a model whose cache is used and cleared at once still gives the right tokens.",
     ["histories", "schedules"], "all histories and interleavings of cache operations", "One test sets a few values.",
     ["model/bpe/cache.go"], ["Cache"], L(("Get/Set", "model/bpe/cache.go")), "results of operations", "sanitizer and runtime monitor: race detector, and an online model of the cache over concurrent histories")

prop("P26", "A precompiled character map replaces exactly the sequences it holds",
     "For any precompiled character map, normalization replaces each grapheme of less than six bytes that begins with an entry of the map by the replacement of the shortest such entry (possibly nothing); other graphemes character by character in the same way; and leaves everything else as it is. Malformed maps give an error and never a crash. The alignment to the original text is kept as for other normalizers.",
     ["inputs", "configurations"], "all maps and texts", "Tests use the one published map and a few texts.",
     ["spm/spm-precompiled.go", "normalizer/precompiled.go"], ["double array"], L(("transform", "spm/spm-precompiled.go"), ("normalize", "normalizer/precompiled.go")), "normalized texts and alignments", REF + " (maps built by an own double-array builder)")

prop("P27", "A download failure never leaves a broken file in the cache",
     "Fetching a model file gives the file's full content from the cache or the network; a failed, cut-off or rejected download gives an error and leaves no file that a later call would take for the real one. A later call after the failure fetches it whole. Files already in the cache are given without any request, local ones are copied to the cache, several calls at once do not disturb one another, and no response is left open.",
     ["fault_sequences", "histories"], "all sequences of network faults and calls", "No test covers downloading.",
     ["file-util.go", "init.go", "pretrained/model.go"], ["cache folder"], L(("CachedPath", "file-util.go"), ("download", "file-util.go")), "returned paths, file contents, requests seen by a local server", "runtime monitor with fault injection: a local server records requests and injects faults; files are compared with what was served")

prop("P28", "Pre-tokenized input is its words encoded one after another",
     "Encoding a list of words gives the tokens of the words encoded one at a time, in order, with offsets relative to each word and the word's position as word index. Words that give no tokens take part in the count. The same holds for both parts of a pair.",
     ["inputs", "configurations"], "all word lists and pipelines", "One test uses four words.",
     ["tokenizer.go"], ["Encoding"], L(("pre-tokenized", "tokenizer.go EncodeSingleSequence")), "encodings of lists and of words", "runtime monitor: metamorphic comparison of observed encodings")

prop("P29", "Byte-level alphabet: 256 characters, one per byte, both ways",
     "Byte-level pre-tokenization maps every byte to its own printable character, so that for every string the splits spell exactly its bytes (plus the prefix space), and splits it where the GPT-2 pattern does. The decoder maps them back to the same bytes. The alphabet has 256 distinct characters.",
     ["inputs"], "all strings; all bytes", "Tests check the alphabet's size and a few sentences.",
     ["pretokenizer/bytelevel.go"], ["byte-char maps"], L(("byte-level", "pretokenizer/bytelevel.go")), "splits, decoded text", REF)

prop("P30", "Training from files counts every line of every file once",
     "Training a tokenizer from files gives the same model as training on the word counts of all lines of all files (normalized and pre-tokenized by the tokenizer), whatever the number, size and order of files and the scheduling of workers. Special tokens of the trainer are added. There is no data race, and a file that cannot be read gives an error.",
     ["schedules", "inputs", "fault_sequences"], "all file sets and interleavings of the workers", "No test trains from several files.",
     ["tokenizer.go", "model/bpe/trainer.go"], ["word counts"], L(("Train", "tokenizer.go")), "trained model; race detector", "sanitizer and runtime monitor: race detector; trained model compared with reference counts and a naive trainer")

prop("P31", "A model is what its settings say, however it is made",
     "A WordLevel, WordPiece, BPE or Unigram model behaves as its settings (vocabulary, merges, unknown token, continuing prefix, word suffix, limits, dropout 0) say, and the same whether made with a constructor, with a builder whose setters are called in any order, from files, from a configuration, or from another model; settings left out take their documented defaults. Settings that make no model give an error.",
     ["inputs", "configurations"], "all models, settings and ways to make them", "Tests make each model in one way with one vocabulary.",
     ["model/wordlevel/wordlevel.go", "model/wordpiece/wordpiece.go", "model/bpe/bpe.go", "model/unigram/unigram.go"], ["model settings"],
     L(("Build", "model/bpe/bpe.go"), ("NewWordPieceFromBPE", "model/wordpiece/wordpiece.go"), ("Build", "model/wordlevel/wordlevel.go")),
     "vocabulary, lookups and tokens of words", REF + "; every way to make a model against the reference model")
prop("P32", "The ready-made pretrained tokenizers are the pipelines they document",
     "The ready-made BERT, GPT-2 and RoBERTa tokenizers, made from any working folder with any vocabulary files and any options, encode words, texts and pairs as the pipelines they document (BERT normalization, byte-level splitting, special tokens, offset trimming and prefix space as asked), decode back to the text, and leave the working folder as it was.",
     ["inputs", "configurations"], "all vocabularies, options, texts and working folders", "The vocabularies are not in the repository, so no test can make these tokenizers.",
     ["pretrained/bert.go", "pretrained/gpt2.go", "pretrained/roberta.go", "util/util.go"], ["pipelines", "working folder"],
     L(("GPT2", "pretrained/gpt2.go"), ("RobertaBase", "pretrained/roberta.go"), ("BertBaseUncased", "pretrained/bert.go")),
     "encodings, decodings and working folder", REF + "; ready-made tokenizers over generated vocabulary files")

prop("P33", "The pieces a pattern finds cover the text, and its matches are right",
     "For every pattern (literal, character, function, regular expression, and the inversion of any of them) and every text, also one that is not UTF-8, the pieces FindMatches gives follow each other without gap or overlap from the start of the text to its end, and those marked as matches are exactly the leftmost non-overlapping matches of the pattern; an inverted pattern gives the same pieces with the marks exchanged.",
     ["inputs"], "all patterns and texts", "Tests ask few patterns for their matches in one or two ASCII texts.",
     ["normalizer/pattern.go"], ["pieces"], L(("FindMatches", "normalizer/pattern.go"), ("invert", "normalizer/pattern.go")),
     "FindMatches", REF + "; cover checked directly, matches against an independent search")
prop("P34", "A pre-tokenized string keeps its pieces, tokens and offsets through every step",
     "Whatever history of Split, Normalize and Tokenize a pre-tokenized string goes through, each step asks its function for exactly the pieces without tokens, in order; pieces with tokens stay as they are, empty pieces of a split are dropped; GetSplits gives each piece with its tokens and its byte or character offsets in the original or in the normalized text. IntoEncoding gives every token with its offsets in the original and the index of its piece (or the given one) as word, and an error when a piece has no tokens; an error of the tokenizing function is handed on.",
     ["inputs", "histories"], "all texts, functions and histories", "Tests run one step of one built-in pre-tokenizer.",
     ["pretokenizer.go"], ["pieces"], L(("Split", "pretokenizer.go"), ("Tokenize", "pretokenizer.go"), ("IntoEncoding", "pretokenizer.go")),
     "GetSplits, IntoEncoding and the calls of the given functions", REF + "; a reference pre-tokenized string after every step")

prop("P35", "Every operation gives its files, goroutines and temporary files back",
     "When an operation of the library returns, successfully or with an error, it has closed every file it opened (for reading vocabularies, merges, configurations and training texts, for saving and for fetching), every goroutine it started has ended or ends on its own, and it leaves no file behind but those it is defined to make. This holds for loading and saving models, reading configurations, training from files and from counts, fetching model files and encoding or decoding batches, with missing, malformed or unreadable files, full devices, failing servers and failing components alike, so that a long-running process can do them any number of times.",
     ["fault_sequences", "histories"], "every operation and every point at which it may fail", "A test ends long before descriptors or goroutines run out, and the garbage collector hides most files left open; the error paths are hardly run at all.",
     ["tokenizer.go", "config.go", "file-util.go", "model/bpe/bpe.go", "model/bpe/trainer.go", "model/wordpiece/wordpiece.go", "model/wordlevel/wordlevel.go", "model/unigram/unigram.go", "pretrained/tokenizer.go"], ["open files", "goroutines"],
     L(("training workers", "tokenizer.go Train, processChunk"), ("reading", "config.go ConfigFromFile"), ("storing", "file-util.go storeFile"), ("pair counts", "model/bpe/trainer.go")),
     "the process's descriptors and goroutines and the folders it works in, before and after", "runtime monitor: leak detection over descriptors, goroutines and files around every operation, with the garbage collector held off and faults injected")


def main():
    ids = set(subprocess.run(["go", "run", "./harness/cmd/vdrv", "list"], cwd=V, capture_output=True, text=True, check=True,
                             env=dict(os.environ, GOFLAGS="-mod=readonly")).stdout.split())
    ids = {x for x in ids if x[0] == "P"}
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                    anchors=dict(files=p["files"], state=[dict(name=x, where=p["files"][0]) for x in p["state"]], mechanism=p["mech"], observe_at=[p["observe"]], hook_needed=None))) + "\n")
    unknown = ids - {p["id"] for p in P}
    assert not unknown, unknown
    checks, na = [], []
    for p in P:
        if p["id"] in ids:
            checks.append(dict(property=p["id"], quick_cmd="bash check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough bash check.sh " + p["id"],
                               technique=p["tech"], level=p["level"],
                               level_note=p["note"] or "Seeded generated workloads on the real code; every result is judged, nothing is claimed beyond the executions observed (see evidence)."))
        else:
            na.append(dict(property=p["id"], reason="not built yet"))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
             notes="Each check builds the harness against /repo's working tree (go.mod replace). No hooks are needed in /repo: everything is observed through the public API.")
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(na), "not built")


main()
