P("N01", "Dictionary numbers distinct words 1..n in order of first insertion",
  "After any sequence of insertions the dictionary holds exactly the distinct words inserted, the i-th distinct word carries index i, and the count is their number. The sorted report lists every entry once, by descending index.",
  ["inputs", "histories"], "every sequence of insertions, with any repetitions and the empty word",
  "No test touches the dictionary; the numbering depends on the whole insertion history.",
  ["src/ngrams.rs"], [("Dictionary::insert", "src/ngrams.rs"), ("Dictionary::sorted", "src/ngrams.rs")])
P("N02", "n-gram counts are exact, also around anchor words",
  "Recording a word sequence adds one to the count of each of its contiguous n-grams and nothing else, accumulating over calls. With an anchor word and window W, a word takes part exactly if an anchor lies within W words of it, and each maximal run of such words contributes its n-grams; words are the tokens between ASCII blanks that start with a letter or digit, and only a word equal to the anchor is one.",
  ["inputs", "histories"], "every word sequence, n, window size, position and number of anchor words, and sequence of calls",
  "No test covers n-gram counting; the outcome depends on the relative position of every anchor occurrence.",
  ["src/ngrams.rs"], [("Ngrams::add_anchored_content", "src/ngrams.rs"), ("Ngrams::record_words", "src/ngrams.rs"), ("Ngrams::sorted", "src/ngrams.rs")])
P("D01", "DNM maps between plaintext characters, bytes and DOM nodes are consistent",
  "For every document and parameter set, the byte offset table gives the start of each plaintext character, the range of an entered element is tiled by its children's ranges in document order, and the root's range is the whole text. With back mapping, each plaintext character maps to a node whose range contains it, and an offset into a text node names the source character it came from, also when characters are merged, expanded, lowercased or transliterated.",
  ["inputs", "configurations"], "every DOM tree and text content, and every combination of the DNM parameters (other than stemming)",
  "Tests build a handful of documents; the maps must agree for every mix of multi-byte characters, whitespace runs, token replacement and case expansion.",
  ["src/dnm/mod.rs", "src/dnm/parameters.rs"], [("DNM::new", "src/dnm/mod.rs"), ("text_node_create / intermediate_node_create", "src/dnm/mod.rs"), ("push_token / push_whitespace", "src/dnm/mod.rs")])
P("D02", "DNM plaintext follows the parameters' rules, deterministically",
  "The plaintext is the document's text (also that of CDATA sections, which in HTML scripts and styles are not text) in document order, with skipped elements left out, normalized elements replaced by their token (wrapped in blanks on request), whitespace runs merged across node boundaries on request, and text lowercased or transliterated on request. The first matching class rule, in attribute order, takes precedence over the element-name rule. By default, whitespace is merged and there are no rules, wrapping or transformations. The result is a function of document and parameters only.",
  ["inputs", "configurations"], "every DOM tree, rule tables by element and class, parameter combination, and hash iteration order",
  "Tests fix one document per option; interactions of options, adjacent nodes and several classes on one element are not sampled, and hash order varies between runs.",
  ["src/dnm/mod.rs", "src/dnm/parameters.rs"], [("intermediate_node_create", "src/dnm/mod.rs"), ("normalize_whitespace / normalize_unicode", "src/dnm/mod.rs"), ("DNMParameters", "src/dnm/parameters.rs")])
P("D03", "Stemming applies to every text, and only to texts, without misplacing anything",
  "With stem_words_once the text of every text node (its transliteration, if that is asked for) is replaced by what the stemmer makes of it, with stem_words_full (also if both are set) by what the full stemmer makes of it, before it is lowercased and its whitespace merged; tokens which replace elements are not stemmed. The ranges of nodes, character and byte positions are those of the stemmed text. Stemming never comes with a wrong back mapping: as long as it is not supported, DNM construction panics if both are asked for and there is text.",
  ["inputs", "configurations"], "every document of the bounded shape and every combination of the options",
  "The tests of the stemmer need a C library; none combines it with the other options.",
  ["src/dnm/mod.rs", "src/dnm/parameters.rs"], [("stem_words / text_node_create", "src/dnm/mod.rs")],
  "The stemmer is a model: a function that changes some words and shortens texts.")
P("R01", "DNMRange text, trimming and sub-ranges are exact in characters",
  "A range [start,end) of a DNM reads exactly those plaintext characters; truncation drops exactly the trailing whitespace and trim exactly the surrounding whitespace (a blank range trims to the empty range at its end). Sub-ranges by character offset are relative to the range; a sub-range by byte offsets covers the characters the bytes lie in. All of this counts characters, never bytes.",
  ["inputs"], "every text, every range of it and every sub-range",
  "The tests use ASCII texts and a few fixed offsets; offsets go wrong only for particular mixes of multi-byte characters and blanks.",
  ["src/dnm/range.rs"], [("DNMRange::get_plaintext / trim / get_subrange_from_byte_offsets", "src/dnm/range.rs")])
P("R02", "A serialized DNMRange deserializes to the same range",
  "Serializing any non-document-final range to an arange XPointer and deserializing it against the same document gives the same start and end, where an end point inside a replaced element (token) moves out to the boundary of that token. Holds with or without id attributes, namespaces, comments, skipped elements and empty text.",
  ["inputs", "configurations"], "every DOM tree of the bounded shape and every start and end in its plaintext",
  "The tests serialize a handful of word ranges of one document; token ends, document end, ids and neighbours of comments are not among them.",
  ["src/dnm/range.rs"], [("DNMRange::serialize / deserialize", "src/dnm/range.rs")],
  "One known finding (R02-root) is listed.")
P("T01", "Sentences partition the text: ordered, disjoint, trimmed, nothing lost",
  "For every text the sentences returned are non-empty, trimmed, in order and disjoint, their offsets count characters of the DNM, only whitespace lies between consecutive sentences and in front of the first one, and what follows the last one contains no letter.",
  ["inputs"], "every text",
  "The tests tokenize a few ASCII paragraphs; what is lost or misplaced depends on the position of marks, blanks and multi-byte characters.",
  ["src/tokenizer.rs"], [("Tokenizer::sentences", "src/tokenizer.rs")])
P("T02", "Words and punctuation tokens are exactly the runs of the sentence",
  "The words of a sentence are its maximal runs of alphanumeric characters and apostrophes that are followed by an s. Tokens with punctuation are alphanumeric runs, single other characters, and an apostrophe together with a following run that is a contraction suffix (t, s, un, th, ll, d, ve, il, re, m); whitespace is skipped. Both keep text order and exact character offsets within the document.",
  ["inputs"], "every sentence, at any offset in the text",
  "Two tests count words of fixed English sentences; boundaries depend on every neighbouring character.",
  ["src/tokenizer.rs"], [("Tokenizer::words / words_and_punct", "src/tokenizer.rs")])
P("T03", "Sentence breaks follow the rules for marks, abbreviations and context",
  "A full stop or colon ends a sentence exactly if the next word is capitalized and either a stopword or the word before the mark is neither a known abbreviation nor a single letter other than I, or if an opening bracket, quote or asterisk follows, or (full stop only) a formula follows a non-abbreviation. A question or exclamation mark does unless enclosed in brackets or quotes. A blank line does unless a lowercase letter, a formula or no letter follows; a single line break does exactly between a formula and a capital letter. The mark stays with the sentence it ends.",
  ["inputs"], "every word in front of the mark, gap and following text",
  "The tests know three abbreviations; the rules interact over left word, mark, gap and right context.",
  ["src/tokenizer.rs", "src/stopwords.rs"], [("Tokenizer::sentences", "src/tokenizer.rs"), ("Tokenizer::default (abbreviations)", "src/tokenizer.rs"), ("load_stopwords", "src/stopwords.rs")])
P("C01", "Canonical form and hash depend on linguistic content only",
  "The basic canonical form of a node writes each element with its name and its class attribute (classes sorted, separated by one blank, no attribute if there are none), its non-blank texts as they read in the DNM, and its children in order; comments, other attributes, annotation and annotation-xml elements are left out and semantics elements are unwrapped. The hash is the MD5 sum of that form, for the document and for each node.",
  ["inputs"], "every DOM tree",
  "No test covers canonical forms of more than one document; two documents that must agree or differ are infinitely many.",
  ["src/dnm/c14n.rs"], [("DNM::to_c14n_basic / node_c14n_basic / to_hash_basic / node_hash_basic", "src/dnm/c14n.rs")])
P("C02", "A rebuilt AMS paragraph has one sentence per line with formulas restored",
  "from_ams_paragraph_str makes each non-empty line a sentence: its first character is capitalized, lines are joined with ' . ', each maximal run of math lexemes (words with an underscore, or the lexeme NUM and its kind) becomes the one word mathformula, and every other word is kept in order.",
  ["inputs"], "every paragraph of words and lexemes over any number of lines",
  "One test rebuilds one paragraph; runs of lexemes at line starts and ends and empty lines are not sampled.",
  ["src/dnm/mod.rs"], [("DNM::from_ams_paragraph_str / rebuild_normalized_text", "src/dnm/mod.rs")])
P("L01", "Math lexemes are generalized per lexeme, in document order",
  "lexematize_math returns, for the x-llamapun annotations below the node in document order, their lexemes separated by one blank: NUMBER, ATOM, ARRAY and superscript operators lose their content (NUM, ATOM, ARRAY, ...OP), other colons and dashes become underscores, group starts and ends are lexemes of their own even if fused with a neighbour. Other annotations do not count; without lexemes the result is mathformula.",
  ["inputs"], "every set of annotations and every lexeme sequence",
  "No test calls it; the rewriting is a chain of regular expressions whose interactions depend on neighbouring lexemes.",
  ["src/dnm/node.rs"], [("lexematize_math", "src/dnm/node.rs")])
P("L02", "The llamapun preset replaces formulas and references and drops non-prose",
  "With DNMParameters::llamapun_normalization, math reads as mathformula, display equations as mathformula on a line of its own, cite as CitationElement, ltx_ref as REF, each set off by blanks; bibliographies, notes, TOCs, author lists, figure/table tags, images, tables, head and footer contribute nothing; all other text is kept in order, transliterated to ASCII, with whitespace as written and back mapping on.",
  ["inputs"], "every document over the ruled and unruled element names and classes",
  "Tests check single documents; rule tables go wrong per name, class and their combination.",
  ["src/dnm/parameters.rs", "src/dnm/mod.rs"], [("DNMParameters::llamapun_normalization", "src/dnm/parameters.rs")])
P("P01", "A pattern file loads exactly if it is well-formed, and keeps its rules",
  "PatternFile::load accepts a file exactly if every element is where the pattern language allows it with its required attributes, known tags and match types and number of children, rule names are unique per kind and every reference has a definition (before or after its use). Comments and whitespace between elements never matter, any other stray text is refused. Each rule is found under its name, with its trimmed description; loading never panics.",
  ["inputs"], "every pattern file of the bounded shape: rules, names, references, text, comments, defects",
  "No test loads a pattern file; acceptance depends on each element, attribute and on the order of rules.",
  ["src/patterns/rules.rs", "src/patterns/utils.rs"], [("PatternFile::load and load_from_node", "src/patterns/rules.rs"), ("get_non_text_children / get_only_child / assert_no_child / get_simple_node_content", "src/patterns/utils.rs")])
P("P02", "match_sentence finds exactly the matches of a rule, with markers in place",
  "For every rule, sentence, phrase tree and formula, match_sentence reports for each word position what the pattern language defines: words, tags, negation, alternatives (first, atleastone, any, longest), sequences, phrases (shortest or longest with start and end conditions), formulas by name, symbol, children (starts_with, exact, ends_with, arbitrary) and descendants at any depth. Markers nest like the patterns, carry name and tags, and cover exactly the matched characters or node; a marker around an empty match yields nothing.",
  ["inputs"], "every pattern, sentence, tagging, phrase tree and formula within the bounds",
  "No test matches a pattern; the outcome depends on the combination of pattern tree, words and trees.",
  ["src/patterns/matching.rs", "src/patterns/rules.rs", "src/patterns/utils.rs"], [("match_sentence / match_seq / match_word / match_math", "src/patterns/matching.rs")],
  "The senna sentence is built by the harness.")

P("X01", "Corpus walks visit every selected readable document exactly once",
  "Iterating a corpus loads each file below its path whose name ends with the corpus extension (without one: .html or .xhtml) exactly once and nothing else, at any depth, hidden or not, as XML if its name ends with .xhtml and as HTML otherwise; a file that cannot be read or parsed, an empty file, a directory or a place the walk itself cannot enter only leaves itself out. The parallel walk calls its closure once for the same documents except those that are hidden or in a hidden directory.",
  ["inputs", "faults"], "every tree of files and directories with any names, and every set of unreadable files",
  "The tests walk a fixed directory of readable documents; an unreadable entry or a name in an unusual place is not among them.",
  ["src/data.rs", "src/parallel_data/corpus.rs"], [("DocumentIterator::next / Corpus::load_doc", "src/data.rs"), ("Corpus::catalog_with_parallel_walk", "src/parallel_data/corpus.rs")],
  "The directory walkers are models (walkdir, jwalk), with the options the code sets.")
P("X02", "A parallel catalog is the sum over all documents, whatever the schedule",
  "catalog_with_parallel_walk and catalogs_with_parallel_walk return, for each key, the sum of the counts the closure reported under it over all documents, and no other key, for every closure, number of documents, order in which these are processed and way in which partial results are combined (including combinations with empty partial results); a document whose report is empty changes nothing.",
  ["inputs", "schedules"], "every set of reports and every order and grouping of the parallel reduction",
  "One test sums fixed counts under whatever schedule happens; the result must not depend on it.",
  ["src/parallel_data/corpus.rs"], [("Corpus::catalog_with_parallel_walk / catalogs_with_parallel_walk", "src/parallel_data/corpus.rs")],
  "rayon is a model: bridge yields any order, reduce and fold group arbitrarily and insert the identity anywhere.")
P("X03", "Document selectors yield exactly the designated elements in document order",
  "Paragraphs are the div elements of class ltx_para without an ltx_ERROR element inside or among their preceding siblings; headings are h1..h6 of class ltx_title but not ltx_title_document without errors inside; extended paragraphs are the first p.ltx_p of an abstract, the first keywords, all paragraphs, the first acknowledgement and all figure captions, each without errors inside, in this order; formulas are math, references span or a with ltx_ref. Each is found once, in document order, wherever it is nested and whether or not the elements are in a namespace; the serial and the parallel document agree. An XPath expression or closure selects exactly its nodes, a malformed one none.",
  ["inputs"], "every document tree over the element names and classes that matter",
  "The tests count elements of single documents; which elements count depends on name, classes, error elements and nesting.",
  ["src/data.rs", "src/parallel_data/document.rs"], [("Document::paragraph_iter / paragraph_nodes / get_math_nodes / get_ref_nodes", "src/data.rs"), ("Document::paragraph_iter / extended_paragraph_iter / heading_iter / xpath_selector_iter / filter_iter / get_xpath_nodes", "src/parallel_data/document.rs")])
P("X04", "Iterating a document yields the sentences and words of its text, none lost",
  "For each paragraph, sentence iteration yields exactly the tokenizer's non-empty sentences of the paragraph's llamapun plaintext, and word iteration (of a sentence, or of the paragraph as a whole; words only, or with punctuation) exactly the tokenizer's words of it, in order with the same offsets; sentences of the whole document follow the corpus parameters. Tagging a sentence with senna (under the corpus's options) yields each of senna's words once, with its tag and its exact characters. Iterating again yields the same.",
  ["inputs"], "every text of the bounded shape, serial and parallel documents",
  "Tests count sentences and words of one document; offsets and skipped pieces go unnoticed.",
  ["src/data.rs", "src/parallel_data/document.rs"], [("ParagraphIterator / SentenceIterator / SimpleWordIterator / SennaWordIterator", "src/data.rs"), ("DNMRangeIterator / ItemDNM::iter / word_iter / word_and_punct_iter", "src/parallel_data/document.rs")],
  "senna is a model that splits at blanks and tags every word NN.")
P("X05", "The token model counts every word once and writes only complete lines",
  "token_model::extract reports over all documents of a corpus the numbers of documents, paragraphs, words, formulas, citations, numbers and overlong words, each token counted under exactly one of the last five; the words of a paragraph behind an overlong one are not counted. It writes to the model file one line for each paragraph without overlong words, with its normalized tokens in order, formulas replaced by their lexemes or left out as asked; the lines of a document stay together in order, for every schedule.",
  ["inputs", "schedules"], "every small corpus over words, punctuation, formulas, citations, numbers and overlong words",
  "No test runs the token model; counts and file depend on each token's kind and on the schedule.",
  ["src/util/token_model.rs", "src/util/data_helpers.rs"], [("extract", "src/util/token_model.rs"), ("ams_normalize_word_range", "src/util/data_helpers.rs")],
  "Files are kept in memory; the document order is permuted by the model of rayon.")
P("X06", "Normalized words come one sentence a line, without broken paragraphs",
  "path_to_words (and word_tokenize_for_vec2doc, its C interface) returns, for each paragraph of the document in order, its normalized words each followed by a blank, a line break after each sentence; words are lowercased without punctuation, numbers are NUM, citations citationelement, formulas their lexemes or mathformula. A paragraph with an overlong word is left out as a whole, the others stay.",
  ["inputs"], "every small document over words, formulas, citations, numbers, overlong words and sentence ends",
  "No test covers it; the output depends on each word's kind and place.",
  ["src/util/path_helpers.rs", "src/extern_use.rs"], [("path_to_words", "src/util/path_helpers.rs"), ("word_tokenize_for_vec2doc", "src/extern_use.rs")])
P("U01", "Word normalization maps each word to its class by the options",
  "ams_normalize_word_range lowercases a word exactly if case is discarded, drops all non-alphanumeric characters exactly if punctuation is discarded, refuses it as overlong if more than 25 bytes remain, and then returns NUM for an integer, float or subfigure number (with optional minus sign and exponent), citationelement for a citation in any case, the lexemes (or mathformula) for a formula or nothing if formulas are discarded, and any other word as it is.",
  ["inputs"], "every word over letters, digits, signs and multi-byte characters, every option",
  "No test calls it; options, numbers and lengths interact.",
  ["src/util/data_helpers.rs"], [("ams_normalize_word_range", "src/util/data_helpers.rs")])
P("U02", "Heading normalization finds the type of a heading and never joins words",
  "normalize_heading_title maps a heading made of a known type (singular or plural) with numbering (roman numerals, NUM, single letters), leading or trailing fillers (the, list of, of, see...) and any blanks around to the name of that type, also where other words follow or, unless it begins with another type, precede it; its result is its own normal form. Numbers between other words are dropped and these words stay apart. heading_from_node_aux gives the normalized words of a heading element in order without numbers, and nothing if one of them is overlong.",
  ["inputs"], "every heading of the bounded shape",
  "No test normalizes a heading; ten regular expressions feed each other.",
  ["src/util/data_helpers.rs"], [("normalize_heading_title / heading_from_node_aux", "src/util/data_helpers.rs")])
P("U03", "Only texts surely not in English or not in Latin script are left out",
  "invalid_for_english_latin is true of a text exactly if the language classifier (whatlang), given the text without its formula, citation and reference tokens, finds a script other than Latin, or a language other than English with a confidence above 0.93. A text on which the classifier has no verdict is not left out.",
  ["inputs"], "every text of the bounded shape and every verdict of the classifier",
  "No test covers it; the result depends on script, language and confidence together.",
  ["src/util/data_helpers.rs"], [("invalid_for_english_latin", "src/util/data_helpers.rs")])
P("U04", "A plot shows every entry at the binary logarithm of its frequency",
  "plot_simple draws one point per entry of the list, none left out or merged, at the entry's key and the base-2 logarithm of its frequency, with the axis labels and the title given, and writes one PNG image to the path given.",
  ["inputs"], "every list of the bounded shape",
  "No test draws a plot.",
  ["src/util/plot.rs"], [("plot_simple", "src/util/plot.rs")])
P("A01", "Environment names and AMS markup are recognized consistently",
  "Each AMS and structural environment has a name of its own and is found again under it (structural ones in any case); the names authors use (2508 of them) lead to their environment, any other name to none. class_to_env returns the environment named by the first ltx_theorem_<name> class, wherever it stands in the attribute, theorem for a bare ltx_theorem, proof for ltx_proof, and nothing for other classes. A document has AMS markup exactly if some div, at any depth, has an ltx_theorem class, in a namespace or not.",
  ["inputs"], "every environment, class attribute and document of the bounded shape",
  "No test covers it; names, abbreviations and classes form large tables.",
  ["src/ams.rs"], [("normalize_env / class_to_env / StructuralEnv::from / has_markup", "src/ams.rs")])
P("S01", "Stems are those of morpha",
  "The stemmer gives each word the stem the morpha finite-state machine gives it; the full stemmer repeats this until nothing changes.",
  ["inputs"], "every text", "The stemmer tests sample words.",
  ["src/dnm/mod.rs"], [("stem_words: rustmorpha::stem / full_stem", "src/dnm/mod.rs")])
NA.append({"property": "S01", "reason": "rustmorpha wraps a flex-generated C scanner whose sources are not available offline (the crate is not vendored and the two stemming tests are outside the stable set); there is no code to encode, and with a model of the stemmer the statement is about the model. What llamapun does with the stemmer, whatever that returns, is D03."})
P("S02", "Tags and parse trees of a sentence are those of senna",
  "senna_iter and match_sentence work on the part-of-speech tags and the parse tree that the SENNA C library computes for the text of the sentence.",
  ["inputs"], "every sentence", "The senna tests are outside the stable set.",
  ["src/data.rs"], [("Sentence::senna_parse", "src/data.rs")])
NA.append({"property": "S02", "reason": "SENNA is a C library with several hundred MB of neural network weights, neither present here; what llamapun does with its output is decided by X04 and P02 for arbitrary sentences, trees and tags built by the harness."})
P("S03", "Documents are parsed in parallel without data races",
  "Parsing and reading libxml documents from several rayon threads at once never races on shared libxml2 state.",
  ["schedules"], "every interleaving of threads", "Races show only under rare schedules.",
  ["src/parallel_data/corpus.rs"], [("Corpus::catalog_with_parallel_walk", "src/parallel_data/corpus.rs")])
NA.append({"property": "S03", "reason": "The shared state is in the C library libxml2 and in rayon's and jwalk's thread pools, which are not available as sources here and are modelled; X02 and X05 decide the order- and grouping-independence of llamapun's own code on top of them."})
