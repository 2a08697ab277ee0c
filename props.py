"""What each property's check executes: entry points with their parameters, and the bounds these stand for."""

COMMON_ASSUMPTIONS = [
    "the executed code is the LLVM IR rustc emits from /repo's working tree and the standard library (release profile, riscv64, no allocator failure, panic=abort)",
    "third-party crates that need C code, files or threads (libxml, senna, rustmorpha, whatlang, unidecode, rust-crypto, walkdir, jwalk, rayon, gnuplot) are executable models in models/; the regex, circular-queue, lazy_static and std code is the real code",
    "allocations succeed; memory addresses are concrete",
]


def e(spec, bounds="", validate=10):
    return {"spec": spec, "bounds": bounds, "validate": validate}


PROPS = {
    "N01": {
        "quick": [e("h_dictionary:4,0", "every sequence of 4 insertions of words of length 0..2 over {a,b,c}"),
                  e("h_dictionary:4,1", "same, starting from Dictionary::default()"), e("h_dictionary:3,0,1", "3 insertions of words over {a, A, blank, é, -, 1}"), e("h_dictionary:2,0,1,4", "2 insertions of words of up to 4 characters"),
                  e("h_dictionary:2,0,2,2", "control, combining and other unusual characters"), e("h_dictionary:2,0,0,2,300", "after 300 other words"), e("h_dictionary:2,0,0,1,3,70", "words of 70 characters and more")],
        "thorough": [e("h_dictionary:2,0,0,2,3000"), e("h_dictionary:3,0,2,2"), e("h_dictionary:6,0", "6 insertions"), e("h_dictionary:4,0,1"), e("h_dictionary:2,0,1,6")],
        "reach": ["two words", "repeated word"],
        "bounds": "up to 4 insertions (thorough: 6), words of length 0..2 over a 3-letter alphabet, 3 (thorough 4) over letters of either case, blank, dash, digit, and 2 words of up to 4 (thorough 6) of these",
    },
    "N02": {
        "quick": [e("h_record:5,1,2", "2 sequences of up to 5 words over 2 words, n=1"), e("h_record:5,2,2", "same, n=2"), e("h_record:5,3,2", "same, n=3"),
                  e("h_anchored:9,2,1,1,1", "9 tokens over {word, anchor, ignored token}, n=2, window 1"), e("h_anchored:9,2,2,1,1", "same, window 2"),
                  e("h_anchored:7,1,3,1,1", "7 tokens, n=1, window 3"), e("h_anchored:10,3,3,1,0", "10 words over {word, anchor}, n=3, window 3"),
                  e("h_anchored:12,2,4,1,0", "12 words, n=2, window 4"), e("h_anchored:5,2,2,2,0", "2 contents of up to 5 words, n=2, window 2"),
                  e("h_anchored:6,1,1,2,0", "2 contents of up to 6 words, n=1, window 1"), e("h_anchored:4,1,1,1,2", "4 tokens of 10 kinds (prefixes, cases and punctuation around the anchor), n=1, window 1"),
                  e("h_anchored:4,2,2,1,2", "same, n=2, window 2"),
                  e("h_record:3,2,2,70", "words of 70 characters"), e("h_record:3,2,2,0,300", "after a sequence of 300 words"), e("h_record:4,3,1,0,300")],
        "thorough": [e("h_record:3,2,2,0,5000"), e("h_anchored:5,2,1,1,2"), e("h_record:4,2,3", "3 sequences of up to 4 words"), e("h_anchored:11,2,2,1,1", "11 tokens"), e("h_anchored:16,2,3,1,0", "16 words"),
                     e("h_anchored:16,4,5,1,0", "16 words, n=4, window 5"), e("h_anchored:8,2,2,2,0", "2 contents of up to 8 words")],
        "reach": ["word near an anchor", "word away from anchors", "repeated n-gram", "short sequence", "ignored token that contains the anchor"],
        "bounds": "n in 1..3 (thorough 4), window 1..4 (thorough 5), contents of up to 12 words (thorough 16) over {other word, anchor, non-alphanumeric token}; n>=1, window>=1 and a set anchor are preconditions",
    },
    "D01": {
        "quick": [e("h_dnm:2,0,0,0,1,0", "2 items (text or p element), any character of 13 classes, all transformations, both whitespace modes, with/without back mapping"),
                  e("h_dnm:3,0,0,3,1,0", "3 items over characters that change length when lowercased or transliterated"),
                  e("h_dnm:2,1,0,2,0,0", "2 items over 5 element names x 8 class attributes with Normalize/FunctionNormalize/Skip/Enter rules, token wrapping"),
                  e("h_dnm:1,1,1,0,1,0", "1 item with a nested element, all transformations"), e("h_dnm:2,0,1,0,1,0", "2 items with nested elements"),
                  e("h_dnm:4,0,0,2,0,0", "4 items, 3 character classes"), e("h_dnm_str:4,0", "from_str on every text of up to 4 characters of 13 classes"), e("h_dnm_long:300,1,0", "after 300 characters, in one text or in 60 elements")],
        "thorough": [e("h_dnm_long:300,2,0"), e("h_dnm:2,1,1,2,0,0"), e("h_dnm:3,0,0,0,1,0"), e("h_dnm:5,0,0,1,0,0"), e("h_dnm:3,1,0,2,0,0")],
        "reach": ["long document", "character of a text node", "character of a token", "character read as several or none"],
        "bounds": "documents of up to 4 items (text runs or elements, one level of nesting), 1 (thorough 2) item behind 300 fixed characters, characters from a 13-class alphabet (ASCII letters/digit/blanks/punctuation, 2-, 3- and 4-byte characters, Unicode blanks)",
    },
    "D02": {
        "quick": [e("h_dnm:2,0,0,0,1,1"), e("h_dnm:3,0,0,3,1,1"), e("h_dnm:2,1,0,2,0,1"), e("h_dnm:1,1,1,0,1,1"), e("h_dnm:2,0,1,0,1,1"), e("h_dnm:4,0,0,2,0,1"),
                  e("h_dnm_str:4,1"), e("h_dnm_default:2", "2 items under the default parameters"), e("h_dnm_names:0", "classes close to those with a rule"), e("h_dnm_names:1", "names close to those with a rule"), e("h_dnm_long:300,1,1", "after 300 characters"), e("h_dnm_order", "elements matching two class rules, 6 hash seeds", validate=3)],
        "thorough": [e("h_dnm:2,1,1,2,0,1"), e("h_dnm:3,0,0,0,1,1"), e("h_dnm:5,0,0,1,0,1"), e("h_dnm:3,1,0,2,0,1")],
        "reach": ["script or style", "character data section", "skipped element", "element replaced by a token", "long document", "an unknown class or name, close to one with a rule", "a class or name with a rule"],
        "bounds": "as D01; every combination of whitespace normalization, token wrapping, lowercasing and transliteration; rules by element name and class",
    },
    "D03": {
        "quick": [e("h_dnm:3,0,0,0,1,1,1", "3 items of texts and elements, stemmed once or fully"), e("h_dnm:1,1,1,0,1,1,1", "also elements with rules"), e("h_dnm:2,0,1,0,1,1,1"), e("h_dnm:2,0,1,0,1,0,1", "positions"),
                  e("h_dnm:1,0,0,0,1,1,1,100", "behind 100 texts")],
        "thorough": [e("h_dnm:2,1,0,0,1,1,1"), e("h_dnm:4,0,0,0,1,1,1")],
        "reach": ["stemmed text", "element replaced by a token"],
        "bounds": "documents of up to 3 (thorough 4) items of one symbolic character of 7 classes each, elements with rules by name and class, every combination of stemming, back mapping, whitespace normalization, token wrapping, lowercasing and transliteration; 1 item behind 100 texts; the stemmer is a model",
    },
    "R01": {
        "quick": [e("h_range:4,0", "every text of up to 4 characters of 13 classes, every range: text, truncation, trimming, node"),
                  e("h_range:4,1", "texts over 1-, 2-, 3- and 4-byte characters, every range and every sub-range by characters and by bytes"),
                  e("h_range:2,0,300", "2 characters at the end of a text of 300"), e("h_range:2,1,300")],
        "thorough": [e("h_range:5,0"), e("h_range:5,1")],
        "reach": ["blank range", "leading blanks", "trailing blanks", "long range", "byte range ends within a character", "empty byte range"],
        "bounds": "texts of up to 4 characters (thorough 5) from 13 character classes, every range and sub-range; 2 characters behind 300 fixed ones, ranges that start or end near them",
    },
    "R02": {
        "quick": [e("h_xptr:2,0,0,0", "2 parts (text, token element, entered element, skipped element, comment; with or without id), every range"),
                  e("h_xptr:2,1,1,0", "same, in a default namespace"), e("h_xptr:2,1,0,1", "whitespace normalization"), e("h_xptr:3,1,0,0", "3 parts"),
                  e("h_xptr:2,0,0,0,1", "2 parts of an element inside of a document, text around"), e("h_xptr:2,1,1,1,1"),
                  e("h_xptr_root", "names repeated below the root"), e("h_xptr_ids:0", "ids of any characters"), e("h_xptr_ids:1", "many siblings, texts of 100 and more characters")],
        "thorough": [e("h_xptr:3,1,0,0,1"), e("h_xptr:3,1,1,1"), e("h_xptr:3,0,0,1")],
        "reach": ["character data section", "end in front of a token", "end inside a token", "end of the text", "start in a token", "last token of a part of the document", "comma in an id", "quote in an id", "offset of several digits"],
        "bounds": "bodies of up to 3 parts, every start and end; a section with an id of 2 symbolic characters; a section behind 22 siblings and a text of 140 characters; not covered: ranges that end in a token which is the last node of the document (documented as not representable), transliterated or lowercased documents",
    },
    "T01": {
        "quick": [e("h_sent:6,0", "every text of up to 6 characters of 12 classes"), e("h_sent:4,1", "4 pieces of 23 (words, abbreviations, marks, blanks, long words and numbers)"),
                  e("h_sent:6,2", "6 pieces of 9"), e("h_sent:3,3", "3 characters of 34 unusual ones"), e("h_sent:2,4,300", "2 pieces behind 300 characters")],
        "thorough": [e("h_sent:7,0"), e("h_sent:5,1"), e("h_sent:7,2")],
        "reach": ["one sentence", "several sentences", "text after the last sentence", "long text"],
        "bounds": "texts of up to 6 arbitrary characters (thorough 7) of 12 classes, or up to 6 pieces (thorough 7) from a vocabulary of words, marks and blanks; 3 of 34 unusual characters; 2 pieces behind 300 fixed characters",
    },
    "T02": {
        "quick": [e("h_words:5,0,0", "words of every text of up to 5 characters of 10 classes, inside a longer text"), e("h_words:4,1,0", "tokens, up to 4 characters"),
                  e("h_words:7,1,1", "tokens, up to 7 characters over s,t,d,u,n, both apostrophes and blank"), e("h_words:7,0,1", "words over the same"),
                  e("h_words:4,1,2", "contractions: up to 4 letters a-z behind either apostrophe, with or without a word in front, a blank or an s behind"), e("h_words:4,0,2", "words of these"),
                  e("h_words:3,0,3", "3 characters of 34 unusual ones"), e("h_words:3,1,3"), e("h_words:2,0,0,300", "2 characters behind 300"), e("h_words:2,1,0,300")],
        "thorough": [e("h_words:5,1,0"), e("h_words:9,1,1"), e("h_words:9,0,1")],
        "reach": ["several words", "apostrophe suffix", "long sentence"],
        "bounds": "sentences of up to 5 characters of 10 classes, or up to 7 (thorough 9) over the letters of contractions, apostrophes and blank; 3 of 34 unusual characters; 2 behind 300 fixed ones",
    },
    "T03": {
        "quick": [e("h_breaks:0,0", "20 left contexts x 2 marks x 7 gaps x 26 right contexts"), e("h_breaks:1,0", "224 abbreviations x 2 marks x 7 gaps x 26 right contexts"), e("h_breaks:11,1", "every letter in front of the mark"), e("h_breaks:11,1,1", "same, capitalized"),
                  e("h_breaks:2,1", "every 2-letter word in front of the mark"), e("h_breaks:2,1,1", "same, capitalized"), e("h_breaks:3,1", "every 3-letter word"), e("h_breaks:3,1,1", "same, capitalized"), e("h_breaks:4,1", "every 4-letter word"), 
                  e("h_breaks2:0", "question and exclamation marks between any two of 13 characters"), e("h_breaks2:1", "blank lines and line breaks"), e("h_breaks2:2", "marks right after a break"), e("h_breaks3:3", "3 words of 7 with 2 marks of 7 between them"), e("h_breaks3:5,1", "5 words of 3 with 4 marks of 3 behind a long beginning"),
                  e("h_stopwords:0,250", "each of the 658 stopwords (those of letters only), as it is and with one more letter, behind an abbreviation"), e("h_stopwords:250,250"), e("h_stopwords:500,158")],
        "thorough": [e("h_breaks3:4"), e("h_breaks3:6,1"), e("h_breaks:4,1,1"), e("h_breaks:5,1"), e("h_breaks:5,1,1")],
        "reach": ["abbreviation", "bracket or quote", "capitalized stopword", "formula", "lowercase or number", "bracketed question mark", "question mark", "blank line", "line break", "mark right after the first word", "several marks", "each stopword", "longer than a stopword", "line break behind a formula"],
        "bounds": "two marks between three words (thorough 3 and 4) of 7; one mark between two contexts from the listed vocabularies; left words of 2, 3 and 4 letters exhaustively (thorough 5)",
    },
    "C01": {
        "quick": [e("h_canon:1,1,0,0"), e("h_canon:1,1,1,0"), e("h_canon:1,2,0,1", "nesting depth 3"), e("h_canon:2,1,0,1", "2 parts, depth 2"), e("h_canon:3,0,1,1", "3 parts"),
                  e("h_canon:2,0,0,0", "2 parts, 5 names x 10 class attributes"), e("h_canon:1,1,0,0,1", "texts as they are read: lowercased, transliterated, an element replaced by a token, one skipped by its class"), e("h_canon:2,1,0,1,1"),
                  e("h_canon_inv", "64 combinations of irrelevant markup")],
        "thorough": [e("h_canon:2,2,0,1"), e("h_canon:2,1,1,0"), e("h_canon:4,0,0,1")],
        "reach": ["script", "character data section", "annotation left out", "blank text", "classes", "comment left out", "semantics unwrapped", "text"],
        "bounds": "trees of up to 3 parts (thorough 4) and depth 3, 5 element names, 10 class attributes, text over letter/blank/CJK",
        "assumptions": ["MD5 is represented by an injective function"],
    },
    "C02": {
        "quick": [e("h_rebuild:4,1", "1 line of up to 4 words of 8 kinds"), e("h_rebuild:2,2", "2 lines of up to 2 words"), e("h_rebuild:1,4", "4 lines of up to 1 word"),
                  e("h_rebuild:3,1,1", "1 line of up to 3 words of 20 kinds: lexemes with several underscores, other letters, digits")],
        "thorough": [e("h_rebuild:5,1"), e("h_rebuild:2,3"), e("h_rebuild:3,2"), e("h_rebuild:4,1,1"), e("h_rebuild:2,2,1")],
        "reach": ["run of lexemes", "several lines", "empty line"],
        "bounds": "up to 4 lines, up to 4 words a line (thorough 5), words of 8 kinds separated by one blank",
    },
    "L01": {
        "quick": [e("h_lexemes:1,2,0", "1 lexeme of 7 roles with 2 symbolic characters"), e("h_lexemes:2,1,0", "2 lexemes"), e("h_lexemes:1,2,2", "2 characters of 36 unusual ones"), e("h_lexemes:3,1,1", "3 lexemes"), e("h_lexemes:2,1,0,1", "2 lexemes of 23 forms, 7 of them near misses of those that lose their content"), e("h_lexemes:1,1,2,1", "1 of these over unusual characters"),
                  e("h_lexeme_marks", "14 roles of group starts and ends, fused or separate"), e("h_lexeme_sources:2", "2 annotations in 3 places, 3 encodings, 2 element names")],
        "thorough": [e("h_lexemes:3,0,1,1"), e("h_lexemes:1,4,0"), e("h_lexemes:4,1,1"), e("h_lexeme_sources:3")],
        "reach": ["near miss of a general lexeme", "fused lexemes", "annotation that does not count", "no lexemes"],
        "bounds": "up to 3 lexemes (thorough 4) in an annotation, up to 2 annotations (thorough 3)",
    },
    "L02": {
        "quick": [e("h_preset:1,0", "1 text of 7 character classes and 1 element of 13 names x 26 class attributes"), e("h_preset:2,1,0,1", "2 elements of 8 names x 14 class attributes"),
                  e("h_preset:1,0,1", "an element in an element of 4 names x 4 class attributes"), e("h_preset:1,0,2,1", "3 nested elements")],
        "thorough": [e("h_preset:2,0,0,1"), e("h_preset:2,1"), e("h_preset:1,0,2"), e("h_preset:2,1,1,1")],
        "reach": ["nested elements", "left out by class", "left out by name", "read"],
        "bounds": "up to 2 elements of 8 names x 14 class attributes (1 of 13 x 26) with text around them, up to 3 nested ones",
    },
    "P01": {
        "quick": [e("h_load_names:2,5", "2 rules of 5 kinds, names and references symbolic"), e("h_load_names:3,2", "3 rules of 2 kinds"), e("h_load_names:3,5", "3 rules of 5 kinds"), e("h_load_names:2,2,1", "names of up to 2 characters in either case and with blanks"), e("h_load_names:1,5,1", "also of none"),
                  e("h_load_names:1,5,0,60", "behind 60 other rules"),
                  e("h_load_text:2", "text of up to 2 characters (letters, blanks of 1 to 2 bytes) in 9 places"), e("h_load_text_any:2", "text of up to 2 characters in front of or behind the content of each of 38 elements"), e("h_load_faults", "64 defects and the valid file", validate=65)],
        "thorough": [e("h_load_names:4,2"), e("h_load_text:4"), e("h_load_text_any:3")],
        "reach": ["character data section", "two rules of one name", "reference without definition", "rules", "stray text", "text where it belongs", "blank text anywhere", "stray text anywhere", "valid file", "faulty file", "many rules"],
        "bounds": "up to 3 rules (thorough 4) of the 5 kinds with every assignment of names and references, also 1 behind 60 others, and names of up to 2 characters of any kind; stray text of up to 2 characters in 9 places and in front of or behind the content of each of 38 elements; one defect of 64 kinds",
    },
    "P02": {
        "quick": [e("h_match_seq:2,1,3,1", "sequence patterns of depth 2, 3 words, every pattern a rule of its own, before and after its use"), e("h_match_seq:1,3,3,1", "3 alternatives or parts"),
                  e("h_match_seq:2,2,2,0,1", "depth 2, up to 2 parts, 2 words"), e("h_match_seq:3,1,2,0,1", "depth 3"),
                  e("h_match_word:2,0", "word patterns of depth 2"), e("h_match_word:1,1", "as rules"),
                  e("h_match_phrase:3,1,0,1", "phrases with a start condition"), e("h_match_phrase:3,0,1,1", "with an end condition"), e("h_match_phrase:2,1,1,2", "nested phrases, both conditions"),
                  e("h_match_phrase:3,0,0,2", "nested phrases, 3 words"),
                  e("h_match_math:1,1,0,0,2", "formula patterns of depth 1"), e("h_match_math:1,1,0,1,2", "formulas without a semantics element"), e("h_match_math:1,3,0,0,1", "formulas of depth 4"),
                  e("h_match_math:2,2,0,0,1", "formula patterns of depth 2"), e("h_match_math:1,0,0,0,3", "3 children"), e("h_match_math:2,0,0,0,2", "depth 2, 2 children"),
                  e("h_match_math:1,0,1,0,2", "as rules"), e("h_match_rules:0,4", "a recursive list rule, 4 words"), e("h_match_rules:1,1,2", "a recursive formula rule"), e("h_match_rules:2,3", "rules shared by others"), e("h_match_errors", "")],
        "thorough": [e("h_match_rules:0,6"), e("h_match_rules:1,2,2"), e("h_match_rules:2,4"), e("h_match_seq:2,2,2,0"), e("h_match_word:3,0"), e("h_match_phrase:3,1,1,1"), e("h_match_math:1,1,1,0,2"), e("h_match_math:2,1,1,0,1"), e("h_match_math:0,2,0,0,2")],
        "reach": ["marker around an empty sequence", "optional sequence left out", "negated word", "phrase", "nested markers", "children", "symbol", "several descendants", "no match", "reference to a rule", "error"],
        "bounds": "sequence, word and formula patterns of depth 2 (single branches: 3), sentences of 2 or 3 words with symbolic text, phrase trees of depth 2 over 3 words, formulas of depth 2 with 2 children, depth 1 with 3, or depth 4 with 1; rules shared by several others or recursive (not left-recursive); the sentence, its tags and phrase tree are given (senna is not executed)",
    },
    "X01": {
        "quick": [e("h_walk:1,6,0,1", "1 entry, up to 6 symbolic characters at the end of its name"), e("h_walk:2,2,0,1", "2 entries (files or directories)"), e("h_walk:2,1,0,1"),
                  e("h_walk:3,1,0,0", "3 files"), e("h_walk:3,0,1,1", "3 entries, parallel walk"),
                  e("h_walk:2,1,0,0,4", "2 files below 4 nested directories"), e("h_walk:1,1,0,1,9", "1 entry below 9 nested directories"), e("h_walk:2,0,0,1,0,1", "2 entries, the walk reports errors in between"), e("h_walk:1,1,0,1,0,0,40", "1 entry behind 40 documents")],
        "thorough": [e("h_walk:3,1,0,1"), e("h_walk:4,0,0,0"), e("h_walk:2,4,0,1")],
        "reach": ["hidden file", "empty file", "several documents", "unreadable entry next to a document", "document deep in the tree", "walk with an error", "many documents"],
        "bounds": "trees of up to 3 entries (thorough 4) of any nesting, also below up to 9 nested directories; names with any ending of up to 6 characters over {., h, t, m, l, x, 5, L, é, blank} or one of the usual endings; every set of missing and empty files, every set of errors of the walk itself; 3 extensions",
    },
    "X02": {
        "quick": [e("h_catalog:3,6,0,1", "3 documents, 1 key, 6 decisions of the schedule with 3 outcomes"), e("h_catalog:2,4,1,1", "2 documents, the pair of catalogs"),
                  e("h_catalog:3,3,1,1", "3 documents, the pair of catalogs"), e("h_catalog:2,3,0,3", "3 keys"), e("h_catalog:4,5,0,1", "4 documents"), e("h_catalog:1,2,0,1,40", "1 document among 41"), e("h_catalog:1,1,1,1,40")],
        "thorough": [e("h_catalog:4,8,0,1"), e("h_catalog:2,6,1,2"), e("h_catalog:3,6,1,1")],
        "reach": ["key reported by several documents", "many documents"],
        "bounds": "up to 4 documents, up to 3 keys, or 1 document among 41, any counts of 8 bits in two places of a 64-bit number, up to 6 decisions (thorough 8) on order, grouping and empty partial results",
    },
    "X03": {
        "quick": [e("h_selectors:3,0,2,1", "3 elements for paragraphs, up to 2 classes each"), e("h_selectors:3,1,1", "headings"), e("h_selectors:3,2,1", "abstracts"), e("h_selectors:3,3,1", "keywords, acknowledgements, captions"),
                  e("h_selectors:2,4,2", "formulas, references, XPath, closures"), e("h_selectors:3,4,1"), e("h_selectors:2,5,1", "all kinds of extended paragraphs"),
                  e("h_selectors:2,0,2,0,1", "classes behind others, in another order"), e("h_selectors:2,1,2,0,1"), e("h_selectors:2,2,1,0,1"), e("h_selectors:2,3,2,0,1"), e("h_selectors:2,4,1,0,1"), e("h_selectors:1,5,3,0,1"),
                  e("h_selectors:3,6,1", "errors in acknowledgements and keywords"), e("h_selectors:2,6,2"), e("h_selectors:3,7,1", "errors in captions"), e("h_selectors:2,8,1", "every heading"),
                  *[e("h_selectors:2,%d,1,0,0,1" % k, "in a namespace, default or with a prefix") for k in range(8)], e("h_selectors:1,4,1,0,0,2")],
        "thorough": [e("h_selectors:4,2,1,1"), e("h_selectors:3,5,1"), e("h_selectors:2,5,2"), e("h_selectors:4,0,1,1")],
        "reach": ["nested paragraphs", "paragraph with errors left out", "heading", "several abstract paragraphs", "several acknowledgements", "several captions", "reference", "reference behind another class", "name with a prefix"],
        "bounds": "3 elements (thorough 4) below the body in any nesting, each of 2 to 4 names with up to 2 classes whose last character is symbolic; 2 elements in a namespace",
    },
    "X04": {
        "quick": [e("h_iterators:2,0", "2 pieces of 10 kinds, with and without a formula, two parameter sets"), e("h_iterators:2,1", "2 characters of 7 classes"), e("h_iterators:3,1", "3 characters")],
        "thorough": [e("h_iterators:3,0"), e("h_iterators:4,1")],
        "reach": ["several sentences in a paragraph", "several words", "senna words", "senna words of more bytes than characters", "corpus parameters"],
        "bounds": "documents of two paragraphs, one of up to 3 pieces or characters (thorough 4) with a formula or not",
    },
    "X05": {
        "quick": [e("h_tokens:1,1,2,12", "1 paragraph of 2 pieces of 12 kinds"), e("h_tokens:1,1,1,12,0,300", "1 piece behind 300 words"), e("h_tokens:2,1,1,8", "2 documents in both orders"), e("h_tokens:1,2,1,11", "2 paragraphs"), e("h_tokens:1,2,1,5,1", "2 extended paragraphs of 5 kinds")],
        "thorough": [e("h_tokens:1,2,1,11,1"), e("h_tokens:1,1,3,7"), e("h_tokens:2,1,2,5"), e("h_tokens:1,2,2,6")],
        "reach": ["paragraph with an overlong word", "paragraph without words", "formulas discarded", "documents in the other order", "many words"],
        "bounds": "up to 2 documents, 2 paragraphs (also abstract, keywords, acknowledgement and captions), 2 pieces (thorough 3) of 12 kinds with symbolic letters; 1 piece behind 300 words; both orders of documents; formulas kept or discarded",
    },
    "X06": {
        "quick": [e("h_path_words:1,2,12", "1 paragraph of 2 pieces of 12 kinds"), e("h_path_words:1,1,12,0,300", "1 piece behind 300 words"), e("h_path_words:2,1,11", "2 paragraphs"), e("h_path_words:1,2,7,1", "through the C interface")],
        "thorough": [e("h_path_words:2,2,9"), e("h_path_words:1,3,11")],
        "reach": ["paragraph with an overlong word", "several sentences in the paragraph", "many words"],
        "bounds": "up to 2 paragraphs and 2 pieces (thorough 3) of 12 kinds with symbolic letters; 1 piece behind 300 words",
    },
    "U01": {
        "quick": [e("h_word:3,0,0", "up to 3 characters of 10 classes, every option"), e("h_word:5,1,0", "up to 5 characters of numbers"), e("h_word:3,2,1", "22 letters and up to 3 characters of 1 to 4 bytes"),
                  e("h_word:2,0,2", "a citation and 2 characters"), e("h_word:3,1,3", "23 digits and up to 3 characters"), e("h_word:2,0,4", "a formula word"), e("h_word:4,1,5", "behind a number with an exponent"), e("h_word:2,3,0", "2 characters of 35 unusual ones"), e("h_word:1,3,1", "22 letters and one of these")],
        "thorough": [e("h_word:5,0,0"), e("h_word:7,1,0"), e("h_word:4,2,1"), e("h_word:3,0,4"), e("h_word:3,3,0")],
        "reach": ["overlong word", "number", "citation", "case kept", "formula"],
        "bounds": "words of up to 5 symbolic characters (thorough 7), or 2 (thorough 3) of 35 unusual characters, also behind a fixed beginning of 10 to 23 characters; all 8 options",
    },
    "U02": {
        "quick": [e("h_heading_type:0,0", "32 types with 2 leading and 2 trailing fillers"), e("h_heading_type:10,10,0,4", "4 types with 27 leading and 5 trailing fillers"), e("h_heading_type:4,0,0,1", "roman numerals of up to 5 letters in front"), e("h_heading_type:0,4,3,1", "or behind"), e("h_heading_type:1,1,0,3", "3 types, roman numerals of up to 2 letters around"),
                  e("h_heading_type:2,2,4,2", "2 types, NUM"), e("h_heading_type:3,3,9,2", "2 types, letters"), e("h_heading_context:0,0", "51 types in front of other words"), e("h_heading_context:1,0", "32 types behind other words"), e("h_heading_context:2,0", "types in front and behind"), e("h_heading_context:3,1", "17 synonyms with numbers"),
                  e("h_heading_context:4,0", "types in the middle"), e("h_heading_words:3", "3 words and numbers"), e("h_heading_node:2,7", "2 pieces of a heading element"), e("h_heading_node:3,6", "3 pieces")],
        "thorough": [e("h_heading_type:10,10"), e("h_heading_type:3,3,0,10"), e("h_heading_type:13,13,0,1"), e("h_heading_words:4"), e("h_heading_context:0,3"), e("h_heading_context:1,3"), e("h_heading_context:2,1"), e("h_heading_context:4,3"), e("h_heading_node:3,7")],
        "reach": ["type in front of another word", "number between words", "heading with an overlong word", "type in context"],
        "bounds": "32 types with every filler, 51 types in front of and 32 types behind up to 2 other words, 17 synonyms, roman numerals of up to 5 letters over x, i, v, single letters, NUM, 27 leading and 5 trailing fillers, single and double blanks; 3 (thorough 4) other words and numbers; heading elements of 3 pieces",
    },
    "U03": {
        "quick": [e("h_language:2", "2 pieces of 6 kinds, every verdict of the classifier"), e("h_language:3", "3 pieces")],
        "thorough": [e("h_language:4")],
        "reach": ["another language, just not sure enough", "another language", "another script", "no verdict", "nothing but tokens"],
        "bounds": "texts of 3 (thorough 4) pieces: symbolic characters, blanks, formulas, citations, references; the classifier is arbitrary: no verdict, or one of 4 languages, 2 scripts, 6 confidences around the threshold",
    },
    "U04": {
        "quick": [e("h_plot:3", "up to 3 entries, any labels"), e("h_plot:1,0,300", "an entry behind 300 others")],
        "thorough": [e("h_plot:5")],
        "reach": ["several points", "many points"],
        "bounds": "up to 3 (thorough 5) entries of 4 keys and 5 frequencies, also one behind 300 others; labels, title and file name with a symbolic character; gnuplot itself is not executed, its calls are recorded",
    },
    "A01": {
        "quick": [e("h_envs:0", "all AMS environments", validate=20), e("h_envs:1", "all structural environments, any letter in either case", validate=20), e("h_envs:2", "26 abbreviations", validate=26),
                  e("h_envs:3", "class attributes with symbolic names of up to 3 characters"), e("h_envs:4", "documents of 2 elements"), e("h_envs:5,1,1", "names with a character in front, behind or both"),
                  e("h_envs:6", "2508 names in use, also as classes"), e("h_envs:7,1,12", "every name of 1 to 12 letters or digits")],
        "thorough": [e("h_envs:7,13,14", "every name of 13 to 26 letters or digits"), e("h_envs:3,5"), e("h_envs:4,3")],
        "reach": ["decorated name", "two environments", "markup in a namespace", "proof", "theorem by abbreviation", "markup", "name in use"],
        "bounds": "all 95 environments; class attributes with names of up to 3 characters over {t, h, m, 1, _, e} and a class in front and behind; documents of 2 nested or neighbouring elements; every environment name of up to 12 (thorough 26) letters or digits against a table of 2508 names in use",
    },
}
for p in PROPS.values():
    p.setdefault("assumptions", [])
